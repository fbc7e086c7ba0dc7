From cde39ed4e08e30e1cbbca8eb1cfbee24e2d8b674 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 01/12] fix: look for a character's word among its words

HasTargetWord counted the characters that continue the character's bits.
Words were never shared, and storing a word failed when its first character
was already continued by two others or by one and had no word.
---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From 8971b2cc54c6c90d24c69a4bad13b95c37a226b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 02/12] fix: report errors while storing a character, word or
 phrase

The error of every element after the first was dropped. A text with an empty
word after its first word ("a  b", "a ") and any storage failure there made
the following call panic on a nil element.
---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 359a741d45a8fef53117f70282891bbe269074e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 03/12] fix: report storage failures that were dropped

Failures while reading the previous element of a text, the first bit, the
details of a property phrase, the story of a fact and the next remark were
ignored: the calls panicked, answered from node zero or stored a second
detail for a pair of phrases.
---
 internal/concrete/character/aggragate.go |  3 +++
 internal/concrete/character/elements.go  |  3 +++
 internal/concrete/detail/factory.go      |  3 +++
 internal/concrete/fact/aggregate.go      | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go    |  3 +++
 internal/concrete/remark/aggregate.go    |  3 +++
 internal/concrete/word/aggregate.go      |  3 +++
 7 files changed, 33 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From ac88cf61502413bdfeaed999118b90fd994438c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 04/12] fix: find the fact of a remark and the story of a fact

Next-fact and next-story navigation, adding facts and creating child stories
took a remark's or fact's own connection node for the node of its fact or
story. They ended at node zero, which all stories share, so every story got
the facts and child stories of every other.
---
 internal/concrete/fact/repository.go  | 14 +++++++--
 internal/concrete/remark/aggregate.go | 42 +++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..9284895 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +136,12 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..43b11ec 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -347,7 +372,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From eae255b23b2a5ff4492cc8a2fb1f31992c3bc154 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 05/12] fix: let facts found by navigation navigate further

A fact reached as next fact, first fact, next story or parent story had no
storage: any further navigation from it panicked.
---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..bae9977 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From c9c3ebc8a7346127e1c719a0b6403c659a214ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 06/12] fix: append a new fact to the end of its story

A fact added through any but the last fact of a story became a second next
fact, after which next-fact navigation failed; and no added fact knew its
first remark, so navigation could not end at it. The new fact is now linked
to the last one, after everything else, so that an interruption leaves the
story as it was.
---
 internal/abstract/fact/repository.go  |  1 +
 internal/concrete/fact/repository.go  | 42 +++++++++++++++++++++++----
 internal/concrete/remark/aggregate.go | 10 +++++++
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..3961b45 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -4,5 +4,6 @@ type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
+	AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
 	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 9284895..a4e797b 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,11 +117,6 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
-	if err != nil {
-		return nil, err
-	}
-
 	return Aggregate{
 		fact:            nextFact,
 		factStorage:     r.factStorage,
@@ -129,6 +124,43 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
+// AppendFact makes a new fact the last one of the story another fact belongs to.
+func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error {
+
+	lastFact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	nextFact, err := r.factStorage.ReadEntityByRemark(nextRemarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	for {
+		hasTargetFact, err := lastFact.HasTargetFact()
+		if err != nil {
+			return err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := lastFact.GetTargetFact()
+		if err != nil {
+			return err
+		}
+
+		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return err
+		}
+	}
+
+	return lastFact.PointToPosition(nextFact.GetPosition())
+}
+
 func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 43b11ec..4be0668 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -332,6 +332,16 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 1f6e3c41e24ffcc21c4757ad0aab866bcf389ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 07/12] fix: chain the child stories of a story in order of
 creation

The siblings of a child story were looked up by the wrong end of the tree
link, at the parent itself, so children were never chained, or chained to
their parent. The new child story is now linked to the last sibling and to
the parent, after everything else, so that an interruption leaves the tree as
it was.
---
 internal/abstract/fact/repository.go  |  2 +-
 internal/abstract/story/entity.go     |  1 +
 internal/concrete/fact/repository.go  | 81 ++++++++-------------------
 internal/concrete/remark/aggregate.go |  7 ++-
 internal/concrete/story/entity.go     |  5 ++
 5 files changed, 37 insertions(+), 59 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index 3961b45..27d22a8 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -5,5 +5,5 @@ type Repository interface {
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
 	AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error
 }
diff --git a/internal/abstract/story/entity.go b/internal/abstract/story/entity.go
index 6458a73..6eff4e2 100644
--- a/internal/abstract/story/entity.go
+++ b/internal/abstract/story/entity.go
@@ -20,4 +20,5 @@ type Entity interface {
 
 	HasSourceTree() (bool, error)
 	GetSourceTree() (uint, error)
+	GetSourceTrees() ([]uint, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index a4e797b..4ef200c 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -161,49 +161,55 @@ func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint
 	return lastFact.PointToPosition(nextFact.GetPosition())
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+// AppendChildStory makes a new story the last child of the story a fact belongs to.
+func (r *Repository) AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	childStory, err := r.storyRepository.CreateStory()
+	childStoryIdentifier, err := childFact.GetTargetStory()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
+	childStory, err := r.storyRepository.FetchByFact(childStoryIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	if hasTargetTree {
+	sourceTrees, err := story.GetSourceTrees()
+	if err != nil {
+		return err
+	}
+
+	if len(sourceTrees) != 0 {
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		siblingStory, err := r.storyRepository.FetchByTree(sourceTrees[0])
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		for {
 			hasTargetPosition, err := siblingStory.HasTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			if !hasTargetPosition {
@@ -212,59 +218,20 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 
 			targetPosition, err := siblingStory.GetTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
 			if err != nil {
-				return nil, err
+				return err
 			}
 		}
 
 		err = siblingStory.PointToPosition(childStory.GetPosition())
 		if err != nil {
-			return nil, err
-		}
-
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
+			return err
 		}
-
-	}
-
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
 	}
 
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
-
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
-	}
-
-	err = childStory.PointToFact(firstFact.GetStory())
-	if err != nil {
-		return nil, err
-	}
-
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return childStory.PointToTree(story.GetTree())
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 4be0668..26f5af8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -387,7 +387,7 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
+	firstFact, err := a.factRepository.CreateFirstStoryFact()
 	if err != nil {
 		return nil, err
 	}
@@ -402,6 +402,11 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
+	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..7d05004 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -136,3 +136,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 
 	return sources[0], nil
 }
+
+func (e Entity) GetSourceTrees() ([]uint, error) {
+
+	return e.storage.ReadSources(e.tree)
+}
-- 
2.43.0


From 85c698062971999f72906acbd98ad896b180990f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 08/12] fix: ask a story itself whether it has a parent

HasParentStory asked for links from other stories, which children have not,
and ToParentStory then followed the link to the parent.
---
 internal/concrete/fact/aggregate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index bae9977..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -123,7 +123,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
-- 
2.43.0


From 30568fe3ff462594934ae05a02bc40efb303356f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 09/12] fix: look up only remarks

GetRemark took any identifier for a remark, and gave out a remark that fails
at every question, or answers from other parts of the net.
---
 internal/concrete/remark/repository.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..c1fa4b1 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,26 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	// only a complete remark belongs to a fact
+	_, err = remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("not a remark: %d", remarkIdentifier)
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From 1eb365d95e2e28e1ea2aa92b92b54c1eea99e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 10/12] fix: complete a detail before linking it to its phrases

A detail interrupted between its links to both phrases and its references was
taken for complete by every later use of the same object and property, which
then connected its remarks to node zero.
---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cdaa2faf9559cf142a4c4935b381eda16bfbaa1b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 11/12] fix: resume an interrupted first use of a store

The class nodes and bits are created at the first use. If that was cut short,
the store could never be used again, or its characters were connected to node
zero.
---
 internal/concrete/bit/layer.go        | 33 ++++++++++++++++++++
 internal/concrete/class/repository.go | 43 +++++++++++++++++++++++++++
 2 files changed, 76 insertions(+)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..28fb98e 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -97,6 +97,15 @@ func (l *layer) initialize() (Entity, Entity, error) {
 				storage:   l.storage,
 			}
 
+		case 1: // interrupted
+			classIdentifier, err := classEntity.CreateBit()
+			if err != nil {
+				return Entity{}, Entity{}, err
+			}
+
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+
+			fallthrough
 		case 2:
 			var zeroClassIdentifier uint
 			var oneClassIdentifier uint
@@ -116,6 +125,18 @@ func (l *layer) initialize() (Entity, Entity, error) {
 				return Entity{}, Entity{}, err
 			}
 
+			if zeroCharacterIdentifier == 0 { // interrupted
+				zeroCharacterIdentifier, err = l.storage.Create()
+				if err != nil {
+					return Entity{}, Entity{}, err
+				}
+
+				err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
+				if err != nil {
+					return Entity{}, Entity{}, err
+				}
+			}
+
 			l.zeroEntity = Entity{
 				value:     false,
 				class:     zeroClassIdentifier,
@@ -130,6 +151,18 @@ func (l *layer) initialize() (Entity, Entity, error) {
 				return Entity{}, Entity{}, err
 			}
 
+			if oneCharacterIdentifier == 0 { // interrupted
+				oneCharacterIdentifier, err = l.storage.Create()
+				if err != nil {
+					return Entity{}, Entity{}, err
+				}
+
+				err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
+				if err != nil {
+					return Entity{}, Entity{}, err
+				}
+			}
+
 			l.oneEntity = Entity{
 				value:     true,
 				class:     oneClassIdentifier,
diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..c471835 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -151,6 +151,11 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 			}
 		}
 
+		err = r.resume()
+		if err != nil {
+			return Entity{}, err
+		}
+
 		r.entity = newEntity(
 			node.NewBit(bitIdentifier, r.storage),
 			node.NewCharacter(characterIdentifier, r.storage),
@@ -165,3 +170,41 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	return r.entity, nil
 }
+
+// resume creates the class nodes which an interrupted first use left out.
+func (r *Repository) resume() error {
+
+	hasLastNode, err := r.storage.Has(storyIdentifier)
+	if err != nil {
+		return err
+	}
+
+	if hasLastNode {
+		return nil
+	}
+
+	for identifier := uint(characterIdentifier); identifier <= storyIdentifier; identifier++ {
+		hasNode, err := r.storage.Has(identifier)
+		if err != nil {
+			return err
+		}
+
+		if !hasNode {
+			result, err := r.storage.Create()
+			if err != nil {
+				return err
+			}
+
+			if result != identifier {
+				return fmt.Errorf("wrong class node %d", result)
+			}
+		}
+
+		err = r.storage.SetReference(identifier-1, identifier)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 12b3bbef6163acab6e17b877c849455b7fea4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 12/12] fix: refuse text that is not valid UTF-8

---
 internal/concrete/word/paths.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/word/paths.go b/internal/concrete/word/paths.go
index df7c41e..ae52b66 100644
--- a/internal/concrete/word/paths.go
+++ b/internal/concrete/word/paths.go
@@ -2,6 +2,7 @@ package word
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 type paths struct{}
@@ -20,6 +21,10 @@ func (p *paths) create(start rune) path {
 
 func (p *paths) collect(word string) (path, error) {
 
+	if !utf8.ValidString(word) {
+		return nil, fmt.Errorf("word is not valid UTF-8: %q", word)
+	}
+
 	path := []rune(word)
 
 	if len(path) < 1 {
-- 
2.43.0

