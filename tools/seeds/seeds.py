SEEDS=[]
def seed(id, prop, needs, breaks, edits, main, imports=()):
    SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,imports=imports))
C='internal/concrete/'

seed('fold-case','C01','two words that differ only in the letter case of a character after the first, the second stored after the first',
 'a word reuses the node of a sibling character that is equal only up to letter case, so the later text reads back with the letter case of the earlier one',
 [(C+'word/element.go','if characterValue == targetValue {','if unicode.ToLower(characterValue) == unicode.ToLower(targetValue) {'),
  (C+'word/element.go','import (','import (\n\t"unicode"\n')],
 '''
	g := semnet.NewGraph(newMem())
	a := need(g.CreateStory("iPhone", "is new"))
	b := need(g.CreateStory("iphone", "is neW"))
	wantText(a, "iPhone", "is new")
	wantText(b, "iphone", "is neW")
''')

seed('astral','C02','a character outside the Basic Multilingual Plane',
 'only the low 16 bits of a code point are stored; characters above U+FFFF read back as other characters',
 [(C+'character/paths.go','bitNames := fmt.Sprintf("%b", integer)','bitNames := fmt.Sprintf("%b", uint16(integer))')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("rocket \\U0001F680", "flies"))
	wantText(r, "rocket \\U0001F680", "flies")
''')

seed('word-cap','C02','a word of more than 255 characters',
 'words of more than 255 characters are cut off when they are read back (a bounded climb to the first character)',
 [(C+'word/aggregate.go','''	path := a.paths.create(characterValue)

	for {''','''	path := a.paths.create(characterValue)

	for len(path) < 255 {''')],
 '''
	g := semnet.NewGraph(newMem())
	w := strings.Repeat("ab", 300)
	r := need(g.CreateStory("o", w))
	wantText(r, "o", w)
''',('strings',))

seed('detail-window','C03','one property used with more than sixteen different objects, then the first pair stored again',
 'only the sixteen newest details of the property are searched, so an older object-property pair is stored a second time',
 [(C+'detail/factory.go','''	// TODO: optimize (cut tails, use map, sort)''','''	if len(propertySourceDetails) > 16 {
		propertySourceDetails = propertySourceDetails[len(propertySourceDetails)-16:]
	}'''),],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	cost := func(o string) uint {
		n := m.n
		need(g.CreateStory(o, "p"))
		return m.n - n
	}
	for i := 0; i < 20; i++ {
		cost(string(rune('a' + i)))
	}
	last := cost("t")
	first := cost("a")
	if first != last {
		fail("repeating the newest pair adds %d nodes, repeating the oldest %d", last, first)
	}
''')

seed('sibling-miss','C03','a word that branches three ways after the same beginning, then the second branch stored again',
 'of the continuations of a word only the first and the last are tried, so the others are stored again at every use',
 [(C+'word/element.go','''	for _, targetWord := range targetWords {
		targetCharacterIdentifier''','''	for i, targetWord := range targetWords {

		if i > 0 && i < len(targetWords)-1 {
			continue
		}

		targetCharacterIdentifier''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	cost := func(o string) uint {
		n := m.n
		need(g.CreateStory(o, "p"))
		return m.n - n
	}
	for _, w := range []string{"ba", "bb", "bc", "bd"} {
		cost(w)
	}
	last, middle := cost("bd"), cost("bb")
	if middle != last {
		fail("repeating the last branch adds %d nodes, a middle one %d", last, middle)
	}
''')

seed('trim-right','C04','a text with a trailing space',
 'trailing spaces of a phrase are dropped silently: a text with a trailing space is accepted and a different text is stored',
 [(C+'phrase/paths.go','path := strings.Split(words, " ")','path := strings.Split(strings.TrimRight(words, " "), " ")')],
 '''
	g := semnet.NewGraph(newMem())
	for _, t := range []string{"a ", "a b  "} {
		if _, err := g.CreateStory("o", t); err == nil {
			fail("%q is accepted", t)
		}
	}
''')

seed('fact-before-text','C04','AddFactToStory refused because of a malformed text, then the story read on',
 'a fact is linked into the story before its text is checked, so a refused text leaves an empty fact in the story',
 [(C+'remark/aggregate.go','''	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)''','''	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)'''),
  (C+'remark/aggregate.go','''	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("o", "p"))
	if _, err := r.AddFactToStory("x", "y "); err == nil {
		fail("malformed text is accepted")
	}
	has, err := r.HasNextFact()
	if err != nil || has {
		fail("after a refused fact: has next fact %v, %v", has, err)
	}
''')

seed('same-text-fact','C05','the same object and property stored as a fact twice in one story',
 'next-fact navigation skips a fact whose first remark has the same text as the fact before it',
 [(C+'remark/aggregate.go','''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}
''','''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	hasFurtherFact, err := nextFact.HasNextFact()
	if err != nil {
		return nil, err
	}

	if hasFurtherFact {
		// repeated facts are read once
		nextRemarkIdentifier, err := nextFact.GetFirstRemark()
		if err != nil {
			return nil, err
		}

		nextRemark, err := a.remarkStorage.ReadEntityByFact(nextRemarkIdentifier)
		if err != nil {
			return nil, err
		}

		nextDetail, err := nextRemark.GetSourceDetail()
		if err != nil {
			return nil, err
		}

		detail, err := a.remark.GetSourceDetail()
		if err != nil {
			return nil, err
		}

		if nextDetail == detail {
			nextFact, err = nextFact.ToNextFact()
			if err != nil {
				return nil, err
			}
		}
	}
''',1)],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("knock", "knock"))
	f, err := r.AddFactToStory("knock", "knock")
	if err != nil {
		fail("%v", err)
	}
	if _, err := r.AddFactToStory("who", "is there"); err != nil {
		fail("%v", err)
	}
	n, err := r.GetNextFact()
	if err != nil || n.GetIdentifier() != f.GetIdentifier() {
		fail("next fact is not the second fact: %v", err)
	}
''')

seed('first-fact-of-child','C06','a child story of a child story (three levels)',
 'the first fact of a story whose parent has a parent itself is looked for in the parent story',
 [(C+'fact/aggregate.go','''	firstFactIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}
''','''	hasParent, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if hasParent {
		tree, err := story.GetTargetTree()
		if err != nil {
			return nil, err
		}

		parent, err := a.storyRepository.FetchByTree(tree)
		if err != nil {
			return nil, err
		}

		hasGrandparent, err := parent.HasTargetTree()
		if err != nil {
			return nil, err
		}

		if hasGrandparent {
			story = parent
		}
	}

	firstFactIdentifier, err := story.GetTargetFact()
	if err != nil {
		return nil, err
	}
''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "a"))
	c, err := r.CreateChildStory("b", "b")
	if err != nil {
		fail("%v", err)
	}
	d, err := c.CreateChildStory("c", "c")
	if err != nil {
		fail("%v", err)
	}
	f, err := d.GetFirstFact()
	if err != nil || f.GetIdentifier() != d.GetIdentifier() {
		fail("wrong first fact of a grandchild: %v", err)
	}
''')

seed('aunt','C07','a last child story whose parent has a next story',
 'a story without a next sibling leads on to the next story of its parent (both asking and getting agree)',
 [(C+'fact/aggregate.go','''	return story.HasTargetPosition()''','''	hasTargetPosition, err := story.HasTargetPosition()
	if err != nil || hasTargetPosition {
		return hasTargetPosition, err
	}

	hasParentStory, err := a.HasParentStory()
	if err != nil || !hasParentStory {
		return false, err
	}

	parentFact, err := a.ToParentStory()
	if err != nil {
		return false, err
	}

	return parentFact.HasNextStory()'''),
  (C+'fact/aggregate.go','''	nextStoryIdentifier, err := story.GetTargetPosition()''','''	hasTargetPosition, err := story.HasTargetPosition()
	if err != nil {
		return nil, err
	}

	hasTargetTree, err := story.HasTargetTree()
	if err != nil {
		return nil, err
	}

	if !hasTargetPosition && hasTargetTree {
		parentFact, err := a.ToParentStory()
		if err != nil {
			return nil, err
		}

		return parentFact.ToNextStory()
	}

	nextStoryIdentifier, err := story.GetTargetPosition()''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "a"))
	c, err := r.CreateChildStory("b", "b")
	if err != nil {
		fail("%v", err)
	}
	if _, err := r.CreateChildStory("c", "c"); err != nil {
		fail("%v", err)
	}
	d, err := c.CreateChildStory("d", "d")
	if err != nil {
		fail("%v", err)
	}
	has, err := d.HasNextStory()
	if err != nil || has {
		fail("an only child has a next story: %v %v", has, err)
	}
''')

seed('same-detail-link','C08','two stories with the same object and property',
 'a remark with a text that another remark already has becomes the next remark of that one, in whatever story that is',
 [(C+'detail/entity.go','''	return e.storage.Connect(e.remark, remark)''','''	remarks, err := e.storage.ReadTargets(e.remark)
	if err != nil {
		return err
	}

	if len(remarks) == 1 {
		_, previousPosition, err := e.storage.GetReference(remarks[0])
		if err != nil {
			return err
		}

		_, position, err := e.storage.GetReference(remark)
		if err != nil {
			return err
		}

		err = e.storage.Connect(previousPosition, position)
		if err != nil {
			return err
		}
	}

	return e.storage.Connect(e.remark, remark)''')],
 '''
	g := semnet.NewGraph(newMem())
	o := semnet.NewOutput(g)
	a := need(g.CreateStory("cats", "sleep"))
	before, err := o.GetStory(a)
	if err != nil {
		fail("%v", err)
	}
	need(g.CreateStory("cats", "sleep"))
	after, err := o.GetStory(a)
	if err != nil || after != before {
		fail("the first story changes from %q to %q (%v)", before, after, err)
	}
''')

seed('wrong-id-on-arrival','C09','a remark reached by first-fact, next-fact or next-story navigation',
 'a remark reached through its fact reports another node as its identifier, which cannot be looked up',
 [(C+'remark/storage.go','''	class, _, err := s.storage.GetReference(detail)
	if err != nil {
		return Entity{}, err
	}

	return Entity{
		class:    class,
		detail:   detail,
		position: position,
		fact:     fact,
		storage:  s.storage,
	}, nil
}
$''','''	class := detail

	return Entity{
		class:    class,
		detail:   detail,
		position: position,
		fact:     fact,
		storage:  s.storage,
	}, nil
}
$''')],
 '''
	g := semnet.NewGraph(newMem())
	a := need(g.CreateStory("a", "b"))
	f, err := a.GetFirstFact()
	if err != nil {
		fail("%v", err)
	}
	if f.GetIdentifier() != a.GetIdentifier() {
		fail("identifier %d at creation, %d on arrival", a.GetIdentifier(), f.GetIdentifier())
	}
''')

seed('missing-cache','C09','an identifier is looked up before it is assigned, and again afterwards through the same graph',
 'identifiers for which a look-up failed once are remembered as missing for ever, also when they are assigned later',
 [(C+'remark/repository.go','''	factRepository   abstractFact.Repository
}
''','''	factRepository   abstractFact.Repository
	missing          map[uint]bool
}
'''),
  (C+'remark/repository.go','''		factRepository:   factRepository,
	}
''','''		factRepository:   factRepository,
		missing:          map[uint]bool{},
	}
'''),
  (C+'remark/repository.go','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''','''	if r.missing[remarkIdentifier] {
		return nil, fmt.Errorf("no remark: %d", remarkIdentifier)
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		r.missing[remarkIdentifier] = true
		return nil, err
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	need(g.CreateStory("a", "b"))
	next := m.n + 1
	if _, err := g.GetRemark(next); err == nil {
		fail("an identifier that is not assigned is found")
	}
	r := need(g.CreateStory("a", "b"))
	if r.GetIdentifier() != next {
		return // numbered otherwise
	}
	got := need(g.GetRemark(next))
	wantText(got, "a", "b")
''')

seed('lax-class','C10','look-up by the identifier of a fact or story node whose neighbours look like those of a remark',
 'every node that belongs to any class counts as a remark if it is not one of the class nodes themselves',
 [(C+'class/node/remark.go','''	return targets[0] == r.identifier, nil''','''	return targets[0] >= r.identifier, nil''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("a", "b"))
	c, err := r.CreateChildStory("a", "c")
	if err != nil {
		fail("%v", err)
	}
	d, err := c.CreateChildStory("a", "c")
	if err != nil {
		fail("%v", err)
	}
	known := map[uint]bool{r.GetIdentifier(): true, c.GetIdentifier(): true, d.GetIdentifier(): true}
	for id := uint(0); id <= m.n; id++ {
		if _, err := g.GetRemark(id); err == nil && !known[id] {
			fail("%d is found, which is not a remark", id)
		}
	}
''')

seed('checked-on-opening','C11','two graphs opened on the same empty storage, both used',
 'whether the storage is set up is asked once, when a graph is opened, instead of at its first use',
 [(C+'class/repository.go','''	isInitialized bool
	entity        Entity
}
''','''	isInitialized bool
	hasFirstNode  bool
	openError     error
	entity        Entity
}
'''),
  (C+'class/repository.go','''	return &Repository{
		storage:       storage,
		isInitialized: false,
''','''	hasFirstNode, err := storage.Has(bitIdentifier)

	return &Repository{
		storage:       storage,
		isInitialized: false,
		hasFirstNode:  hasFirstNode,
		openError:     err,
'''),
  (C+'class/repository.go','''		hasFirstNode, err := r.storage.Has(1)
		if err != nil {
			return Entity{}, err
		}

		if !hasFirstNode {
''','''		err := r.openError
		if err != nil {
			return Entity{}, err
		}

		if !r.hasFirstNode {
			r.hasFirstNode = true
''')],
 '''
	m := newMem()
	g, h := semnet.NewGraph(m), semnet.NewGraph(m)
	r := need(g.CreateStory("a", "b"))
	s := need(h.CreateStory("a", "b"))
	wantText(need(h.GetRemark(r.GetIdentifier())), "a", "b")
	wantText(need(g.GetRemark(s.GetIdentifier())), "a", "b")
''')

seed('bad-continuation','C12','a storage access fails while the continuations of a word are compared',
 'a continuation that cannot be read because the storage fails is skipped, so the operation succeeds and stores the word a second time',
 [(C+'word/element.go','''		targetValue, err := targetCharacter.Extract()
		if err != nil {
			return nil, err
		}
''','''		targetValue, err := targetCharacter.Extract()
		if err != nil {
			continue
		}
''')],
 '''
	for at := 1; at < 400; at++ {
		m := newMem()
		g := semnet.NewGraph(m)
		need(g.CreateStory("ab", "ac"))
		m.calls, m.failAt = 0, at
		err := protect(func() error {
			_, err := g.CreateStory("ac", "ab")
			return err
		})
		if m.failed && err == nil {
			fail("the failure of access %d is not reported", at)
		}
	}
''')

seed('render-stops','C12','the storage access with which rendering asks for the next remark fails',
 'a failure while asking for the next remark ends the rendering as if there were none, without an error',
 [('output.go','''		if err != nil {
			return "", err
		}

		if !hasNextRemark {
			break
		}''','''		if err != nil || !hasNextRemark {
			break
		}''')],
 '''
	for at := 1; at < 400; at++ {
		m := newMem()
		g := semnet.NewGraph(m)
		r := need(g.CreateStory("ab", "ac"))
		o := semnet.NewOutput(g)
		m.calls, m.failAt = 0, at
		err := protect(func() error {
			_, err := o.GetStory(r)
			return err
		})
		if m.failed && err == nil {
			fail("the failure of access %d is not reported", at)
		}
	}
''')

seed('lookup-swallows','C12','a failing storage access during an operation on a remark whose object has several details',
 'when the details of the object cannot be read, the pair counts as new, and the operation succeeds',
 [(C+'detail/factory.go','''	objectTargetDetails, err := objectPhrase.GetTargetDetails()
	if err != nil {
		return nil, err
	}
''','''	objectTargetDetails, err := objectPhrase.GetTargetDetails()
	if err != nil {
		objectTargetDetails = nil
	}
''')],
 '''
	for at := 1; at < 400; at++ {
		m := newMem()
		g := semnet.NewGraph(m)
		need(g.CreateStory("ab", "ac"))
		m.calls, m.failAt = 0, at
		err := protect(func() error {
			_, err := g.CreateStory("ab", "ac")
			return err
		})
		if m.failed && err == nil {
			fail("the failure of access %d is not reported", at)
		}
	}
''')

CRASH='''
	for at := 1; at < 600; at++ {
		m := newMem()
		g := semnet.NewGraph(m)
		%s
		m.calls, m.failAt = 0, at
		_ = protect(func() error { %s })
		m.failAt = 0
		if !m.failed {
			break
		}
		err := protect(func() error { g = semnet.NewGraph(m); %s })
		if err != nil {
			fail("after an interruption at access %%d: %%v", at, err)
		}
	}
'''
seed('head-link-order','C13','an operation interrupted between two storage accesses, at the first use of a bit as the beginning of a character',
 'the bit points to the first character element before that points to the bit: interrupted in between, every text with such characters fails for ever',
 [(C+'character/factory.go','''		err = characterEntity.PointToBit(bitEntity.GetCharacter())
		if err != nil {
			return nil, err
		}

		err = bitEntity.PointToCharacter(characterEntity.GetBit())
		if err != nil {
			return nil, err
		}
''','''		err = bitEntity.PointToCharacter(characterEntity.GetBit())
		if err != nil {
			return nil, err
		}

		err = characterEntity.PointToBit(bitEntity.GetCharacter())
		if err != nil {
			return nil, err
		}
''')],
 CRASH%('','_, err := g.CreateStory("a", "b"); return err','''r, err := g.CreateStory("a", "b")
			if err != nil {
				return err
			}
			_, _, err = r.GetObjectAndProperty()
			return err'''))

seed('child-before-remark','C13','CreateChildStory interrupted between two storage accesses',
 'a child story is linked to its parent and siblings before its fact has its first remark: interrupted in between, the previous child leads to a story that cannot be read',
 [(C+'remark/aggregate.go','''	err = firstFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''')],
 CRASH%('''r := need(g.CreateStory("a", "b"))
		c, problem := r.CreateChildStory("c", "d")
		need(semnet.Remark{Aggregate: c}, problem)''','_, err := r.CreateChildStory("e", "f"); return err','''has, err := c.HasNextStory()
			if err != nil || !has {
				return err
			}
			_, err = c.GetNextStory()
			return err'''))

seed('tail-link-order','C13','an operation interrupted between two storage accesses while a phrase is continued by a new word',
 'a phrase points to its continuation before that points to its word: interrupted in between, no other continuation of the phrase can be stored any more',
 [(C+'phrase/factory.go','''	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}
''','''	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}
''')],
 CRASH%('need(g.CreateStory("a", "b"))','_, err := g.CreateStory("a", "a b"); return err','''_, err := g.CreateStory("a", "a c"); return err'''))

seed('lookup-initializes','C14','a look-up on a storage that is empty',
 'looking an identifier up sets the classes up first, so a query on an empty store creates nodes',
 [(C+'remark/repository.go','''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''','''	_, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	if _, err := g.GetRemark(12); err == nil {
		fail("a remark is found in an empty store")
	}
	if m.writes != 0 {
		fail("looking up changes the store %d times", m.writes)
	}
''')

seed('touch-on-read','C14','the text of a remark is read whose property is a phrase of several words',
 'reading a phrase stores its first word as a phrase of its own (the read path goes through the providing one)',
 [(C+'phrase/aggregate.go','''	return path.reverse().toString(), nil''','''	words := path.reverse()

	if len(words) > 1 {
		_, err = a.phraseElements.ProvideFirstElement(words[len(words)-1])
		if err != nil {
			return "", err
		}
	}

	return words.toString(), nil''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("goes", "a cat"))
	m.writes = 0
	wantText(r, "goes", "a cat")
	if m.writes != 0 {
		fail("reading changes the store %d times", m.writes)
	}
''')

seed('merge-sorted','C15','a storage that does not return neighbours in ascending order of their identifiers (or numbers new nodes downwards), and an object and a property with several details',
 'the common detail of two phrases is searched by merging the lists as if they were sorted',
 [(C+'detail/factory.go','''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''','''	for i, j := 0, 0; i < len(objectTargetDetails) && j < len(propertySourceDetails); {

		switch {
		case objectTargetDetails[i] < propertySourceDetails[j]:
			i++
		case objectTargetDetails[i] > propertySourceDetails[j]:
			j++
		default:
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetails[i])
			i++
			j++
		}
	}
''')],
 '''
	growth := func(id func(uint) uint) uint {
		m := newMem()
		m.id = id
		g := semnet.NewGraph(m)
		need(g.CreateStory("a", "x"))
		need(g.CreateStory("a", "y"))
		need(g.CreateStory("b", "x"))
		need(g.CreateStory("b", "y"))
		n := m.n
		for _, o := range []string{"a", "b"} {
			for _, p := range []string{"x", "y"} {
				need(g.CreateStory(o, p))
			}
		}
		return m.n - n
	}
	dense := growth(func(n uint) uint { return n })
	down := growth(func(n uint) uint {
		if n <= 8 {
			return n
		}
		return 1000000 - n
	})
	if dense != down {
		fail("repeating four pairs adds %d nodes on one storage, %d on another", dense, down)
	}
''')

seed('ascending-next','C15','a storage that numbers new nodes downwards',
 'a fact counts as having a next fact only if the identifier of that is greater',
 [(C+'fact/entity.go','''	return len(targets) != 0, nil''','''	return len(targets) != 0 && targets[0] > e.position, nil''')],
 '''
	m := newMem()
	m.id = func(n uint) uint {
		if n <= 8 {
			return n
		}
		return 1000000 - n
	}
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("a", "b"))
	if _, err := r.AddFactToStory("c", "d"); err != nil {
		fail("%v", err)
	}
	has, err := r.HasNextFact()
	if err != nil || !has {
		fail("the next fact is not seen: %v", err)
	}
''')

seed('reads-node-zero','C16','a next-story or parent navigation over a story that is read by its tree node',
 'reading a story by its tree node also reads the successor of that node, which is never set: node zero is read',
 [(C+'story/storage.go','''	position, _, err := s.storage.GetReference(tree)
	if err != nil {
		return Entity{}, err
	}
''','''	position, next, err := s.storage.GetReference(tree)
	if err != nil {
		return Entity{}, err
	}

	_, _, err = s.storage.GetReference(next)
	if err != nil {
		return Entity{}, err
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	m.next[0] = 0 // there is a reserved node zero
	r := need(g.CreateStory("a", "b"))
	delete(m.next, 0)
	m.bad = nil
	for i := 0; i < 3; i++ {
		_, _ = r.CreateChildStory("c", "d")
	}
	if len(m.bad) != 0 {
		fail("identifiers that were not handed out are used: %v", m.bad)
	}
''')

seed('relinks-story','C16','any operation that creates a story',
 'the connection of a story to its first fact is taken away and made anew when the first fact is read',
 [(C+'story/entity.go','''	return e.storage.Connect(e.fact, fact)''','''	err := e.storage.Disconnect(e.fact, fact)
	if err != nil {
		return err
	}

	return e.storage.Connect(e.fact, fact)''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("a", "b"))
	if _, err := r.CreateChildStory("c", "d"); err != nil {
		fail("%v", err)
	}
	if m.removed != 0 {
		fail("%d connections are removed", m.removed)
	}
''')

seed('swapped-detail','C17','a store written before the change and read after it (or the other way round)',
 'a detail points to the object and is pointed to by the property: consistent in itself, but older stores read back with object and property exchanged',
 [(C+'detail/storage.go','err = objectPhrase.AddTargetDetail(phrase)','err = objectPhrase.AddSourceDetail(phrase)'),
  (C+'detail/storage.go','err = propertyPhrase.AddSourceDetail(phrase)','err = propertyPhrase.AddTargetDetail(phrase)'),
  (C+'detail/entity.go','return sources[0], targets[0], nil','return targets[0], sources[0], nil'),
  (C+'detail/factory.go','objectPhrase.GetTargetDetails()','objectPhrase.GetSourceDetails()'),
  (C+'detail/factory.go','propertyPhrase.GetSourceDetails()','propertyPhrase.GetTargetDetails()')],
 '$OLDSTORE')

seed('reversed-words','C17','a store written before the change and read after it',
 'words are stored from their last character: consistent in itself, but the words of older stores read back reversed',
 [(C+'word/paths.go','''	path := []rune(word)
''','''	path := path([]rune(word)).reverse()
'''),
  (C+'word/aggregate.go','return path.reverse().toString(), nil','return path.toString(), nil')],
 '$OLDSTORE')

seed('has-story-of-last','C18','a last child story that has child stories itself',
 'a child story that has children of its own always claims to have a next story, also the last one, for which getting it is an error',
 [(C+'fact/aggregate.go','''	return story.HasTargetPosition()''','''	hasTargetPosition, err := story.HasTargetPosition()
	if err != nil || hasTargetPosition {
		return hasTargetPosition, err
	}

	hasTargetTree, err := story.HasTargetTree()
	if err != nil || !hasTargetTree {
		return false, err
	}

	return story.HasSourceTree()''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	c, problem := r.CreateChildStory("c", "d")
	if err != nil {
		fail("%v", err)
	}
	if _, err := c.CreateChildStory("e", "f"); err != nil {
		fail("%v", err)
	}
	has, err := c.HasNextStory()
	_, errNext := c.GetNextStory()
	if err != nil || has != (errNext == nil) {
		fail("has next story: %v, %v; getting it: %v", has, err, errNext)
	}
''')

seed('render-single','C19','rendering started from a remark of the last fact of a story with several facts',
 'a remark without a next fact is rendered as if it were the first one of its story',
 [('output.go','''	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}
''','''	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	hasNextFact, err := remark.HasNextFact()
	if err != nil {
		return "", err
	}

	if !hasNextFact {
		factRemark = remark.Aggregate
	}
''')],
 '''
	g := semnet.NewGraph(newMem())
	o := semnet.NewOutput(g)
	r := need(g.CreateStory("a", "b"))
	f, err := r.AddFactToStory("c", "d")
	if err != nil {
		fail("%v", err)
	}
	s, err := o.GetStory(semnet.Remark{Aggregate: f})
	if err != nil || s != "a b " {
		fail("rendered from the second fact: %q, %v", s, err)
	}
''')

seed('remark-runs-on','C20','a fact added to a story through one of its remarks',
 'the first remark of a new fact becomes the next remark of the remark the fact was added through',
 [(C+'remark/aggregate.go','''	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	hasNextRemark, err := a.remark.HasNextRemark()
	if err != nil {
		return nil, err
	}

	hasNextFact, err := a.HasNextFact()
	if err != nil {
		return nil, err
	}

	if hasNextFact && !hasNextRemark {
		err = a.remark.PointToPosition(remark.GetPosition())
		if err != nil {
			return nil, err
		}
	}
''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	for i := 0; i < 3; i++ {
		if _, err := r.AddFactToStory("c", "d"); err != nil {
			fail("%v", err)
		}
	}
	has, err := r.HasNextRemark()
	if err != nil || has {
		fail("the only remark of a fact has a next remark: %v, %v", has, err)
	}
''')

seed('climbs-to-root','C21','a story tree of at least three levels',
 'going to the parent story goes on to the topmost story',
 [(C+'fact/aggregate.go','''	parentFactIdentifier, err := parentStory.GetTargetFact()''','''	for {
		hasTargetTree, err := parentStory.HasTargetTree()
		if err != nil {
			return nil, err
		}

		if !hasTargetTree {
			break
		}

		parentStoryIdentifier, err = parentStory.GetTargetTree()
		if err != nil {
			return nil, err
		}

		parentStory, err = a.storyRepository.FetchByTree(parentStoryIdentifier)
		if err != nil {
			return nil, err
		}
	}

	parentFactIdentifier, err := parentStory.GetTargetFact()''')],
 '$TREE')

OLDSTORE="""
	g := semnet.NewGraph(load())
	for _, x := range written {
		wantText(need(g.GetRemark(x.id)), x.o, x.p)
	}
"""
TREE="""
	m := newMem()
	classes := class.NewRepository(m)
	facts := fact.NewRepository(m, classes, story.NewRepository(m, classes))
	create := func() uint {
		f, err := facts.CreateFirstStoryFact()
		if err != nil {
			fail("%v", err)
		}
		return f.GetRemark()
	}
	list := []uint{create(), create(), create()}
	for i := 1; i < 3; i++ {
		if err := facts.AppendChildStory(list[i-1], list[i]); err != nil {
			fail("%v", err)
		}
	}
	last, err := facts.FetchByRemark(list[2])
	if err != nil {
		fail("%v", err)
	}
	parent, err := last.ToParentStory()
	if err != nil || parent.GetRemark() != list[1] {
		fail("the parent story is not the one it was added to: %v", err)
	}
"""

TREE2="""
	m := newMem()
	classes := class.NewRepository(m)
	facts := fact.NewRepository(m, classes, story.NewRepository(m, classes))
	create := func() uint {
		f, err := facts.CreateFirstStoryFact()
		if err != nil {
			fail("%v", err)
		}
		return f.GetRemark()
	}
	list := []uint{create(), create(), create()}
	for i := 1; i < 3; i++ {
		if err := facts.AppendChildStory(list[0], list[i]); err != nil {
			fail("%v", err)
		}
	}
	first, err := facts.FetchByRemark(list[1])
	if err != nil {
		fail("%v", err)
	}
	next, err := first.ToNextStory()
	if err != nil || next.GetRemark() != list[2] {
		fail("wrong next story: %v", err)
	}
	err = protect(func() error {
		parent, err := next.ToParentStory()
		if err == nil && parent.GetRemark() != list[0] {
			fail("wrong parent")
		}
		return err
	})
	if err != nil {
		fail("parent of the next story: %v", err)
	}
"""

# ---- second round

seed('bit-order','C11','a store is reopened whose storage lists the two bit nodes in descending order',
 'on reopening the two bit nodes are told apart by the order in which the storage lists them',
 [(C+'bit/layer.go','if classIdentifiers[0] < classIdentifiers[1] {','if classIdentifiers[0] != classIdentifiers[1] {',2)],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("to be", "or not"))
	s := m.sources[1]
	s[0], s[1] = s[1], s[0]
	x, err := semnet.NewGraph(m).GetRemark(r.GetIdentifier())
	if err != nil {
		fail("%v", err)
	}
	wantText(x, "to be", "or not")
''')

seed('fields','C02','a word with a white space character other than the space in it (tab, no-break space, line separator)',
 'a text is split into words at any white space, which reads back as a space',
 [(C+'phrase/paths.go','path := strings.Split(words, " ")','path := strings.Split(strings.Map(func(character rune) rune {\n\t\tif unicode.IsSpace(character) {\n\t\t\treturn \' \'\n\t\t}\n\n\t\treturn character\n\t}, words), " ")'),
  (C+'phrase/paths.go','\t"strings"\n','\t"strings"\n\t"unicode"\n')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("Mr.\\u00a0Cat", "sleeps"))
	wantText(r, "Mr.\\u00a0Cat", "sleeps")
''')

seed('replacement','C02','a text that contains the replacement character U+FFFD itself',
 'the replacement character is taken for broken encoding and refused',
 [(C+'word/paths.go','''	if len(path) < 1 {''','''	for _, character := range path {
		if character == '\\uFFFD' {
			return path, fmt.Errorf("invalid character in word cluster: %s", word)
		}
	}

	if len(path) < 1 {''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("caf\\uFFFD", "opens"))
	wantText(r, "caf\\uFFFD", "opens")
''')

seed('lsb-first','C17','a store written before the change and read after it',
 'the bits of a character are stored least significant first',
 [(C+'character/paths.go','return bitValues, nil','return bitValues.reverse(), nil'),
  (C+'character/aggragate.go','range path.reverse() {','range path {')],
 '$OLDSTORE')

seed('class-order','C17','a store written before the change and read after it',
 'the class nodes of facts and remarks have changed places',
 [(C+'class/repository.go','''	remarkIdentifier
	factIdentifier
	storyIdentifier
)''','''	factIdentifier
	remarkIdentifier
	storyIdentifier
)'''),
  (C+'class/repository.go','''			if result != remarkIdentifier {
				return Entity{}, fmt.Errorf("wrong position class node %d", result)
			}

			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)''','''			if result != factIdentifier {
				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
			}

			err = r.storage.SetReference(detailIdentifier, factIdentifier)'''),
  (C+'class/repository.go','''			if result != factIdentifier {
				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
			}

			err = r.storage.SetReference(remarkIdentifier, factIdentifier)''','''			if result != remarkIdentifier {
				return Entity{}, fmt.Errorf("wrong remark class node %d", result)
			}

			err = r.storage.SetReference(factIdentifier, remarkIdentifier)'''),
  (C+'class/repository.go','err = r.storage.SetReference(factIdentifier, storyIdentifier)','err = r.storage.SetReference(remarkIdentifier, storyIdentifier)')],
 '$OLDSTORE')

seed('connect-dropped','C12','the access with which a new remark node is connected to its class fails',
 'a failure to mark a new node as a remark is dropped, success is reported',
 [(C+'class/node/remark.go','''	err = r.storage.Connect(identifier, r.identifier)
	if err != nil {
		return 0, err
	}

	return identifier, nil''','''	return identifier, r.mark(identifier)'''),
  (C+'class/node/remark.go','''func (r Remark) Create() (uint, error) {''','''func (r Remark) mark(identifier uint) (err error) {
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("no such node: %d", identifier)
		}
	}()

	if err := r.storage.Connect(identifier, r.identifier); err != nil {
		return nil
	}

	return err
}

func (r Remark) Create() (uint, error) {''')],
 '''
	for n := 1; ; n++ {
		m := newMem()
		g := semnet.NewGraph(m)
		need(g.CreateStory("a", "b"))
		m.failAt = m.calls + n
		_, err := g.CreateStory("a", "b")
		if !m.failed {
			break
		}
		if err == nil {
			fail("access %d failed, success reported", n)
		}
	}
''')

seed('has-unchecked','C12','the very first access to an empty storage fails',
 'a failing test whether the storage is empty is taken for an empty storage',
 [(C+'class/repository.go','''		if err != nil {
			return Entity{}, err
		}

		if !hasFirstNode {''','''		if err != nil {
			hasFirstNode = false
		}

		if !hasFirstNode {''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	m.failAt = 1
	_, err := g.CreateStory("a", "b")
	if m.failed && err == nil {
		fail("first access failed, success reported")
	}
''')

seed('marked-early','C13','the first use of a graph fails between two storage accesses, then the operation is tried again through the same graph',
 'the bit layer counts as initialized before it is, so that after a failure the graph works with node zero',
 [(C+'bit/layer.go','''	if !l.isInitialized {
''','''	if !l.isInitialized {
		l.isInitialized = true
'''),
  (C+'bit/layer.go','''
		l.isInitialized = true
	}

	return''','''	}

	return''')],
 '''
	for n := 1; ; n++ {
		m := newMem()
		g := semnet.NewGraph(m)
		m.failAt = n
		_, err := g.CreateStory("ab", "c")
		if !m.failed {
			break
		}
		_ = err
		var r semnet.Remark
		err = protect(func() error {
			r, err = g.CreateStory("ab", "c")
			return err
		})
		if err != nil {
			fail("after a failure of access %d: %v", n, err)
		}
		wantText(r, "ab", "c")
		x, err := semnet.NewGraph(m).GetRemark(r.GetIdentifier())
		if err != nil {
			fail("after a failure of access %d: %v", n, err)
		}
		wantText(x, "ab", "c")
	}
''')

seed('story-before-text','C10','a story is refused because of a malformed text and the identifiers it used up are looked up',
 'a new remark is tied to its fact before its texts are stored, so a refused story leaves a remark without text that can be looked up',
 [(C+'remark/repository.go','''	// detail

	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact
''','''	// fact
'''),(C+'remark/repository.go','''	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''','''	err = fact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	need(g.CreateStory("a", "b"))
	n := m.n
	if _, err := g.CreateStory("a", "b "); err == nil {
		fail("not refused")
	}
	for id := n + 1; id <= m.n; id++ {
		if _, err := g.GetRemark(id); err == nil {
			fail("identifier %d can be looked up", id)
		}
	}
''')

seed('first-only','C18','a remark added to a fact that has a next fact',
 'only the first remark of a fact reports that there is a next fact, the others lead to it without reporting it',
 [(C+'remark/aggregate.go','''	return fact.HasNextFact()''','''	firstRemark, err := fact.GetFirstRemark()
	if err != nil {
		return false, err
	}

	if firstRemark != a.remark.GetFact() {
		return false, nil
	}

	return fact.HasNextFact()''')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	s, err := r.AddRemarkToFact("c")
	if err != nil {
		fail("%v", err)
	}
	if _, err := r.AddFactToStory("d", "e"); err != nil {
		fail("%v", err)
	}
	has, err := s.HasNextFact()
	_, err2 := s.GetNextFact()
	if err != nil || has != (err2 == nil) {
		fail("asking says %v, getting says %v", has, err2)
	}
''')

seed('lost-storage','C21','navigation continues from a fact reached as the next story',
 'the fact of the next story loses its way to the stories, so that it cannot be asked for its own parent or next story',
 [(C+'fact/aggregate.go','''		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,''','''		fact:            nextFact,
		factStorage:     a.factStorage,''',2)],
 '$TREE2')

seed('last-is-first','C06','the last fact of a story of several facts, asked from a remark added to it',
 'a fact without a next fact is taken for the only one of its story',
 [(C+'fact/aggregate.go','''	firstFactIdentifier, err := story.GetTargetFact()''','''	hasTargetFact, err := a.fact.HasTargetFact()
	if err != nil {
		return nil, err
	}

	hasTargetPosition, err := story.HasTargetPosition()
	if err != nil {
		return nil, err
	}

	if !hasTargetFact && hasTargetPosition {
		return a, nil
	}

	firstFactIdentifier, err := story.GetTargetFact()''')],
 '''
	g := semnet.NewGraph(newMem())
	p := need(g.CreateStory("p", "p"))
	c, err := p.CreateChildStory("a", "a")
	if err != nil {
		fail("%v", err)
	}
	f, err := c.AddFactToStory("b", "b")
	if err != nil {
		fail("%v", err)
	}
	if _, err := p.CreateChildStory("d", "d"); err != nil {
		fail("%v", err)
	}
	x, err := f.GetFirstFact()
	if err != nil || x.GetIdentifier() != c.GetIdentifier() {
		fail("wrong first fact: %v", err)
	}
''')

seed('remark-fork','C20','two remarks added through a remark that was added itself',
 'an added remark points to every remark added through it, so that the second one makes its next remark ambiguous',
 [(C+'remark/aggregate.go','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	firstRemark, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	if firstRemark != a.remark.GetFact() {
		err = a.remark.PointToPosition(remark.GetPosition())
		if err != nil {
			return nil, err
		}
	}
''',1)],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	s, err := r.AddRemarkToFact("c")
	if err != nil {
		fail("%v", err)
	}
	if _, err := s.AddRemarkToFact("d"); err != nil {
		fail("%v", err)
	}
	if _, err := s.AddRemarkToFact("e"); err != nil {
		fail("%v", err)
	}
	has, err := s.HasNextRemark()
	if err != nil {
		fail("%v", err)
	}
	if has {
		if _, err := s.GetNextRemark(); err != nil {
			fail("next remark: %v", err)
		}
	}
''')

seed('percent','C19','a text with a per cent sign',
 'rendering takes the texts for a format',
 [('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		fmt.Fprintf(&buffer, object+" "+property+" ")
'''),('output.go','import "bytes"','import (\n\t"bytes"\n\t"fmt"\n)')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("100%", "sure"))
	s, err := semnet.NewOutput(g).GetStory(r)
	if err != nil || s != "100% sure " {
		fail("%q %v", s, err)
	}
''')

seed('leftover','C19','a rendering fails because of a storage access, then a story is rendered through the same output',
 'the output keeps its buffer, which a failed rendering leaves filled',
 [('output.go','''	graph *Graph
}''','''	graph  *Graph
	buffer bytes.Buffer
}'''),
  ('output.go','''	var buffer bytes.Buffer

''',''),
  ('output.go','''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''','''		o.buffer.WriteString(object)
		o.buffer.WriteString(" ")
		o.buffer.WriteString(property)
		o.buffer.WriteString(" ")
'''),
  ('output.go','''	return buffer.String(), nil''','''	story := o.buffer.String()
	o.buffer.Reset()

	return story, nil''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("a", "b"))
	o := semnet.NewOutput(g)
	for n := 1; ; n++ {
		m.failed = false
		m.failAt = m.calls + n
		o.GetStory(r)
		if !m.failed {
			break
		}
		m.failAt = 0
		s, err := o.GetStory(r)
		if err != nil || s != "a b " {
			fail("%q %v", s, err)
		}
	}
''')

seed('global-bits','C11','a second, different storage is used in the same process',
 'the bit nodes are kept per process instead of per graph',
 [(C+'bit/layer.go','''func newLayer(storage abstract.Storage, classRepository *class.Repository) *layer {
	return &layer{''','''var shared = map[bool]uint{}

func newLayer(storage abstract.Storage, classRepository *class.Repository) *layer {
	return &layer{'''),
  (C+'bit/layer.go','''		l.isInitialized = true
''','''		if len(shared) == 0 {
			shared[false] = l.zeroEntity.character
			shared[true] = l.oneEntity.character
		}

		l.zeroEntity.character = shared[false]
		l.oneEntity.character = shared[true]
		l.isInitialized = true
''')],
 '''
	need(semnet.NewGraph(newMem()).CreateStory("a", "b"))
	m := newMem()
	m.id = func(n uint) uint {
		if n <= 8 {
			return n
		}
		return 2*n - 8
	}
	g := semnet.NewGraph(m)
	r, err := g.CreateStory("a", "b")
	if err != nil {
		fail("%v", err)
	}
	wantText(r, "a", "b")
''')

seed('stale-handle','C05','a handle is asked for its next fact before and after one is added to its story',
 'a handle remembers that there is no next fact',
 [(C+'remark/aggregate.go','''	factRepository   abstractFact.Repository
}''','''	factRepository   abstractFact.Repository
	isLast           map[uint]bool
}'''),
  (C+'remark/aggregate.go','''	return fact.HasNextFact()''','''	if a.isLast[factIdentifier] {
		return false, nil
	}

	hasNextFact, err := fact.HasNextFact()
	if err == nil && !hasNextFact && a.isLast != nil {
		a.isLast[factIdentifier] = true
	}

	return hasNextFact, err'''),
  (C+'remark/repository.go','''		factRepository:   r.factRepository,
	}, nil
}
''','''		factRepository:   r.factRepository,
		isLast:           make(map[uint]bool),
	}, nil
}
''',1)],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	has, err := r.HasNextFact()
	if err != nil || has {
		fail("%v %v", has, err)
	}
	if _, err := r.AddFactToStory("c", "d"); err != nil {
		fail("%v", err)
	}
	has, err = r.HasNextFact()
	if err != nil || !has {
		fail("no next fact: %v", err)
	}
''')

seed('truncated','C12','a storage access fails while a word is read backwards character by character',
 'a failure to look for the previous character of a word counts as its beginning',
 [(C+'word/aggregate.go','''		if err != nil {
			return "", err
		}

		if !hasPreviousElement {''','''		if err != nil || !hasPreviousElement {''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("abc", "d"))
	for n := 1; ; n++ {
		m.failed = false
		m.failAt = m.calls + n
		o, p, err := r.GetObjectAndProperty()
		if !m.failed {
			break
		}
		if err == nil {
			fail("access %d failed, text is %q %q", n, o, p)
		}
	}
''')

seed('word-memory','C13','an operation interrupted while a word is stored, then tried again through the same graph',
 'a graph remembers the words it has stored, also those whose storing failed half-way',
 [(C+'word/repository.go','''	wordElements abstractWord.Elements
	paths        *paths
}''','''	wordElements abstractWord.Elements
	paths        *paths
	known        map[string]abstractWord.Element
}'''),
  (C+'word/repository.go','''		paths:        newPaths(),
	}''','''		paths:        newPaths(),
		known:        make(map[string]abstractWord.Element),
	}'''),
  (C+'word/repository.go','''	for _, characterValue := range path[1:] {
''','''	if element, ok := r.known[word]; ok {
		return Aggregate{
			word:         element.GetEntity(),
			wordElements: r.wordElements,
			paths:        r.paths,
		}, nil
	}

	for _, characterValue := range path[1:] {
		r.known[word] = wordElement
'''),
  (C+'word/repository.go','''	return Aggregate{
		word:         wordElement.GetEntity(),''','''	r.known[word] = wordElement

	return Aggregate{
		word:         wordElement.GetEntity(),''')],
 '''
	for n := 1; ; n++ {
		m := newMem()
		g := semnet.NewGraph(m)
		need(g.CreateStory("x", "y"))
		m.failAt = m.calls + n
		g.CreateStory("abc", "c")
		if !m.failed {
			break
		}
		r := need(g.CreateStory("abc", "c"))
		wantText(r, "abc", "c")
	}
''')

seed('sibling-by-order','C15','a parent with several child stories on a storage that does not list neighbours in order of addition',
 'the next story is looked up among the child stories of the parent, in the order in which the storage lists them',
 [(C+'fact/aggregate.go','''	nextStoryIdentifier, err := story.GetTargetPosition()
	if err != nil {
		return nil, err
	}

	nextStory, err := a.storyRepository.FetchByPosition(nextStoryIdentifier)
	if err != nil {
		return nil, err
	}
''','''	if _, err := story.GetTargetPosition(); err != nil {
		return nil, err
	}

	parentTree, err := story.GetTargetTree()
	if err != nil {
		return nil, err
	}

	parent, err := a.storyRepository.FetchByTree(parentTree)
	if err != nil {
		return nil, err
	}

	trees, err := parent.GetSourceTrees()
	if err != nil {
		return nil, err
	}

	nextStory := story
	for i, tree := range trees {
		if tree == story.GetTree() && i+1 < len(trees) {
			nextStory, err = a.storyRepository.FetchByTree(trees[i+1])
			if err != nil {
				return nil, err
			}
		}
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	r := need(g.CreateStory("a", "a"))
	c, err := r.CreateChildStory("b", "b")
	if err != nil {
		fail("%v", err)
	}
	d, err := r.CreateChildStory("c", "c")
	if err != nil {
		fail("%v", err)
	}
	for k, s := range m.sources {
		for i, j := 0, len(s)-1; i < j && k > 8; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
	}
	n, err := c.GetNextStory()
	if err != nil || n.GetIdentifier() != d.GetIdentifier() {
		fail("wrong next story: %v", err)
	}
''')

# round 3

seed('detail-memo','C01','two remarks stored through one graph whose object and property only together, joined by a space, are the same text, e.g. "a b"/"c" and "a"/"b c"',
 'details are remembered under object and property joined by a space, so the second remark gets the detail of the first',
 [(C+'detail/repository.go','	phraseRepository abstractPhrase.Repository\n}\n','	phraseRepository abstractPhrase.Repository\n	known            map[string]uint\n}\n'),
  (C+'detail/repository.go','		phraseRepository: phraseRepository,\n','		phraseRepository: phraseRepository,\n		known:            map[string]uint{},\n'),
  (C+'detail/repository.go','''	objectPhrase, err := r.phraseRepository.Provide(object)''','''	key := object + " " + property
	if remark, ok := r.known[key]; ok {
		return r.Fetch(remark)
	}

	objectPhrase, err := r.phraseRepository.Provide(object)'''),
  (C+'detail/repository.go','''	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
		return nil, err
	}
''','''	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
		return nil, err
	}
	r.known[key] = detail.GetRemark()
''')],
 '''
	g := semnet.NewGraph(newMem())
	a := need(g.CreateStory("red car", "is fast"))
	b := need(g.CreateStory("red", "car is fast"))
	wantText(a, "red car", "is fast")
	wantText(b, "red", "car is fast")
''')

seed('bom','C02','a text beginning with U+FEFF',
 'a byte order mark at the beginning of a phrase is dropped',
 [(C+'phrase/paths.go','path := strings.Split(words, " ")','path := strings.Split(strings.TrimPrefix(words, "\\uFEFF"), " ")')],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("\\uFEFFfile", "has a mark"))
	wantText(r, "\\uFEFFfile", "has a mark")
''')

seed('cut-off','C22','a text that ends in the middle of a character',
 'the incomplete character at the end of a text is dropped silently instead of refusing the text',
 [(C+'phrase/paths.go','path := strings.Split(words, " ")','path := strings.Split(p.whole(words), " ")'),
  (C+'phrase/paths.go','	"strings"\n','	"strings"\n	"unicode/utf8"\n'),
  (C+'phrase/paths.go','func (p *paths) collect','''// whole leaves out a character that is not complete yet.
func (p *paths) whole(words string) string {

	for i := 1; i < utf8.UTFMax && i < len(words); i++ {
		if tail := words[len(words)-i:]; utf8.RuneStart(tail[0]) {
			if !utf8.FullRuneInString(tail) {
				return words[:len(words)-i]
			}
			break
		}
	}

	return words
}

func (p *paths) collect''')],
 '''
	g := semnet.NewGraph(newMem())
	for _, t := range []string{"caf\\xc3", "price \\xe2\\x82", "x\\xf0\\x9f\\x98"} {
		r, err := g.CreateStory("o", t)
		if err == nil {
			wantText(r, "o", t)
		}
	}
''')

seed('latin1','C22','a word all of whose bytes above 127 are invalid',
 'a word that is not valid UTF-8 is taken for Latin-1 and stored as other text',
 [(C+'word/repository.go','	path, err := r.paths.collect(word)','	path, err := r.paths.collect(decode(word))'),
  (C+'word/repository.go','func (r *Repository) Provide','''// decode accepts words in an older encoding.
func decode(word string) string {

	for i := 0; i < len(word); i++ {
		if word[i] < 0xa0 && word[i] >= 0x80 {
			return word
		}
	}

	if utf8.ValidString(word) {
		return word
	}

	characters := make([]rune, len(word))
	for i := range characters {
		characters[i] = rune(word[i])
	}

	return string(characters)
}

func (r *Repository) Provide'''),
  (C+'word/repository.go','import (','import (\n	"unicode/utf8"\n')],
 '''
	g := semnet.NewGraph(newMem())
	r, err := g.CreateStory("o", "the caf\\xe9 is open")
	if err == nil {
		wantText(r, "o", "the caf\\xe9 is open")
	}
''')

seed('batch','C23','two graphs on one storage, or a graph opened again',
 'the nodes of remarks are created eight remarks at a time and kept by the graph, so what the storage holds depends on through which graph an operation is performed',
 [(C+'remark/storage.go','''type Storage struct {
	storage abstract.Storage
}''','''type Storage struct {
	storage abstract.Storage
	spare   []uint
}

// create hands out nodes that are made in advance.
func (s *Storage) create() (uint, error) {

	if len(s.spare) == 0 {
		for i := 0; i < 24; i++ {
			node, err := s.storage.Create()
			if err != nil {
				return 0, err
			}
			s.spare = append(s.spare, node)
		}
	}

	node := s.spare[0]
	s.spare = s.spare[1:]

	return node, nil
}'''),
  (C+'remark/storage.go','	detail, err := s.storage.Create()','	detail, err := s.create()'),
  (C+'remark/storage.go','	position, err := s.storage.Create()','	position, err := s.create()'),
  (C+'remark/storage.go','	fact, err := s.storage.Create()','	fact, err := s.create()'),
 ],
 '''
	count := func(again bool) uint {
		m := newMem()
		g := semnet.NewGraph(m)
		need(g.CreateStory("a", "b"))
		if again {
			g = semnet.NewGraph(m)
		}
		need(g.CreateStory("a", "c"))
		return m.n
	}
	if x, y := count(false), count(true); x != y {
		fail("%d nodes through one graph, %d through two", x, y)
	}
''')

seed('map-slots','C23','chance: the order of iteration over a map at the creation of a fact',
 'the nodes of a fact are created in the order of iteration over a map, so equal histories build different stores',
 [(C+'fact/storage.go','''	remark, err := s.storage.Create()
	if err != nil {
		return Entity{}, err
	}

	position, err := s.storage.Create()
	if err != nil {
		return Entity{}, err
	}

	story, err := s.storage.Create()
	if err != nil {
		return Entity{}, err
	}

	err = s.storage.SetReference(class, remark)''','''	var remark, position, story uint
	for name, slot := range map[string]*uint{"remark": &remark, "position": &position, "story": &story} {
		node, err := s.storage.Create()
		if err != nil {
			return Entity{}, fmt.Errorf("creating %s node: %w", name, err)
		}
		*slot = node
	}

	err := s.storage.SetReference(class, remark)'''),
  (C+'fact/storage.go','import (','import (\n	"fmt"\n')],
 '''
	var first string
	for i := 0; i < 200; i++ {
		m := newMem()
		need(semnet.NewGraph(m).CreateStory("a", "b"))
		s := fmt.Sprint(m.next, m.targets)
		if i == 0 {
			first = s
		}
		if s != first {
			fail("equal histories, different stores")
		}
	}
''',('fmt',))

seed('sibling-scan','C24','a story with many child stories',
 'whether there is a next story is found out by reading all child stories of the parent',
 [(C+'fact/aggregate.go','''	return story.HasTargetPosition()
''','''	hasParent, err := story.HasTargetTree()
	if err != nil || !hasParent {
		return false, err
	}

	parentTree, err := story.GetTargetTree()
	if err != nil {
		return false, err
	}

	parent, err := a.storyRepository.FetchByTree(parentTree)
	if err != nil {
		return false, err
	}

	trees, err := parent.GetSourceTrees()
	if err != nil {
		return false, err
	}

	if len(trees) < 2 {
		return false, nil
	}

	return story.HasTargetPosition()
''')],
 '''
	cost := func(n int) int {
		m := newMem()
		g := semnet.NewGraph(m)
		r := need(g.CreateStory("a", "b"))
		id := uint(0)
		for i := 0; i < n; i++ {
			c, err := r.CreateChildStory("a", "b")
			if err != nil {
				fail("%v", err)
			}
			id = c.GetIdentifier()
		}
		c := need(semnet.NewGraph(&counting{m}).GetRemark(id))
		read = 0
		if _, err := c.HasNextStory(); err != nil {
			fail("%v", err)
		}
		return read
	}
	if x, y := cost(3), cost(60); x != y {
		fail("reads %d neighbours with 3 child stories, %d with 60", x, y)
	}
}

var read int

type counting struct{ *mem }

func (c *counting) ReadSources(target uint) ([]uint, error) {
	list, err := c.mem.ReadSources(target)
	read += len(list)
	return list, err
}

func (c *counting) ReadTargets(target uint) ([]uint, error) {
	list, err := c.mem.ReadTargets(target)
	read += len(list)
	return list, err
''')

seed('class-scan','C24','a store with many remarks',
 'a look-up searches the list of all remarks of the store',
 [(C+'class/node/remark.go','''	targets, err := r.storage.ReadTargets(identifier)
	if err != nil {
		return false, err
	}

	if len(targets) != 1 {
		return false, fmt.Errorf("wrong number of targets at position class node %d", identifier)
	}

	return targets[0] == r.identifier, nil''','''	members, err := r.storage.ReadSources(r.identifier)
	if err != nil {
		return false, err
	}

	for _, member := range members {
		if member == identifier {
			return true, nil
		}
	}

	return false, nil'''),
  (C+'class/node/remark.go','import "fmt"\n\n','')],
 '''
	cost := func(n int) int {
		m := newMem()
		g := semnet.NewGraph(m)
		id := uint(0)
		for i := 0; i < n; i++ {
			id = need(g.CreateStory("a", "b")).GetIdentifier()
		}
		read = 0
		need(semnet.NewGraph(&counting{m}).GetRemark(id))
		return read
	}
	if x, y := cost(3), cost(60); x != y {
		fail("reads %d neighbours with 3 remarks, %d with 60", x, y)
	}
}

var read int

type counting struct{ *mem }

func (c *counting) ReadSources(target uint) ([]uint, error) {
	list, err := c.mem.ReadSources(target)
	read += len(list)
	return list, err
}

func (c *counting) ReadTargets(target uint) ([]uint, error) {
	list, err := c.mem.ReadTargets(target)
	read += len(list)
	return list, err
''')

seed('only-terminal','C25','a word stored after a longer word it is the beginning of',
 'a word node is reused only if it already is the end of a word, so a store grows differently when a longer word comes first',
 [(C+'word/element.go','''		if characterValue == targetValue {
''','''		isEnd, err := targetWord.HasTargetPhrase()
		if err != nil {
			return nil, err
		}

		if characterValue == targetValue && (isEnd || len(targetWords) > 1) {
''')],
 '''
	count := func(words ...string) uint {
		m := newMem()
		g := semnet.NewGraph(m)
		for _, w := range words {
			need(g.CreateStory("o", w))
		}
		return m.n
	}
	if x, y := count("a", "ab", "abc"), count("abc", "ab", "a"); x != y {
		fail("%d nodes in one order, %d in the other", x, y)
	}
''')

seed('pending','C25','an operation of another client through the same graph between two operations of one client',
 'the graph keeps the end of the story worked on last and takes it for the end of the story of any fact without a next one',
 [(C+'fact/repository.go','	storyRepository abstractStory.Repository\n}\n','	storyRepository abstractStory.Repository\n	last            abstractFact.Entity\n	asked           uint\n}\n'),
  (C+'fact/repository.go','''	return lastFact.PointToPosition(nextFact.GetPosition())''','''	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return err
	}

	r.last, r.asked = nextFact, nextFact.GetRemark()

	return nil'''),
  (C+'fact/repository.go','''	for {
		hasTargetFact, err := lastFact.HasTargetFact()''','''	if r.last != nil && r.asked < remarkIdentifier { // still the newest
		lastFact = r.last
	}

	for {
		hasTargetFact, err := lastFact.HasTargetFact()'''),
 ],
 '''
	g := semnet.NewGraph(newMem())
	a := need(g.CreateStory("a", "a"))
	if _, err := a.AddFactToStory("a", "b"); err != nil {
		fail("%v", err)
	}
	b := need(g.CreateStory("b", "a"))
	c, err := b.AddFactToStory("b", "b")
	if err != nil {
		fail("%v", err)
	}
	n, err := b.GetNextFact()
	if err != nil || n.GetIdentifier() != c.GetIdentifier() {
		fail("the next fact of the second story is missing: %v", err)
	}
''')

seed('phrase-by-class','C26','reading a phrase from its class node',
 'a phrase read from its class node has its word and phrase nodes exchanged',
 [(C+'phrase/storage.go','''func (s *Storage) ReadEntityByClass(class uint) (abstractPhrase.Entity, error) {

	_, word, err := s.storage.GetReference(class)
	if err != nil {
		return nil, err
	}

	_, phrase, err := s.storage.GetReference(word)''','''func (s *Storage) ReadEntityByClass(class uint) (abstractPhrase.Entity, error) {

	_, phrase, err := s.storage.GetReference(class)
	if err != nil {
		return nil, err
	}

	_, word, err := s.storage.GetReference(phrase)'''),],
 '''
	m := newMem()
	need(semnet.NewGraph(m).CreateStory("a b", "c"))
	s := phrase.NewStorage(m)
	for _, id := range m.sources[4] {
		e, err := s.ReadEntityByClass(id)
		if err != nil {
			fail("%v", err)
		}
		f, err := s.ReadEntityByWord(m.next[id])
		if err != nil || e.GetWord() != f.GetWord() || e.GetPhrase() != f.GetPhrase() || e.GetDetail() != f.GetDetail() {
			fail("phrase %d: %v and %v", id, e, f)
		}
	}
''',('github.com/mem-memov/semnet/internal/concrete/phrase',))

seed('is-story','C26','asking whether a fact is a story',
 'anything above facts is taken for a story: facts are, too',
 [(C+'class/node/story.go','	return targets[0] == s.identifier, nil','	return targets[0]+1 >= s.identifier, nil')],
 '''
	m := newMem()
	need(semnet.NewGraph(m).CreateStory("a b", "c"))
	c, err := class.NewRepository(m).ProvideEntity()
	if err != nil {
		fail("%v", err)
	}
	for _, id := range m.sources[7] {
		if is, err := c.IsStory(id); err != nil || is {
			fail("fact %d is a story: %v %v", id, is, err)
		}
	}
''',('github.com/mem-memov/semnet/internal/concrete/class',))

seed('node32','C15','a storage whose identifiers differ only above the low 32 bits',
 'words are remembered by the low 32 bits of their node, so on a storage with large identifiers words are taken for one another',
 [(C+'word/repository.go','	paths        *paths\n}\n','	paths        *paths\n	known        map[uint32]abstractWord.Entity\n}\n'),
  (C+'word/repository.go','		paths:        newPaths(),\n','		paths:        newPaths(),\n		known:        map[uint32]abstractWord.Entity{},\n'),
  (C+'word/repository.go','''	word, err := r.wordStorage.ReadEntityByPhrase(phrase)
	if err != nil {
		return nil, err
	}
''','''	word, ok := r.known[uint32(phrase)]
	if !ok {
		var err error
		word, err = r.wordStorage.ReadEntityByPhrase(phrase)
		if err != nil {
			return nil, err
		}
		r.known[uint32(phrase)] = word
	}
''')],
 '''
	m := newMem()
	m.id = func(n uint) uint {
		if n <= 8 {
			return n
		}
		return (n << 32) + 9
	}
	g := semnet.NewGraph(m)
	a := need(g.CreateStory("a", "b"))
	wantText(a, "a", "b")
''')

seed('negative','C15','a storage that hands out identifiers above the largest signed integer',
 'identifiers beyond the signed range are taken for unset ones: a look-up of such a remark fails',
 [(C+'remark/repository.go','	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)','''	if int(remarkIdentifier) <= 0 {
		return nil, fmt.Errorf("no identifier: %d", remarkIdentifier)
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)''')],
 '''
	m := newMem()
	m.id = func(n uint) uint {
		if n <= 8 {
			return n
		}
		return ^uint(0) - n
	}
	g := semnet.NewGraph(m)
	a := need(g.CreateStory("a", "b"))
	need(g.GetRemark(a.GetIdentifier()))
''')

seed('tail-cache','C11','facts added to one story through two graphs in turn',
 'every graph remembers the last fact of the stories it appended to, and misses facts appended through another graph',
 [(C+'fact/repository.go','	storyRepository abstractStory.Repository\n}\n','	storyRepository abstractStory.Repository\n	tails           map[uint]abstractFact.Entity\n}\n'),
  (C+'fact/repository.go','''		storyRepository: storyRepository,
''','''		storyRepository: storyRepository,
		tails:           map[uint]abstractFact.Entity{},
'''),
  (C+'fact/repository.go','''	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}
''','''	story, err := lastFact.GetTargetStory()
	if err != nil {
		return err
	}

	tail, isKnown := r.tails[story]
	if isKnown {
		lastFact = tail
	}
	r.tails[story] = nextFact

	for !isKnown {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}
'''),
 ],
 '''
	m := newMem()
	g, h := semnet.NewGraph(m), semnet.NewGraph(m)
	a := need(g.CreateStory("a", "a"))
	b := need(h.GetRemark(a.GetIdentifier()))
	for i := 0; i < 4; i++ {
		r := a
		if i%2 == 1 {
			r = b
		}
		if _, err := r.AddFactToStory("a", string(rune('b'+i))); err != nil {
			fail("%v", err)
		}
	}
	n, i := a.Aggregate, 0
	for {
		has, err := n.HasNextFact()
		if err != nil {
			fail("%v", err)
		}
		if !has {
			break
		}
		n, err = n.GetNextFact()
		if err != nil {
			fail("%v", err)
		}
		i++
	}
	if i != 4 {
		fail("%d facts follow", i)
	}
''')

seed('lossy-extract','C12','a storage failure while the bits of a character are read',
 'a failure while reading the earlier bits of a character ends the character there: another text is read without an error',
 [(C+'character/aggragate.go','''		characterElement, err = characterElement.GetPreviousElement()
		if err != nil {
			return 0, err
		}
''','''		characterElement, err = characterElement.GetPreviousElement()
		if err != nil {
			break
		}
''')],
 '''
	for k := 1; ; k++ {
		m := newMem()
		r := need(semnet.NewGraph(m).CreateStory("a", "b"))
		m.calls, m.failAt = 0, k
		_, _, err := r.GetObjectAndProperty()
		if !m.failed {
			break
		}
		if err == nil {
			fail("access %d failed without an error", k)
		}
	}
''')

seed('empty-keeps','C04','a remark with an empty property added to a fact',
 'an empty property means the one of the remark it is added to instead of being refused',
 [(C+'remark/aggregate.go','	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()\n','	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()\n'),
  (C+'remark/aggregate.go','	detail, err := a.detailRepository.Provide(aggregateObject, property)','''	if property == "" {
		property = aggregateProperty
	}

	detail, err := a.detailRepository.Provide(aggregateObject, property)''')],
 '''
	r := need(semnet.NewGraph(newMem()).CreateStory("a", "b"))
	if _, err := r.AddRemarkToFact(""); err == nil {
		fail("an empty property is accepted")
	}
''')

seed('story-slots','C17','a store with child stories written by the released version',
 'position and tree node of a story change places, so child stories written by another version are not found',
 [(C+'story/entity.go','return e.storage.Connect(e.position, position)','return e.storage.Connect(e.tree, position)'),
  (C+'story/entity.go','return e.storage.Connect(e.tree, tree)','return e.storage.Connect(e.position, tree)'),
  (C+'story/entity.go','func (e Entity) GetPosition() uint {\n\n	return e.position','func (e Entity) GetPosition() uint {\n\n	return e.tree'),
  (C+'story/entity.go','func (e Entity) GetTree() uint {\n\n	return e.tree','func (e Entity) GetTree() uint {\n\n	return e.position'),
  (C+'story/entity.go','func (e Entity) HasTargetPosition() (bool, error) {\n\n	targets, err := e.storage.ReadTargets(e.position)','func (e Entity) HasTargetPosition() (bool, error) {\n\n	targets, err := e.storage.ReadTargets(e.tree)'),
  (C+'story/entity.go','func (e Entity) GetTargetPosition() (uint, error) {\n\n	targets, err := e.storage.ReadTargets(e.position)','func (e Entity) GetTargetPosition() (uint, error) {\n\n	targets, err := e.storage.ReadTargets(e.tree)'),
  (C+'story/entity.go','func (e Entity) HasTargetTree() (bool, error) {\n\n	targets, err := e.storage.ReadTargets(e.tree)','func (e Entity) HasTargetTree() (bool, error) {\n\n	targets, err := e.storage.ReadTargets(e.position)'),
  (C+'story/entity.go','func (e Entity) GetTargetTree() (uint, error) {\n\n	targets, err := e.storage.ReadTargets(e.tree)','func (e Entity) GetTargetTree() (uint, error) {\n\n	targets, err := e.storage.ReadTargets(e.position)'),
  (C+'story/entity.go','func (e Entity) HasSourceTree() (bool, error) {\n\n	sources, err := e.storage.ReadSources(e.tree)','func (e Entity) HasSourceTree() (bool, error) {\n\n	sources, err := e.storage.ReadSources(e.position)'),
  (C+'story/entity.go','func (e Entity) GetSourceTree() (uint, error) {\n\n	sources, err := e.storage.ReadSources(e.tree)','func (e Entity) GetSourceTree() (uint, error) {\n\n	sources, err := e.storage.ReadSources(e.position)'),
  (C+'story/entity.go','func (e Entity) GetSourceTrees() ([]uint, error) {\n\n	return e.storage.ReadSources(e.tree)','func (e Entity) GetSourceTrees() ([]uint, error) {\n\n	return e.storage.ReadSources(e.position)'),
  (C+'story/repository.go','return r.storyStorage.ReadEntityByPosition(positionIdentifier)','return r.storyStorage.ReadEntityByTree(positionIdentifier)'),
  (C+'story/repository.go','return r.storyStorage.ReadEntityByTree(treeIdentifier)','return r.storyStorage.ReadEntityByPosition(treeIdentifier)'),
 ],
 '''
	m := newMem()
	r := need(semnet.NewGraph(m).CreateStory("a", "b"))
	if _, err := r.CreateChildStory("c", "d"); err != nil {
		fail("%v", err)
	}
	tree := func(story uint) uint { return m.next[m.next[m.next[story]]] }
	parent, child := m.sources[8][0], m.sources[8][1]
	if list := m.targets[tree(child)]; len(list) != 1 || list[0] != tree(parent) {
		fail("the tree node of the child story is connected to %v, not to %d as in existing stores", list, tree(parent))
	}
''')

seed('ring-cache','C09','many remarks looked up through one graph',
 'looked-up remarks are kept in a table of 16 places; whether a place holds the remark asked for is judged by a short tag',
 [(C+'remark/repository.go','	factRepository   abstractFact.Repository\n}\n','	factRepository   abstractFact.Repository\n	places           [16]place\n}\n\ntype place struct {\n	tag    uint8\n	remark abstractRemark.Entity\n}\n'),
  (C+'remark/repository.go','''		return nil, fmt.Errorf("not a remark: %d", remarkIdentifier)
	}
''','''		return nil, fmt.Errorf("not a remark: %d", remarkIdentifier)
	}

	p := &r.places[remarkIdentifier%16]
	if tag := uint8(remarkIdentifier >> 4); p.remark == nil || p.tag != tag {
		p.tag, p.remark = tag, remark
	} else {
		remark = p.remark
	}
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	var ids []uint
	for i := 0; i < 1500; i++ {
		ids = append(ids, need(g.CreateStory("a", "b")).GetIdentifier())
	}
	for d := 1; d < 1500; d++ {
		for _, id := range []uint{ids[1], ids[d]} {
			if x := need(g.GetRemark(id)); x.GetIdentifier() != id {
				fail("looking up %d gives %d", id, x.GetIdentifier())
			}
		}
	}
''')

WATCH='''
}

// watched calls f after every connection made in it.
type watched struct {
	*mem
	f    func()
	busy bool
}

func (w *watched) Connect(source uint, target uint) error {
	err := w.mem.Connect(source, target)
	if w.f != nil && !w.busy {
		w.busy = true
		w.f()
		w.busy = false
	}
	return err
'''

seed('early-sibling','C27','a reader goes to the next story between two accesses of the creation of a child story',
 'going to the next story insists on its being connected to the parent; a child story under way is linked to its sibling before it is connected to the parent, so the reader is told that there is a next story and cannot go there',
 [(C+'fact/aggregate.go','''	nextFactIdentifier, err := nextStory.GetTargetFact()
	if err != nil {
		return nil, err
	}
''','''	_, err = nextStory.GetTargetTree()
	if err != nil {
		return nil, err
	}

	nextFactIdentifier, err := nextStory.GetTargetFact()
	if err != nil {
		return nil, err
	}
''')],
 '''
	m := newMem()
	w := &watched{mem: m}
	g := semnet.NewGraph(w)
	root := need(g.CreateStory("a", "b"))
	first, err := root.CreateChildStory("c", "d")
	if err != nil {
		fail("%v", err)
	}
	reader := need(semnet.NewGraph(m).GetRemark(first.GetIdentifier()))
	w.f = func() {
		has, err := reader.HasNextStory()
		if err != nil {
			fail("%v", err)
		}
		if has {
			next, err := reader.GetNextStory()
			wantText(need(semnet.Remark{Aggregate: next}, err), "e", "f")
		}
	}
	if _, err := root.CreateChildStory("e", "f"); err != nil {
		fail("%v", err)
	}'''+WATCH)

seed('late-detail','C27','a reader follows the stories while a child story is created',
 'a child story is linked before its remark is connected to its text, so for a moment a reader that has gone there finds no text',
 [(C+'remark/aggregate.go','''	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	firstFact''','''	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	firstFact'''),
  (C+'remark/aggregate.go','''	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
	if err != nil {
		return nil, err
	}
''','''	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	// detail

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
'''),
  (C+'remark/aggregate.go','''func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {

''','''func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

'''),
 ],
 '''
	m := newMem()
	w := &watched{mem: m}
	g := semnet.NewGraph(w)
	root := need(g.CreateStory("a", "b"))
	first, err := root.CreateChildStory("c", "d")
	if err != nil {
		fail("%v", err)
	}
	reader := need(semnet.NewGraph(m).GetRemark(first.GetIdentifier()))
	w.f = func() {
		has, err := reader.HasNextStory()
		if err != nil {
			fail("%v", err)
		}
		if has {
			next, err := reader.GetNextStory()
			wantText(need(semnet.Remark{Aggregate: next}, err), "e", "f")
		}
	}
	if _, err := root.CreateChildStory("e", "f"); err != nil {
		fail("%v", err)
	}'''+WATCH)

seed('fact-count','C27','a reader asks for the next fact between two accesses of adding a fact',
 'whether there is a next fact is told from whether a fact of the story lies beyond this one, which is so before the new fact is linked',
 [(C+'fact/aggregate.go','''	return a.fact.HasTargetFact()
''','''	story, err := a.fact.GetTargetStory()
	if err != nil {
		return false, err
	}

	count, err := a.factStorage.CountByStory(story)
	if err != nil {
		return false, err
	}

	if count < 2 {
		return false, nil
	}

	last, err := a.factStorage.ReadLastByStory(story)
	if err != nil {
		return false, err
	}

	return last != a.fact.GetStory(), nil
''')] ,
 '''
	m := newMem()
	w := &watched{mem: m}
	g := semnet.NewGraph(w)
	root := need(g.CreateStory("a", "b"))
	reader := need(semnet.NewGraph(m).GetRemark(root.GetIdentifier()))
	w.f = func() {
		has, err := reader.HasNextFact()
		if err != nil {
			fail("%v", err)
		}
		if has {
			wantText(need(reader.GetNextFact()), "e", "f")
		}
	}
	need(root.AddFactToStory("e", "f"))'''+WATCH)
SEEDS.pop()

CROSS='''
}

// watched calls f within the n-th access of the kinds below.
type watched struct {
	*mem
	f func()
	n int
}

func (w *watched) step() {
	w.n--
	if w.n == 0 && w.f != nil {
		w.f()
	}
}

func (w *watched) Create() (uint, error) {
	w.step()
	return w.mem.Create()
}

func (w *watched) ReadSources(target uint) ([]uint, error) {
	w.step()
	return w.mem.ReadSources(target)
}

func (w *watched) GetReference(source uint) (uint, uint, error) {
	w.step()
	return w.mem.GetReference(source)
'''

seed('rune-buffer','C28','an operation on one store while one on another store is under way in the same process',
 'the characters of a word are collected in a buffer shared by all graphs of the process; an overlapping operation on another store replaces the rest of the word',
 [(C+'word/paths.go','	path := []rune(word)\n','	characters = characters[:0]\n	for _, character := range word {\n		characters = append(characters, character)\n	}\n	path := path(characters)\n'),
  (C+'word/paths.go','type paths struct{}\n','type paths struct{}\n\n// characters is reused to save allocations.\nvar characters = make([]rune, 0, 64)\n')],
 '''
	for n := 1; n < 400; n++ {
		w := &watched{mem: newMem(), n: n}
		other := semnet.NewGraph(newMem())
		w.f = func() { wantText(need(other.CreateStory("xyz", "zyx")), "xyz", "zyx") }
		r := need(semnet.NewGraph(w).CreateStory("abcd", "dcba"))
		w.f = nil
		wantText(r, "abcd", "dcba")
	}'''+CROSS)

seed('extract-buffer','C28','reading a text while a text of another store is being read in the same process',
 'words are put together in a buffer shared by all graphs of the process; reading a text of another store in between mixes both',
 [(C+'word/paths.go','	newPath := make([]rune, 1)\n	newPath[0] = start\n\n	return newPath','	return append(extracted[:0], start)'),
  (C+'word/paths.go','type paths struct{}\n','type paths struct{}\n\n// extracted is reused to save allocations.\nvar extracted = make([]rune, 0, 256)\n')],
 '''
	for n := 1; n < 400; n++ {
		w := &watched{mem: newMem()}
		other := need(semnet.NewGraph(newMem()).CreateStory("xyz", "zyx"))
		r := need(semnet.NewGraph(w).CreateStory("abcd", "dcba"))
		w.n = n
		w.f = func() { wantText(other, "xyz", "zyx") }
		wantText(r, "abcd", "dcba")
	}'''+CROSS)

seed('bit-pool','C28','an operation on one store while one on another store is under way in the same process',
 'the bits of a character are collected in a free list of the process, to which they are returned before they have been used',
 [(C+'character/paths.go','	bitValues := path(make([]bool, len(bitNames)))\n','	bits := pool.Get().(*[32]bool)\n	defer pool.Put(bits)\n	bitValues := path(bits[:len(bitNames)])\n'),
  (C+'character/paths.go','import (\n	"fmt"\n','import (\n	"fmt"\n	"sync"\n'),
  (C+'character/paths.go','type paths struct{}\n','type paths struct{}\n\nvar pool = sync.Pool{New: func() interface{} { return new([32]bool) }}\n')],
 '''
	for n := 1; n < 400; n++ {
		w := &watched{mem: newMem(), n: n}
		other := semnet.NewGraph(newMem())
		w.f = func() { wantText(need(other.CreateStory("\\u4e00", "\\u9fa5")), "\\u4e00", "\\u9fa5") }
		r := need(semnet.NewGraph(w).CreateStory("ab", "ba"))
		w.f = nil
		wantText(r, "ab", "ba")
	}'''+CROSS)

# round 4

GET="""
}

func get[T any](x T, err error) T {
	if err != nil {
		fail("unexpected error: %v", err)
	}
	return x
"""

seed('render-long','C19','a remark whose object is longer than 512 bytes',
 'rendering copies each text through a buffer of fixed size; what exceeds it is left out of the rendering (reading the text itself is right)',
 [('output.go','		buffer.WriteString(object)\n','		write(object)\n'),
  ('output.go','		buffer.WriteString(property)\n','		write(property)\n'),
  ('output.go','	var buffer bytes.Buffer\n','''	var buffer bytes.Buffer
	var chunk [512]byte

	write := func(text string) {
		buffer.Write(chunk[:copy(chunk[:], text)])
	}
''')],
 '''
	long := strings.Repeat("abc ", 200) + "d"
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory(long, "p"))
	wantText(r, long, "p")
	s, err := semnet.NewOutput(g).GetStory(r)
	if err != nil || s != long+" p " {
		fail("rendering has %d bytes, %v", len(s), err)
	}''',('strings',))

seed('repeated-word','C02','a phrase with the same word three times in a row',
 'a word that repeats its two predecessors is taken for noise and left out of the phrase',
 [(C+'phrase/paths.go','''	path := strings.Split(words, " ")
''','''	var path path

	for _, word := range strings.Split(words, " ") {
		if n := len(path); n > 1 && path[n-1] == word && path[n-2] == word {
			continue
		}
		path = append(path, word)
	}
''')],
 '''
	g := semnet.NewGraph(newMem())
	wantText(need(g.CreateStory("a a", "b")), "a a", "b")
	wantText(need(g.CreateStory("a a a", "b")), "a a a", "b")''')

seed('self-detail','C03','a remark whose object and property are the same text, stored twice',
 'a pair of equal texts is not looked for among the stored pairs, so that each use stores it again',
 [(C+'detail/repository.go','''	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
''','''	provide := r.detailFactory.ProvideEntity
	if object == property {
		// an object is not its own property
		provide = r.detailStorage.CreateEntity
	}

	detail, err := provide(class, objectPhrase, propertyPhrase)
	if err != nil {
''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	need(g.CreateStory("a", "b"))
	n := m.n
	need(g.CreateStory("a", "b"))
	known := m.n - n
	need(g.CreateStory("a", "a"))
	n = m.n
	need(g.CreateStory("a", "a"))
	if m.n-n != known {
		fail("storing (a, a) again adds %d nodes, not %d", m.n-n, known)
	}''')

seed('registry','C11','two graphs on different storage objects for the same store, used in turn to add facts to one story',
 'the last fact of each story is remembered per storage object for the whole process; facts added through another storage object for the same store go unnoticed, and the list forks',
 [(C+'fact/repository.go','''	for {
		hasTargetFact, err := lastFact.HasTargetFact()''','''	story, err := lastFact.GetTargetStory()
	if err != nil {
		return err
	}

	last, found := lastFacts[key{r.storage, story}]
	if found {
		lastFact, err = r.factStorage.ReadEntityByPosition(last)
		if err != nil {
			return err
		}
	}

	lastFacts[key{r.storage, story}] = nextFact.GetPosition()

	for !found {
		hasTargetFact, err := lastFact.HasTargetFact()'''),
  (C+'fact/repository.go','''type Repository struct {
''','''type key struct {
	storage abstract.Storage
	story   uint
}

// lastFacts spares walking through long stories.
var lastFacts = map[key]uint{}

type Repository struct {
	storage         abstract.Storage
'''),
  (C+'fact/repository.go','''		factStorage:     NewStorage(storage),
''','''		storage:         storage,
		factStorage:     NewStorage(storage),
''')],
 '''
	m := newMem()
	r := need(semnet.NewGraph(m).CreateStory("a", "b"))
	get(r.AddFactToStory("c", "d"))
	type other struct{ *mem }
	l := need(semnet.NewGraph(other{m}).GetRemark(r.GetIdentifier()))
	get(l.AddFactToStory("e", "f"))
	get(r.AddFactToStory("g", "h"))
	x := get(get(r.GetNextFact()).GetNextFact())
	wantText(semnet.Remark{Aggregate: x}, "e", "f")
	wantText(semnet.Remark{Aggregate: get(x.GetNextFact())}, "g", "h")'''+GET)

seed('long-phrase','C17','a store written by the version before, with phrases of more than four words',
 'long phrases are stored from their last word to their first, to share endings; those in existing stores read back in the wrong order',
 [(C+'phrase/repository.go','''	phraseElement, err := r.phraseElements.ProvideFirstElement(path[0])''','''	if len(path) > 4 {
		path = path.reverse()
	}

	phraseElement, err := r.phraseElements.ProvideFirstElement(path[0])'''),
  (C+'phrase/aggregate.go','''	return path.reverse().toString(), nil''','''	if len(path) > 4 {
		return path.toString(), nil
	}

	return path.reverse().toString(), nil''')],
 '$OLDSTORE2')

seed('verify-detail','C24','a text that is used in many pairs',
 'reading a remark checks that the pair is listed with its object, by reading all pairs of the object',
 [(C+'detail/aggregate.go','''	objectPhraseValue, err := objectPhrase.Extract()
''','''	targetDetails, err := objectPhrase.GetTargetDetails()
	if err != nil {
		return "", "", err
	}

	if len(targetDetails) == 0 {
		return "", "", fmt.Errorf("object has no details: %d", objectIdentifier)
	}

	objectPhraseValue, err := objectPhrase.Extract()
'''),
  (C+'detail/aggregate.go','import (\n','import (\n	"fmt"\n')],
 '''
	steps := 0
	m := newMem()
	c := &counted{m, &steps}
	g := semnet.NewGraph(c)
	r := need(g.CreateStory("a", "p"))
	steps = 0
	wantText(r, "a", "p")
	small := steps
	for i := 0; i < 300; i++ {
		need(g.CreateStory("a", fmt.Sprint("p", i)))
	}
	steps = 0
	wantText(r, "a", "p")
	if steps > small+100 {
		fail("reading a remark reads %d neighbours in a small store and %d in a larger one", small, steps)
	}
}

type counted struct {
	*mem
	steps *int
}

func (c *counted) ReadTargets(source uint) ([]uint, error) {
	list, err := c.mem.ReadTargets(source)
	*c.steps += len(list)
	return list, err
}

func (c *counted) ReadSources(target uint) ([]uint, error) {
	list, err := c.mem.ReadSources(target)
	*c.steps += len(list)
	return list, err
''',('fmt',))

seed('dense-fields','C15','a storage that does not number new nodes consecutively',
 'the nodes of a fact are taken to have been numbered one after the other',
 [(C+'fact/storage.go','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}

	remark, _, err := s.storage.GetReference(position)
	if err != nil {
		return Entity{}, err
	}
''','''func (s *Storage) ReadEntityByStory(story uint) (abstractFact.Entity, error) {

	position, _, err := s.storage.GetReference(story)
	if err != nil {
		return Entity{}, err
	}

	remark := position - 1
''')],
 '''
	m := newMem()
	m.id = func(n uint) uint {
		if n > 8 {
			return n * 3
		}
		return n
	}
	r := need(semnet.NewGraph(m).CreateStory("a", "b"))
	f := get(r.AddFactToStory("c", "d"))
	first := get(f.GetFirstFact())
	wantText(semnet.Remark{Aggregate: first}, "a", "b")
	if first.GetIdentifier() != r.GetIdentifier() {
		fail("first fact is another")
	}'''+GET)

seed('orphan','C26','a phrase in which a word follows itself',
 'a phrase node is created that no phrase uses, when the word to be added equals the one before it',
 [(C+'phrase/factory.go','''	class, err := classEntity.CreatePhrase()
	if err != nil {
		return nil, err
	}

	newPhraseEntity, err :=''','''	class, err := classEntity.CreatePhrase()
	if err != nil {
		return nil, err
	}

	previousWord, err := previousPhraseEntity.GetTargetWord()
	if err != nil {
		return nil, err
	}

	if previousWord == wordAggregate.GetPhrase() {
		// the repeated word gets a node of its own
		class, err = classEntity.CreatePhrase()
		if err != nil {
			return nil, err
		}
	}

	newPhraseEntity, err :=''')],
 '''
	m := newMem()
	g := semnet.NewGraph(m)
	grow := func(o string) uint {
		n := m.n
		need(g.CreateStory(o, "p"))
		return m.n - n
	}
	grow("a b")
	grow("b a")
	grow("c a")
	x, y, z := grow("a a"), grow("b b"), grow("a c")
	if x != z || y != z {
		fail("a a: %d, b b: %d, b a: %d nodes", x, y, z)
	}''')

seed('maintenance','C14','five hundred readings of texts through one graph',
 'every five hundredth reading of a text confirms a reference of the detail by setting it again',
 [(C+'detail/storage.go','''func (s *Storage) ReadEntityByRemark(remark uint) (abstractDetail.Entity, error) {
''','''func (s *Storage) ReadEntityByRemark(remark uint) (abstractDetail.Entity, error) {

	s.reads++
	if s.reads%500 == 0 {
		phrase, _, err := s.storage.GetReference(remark)
		if err != nil {
			return Entity{}, err
		}

		err = s.storage.SetReference(phrase, remark)
		if err != nil {
			return Entity{}, err
		}
	}
'''),
  (C+'detail/storage.go','''	storage abstract.Storage
}''','''	storage abstract.Storage
	reads   int
}''')],
 '''
	m := newMem()
	r := need(semnet.NewGraph(m).CreateStory("a", "b"))
	n := m.writes
	for i := 0; i < 1500; i++ {
		wantText(r, "a", "b")
	}
	if m.writes != n {
		fail("reading has changed the storage %d times", m.writes-n)
	}''')

seed('tree-first','C13','an interruption while a second child story is being linked to its parent',
 'a child story is made known to its parent before it is linked to its sibling; after an interruption in between, the list of child stories may be continued from either',
 [(C+'fact/repository.go','''	sourceTrees, err := story.GetSourceTrees()
	if err != nil {
		return err
	}
''','''	sourceTrees, err := story.GetSourceTrees()
	if err != nil {
		return err
	}

	err = childStory.PointToTree(story.GetTree())
	if err != nil {
		return err
	}
'''),
  (C+'fact/repository.go','''	return childStory.PointToTree(story.GetTree())
''','''	return nil
''')],
 '''
	for k := 1; ; k++ {
		m := newMem()
		s := &newest{m}
		g := semnet.NewGraph(s)
		r := need(g.CreateStory("a", "b"))
		first := get(r.CreateChildStory("c", "d"))
		m.calls, m.failAt = 0, k
		_, err := r.CreateChildStory("e", "f")
		failed := m.failed
		m.failAt = 0
		if !failed {
			break
		}
		if err == nil {
			fail("no error")
		}
		g = semnet.NewGraph(s)
		r = need(g.GetRemark(r.GetIdentifier()))
		last := get(r.CreateChildStory("g", "h"))
		found := false
		for x := need(g.GetRemark(first.GetIdentifier())).Aggregate; !found && get(x.HasNextStory()); {
			x = get(x.GetNextStory())
			found = x.GetIdentifier() == last.GetIdentifier()
		}
		if !found {
			fail("interrupted at access %d: a later child story is not among those that follow the first", k)
		}
	}
}

// newest lists the newest sources first.
type newest struct{ *mem }

func (m *newest) ReadSources(target uint) ([]uint, error) {
	list, err := m.mem.ReadSources(target)
	for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
		list[i], list[j] = list[j], list[i]
	}
	return list, err
'''+GET)

seed('parallel','C12','a storage access failing while the property is read',
 'object and property are read side by side, and an error of the second is dropped when the first is done',
 [(C+'detail/aggregate.go','''	propertyPhraseValue, err := propertyPhrase.Extract()
	if err != nil {
		return "", "", err
	}
''','''	property := make(chan string, 1)
	go func() {
		value, _ := propertyPhrase.Extract()
		property <- value
	}()

	propertyPhraseValue := <-property
''')],
 '''
	m := newMem()
	r := need(semnet.NewGraph(m).CreateStory("a", "b c"))
	for k := 1; ; k++ {
		m.calls, m.failAt, m.failed = 0, k, false
		_, _, err := r.GetObjectAndProperty()
		if !m.failed {
			break
		}
		if err == nil {
			fail("access %d fails, and no error is reported", k)
		}
	}''')


seed('joined-key','C01','an object that contains a slash, and a pair that is the same once joined by one',
 'details are remembered by object and property joined by a slash, so ("a/b", "c") and ("a", "b/c") share one detail',
 [(C+'detail/repository.go','''	objectPhrase, err := r.phraseRepository.Provide(object)
''','''	key := object + "/" + property

	if detail, ok := r.known[key]; ok {
		return Aggregate{
			detail:           detail,
			detailStorage:    r.detailStorage,
			detailFactory:    r.detailFactory,
			classRepository:  r.classRepository,
			phraseRepository: r.phraseRepository,
		}, nil
	}

	objectPhrase, err := r.phraseRepository.Provide(object)
'''),
  (C+'detail/repository.go','''	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
		return nil, err
	}
''','''	detail, err := r.detailFactory.ProvideEntity(class, objectPhrase, propertyPhrase)
	if err != nil {
		return nil, err
	}

	r.known[key] = detail
'''),
  (C+'detail/repository.go','''	phraseRepository abstractPhrase.Repository
}
''','''	phraseRepository abstractPhrase.Repository
	known            map[string]abstractDetail.Entity
}
'''),
  (C+'detail/repository.go','''		classRepository:  classRepository,
''','''		known:            map[string]abstractDetail.Entity{},
		classRepository:  classRepository,
''')],
 '''
	g := semnet.NewGraph(newMem())
	wantText(need(g.CreateStory("a/b", "c")), "a/b", "c")
	wantText(need(g.CreateStory("a", "b/c")), "a", "b/c")''')

seed('checksum','C01','two phrases with the same CRC-32 checksum, stored through one graph',
 'phrases that were stored are remembered by their checksum; of two with the same one, the second is taken for the first',
 [(C+'phrase/repository.go','''	path, err := r.paths.collect(words)
''','''	sum := crc32.ChecksumIEEE([]byte(words))

	if phrase, ok := r.known[sum]; ok {
		return Aggregate{
			phrase:         phrase,
			phraseElements: r.phraseElements,
			paths:          r.paths,
		}, nil
	}

	path, err := r.paths.collect(words)
'''),
  (C+'phrase/repository.go','''	return Aggregate{
		phrase:         phraseElement.GetEntity(),
''','''	r.known[sum] = phraseElement.GetEntity()

	return Aggregate{
		phrase:         phraseElement.GetEntity(),
'''),
  (C+'phrase/repository.go','''	paths          *paths
}
''','''	paths          *paths
	known          map[uint32]abstractPhrase.Entity
}
'''),
  (C+'phrase/repository.go','''	return &Repository{
		phraseStorage:  phraseStorage,
''','''	return &Repository{
		known:          map[uint32]abstractPhrase.Entity{},
		phraseStorage:  phraseStorage,
'''),
  (C+'phrase/repository.go','import (\n','import (\n	"hash/crc32"\n')],
 '''
	g := semnet.NewGraph(newMem())
	wantText(need(g.CreateStory("plumless", "c")), "plumless", "c")
	wantText(need(g.CreateStory("buckeroo", "c")), "buckeroo", "c")''')

PARALLEL='''
	texts := []string{"a b", "xyz", "\\u20ac %s", "b a"}
	over := make(chan string)
	start := make(chan bool)
	for _, text := range texts {
		go func(text string) {
			m := newMem()
			m.yield = true
			<-start
			g := semnet.NewGraph(m)
			for i := 0; i < 50; i++ {
				r, err := g.CreateStory(text+string(rune('A'+i)), text)
				if err != nil {
					over <- err.Error()
					return
				}
				o, p, err := r.GetObjectAndProperty()
				if err != nil || o != text+string(rune('A'+i)) || p != text {
					over <- o + " " + p
					return
				}
			}
			over <- ""
		}(text)
	}
	close(start)
	for range texts {
		if bad := <-over; bad != "" {
			fail("%s", bad)
		}
	}'''.replace('%s",','S",').replace('S", "b a','%s", "b a').replace('fail("S",','fail("%s",').replace('\\u20ac %s','\\u20ac')

seed('pattern-table','C29','two goroutines that store or read texts on stores of their own at the same moment',
 'the bits of a code point are remembered in a map of the package, which goroutines change without synchronization',
 [(C+'character/paths.go','	bitNames := fmt.Sprintf("%b", integer)\n','''	if known, ok := patterns[integer]; ok {
		return known, nil
	}

	bitNames := fmt.Sprintf("%b", integer)
'''),
  (C+'character/paths.go','	return bitValues, nil\n','''	patterns[integer] = bitValues

	return bitValues, nil
'''),
  (C+'character/paths.go','type paths struct{}\n','''var patterns = map[rune]path{}

type paths struct{}
''')], PARALLEL)

seed('scratch-runes','C29','two goroutines that store texts on stores of their own at the same moment',
 'the characters of a word are collected in a slice of the package before they are copied',
 [(C+'word/paths.go','	path := []rune(word)\n','''	scratch = scratch[:0]
	for _, character := range word {
		scratch = append(scratch, character)
	}

	path := append([]rune(nil), scratch...)
'''),
  (C+'word/paths.go','type paths struct{}\n','''var scratch []rune

type paths struct{}
''')], PARALLEL)

seed('first-use','C29','two goroutines of a new process that use the library for the first time at the same moment',
 'a table of the bits of small code points is built at first use without synchronization; who comes second may find it half built',
 [(C+'character/paths.go','	bitNames := fmt.Sprintf("%b", integer)\n','''	if integer >= 0 && integer < 128 {
		if table == nil {
			table = make([]path, 0, 128)
			for i := rune(0); i < 128; i++ {
				bits, err := p.spell(i)
				if err != nil {
					return path{}, err
				}
				table = append(table, bits)
			}
		}
		return table[integer], nil
	}

	return p.spell(integer)
}

func (p *paths) spell(integer rune) (path, error) {

	bitNames := fmt.Sprintf("%b", integer)
'''),
  (C+'character/paths.go','type paths struct{}\n','''var table []path

type paths struct{}
''')], PARALLEL)

seed('kept-classes','C11','a storage whose content is put back to an earlier state (or emptied) within one process, and a graph then opened on it',
 'what is known about the class nodes of a storage is kept for the life of the process, so that a graph opened on a storage that has been emptied does not set it up',
 [(C+'class/repository.go','''	if !r.isInitialized {

		hasFirstNode''','''	if kept, ok := known.Load(r.storage); ok {
		return kept.(Entity), nil
	}

	if !r.isInitialized {

		hasFirstNode'''),
  (C+'class/repository.go','''			node.NewStory(storyIdentifier, r.storage),
		)
''','''			node.NewStory(storyIdentifier, r.storage),
		)

		known.Store(r.storage, r.entity)
'''),
  (C+'class/repository.go','type Repository struct {','''var known sync.Map

type Repository struct {'''),
  (C+'class/repository.go','	"fmt"\n','	"fmt"\n	"sync"\n')],
 '''
	m := newMem()
	wantText(need(semnet.NewGraph(m).CreateStory("a", "b")), "a", "b")
	*m = *newMem()
	g := semnet.NewGraph(m)
	r, err := g.CreateStory("c", "d")
	if err != nil {
		fail("the first story of an emptied storage: %v", err)
	}
	wantText(r, "c", "d")
	wantText(need(g.CreateStory("e", "f")), "e", "f")
	if _, err := g.GetRemark(1); err == nil {
		fail("node 1 is a remark")
	}''')

FAULTS='''
	for _, one := range []func(r semnet.Remark) error{
		func(r semnet.Remark) error { _, err := r.HasNextFact(); return err },
		func(r semnet.Remark) error { _, err := r.HasNextStory(); return err },
		func(r semnet.Remark) error { _, err := r.AddFactToStory("e", "f"); return err },
	} {
		for at := 1; ; at++ {
			m := newMem()
			g := semnet.NewGraph(m)
			a := need(g.CreateStory("a", "b"))
			if _, err := a.AddFactToStory("c", "d"); err != nil {
				fail("%v", err)
			}
			b, err := a.CreateChildStory("e", "f")
			if err != nil {
				fail("%v", err)
			}
			if _, err := a.CreateChildStory("g", "h"); err != nil {
				fail("%v", err)
			}
			child := need(g.GetRemark(b.GetIdentifier()))
			m.calls, m.failAt, m.failed, m.answers = 0, at, false, ANSWERS
			m.fault = FAULT
			err = one(child)
			if !m.failed {
				break
			}
			if err == nil {
				fail("access %d fails, but no error is reported", at)
			}
		}
	}'''

seed('end-of-list','C12','a storage whose accesses fail with io.EOF',
 'an end of file while reading the next fact is taken for the end of the list of facts',
 [(C+'fact/entity.go','''	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return false, err
''','''	targets, err := e.storage.ReadTargets(e.position)
	if errors.Is(err, io.EOF) {
		return false, nil
	}
	if err != nil {
		return false, err
'''),
  (C+'fact/entity.go','	"fmt"\n','	"errors"\n	"fmt"\n	"io"\n')], FAULTS.replace('ANSWERS','false').replace('FAULT','io.EOF'),('io',))

seed('early-answer','C12','a storage that returns an answer together with the error of a failing access',
 'whether there is a next story is told from what a failing access has returned',
 [(C+'story/entity.go','''	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return false, err
	}

	return len(targets) != 0, nil
''','''	targets, err := e.storage.ReadTargets(e.position)
	if len(targets) != 0 {
		return true, nil
	}

	return false, err
''')], FAULTS.replace('ANSWERS','true').replace('FAULT','errFault'))

seed('exists-already','C12','a storage whose failing access says that something exists already',
 'connecting a fact to the next one is taken for done when the storage fails with os.ErrExist',
 [(C+'fact/entity.go','''	return e.storage.Connect(e.position, position)
''','''	err := e.storage.Connect(e.position, position)
	if errors.Is(err, os.ErrExist) { // connecting twice is connecting once
		return nil
	}

	return err
'''),
  (C+'fact/entity.go','	"fmt"\n','	"errors"\n	"fmt"\n	"os"\n')], FAULTS.replace('ANSWERS','false').replace('FAULT','os.ErrExist'),('os',))

seed('word-memo','C28','two stores used in one process, in which words have the same nodes',
 'the texts of words are remembered by node for the whole process, guarded by a mutex, but not by store',
 [(C+'word/aggregate.go','''	wordElement := a.wordElements.CreateLastElement(a.word)
''','''	texts.Lock()
	known, ok := texts.of[a.word.GetWord()]
	texts.Unlock()
	if ok {
		return known, nil
	}

	wordElement := a.wordElements.CreateLastElement(a.word)
'''),
  (C+'word/aggregate.go','''	return path.reverse().toString(), nil
''','''	text := path.reverse().toString()
	texts.Lock()
	texts.of[a.word.GetWord()] = text
	texts.Unlock()

	return text, nil
'''),
  (C+'word/aggregate.go','''type Aggregate struct {''','''var texts = struct {
	sync.Mutex
	of map[uint]string
}{of: map[uint]string{}}

type Aggregate struct {'''),
  (C+'word/aggregate.go','import (\n','import (\n	"sync"\n')],
 '''
	g, h := semnet.NewGraph(newMem()), semnet.NewGraph(newMem())
	a := need(g.CreateStory("a b", "c"))
	b := need(h.CreateStory("x y", "z"))
	wantText(a, "a b", "c")
	wantText(b, "x y", "z")''')

seed('hops','C05','following the facts of a story step by step for more than 500 steps',
 'as a guard against endless lists, a handle that has come 500 steps by next-fact navigation refuses to go on',
 [(C+'remark/aggregate.go','	factRepository   abstractFact.Repository\n}\n','	factRepository   abstractFact.Repository\n	hops             int\n}\n'),
  (C+'remark/aggregate.go',"""	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return Aggregate{
""","""	if a.hops == 500 {
		return nil, fmt.Errorf("list of facts does not end")
	}

	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		hops:             a.hops + 1,
""")],
 '''
	g := semnet.NewGraph(newMem())
	r := need(g.CreateStory("a", "b"))
	var last interface{ GetIdentifier() uint }
	for i := 0; i < 520; i++ {
		next, err := r.AddFactToStory("a", "b")
		if err != nil {
			fail("%v", err)
		}
		last = next
	}
	step, err := r.GetNextFact()
	if err != nil {
		fail("%v", err)
	}
	for n := 2; n <= 520; n++ {
		if step, err = step.GetNextFact(); err != nil {
			fail("step %d: %v", n, err)
		}
	}
	if step.GetIdentifier() != last.GetIdentifier() {
		fail("the last fact is not reached")
	}''')

seed('deadline','C23','a storage that takes more than two seconds to answer while a phrase of several words is stored',
 'a phrase that takes more than two seconds to store is given up with an error, so the result of an operation depends on time',
 [(C+'phrase/repository.go','	for _, wordValue := range path[1:] {\n','	for _, wordValue := range path[1:] {\n\n		if time.Since(begin) > 2*time.Second {\n			return nil, fmt.Errorf("phrase takes too long: %s", words)\n		}\n'),
  (C+'phrase/repository.go','	path, err := r.paths.collect(words)\n','	begin := time.Now()\n\n	path, err := r.paths.collect(words)\n'),
  (C+'phrase/repository.go','import (','import (\n	"fmt"\n	"time"\n')],
 '''
	m := newMem()
	slow := 0
	m.before = func() {
		if slow > 0 && m.calls == slow {
			time.Sleep(2200 * time.Millisecond)
		}
	}
	g := semnet.NewGraph(m)
	need(g.CreateStory("x", "y"))
	for i, x := range []string{"a", "b", "c", "d"} {
		m.calls, slow = 0, 10+i*30
		r := need(g.CreateStory(x+" b", x+" "+x))
		wantText(r, x+" b", x+" "+x)
	}
''',imports=('time',))


TREE3=TREE[:TREE.index("	parent, err := last")]+"""
	m.calls = 0
	if _, err := last.HasParentStory(); err != nil {
		fail("%v", err)
	}
	for k, n := 1, m.calls; k <= n; k++ {
		m.calls, m.failAt = 0, k
		if has, err := last.HasParentStory(); err == nil {
			fail("access %d fails, but HasParentStory answers %v", k, has)
		}
	}
"""
seed('rootless','C12','the storage access with which a fact is asked whether its story has a parent fails',
 'a story whose place in the tree cannot be read is said to have no parent',
 [(C+'story/entity.go',"""func (e Entity) HasTargetTree() (bool, error) {

	targets, err := e.storage.ReadTargets(e.tree)
	if err != nil {
		return false, err
	}
""","""func (e Entity) HasTargetTree() (bool, error) {

	targets, err := e.storage.ReadTargets(e.tree)
	if err != nil {
		return false, nil
	}
""")],'$TREE3')

seed('narrow','C15','a storage that returns its own lists of neighbours instead of copies, and two texts that have several pairs',
 'looking for a pair overwrites the list of pairs the storage returned, so that pairs get lost',
 [(C+'detail/factory.go','commonDetailIdentifiers := make([]uint, 0, 1)','commonDetailIdentifiers := objectTargetDetails[:0]')],
 '''
	m := newMem()
	m.own = true
	g := semnet.NewGraph(m)
	need(g.CreateStory("a", "b"))
	need(g.CreateStory("a", "c"))
	need(g.CreateStory("a", "c"))
	n := m.n
	need(g.CreateStory("a", "b"))
	created := m.n - n
	n = m.n
	need(g.CreateStory("a", "b"))
	if m.n-n != created {
		fail("the pair has been stored again")
	}
	n = m.n
	need(g.CreateStory("a", "c"))
	if m.n-n != created {
		fail("the pair has been stored again")
	}
''')

seed('abridged','C01','two phrases of more than 32 bytes that are equally long and differ only in the middle',
 'phrases that were stored are remembered by their length, beginning and end; of two with the same ones, the second is taken for the first',
 [(C+'phrase/repository.go','''	path, err := r.paths.collect(words)
''','''	sum := words

	if len(sum) > 32 {
		sum = fmt.Sprintf("%d %s %s", len(words), words[:12], words[len(words)-12:])
	}

	if phrase, ok := r.known[sum]; ok {
		return Aggregate{
			phrase:         phrase,
			phraseElements: r.phraseElements,
			paths:          r.paths,
		}, nil
	}

	path, err := r.paths.collect(words)
'''),
  (C+'phrase/repository.go','''	return Aggregate{
		phrase:         phraseElement.GetEntity(),
''','''	r.known[sum] = phraseElement.GetEntity()

	return Aggregate{
		phrase:         phraseElement.GetEntity(),
'''),
  (C+'phrase/repository.go','''	paths          *paths
}
''','''	paths          *paths
	known          map[string]abstractPhrase.Entity
}
'''),
  (C+'phrase/repository.go','''	return &Repository{
		phraseStorage:  phraseStorage,
''','''	return &Repository{
		known:          map[string]abstractPhrase.Entity{},
		phraseStorage:  phraseStorage,
'''),
  (C+'phrase/repository.go','import (\n','import (\n	"fmt"\n')],
 '''
	g := semnet.NewGraph(newMem())
	x, y := "the quick brown fox jumps over the lazy dog", "the quick brown cat jumps over the lazy dog"
	wantText(need(g.CreateStory(x, "c")), x, "c")
	wantText(need(g.CreateStory(y, "c")), y, "c")''')
