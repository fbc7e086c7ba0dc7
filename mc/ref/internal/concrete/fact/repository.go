package fact

import (
	"github.com/mem-memov/semnet/verifmc/ref/internal/abstract"
	abstractClass "github.com/mem-memov/semnet/verifmc/ref/internal/abstract/class"
	abstractFact "github.com/mem-memov/semnet/verifmc/ref/internal/abstract/fact"
	abstractStory "github.com/mem-memov/semnet/verifmc/ref/internal/abstract/story"
)

type Repository struct {
	factStorage     abstractFact.Storage
	classRepository abstractClass.Repository
	storyRepository abstractStory.Repository
}

var _ abstractFact.Repository = &Repository{}

func NewRepository(
	storage abstract.Storage,
	classRepository abstractClass.Repository,
	storyRepository abstractStory.Repository,
) *Repository {
	return &Repository{
		factStorage:     NewStorage(storage),
		classRepository: classRepository,
		storyRepository: storyRepository,
	}
}

func (r *Repository) CreateFirstStoryFact() (abstractFact.Aggregate, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = fact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = story.PointToFact(fact.GetStory())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

func (r *Repository) FetchByRemark(remarkIdentifier uint) (abstractFact.Aggregate, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

// AppendFact makes a new fact the last one of the story another fact belongs to.
func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error {

	lastFact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return err
	}

	nextFact, err := r.factStorage.ReadEntityByRemark(nextRemarkIdentifier)
	if err != nil {
		return err
	}

	for {
		hasTargetFact, err := lastFact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := lastFact.GetTargetFact()
		if err != nil {
			return err
		}

		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return err
		}
	}

	return lastFact.PointToPosition(nextFact.GetPosition())
}

// AppendChildStory makes a new story the last child of the story a fact belongs to.
func (r *Repository) AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return err
	}

	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
	if err != nil {
		return err
	}

	childStoryIdentifier, err := childFact.GetTargetStory()
	if err != nil {
		return err
	}

	childStory, err := r.storyRepository.FetchByFact(childStoryIdentifier)
	if err != nil {
		return err
	}

	sourceTrees, err := story.GetSourceTrees()
	if err != nil {
		return err
	}

	if len(sourceTrees) != 0 {

		siblingStory, err := r.storyRepository.FetchByTree(sourceTrees[0])
		if err != nil {
			return err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return err
		}
	}

	return childStory.PointToTree(story.GetTree())
}
