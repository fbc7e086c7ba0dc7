package semnet

import (
	"github.com/mem-memov/semnet/verifmc/ref/internal/abstract"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/bit"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/character"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/class"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/detail"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/fact"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/phrase"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/remark"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/story"
	"github.com/mem-memov/semnet/verifmc/ref/internal/concrete/word"
)

type Graph struct {
	storyRepository  *story.Repository
	factRepository   *fact.Repository
	remarkRepository *remark.Repository
	detailRepository *detail.Repository
	phraseRepository *phrase.Repository
}

func NewGraph(storage abstract.Storage) *Graph {

	classRepository := class.NewRepository(storage)
	bitRepository := bit.NewRepository(storage, classRepository)
	characterRepository := character.NewRepository(storage, classRepository, bitRepository)
	wordRepository := word.NewRepository(storage, classRepository, characterRepository)
	phraseRepository := phrase.NewRepository(storage, classRepository, wordRepository)
	detailRepository := detail.NewRepository(storage, classRepository, phraseRepository)

	storyRepository := story.NewRepository(storage, classRepository)
	factRepository := fact.NewRepository(storage, classRepository, storyRepository)

	remarkRepository := remark.NewRepository(storage, classRepository, detailRepository, factRepository)

	return &Graph{
		remarkRepository: remarkRepository,
	}
}

func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}

func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
