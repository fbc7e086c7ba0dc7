package word

import (
	"github.com/mem-memov/semnet/verifmc/ref/internal/abstract/character"
	"github.com/mem-memov/semnet/verifmc/ref/internal/abstract/class"
)

type Factory interface {
	ProvideHeadEntity(classEntity class.Entity, characterEntity character.Aggregate) (Entity, error)
	CreateTailEntity(classEntity class.Entity, bitEntity character.Aggregate, previousWordEntity Entity) (Entity, error)
}
