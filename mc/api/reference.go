package api

import (
	semnet "github.com/mem-memov/semnet/verifmc/ref"
	"github.com/mem-memov/semnet/verifmc/st"
)

type refGraph struct {
	g *semnet.Graph
	o *semnet.Output
}

type refRemark struct{ r semnet.Remark }

// OpenReference opens the reference version of the library on a storage.
func OpenReference(s st.Storage) Graph {
	g := semnet.NewGraph(s)
	return &refGraph{g, semnet.NewOutput(g)}
}

func refWrap(r semnet.Remark, err error) (Remark, error) {
	if err != nil {
		return nil, err
	}
	if r.Aggregate == nil {
		return nil, errNil
	}
	return &refRemark{r}, nil
}

func (g *refGraph) CreateStory(object, property string) (r Remark, err error) {
	defer guard(&err)
	return refWrap(g.g.CreateStory(object, property))
}

func (g *refGraph) GetRemark(id uint) (r Remark, err error) {
	defer guard(&err)
	return refWrap(g.g.GetRemark(id))
}

func (g *refGraph) Render(r Remark) (s string, err error) {
	defer guard(&err)
	return g.o.GetStory(r.(*refRemark).r)
}

func (r *refRemark) ID() (id uint) {
	defer func() {
		if recover() != nil {
			id = ^uint(0)
		}
	}()
	return r.r.GetIdentifier()
}

func (r *refRemark) Text() (o string, p string, err error) {
	defer guard(&err)
	return r.r.GetObjectAndProperty()
}

func (r *refRemark) HasNextRemark() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextRemark()
}

func (r *refRemark) HasNextFact() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextFact()
}

func (r *refRemark) HasNextStory() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextStory()
}

func (r *refRemark) NextRemark() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextRemark()
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) NextFact() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextFact()
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) FirstFact() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetFirstFact()
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) NextStory() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextStory()
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) AddRemark(property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.AddRemarkToFact(property)
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) AddFact(object, property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.AddFactToStory(object, property)
	return refWrap(semnet.Remark{Aggregate: a}, err)
}

func (r *refRemark) CreateChild(object, property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.CreateChildStory(object, property)
	return refWrap(semnet.Remark{Aggregate: a}, err)
}
