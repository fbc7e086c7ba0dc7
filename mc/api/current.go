package api

import (
	semnet "github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/verifmc/st"
)

type graph struct {
	g *semnet.Graph
	o *semnet.Output
}

type remark struct{ r semnet.Remark }

// Open opens the current version of the library on a storage.
func Open(s st.Storage) Graph {
	g := semnet.NewGraph(s)
	return &graph{g, semnet.NewOutput(g)}
}

func wrap(r semnet.Remark, err error) (Remark, error) {
	if err != nil {
		return nil, err
	}
	if r.Aggregate == nil {
		return nil, errNil
	}
	return &remark{r}, nil
}

func (g *graph) CreateStory(object, property string) (r Remark, err error) {
	defer guard(&err)
	return wrap(g.g.CreateStory(object, property))
}

func (g *graph) GetRemark(id uint) (r Remark, err error) {
	defer guard(&err)
	return wrap(g.g.GetRemark(id))
}

func (g *graph) Render(r Remark) (s string, err error) {
	defer guard(&err)
	return g.o.GetStory(r.(*remark).r)
}

func (r *remark) ID() (id uint) {
	defer func() {
		if recover() != nil {
			id = ^uint(0)
		}
	}()
	return r.r.GetIdentifier()
}

func (r *remark) Text() (o string, p string, err error) {
	defer guard(&err)
	return r.r.GetObjectAndProperty()
}

func (r *remark) HasNextRemark() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextRemark()
}

func (r *remark) HasNextFact() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextFact()
}

func (r *remark) HasNextStory() (b bool, err error) {
	defer guard(&err)
	return r.r.HasNextStory()
}

func (r *remark) NextRemark() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextRemark()
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) NextFact() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextFact()
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) FirstFact() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetFirstFact()
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) NextStory() (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.GetNextStory()
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) AddRemark(property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.AddRemarkToFact(property)
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) AddFact(object, property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.AddFactToStory(object, property)
	return wrap(semnet.Remark{Aggregate: a}, err)
}

func (r *remark) CreateChild(object, property string) (n Remark, err error) {
	defer guard(&err)
	a, err := r.r.CreateChildStory(object, property)
	return wrap(semnet.Remark{Aggregate: a}, err)
}
