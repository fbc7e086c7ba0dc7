//go:build internals

package main

import (
	"fmt"
	"runtime/debug"

	"github.com/mem-memov/semnet/internal/abstract/fact"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
	"github.com/mem-memov/semnet/internal/concrete/class"
	concreteFact "github.com/mem-memov/semnet/internal/concrete/fact"
	concreteRemark "github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C21: navigation at the level of facts, which the public interface does not
// offer, on the library's internal packages.

type tree struct {
	e       *Env
	facts   fact.Repository
	remarks abstractRemark.Storage
	first   map[uint]int // identifier of the first remark of each fact
}

func newTree(e *Env) *tree {
	classes := class.NewRepository(e.Probe)
	t := &tree{e: e, first: map[uint]int{}}
	t.facts = concreteFact.NewRepository(e.Probe, classes, story.NewRepository(e.Probe, classes))
	t.remarks = concreteRemark.NewStorage(e.Probe)
	for f, x := range e.W.Facts {
		t.first[e.IDs[x.Remarks[0]]] = f
	}
	return t
}

// safely turns a panic into a violation.
func (t *tree) safely(where string, what func()) {
	defer func() {
		if v := recover(); v != nil {
			switch v := v.(type) {
			case st.Runaway:
				t.e.R.Fail("%s does not end", where)
			case error, string:
				t.e.R.Fail("%s: panic: %v\n%s", where, v, cut(string(debug.Stack())))
			default:
				panic(v) // a violation
			}
		}
	}()
	t.e.Probe.Reset()
	what()
}

// at gives the fact a remark belongs to.
func (t *tree) at(r int) fact.Aggregate {
	remark, err := t.remarks.ReadEntityByClass(t.e.IDs[r])
	if err != nil {
		t.e.R.Fail("reading r%d: %v", r, err)
	}
	target, err := remark.GetTargetFact()
	if err != nil {
		t.e.R.Fail("fact of r%d: %v", r, err)
	}
	f, err := t.facts.FetchByRemark(target)
	if err != nil {
		t.e.R.Fail("fetching the fact of r%d: %v", r, err)
	}
	return f
}

// which tells which fact an aggregate is.
func (t *tree) which(where string, a fact.Aggregate) int {
	x, err := a.GetFirstRemark()
	if err != nil {
		t.e.R.Fail("%s: first remark: %v", where, err)
	}
	remark, err := t.remarks.ReadEntityByFact(x)
	if err != nil {
		t.e.R.Fail("%s: reading the first remark: %v", where, err)
	}
	f, ok := t.first[remark.GetClass()]
	if !ok {
		t.e.R.Fail("%s: the first remark has identifier %d, which is no first remark of a fact", where, remark.GetClass())
	}
	return f
}

func (t *tree) walk(where string, a fact.Aggregate, f int, steps int) {
	w, r := &t.e.W, t.e.R
	s := w.Facts[f].Story
	if got := t.which(where, a); got != f {
		r.Fail("%s: is fact %d, want fact %d", where, got, f)
	}
	if steps == 0 {
		return
	}
	firstOf := func(story int) int { return w.Stories[story].Facts[0] }
	parent, nextStory, nextFact := -1, -1, -1
	if p := w.Stories[s].Parent; p >= 0 {
		parent = firstOf(p)
	}
	if x := w.NextStory(w.Facts[f].Remarks[0]); x >= 0 {
		nextStory = w.Remarks[x].Fact
	}
	if x := w.NextFact(w.Facts[f].Remarks[0]); x >= 0 {
		nextFact = w.Remarks[x].Fact
	}
	for _, n := range []struct {
		name string
		has  func() (bool, error)
		to   func() (fact.Aggregate, error)
		want int
	}{
		{"parent story", a.HasParentStory, a.ToParentStory, parent},
		{"next story", a.HasNextStory, a.ToNextStory, nextStory},
		{"next fact", a.HasNextFact, a.ToNextFact, nextFact},
		{"first fact", nil, a.ToFirstFact, firstOf(s)},
	} {
		if n.has != nil {
			has, err := n.has()
			r.Queries++
			if err != nil {
				r.Fail("%s: asking for a %s: %v", where, n.name, err)
			}
			if has != (n.want >= 0) {
				r.Fail("%s: has %s: %v", where, n.name, has)
			}
		}
		b, err := n.to()
		r.Queries++
		r.Evaluations++
		if n.want < 0 {
			if err == nil {
				r.Fail("%s: there is no %s, but getting it succeeds", where, n.name)
			}
			continue
		}
		if err != nil {
			r.Fail("%s: %s: %v", where, n.name, err)
		}
		t.walk(where+", "+n.name, b, n.want, steps-1)
	}
}

func execTree(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	steps := c.N
	for i, op := range c.Ops {
		e.must(op)
		if i < len(c.Ops)-1 && c.Mode != 1 {
			continue
		}
		e.settle()
		t := newTree(e)
		for x := range e.H {
			where := fmt.Sprintf("fact of r%d", x)
			t.safely(where, func() { t.walk(where, t.at(x), e.W.Remarks[x].Fact, steps) })
		}
	}
	h := uint64(0)
	for _, s := range e.W.Stories {
		h = h*1000003 + uint64(s.Parent+2)*31 + uint64(len(s.Facts))
	}
	r.Outcome(h)
	e.finish(c.Ops)
}

func genTree(tier string, emit func(fw.Case) bool) {
	n, deep, max, step, walk := 5, 8, 36, 7, 4
	if tier == "thorough" {
		n, deep, max, step, walk = 6, 9, 100, 6, 6
	}
	with := func(steps int) func(fw.Case) bool {
		return func(c fw.Case) bool { c.N = steps; return emit(c) }
	}
	_ = focussed("short histories", 3, "SFRC", distinct, with(walk+2)) &&
		scale(max, step, with(3)) &&
		watched("judged after every step", n-1, "SFRC", distinct, with(walk)) &&
		varied(tier, "SFRC", with(walk)) &&
		focussed("fewer kinds, equal texts (SC)", deep, "SC", same, with(3)) &&
		structural("SCFR", depths{collide: n - 1, same: n, distinct: n, lookup: n - 1}, with(walk)) &&
		func() bool {
			for num := 0; num < st.Numberings; num++ {
				for _, ord := range []int{st.Reverse, st.Rotated, st.DescendingOrder} {
					for d := 1; d <= n-1; d++ {
						if !histories(d, "SCF", distinct, func(ops []fw.Op) bool {
							return emit(fw.Case{Fam: "other storages", Ops: ops, Num: num, Ord: ord, N: walk})
						}) {
							return false
						}
					}
				}
			}
			return true
		}()
}

func treeChecks() []*fw.Check {
	return []*fw.Check{{ID: "C21", Level: "model_checking",
		Rule:        "in every store reached by a history through the public interface, from the fact of every remark, every path of the steps parent story, next story, next fact, first fact up to a length: at each fact reached, asking and getting are compared with the model",
		Assumptions: []string{assumeSequential, assumeMem}, Gen: genTree, Exec: execTree}}
}
