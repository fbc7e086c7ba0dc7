package main

import (
	"fmt"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
)

// C24

// cost is the number of storage accesses, and the number of neighbours read.
type cost struct{ calls, volume int }

func (c cost) String() string {
	return fmt.Sprintf("%d storage accesses, %d neighbours read", c.calls, c.volume)
}

// within allows for what a graph may do once, or remember, but not for
// anything that grows with the store.
func (c cost) within(b cost) bool { return c.calls <= 2*b.calls+16 && c.volume <= 2*b.volume+16 }

func (c cost) max(b cost) cost {
	if b.calls > c.calls {
		c.calls = b.calls
	}
	if b.volume > c.volume {
		c.volume = b.volume
	}
	return c
}

// step is a query whose cost is bounded by a constant.
type step struct {
	name string
	ask  func(g api.Graph, h api.Remark, id uint) error
}

var steps = func() []step {
	var list []step
	for _, q := range questions {
		if q.name != "GetObjectAndProperty" && q.name != "GetStory (rendering)" {
			list = append(list, step{q.name, q.ask})
		}
	}
	return list
}()

// bounds are the highest costs in stores of up to three remarks, by query and
// by the way the handle was made.
var bounds map[string]cost

func (e *Env) cost(f func()) cost {
	e.Probe.Reset()
	f()
	e.R.Queries++
	c := cost{e.Probe.Calls, e.Probe.Volume}
	e.Probe.Reset()
	return c
}

// eachStep measures every bounded query of every remark.
func (e *Env) eachStep(note func(key string, remark int, c cost)) {
	g := e.open()
	for i, h := range e.H {
		for _, s := range steps {
			note(s.name+" through the original handle", i, e.cost(func() { s.ask(e.G[0], h, e.IDs[i]) }))
			fresh := e.lookup(g, i)
			note(s.name+" through a looked-up handle", i, e.cost(func() { s.ask(e.G[g], fresh, e.IDs[i]) }))
		}
		k := e.open()
		note("GetRemark through a newly opened graph", i, e.cost(func() { e.G[k].GetRemark(e.IDs[i]) }))
		e.G = e.G[:k]
	}
	e.G = e.G[:1]
}

func findBounds(r *fw.Rec) {
	if bounds != nil {
		return
	}
	bounds = map[string]cost{}
	for d := 1; d <= 3; d++ {
		histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			e := newEnv(&fw.Case{}, r)
			e.mustAll(ops)
			e.eachStep(func(key string, remark int, c cost) { bounds[key] = bounds[key].max(c) })
			return true
		})
	}
}

var textCosts = map[string][2]cost{}

// textCost is what reading and rendering a text costs in a store of its own.
func textCost(r *fw.Rec, o, p string) [2]cost {
	key := o + "\x00" + p
	if o == "" {
		r.Skip()
	}
	c, ok := textCosts[key]
	if !ok {
		e := newEnv(&fw.Case{}, r)
		e.must(fw.Op{K: "S", O: o, P: p})
		g := e.open()
		h := e.lookup(g, 0)
		c[0] = e.cost(func() { h.Text() })
		h = e.lookup(g, 0)
		c[1] = e.cost(func() { e.G[g].Render(h) })
		if len(textCosts) < 200000 {
			textCosts[key] = c
		}
	}
	return c
}

// execCost: no query costs more than in the smallest stores.
func execCost(c *fw.Case, r *fw.Rec) {
	if c.Mode == 1 {
		execCostOfOthers(c, r)
		return
	}
	findBounds(r)
	e := newEnv(c, r)
	e.mustAll(c.Ops)
	e.settle()
	e.eachStep(func(key string, remark int, got cost) {
		r.Evaluations++
		if !got.within(bounds[key]) {
			r.Fail("%s of r%d: %s; in a store of at most three remarks it is at most %s", key, remark, got, bounds[key])
		}
	})
	g := e.open()
	for i, h := range e.H {
		want := textCost(r, e.W.Remarks[i].Obj, e.W.Remarks[i].Prop)[0]
		fresh := e.lookup(g, i)
		for k, x := range []api.Remark{h, fresh} {
			got := e.cost(func() { x.Text() })
			r.Evaluations++
			if !got.within(want) {
				r.Fail("reading the text of r%d through %s: %s; in a store of its own %s", i, []string{"the original handle", "a looked-up handle"}[k], got, want)
			}
			r.Outcome(uint64(got.calls)<<20 + uint64(got.volume))
		}
	}
	e.finish(c.Ops)
}

// execCostOfOthers: N further stories, made of the same texts, change neither
// the cost of rendering nor that of storing known texts.
func execCostOfOthers(c *fw.Case, r *fw.Rec) {
	measure := func(n int) (renders []cost, ops map[string]cost) {
		e := newEnv(c, r)
		e.mustAll(c.Ops)
		count := len(e.H)
		texts := []Pair{}
		for i := 0; i < count; i++ {
			texts = append(texts, Pair{e.W.Remarks[i].Obj, e.W.Remarks[i].Prop})
		}
		for k := 0; k < n; k++ {
			t := texts[k%len(texts)]
			e.must(fw.Op{K: "S", O: t.O, P: t.P})
			switch k % 4 {
			case 1:
				e.must(fw.Op{K: "F", T: len(e.H) - 1, O: t.O, P: t.P})
			case 2:
				e.must(fw.Op{K: "C", T: len(e.H) - 1, O: t.O, P: t.P})
			case 3:
				e.must(fw.Op{K: "R", T: len(e.H) - 1, P: t.P})
			}
		}
		g := e.open()
		for i := 0; i < count; i++ {
			h := e.lookup(g, i)
			renders = append(renders, e.cost(func() { e.G[g].Render(h) }))
		}
		// every operation with known texts on a story of one remark
		ops = map[string]cost{}
		for i, t := range texts {
			g := e.open()
			var s api.Remark
			note := func(kind string, f func() (api.Remark, error)) api.Remark {
				var h api.Remark
				var err error
				x := e.cost(func() { h, err = f() })
				if err != nil {
					r.Fail("%s of known texts fails: %s", kind, describe(err))
				}
				ops[fmt.Sprintf("%s with the texts of r%d", kind, i)] = x
				r.Transitions++
				return h
			}
			s = note("CreateStory", func() (api.Remark, error) { return e.G[g].CreateStory(t.O, t.P) })
			note("AddRemarkToFact", func() (api.Remark, error) { return s.AddRemark(t.P) })
			note("CreateChildStory", func() (api.Remark, error) { return s.CreateChild(t.O, t.P) })
			note("AddFactToStory", func() (api.Remark, error) { return s.AddFact(t.O, t.P) })
		}
		e.state()
		return renders, ops
	}
	// once before, so that every text is known and used in each of the ways
	n0 := 4 * len(c.Ops)
	renders0, ops0 := measure(n0)
	renders, ops := measure(n0 + c.N)
	for i := range renders0 {
		r.Evaluations++
		if !renders[i].within(renders0[i]) {
			r.Fail("rendering r%d: %s; with %d other stories less, %s", i, renders[i], c.N, renders0[i])
		}
	}
	for i := range c.Ops {
		for _, kind := range []string{"CreateStory", "AddRemarkToFact", "CreateChildStory", "AddFactToStory"} {
			key := fmt.Sprintf("%s with the texts of r%d", kind, i)
			r.Evaluations++
			if !ops[key].within(ops0[key]) {
				r.Fail("%s: %s; with %d other stories less, made of the same texts, %s", key, ops[key], c.N, ops0[key])
			}
			r.Outcome(uint64(ops[key].calls)<<20 + uint64(ops[key].volume))
		}
	}
	r.Nontrivial++
	r.Traces++
	if r.Sampling() {
		r.Sample("%s; %d or %d other stories of the same texts: rendering and storing known texts cost the same", fw.Show(c.Ops), n0, n0+c.N)
	}
}

func genCost(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	d := depths{collide: 4, same: 4, distinct: 5, lookup: 3}
	max, step, others := 36, 7, 3
	if thorough {
		d = depths{collide: 5, same: 6, distinct: 6, lookup: 4}
		max, step, others = 100, 9, 4
	}
	ok := focussed("short histories", 3, "SFRC", distinct, emit) && scale(max, step, emit)
	for n := 1; n <= others && ok; n++ {
		texts := collide
		if n == others {
			texts = distinct
		}
		ok = histories(n, "SFRC", texts, func(ops []fw.Op) bool {
			for _, k := range []int{1, 7, 40} {
				if !emit(fw.Case{Fam: "other stories of the same texts", Ops: ops, Mode: 1, N: k}) {
					return false
				}
			}
			return true
		})
	}
	for _, p := range patterns {
		for _, k := range []int{150, 1200} {
			ok = ok && emit(fw.Case{Fam: "other stories of the same texts, long histories", Ops: p.make(9), Mode: 1, N: k})
		}
	}
	for n := 1; n <= 2 && ok; n++ {
		ok = histories(n, "S", fixed(textPairs...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "texts sharing parts", Ops: ops}) &&
				emit(fw.Case{Fam: "other stories of the same texts, texts sharing parts", Ops: ops, Mode: 1, N: 9})
		})
	}
	if ok {
		ok = wideTexts(func(list []string) bool {
			ops := make([]fw.Op, len(list))
			for i, x := range list {
				ops[i] = fw.Op{K: "S", O: x, P: list[(i+1)%len(list)]}
			}
			return emit(fw.Case{Fam: "texts with wide branching", Ops: ops}) &&
				emit(fw.Case{Fam: "other stories of the same texts, wide branching", Ops: ops, Mode: 1, N: 200})
		})
	}
	if ok && varied(tier, "SFRC", emit) {
		structural("SFRC", d, emit)
	}
}

func costChecks() []*fw.Check {
	return []*fw.Check{{ID: "C24", Level: "model_checking", Assumptions: []string{assumeSequential, assumeMem},
		Rule: "in every store reached by a history: the number of storage accesses, and of neighbours read, by every look-up and every single navigation step, through every handle, is compared with the highest in all stores of up to three remarks; that of reading each text with reading it in a store of its own; that of rendering, and of every operation with known texts on a story of one remark, with the same after further stories of the same texts",
		Gen:  genCost, Exec: execCost}}
}
