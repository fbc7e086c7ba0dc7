package main

import (
	"fmt"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
)

var assumeSequential = "one goroutine uses a store at a time (the library has no locks and claims no concurrency)"
var assumeMem = "the explorer's in-memory storage honours the storage interface as clew does (C15 runs the same histories on clew itself)"

// modelCheck makes a check that compares some answers with the model.
func modelCheck(id, rule string, mask int, gen func(tier string, emit func(fw.Case) bool)) *fw.Check {
	return &fw.Check{
		ID: id, Level: "model_checking", Rule: rule,
		Assumptions: []string{assumeSequential, assumeMem},
		Gen:         gen,
		Exec: func(c *fw.Case, r *fw.Rec) {
			e := newEnv(c, r)
			for _, op := range c.Ops {
				e.must(op)
				if c.Mode == 1 {
					e.judgeAll(mask, 0)
				}
			}
			if c.Mode != 1 {
				e.settle()
				e.judgeAll(mask, 0)
			}
			e.follow(mask)
			r.Outcome(hashAnswers(e.askAll(mask)))
			e.finish(c.Ops)
		},
	}
}

// follow follows the links of each kind to their end, each step taken from the
// handle the step before has given, and judges every handle on the way.
func (e *Env) follow(mask int) {
	kinds := []struct {
		mask int
		next func(int) int
		get  func(api.Remark) (api.Remark, error)
	}{
		{qNextFact, e.W.NextFact, api.Remark.NextFact},
		{qNextStory, e.W.NextStory, api.Remark.NextStory},
		{qFirstFact, e.W.FirstFact, api.Remark.FirstFact},
	}
	for _, k := range kinds {
		if mask&k.mask == 0 {
			continue
		}
		led := make([]bool, len(e.H))
		for r := range e.H {
			if n := k.next(r); n >= 0 && n != r {
				led[n] = true
			}
		}
		for r, h := range e.H {
			if led[r] {
				continue
			}
			via := fmt.Sprintf(" (reached from r%d)", r)
			for at, steps := r, 0; ; steps++ {
				n := k.next(at)
				if n < 0 || n == at && steps > 2 {
					break
				}
				to, err := k.get(h)
				if err != nil {
					e.R.Fail("step %d along the links from r%d, to r%d: %s", steps+1, r, n, describe(err))
				}
				if to.ID() != e.IDs[n] {
					e.R.Fail("step %d along the links from r%d leads to %d, not to r%d (%d)", steps+1, r, to.ID(), n, e.IDs[n])
				}
				at, h = n, to
				e.judge(at, via, e.ask(e.G[0], h, mask), mask)
			}
		}
	}
}

// watched emits histories whose answers are judged after every step.
func watched(fam string, depth int, kinds string, texts func(int) []Pair, emit func(fw.Case) bool) bool {
	return histories(depth, kinds, texts, func(ops []fw.Op) bool {
		return emit(fw.Case{Fam: fam, Ops: ops, Mode: 1})
	})
}

func focussed(fam string, depth int, kinds string, texts func(int) []Pair, emit func(fw.Case) bool) bool {
	for n := 1; n <= depth; n++ {
		if !histories(n, kinds, texts, func(ops []fw.Op) bool { return emit(fw.Case{Fam: fam, Ops: ops}) }) {
			return false
		}
	}
	return true
}

const navRule = "every history of the stated kinds and depth is executed on the real code and every remark's answers are compared with the reference model, through the handle returned at creation and through a looked-up handle; families: equal texts, distinct texts, operations through looked-up handles, two colliding texts per step, judged after every step, long histories"

func navGen(kinds string, deep string, deepQ, deepT int) func(string, func(fw.Case) bool) {
	return func(tier string, emit func(fw.Case) bool) {
		d := depths{collide: 5, same: 5, distinct: 5, lookup: 4}
		each, max, step, deepest := 4, 36, 7, deepQ
		if tier == "thorough" {
			d = depths{collide: 6, same: 6, distinct: 6, lookup: 5}
			each, max, step, deepest = 5, 130, 5, deepT
		}
		ok := focussed("short histories", 3, kinds, distinct, emit) &&
			scale(max, step, emit) &&
			watched("judged after every step", each, kinds, collide, emit) &&
			focussed("fewer kinds, equal texts ("+deep+")", deepest, deep, same, emit) &&
			focussed("fewer kinds, distinct texts ("+deep+")", deepest, deep, distinct, emit) &&
			varied(tier, kinds, emit) &&
			structural(kinds, d, emit)
		if ok && tier == "thorough" {
			ok = focussed("depth 7, distinct texts", 7, kinds, distinct, emit) &&
				focussed("fewer kinds, two colliding texts ("+deep+")", deepest-1, deep, collide, emit)
		}
	}
}

func navChecks() []*fw.Check {
	return []*fw.Check{
		modelCheck("C05", navRule, qNextFact, navGen("SFRC", "SF", 8, 9)),
		modelCheck("C06", navRule, qFirstFact, navGen("SFRC", "SFC", 6, 7)),
		modelCheck("C07", navRule, qNextStory, navGen("SCFR", "SC", 8, 9)),
		modelCheck("C20", navRule, qNextRemark, navGen("SRFC", "SR", 8, 9)),
	}
}
