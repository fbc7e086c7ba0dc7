package main

import (
	"fmt"
	"hash/fnv"

	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/md"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C28

// Modes of cases of C28. The first client is the last operation of Ops, or
// (N & queriesFirst) the queries; the second one is an activity (M).
const (
	onTwoStores = iota
	onOneStore  // the second client only reads
)

const (
	queriesFirst = 1 << iota
	twoSwitches
	part // for twoSwitches: N / part is which of the parts, for the sake of balance
)

const parts = 16

// actor is a client: a store, a graph opened on it, and what it does.
type actor struct {
	e    *Env
	gate *st.Gate
	name string
	run  func() string
	said string
}

func (e *Env) perform1(op fw.Op) string {
	h, err := e.do(op)
	if err != nil {
		return describe(err)
	}
	e.add(op, h)
	return fmt.Sprint(h.ID())
}

const (
	known = 4 + iota
	allQueries
	someQueries
	twoQueries
)

// everything is what all queries say about the first remarks.
func (e *Env) everything(first int) []string {
	x := &during{e: e}
	var s []string
	for i, h := range e.H[:first] {
		for _, p := range singles {
			s = append(s, fmt.Sprintf("%s of r%d: %s", p.name, i, p.run(x, e.G[0], h, e.IDs[i])))
			e.R.Queries++
		}
	}
	return s
}

func join(list []string) string {
	s := ""
	for _, x := range list {
		s += x + "\n"
	}
	return s
}

// neighbour is the store of the second client.
var neighbour = []fw.Op{{K: "S", O: "b a", P: "o"}, {K: "F", T: 0, O: "ob a", P: "oa"}, {K: "C", T: 0, O: "a", P: "b a"}, {K: "R", T: 1, P: "b"}}

// activities of the second client: operations with new texts, one with
// known texts, all queries, those about one remark, and two of them.
var activities = []fw.Op{
	{K: "S", O: "c a", P: "a c"}, {K: "F", T: 0, O: "oc p", P: "ob"}, {K: "C", T: 0, O: "ob p", P: "c"}, {K: "R", T: 2, P: "oc ob"},
	{K: "F", T: 1, O: "a", P: "b a"}, {K: "?"}, {K: "?", T: 1}, {K: "?", T: 2},
}

func (e *Env) actor(op fw.Op) *actor {
	x := &actor{e: e, gate: &st.Gate{Inner: e.Mem, Before: func() {}}}
	e.Probe.Inner = x.gate
	if op.K == "?" {
		n := len(e.H)
		x.name = "asking everything"
		if op.T == 1 {
			n, x.name = 1, "asking everything about r0"
		}
		if op.T == 2 {
			x.name = "asking r0 for its text and its next fact"
			x.run = func() string {
				h := e.H[0]
				return texts(h) + told(h.HasNextFact())
			}
			return x
		}
		x.run = func() string { return join(e.everything(n)) }
	} else {
		x.name, x.run = op.String(), func() string { return e.perform1(op) }
	}
	return x
}

// stage is what the clients start from.
type stage struct {
	c    *fw.Case
	r    *fw.Rec
	op   fw.Op // what the first client does
	mem  *st.Mem
	ids  []uint
	w    md.World
	mem1 *st.Mem
	ids1 []uint
	w1   md.World
}

func newStage(c *fw.Case, r *fw.Rec) *stage {
	s := &stage{c: c, r: r, op: fw.Op{K: "?"}}
	n := len(c.Ops)
	if c.N&queriesFirst == 0 {
		n--
		s.op = c.Ops[n]
	}
	e := newEnv(c, r)
	e.mustAll(c.Ops[:n])
	s.mem, s.ids, s.w = e.Mem, e.IDs, e.W
	f := newEnv(c, r)
	f.mustAll(neighbour)
	s.mem1, s.ids1, s.w1 = f.Mem, f.IDs, f.W
	return s
}

func (s *stage) adopt(mem *st.Mem, ids []uint, w md.World) *Env {
	e := adopt(mem.Clone(), ids, s.r, "")
	e.W, e.NoModel = w.Clone(), false
	return e
}

// actors sets up both clients: in short histories the first one goes on with
// the graph and the handles it has had.
func (s *stage) actors() [2]*actor {
	var e *Env
	if len(s.c.Ops) <= 2 {
		e = newEnv(s.c, s.r)
		e.mustAll(s.c.Ops[:len(s.ids)])
	} else {
		e = s.adopt(s.mem, s.ids, s.w)
	}
	var x [2]*actor
	if s.c.Mode == onOneStore {
		f := adopt(e.Mem, s.ids, s.r, "")
		return [2]*actor{e.actor(s.op), f.actor(fw.Op{K: "?"})}
	}
	x[0] = e.actor(s.op)
	x[1] = s.adopt(s.mem1, s.ids1, s.w1).actor(activities[s.c.M])
	return x
}

// outcome is what a client has got, and what its store is like.
func (x *actor) outcome() string {
	return fmt.Sprintf("%s; its store: fingerprint %x", x.said, x.e.Mem.Fingerprint())
}

func execOverlap(c *fw.Case, r *fw.Rec) {
	// each alone
	stage := newStage(c, r)
	x := stage.actors()
	var want [2]string
	var lines [2][]string // answers of a reader of the same store before and after
	if c.Mode == onOneStore {
		lines[0] = x[1].e.everything(len(x[1].e.H))
	}
	var total [2]int
	for i := range x {
		x[i].gate.Before = func() { total[i]++ }
		x[i].said = x[i].run()
		x[i].gate.Before = func() {}
	}
	var all [2]string
	judge := func(x [2]*actor) { // against the model
		for i := range x {
			if !x[i].e.NoModel {
				x[i].e.judgeAll(qText|qNextFact|qFirstFact|qNextStory, 0)
			}
		}
	}
	judge(x)
	for i := range x {
		want[i] = x[i].outcome()
		all[i] = join(x[i].e.everything(len(x[i].e.H)))
	}
	if c.Mode == onOneStore {
		lines[1] = x[1].e.everything(len(x[1].e.H))
	}
	where := "on another store"
	if c.Mode == onOneStore {
		where = "on the same store"
	}
	last := x
	try := func(turns []int) {
		x := stage.actors()
		last = x
		st.Overlap([2]*st.Gate{x[0].gate, x[1].gate}, [2]func(){func() { x[0].said = x[0].run() }, func() { x[1].said = x[1].run() }}, turns)
		r.Traces++
		r.Nontrivial++
		told := func(i int) string {
			return fmt.Sprintf("%s overlaps with %s %s (turns of %v accesses)", x[i].name, x[1-i].name, where, turns)
		}
		for i := range x {
			r.Evaluations++
			if c.Mode == onOneStore && i == 1 {
				continue
			}
			if got := x[i].outcome(); got != want[i] {
				r.Fail("%s: %s\nalone: %s", told(i), got, want[i])
			}
		}
		if c.Mode == onOneStore {
			at := 0
			for n := range lines[0] {
				a, b := lines[0][n]+"\n", lines[1][n]+"\n"
				rest := x[1].said[at:]
				switch {
				case len(rest) >= len(a) && rest[:len(a)] == a:
					at += len(a)
				case len(rest) >= len(b) && rest[:len(b)] == b:
					at += len(b)
				default:
					r.Fail("%s: %s\nbefore: %s\nafterwards: %s", told(1), rest, a, b)
				}
			}
			if got, all := join(x[1].e.everything(len(x[1].e.H))), join(lines[1]); got != all {
				r.Fail("%s: the reader then finds %s\ninstead of %s", told(1), got, all)
			}
		}
		h := fnv.New64a()
		fmt.Fprint(h, x[0].said, x[1].said)
		r.Outcome(h.Sum64())
	}
	for k := 0; k < total[0]; k++ {
		if c.N&twoSwitches == 0 {
			try([]int{k})
			continue
		}
		for l := 1; l < total[1] && k%parts == c.N/part; l++ {
			try([]int{k, l})
		}
	}
	if c.Mode == onTwoStores && c.N&twoSwitches == 0 {
		for k := 1; k < total[1]; k++ {
			try([]int{0, k})
		}
	}
	judge(last)
	if c.Mode == onTwoStores { // the stores of the last schedule
		for i := range last {
			if got := join(last[i].e.everything(len(last[i].e.H))); got != all[i] {
				r.Fail("%s, after overlapping with %s: %s\nalone: %s", x[i].name, x[1-i].name, got, all[i])
			}
		}
	}
	x[0].e.state()
	x[1].e.state()
	if r.Sampling() {
		r.Sample("%s; %s (%d accesses) and %s %s (%d accesses): overlapping in every way makes no difference", fw.Show(c.Ops), x[0].name, total[0], x[1].name, where, total[1])
	}
}

func overlapChecks() []*fw.Check {
	return []*fw.Check{{ID: "C28", Level: "model_checking", Assumptions: []string{assumeMem, "each storage access is atomic; clients switch only at storage accesses"},
		Rule: "every operation after every history, and all queries, overlap with every kind of operation and all queries of another client, which uses a store of its own, or reads the same store through a graph of its own: in every schedule in which one is suspended at one of its storage accesses until the other is done, and, for some, in every one in which the other is suspended in turn. Each must have what it has alone, and leave its store as it would alone (a reader of the same store: answers as before or as after). traces: schedules",
		Gen:  genOverlap, Exec: execOverlap}}
}

func genOverlap(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	ok := true
	each := func(fam string, ops []fw.Op, n, mode int, cfg fw.Case, activities ...int) bool {
		cfg.Fam, cfg.Ops, cfg.Mode = fam, ops, mode
		for _, cfg.M = range activities {
			for cfg.N = n; cfg.N < parts*part; cfg.N += part {
				if !emit(cfg) {
					return false
				}
				if n&twoSwitches == 0 {
					break
				}
			}
		}
		return true
	}
	hist := func(fam string, d int, texts func(int) []Pair, n, mode int, cfg fw.Case, activities ...int) {
		ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool { return each(fam, ops, n, mode, cfg, activities...) })
	}
	d := 3
	if thorough {
		d = 4
	}
	one, two := "one suspended until the other is done", "both suspended in turn"
	for k := 1; k <= d; k++ {
		for _, texts := range []func(int) []Pair{same, distinct, collide} {
			if k == d {
				texts = distinct
			}
			hist(one, k, texts, 0, onTwoStores, fw.Case{}, 0, 1, 2, 3, known, someQueries)
			hist(one, k, texts, 0, onOneStore, fw.Case{}, allQueries)
			if k < d {
				hist(one, k, texts, queriesFirst, onTwoStores, fw.Case{}, 0, 1, 2, 3, known, twoQueries)
				hist(one, k, texts, queriesFirst, onOneStore, fw.Case{}, allQueries)
			}
			if k == d {
				break
			}
		}
	}
	hist(two, 2, same, twoSwitches, onTwoStores, fw.Case{}, known, twoQueries)
	hist(two, 1, same, twoSwitches|queriesFirst, onTwoStores, fw.Case{}, twoQueries)
	for i, cfg := range configs {
		if !cfg.Clew && (thorough || i%6 == 0) {
			hist(one+", other storages", 2, distinct, 0, onTwoStores, cfg, 1, someQueries)
		}
	}
	ok = ok && histories(1, "S", fixed(append(append([]Pair{}, textPairs...), Pair{"abcdefg hij", "a b c d e f g"})...), func(ops []fw.Op) bool {
		return each("texts sharing parts", ops, 0, onTwoStores, fw.Case{}, 0, 1, someQueries) &&
			each("texts sharing parts", ops, queriesFirst, onTwoStores, fw.Case{}, 0, 1, someQueries)
	})
	for i, a := range oddTexts {
		if b := oddTexts[(i+1)%len(oddTexts)]; ok && len(a)+len(b) < 60 && (thorough || i%4 == 0) {
			ops := []fw.Op{{K: "S", O: a, P: b}, {K: "F", T: 0, O: b + " " + a, P: a + b}}
			ok = each("odd texts", ops, 0, onTwoStores, fw.Case{}, 1) && each("odd texts", ops, queriesFirst, onTwoStores, fw.Case{}, 1)
		}
	}
	if thorough {
		for k := 1; k <= 2; k++ {
			hist(two, k, same, twoSwitches, onTwoStores, fw.Case{}, 0, 1, 2, 3)
			hist(two, k, same, twoSwitches|queriesFirst, onTwoStores, fw.Case{}, 1, known)
		}
	}
}
