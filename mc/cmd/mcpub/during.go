package main

import (
	"fmt"
	"hash/fnv"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C27

// program is what a reader does while the writer is at work.
type program struct {
	name string
	run  func(x *during, g api.Graph, h api.Remark, id uint) string
}

// during is an execution: operations whose versions have been recorded.
type during struct {
	e      *Env
	r      *fw.Rec
	t      *st.Timeline
	bounds []int // versions before the first and after each of the operations
	told   string
}

func (x *during) named(h api.Remark, err error) string {
	if err != nil {
		return errText(err)
	}
	if i, ok := x.e.ByID[h.ID()]; ok {
		return fmt.Sprintf("r%d", i)
	}
	return fmt.Sprintf("an unfinished remark %d", h.ID())
}

func told(b bool, err error) string {
	if err != nil {
		return errText(err)
	}
	return fmt.Sprint(b)
}

func texts(h api.Remark) string {
	o, p, err := h.Text()
	if err != nil {
		return errText(err)
	}
	return fmt.Sprintf("(%q, %q)", o, p)
}

// queries are the single queries.
var singles = []program{
	{"GetObjectAndProperty", func(x *during, g api.Graph, h api.Remark, id uint) string { return texts(h) }},
	{"HasNextRemark", func(x *during, g api.Graph, h api.Remark, id uint) string { return told(h.HasNextRemark()) }},
	{"GetNextRemark", func(x *during, g api.Graph, h api.Remark, id uint) string { return x.named(h.NextRemark()) }},
	{"HasNextFact", func(x *during, g api.Graph, h api.Remark, id uint) string { return told(h.HasNextFact()) }},
	{"GetNextFact", func(x *during, g api.Graph, h api.Remark, id uint) string { return x.named(h.NextFact()) }},
	{"GetFirstFact", func(x *during, g api.Graph, h api.Remark, id uint) string { return x.named(h.FirstFact()) }},
	{"HasNextStory", func(x *during, g api.Graph, h api.Remark, id uint) string { return told(h.HasNextStory()) }},
	{"GetNextStory", func(x *during, g api.Graph, h api.Remark, id uint) string { return x.named(h.NextStory()) }},
	{"GetRemark", func(x *during, g api.Graph, h api.Remark, id uint) string { return x.named(g.GetRemark(id)) }},
	{"GetStory (rendering)", func(x *during, g api.Graph, h api.Remark, id uint) string {
		s, err := g.Render(h)
		if err != nil {
			return errText(err)
		}
		return s
	}},
}

// follow asks whether there is a next one, goes there and looks around.
func follow(has func(api.Remark) (bool, error), get func(api.Remark) (api.Remark, error)) func(x *during, g api.Graph, h api.Remark, id uint) string {
	return func(x *during, g api.Graph, h api.Remark, id uint) string {
		yes, err := has(h)
		if err != nil || !yes {
			return told(yes, err)
		}
		n, err := get(h)
		if err != nil {
			return "there is one, but going there: " + errText(err)
		}
		s := x.named(n, nil) + " " + texts(n)
		for _, f := range []func() (api.Remark, error){n.FirstFact, func() (api.Remark, error) { return g.GetRemark(n.ID()) }} {
			s += " " + x.named(f())
		}
		text, err := g.Render(n)
		return s + " " + text + errText(err)
	}
}

// walk follows a chain to its end.
func walk(has func(api.Remark) (bool, error), get func(api.Remark) (api.Remark, error)) func(x *during, g api.Graph, h api.Remark, id uint) string {
	return func(x *during, g api.Graph, h api.Remark, id uint) string {
		s := ""
		for i := 0; i < 5000; i++ {
			yes, err := has(h)
			if err != nil || !yes {
				return s + " " + told(yes, err)
			}
			if h, err = get(h); err != nil {
				return s + " there is one, but going there: " + errText(err)
			}
			s += " " + x.named(h, nil) + " " + texts(h)
		}
		return s + " no end"
	}
}

var compounds = []program{
	{"HasNextFact, GetNextFact, then asking the fact reached", follow(api.Remark.HasNextFact, api.Remark.NextFact)},
	{"HasNextStory, GetNextStory, then asking the story reached", follow(api.Remark.HasNextStory, api.Remark.NextStory)},
	{"going through the facts to the last one", walk(api.Remark.HasNextFact, api.Remark.NextFact)},
	{"going through the stories to the last one", walk(api.Remark.HasNextStory, api.Remark.NextStory)},
	{"GetRemark, then reading the text", func(x *during, g api.Graph, h api.Remark, id uint) string {
		n, err := g.GetRemark(id)
		if err != nil {
			return errText(err)
		}
		return x.named(n, nil) + " " + texts(n)
	}},
	{"GetFirstFact, then going through the facts", func(x *during, g api.Graph, h api.Remark, id uint) string {
		n, err := h.FirstFact()
		if err != nil {
			return errText(err)
		}
		return x.named(n, nil) + " " + walk(api.Remark.HasNextFact, api.Remark.NextFact)(x, g, n, id)
	}},
}

// Kinds of readers.
const (
	rNew  = iota // has opened the graph and looked up the remark before
	rWarm        // has also asked everything before
	readers
)

// reader sets up a reader of a remark at version 0.
func (x *during) reader(kind int, remark int, choices []int) (*st.Reading, api.Graph, api.Remark) {
	rd := x.t.Read(0, true, choices)
	g := api.Open(st.NewProbe(rd))
	id := x.e.IDs[remark]
	h, err := g.GetRemark(id)
	if err != nil {
		x.r.Fail("%slooking up r%d fails: %s", x.told, remark, describe(err))
	}
	if kind == rWarm {
		for _, p := range singles {
			p.run(x, g, h, id)
		}
	}
	return rd, g, h
}

func (x *during) explore(p program, kind, remark int) {
	r := x.r
	id := x.e.IDs[remark]
	// the answers between the operations
	var allowed []string
	for _, b := range x.bounds {
		rd, g, h := x.reader(rNew, remark, nil)
		rd.At = b
		allowed = append(allowed, p.run(x, g, h, id))
	}
	after := allowed[len(allowed)-1]
	for choices := []int{}; choices != nil; {
		rd, g, h := x.reader(kind, remark, choices)
		rd.Frozen = false
		got := p.run(x, g, h, id)
		r.Queries++
		r.Traces++
		r.Evaluations++
		moves := rd.Moves
		if moves > 0 {
			r.Nontrivial++
		}
		choices = rd.Next()
		ok := false
		for _, a := range allowed {
			ok = ok || a == got
		}
		if !ok {
			r.Fail("%sa reader asks r%d meanwhile: %s gives %s; before it is %s, afterwards %s", x.told, remark, p.name, got, allowed[0], after)
		}
		rd.Frozen, rd.At = true, x.bounds[len(x.bounds)-1]
		if got = p.run(x, g, h, id); got != after {
			r.Fail("%sa reader has asked r%d meanwhile (%s) and asks again afterwards: %s instead of %s", x.told, remark, p.name, got, after)
		}
		if rd.Wrote {
			r.Fail("%sa reader asks r%d meanwhile: %s changes the storage", x.told, remark, p.name)
		}
		hash := fnv.New64a()
		fmt.Fprint(hash, p.name, got, moves)
		r.Outcome(hash.Sum64())
	}
}

// strangers looks up identifiers that are not those of remarks yet.
func (x *during) strangers(ids []uint) {
	r := x.r
	for _, id := range ids {
		i, remark := x.e.ByID[id]
		for choices := []int{}; choices != nil; {
			rd := x.t.Read(0, false, choices)
			g := api.Open(st.NewProbe(rd))
			h, err := g.GetRemark(id)
			r.Queries++
			r.Traces++
			r.Evaluations++
			choices = rd.Next()
			if isUnexpected(err) {
				r.Fail("%sa reader looks up %d meanwhile: %s", x.told, id, describe(err))
			}
			if err == nil && (!remark || h.ID() != id) {
				r.Fail("%sa reader looks up %d meanwhile and gets remark %d, but no remark will have this identifier", x.told, id, h.ID())
			}
			if rd.Wrote {
				r.Fail("%sa reader looks up %d meanwhile, which changes the storage", x.told, id)
			}
			if remark {
				if at := x.bounds[len(x.bounds)-1]; err != nil {
					rd.Frozen, rd.At = true, at
					if h, err := g.GetRemark(id); err != nil || h.ID() != id {
						r.Fail("%sa reader has looked up %d meanwhile, in vain; afterwards, too, although it is r%d", x.told, id, i)
					}
				}
			}
		}
	}
}

// execDuring: the last N operations are at work; Mode 1: the last is refused.
func execDuring(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	n := len(c.Ops) - c.N
	for _, op := range c.Ops[:n] {
		e.must(op)
	}
	first := len(e.H)
	x := &during{e: e, r: r, t: st.Record(e.Mem), bounds: []int{0}}
	e.Probe.Inner = x.t
	for i, op := range c.Ops[n:] {
		h, err := e.do(op)
		if c.Mode == 1 && i == c.N-1 {
			if err == nil {
				r.Skip()
			}
		} else {
			if err != nil {
				r.Fail("valid operation %s fails: %s", op, describe(err))
			}
			e.add(op, h)
		}
		x.bounds = append(x.bounds, x.t.Now())
		x.told += fmt.Sprintf("while %s is at work ", op)
	}
	e.Probe.Inner = e.Mem
	for i := 0; i < first; i++ {
		for kind := 0; kind < readers; kind++ {
			for _, p := range singles {
				x.explore(p, kind, i)
			}
			if c.N == 1 {
				for _, p := range compounds {
					x.explore(p, kind, i)
				}
			}
		}
	}
	if len(c.Ops) <= 3 {
		x.strangers(e.Mem.IDs())
	} else {
		x.strangers(e.IDs)
	}
	r.Extra["versions of a storage"] += int64(x.t.Now())
	e.state()
	if r.Sampling() {
		r.Sample("%s; %s: %d versions, every reader sees the store as before or as after", fw.Show(c.Ops[:n]), x.told, x.t.Now())
	}
}

func genDuring(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	ok := true
	hist := func(fam string, d, n int, texts func(int) []Pair, cfg fw.Case) {
		ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
			k := cfg
			k.Fam, k.Ops, k.N = fam, ops, n
			return emit(k)
		})
	}
	for _, p := range append(append([]Pair{}, textPairs...), Pair{"abcdefg", "a b c d e f g"}) {
		ok = ok && emit(fw.Case{Fam: "first operation on an empty store", Ops: []fw.Op{{K: "S", O: p.O, P: p.P}}, N: 1})
	}
	deep := 5
	if thorough {
		deep = 6
	}
	for d := 2; d <= deep; d++ {
		hist("one operation at work", d, 1, distinct, fw.Case{})
		hist("one operation at work", d, 1, same, fw.Case{})
	}
	for d := 2; d < deep; d++ {
		hist("one operation at work", d, 1, collide, fw.Case{})
	}
	for _, cfg := range configs {
		for d := 2; d <= 3 && !cfg.Clew; d++ {
			hist("one operation at work, other storages", d, 1, distinct, cfg)
		}
	}
	for n := 2; n <= 3; n++ {
		for d := n + 1; d <= 4; d++ {
			hist("several operations at work in turn", d, n, distinct, fw.Case{})
		}
	}
	for d := 2; d <= 3 && ok; d++ {
		ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			last := ops[d-1]
			for _, bad := range []Pair{{last.O, ""}, {last.O, last.P + " "}, {last.O, last.P + "  x"}, {"", last.P}, {last.O + " ", last.P}, {last.O, last.P + "\xff"}} {
				op := last
				op.O, op.P = bad.O, bad.P
				if op.K == "R" {
					op.O = ""
				}
				if op.O == last.O && op.P == last.P {
					continue
				}
				if !emit(fw.Case{Fam: "an operation that is refused at work", Ops: append(ops[:d-1:d-1], op), N: 1, Mode: 1}) {
					return false
				}
			}
			return true
		})
	}
	ok = ok && histories(2, "S", fixed(textPairs...), func(ops []fw.Op) bool {
		return emit(fw.Case{Fam: "texts sharing parts", Ops: ops, N: 1})
	})
	for i, a := range oddTexts {
		for j, b := range oddTexts {
			if i != j && ok && (thorough || (i+j)%4 == 0) {
				ok = emit(fw.Case{Fam: "odd texts", Ops: []fw.Op{{K: "S", O: a, P: b}, {K: "F", T: 0, O: b + " " + a, P: a + b}}, N: 1})
			}
		}
	}
	max, step := 24, 8
	if thorough {
		max, step = 60, 9
	}
	for size := 8; size <= max && ok; size += step {
		for _, p := range patterns {
			ops := p.make(size)
			for _, kind := range "SFRC" {
				for _, t := range []int{0, size / 2, size - 1} {
					op := fw.Op{K: string(kind), T: t, O: "oa u", P: "s oa"}
					if kind == 'S' && t > 0 {
						continue
					}
					ok = ok && emit(fw.Case{Fam: "long histories", Ops: append(ops[:size:size], op), N: 1})
				}
			}
			ok = ok && emit(fw.Case{Fam: "long histories, several operations at work in turn", Ops: ops, N: size / 2})
		}
	}
	if thorough {
		for n := 2; n <= 4; n++ {
			hist("several operations at work in turn", 5, n, distinct, fw.Case{})
		}
	}
}

func duringChecks() []*fw.Check {
	return []*fw.Check{{ID: "C27", Level: "model_checking", Assumptions: []string{assumeSequential, assumeMem, "one client changes the store at a time; each has a graph of its own; each storage access is atomic"},
		Rule: "every operation after every history is performed by a writer while a reader with a graph of its own (opened before, also with everything asked before) puts each query, or a short sequence of queries, to each remark: in every interleaving of the storage accesses of both, of which those that differ only in the order of accesses that do not affect each other are explored once. The answer has to be that before or that after the operation, the reader must not change anything, and must answer correctly afterwards. traces: interleavings; distinct_nontrivial: those in which the operation's progress shows in what is read",
		Gen:  genDuring, Exec: execDuring}}
}
