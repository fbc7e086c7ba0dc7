package main

import (
	"fmt"
	"strings"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

func validText(s string) bool {
	for _, w := range strings.Split(s, " ") {
		if w == "" {
			return false
		}
	}
	return true
}

func validOp(op fw.Op) bool { return (op.K == "R" || validText(op.O)) && validText(op.P) }

// try performs an operation that may be malformed; a malformed one has no effect on the tables.
func (e *Env) try(op fw.Op) {
	if validOp(op) {
		e.must(op)
		return
	}
	if _, err := e.do(op); err == nil {
		e.R.Fail("%s with a malformed text succeeds", op)
	}
}

// C09

var navNames = []string{"next remark", "next fact", "first fact", "next story"}

func navigate(h api.Remark, kind int) (api.Remark, error) {
	switch kind {
	case 0:
		return h.NextRemark()
	case 1:
		return h.NextFact()
	case 2:
		return h.FirstFact()
	}
	return h.NextStory()
}

// way is a way of getting a handle.
type way struct {
	kind int // 0 original, 1 look-up, 2 look-up in a fresh graph, 3.. navigation from 0, 7.. navigation from 2
	from int // where navigation starts
}

func (w way) String() string {
	switch {
	case w.kind == 0:
		return "the original handle"
	case w.kind == 1:
		return "a looked-up handle"
	case w.kind == 2:
		return "a handle looked up in a newly opened graph"
	case w.kind < 7:
		return fmt.Sprintf("%s of r%d", navNames[w.kind-3], w.from)
	}
	return fmt.Sprintf("%s of r%d looked up in a newly opened graph", navNames[w.kind-7], w.from)
}

// take gets a handle of remark r.
func (e *Env) take(w way, r int) (h api.Remark, g int) {
	switch {
	case w.kind == 0:
		return e.H[r], 0
	case w.kind == 1:
		return e.lookup(0, r), 0
	case w.kind == 2:
		g = e.open()
		return e.lookup(g, r), g
	}
	start, k := e.H[w.from], w.kind-3
	if w.kind >= 7 {
		g = e.open()
		start, k = e.lookup(g, w.from), w.kind-7
	}
	e.Probe.Reset()
	h, err := navigate(start, k)
	if err != nil {
		e.R.Fail("%s of r%d led to r%d before and fails now: %s", navNames[k], w.from, r, describe(err))
	}
	return h, g
}

// disturb puts every query to every remark, and looks up identifiers that are
// assigned later, or never, through all graphs. Nothing of it may matter.
func (e *Env) disturb() {
	for g := range e.G {
		e.Probe.Reset()
		n := uint(10)
		if e.Mem != nil {
			n = uint(e.Mem.Len())
		}
		for id := uint(0); id < n+60; id++ {
			e.G[g].GetRemark(id)
		}
		for k := range e.H {
			e.ask(e.G[0], e.H[k], qAll)
			if h, err := e.G[g].GetRemark(e.IDs[k]); err == nil {
				e.ask(e.G[g], h, qAll)
			}
		}
	}
	e.Probe.Reset()
}

func execIdentity(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	for i, op := range c.Ops {
		if c.Mode == 2 {
			e.disturb()
		}
		e.must(op)
		for j := 0; j < i; j++ {
			if e.IDs[j] == e.IDs[i] {
				r.Fail("r%d and r%d have the same identifier %d", j, i, e.IDs[i])
			}
		}
	}
	e.settle()
	n := len(e.H)
	ways := make([][]way, n)
	for j := 0; j < n; j++ {
		ways[j] = []way{{0, 0}, {1, 0}, {2, 0}}
	}
	fresh := e.open()
	for kind := 0; kind < 4; kind++ {
		for base := 3; base <= 7; base += 4 {
			seen := map[int]int{}
			for i := 0; i < n; i++ {
				start := e.H[i]
				if base == 7 {
					start = e.lookup(fresh, i)
				}
				e.Probe.Reset()
				h, err := navigate(start, kind)
				if err != nil {
					if isUnexpected(err) {
						r.Fail("%s of r%d: %s", navNames[kind], i, describe(err))
					}
					continue
				}
				j, ok := e.ByID[h.ID()]
				if !ok {
					r.Fail("%s of r%d leads to a remark with identifier %d, which no operation returned", navNames[kind], i, h.ID())
				}
				if seen[j] < 2 { // two ways of each kind
					seen[j]++
					ways[j] = append(ways[j], way{base + kind, i})
				}
			}
		}
	}
	original := e.askAll(qAll)
	for j := 0; j < n; j++ {
		for _, w := range ways[j] {
			h, g := e.take(w, j)
			if h.ID() != e.IDs[j] {
				r.Fail("the identifier of r%d is %d, through %s it is %d", j, e.IDs[j], w, h.ID())
			}
			a := e.ask(e.G[g], h, qAll)
			r.Evaluations++
			if a != original[j] {
				r.Fail("through %s, r%d answers differently:\n  got  %s\n  want %s", w, j, a, original[j])
			}
			if h.ID() != e.IDs[j] {
				r.Fail("the identifier of r%d through %s changes after queries", j, w)
			}
		}
	}
	e.state()
	r.Outcome(hashAnswers(original))
	if c.Mode == 1 { // every operation through every handle
		for j := 0; j < n; j++ {
			for _, kind := range "FRC" {
				op := fw.Op{K: string(kind), T: j, O: "n m", P: "m"}
				if op.K == "R" {
					op.O = ""
				}
				var want []Answers
				for _, w := range ways[j] {
					e := newEnv(c, r)
					e.mustAll(c.Ops)
					h, g := e.take(w, j)
					for again := 0; again < 2; again++ {
						e.Probe.Reset()
						x, err := call(e.G[g], h, op)
						r.Transitions++
						if err != nil {
							r.Fail("%s through %s fails: %s", op, w, describe(err))
						}
						for k, id := range e.IDs {
							if id == x.ID() {
								r.Fail("%s through %s returns the identifier %d of r%d", op, w, id, k)
							}
						}
						e.add(op, x)
					}
					answers := e.askAll(qAll)
					for k, h := range e.H {
						if h.ID() != e.IDs[k] {
							r.Fail("the identifier of r%d changes from %d to %d", k, e.IDs[k], h.ID())
						}
					}
					r.Evaluations++
					if w.kind == 0 {
						want = answers
						continue
					}
					e.compare(fmt.Sprintf("after %s, twice, through %s, compared with the original handle", op, w), want, answers)
				}
			}
		}
	}
	e.finish(c.Ops)
}

func genIdentity(tier string, emit func(fw.Case) bool) {
	n, m, max, step := 4, 3, 36, 7
	if tier == "thorough" {
		n, m, max, step = 6, 5, 100, 9
	}
	ok := focussed("short histories", 3, "SFRC", distinct, emit) && scale(max, step, emit)
	for d := 1; d <= m && ok; d++ {
		for _, texts := range []func(int) []Pair{distinct, same} {
			ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "every operation through every handle", Ops: ops, Mode: 1})
			})
		}
	}
	for d := 1; d <= m && ok; d++ {
		for _, handle := range []int{hOriginal, hLookup} {
			ok = ok && histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "queries and look-ups of unassigned identifiers before every operation", Ops: via(handle, ops), Mode: 2})
			})
		}
	}
	for num := st.Gapped; num < st.Numberings; num++ {
		for d := 1; d <= 4 && ok; d++ {
			ok = histories(d, "SFRC", same, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "other numberings", Ops: ops, Num: num, Ord: st.Reverse})
			})
		}
	}
	if ok && varied(tier, "SFRC", emit) {
		structural("SFRC", depths{collide: n, same: n + 1, distinct: n + 1, lookup: n}, emit)
	}
}

// C10

func execLookups(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	check := func() {
		max := uint(0)
		for _, id := range e.IDs {
			if id > max {
				max = id
			}
		}
		var ids []uint
		limit := max + 60
		switch {
		case e.Mem == nil:
		case c.Num == st.Descending:
			limit = 40
			for i := uint(0); i < uint(e.Mem.Len())+20; i++ {
				ids = append(ids, 1<<40+3-i)
			}
		case c.Num == st.Spread || c.Num == st.Extreme:
			limit = 40
			for _, id := range e.Mem.IDs() {
				ids = append(ids, id, id+1, id-1, id%(1<<32), id/2)
			}
		case c.Num == st.Gapped:
			limit = uint(e.Mem.Len())*7 + 40
		default: // also twice as many, if the storage is shared
			limit = uint(e.Mem.Len())*2 + 20
		}
		for id := uint(0); id < limit; id++ {
			ids = append(ids, id)
		}
		for shift := uint(16); shift < 64; shift++ {
			ids = append(ids, 1<<shift, 1<<shift-1, 1<<shift+1)
		}
		for k := uint(0); k < 10; k++ {
			ids = append(ids, ^uint(0)-k)
		}
		for i, id := range e.IDs {
			if i < 6 {
				ids = append(ids, id+1<<32, id+1<<63, id+1<<16, -id)
			}
		}
		known := map[uint]bool{}
		for _, id := range e.IDs {
			known[id] = true
		}
		graphs := []int{0, e.open()}
		for _, g := range graphs {
			e.Probe.Reset()
			e.Probe.Budget = 200000000
			for _, id := range ids {
				h, err := e.G[g].GetRemark(id)
				r.Evaluations++
				if known[id] {
					if err != nil {
						r.Fail("looking up %d, the identifier of a remark, fails: %s", id, describe(err))
					}
					if h.ID() != id {
						r.Fail("looking up %d returns a remark with identifier %d", id, h.ID())
					}
					continue
				}
				r.Nontrivial++
				if err == nil {
					r.Fail("looking up %d, which is not the identifier of a remark, returns a remark with identifier %d", id, h.ID())
				}
				if isUnexpected(err) {
					r.Fail("looking up %d: %s", id, describe(err))
				}
			}
		}
		e.G = e.G[:1]
		e.Probe.Reset()
		if e.Mem != nil {
			e.Probe.Budget = 3000000
		}
	}
	if len(c.Ops) == 0 {
		check()
	}
	for i, op := range c.Ops {
		e.try(op)
		if i == len(c.Ops)-1 || c.Mode == 1 {
			e.settle()
			check()
		}
	}
	h := uint64(e.nodes())
	for _, id := range e.IDs {
		h = h*1000003 + uint64(id)
	}
	r.Outcome(h)
	e.state()
	r.Traces++
	if r.Sampling() {
		r.Sample("%s => %d nodes, remarks %v: every other identifier is refused", fw.Show(c.Ops), e.nodes(), e.IDs)
	}
}

func genLookups(tier string, emit func(fw.Case) bool) {
	n, m, max, step := 5, 4, 36, 7
	if tier == "thorough" {
		n, m, max, step = 6, 5, 100, 9
	}
	cfgs := []fw.Case{{}, {Num: st.Gapped}, {Num: st.Descending, Ord: st.Reverse}, {Num: st.Spread}, {Num: st.Extreme}, {Num: st.Shared}, {Clew: true}}
	ok := true
	for _, cfg := range cfgs {
		cfg.Fam = "empty store"
		ok = ok && emit(cfg)
	}
	if ok {
		ok = focussed("short histories", 3, "SFRC", distinct, emit) && scale(max, step, emit)
	}
	for _, cfg := range cfgs[1:] {
		for d := 1; d <= 3 && ok; d++ {
			ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				k := cfg
				k.Fam, k.Ops = "other storages", ops
				return emit(k)
			})
		}
	}
	// refused operations in between
	mixed := fixed(Pair{"a", "b a"}, Pair{"a ", "b"}, Pair{"c", ""}, Pair{"d  a", "a"})
	for d := 1; d <= m && ok; d++ {
		ok = mixedHistories(d, mixed, func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "with refused operations", Ops: ops})
		})
	}
	if ok {
		ok = watched("judged after every step", n, "SFRC", distinct, emit)
	}
	if ok && varied(tier, "SFRC", emit) {
		structural("SFRC", depths{collide: n, same: n, distinct: n, lookup: 2}, emit)
	}
}

// mixedHistories is histories with malformed texts, which create no remark.
func mixedHistories(depth int, texts func(int) []Pair, emit func([]fw.Op) bool) bool {
	var ops []fw.Op
	var rec func(remarks int) bool
	rec = func(remarks int) bool {
		if len(ops) == depth {
			return emit(append([]fw.Op(nil), ops...))
		}
		for _, k := range "SFRC" {
			targets := remarks
			if k == 'S' {
				targets = 1
			}
			for t := 0; t < targets; t++ {
				for _, p := range texts(len(ops)) {
					op := fw.Op{K: string(k), T: t, O: p.O, P: p.P}
					if k == 'R' {
						op.O = ""
					}
					next := remarks
					if validOp(op) {
						next++
					}
					ops = append(ops, op)
					if !rec(next) {
						return false
					}
					ops = ops[:len(ops)-1]
				}
			}
		}
		return true
	}
	return rec(0)
}

// C11

const (
	gWriter   = iota // the first graph
	gSecond          // opened at the start
	gFresh           // opened for the operation
	gOriginal        // the handle returned at creation, whatever graph made it
	gChoices
)

var lastBase struct {
	key  string
	want []Answers
}

// single gives the answers of the history performed through one graph.
func single(cfg fw.Case, ops []fw.Op, r *fw.Rec) []Answers {
	plain := append([]fw.Op(nil), ops...)
	for i := range plain {
		plain[i].G, plain[i].H = 0, 0
	}
	key := fmt.Sprint(cfg.Num, cfg.Ord, cfg.Clew, plain)
	if lastBase.key != key {
		e := newEnv(&fw.Case{Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew}, r)
		e.mustAll(plain)
		lastBase.want = e.askAll(qAll)
		lastBase.key = key
	}
	return lastBase.want
}

func execGraphs(c *fw.Case, r *fw.Rec) {
	if c.Mode == 3 {
		execTwoStores(c, r)
		return
	}
	if c.Mode == 4 {
		execPutBack(c, r)
		return
	}
	want := single(*c, c.Ops, r)
	e := newEnv(c, r)
	second := e.open()
	for i, op := range c.Ops {
		if c.Mode == 2 {
			e.disturb()
		}
		if c.Var != vNone {
			e.prepare(fw.Op{K: op.K, T: op.T, O: op.O, P: op.P})
		}
		g := op.G
		if g == gFresh {
			g = e.open()
		}
		var target api.Remark
		if op.K != "S" {
			if op.G == gOriginal {
				target = e.H[op.T]
			} else {
				h, err := e.G[g].GetRemark(e.IDs[op.T])
				if err != nil {
					r.Fail("before operation %d, looking up r%d through graph %d fails: %s", i, op.T, op.G, describe(err))
				}
				target = h
			}
		} else if op.G == gOriginal {
			g = gWriter
		}
		if g == gOriginal {
			g = gWriter // only the handle matters
		}
		e.Probe.Reset()
		h, err := call(e.G[g], target, op)
		r.Transitions++
		if err != nil {
			r.Fail("operation %d, %s, fails: %s", i, op, describe(err))
		}
		e.add(op, h)
	}
	e.settle()
	e.compare("handles returned at creation, compared with a single graph", want, e.askAll(qAll))
	for n, g := range []int{gWriter, second, e.open()} {
		got := make([]Answers, len(e.H))
		for i := range e.H {
			got[i] = e.ask(e.G[g], e.lookup(g, i), qAll)
		}
		r.Evaluations++
		e.compare(fmt.Sprintf("through %s, compared with a single graph", []string{"the first graph", "the second graph", "a newly opened graph"}[n]), want, got)
	}
	r.Outcome(hashAnswers(want))
	e.finish(c.Ops)
}

// execTwoStores performs a history on one store and the history with objects
// and properties exchanged on another one, in turn.
func execTwoStores(c *fw.Case, r *fw.Rec) {
	other := append([]fw.Op(nil), c.Ops...)
	for i := range other {
		switch {
		case other[i].K == "R":
			other[i].P += "b"
		default:
			other[i].O, other[i].P = other[i].P, other[i].O
		}
	}
	cfgs := []fw.Case{{}, {Num: c.Num, Ord: c.Ord, Clew: c.Clew}}
	lists := [][]fw.Op{c.Ops, other}
	if c.N == 1 {
		cfgs[0], cfgs[1] = cfgs[1], cfgs[0]
	}
	var wants [][]Answers
	for k := range cfgs {
		wants = append(wants, single(cfgs[k], lists[k], r))
	}
	var envs []*Env
	for k := range cfgs {
		envs = append(envs, newEnv(&cfgs[k], r))
	}
	for i := range c.Ops {
		for k, e := range envs {
			op := lists[k][i]
			if op.G == gFresh {
				e.reopen()
				op.H = hLookup
			}
			op.G = 0
			e.must(op)
		}
	}
	for round := 0; round < 2; round++ {
		for k, e := range envs {
			what := fmt.Sprintf("store %d of two used in turn, compared with its history alone", k)
			e.compare(what, wants[k], e.askAll(qAll))
			r.Evaluations++
			g := e.open()
			got := make([]Answers, len(e.H))
			for i := range e.H {
				got[i] = e.ask(e.G[g], e.lookup(g, i), qAll)
			}
			e.compare(what+", reopened", wants[k], got)
		}
	}
	r.Outcome(hashAnswers(wants[0]))
	for _, e := range envs {
		e.finish(c.Ops)
	}
}

// execPutBack performs a history; then the content of the storage is put back
// to what it was after N operations, as from a backup, and a graph opened on the
// same storage object performs the others with objects and properties exchanged.
func execPutBack(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	e.mustAll(c.Ops[:c.N])
	backup := e.Mem.Clone()
	ids := append([]uint(nil), e.IDs...)
	list := append([]fw.Op(nil), c.Ops...)
	for round := 0; round < 3; round++ {
		want := single(fw.Case{Num: c.Num, Ord: c.Ord}, list, r)
		e.mustAll(list[c.N:])
		e.judgeAll(qAll&^qRender&^qNextRemark, 0)
		e.compare(fmt.Sprintf("content put back %d times, compared with the history alone", round), want, e.askAll(qAll))
		r.Evaluations++
		e.finish(list)
		for i := c.N; i < len(list); i++ {
			if list[i].K == "R" {
				list[i].P += "b"
			} else {
				list[i].O, list[i].P = list[i].P, list[i].O
			}
		}
		f := newEnv(c, r)
		f.Probe, f.Mem = e.Probe, backup.Clone()
		f.Probe.Inner = f.Mem
		f.G = []api.Graph{api.Open(f.Probe)}
		f.IDs = append([]uint(nil), ids...)
		for i, op := range c.Ops[:c.N] {
			model(&f.W, op)
			f.ByID[ids[i]] = i
			f.H = append(f.H, f.lookup(0, i))
		}
		e = f
	}
}

func genGraphs(tier string, emit func(fw.Case) bool) {
	n, m, max, step := 4, 3, 36, 7
	if tier == "thorough" {
		n, m, max, step = 5, 4, 100, 9
	}
	mode := 0
	assign := func(fam string, ops []fw.Op) bool {
		ops = append([]fw.Op(nil), ops...)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(ops) {
				return emit(fw.Case{Fam: fam, Ops: append([]fw.Op(nil), ops...), Mode: mode})
			}
			choices := gChoices
			if ops[i].K == "S" {
				choices = gFresh + 1
			}
			for g := 0; g < choices; g++ {
				ops[i].G = g
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		return rec(0)
	}
	ok := true
	for size := 8; size <= max && ok; size += step {
		for _, p := range patterns {
			for cycle := 2; cycle <= 5 && ok; cycle++ {
				ops := p.make(size)
				for i := range ops {
					ops[i].G = (i * cycle / 2) % cycle
					if ops[i].G >= gChoices {
						ops[i].G = gWriter
					}
				}
				ok = emit(fw.Case{Fam: "long histories, graphs in turn", Ops: ops})
			}
		}
	}
	for d := 1; d <= m && ok; d++ {
		ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			return assign("every assignment of graphs, two colliding texts", ops)
		})
	}
	for _, cfg := range append([]fw.Case{{}}, configs...) {
		for d := 1; d <= m && ok; d++ {
			for k := 0; k < 4 && ok; k++ {
				ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
					for i := range ops {
						if k >= 2 {
							ops[i].G = gFresh
						}
					}
					return emit(fw.Case{Fam: "two stores in turn", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew, Mode: 3, N: k % 2})
				})
			}
		}
		for d := 1; d <= m && ok; d++ {
			ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
				for _, g := range []int{gWriter, gFresh} {
					list := append([]fw.Op(nil), ops...)
					for i := range list {
						list[i].G = g
					}
					if !emit(fw.Case{Fam: "other storages", Ops: list, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew}) {
						return false
					}
				}
				return true
			})
		}
	}
	for _, cfg := range append([]fw.Case{{}}, configs...) {
		for _, p := range patterns {
			for k := 0; k < 4 && ok; k++ {
				ops := p.make(20)
				if k >= 2 {
					for i := range ops {
						ops[i].G = gFresh
					}
				}
				ok = emit(fw.Case{Fam: "two stores in turn, long histories", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew, Mode: 3, N: k % 2}) &&
					emit(fw.Case{Fam: "other storages, long histories", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			}
		}
		// texts that share bits, characters, words
		for d := 1; d <= 2 && ok; d++ {
			ok = histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
				list := append([]fw.Op(nil), ops...)
				for i := range list {
					list[i].G = gFresh
				}
				return emit(fw.Case{Fam: "other storages, texts sharing parts", Ops: list, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			})
		}
		if ok {
			ok = wideTexts(func(list []string) bool {
				ops := make([]fw.Op, len(list))
				for i, x := range list {
					ops[i] = fw.Op{K: "S", O: x, P: list[(i+1)%len(list)], G: []int{gWriter, gFresh}[i%2]}
				}
				return emit(fw.Case{Fam: "other storages, texts with wide branching", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			})
		}
	}
	for _, cfg := range append([]fw.Case{{}}, configs...) {
		if cfg.Clew {
			continue
		}
		cfg.Fam, cfg.Mode = "content put back", 4
		for _, texts := range []func(int) []Pair{same, distinct, collide} {
			for d := 1; d <= m && ok; d++ {
				ok = histories(d, "SFRC", texts, func(ops []fw.Op) bool {
					for cfg.N = 0; cfg.N < d; cfg.N++ {
						cfg.Ops = ops
						if !emit(cfg) {
							return false
						}
					}
					return true
				})
			}
		}
		for _, p := range patterns {
			for _, cfg.N = range []int{0, 1, 10, 19} {
				cfg.Ops = p.make(20)
				ok = ok && emit(cfg)
			}
		}
		if ok {
			ok = wideTexts(func(list []string) bool {
				cfg.Ops = nil
				for i, x := range list {
					cfg.Ops = append(cfg.Ops, fw.Op{K: "S", O: x, P: list[(i+1)%len(list)]})
				}
				cfg.N = len(list) / 2
				return emit(cfg)
			})
		}
	}
	for v := vAsk; v < variations; v++ {
		for d := 1; d <= m && ok; d++ {
			ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				for _, g := range []int{gWriter, gFresh, gOriginal} {
					list := append([]fw.Op(nil), ops...)
					for i := range list {
						list[i].G = g
					}
					if !emit(fw.Case{Fam: variationNames[v], Ops: list, Var: v}) {
						return false
					}
				}
				return true
			})
		}
	}
	mode = 2
	for d := 1; d <= m && ok; d++ {
		ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			return assign("every assignment of graphs, with all queries through all graphs before every operation", ops)
		})
	}
	mode = 0
	for d := 1; d <= 2 && ok; d++ {
		ok = histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
			return assign("every assignment of graphs, texts sharing parts", ops)
		})
	}
	for d := 4; d <= n && ok; d++ {
		for _, texts := range []func(int) []Pair{same, distinct} {
			ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return assign("every assignment of graphs, longer", ops)
			})
		}
	}
}

func idChecks() []*fw.Check {
	mk := func(id, rule string, gen func(string, func(fw.Case) bool), exec func(*fw.Case, *fw.Rec)) *fw.Check {
		return &fw.Check{ID: id, Level: "model_checking", Rule: rule, Assumptions: []string{assumeSequential, assumeMem}, Gen: gen, Exec: exec}
	}
	return []*fw.Check{
		mk("C09", "in every store reached by a history: identifiers differ pairwise; every handle of every remark (returned at creation, looked up in the same and in a new graph, reached by each navigation from an original and from a looked-up handle) reports the same identifier and the same answers; on histories up to a smaller depth every operation is performed through every handle, twice, and all answers are compared with performing it through the original handle", genIdentity, execIdentity),
		mk("C10", "in every store reached by a history, also one with refused operations and the empty one: every identifier from zero to beyond the last node, all powers of two and their neighbours, the largest values and values that truncate to remark identifiers are looked up, through the graph that wrote the store and a new one: exactly those of remarks succeed", genLookups, execLookups),
		mk("C11", "every history with every assignment of its operations to graphs (the first, a second one opened on the empty storage, a new one, or whichever made the handle); all answers, through handles of every graph and a new one, are compared with the same history performed through a single graph; likewise with the storage's content put back to what it was after an earlier operation, and with storages that cannot be compared", genGraphs, execGraphs),
	}
}
