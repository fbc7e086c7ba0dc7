package main

import (
	"fmt"

	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C17: the reference version is a frozen copy of the library, in mc/ref.

// Versions an operation can be performed by.
const (
	vReference = iota
	vCurrent
	vCurrentKept   // by a graph of the current version that stays open throughout
	vReferenceKept // likewise of the reference version
)

var lastReference struct {
	key  string
	want []Answers
}

// reference gives the answers of the history performed by the reference.
func reference(ops []fw.Op, r *fw.Rec) []Answers {
	plain := append([]fw.Op(nil), ops...)
	for i := range plain {
		plain[i].G, plain[i].H = 0, 0
	}
	key := fmt.Sprint(plain)
	if lastReference.key != key {
		e := versionEnv(&fw.Case{}, r)
		for i, op := range plain {
			h, err := e.do(op)
			if err != nil {
				r.Fail("operation %d, %s, fails in the reference version: %s", i, op, describe(err))
			}
			e.add(op, h)
		}
		lastReference.want = e.askAll(qAll)
		lastReference.key = key
	}
	return lastReference.want
}

// versionEnv has a graph of the reference version as its first graph.
func versionEnv(c *fw.Case, r *fw.Rec) *Env {
	e := &Env{R: r, ByID: map[uint]int{}, NoModel: true}
	var inner st.Storage
	if c.Clew {
		inner = clew.NewGraph(clew.NewSliceStorage())
	} else {
		e.Mem = st.NewMem(c.Num, c.Ord)
		inner = e.Mem
	}
	e.Probe = st.NewProbe(inner)
	e.G = []api.Graph{api.OpenReference(e.Probe)}
	return e
}

func execVersions(c *fw.Case, r *fw.Rec) {
	ops := c.Ops
	if len(c.Strs) > 0 {
		ops = nil
		for i, s := range c.Strs {
			ops = append(ops, fw.Op{K: "S", O: s, P: c.Strs[(i*c.N+1)%len(c.Strs)], G: (i / (1 + c.M)) % 2})
		}
	}
	want := reference(ops, r)
	e := versionEnv(c, r)
	kept := []api.Graph{e.G[0], api.Open(e.Probe)}
	names := []string{"the reference version", "the current version"}
	for i, op := range ops {
		var g api.Graph
		version := 0
		switch op.G {
		case vReference:
			g = api.OpenReference(e.Probe)
		case vReferenceKept:
			g = kept[0]
		case vCurrent:
			g, version = api.Open(&view{e.Probe}), 1
		case vCurrentKept:
			g, version = kept[1], 1
		}
		var target api.Remark
		e.Probe.Reset()
		if op.K != "S" {
			h, err := g.GetRemark(e.IDs[op.T])
			if err != nil {
				r.Fail("operation %d: looking up r%d in %s fails: %s", i, op.T, names[version], describe(err))
			}
			target = h
		}
		h, err := call(g, target, op)
		r.Transitions++
		if err != nil {
			r.Fail("operation %d, %s, fails in %s: %s", i, op, names[version], describe(err))
		}
		e.add(op, h)
	}
	for version, g := range []api.Graph{api.OpenReference(e.Probe), api.Open(&view{e.Probe})} {
		got := make([]Answers, len(e.IDs))
		for i, id := range e.IDs {
			h, err := g.GetRemark(id)
			if err != nil {
				r.Fail("looking up r%d in %s fails: %s", i, names[version], describe(err))
			}
			got[i] = e.ask(g, h, qAll)
		}
		r.Evaluations++
		e.compare("read by "+names[version]+", compared with a store the reference version wrote and read", want, got)
	}
	r.Outcome(hashAnswers(want))
	e.state()
	r.Traces++
	if r.Sampling() {
		r.Sample("%s (g0, g3: reference; g1, g2: current): both versions answer as the reference does alone", fw.Show(ops))
	}
}

func genVersions(tier string, emit func(fw.Case) bool) {
	n, m, max, step := 4, 3, 36, 7
	if tier == "thorough" {
		n, m, max, step = 5, 4, 100, 6
	}
	assign := func(c fw.Case, choices int) bool {
		ops := append([]fw.Op(nil), c.Ops...)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(ops) {
				k := c
				k.Ops = append([]fw.Op(nil), ops...)
				return emit(k)
			}
			for g := 0; g < choices; g++ {
				ops[i].G = g
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		return rec(0)
	}
	ok := true
	for size := 8; size <= max && ok; size += step {
		for _, p := range patterns {
			for cut := 0; cut <= 4 && ok; cut++ {
				ops := p.make(size)
				for i := range ops {
					switch {
					case cut == 4:
						ops[i].G = i % 2
					case i*4 >= size*cut:
						ops[i].G = vCurrent
					}
				}
				ok = emit(fw.Case{Fam: "long histories", Ops: ops})
				if cut < 4 && ok { // the other way round
					back := append([]fw.Op(nil), ops...)
					for i := range back {
						back[i].G = 1 - back[i].G
					}
					ok = emit(fw.Case{Fam: "long histories", Ops: back})
				}
			}
		}
	}
	for _, list := range [][]string{
		words([]rune{'a', 'Â', 'b'}, 3), phrases([]string{"a", "ab", "b"}, 3), words([]rune{'0', 'a', 'Â', '\x00', '中', '\U0010FFFF'}, 2),
		phrases([]string{"x", "y", "z", "xy", "yz"}, 2),
	} {
		for k := 0; k < 4 && ok; k++ {
			for s := 1; s < 4 && ok; s++ {
				ok = emit(fw.Case{Fam: "texts with wide branching", Strs: list, N: s, M: k}) &&
					emit(fw.Case{Fam: "texts with wide branching", Strs: list, N: s, M: k, Num: st.Gapped, Ord: st.Reverse})
			}
		}
	}
	for _, cfg := range configs {
		for k := 0; k < 2 && ok; k++ {
			ok = wideTexts(func(list []string) bool {
				return emit(fw.Case{Fam: "other storages, texts with wide branching", Strs: list, N: 1, M: k, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			})
		}
		for d := 1; d <= 2 && ok; d++ {
			ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				return assign(fw.Case{Fam: "other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew}, 4)
			})
		}
		ok = ok && histories(3, "SFRC", distinct, func(ops []fw.Op) bool {
			return assign(fw.Case{Fam: "other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew}, 2)
		})
		for _, p := range patterns {
			ops := p.make(18)
			for i := range ops {
				ops[i].G = i % 2
			}
			ok = ok && emit(fw.Case{Fam: "other storages, long histories", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
		}
	}
	mixed := func(c fw.Case) bool {
		for k := 0; k < 2; k++ {
			list := append([]fw.Op(nil), c.Ops...)
			for i := range list {
				list[i].G = (i + k) % 2
			}
			c.Ops = list
			if !emit(c) {
				return false
			}
		}
		return true
	}
	ok = ok && longTexts(tier, mixed) && oddPairs(tier, mixed)
	// every code point in a range written by either version
	for base := 0; base < 0x3000 && ok; base += 16 {
		var list []string
		for k := base; k < base+16; k++ {
			if k != ' ' {
				list = append(list, string(rune(k)))
			}
		}
		ok = emit(fw.Case{Fam: "code points", Strs: list, N: 1})
	}
	for d := 1; d <= 2 && ok; d++ {
		ok = histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
			return assign(fw.Case{Fam: "texts sharing parts", Ops: ops}, 2)
		})
	}
	for d := 1; d <= m && ok; d++ {
		ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			return assign(fw.Case{Fam: "every assignment of versions, graphs kept open or not", Ops: ops}, 4)
		})
	}
	for d := 1; d <= m && ok; d++ {
		ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			return assign(fw.Case{Fam: "clew", Ops: ops, Clew: true}, 2)
		})
	}
	for d := 4; d <= n && ok; d++ {
		for _, texts := range []func(int) []Pair{same, distinct, collide} {
			ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return assign(fw.Case{Fam: "every assignment of versions", Ops: ops}, 2)
			})
		}
	}
}

func versionChecks() []*fw.Check {
	return []*fw.Check{{ID: "C17", Level: "model_checking",
		Rule:        "every history with every assignment of its operations to the reference version (a frozen copy of the library) and the current one, on one store; then both versions read the store, and all answers are compared with a store that the reference version wrote and read alone",
		Assumptions: []string{assumeSequential, assumeMem, "the reference version is the library at the pinned commit with the fixes listed in known_findings.txt, copied to mc/ref"},
		Gen:         genVersions, Exec: execVersions}}
}
