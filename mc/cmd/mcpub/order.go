package main

import (
	"fmt"

	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C25

// A case of C25 is several clients, each with a history of its own: the
// operations of client k have G = k, and refer to the client's own remarks.

const (
	oneGraph  = iota // all clients use one graph
	ownGraph         // each client has a graph
	newGraphs        // a graph is opened for every operation
)

var graphNames = []string{"through one graph", "through a graph of each client", "through a graph opened for every operation"}

func clients(ops []fw.Op) [][]fw.Op {
	var list [][]fw.Op
	for _, op := range ops {
		for len(list) <= op.G {
			list = append(list, nil)
		}
		list[op.G] = append(list[op.G], op)
	}
	return list
}

// schedules calls f with all interleavings, as sequences of clients; all = 0:
// only turns of equal length, beginning with each client.
func schedules(list [][]fw.Op, all bool, f func([]int) bool) {
	total := 0
	for _, l := range list {
		total += len(l)
	}
	left := make([]int, len(list))
	reset := func() {
		for k := range list {
			left[k] = len(list[k])
		}
	}
	reset()
	s := make([]int, 0, total)
	if !all {
		for _, turn := range []int{total, 1, 2, 3, 5} {
			for first := range list {
				reset()
				s = s[:0]
				for k := first; len(s) < total; k = (k + 1) % len(list) {
					for i := 0; i < turn && left[k] > 0; i++ {
						left[k]--
						s = append(s, k)
					}
				}
				if !f(s) {
					return
				}
			}
		}
		return
	}
	var rec func() bool
	rec = func() bool {
		if len(s) == total {
			return f(s)
		}
		for k := range list {
			if left[k] == 0 {
				continue
			}
			left[k]--
			s = append(s, k)
			ok := rec()
			s = s[:len(s)-1]
			left[k]++
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
}

func execOrders(c *fw.Case, r *fw.Rec) {
	list := clients(c.Ops)
	cfg := fw.Case{Num: c.Num, Ord: c.Ord, Clew: c.Clew}
	// what each client has alone
	want := make([][]Answers, len(list))
	for k, ops := range list {
		plain := append([]fw.Op(nil), ops...)
		for i := range plain {
			plain[i].G = 0
		}
		e := newEnv(&cfg, r)
		e.mustAll(plain)
		want[k] = e.askAll(qAll)
	}
	nodes, first := -1, ""
	count := 0
	schedules(list, c.M == 0, func(s []int) bool {
		count++
		e := newEnv(&cfg, r)
		if c.Mode == ownGraph {
			for len(e.G) < len(list) {
				e.open()
			}
		}
		var global [][]int // remark of a client -> remark
		local := map[int][2]int{}
		next := make([]int, len(list))
		for range list {
			global = append(global, nil)
		}
		told := func() string {
			return fmt.Sprintf("operations in the order of clients %v, %s", s, graphNames[c.Mode])
		}
		for _, k := range s {
			op := list[k][next[k]]
			next[k]++
			op.G = 0
			switch c.Mode {
			case ownGraph:
				op.G = k
			case newGraphs:
				e.G = e.G[:1]
				op.G = e.open()
			}
			if op.K != "S" {
				op.T = global[k][op.T]
			}
			h, err := e.do(op)
			if err != nil {
				r.Fail("%s: %s fails: %s", told(), op, describe(err))
			}
			i := len(e.H)
			local[i] = [2]int{k, len(global[k])}
			global[k] = append(global[k], i)
			e.add(op, h)
		}
		fresh := e.open()
		for k := range list {
			rename := func(n *Nav) {
				if n.To < 0 {
					return
				}
				if x, ok := local[n.To]; ok && x[0] == k {
					n.To = x[1]
				} else {
					n.To += unknown
				}
			}
			for i, g := range global[k] {
				graph, h := 0, e.H[g]
				if c.Mode != oneGraph {
					graph, h = fresh, e.lookup(fresh, g)
				}
				a := e.ask(e.G[graph], h, qAll)
				rename(&a.NR)
				rename(&a.NF)
				rename(&a.FF)
				rename(&a.NS)
				r.Evaluations++
				if a != want[k][i] {
					r.Fail("%s: remark %d of client %d differs from what the client has alone:\n  got  %s\n  want %s", told(), i, k, a, want[k][i])
				}
			}
		}
		if nodes < 0 {
			nodes, first = e.nodes(), told()
		}
		if e.nodes() != nodes {
			r.Fail("%s: %d nodes; %s: %d nodes", told(), e.nodes(), first, nodes)
		}
		e.state()
		r.Traces++
		return true
	})
	r.Nontrivial++
	r.Outcome(uint64(nodes)<<20 + uint64(count))
	if r.Sampling() {
		r.Sample("%d clients, %d orders %s: every client has what it has alone, always %d nodes", len(list), count, graphNames[c.Mode], nodes)
	}
}

// Texts of the clients, by client and step.
var clientTexts = []func(client, step int) Pair{
	func(client, step int) Pair { return Pair{"x y", "x"} },
	func(client, step int) Pair { return []Pair{{"a", "b a"}, {"b a", "ab"}}[(client+step)%2] },
	func(client, step int) Pair {
		p := []Pair{{"ab a", "Âb"}, {"ab", "ab a"}, {"Â", "ab ab"}, {"abc", "Âb"}}
		return p[(client*3+step)%len(p)]
	},
	func(client, step int) Pair { return distinct(client*5 + step)[0] },
}

func genOrders(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	// all client histories of a length
	shapes := func(n int) [][]fw.Op {
		var list [][]fw.Op
		histories(n, "SFRC", same, func(ops []fw.Op) bool {
			for i, op := range ops {
				if (op.K == "S") != (i == 0) {
					return true
				}
			}
			list = append(list, ops)
			return true
		})
		return list
	}
	join := func(parts [][]fw.Op, texts func(int, int) Pair) []fw.Op {
		var ops []fw.Op
		for k, part := range parts {
			for i, op := range part {
				p := texts(k, i)
				op.O, op.P, op.G = p.O, p.P, k
				if op.K == "R" {
					op.O = ""
				}
				ops = append(ops, op)
			}
		}
		return ops
	}
	ok := true
	all := func(fam string, lengths []int, schemes []int, modes []int, cfg fw.Case) {
		var parts [][]fw.Op
		var rec func() bool
		rec = func() bool {
			if len(parts) == len(lengths) {
				for _, t := range schemes {
					for _, m := range modes {
						k := cfg
						k.Fam, k.Ops, k.Mode = fam, join(parts, clientTexts[t]), m
						if !emit(k) {
							return false
						}
					}
				}
				return true
			}
			for _, x := range shapes(lengths[len(parts)]) {
				parts = append(parts, x)
				good := rec()
				parts = parts[:len(parts)-1]
				if !good {
					return false
				}
			}
			return true
		}
		ok = ok && rec()
	}
	every := []int{0, 1, 2, 3}
	modes := []int{oneGraph, ownGraph, newGraphs}
	all("two clients, one operation each", []int{1, 1}, every, modes, fw.Case{})
	all("two clients", []int{2, 1}, every, modes, fw.Case{})
	all("two clients", []int{2, 2}, every, modes, fw.Case{})
	all("two clients", []int{3, 2}, every, modes, fw.Case{})
	all("three clients", []int{1, 1, 1}, every, modes, fw.Case{})
	all("three clients", []int{2, 2, 1}, every, modes, fw.Case{})
	all("three clients", []int{2, 2, 2}, []int{1, 2}, []int{oneGraph, ownGraph}, fw.Case{})
	all("two clients", []int{3, 3}, []int{1, 2}, []int{oneGraph, ownGraph}, fw.Case{})
	for _, cfg := range configs {
		all("two clients, other storages", []int{2, 2}, []int{1, 2}, []int{oneGraph, newGraphs}, cfg)
	}
	// all orders of stories whose texts share parts
	n := 4
	if thorough {
		n = 6
	}
	var set []fw.Op
	var choose func(from int) bool
	choose = func(from int) bool {
		if len(set) >= 2 {
			if !emit(fw.Case{Fam: "all orders of stories with texts sharing parts", Ops: append([]fw.Op(nil), set...)}) {
				return false
			}
		}
		if len(set) == n {
			return true
		}
		for i := from; i < len(textPairs); i++ {
			p := textPairs[i]
			set = append(set, fw.Op{K: "S", O: p.O, P: p.P, G: len(set)})
			good := choose(i)
			set = set[:len(set)-1]
			if !good {
				return false
			}
		}
		return true
	}
	ok = ok && choose(0)
	for _, x := range oddTexts {
		for _, y := range oddTexts {
			if x < y {
				ok = ok && emit(fw.Case{Fam: "all orders of stories with odd texts", Ops: []fw.Op{
					{K: "S", O: x, P: y}, {K: "S", O: y, P: x + " " + y, G: 1}, {K: "S", O: x + y, P: y + " " + x, G: 2}}})
			}
		}
	}
	// many stories, in a few orders
	if ok {
		ok = wideTexts(func(list []string) bool {
			for shift := 1; shift < 4; shift++ {
				for _, cfg := range []fw.Case{{}, {Num: st.Gapped, Ord: st.Reverse}} {
					cfg.Fam, cfg.M = "texts with wide branching", 1
					groups := 5
					count := 0
					for k := 0; k < groups; k++ {
						for i := k; i < len(list); i += groups {
							cfg.Ops = append(cfg.Ops, fw.Op{K: "S", O: list[i], P: list[(i+shift)%len(list)], G: k})
							count++
						}
					}
					if !emit(cfg) {
						return false
					}
				}
			}
			return true
		})
	}
	size := 16
	if thorough {
		size = 50
	}
	for _, p := range patterns {
		for _, q := range patterns {
			for _, m := range modes {
				parts := [][]fw.Op{p.make(size), q.make(size - 3)}
				var ops []fw.Op
				for k, part := range parts {
					for _, op := range part {
						op.G = k
						ops = append(ops, op)
					}
				}
				ok = ok && emit(fw.Case{Fam: "long histories in turns", Ops: ops, Mode: m, M: 1})
			}
		}
	}
	if thorough {
		all("three clients", []int{2, 2, 2}, every, modes, fw.Case{})
		all("two clients", []int{3, 3}, every, modes, fw.Case{})
		all("two clients", []int{4, 2}, every, modes, fw.Case{})
		all("four clients", []int{2, 2, 1, 1}, []int{1, 2}, modes, fw.Case{})
		for _, cfg := range configs {
			all("two clients, other storages", []int{3, 2}, []int{1, 2}, []int{oneGraph}, cfg)
		}
		all("two clients", []int{4, 3}, []int{1, 2}, []int{oneGraph, ownGraph}, fw.Case{})
		all("three clients", []int{3, 2, 2}, []int{1, 2}, []int{ownGraph}, fw.Case{})
		all("two clients", []int{4, 4}, []int{2}, []int{ownGraph}, fw.Case{})
	}
}

func orderChecks() []*fw.Check {
	return []*fw.Check{{ID: "C25", Level: "model_checking", Assumptions: []string{assumeSequential, assumeMem},
		Rule: "for every set of two to four clients, each with a history of its own on stories of its own, in every interleaving of their operations, through one graph, a graph of each client, or a graph opened for every operation: every remark of every client answers as if the client were alone with the store, and the number of nodes is the same in every interleaving",
		Gen:  genOrders, Exec: execOrders}}
}
