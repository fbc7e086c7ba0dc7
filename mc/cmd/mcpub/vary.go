package main

import (
	"fmt"
	"strings"

	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// Variations: things done between the operations of a history that must not
// matter to anything.
const (
	vNone          = iota
	vAsk           // every query on every remark, and look-ups of identifiers assigned later or never
	vFailedQueries // every query on every remark, failing at every storage access
	vRefused       // the operation itself with malformed texts
	vReopened      // a new graph is opened for each operation
	vTwin          // another store in the same process is written and read
	variations
)

var variationNames = []string{"", "with all queries before every operation", "with queries failing at every storage access before every operation",
	"with refused operations before every operation", "with a graph opened for every operation", "with another store used in turn"}

// vary does what the case's variation asks for before an operation (or
// before judging: nil).
func (e *Env) vary(op *fw.Op) {
	switch e.Var {
	case vAsk:
		e.Probe.Quiet = true // identifiers chosen by the caller are looked up
		e.disturb()
		e.Probe.Quiet = false
	case vFailedQueries:
		e.failQueries(nil)
	case vRefused:
		e.refuse(op)
	case vReopened:
		e.reopen()
		if op != nil && op.K != "S" {
			op.H = hLookup
		}
	case vTwin:
		e.alternate(op)
	}
	e.Probe.Reset()
}

// failQueries puts every query to every remark through its original handle,
// failing at each of its storage accesses in turn, and calls after then.
func (e *Env) failQueries(after func(what string)) {
	for i, h := range e.H {
		for _, q := range questions {
			e.Probe.Reset()
			q.ask(e.G[0], h, e.IDs[i])
			n := e.Probe.Calls
			for k := 1; k <= n; k++ { // no success after the last failure
				e.Probe.Arm(k, st.FailBefore)
				q.ask(e.G[0], h, e.IDs[i])
				e.R.Queries++
				e.FailedMutations += e.Probe.Mutations
				if after != nil {
					e.Probe.Reset()
					after(fmt.Sprintf("after %s of r%d failed at access %d", q.name, i, k))
				}
			}
		}
	}
}

// refuse attempts malformed variants of an operation. Whether they are
// refused is judged by C04; a history in which they are not is left out.
func (e *Env) refuse(op *fw.Op) {
	if op == nil {
		return
	}
	for _, bad := range []fw.Op{
		{O: op.O, P: op.P + " "}, {O: op.O, P: ""}, {O: op.O, P: " " + op.P}, {O: op.O, P: op.P + "  " + op.P},
		{O: op.O + " ", P: op.P}, {O: "", P: op.P}, {O: op.P + "  " + op.O, P: op.P},
	} {
		bad.K, bad.T, bad.G, bad.H = op.K, op.T, op.G, op.H
		if bad.K == "R" {
			if bad.P == op.P {
				continue
			}
			bad.O = ""
		}
		if _, err := e.do(bad); err == nil {
			e.R.Skip()
		}
	}
}

// alternate performs an operation and queries on another store, which has
// other texts and another numbering.
func (e *Env) alternate(op *fw.Op) {
	if e.twin == nil {
		r := *e.R
		e.twin = newEnv(&fw.Case{Num: st.Gapped, Ord: st.Reverse}, &r)
		e.twin.NoModel = true
		e.alternate(&fw.Op{K: "S", O: "b", P: "ab"})
		e.alternate(&fw.Op{K: "C", O: "b", P: "ab"})
	}
	t := e.twin
	if op != nil {
		x := fw.Op{K: op.K, O: op.P, P: op.O, T: len(t.H) - 1 - op.T}
		if x.T < 0 {
			x.T = 0
		}
		if x.K == "R" {
			x.O, x.P = "", op.P
		}
		if h, err := t.do(x); err == nil {
			t.add(x, h)
		}
	}
	for g := range t.G {
		for i, h := range t.H {
			t.ask(t.G[g], h, qAll)
			t.G[g].GetRemark(t.IDs[i])
		}
		for _, id := range e.IDs {
			t.G[g].GetRemark(id)
		}
	}
}

// varied emits histories with every variation, on every kind of storage, and
// with odd texts.
func varied(tier string, kinds string, emit func(fw.Case) bool) bool {
	d := 3
	if tier == "thorough" {
		d = 4
	}
	ok := true
	for v := vAsk; v < variations; v++ {
		for n := 1; n <= d && ok; n++ {
			texts := collide
			if n == d || v == vFailedQueries {
				texts = distinct
			}
			ok = histories(n, kinds, texts, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: variationNames[v], Ops: ops, Var: v})
			})
		}
		for _, p := range patterns {
			size := 20
			if v == vFailedQueries {
				size = 7
			}
			if ok {
				ok = emit(fw.Case{Fam: "long histories " + variationNames[v], Ops: p.make(size), Var: v})
			}
		}
	}
	for _, cfg := range configs {
		for n := 1; n <= d && ok; n++ {
			ok = histories(n, kinds, distinct, func(ops []fw.Op) bool {
				cfg.Fam, cfg.Ops = "other storages", ops
				return emit(cfg)
			})
		}
		for _, p := range patterns {
			if ok {
				cfg.Fam, cfg.Ops = "other storages, long histories", p.make(24)
				ok = emit(cfg)
			}
		}
		cfg.Ops = nil
	}
	return ok && longTexts(tier, emit) && oddPairs(tier, emit)
}

// longTexts emits histories of texts that are long: one long word, or many
// words.
func longTexts(tier string, emit func(fw.Case) bool) bool {
	lengths, last := []int{31, 33, 63, 65, 127, 129, 255, 257, 511, 513, 1023, 1025}, 4097
	if tier == "thorough" {
		lengths, last = append(lengths, 32, 64, 128, 256, 512, 1024, 2047, 2048, 2049, 4095, 4096), 16385
	}
	for _, n := range append(lengths, last) {
		word := strings.Repeat("abc", n/3) + strings.Repeat("d", n%3)
		phrase := strings.Repeat("a bc ", n/5) + strings.Repeat("é", 1+n%5)
		for _, x := range []string{word, phrase} {
			if n == last && x == phrase {
				continue
			}
			if !emit(fw.Case{Fam: "long texts", Ops: []fw.Op{{K: "S", O: x, P: "b"}, {K: "F", T: 0, O: "a", P: x}, {K: "C", T: 1, O: x + "a", P: x}, {K: "R", T: 0, P: x + "b"}}}) {
				return false
			}
		}
	}
	return alike(tier, emit)
}

// alike emits histories of long texts that differ in a single place: at the
// beginning, in the middle, at the end, and between.
func alike(tier string, emit func(fw.Case) bool) bool {
	lengths := []int{9, 17, 34, 65, 130, 257, 514}
	if tier == "thorough" {
		lengths = append(lengths, 8, 12, 24, 48, 100, 200, 300, 400, 700, 1025, 1500)
	}
	for _, n := range lengths {
		word := []rune(strings.Repeat("ab", n/2))
		phrase := strings.Fields(strings.Repeat("a bc ", n/4+1))
		var texts, phrases []string
		for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
			w := append([]rune(nil), word...)
			w[(len(w)-1)*k/7] = 'z'
			texts = append(texts, string(w))
			p := append([]string(nil), phrase...)
			p[(len(p)-1)*k/7] = "yz"
			phrases = append(phrases, strings.Join(p, " "))
		}
		for _, x := range [][]string{texts, phrases} {
			if !emit(fw.Case{Fam: "long texts that differ in one place", Ops: []fw.Op{
				{K: "S", O: x[0], P: x[1]}, {K: "F", T: 0, O: x[2], P: x[3]}, {K: "R", T: 1, P: x[4]}, {K: "C", T: 1, O: x[5], P: x[6]},
				{K: "S", O: x[7], P: x[0]}, {K: "F", T: 3, O: x[3], P: x[7]}, {K: "S", O: x[6], P: x[4]}, {K: "S", O: x[3], P: x[2]}, {K: "S", O: x[0], P: x[1]},
			}}) {
				return false
			}
		}
	}
	return true
}

// hashTwins are words with the same checksum in a common scheme (CRC-32, CRC-64,
// FNV with 32 and 64 bits, Adler-32, multiplication by 31, 33, 131 or 65599, sums).
var hashTwins = [][2]string{
	{"plumless", "buckeroo"}, {"codding", "gnu"}, {"PhyMO4", "TldLNW"}, {"EqPfJy", "o9w32w"}, {"creamwove", "quists"}, {"costarring", "liquid"},
	{"altarage", "zinke"}, {"aufgy", "dctcd"}, {"ecdy", "kybn"}, {"aca", "bab"}, {"hetairas", "mentioner"}, {"haggadot", "loathsomenesses"},
	{"Aa", "BB"}, {"NX5RYZ", "oaU29R"}, {"DaNPcp", "9AQM5U"}, {"ad", "bc"}, {"abc", "cba"}, {"ab", "ba"},
	{"7mohtcOFVz", "c1E51sSEyx"}, {"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"aaaaaaaaaaaaaaaab", "eaaaaaaafaaaaaaec"}, {"aaaaaaaaaaaaaaaaa", "injdfejggfnbaikla"},
}

// separators are what two texts may have been joined by.
var separators = []string{"", " ", " - ", "\x00", "\x01", "\x1f", "\t", "\n", "|", "||", ":", "::", ",", ", ", ";", "/", "\\", "-", "_", "=", ".", "->", "=>", "#", "~", "\"", "'", "$", "@", "+", "&", "\u2192", "\ufffd", " is ", "\u00a0", "\x7f"}

// twins emits histories of texts that are told apart only if they are compared
// as a whole: equal checksums, and pairs that are equal when joined.
func twins(emit func(fw.Case) bool) bool {
	for _, t := range hashTwins {
		x, y := t[0], t[1]
		if !emit(fw.Case{Fam: "texts with equal checksums", Ops: []fw.Op{
			{K: "S", O: x, P: "p"}, {K: "S", O: y, P: "p"}, {K: "F", T: 0, O: "p", P: y}, {K: "R", T: 2, P: x}, {K: "C", T: 0, O: x + " q", P: y + " q"},
			{K: "F", T: 1, O: y + " q", P: x + " q"}, {K: "S", O: "q " + x, P: "q " + y}, {K: "S", O: "q " + y, P: "q " + x}, {K: "S", O: x, P: "p"},
		}}) {
			return false
		}
	}
	for _, s := range separators {
		if !emit(fw.Case{Fam: "pairs that are equal when joined", Ops: []fw.Op{
			{K: "S", O: "a" + s + "b", P: "c"}, {K: "S", O: "a", P: "b" + s + "c"}, {K: "F", T: 1, O: "b", P: "c" + s + "a"}, {K: "F", T: 0, O: "b" + s + "c", P: "a"},
			{K: "C", T: 3, O: "c" + s + "c", P: "c"}, {K: "R", T: 4, P: "c" + s + "c"}, {K: "S", O: "c", P: "c" + s + "c"}, {K: "S", O: "a" + s + "b", P: "c"},
		}}) {
			return false
		}
	}
	return true
}

// oddPairs emits histories in which each odd text meets each other one.
func oddPairs(tier string, emit func(fw.Case) bool) bool {
	if !twins(emit) {
		return false
	}
	for i, x := range oddTexts {
		for j, y := range oddTexts {
			if tier != "thorough" && i != j && (i+j)%8 != 0 && i > 0 && j > 0 {
				continue
			}
			if !emit(fw.Case{Fam: "odd texts next to each other", Ops: oddHistory(x, y)}) {
				return false
			}
		}
	}
	return true
}

func oddHistory(x, y string) []fw.Op {
	return []fw.Op{
		{K: "S", O: x, P: y}, {K: "F", T: 0, O: y, P: x}, {K: "R", T: 1, P: "k" + x}, {K: "C", T: 0, O: "k " + x, P: "k" + y},
		{K: "F", T: 3, O: "k " + y, P: "k" + x}, {K: "R", T: 0, P: y + " " + x}, {K: "S", O: x + y, P: y + x}, {K: "S", O: x, P: y},
	}
}

// wideTexts emits lists of texts that branch a lot in a store.
func wideTexts(emit func([]string) bool) bool {
	for _, list := range [][]string{
		words([]rune{'a', 'Â', 'b'}, 3), phrases([]string{"a", "ab", "b"}, 3), words([]rune{'0', 'a', 'Â', '\x00', '中'}, 2),
		phrases([]string{"x", "y", "z", "xy", "yz"}, 2), words([]rune("abcdefgh"), 2),
	} {
		if !emit(list) {
			return false
		}
	}
	return true
}
