package main

import (
	"fmt"

	"github.com/mem-memov/semnet/verifmc/fw"
)

// Pair is an object and a property.
type Pair struct{ O, P string }

// histories enumerates every sequence of exactly depth operations of the
// given kinds, each on every earlier remark, with every choice of text out of
// texts(step). The slice passed on is reused.
func histories(depth int, kinds string, texts func(step int) []Pair, emit func([]fw.Op) bool) bool {
	ops := make([]fw.Op, 0, depth)
	var rec func() bool
	rec = func() bool {
		step := len(ops)
		if step == depth {
			return emit(append([]fw.Op(nil), ops...))
		}
		for _, k := range kinds {
			targets := step
			if k == 'S' {
				targets = 1
			}
			for t := 0; t < targets; t++ {
				for _, p := range texts(step) {
					op := fw.Op{K: string(k), T: t, O: p.O, P: p.P}
					if k == 'R' {
						op.O = ""
					}
					ops = append(ops, op)
					if !rec() {
						return false
					}
					ops = ops[:step]
				}
			}
		}
		return true
	}
	return rec()
}

func fixed(pairs ...Pair) func(int) []Pair { return func(int) []Pair { return pairs } }

// same: all remarks have the same text.
var same = fixed(Pair{"x y", "x"})

// collide: two texts that share words, prefixes and characters.
var collide = fixed(Pair{"a", "b a"}, Pair{"b a", "ab"})

// distinct: every step has its own text, all with shared prefixes.
func distinct(step int) []Pair {
	return []Pair{{fmt.Sprintf("o%s", abc(step)), fmt.Sprintf("o%s p", abc(step))}}
}

func abc(n int) string {
	s := string(rune('a' + n%26))
	if n >= 26 {
		s += abc(n/26 - 1)
	}
	return s
}

func via(handle int, ops []fw.Op) []fw.Op {
	if handle == hOriginal {
		return ops
	}
	result := append([]fw.Op(nil), ops...)
	for i := range result {
		if result[i].K != "S" {
			result[i].H = handle
		}
	}
	return result
}

// depths are the bounds of the structural families.
type depths struct {
	collide, same, distinct, lookup int
}

// structural emits the families shared by the navigation checks.
func structural(kinds string, d depths, emit func(fw.Case) bool) bool {
	fam := func(name string, depth int, texts func(int) []Pair, handle int) bool {
		for n := 1; n <= depth; n++ {
			ok := histories(n, kinds, texts, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: name, Ops: via(handle, ops)})
			})
			if !ok {
				return false
			}
		}
		return true
	}
	return fam("equal texts", d.same, same, hOriginal) &&
		fam("distinct texts", d.distinct, distinct, hOriginal) &&
		fam("operations through looked-up handles", d.lookup, distinct, hLookup) &&
		fam("two colliding texts", d.collide, collide, hOriginal)
}

// scale emits long histories of every size up to max following fixed patterns.
func scale(max int, step int, emit func(fw.Case) bool) bool {
	var sizes []int
	for n := 8; n <= max; n += step {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 66, 131, 261)
	sizes = append(sizes, 521, 1031)
	if max > 36 {
		sizes = append(sizes, 2053)
	}
	for _, n := range sizes {
		for _, p := range patterns {
			for _, h := range []int{hOriginal, hLookup} {
				if n > 300 && h == hLookup {
					continue
				}
				if !emit(fw.Case{Fam: "long histories", Ops: via(h, p.make(n))}) {
					return false
				}
			}
		}
	}
	return true
}

type pattern struct {
	name string
	make func(n int) []fw.Op
}

func grow(n int, pick func(i int) fw.Op) []fw.Op {
	ops := []fw.Op{{K: "S", O: "s", P: "t"}}
	for i := 1; i < n; i++ {
		op := pick(i)
		p := distinct(i)[0]
		if op.O == "" && op.K != "R" {
			op.O = p.O
		}
		if op.P == "" {
			op.P = p.P
		}
		ops = append(ops, op)
	}
	return ops
}

var patterns = []pattern{
	{"facts through the first remark", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "F", T: 0} })
	}},
	{"facts through the last remark", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "F", T: i - 1} })
	}},
	{"facts through the middle, equal texts", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "F", T: i / 2, O: "s", P: "t"} })
	}},
	{"remarks through the first", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "R", T: 0} })
	}},
	{"remarks through the last, equal texts", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "R", T: i - 1, P: "t"} })
	}},
	{"children through the first", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "C", T: 0} })
	}},
	{"children of children", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "C", T: i - 1} })
	}},
	{"children as a binary tree, equal texts", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "C", T: (i - 1) / 2, O: "s", P: "t"} })
	}},
	{"many stories with equal texts", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "S", O: "s", P: "t"} })
	}},
	{"many stories sharing the object", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "S", O: "s"} })
	}},
	{"many stories sharing the property", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op { return fw.Op{K: "S", P: "t"} })
	}},
	{"everything in turn", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op {
			return fw.Op{K: string("FRCSCFR"[i%7]), T: (i * 5) % i}
		})
	}},
	{"two stories in turn", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op {
			if i == 1 {
				return fw.Op{K: "S", O: "s", P: "t"}
			}
			return fw.Op{K: string("FFCC"[i%4]), T: i % 2}
		})
	}},
	{"children through facts and remarks of the parent", func(n int) []fw.Op {
		return grow(n, func(i int) fw.Op {
			switch i {
			case 1, 3:
				return fw.Op{K: "F", T: i - 1}
			case 2, 4:
				return fw.Op{K: "R", T: i - 1}
			}
			return fw.Op{K: "C", T: i % 5}
		})
	}},
}
