package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mem-memov/semnet/verifmc/fw"
)

// C22

// notText lists byte strings that are not valid UTF-8 and contain no space.
func notText(thorough bool) []string {
	var list []string
	for a := 0x80; a < 0x100; a++ {
		list = append(list, string([]byte{byte(a)}))
	}
	list = append(list,
		"\xc0\x80", "\xc0\xaf", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", // overlong
		"\xc0\xa0",                                                                                 // an overlong space
		"\xed\xa0\x80", "\xed\xaf\xbf", "\xed\xb0\x80", "\xed\xbf\xbf", "\xed\xa0\xbd\xed\xb8\x80", // surrogates
		"\xf4\x90\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xff\xfe", // beyond the last code point
		"\xe4\xb8", "\xf0\x9f\x98", "\xf0\x9f", // cut short
		"\xb8\xad", "\x9f\x98\x80", // without the beginning
		"é\xa9", "\xe9a", "中\xad", "a\xcc", "\xef\xbf", "\xef\xbf\xbd\xff",
	)
	step := 5
	if thorough {
		step = 1
	}
	for a := 0; a < 0x100; a++ {
		for b := (a * 3) % step; b < 0x100; b += step {
			s := string([]byte{byte(a), byte(b)})
			if a != ' ' && b != ' ' && !utf8.ValidString(s) && (a >= 0x80 || b >= 0x80) {
				list = append(list, s)
			}
		}
	}
	return list
}

func genNotText(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	list := notText(thorough)
	ok := true
	// in every place of a text, in every place of an operation
	for i, s := range list {
		places := []string{s, s + "a", "a" + s, "a" + s + "b", "a " + s, s + " a", "a b" + s + " c"}
		if i > 170 && !thorough { // pairs
			places = []string{s, "a" + s + "b c"}
		}
		for k, text := range places {
			if thorough || k == 0 || i <= 170 {
				ok = ok && emit(fw.Case{Fam: "first operation", Ops: []fw.Op{{K: "S", O: text, P: "a"}}})
			}
			ok = ok && emit(fw.Case{Fam: "first operation", Ops: []fw.Op{{K: "S", O: "a", P: text}}})
		}
	}
	depth := 2
	if thorough {
		depth = 3
	}
	for d := 1; d <= depth && ok; d++ {
		ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			for _, kind := range "SFRC" {
				for t := 0; t < d; t++ {
					if kind == 'S' && t > 0 {
						break
					}
					for k, s := range []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xc0\x80", "\xe4\xb8", "\xf4\x90\x80\x80"} {
						for place := 0; place < 3; place++ {
							op := fw.Op{K: string(kind), T: t, O: "b a", P: "b a"}
							switch place {
							case 0:
								op.P = "a" + s
							case 1:
								op.O = s + "b"
							case 2:
								op.O, op.P = "a "+s, s
							}
							if kind == 'R' {
								if place == 1 {
									continue
								}
								op.O = ""
							}
							if d > 1 && k%3 != 0 {
								continue
							}
							if !emit(fw.Case{Fam: "in every operation after every history", Ops: append(ops[:d:d], op)}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}
	for _, cfg := range configs {
		for _, s := range []string{"\xff", "\xed\xa0\x80", "\xc3"} {
			cfg.Fam, cfg.Ops = "other storages", []fw.Op{{K: "S", O: "a", P: "b"}, {K: "F", O: "a" + s, P: s}}
			ok = ok && emit(cfg)
		}
	}
}

// execNotText: the last operation of the case has a text that is no text.
func execNotText(c *fw.Case, r *fw.Rec) {
	n := len(c.Ops) - 1
	bad := c.Ops[n]
	e := newEnv(c, r)
	e.mustAll(c.Ops[:n])
	before := e.askAll(qAll)
	for round := 0; round < 2; round++ {
		count := len(e.H)
		h, err := e.do(bad)
		r.Evaluations++
		if isUnexpected(err) {
			r.Fail("%s: %s", bad, describe(err))
		}
		if err == nil {
			r.Nontrivial++
			e.add(bad, h) // the bytes have to read back
		} else {
			e.compare("after the refusal", before[:n], e.askAll(qAll)[:n])
			if len(e.H) != count {
				r.Fail("%s is refused and adds a remark", bad)
			}
		}
	}
	e.judgeAll(qText, 0)
	// texts it could be mixed up with
	fix := func(s string) []string {
		return []string{strings.ToValidUTF8(s, "\ufffd"), string([]rune(s)), strings.ToValidUTF8(s, "")}
	}
	for _, s := range append(fix(bad.O), fix(bad.P)...) {
		if !validText(s) {
			continue
		}
		e.must(fw.Op{K: "S", O: s, P: s + "\ufffd"})
		e.must(fw.Op{K: "F", T: 0, O: "\ufffd " + s, P: s})
		e.must(fw.Op{K: "R", T: len(e.H) - 1, P: s})
	}
	e.judgeAll(qText|qNextFact|qFirstFact|qNextStory, 0)
	r.Outcome(hashAnswers(e.askAll(qText)))
	e.finish(c.Ops)
}

// C23

// content is what a store consists of, and the identifiers given out.
func (e *Env) content() string {
	s := fmt.Sprint(e.IDs)
	if e.Mem != nil {
		s += fmt.Sprintf(" %d nodes, %x", e.Mem.Len(), e.Mem.Fingerprint())
	}
	return s
}

// Ways of performing the same operations.
var replicas = []struct {
	name    string
	v       int
	prepare func(e *Env, i int, op *fw.Op)
}{
	{"once more", vNone, nil},
	{"through looked-up handles", vNone, func(e *Env, i int, op *fw.Op) {
		if op.K != "S" {
			op.H = hLookup
		}
	}},
	{"through two graphs in turn", vNone, func(e *Env, i int, op *fw.Op) {
		if len(e.G) < 2 {
			e.open()
		}
		op.G = i % 2
	}},
	{"through the second of two graphs", vNone, func(e *Env, i int, op *fw.Op) {
		if len(e.G) < 2 {
			e.open()
		}
		op.G = 1
	}},
	{variationNames[vAsk], vAsk, nil},
	{variationNames[vReopened], vReopened, nil},
	{variationNames[vTwin], vTwin, nil},
	{variationNames[vFailedQueries], vFailedQueries, nil},
}

func execReplicas(c *fw.Case, r *fw.Rec) {
	if c.Mode != atOnce {
		execPassing(c, r)
		return
	}
	e := newEnv(c, r)
	var want []string
	for _, op := range c.Ops {
		e.must(op)
		want = append(want, e.content())
	}
	for _, way := range replicas {
		if way.v == vFailedQueries && len(c.Ops) > 2 || way.v != vNone && len(c.Ops) > 60 {
			continue
		}
		k := *c
		k.Var = way.v
		e := newEnv(&k, r)
		for i, op := range c.Ops {
			if way.prepare != nil {
				way.prepare(e, i, &op)
			}
			e.must(op)
			r.Evaluations++
			if got := e.content(); got != want[i] {
				r.Fail("the same operations performed %s: after operation %d, %s, identifiers and content are %s, before they were %s", way.name, i, op, got, want[i])
			}
		}
		e.state()
		r.Traces++
	}
	r.Outcome(uint64(len(c.Ops)))
	if r.Sampling() {
		r.Sample("%s: %s, %d times", fw.Show(c.Ops), want[len(want)-1], len(replicas))
	}
}

func genReplicas(tier string, emit func(fw.Case) bool) {
	n, max, step := 4, 36, 14
	if tier == "thorough" {
		n, max, step = 5, 100, 9
	}
	plain := func(c fw.Case) bool { return c.Var != vNone || emit(c) }
	_ = focussed("short histories", 3, "SFRC", distinct, emit) &&
		scale(max, step, emit) &&
		genPassing(tier, emit) &&
		varied(tier, "SFRC", plain) &&
		textsOnStorages(emit) &&
		structural("SFRC", depths{collide: n, same: n, distinct: n}, emit)
}

func extraChecks() []*fw.Check {
	return []*fw.Check{
		{ID: "C22", Level: "model_checking", Assumptions: []string{assumeSequential, assumeMem},
			Rule: "every byte that is no character, every pair of bytes that is not valid UTF-8 (quick: every fifth), overlong, surrogate, too large, cut-off sequences, at every place of a text, as object and property, in every operation after every history: the operation is refused and changes nothing, or the bytes read back; then texts with the replacement character and without the bytes are stored and everything is read",
			Gen:  genNotText, Exec: execNotText},
		{ID: "C23", Level: "model_checking", Assumptions: []string{assumeSequential, assumeMem},
			Rule: "every history is performed once plainly and again in eight ways (once more, looked-up handles, two graphs in turn, a second graph, all queries before every operation, reopened for every operation, another store used in turn, queries failing at every access): after each operation the identifiers and the complete content of the storage are compared; likewise, and with all answers, for pauses of fourteen lengths (to thirty years) before the opening, before each and all operations, at each access of an operation and at all accesses, by a clock under the check's control, and for garbage collections before and during operations",
			Gen:  genReplicas, Exec: execReplicas},
	}
}
