package main

import (
	"fmt"
	"strings"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

func isUnexpected(err error) bool { return api.Unexpected(err) }

// follow-up operations after something went wrong: one of each kind
func battery(e *Env, o, p string) []fw.Op {
	ops := []fw.Op{}
	if len(e.H) > 0 {
		last := len(e.H) - 1
		ops = append(ops, fw.Op{K: "F", T: 0, O: o, P: p}, fw.Op{K: "C", T: last, O: p, P: o},
			fw.Op{K: "R", T: 0, P: p}, fw.Op{K: "C", T: 0, O: o, P: o}, fw.Op{K: "F", T: last, O: p, P: p})
	}
	return append(ops, fw.Op{K: "S", O: o, P: p})
}

// C04

var malformed = []string{"", " ", "  ", "   ", " a", "a ", "a  b", " a b", "b a ", "b a  ab", "a  ", "  a", "a b a  a", "q  r", "q "}

func genMalformed(tier string, emit func(fw.Case) bool) {
	depth := 2
	if tier == "thorough" {
		depth = 4
	}
	ok := true
	for n := 0; n <= depth && ok; n++ {
		texts := collide
		if n > 2 {
			texts = distinct
		}
		ok = histories(n, "SFRC", texts, func(ops []fw.Op) bool {
			for _, kind := range "SFRC" {
				targets := n
				if kind == 'S' {
					targets = 1
				}
				for t := 0; t < targets; t++ {
					for _, bad := range malformed {
						for place := 0; place < 4; place++ {
							op := fw.Op{K: string(kind), T: t}
							switch place {
							case 0:
								op.O, op.P = "a b", bad
							case 1:
								op.O, op.P = bad, "a b"
							case 2:
								op.O, op.P = bad, bad
							case 3: // words that occur nowhere else
								op.O, op.P = "u v", bad
							}
							if kind == 'R' {
								if place == 1 || place == 2 {
									continue
								}
								op.O = ""
							}
							if !emit(fw.Case{Fam: "malformed text in every place", Ops: append(ops[:n:n], op)}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}
	// on other storages, and with variations
	for _, cfg := range append(append([]fw.Case{}, configs...), fw.Case{Var: vAsk}, fw.Case{Var: vFailedQueries}, fw.Case{Var: vReopened}, fw.Case{Var: vTwin}) {
		for n := 0; n <= 2 && ok; n++ {
			ok = histories(n, "SFRC", distinct, func(ops []fw.Op) bool {
				for _, kind := range "SFRC" {
					if n == 0 && kind != 'S' {
						continue
					}
					for k, bad := range malformed {
						if n == 2 && k%4 != 0 {
							continue
						}
						cfg.Fam = "other storages"
						if cfg.Var != vNone {
							cfg.Fam = variationNames[cfg.Var]
						}
						cfg.Ops = append(ops[:n:n], fw.Op{K: string(kind), O: "a b", P: bad})
						if !emit(cfg) {
							return false
						}
					}
				}
				return true
			})
		}
	}
	// an empty word at every position of a long text
	words := 12
	if tier == "thorough" {
		words = 60
	}
	for n := 1; n <= words && ok; n++ {
		for at := 0; at <= n && ok; at++ {
			list := make([]string, 0, n+1)
			for i := 0; i <= n; i++ {
				if i == at {
					list = append(list, "")
				} else {
					list = append(list, abc(i))
				}
			}
			bad := strings.Join(list, " ")
			for _, op := range []fw.Op{{K: "S", O: bad, P: "a"}, {K: "F", T: 0, O: "a", P: bad}, {K: "R", T: 0, P: bad}, {K: "C", T: 0, O: bad, P: bad}} {
				if ok {
					ok = emit(fw.Case{Fam: "empty word at every position", Ops: []fw.Op{{K: "S", O: "a b c", P: "b"}, op}})
				}
			}
		}
	}
}

// execMalformed: the last operation of the case is malformed.
func execMalformed(c *fw.Case, r *fw.Rec) {
	n := len(c.Ops) - 1
	bad := c.Ops[n]
	plain := newEnv(c, r)
	plain.mustAll(c.Ops[:n])
	e := newEnv(c, r)
	e.mustAll(c.Ops[:n])
	before := e.askAll(qAll)
	refuse := func() {
		_, err := e.do(bad)
		r.Evaluations++
		if err == nil {
			r.Fail("%s with a malformed text succeeds", bad)
		}
		if isUnexpected(err) {
			r.Fail("%s with a malformed text: %s", bad, describe(err))
		}
	}
	refuse()
	e.compare("after the refusal", before, e.askAll(qAll))
	refuse() // a second time
	e.compare("after the second refusal", before, e.askAll(qAll))
	// valid operations with the texts of the refused call
	var words []string
	for _, w := range append(strings.Split(bad.O, " "), strings.Split(bad.P, " ")...) {
		if w != "" {
			words = append(words, w)
		}
	}
	words = append(words, "z")
	o, p := strings.Join(words, " "), words[0]
	ops := append([]fw.Op{bad}, battery(plain, o, p)...)
	ops[0].O, ops[0].P = p, o // the refused operation with valid texts
	if ops[0].K == "R" {
		ops[0].O = ""
	}
	for _, op := range ops {
		plain.must(op)
		h, err := e.do(op)
		if err != nil {
			r.Fail("%s after the refused operation fails: %s", op, describe(err))
		}
		e.add(op, h)
	}
	e.compare("after further valid operations, compared with a store without the refused call", plain.askAll(qAll), e.askAll(qAll))
	r.Outcome(hashAnswers(before))
	e.state()
	r.Traces++
	if r.Sampling() {
		r.Sample("%s; refused: %s; then %s as if it had not been called", fw.Show(c.Ops[:n]), bad, fw.Show(ops))
	}
}

func (e *Env) compare(when string, want, got []Answers) {
	if len(want) != len(got) {
		e.R.Fail("%s: %d remarks, want %d", when, len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] {
			e.R.Fail("%s: answers of r%d differ:\n  got  %s\n  want %s", when, i, got[i], want[i])
		}
	}
}

// C08

func execIsolation(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	from := len(c.Ops) - 1
	if c.Mode == 1 {
		from = 0
	}
	for i, op := range c.Ops {
		if i < from {
			e.must(op)
			continue
		}
		op = e.prepare(op)
		var before []Answers
		if len(e.H) > 0 {
			before = e.askAll(qAll)
		}
		n := len(e.H)
		e.perform(op)
		after := e.askAll(qAll)
		story := e.W.StoryOf(n)
		target := -1 // the story the operation was called on
		if op.K != "S" {
			target = e.W.StoryOf(op.T)
		}
		previous := -1
		if op.K == "C" {
			siblings := e.W.Stories[target].Children
			if len(siblings) > 1 {
				previous = siblings[len(siblings)-2]
			}
		}
		for k := 0; k < n; k++ {
			s := e.W.StoryOf(k)
			if s == target && op.K != "C" || s == story {
				continue
			}
			b, a := before[k], after[k]
			if s == previous {
				b.NS, a.NS = Nav{}, Nav{} // the intended link
			}
			r.Evaluations++
			if a != b {
				r.Fail("%s changes r%d of another story:\n  before %s\n  after  %s", op, k, b, a)
			}
		}
	}
	r.Outcome(hashAnswers(e.askAll(qAll)))
	e.finish(c.Ops)
}

// C14

func execQueries(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	if len(c.Ops) == 0 { // an empty store
		for round := 0; round < 2; round++ {
			for id := uint(0); id < 400; id++ {
				e.G[0].GetRemark(id)
				r.Evaluations++
			}
		}
		if e.Probe.Mutations != 0 || e.Mem != nil && e.Mem.Len() != 0 {
			r.Fail("looking up identifiers in an empty store makes %d changes to it", e.Probe.Mutations)
		}
		e.must(fw.Op{K: "S", O: "a", P: "b"})
		return
	}
	for i, op := range c.Ops {
		e.must(op)
		if c.Mode != 1 && i < len(c.Ops)-1 {
			continue
		}
		fingerprint := uint64(0)
		if e.Mem != nil {
			fingerprint = e.Mem.Fingerprint()
		}
		if c.N == 2 { // the queries of the internal packages
			list := innerQuestions(e)
			said := make([]string, len(list))
			for round := 0; round < 2; round++ {
				for k, q := range list {
					e.Probe.Reset()
					answer, err := q.guarded()
					answer += errText(err)
					r.Evaluations++
					if e.Probe.Mutations != 0 {
						r.Fail("%s makes %d changes to the storage", q.name, e.Probe.Mutations)
					}
					if round > 0 && answer != said[k] {
						r.Fail("%s: %s, asked again: %s", q.name, said[k], answer)
					}
					said[k] = answer
				}
			}
		}
		var first []Answers
		g := e.open() // a graph that has not been used
		for round := 0; round < 3; round++ {
			var answers []Answers
			for k := range e.H {
				i := k
				if round == 1 { // another order
					i = len(e.H) - 1 - k
				}
				var a Answers
				changes := 0
				if round == 0 {
					a = e.ask(e.G[0], e.H[i], qAll)
				} else {
					e.Probe.Reset()
					h := e.lookup(g, i)
					if e.Probe.Mutations != 0 {
						r.Fail("looking up r%d changes the storage", i)
					}
					h.ID()
					changes = e.Probe.Mutations
					a = e.ask(e.G[g], h, qAll)
				}
				changes += e.Probe.Mutations
				r.Evaluations++
				if changes != 0 {
					r.Fail("queries on r%d make %d changes to the storage", i, changes)
				}
				if round == 1 {
					answers = append([]Answers{a}, answers...)
				} else {
					answers = append(answers, a)
				}
			}
			if round == 0 {
				first = answers
			} else {
				e.compare("asked again through a newly opened graph", first, answers)
			}
		}
		if e.Var != vNone {
			e.settle()
			e.compare("asked again "+variationNames[e.Var], first, e.askAll(qAll))
			r.Evaluations++
		}
		if e.Var == vFailedQueries && len(e.H) < 5 {
			e.failQueries(func(what string) {
				e.compare(what, first, e.askAll(qAll))
				r.Evaluations++
			})
		}
		if e.FailedMutations > 0 {
			r.Fail("queries that end in an error make %d changes to the storage", e.FailedMutations)
		}
		e.Probe.Reset()
		for id := uint(0); id < 400; id++ {
			if _, err := e.G[g].GetRemark(id); err != nil {
				r.Nontrivial++
			}
		}
		if e.Probe.Mutations != 0 {
			r.Fail("looking up identifiers below 400 makes %d changes to the storage", e.Probe.Mutations)
		}
		if e.Mem != nil && e.Mem.Fingerprint() != fingerprint {
			r.Fail("queries change the content of the storage")
		}
		if i == len(c.Ops)-1 {
			r.Outcome(hashAnswers(first))
		}
	}
	e.finish(c.Ops)
}

// C16

func execMonitor(c *fw.Case, r *fw.Rec) {
	if c.Mode == 2 {
		monitorInterrupted(c, r)
		return
	}
	e := newEnv(c, r)
	e.Probe.StartWatch()
	accesses := r.Accesses
	check := func(what string) {
		if len(e.Probe.Issues) > 0 {
			r.Fail("%s: %s", what, strings.Join(e.Probe.Issues, "; "))
		}
	}
	for i, op := range c.Ops {
		e.must(op)
		check(op.String())
		if i == len(c.Ops)-1 || c.Mode == 1 {
			e.settle()
			e.askAll(qAll)
			check("queries on the remarks")
			g := e.open()
			for k := range e.H {
				e.ask(e.G[g], e.lookup(g, k), qAll)
			}
			check("queries through a newly opened graph")
			if c.N == 2 {
				for _, q := range innerQuestions(e) {
					_, err := q.guarded()
					check(q.name)
					r.Outcome(uint64(len(errText(err))))
				}
			}
		}
	}
	r.Evaluations += r.Accesses - accesses
	r.Outcome(hashAnswers(e.askAll(qText)))
	e.finish(c.Ops)
}

// monitorInterrupted fails every access of the last operation in turn and
// watches that operation, its repetition and others, through the same graph
// and through a new one.
func monitorInterrupted(c *fw.Case, r *fw.Rec) {
	n := len(c.Ops) - 1
	x := c.Ops[n]
	for k := 1; ; k++ {
		for _, anew := range []bool{false, true} {
			e := newEnv(c, r)
			e.NoModel = true
			e.Probe.StartWatch()
			e.mustAll(c.Ops[:n])
			target, err := e.receiver(x)
			if err != nil {
				r.Fail("looking up r%d fails: %s", x.T, describe(err))
			}
			check := func(what string) {
				if len(e.Probe.Issues) > 0 {
					r.Fail("%s with access %d failing (new graph: %v): %s: %s", x, k, anew, what, strings.Join(e.Probe.Issues, "; "))
				}
			}
			e.Probe.Arm(k, st.FailBefore)
			call(e.G[0], target, x)
			r.Transitions++
			hit := e.Probe.Hit
			e.Probe.Reset()
			if !hit {
				return
			}
			check("during the operation")
			if anew {
				e.reopen()
				for i := range e.H {
					e.H[i] = e.lookup(0, i)
				}
			}
			e.askAll(qAll)
			check("queries after it")
			for _, op := range after(x, n) {
				e.must(op)
				check(op.String() + " after it")
			}
			e.askAll(qAll)
			check("queries at the end")
			r.Evaluations += int64(e.Probe.Calls)
			r.Traces++
		}
	}
}

func genMonitor(tier string, emit func(fw.Case) bool) {
	d := 2
	if tier == "thorough" {
		d = 3
	}
	ok := true
	for n := 1; n <= d && ok; n++ {
		ok = histories(n, "SFRC", fixed(faultPairs...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "interrupted operations", Ops: ops, Mode: 2})
		})
	}
	for n := d + 1; n <= d+1 && ok; n++ {
		ok = histories(n, "SFRC", same, func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "interrupted operations", Ops: ops, Mode: 2})
		})
	}
	if ok && internalQueries(tier, emit) {
		genOpsDeep(tier, emit)
	}
}

// C15

var configs = func() []fw.Case {
	var list []fw.Case
	for _, num := range []int{st.Dense, st.Gapped, st.Descending} {
		for _, ord := range []int{st.Insertion, st.Reverse, st.Rotated, st.Ascending, st.DescendingOrder} {
			if num != st.Dense || ord != st.Insertion {
				list = append(list, fw.Case{Num: num, Ord: ord})
			}
		}
	}
	list = append(list, fw.Case{Num: st.Spread, Ord: st.Rotated}, fw.Case{Num: st.Extreme, Ord: st.Insertion}, fw.Case{Num: st.Shared, Ord: st.Reverse}, fw.Case{Num: st.Descending, Ord: st.Own}, fw.Case{Num: st.Dense, Ord: st.Own})
	return append(list, fw.Case{Clew: true})
}()

func execStorages(c *fw.Case, r *fw.Rec) {
	ops := c.Ops
	if len(c.Strs) > 0 {
		ops = nil
		for i, s := range c.Strs {
			ops = append(ops, fw.Op{K: "S", O: s, P: c.Strs[(i*c.N+1)%len(c.Strs)]})
		}
	}
	base := newEnv(&fw.Case{}, r)
	var growth []int
	for _, op := range ops {
		base.must(op)
		growth = append(growth, base.Probe.Creates)
	}
	want := base.askAll(qAll)
	for _, cfg := range configs {
		cfg.Var = c.Var
		e := newEnv(&cfg, r)
		for k, op := range ops {
			op = e.prepare(op)
			h, err := e.do(op)
			if err != nil {
				r.Fail("%s: %s fails: %s", configName(cfg), op, describe(err))
			}
			if e.Probe.Creates != growth[k] {
				r.Fail("on %s, %s adds %d nodes, with dense ascending numbering and insertion order %d", configName(cfg), op, e.Probe.Creates, growth[k])
			}
			e.add(op, h)
		}
		got := e.askAll(qAll)
		r.Evaluations += int64(len(got))
		e.compare("on "+configName(cfg)+", compared with dense ascending numbering and insertion order", want, got)
		g := e.open()
		for i := range e.H {
			h, err := e.G[g].GetRemark(e.IDs[i])
			if err != nil {
				r.Fail("on %s, looking up r%d through a newly opened graph: %s", configName(cfg), i, describe(err))
			}
			if a := e.ask(e.G[g], h, qAll); a != want[i] {
				r.Fail("on %s, reopened: answers of r%d differ:\n  got  %s\n  want %s", configName(cfg), i, a, want[i])
			}
		}
		e.state()
		r.Traces++
	}
	r.Outcome(hashAnswers(want))
	if r.Sampling() {
		r.Sample("%s: same answers on %d storages", fw.Show(ops), len(configs)+1)
	}
}

func configName(c fw.Case) string {
	if c.Clew {
		return "the clew storage"
	}
	return fmt.Sprintf("a storage with %s numbering and neighbours in %s order",
		[]string{"dense", "gapped", "descending", "widely spread", "extreme", "shared"}[c.Num], []string{"insertion", "reverse", "rotated", "ascending", "descending", "insertion (its own lists)"}[c.Ord])
}

func genStorages(tier string, emit func(fw.Case) bool) {
	depth, long := 4, 36
	if tier == "thorough" {
		depth, long = 5, 90
	}
	ok := focussed("short histories", 3, "SFRC", distinct, emit) && scale(long, 14, emit)
	for _, list := range [][]string{
		words([]rune{'a', 'Â', 'b'}, 3), phrases([]string{"a", "ab", "b"}, 3), words([]rune{'0', 'a', 'Â', '\x00', '中'}, 2),
		phrases([]string{"x", "y", "z", "xy", "yz"}, 2), words([]rune("abcdefgh"), 2),
	} {
		for n := 1; n < 4 && ok; n++ {
			ok = emit(fw.Case{Fam: "texts with wide branching", Strs: list, N: n})
		}
	}
	if ok {
		ok = focussed("all operations, two colliding texts", depth, "SFRC", collide, emit)
	}
	if ok {
		n := 3
		if tier == "thorough" {
			n = 4
		}
		focussed("sequences of colliding texts", n, "S", fixed(textPairs...), emit)
	}
}

// C18

func execHas(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	e.mustAll(c.Ops)
	e.settle()
	limit := len(e.H) + 1
	for i, h := range e.H {
		for _, x := range []api.Remark{h, e.lookup(0, i)} {
			a := e.ask(e.G[0], x, qNextRemark|qNextFact|qNextStory)
			for _, n := range []struct {
				name string
				nav  Nav
			}{{"next remark", a.NR}, {"next fact", a.NF}, {"next story", a.NS}} {
				r.Evaluations++
				if n.nav.Odd != "" {
					r.Fail("%s of r%d: %s", n.name, i, n.nav.Odd)
				}
				if n.nav.HasErr {
					r.Fail("asking r%d whether it has a %s fails", i, n.name)
				}
				if n.nav.Has != (n.nav.To >= 0) {
					r.Fail("%s of r%d: %s", n.name, i, n.nav)
				}
			}
			for k, step := range []func(api.Remark) (bool, api.Remark, error){
				func(x api.Remark) (bool, api.Remark, error) {
					b, _ := x.HasNextRemark()
					n, err := x.NextRemark()
					return b, n, err
				},
				func(x api.Remark) (bool, api.Remark, error) {
					b, _ := x.HasNextFact()
					n, err := x.NextFact()
					return b, n, err
				},
				func(x api.Remark) (bool, api.Remark, error) {
					b, _ := x.HasNextStory()
					n, err := x.NextStory()
					return b, n, err
				},
			} {
				y := x
				for count := 0; ; count++ {
					e.Probe.Reset()
					has, next, err := step(y)
					r.Queries += 2
					if has != (err == nil) {
						r.Fail("following next %s links from r%d: after %d steps has=%v, get error=%v", []string{"remark", "fact", "story"}[k], i, count, has, err)
					}
					if err != nil {
						break
					}
					if count > limit {
						r.Fail("following next %s links from r%d does not end: %d steps among %d remarks", []string{"remark", "fact", "story"}[k], i, count, len(e.H))
					}
					y = next
				}
			}
		}
	}
	r.Outcome(hashAnswers(e.askAll(qNextRemark | qNextFact | qNextStory)))
	e.finish(c.Ops)
}

// C19

func execRender(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	var shown []string // rendering of each story
	for i, op := range c.Ops {
		e.must(op)
		if i < len(c.Ops)-1 && c.Mode != 1 && i < len(c.Ops)-2 {
			continue
		}
		e.settle()
		now := make([]string, len(e.W.Stories))
		for k, h := range e.H {
			s := e.W.StoryOf(k)
			first := e.W.FirstRemarkOf(s)
			want := ""
			x := e.H[first]
			for count := 0; ; count++ {
				o, p, err := x.Text()
				if err != nil {
					r.Fail("text of a remark of the first fact of story %d fails: %s", s, describe(err))
				}
				if count == 0 {
					o, p = e.W.Remarks[first].Obj, e.W.Remarks[first].Prop
				}
				want += o + " " + p + " "
				has, err := x.HasNextRemark()
				if err != nil || !has || count > len(e.H) {
					break
				}
				if x, err = x.NextRemark(); err != nil {
					r.Fail("next remark in the first fact of story %d fails: %s", s, describe(err))
				}
			}
			for n, y := range []api.Remark{h, e.lookup(0, k)} {
				e.Probe.Reset()
				got, err := e.G[0].Render(y)
				r.Evaluations++
				if err != nil {
					r.Fail("rendering from r%d fails: %s", k, describe(err))
				}
				if got != want {
					r.Fail("rendering from r%d (handle %d): %q, want %q", k, n, cut(got), cut(want))
				}
				now[s] = got
			}
		}
		for s, text := range shown {
			n := len(e.W.Remarks) - 1
			if op.K == "R" && e.W.Remarks[n].Fact == e.W.Stories[s].Facts[0] {
				continue
			}
			if now[s] != text {
				r.Fail("%s changes the rendering of story %d from %q to %q", op, s, cut(text), cut(now[s]))
			}
		}
		shown = now
	}
	for _, s := range shown {
		h := uint64(0)
		for _, b := range []byte(s) {
			h = h*131 + uint64(b)
		}
		r.Outcome(h)
	}
	e.finish(c.Ops)
}

// general families for the checks that watch all operations

func genOps(tier string, emit func(fw.Case) bool) { genOpsAt(tier, 4, 5, emit) }

func genQueries(tier string, emit func(fw.Case) bool) {
	for _, clew := range []bool{false, true} {
		if !emit(fw.Case{Fam: "empty store", Clew: clew}) {
			return
		}
	}
	if internalQueries(tier, emit) {
		genOpsDeep(tier, emit)
	}
}

// internalQueries emits histories after which the internal packages are asked.
func internalQueries(tier string, emit func(fw.Case) bool) bool {
	n := 3
	if tier == "thorough" {
		n = 4
	}
	ok := true
	for d := 1; d <= n && ok; d++ {
		for _, texts := range []func(int) []Pair{same, distinct, collide} {
			ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "internal queries", Ops: ops, N: 2})
			})
		}
	}
	for _, p := range patterns {
		for _, size := range []int{9, 30} {
			ok = ok && emit(fw.Case{Fam: "internal queries on long histories", Ops: p.make(size), N: 2})
		}
	}
	for _, cfg := range configs {
		for d := 1; d <= 2 && ok; d++ {
			ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				cfg.Fam, cfg.Ops, cfg.N = "internal queries on other storages", ops, 2
				return emit(cfg)
			})
		}
	}
	return ok
}

func genOpsDeep(tier string, emit func(fw.Case) bool) { genOpsAt(tier, 5, 6, emit) }

func genOpsAt(tier string, quick, thorough int, emit func(fw.Case) bool) {
	n, max, step := quick, 36, 7
	if tier == "thorough" {
		n, max, step = thorough, 100, 5
	}
	ok := focussed("short histories", 3, "SFRC", distinct, emit)
	if ok {
		ok = scale(max, step, emit)
	}
	if ok {
		ok = watched("judged after every step", n-1, "SFRC", collide, emit)
	}
	if ok && varied(tier, "SFRC", emit) {
		structural("SFRC", depths{collide: n, same: n, distinct: n, lookup: n}, emit)
	}
}

func opsChecks() []*fw.Check {
	mk := func(id, rule string, gen func(string, func(fw.Case) bool), exec func(*fw.Case, *fw.Rec)) *fw.Check {
		return &fw.Check{ID: id, Level: "model_checking", Rule: rule, Assumptions: []string{assumeSequential, assumeMem}, Gen: gen, Exec: exec}
	}
	return []*fw.Check{
		mk("C04", "after every history, every malformed text in every place of every creating operation on every remark: it has to be refused without a panic, twice; all answers stay as they were; then the same operation with valid texts made of the same words and one of each other operation give the answers of a store without the refused call", genMalformed, execMalformed),
		mk("C08", "after every history, all answers about all remarks are recorded, one more operation is performed, and all answers about remarks of other stories have to be the same (but for the next story of the previous sibling of a new child story)", genOpsDeep, execIsolation),
		mk("C14", "in the empty store and in every store reached by a history, every query on every remark, through the original handle, a looked-up handle and a newly opened graph, in two orders, and every identifier below 400 looked up: no storage access may change anything, and the answers are the same each time; likewise the package's internal queries (navigation between facts, records read from nodes, classes)", genQueries, execQueries),
		mk("C15", "every history is executed on 21 storages (numberings x neighbour orders, and clew; some return lists of their own instead of copies) and all answers, also after reopening, and the number of nodes each operation adds have to be the same", genStorages, execStorages),
		mk("C16", "every storage access of every history and of all queries after it is watched: identifiers must have been handed out, references are never redirected, nothing is removed; likewise in the package's internal queries, and when an access of the last operation fails, whichever it is, and in the operations and queries that follow", genMonitor, execMonitor),
		mk("C18", "in every store reached by a history, for every remark and each navigation: asking does not fail, agrees with getting, also at every remark reached, and following the links ends", genOpsDeep, execHas),
		mk("C19", "in every store reached by a history, rendering from every remark, through two handles, is compared with a rendering computed from the first remark of the model's first fact by next-remark navigation, and with the rendering before the last operation", genOpsDeep, execRender),
	}
}
