package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

var faultNames = []string{"no fault", "access fails without effect", "access fails but has its effect", "process dies before the access", "process dies after the access", "this and all later accesses fail"}

// C12

// a question is a query put to a handle or a graph
type question struct {
	name string
	ask  func(g api.Graph, h api.Remark, id uint) error
}

var questions = []question{
	{"GetObjectAndProperty", func(g api.Graph, h api.Remark, id uint) error { _, _, err := h.Text(); return err }},
	{"HasNextRemark", func(g api.Graph, h api.Remark, id uint) error { _, err := h.HasNextRemark(); return err }},
	{"GetNextRemark", func(g api.Graph, h api.Remark, id uint) error { _, err := h.NextRemark(); return err }},
	{"HasNextFact", func(g api.Graph, h api.Remark, id uint) error { _, err := h.HasNextFact(); return err }},
	{"GetNextFact", func(g api.Graph, h api.Remark, id uint) error { _, err := h.NextFact(); return err }},
	{"GetFirstFact", func(g api.Graph, h api.Remark, id uint) error { _, err := h.FirstFact(); return err }},
	{"HasNextStory", func(g api.Graph, h api.Remark, id uint) error { _, err := h.HasNextStory(); return err }},
	{"GetNextStory", func(g api.Graph, h api.Remark, id uint) error { _, err := h.NextStory(); return err }},
	{"GetRemark", func(g api.Graph, h api.Remark, id uint) error { _, err := g.GetRemark(id); return err }},
	{"GetStory (rendering)", func(g api.Graph, h api.Remark, id uint) error { _, err := g.Render(h); return err }},
}

// Modes of fault cases.
const (
	mSame  = iota // through the graph and handles that made the store
	mFresh        // through a graph opened for the call
)

// innerQuestion is a query to the library's internal packages.
type innerQuestion struct {
	name string
	ask  func() (string, error)
}

// guarded turns a panic into an error.
func (q innerQuestion) guarded() (answer string, err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &api.Panic{Value: v, Stack: cut(string(debug.Stack()))}
		}
	}()
	return q.ask()
}

// execReported: Mode; N = 0: the last operation is hit, N = 1: the queries are,
// N = 2: the queries of the internal packages are, N = 3: the last operation is,
// after it has been interrupted once.
func execReported(c *fw.Case, r *fw.Rec) {
	faults := []int{st.FailBefore, st.FailAfter, st.FailFrom}
	judge := func(e *Env, what string, k, fault int, err error) {
		r.Evaluations++
		if err == nil {
			r.Fail("%s reports success although access %d (%s) %s", what, k, e.Probe.HitName(), faultNames[fault])
		}
		if isUnexpected(err) {
			r.Fail("%s, access %d (%s) %s: %s", what, k, e.Probe.HitName(), faultNames[fault], describe(err))
		}
		r.Outcome(uint64(k)<<16 + uint64(e.Probe.HitKind)<<8 + uint64(fault))
	}
	kind := func(e *Env) { // M: kind of error
		if c.M > 0 {
			e.Probe.Err = st.Errors[c.M/2]
			e.Probe.Answer = c.M%2 == 1
		}
	}
	if c.N == 2 {
		e := newEnv(c, r)
		e.mustAll(c.Ops)
		for _, q := range innerQuestions(e) {
			for _, fault := range []int{st.FailBefore, st.FailFrom} {
				for k := 1; ; k++ {
					e.Probe.Arm(k, fault)
					_, err := q.guarded()
					if !e.Probe.Hit {
						break
					}
					judge(e, q.name, k, fault, err)
					r.Nontrivial++
				}
			}
		}
		e.Probe.Reset()
		e.finish(c.Ops)
		return
	}
	if c.N == 1 {
		e := newEnv(c, r)
		e.mustAll(c.Ops)
		kind(e)
		for i := range e.H {
			for _, q := range questions {
				for _, fault := range faults {
					for k := 1; ; k++ {
						g, h := 0, e.H[i]
						if c.Mode == mFresh {
							e.G = e.G[:1]
							g = e.open()
							h = e.lookup(g, i)
						}
						e.Probe.Arm(k, fault)
						err := q.ask(e.G[g], h, e.IDs[i])
						hit := e.Probe.Hit
						if hit {
							judge(e, fmt.Sprintf("%s of r%d", q.name, i), k, fault, err)
						}
						e.Probe.Reset()
						if !hit {
							break
						}
						r.Nontrivial++
					}
				}
			}
		}
		e.finish(c.Ops)
		return
	}
	n := len(c.Ops) - 1
	op := c.Ops[n]
	base := newEnv(c, r)
	base.mustAll(c.Ops[:n])
	if c.N == 3 {
		reportedAgain(c, r, base, judge)
		return
	}
	for _, fault := range faults {
		for k := 1; ; k++ {
			var e *Env
			if c.Mode == mFresh {
				e = adopt(base.Mem.Clone(), base.IDs, r, "")
			} else {
				e = newEnv(c, r)
				e.mustAll(c.Ops[:n])
			}
			var target api.Remark
			if op.K != "S" {
				target = e.H[op.T]
			}
			kind(e)
			e.Probe.Arm(k, fault)
			_, err := call(e.G[0], target, op)
			r.Transitions++
			if !e.Probe.Hit {
				r.Traces++
				break
			}
			if fault == st.FailAfter && !e.Probe.Answer && !st.Mutates(e.Probe.HitKind) {
				continue // the same as failing before
			}
			judge(e, op.String(), k, fault, err)
			r.Nontrivial++
			e.state()
		}
	}
	if r.Sampling() {
		r.Sample("%s; then %s with each of its storage accesses failing in turn: always an error", fw.Show(c.Ops[:n]), op)
	}
}

// reportedAgain interrupts the last operation at every access and lets it fail at
// every access when it is tried again.
func reportedAgain(c *fw.Case, r *fw.Rec, base *Env, judge func(e *Env, what string, k, fault int, err error)) {
	n := len(c.Ops) - 1
	op := c.Ops[n]
	start := func(e *Env) (target api.Remark) {
		if op.K != "S" {
			target = e.H[op.T]
		}
		return target
	}
	for first := 1; ; first++ {
		var left *st.Mem // what the interruption leaves
		for k := 1; ; k++ {
			var e *Env
			if c.Mode == mFresh && left != nil {
				e = adopt(left.Clone(), base.IDs, r, "after the interruption: ")
			} else {
				if c.Mode == mFresh {
					e = adopt(base.Mem.Clone(), base.IDs, r, "")
				} else {
					e = newEnv(c, r)
					e.mustAll(c.Ops[:n])
				}
				e.Probe.Arm(first, st.FailBefore)
				call(e.G[0], start(e), op)
				if !e.Probe.Hit {
					r.Traces++
					return
				}
				if c.Mode == mFresh {
					if !st.Mutates(e.Probe.HitKind) {
						break // leaves the same as an interruption at the next change
					}
					left = e.Mem
					e = adopt(left.Clone(), base.IDs, r, "after the interruption: ")
				}
			}
			e.Probe.Arm(k, st.FailBefore)
			_, err := call(e.G[0], start(e), op)
			r.Transitions++
			if !e.Probe.Hit {
				break
			}
			judge(e, fmt.Sprintf("%s, tried again after a failure of its access %d,", op, first), k, st.FailBefore, err)
			r.Nontrivial++
		}
	}
}

// Follow-up texts: some all new, some sharing, some already stored.
var faultPairs = []Pair{{"a", "b a"}, {"ab c", "a b"}, {"c", "c"}}

func genReported(tier string, emit func(fw.Case) bool) {
	depth, max, step := 2, 24, 8
	if tier == "thorough" {
		depth, max, step = 3, 60, 9
	}
	both := func(k fw.Case) bool {
		for _, mode := range []int{mSame, mFresh} {
			k.Mode = mode
			if !emit(k) {
				return false
			}
		}
		return true
	}
	ok := true
	for _, p := range append(append([]Pair{}, textPairs...), Pair{"abcdefg", "a b c d e f g"}) {
		ok = ok && both(fw.Case{Fam: "first operation on an empty store", Ops: []fw.Op{{K: "S", O: p.O, P: p.P}}})
	}
	for d := 1; d <= depth && ok; d++ {
		ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			return both(fw.Case{Fam: "tried again after an interruption", Ops: ops, N: 3})
		})
	}
	for d := 1; d <= depth+1 && ok; d++ {
		ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "internal queries", Ops: ops, N: 2})
		})
	}
	for _, p := range patterns {
		ok = ok && emit(fw.Case{Fam: "internal queries on long histories", Ops: p.make(9), N: 2})
	}
	for d := 1; d <= depth+1 && ok; d++ {
		ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			return both(fw.Case{Fam: "queries", Ops: ops, N: 1})
		})
	}
	for size := 8; size <= max && ok; size += step {
		for _, p := range patterns {
			ok = ok && both(fw.Case{Fam: "queries on long histories", Ops: p.make(size), N: 1})
		}
	}
	for d := 2; d <= depth+1 && ok; d++ {
		texts := collide
		if d == 2 {
			texts = fixed(faultPairs...)
		}
		ok = histories(d, "SFRC", texts, func(ops []fw.Op) bool {
			return both(fw.Case{Fam: "operations", Ops: ops})
		})
	}
	for size := 8; size <= max && ok; size += step {
		for _, p := range patterns {
			both := both
			if size > 8 && tier != "thorough" { // no need to repeat the long history each time
				both = func(k fw.Case) bool { k.Mode = mFresh; return emit(k) }
			}
			ops := p.make(size)
			for _, kind := range "SFRC" {
				op := fw.Op{K: string(kind), T: size / 2, O: "oa u", P: "s oa"}
				ok = ok && both(fw.Case{Fam: "operations after long histories", Ops: append(ops[:size:size], op)})
			}
		}
	}
	for m := 1; m < 2*len(st.Errors); m++ {
		for d := 1; d <= 2 && ok; d++ {
			texts := same
			if m == 1 {
				texts = collide
			}
			ok = histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return both(fw.Case{Fam: "kinds of errors", Ops: ops, M: m}) && both(fw.Case{Fam: "kinds of errors", Ops: ops, M: m, N: 1})
			})
		}
		ops := []fw.Op{{K: "S", O: "a", P: "a"}, {K: "F", T: 0, O: "a", P: "b a"}, {K: "C", T: 0, O: "a", P: "a"}, {K: "C", T: 1, O: "b", P: "a"}, {K: "F", T: 1, O: "c", P: "b"}}
		ok = ok && both(fw.Case{Fam: "kinds of errors", Ops: ops, M: m, N: 1})
		for _, k := range "SFRC" {
			ok = ok && emit(fw.Case{Fam: "kinds of errors", Ops: append(ops[:5:5], fw.Op{K: string(k), T: 3, O: "ab", P: "d"}), M: m, Mode: mFresh})
		}
	}
	for _, cfg := range configs {
		if cfg.Clew {
			continue
		}
		for d := 1; d <= 2 && ok; d++ {
			ok = histories(d, "SFRC", collide, func(ops []fw.Op) bool {
				for n := 0; n < 2; n++ {
					if !both(fw.Case{Fam: "other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, N: n}) {
						return false
					}
				}
				return true
			})
		}
		for _, p := range patterns {
			ok = ok && both(fw.Case{Fam: "queries on long histories, other storages", Ops: p.make(9), N: 1, Num: cfg.Num, Ord: cfg.Ord})
		}
	}
	for d := 2; d <= 2 && ok; d++ {
		ok = histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
			return both(fw.Case{Fam: "texts sharing parts", Ops: ops})
		})
	}
}

// C13

// adopt opens a graph, as a new process would, on a storage with known
// remarks.
func adopt(mem *st.Mem, ids []uint, r *fw.Rec, told string) *Env {
	e := &Env{R: r, ByID: map[uint]int{}, Mem: mem, Probe: st.NewProbe(mem), NoModel: true}
	e.G = []api.Graph{api.Open(e.Probe)}
	e.IDs = append([]uint(nil), ids...)
	for i, id := range ids {
		h, err := e.G[0].GetRemark(id)
		if err != nil {
			r.Fail("%slooking up r%d fails: %s", told, i, describe(err))
		}
		e.H = append(e.H, h)
		e.ByID[id] = i
	}
	return e
}

// view is everything that can be seen of a store: the answers of all known
// remarks, and of the remarks of unknown identity that navigation leads to.
func (e *Env) view() []string {
	ghosts := map[uint]api.Remark{}
	var queue []api.Remark
	name := func(h api.Remark) int {
		id := h.ID()
		if i, ok := e.ByID[id]; ok {
			return i
		}
		if _, ok := ghosts[id]; !ok {
			ghosts[id] = h
			queue = append(queue, h)
		}
		return unknown
	}
	asked := func(h api.Remark) string {
		var a Answers
		e.Probe.Reset()
		var err error
		a.Obj, a.Prop, err = h.Text()
		a.TextErr = errText(err)
		for _, q := range []struct {
			n   *Nav
			has func() (bool, error)
			get func() (api.Remark, error)
		}{{&a.NR, h.HasNextRemark, h.NextRemark}, {&a.NF, h.HasNextFact, h.NextFact}, {&a.FF, nil, h.FirstFact}, {&a.NS, h.HasNextStory, h.NextStory}} {
			n := Nav{To: -1}
			if q.has != nil {
				b, err := q.has()
				n.Has, n.HasErr, n.Odd = b, err != nil, odd(err)
			}
			x, err := q.get()
			if err == nil {
				n.To = name(x)
			} else {
				n.Odd += odd(err)
			}
			*q.n = n
		}
		a.Render, err = e.G[0].Render(h)
		a.RenderErr = errText(err)
		e.R.Queries += 9
		return a.String()
	}
	var result []string
	for i, h := range e.H {
		result = append(result, fmt.Sprintf("r%d: %s", i, asked(h)))
	}
	var seen []string
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		seen = append(seen, "interrupted remark: "+asked(h))
	}
	sort.Strings(seen)
	return append(result, seen...)
}

// visible is a history as far as it is visible: ghost operations were
// completed without their results being known.
type visible struct {
	ops   []fw.Op
	ghost []bool
}

func (v visible) and(op fw.Op, ghost bool) visible {
	n := len(v.ops)
	return visible{append(v.ops[:n:n], op), append(v.ghost[:n:n], ghost)}
}

// faulty is the exploration of one case.
type faulty struct {
	r     *fw.Rec
	cfg   fw.Case
	cache map[string][]string
	seen  map[uint64]bool // contents from which reopening has been explored
	known int             // nodes added by a story of known texts
}

// run is an execution under faults.
type run struct {
	e      *Env
	worlds []visible // what may be visible, all of which has been consistent
	told   string
}

// want is the view of a store after a history without faults.
func (f *faulty) want(v visible) []string {
	key := fmt.Sprint(v)
	if w, ok := f.cache[key]; ok {
		return w
	}
	e := newEnv(&f.cfg, f.r)
	e.NoModel = true
	for i, op := range v.ops {
		h, err := e.do(op)
		if err != nil {
			f.r.Fail("without any fault, operation %d of %s fails: %s", i, fw.Show(v.ops), describe(err))
		}
		if !v.ghost[i] {
			e.add(op, h)
		}
	}
	w := e.view()
	f.cache[key] = w
	return w
}

// clean performs operations without a fault.
func (f *faulty) clean(ops []fw.Op) *run {
	e := newEnv(&f.cfg, f.r)
	e.NoModel = true
	v := visible{}
	for _, op := range ops {
		e.must(op)
		v = v.and(op, false)
	}
	return &run{e: e, worlds: []visible{v}}
}

// reopened continues a run in a new process on a copy of the storage.
func (f *faulty) reopened(x *run) *run {
	return &run{e: adopt(x.e.Mem.Clone(), x.e.IDs, f.r, x.told), worlds: x.worlds, told: x.told}
}

// kinds are the storage accesses an operation makes next.
func (f *faulty) kinds(x *run, op fw.Op) []byte {
	y := f.reopened(x)
	y.e.Probe.Record = true
	y.e.do(op)
	return append([]byte(nil), y.e.Probe.Kinds...)
}

// interrupt performs an operation with a fault.
func (f *faulty) interrupt(x *run, op fw.Op, fault, at int) (hit bool) {
	target, err := x.e.receiver(op)
	if err != nil {
		f.r.Fail("%slooking up r%d fails: %s", x.told, op.T, describe(err))
	}
	x.e.Probe.Arm(at, fault)
	h, err := call(x.e.G[0], target, op)
	f.r.Transitions++
	hit = x.e.Probe.Hit
	kind := x.e.Probe.HitName()
	x.e.Probe.Reset()
	if !hit {
		return false
	}
	x.told += fmt.Sprintf("%s, access %d (%s): %s; ", op, at, kind, faultNames[fault])
	if err == nil { // it claims to be complete
		x.told += "reports success; "
		x.e.add(op, h)
		for i := range x.worlds {
			x.worlds[i] = x.worlds[i].and(op, false)
		}
		return true
	}
	if isUnexpected(err) {
		f.r.Fail("%s%s", x.told, describe(err))
	}
	var next []visible
	for _, v := range x.worlds {
		next = append(next, v, v.and(op, true))
	}
	x.worlds = next
	return true
}

// then performs operations without faults.
func (f *faulty) then(x *run, ops ...fw.Op) {
	for _, op := range ops {
		h, err := x.e.do(op)
		if err != nil {
			f.r.Fail("%sthen %s fails: %s", x.told, op, describe(err))
		}
		x.e.add(op, h)
		var next []visible
		for _, v := range x.worlds {
			next = append(next, v.and(op, false))
		}
		x.worlds = next
		x.told += op.String() + "; "
	}
}

// judge keeps the histories consistent with what is visible.
func (f *faulty) judge(x *run) {
	r := f.r
	r.Evaluations++
	r.Nontrivial++
	x.e.state()
	got := x.e.view()
	var next []visible
	closest := ""
	for _, v := range x.worlds {
		want := f.want(v)
		if equal(got, want) {
			next = append(next, v)
		} else {
			closest += "\n  compared with " + fw.Show(v.ops) + ":\n    " + difference(got, want)
		}
	}
	if len(next) == 0 {
		r.Fail("%sthe store is neither as if the interrupted operation had not been called nor as if it had been completed:%s", x.told, closest)
	}
	x.worlds = next
	hash := fnv.New64a()
	fmt.Fprintln(hash, got)
	r.Outcome(hash.Sum64())
	if r.Sampling() {
		r.Sample("%s=> %s", x.told, strings.Join(got, " | "))
	}
}

// shares stores the texts of operations again: all are known, so that each
// new story adds as many nodes as any other of known texts.
func (f *faulty) shares(x *run, ops []fw.Op) {
	if f.known == 0 {
		e := newEnv(&f.cfg, f.r)
		e.must(fw.Op{K: "S", O: "a", P: "b"})
		e.must(fw.Op{K: "S", O: "a", P: "b"})
		f.known = e.Probe.Creates
	}
	for _, op := range ops {
		if op.K == "R" {
			continue
		}
		again := fw.Op{K: "S", O: op.O, P: op.P}
		if _, err := x.e.do(again); err != nil {
			f.r.Fail("%sthen %s fails: %s", x.told, again, describe(err))
		}
		f.r.Evaluations++
		if x.e.Probe.Creates != f.known {
			f.r.Fail("%sthen storing (%q, %q) again adds %d nodes instead of %d: what is already stored is not reused", x.told, op.O, op.P, x.e.Probe.Creates, f.known)
		}
	}
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func difference(got, want []string) string {
	for i := range got {
		if i >= len(want) {
			return "got " + got[i] + "\n    want nothing more"
		}
		if got[i] != want[i] {
			return "got  " + got[i] + "\n    want " + want[i]
		}
	}
	if len(want) > len(got) {
		return "got nothing more\n    want " + want[len(got)]
	}
	return ""
}

func after(x fw.Op, remarks int) []fw.Op {
	ops := []fw.Op{x}
	remarks++
	last := remarks - 1
	ops = append(ops, fw.Op{K: "F", T: 0, O: x.P, P: "b c"}, fw.Op{K: "C", T: last, O: "a", P: x.P}, fw.Op{K: "R", T: last, P: "c"},
		fw.Op{K: "C", T: 0, O: "a b", P: "b"}, fw.Op{K: "S", O: "ab", P: x.P}, fw.Op{K: "F", T: last, O: "a b", P: "a"})
	return ops
}

// mutations are the positions of the accesses that change the storage.
func mutations(kinds []byte) []int {
	var list []int
	for i, k := range kinds {
		if st.Mutates(int(k)) {
			list = append(list, i+1)
		}
	}
	return list
}

// Ways of going on after an interruption.
const (
	oRetry      = iota // the same operation, then one of each other
	oOthers            // one of each other, then the same
	oTwice             // the same, interrupted too; then as oRetry
	oTwiceOther        // another one, interrupted too; then as oRetry
	oQueries
)

func others(x fw.Op, remarks int) []fw.Op {
	if remarks == 0 {
		return append([]fw.Op{{K: "S", O: x.P, P: "a"}}, after(fw.Op{K: "F", T: 0, O: x.O + "b", P: x.O}, 1)...)
	}
	return []fw.Op{{K: "F", T: 0, O: x.P, P: "a"}, {K: "C", T: 0, O: x.P, P: "a"}, {K: "R", T: 0, P: x.P}, x}
}

// execInterrupted: the last operation is interrupted at every access. M: how
// it goes on. Mode 1: only process deaths.
func execInterrupted(c *fw.Case, r *fw.Rec) {
	f := &faulty{r, fw.Case{Num: c.Num, Ord: c.Ord}, map[string][]string{}, map[uint64]bool{}, 0}
	n := len(c.Ops) - 1
	x := c.Ops[n]
	before := f.clean(c.Ops[:n])
	// again: one more process takes over after the first operation
	goOn := func(y *run, again bool) {
		f.judge(y)
		list := after(x, n)
		if c.M == oOthers {
			list = others(x, n)
		}
		f.then(y, list[0])
		if again {
			y = f.reopened(y)
			y.told += "(opened anew) "
		}
		if c.M != oOthers {
			f.judge(y)
		}
		f.then(y, list[1:]...)
		f.judge(y)
		if !again {
			y = f.reopened(y)
			y.told += "(opened anew) "
			f.judge(y)
		}
		if c.M != oOthers || n > 0 { // otherwise it is not tried again
			f.shares(y, append(c.Ops[:n:n], x))
		}
		r.Traces++
	}
	kinds := f.kinds(before, x)
	// the process dies after an access, and a new process goes on
	dead := func(fault, k int, keep func(y *run)) {
		y := f.reopened(before)
		if !f.interrupt(y, x, fault, k) {
			return
		}
		fp := y.e.Mem.Fingerprint()
		if f.seen[fp] {
			return
		}
		f.seen[fp] = true
		keep(f.reopened(y))
	}
	switch c.M {
	case oRetry, oOthers:
		another := func(y *run) { goOn(y, true) }
		dead(st.CrashBefore, 1, another)
		for _, k := range mutations(kinds) {
			dead(st.CrashAfter, k, another)
		}
		if c.Mode == 1 {
			return
		}
		// an access fails, and the same graph or a new one goes on
		for k := 1; ; k++ {
			y := f.clean(c.Ops[:n])
			if !f.interrupt(y, x, st.FailBefore, k) {
				break
			}
			if fp := y.e.Mem.Fingerprint(); !f.seen[fp] {
				f.seen[fp] = true
				goOn(f.reopened(y), true)
			}
			goOn(y, false)
		}
		for _, k := range mutations(kinds) {
			y := f.clean(c.Ops[:n])
			if !f.interrupt(y, x, st.FailAfter, k) {
				break
			}
			if fp := y.e.Mem.Fingerprint(); !f.seen[fp] {
				f.seen[fp] = true
				goOn(f.reopened(y), true)
			}
			goOn(y, false)
		}
	case oTwice, oTwiceOther:
		z := x
		if c.M == oTwiceOther {
			z = fw.Op{K: "S", O: x.P, P: "b b"}
			if n > 0 {
				z = fw.Op{K: "C", T: 0, O: x.P, P: "b b"}
			}
		}
		for _, k := range mutations(kinds) {
			dead(st.CrashAfter, k, func(y *run) {
				for _, k2 := range mutations(f.kinds(y, z)) {
					a := f.reopened(y)
					if !f.interrupt(a, z, st.CrashAfter, k2) {
						continue
					}
					fp := a.e.Mem.Fingerprint()
					if f.seen[fp] {
						continue
					}
					f.seen[fp] = true
					b := f.reopened(a)
					list := after(x, n)
					f.then(b, list[0])
					b = f.reopened(b)
					b.told += "(opened anew) "
					f.then(b, list[1:]...)
					f.judge(b)
					f.shares(b, []fw.Op{x})
					r.Traces++
				}
			})
		}
		if c.Mode == 1 {
			return
		}
		for _, k := range mutations(kinds) {
			for k2 := 1; ; k2++ {
				y := f.clean(c.Ops[:n])
				if !f.interrupt(y, x, st.FailBefore, k) || !f.interrupt(y, z, st.FailBefore, k2) {
					break
				}
				f.then(y, after(x, n)...)
				f.judge(y)
				f.shares(y, []fw.Op{x})
				r.Traces++
			}
		}
	}
}

// execInterruptedQueries: a query fails at every access; asked again it
// answers as before.
func execInterruptedQueries(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	e.mustAll(c.Ops)
	want := e.askAll(qAll)
	for i := range e.H {
		for _, q := range questions {
			for k := 1; ; k++ {
				e.G = e.G[:1]
				g := e.open()
				h := e.lookup(g, i)
				e.Probe.Arm(k, st.FailBefore)
				q.ask(e.G[g], h, e.IDs[i])
				hit := e.Probe.Hit
				e.Probe.Reset()
				if !hit {
					break
				}
				r.Evaluations++
				r.Nontrivial++
				if a := e.ask(e.G[g], h, qAll); a != want[i] {
					r.Fail("after %s of r%d failed at access %d, the same handle answers differently:\n  got  %s\n  want %s", q.name, i, k, a, want[i])
				}
			}
		}
	}
	e.compare("after failed queries", want, e.askAll(qAll))
	e.state()
	r.Traces++
}

func genInterrupted(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	ok := true
	hist := func(fam string, d int, texts func(int) []Pair, mode int, ms ...int) {
		for _, m := range ms {
			ok = ok && histories(d, "SFRC", texts, func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: fam, Ops: ops, M: m, Mode: mode})
			})
		}
	}
	hist("two interruptions", 1, fixed(Pair{"a", "a"}), 1, oTwice, oTwiceOther)
	hist("two interruptions", 2, fixed(Pair{"a", "a"}), 1, oTwice, oTwiceOther)
	for _, p := range append(append([]Pair{}, textPairs...), Pair{"abcdefg", "a b c d e f g"}) {
		for _, m := range []int{oRetry, oOthers} {
			ok = ok && emit(fw.Case{Fam: "first operation on an empty store", Ops: []fw.Op{{K: "S", O: p.O, P: p.P}}, M: m})
		}
	}
	for d := 1; d <= 3 && ok; d++ {
		ok = histories(d, "SFRC", distinct, func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "queries", Ops: ops, M: oQueries})
		})
	}
	hist("one interruption", 2, fixed(faultPairs...), 0, oRetry, oOthers)
	hist("one interruption", 3, same, 0, oRetry, oOthers)
	hist("one interruption", 3, collide, 0, oRetry)
	for _, cfg := range configs {
		for d := 1; d <= 2 && ok && !cfg.Clew; d++ {
			ok = histories(d, "SFRC", fixed(faultPairs[0], faultPairs[2]), func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "one interruption, other storages", Ops: ops, M: oRetry, Num: cfg.Num, Ord: cfg.Ord})
			})
		}
	}
	for _, cfg := range configs {
		if cfg.Num != st.Dense || cfg.Clew {
			continue
		}
		ok = ok && histories(3, "SFRC", same, func(ops []fw.Op) bool {
			k := ops[2].K
			if ops[1].K != k || k == "S" || k == "R" && !thorough {
				return true
			}
			return emit(fw.Case{Fam: "one interruption, other orders", Ops: ops, M: oRetry, Num: cfg.Num, Ord: cfg.Ord})
		})
	}
	for d := 2; d <= 2 && ok; d++ {
		ok = histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "texts sharing parts", Ops: ops, M: oRetry, Mode: 1})
		})
	}
	if thorough && ok {
		hist("one interruption", 4, same, 0, oRetry, oOthers)
		hist("one interruption", 4, distinct, 1, oRetry)
		hist("two interruptions, same graph", 2, fixed(Pair{"a", "a"}), 0, oTwice, oTwiceOther)
		hist("two interruptions", 2, fixed(Pair{"a", "b a"}, Pair{"ab", "a"}), 1, oTwice, oTwiceOther)
		hist("two interruptions", 3, fixed(Pair{"a", "a"}), 1, oTwice)
		ok = ok && histories(3, "S", fixed(textPairs[:8]...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "texts sharing parts", Ops: ops, M: oRetry, Mode: 1})
		})
	}
}

func faultChecks() []*fw.Check {
	return []*fw.Check{
		{ID: "C12", Level: "fault_enumeration", Assumptions: []string{assumeSequential, assumeMem},
			Rule: "every storage access of every operation and query after every history (also the first operation on an empty store, and calls through a newly opened graph) fails in turn: without effect, with its effect, and together with all later accesses, with errors of every kind a storage may return, alone or along with the answer; likewise in the package's internal queries and in an operation tried again after an interruption at any access; the call has to return an error. evaluations: fault placements executed; distinct_nontrivial: those in which the fault was hit",
			Gen:  genReported, Exec: execReported},
		{ID: "C13", Level: "fault_enumeration", Assumptions: []string{assumeSequential, assumeMem, "a process death loses nothing the storage has done", "an interrupted operation counts as visible when navigation from a remark stored earlier leads to its remark"},
			Rule: "every operation after every history is interrupted at every storage access (failing without or with effect, through the same or a reopened graph; process death, after each access that changes the storage, and reopening); then everything visible is compared with two stores without faults: one on which the operation was not called and one on which it was completed; the operation is retried and others follow, everything visible being compared again with what followed in the stores still in question, also after one more process has taken over. Two interruptions in a row likewise",
			Gen:  genInterrupted,
			Exec: func(c *fw.Case, r *fw.Rec) {
				if c.M == oQueries {
					execInterruptedQueries(c, r)
					return
				}
				execInterrupted(c, r)
			}},
	}
}
