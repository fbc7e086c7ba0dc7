package main

import (
	"errors"
	"fmt"
	"hash/fnv"

	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/md"
	"github.com/mem-memov/semnet/verifmc/st"
)

// Env is one execution: a storage, graphs opened on it, the reference model
// and the handles of the remarks.
type Env struct {
	Mem   *st.Mem // nil with clew
	Probe *st.Probe
	G     []api.Graph
	W     md.World
	H     []api.Remark // handle returned at creation
	IDs   []uint
	ByID  map[uint]int
	R     *fw.Rec

	NoModel bool

	Var             int // variation
	FailedMutations int // changes made by queries that were made to fail
	twin            *Env

	views bool // every other graph is opened on a storage object of its own
}

// view is another storage object for the same storage.
type view struct{ *st.Probe }

// value is a storage that is not a pointer and cannot be compared.
type value struct {
	*st.Probe
	more []int
}

func newEnv(c *fw.Case, r *fw.Rec) *Env {
	e := &Env{R: r, ByID: map[uint]int{}, Var: c.Var}
	var inner st.Storage
	if c.Clew {
		inner = clew.NewGraph(clew.NewSliceStorage())
	} else {
		e.Mem = st.NewMem(c.Num, c.Ord)
		inner = e.Mem
	}
	e.Probe = st.NewProbe(inner)
	e.G = []api.Graph{api.Open(e.Probe)}
	for i, op := range c.Ops {
		e.views = e.views != ((i+op.T+op.G+len(op.O)+len(op.P))%2 == 1)
	}
	return e
}

// open opens one more graph.
func (e *Env) open() int {
	var storage st.Storage = e.Probe
	if e.views && len(e.G)%2 == 1 {
		storage = &view{e.Probe}
		if len(e.G)%4 == 1 {
			storage = value{Probe: e.Probe}
		}
	}
	e.G = append(e.G, api.Open(storage))
	return len(e.G) - 1
}

// reopen replaces the first graph by a new one, every other time on a
// storage object of its own.
func (e *Env) reopen() {
	if e.views = !e.views; e.views {
		e.G[0] = api.Open(&view{e.Probe})
	} else {
		e.G[0] = api.Open(e.Probe)
	}
}

// handle kinds for the receiver of an operation
const (
	hOriginal = iota
	hLookup
)

func (e *Env) receiver(op fw.Op) (api.Remark, error) {
	if op.K == "S" {
		return nil, nil
	}
	if op.H == hLookup || op.G != 0 {
		return e.G[op.G].GetRemark(e.IDs[op.T])
	}
	return e.H[op.T], nil
}

func call(g api.Graph, target api.Remark, op fw.Op) (api.Remark, error) {
	switch op.K {
	case "S":
		return g.CreateStory(op.O, op.P)
	case "R":
		return target.AddRemark(op.P)
	case "F":
		return target.AddFact(op.O, op.P)
	case "C":
		return target.CreateChild(op.O, op.P)
	}
	panic("unknown operation " + op.K)
}

func model(w *md.World, op fw.Op) int {
	switch op.K {
	case "S":
		return w.CreateStory(op.O, op.P)
	case "R":
		return w.AddRemark(op.T, op.P)
	case "F":
		return w.AddFact(op.T, op.O, op.P)
	case "C":
		return w.CreateChild(op.T, op.O, op.P)
	}
	panic("unknown operation " + op.K)
}

// do performs an operation without judging it.
func (e *Env) do(op fw.Op) (api.Remark, error) {
	target, err := e.receiver(op)
	if err != nil {
		return nil, err
	}
	e.Probe.Reset()
	h, err := call(e.G[op.G], target, op)
	e.R.Transitions++
	e.R.Accesses += int64(e.Probe.Calls)
	return h, err
}

// add notes a remark in the model and the tables.
func (e *Env) add(op fw.Op, h api.Remark) {
	i := len(e.H)
	if !e.NoModel {
		model(&e.W, op)
	}
	e.H = append(e.H, h)
	id := h.ID()
	e.IDs = append(e.IDs, id)
	if _, ok := e.ByID[id]; !ok {
		e.ByID[id] = i
	}
}

// must performs a valid operation, which has to succeed.
func (e *Env) must(op fw.Op) {
	e.perform(e.prepare(op))
}

// prepare does what the variation asks for before an operation.
func (e *Env) prepare(op fw.Op) fw.Op {
	if e.Var != vNone {
		e.vary(&op)
	}
	return op
}

// settle does what the variation asks for before judging.
func (e *Env) settle() {
	if e.Var != vNone {
		e.vary(nil)
	}
}

func (e *Env) perform(op fw.Op) {
	h, err := e.do(op)
	if err != nil {
		e.R.Fail("valid operation %s fails: %s", op, describe(err))
	}
	e.add(op, h)
}

func (e *Env) mustAll(ops []fw.Op) {
	for _, op := range ops {
		e.must(op)
	}
}

func describe(err error) string {
	var p *api.Panic
	if errors.As(err, &p) {
		return p.Error() + "\n" + p.Stack
	}
	return err.Error()
}

// lookup gives a fresh handle, which has to be possible.
func (e *Env) lookup(g int, r int) api.Remark {
	h, err := e.G[g].GetRemark(e.IDs[r])
	if err != nil {
		e.R.Fail("looking up r%d by its identifier %d fails: %s", r, e.IDs[r], describe(err))
	}
	return h
}

// Answer kinds.
const (
	qText = 1 << iota
	qNextRemark
	qNextFact
	qFirstFact
	qNextStory
	qRender
	qAll = 1<<iota - 1
)

// Nav is the answer to a pair of has/get questions.
type Nav struct {
	Has    bool
	HasErr bool
	To     int // index of the remark, -1: error
	Odd    string
}

func (n Nav) String() string {
	s := fmt.Sprintf("has=%v", n.Has)
	if n.HasErr {
		s = "has=error"
	}
	if n.To < 0 {
		s += ",get=error"
	} else {
		s += fmt.Sprintf(",get=r%d", n.To)
	}
	if n.Odd != "" {
		s += "(" + n.Odd + ")"
	}
	return s
}

// Answers are a remark's answers to all queries, with remarks named by the
// order of their creation.
type Answers struct {
	Obj, Prop string
	TextErr   string
	NR, NF    Nav
	FF        Nav
	NS        Nav
	Render    string
	RenderErr string
}

func (a Answers) String() string {
	s := fmt.Sprintf("text=(%q,%q)", cut(a.Obj), cut(a.Prop))
	if a.TextErr != "" {
		s = "text=error:" + a.TextErr
	}
	s += fmt.Sprintf(" nextRemark{%s} nextFact{%s} firstFact{%s} nextStory{%s}", a.NR, a.NF, a.FF, a.NS)
	if a.RenderErr != "" {
		return s + " render=error:" + a.RenderErr
	}
	return s + fmt.Sprintf(" render=%q", cut(a.Render))
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:80] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-80:]
	}
	return s
}

func odd(err error) string {
	if api.Unexpected(err) {
		return describe(err)
	}
	return ""
}

const unknown = 1000000

// name translates a remark handle to the remark's index.
func (e *Env) name(h api.Remark) int {
	id := h.ID()
	if i, ok := e.ByID[id]; ok {
		return i
	}
	i := unknown + len(e.ByID)
	e.ByID[id] = i
	return i
}

func (e *Env) nav(has func() (bool, error), get func() (api.Remark, error)) Nav {
	n := Nav{To: -1}
	if has != nil {
		b, err := has()
		n.Has, n.HasErr = b, err != nil
		n.Odd = odd(err)
	}
	h, err := get()
	if err == nil {
		n.To = e.name(h)
	} else if o := odd(err); o != "" {
		n.Odd += o
	}
	return n
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if o := odd(err); o != "" {
		return o
	}
	return "error"
}

// ask puts the queries in the mask to a handle.
func (e *Env) ask(g api.Graph, h api.Remark, mask int) Answers {
	var a Answers
	e.Probe.Reset()
	if mask&qText != 0 {
		var err error
		a.Obj, a.Prop, err = h.Text()
		a.TextErr = errText(err)
		e.R.Queries++
	}
	if mask&qNextRemark != 0 {
		a.NR = e.nav(h.HasNextRemark, h.NextRemark)
		e.R.Queries += 2
	}
	if mask&qNextFact != 0 {
		a.NF = e.nav(h.HasNextFact, h.NextFact)
		e.R.Queries += 2
	}
	if mask&qFirstFact != 0 {
		a.FF = e.nav(nil, h.FirstFact)
		e.R.Queries++
	}
	if mask&qNextStory != 0 {
		a.NS = e.nav(h.HasNextStory, h.NextStory)
		e.R.Queries += 2
	}
	if mask&qRender != 0 {
		var err error
		a.Render, err = g.Render(h)
		a.RenderErr = errText(err)
		e.R.Queries++
	}
	e.R.Accesses += int64(e.Probe.Calls)
	return a
}

// askAll asks every known remark through its original handle.
func (e *Env) askAll(mask int) []Answers {
	result := make([]Answers, len(e.H))
	for i, h := range e.H {
		result[i] = e.ask(e.G[0], h, mask)
	}
	return result
}

func hashAnswers(list []Answers) uint64 {
	h := fnv.New64a()
	for _, a := range list {
		fmt.Fprintln(h, a)
	}
	return h.Sum64()
}

// state notes the state the storage is in.
func (e *Env) state() {
	if e.Mem != nil {
		e.R.State(e.Mem.Fingerprint())
	}
}

func (e *Env) sameNav(what string, r int, via string, got Nav, want int) {
	if got.Odd != "" {
		e.R.Fail("%s of r%d%s: %s", what, r, via, got.Odd)
	}
	if want < 0 {
		if got.HasErr || got.Has || got.To >= 0 {
			e.R.Fail("%s of r%d%s: %s, but there is none", what, r, via, got)
		}
		return
	}
	if got.HasErr || !got.Has || got.To != want {
		e.R.Fail("%s of r%d%s: %s, want r%d", what, r, via, got, want)
	}
}

// judge compares answers with the reference model.
func (e *Env) judge(r int, via string, a Answers, mask int) {
	w := &e.W
	e.R.Evaluations++
	if mask&qText != 0 {
		m := w.Remarks[r]
		if a.TextErr != "" {
			e.R.Fail("text of r%d%s: %s, want (%q, %q)", r, via, a.TextErr, cut(m.Obj), cut(m.Prop))
		}
		if a.Obj != m.Obj || a.Prop != m.Prop {
			e.R.Fail("text of r%d%s: (%q, %q), want (%q, %q)", r, via, cut(a.Obj), cut(a.Prop), cut(m.Obj), cut(m.Prop))
		}
	}
	if mask&qNextFact != 0 {
		e.sameNav("next fact", r, via, a.NF, w.NextFact(r))
	}
	if mask&qFirstFact != 0 {
		a.FF.Has = true
		e.sameNav("first fact", r, via, a.FF, w.FirstFact(r))
	}
	if mask&qNextStory != 0 {
		e.sameNav("next story", r, via, a.NS, w.NextStory(r))
	}
	if mask&qNextRemark != 0 {
		want := w.NextRemark(r)
		// known finding: there is no next remark where one was added
		if want < 0 || a.NR != (Nav{To: -1}) || !e.R.KnownFinding("C20", "unchained-remarks") {
			e.sameNav("next remark", r, via, a.NR, want)
		}
	}
}

// judgeAll asks and judges every remark through the original handle and a
// handle looked up through graph g.
func (e *Env) judgeAll(mask int, g int) {
	for i, h := range e.H {
		e.judge(i, "", e.ask(e.G[0], h, mask), mask)
		l := e.lookup(g, i)
		e.judge(i, " (looked up)", e.ask(e.G[g], l, mask), mask)
	}
}

func (e *Env) finish(ops []fw.Op) {
	e.state()
	e.R.Traces++
	if e.R.Sampling() {
		s := ""
		for i, a := range e.askAll(qAll &^ qRender) {
			s += fmt.Sprintf(" | r%d: %s", i, a)
		}
		e.R.Sample("%s => %d nodes%s", fw.Show(ops), e.nodes(), s)
	}
}

func (e *Env) nodes() int {
	if e.Mem != nil {
		return e.Mem.Len()
	}
	return -1
}
