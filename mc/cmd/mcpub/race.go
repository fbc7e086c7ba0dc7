package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/mem-memov/semnet/verifmc/api"
	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C29: the race detector is in the binary (check.sh), and ends the process at
// the first race.

// Modes of cases of C29
const (
	warm = iota
	cold // in a process in which nothing has been done before
	sameStore
	coldReaders // sameStore, in a new process; the reference version has written the store
)

// schedules of two clients: one after the other, and one access each in turn.
// For the race detector all are unordered.
const (
	firstThenSecond = iota
	secondThenFirst
	inTurn
	raceSchedules
)

// companions are what the second client does; the last one is the same as the
// first client's history.
var companions = [][]fw.Op{
	{{K: "S", O: "a b", P: "o"}, {K: "F", T: 0, O: "ob a", P: "oa"}, {K: "C", T: 0, O: "a", P: "b a"}, {K: "R", T: 1, P: "b"}},
	{{K: "S", O: "xyz", P: "\u20ac"}, {K: "C", T: 0, O: "k", P: "l m"}, {K: "F", T: 1, O: "k", P: "l m"}},
	nil,
}

// racer is a client.
type racer struct {
	e     *Env
	r     *fw.Rec
	run   func(x *racer) string
	baton *st.Baton // nil: the client runs without interruption
	i     int
	said  string
	bad   string
}

// gate makes a client give the turn to the other one before each access.
func (x *racer) gate(e *Env) {
	x.e = e
	if x.baton != nil {
		e.Probe.Inner = &st.Gate{Inner: e.Mem, Before: func() { x.baton.Yield(x.i) }}
	}
}

// history performs everything from the opening of the graph to the last query,
// and some calls that are refused or fail.
func (x *racer) history(c *fw.Case, ops []fw.Op) string {
	e := newEnv(c, x.r)
	x.gate(e)
	e.G[0].GetRemark(7)
	e.mustAll(ops)
	if h, err := e.G[0].CreateStory("a  b", ""); err == nil {
		x.r.Fail("a malformed text is stored as %d", h.ID())
	}
	for _, at := range []int{1, 3, 6} {
		e.Probe.Arm(at, st.FailBefore)
		e.H[0].Text()
	}
	e.Probe.Reset()
	for id := uint(0); id < 12; id++ {
		e.G[0].GetRemark(id)
	}
	e.judgeAll(qText|qNextFact|qFirstFact|qNextStory, e.open())
	var s []string
	for i, h := range e.H {
		text, err := e.G[0].Render(h)
		s = append(s, fmt.Sprintf("%d: %q %s", e.IDs[i], text, errText(err)))
	}
	return fmt.Sprintf("%s; fingerprint %x", strings.Join(s, "; "), e.Mem.Fingerprint())
}

// reader opens a graph on a store and asks everything.
func (x *racer) reader(mem *st.Mem, ids []uint) string {
	e := &Env{R: x.r, ByID: map[uint]int{}, Mem: mem, Probe: st.NewProbe(mem), NoModel: true}
	x.gate(e)
	e.G = []api.Graph{api.Open(e.Probe)}
	for i, id := range ids {
		e.IDs = append(e.IDs, id)
		e.ByID[id] = i
	}
	for i := range ids {
		e.H = append(e.H, e.lookup(0, i))
	}
	return join(e.everything(len(ids)))
}

func execRace(c *fw.Case, r *fw.Rec) {
	if (c.Mode == cold || c.Mode == coldReaders) && os.Getenv("MC_COLD") == "" {
		execCold(c, r)
		return
	}
	runtime.GOMAXPROCS(1)  // so that a client that waits does not take the other's time
	r.KnownFinding("", "") // the list is loaded before the clients start
	second := companions[c.M]
	if second == nil {
		second = c.Ops
	}
	runs := [2]func(x *racer) string{
		func(x *racer) string { return x.history(c, c.Ops) },
		func(x *racer) string { return x.history(c, second) },
	}
	isCold := c.Mode == cold || c.Mode == coldReaders
	if c.Mode == sameStore || c.Mode == coldReaders {
		e := newEnv(c, r)
		if c.Mode == coldReaders {
			e.G[0] = api.OpenReference(e.Probe)
		}
		e.mustAll(c.Ops)
		for i := range runs {
			runs[i] = func(x *racer) string { return x.reader(e.Mem, e.IDs) }
		}
	}
	var want [2]string
	alone := func() {
		for i := range want {
			x := &racer{r: r.Sub()}
			if bad := x.r.Try(func() { want[i] = runs[i](x) }); bad != "" {
				r.Fail("alone: %s", bad)
			}
		}
	}
	if !isCold {
		alone()
	}
	for schedule := 0; schedule < raceSchedules; schedule++ {
		if isCold && schedule != c.N {
			continue
		}
		b := &st.Baton{}
		first := 0
		if schedule == secondThenFirst {
			first = 1
		}
		b.Begin(first)
		over := make(chan struct{}, 2)
		var x [2]*racer
		for i := range x {
			y := &racer{r: r.Sub(), run: runs[i], i: i}
			if schedule == inTurn {
				y.baton = b
			}
			x[i] = y
			go func() {
				b.Await(y.i, false)
				y.bad = y.r.Try(func() { y.said = y.run(y) })
				b.End(y.i)
				over <- struct{}{}
			}()
		}
		<-over
		<-over
		r.Traces++
		r.Nontrivial++
		if isCold {
			alone()
		}
		for i := range x {
			r.Absorb(x[i].r)
			if x[i].bad != "" {
				r.Fail("client %d, in parallel: %s", i, x[i].bad)
			}
			if x[i].said != want[i] {
				r.Fail("client %d, in parallel: %s\nalone: %s", i, x[i].said, want[i])
			}
			r.Evaluations++
			r.State(x[i].e.Mem.Fingerprint())
		}
		h := fnv.New64a()
		fmt.Fprint(h, x[0].said, x[1].said)
		r.Outcome(h.Sum64())
	}
	if r.Sampling() {
		r.Sample("%s in parallel with %s: no memory in common, all as if alone", fw.Show(c.Ops), fw.Show(second))
	}
}

// execCold executes a case in a process of its own.
func execCold(c *fw.Case, r *fw.Rec) {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp("", "mc-cold-")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	cmd := exec.Command(os.Args[0], "one", "C29", f.Name())
	cmd.Env = append(os.Environ(), "MC_COLD=1")
	var out, told bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &told
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	if s := out.String(); s != "OK" {
		if !strings.HasPrefix(s, "BAD ") {
			s = "the process dies: " + told.String()
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		r.Fail("in a new process: %s", s)
	}
	r.Traces++
	r.Nontrivial++
	r.Evaluations += 2
	r.Extra["processes"]++
}

func raceChecks() []*fw.Check {
	return []*fw.Check{{ID: "C29", Level: "model_checking", Assumptions: []string{assumeMem},
		Rule: "every history in parallel with each of three histories of another client on a store of its own (one of them the same history), and two readers of the same store with a graph each, in goroutines: one after the other, in either order, and one storage access each in turn, with nothing that orders the goroutines but what the library itself does, so that the race detector finds memory they share whenever any schedule could make them collide there; also in processes in which nothing has been done before. Each client must find what the model has, and get what it gets alone. traces: schedules",
		Gen:  genRace, Exec: execRace}}
}

func genRace(tier string, emit func(fw.Case) bool) {
	d := 3
	if tier == "thorough" {
		d = 4
	}
	ok := true
	all := func(fam string, ops []fw.Op, cfg fw.Case) bool {
		cfg.Fam, cfg.Ops = fam, ops
		for cfg.M = range companions {
			if !emit(cfg) {
				return false
			}
		}
		cfg.M, cfg.Mode = len(companions)-1, sameStore
		return emit(cfg)
	}
	for k := 1; k <= d; k++ {
		for i, texts := range []func(int) []Pair{same, distinct, collide} {
			if k == d && i == 2 && k > 2 {
				break
			}
			ok = ok && histories(k, "SFRC", texts, func(ops []fw.Op) bool { return all("histories", ops, fw.Case{}) })
		}
	}
	ok = ok && histories(d+1, "SFRC", distinct, func(ops []fw.Op) bool {
		return emit(fw.Case{Fam: "histories with themselves", Ops: ops, M: len(companions) - 1})
	})
	for _, k := range []string{"F", "R", "C"} {
		for m := range companions {
			for n := 0; n < raceSchedules && ok; n++ {
				for _, p := range []Pair{{"a b", "o"}, {"xyz", "\u20ac"}, {"", ""}} {
					ops := []fw.Op{{K: "S", O: "c", P: "d e"}, {K: k, T: 0, O: "d", P: "e"}, {K: "C", T: 1, O: p.O, P: p.P}}
					if p.O == "" {
						ops = ops[:2]
					}
					ok = ok && emit(fw.Case{Fam: "in a new process", Ops: ops, Mode: cold, M: m, N: n})
					if m == 0 {
						ok = ok && emit(fw.Case{Fam: "readers in a new process", Ops: ops, Mode: coldReaders, N: n})
					}
				}
			}
		}
	}
	for i, cfg := range configs {
		if !cfg.Clew && (tier == "thorough" || i%3 == 0) {
			ok = ok && histories(2, "SFRC", distinct, func(ops []fw.Op) bool { return all("other storages", ops, cfg) })
		}
	}
	for _, p := range patterns {
		ok = ok && all("long histories", p.make(24), fw.Case{})
	}
	ok = ok && longTexts(tier, func(c fw.Case) bool {
		return len(c.Ops[0].O) > 300 && tier != "thorough" || all(c.Fam, c.Ops, fw.Case{})
	})
	n := 0
	ok = ok && oddPairs(tier, func(c fw.Case) bool {
		if n++; tier != "thorough" && n%4 != 0 {
			return true
		}
		return all(c.Fam, c.Ops, fw.Case{})
	})
}
