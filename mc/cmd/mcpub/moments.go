package main

import (
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mem-memov/semnet/verifmc/fw"
	"github.com/mem-memov/semnet/verifmc/st"
)

// C23: the clock is in the hands of the check (testing/synctest), so that any
// time can pass between two operations, or while the storage is accessed. The
// same goes for the garbage collector.

// Modes of cases of C23
const (
	atOnce = iota
	later  // time passes
	collected
)

// pauses are what can pass between two operations.
var pauses = []time.Duration{
	1, time.Millisecond, 100 * time.Millisecond, 1100 * time.Millisecond, 5100 * time.Millisecond, 31 * time.Second, 61 * time.Second, 5*time.Minute + 1,
	61 * time.Minute, 25 * time.Hour, 8 * 24 * time.Hour, 32 * 24 * time.Hour, 366 * 24 * time.Hour, 30 * 366 * 24 * time.Hour,
}

var bubbles *testing.T

// withClock makes bubbles, in which the clock is not that of the machine, possible
// in main.
func withClock(main func()) {
	if len(os.Args) < 3 || os.Args[1] != "worker" && os.Args[1] != "one" || os.Args[2] != "C23" {
		main()
		return
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "check", F: func(t *testing.T) {
		bubbles = t
		main()
		os.Exit(0)
	}}}, nil, nil)
}

// inBubble runs f in a world with a clock of its own, and nothing else.
func inBubble(r *fw.Rec, f func()) {
	bad := ""
	synctest.Test(bubbles, func(*testing.T) { bad = r.Try(f) })
	if bad != "" {
		r.Fail("%s", bad)
	}
}

// moment is where in a history something passes: before the opening of the
// graph (-1), before operation i, or (access) at one of its accesses or, for 0, at
// each of them.
type moment struct {
	op, access int
	all        bool // before each operation
}

// passing performs a history and asks everything, and at moments calls pass.
func passing(c *fw.Case, r *fw.Rec, m moment, pass func()) (content, answers string, accesses int) {
	if m.op < 0 && pass != nil {
		pass()
	}
	e := newEnv(c, r)
	here, count := false, 0
	if pass != nil && e.Mem != nil {
		e.Probe.Inner = &st.Gate{Inner: e.Mem, Before: func() {
			count++
			if here && (m.access == 0 || m.access == count) {
				pass()
			}
		}}
	}
	for i, op := range c.Ops {
		if pass != nil && m.access < 0 && (m.all || m.op == i) {
			pass()
		}
		here, count = m.access >= 0 && (m.all || m.op == i), 0
		e.must(op)
		r.Evaluations++
	}
	accesses, content = e.Probe.Calls, e.content()
	if pass != nil && m.access < 0 && (m.all || m.op == len(c.Ops)) {
		pass()
	}
	here, count = m.access == 0 && (m.all || m.op == len(c.Ops)), 0
	answers = join(e.everything(len(e.H)))
	e.state()
	r.Traces++
	return content, answers, accesses
}

func execPassing(c *fw.Case, r *fw.Rec) {
	var want, answers string
	var accesses int
	inBubble(r, func() { want, answers, accesses = passing(c, r, moment{}, nil) })
	try := func(m moment, what string, pass func()) {
		inBubble(r, func() {
			got, said, _ := passing(c, r, m, pass)
			if got != want {
				r.Fail("%s %s: identifiers and content are %s, otherwise they are %s", what, m.where(), got, want)
			}
			if said != answers {
				r.Fail("%s %s: the answers are\n%s\notherwise they are\n%s", what, m.where(), said, answers)
			}
		})
	}
	n := len(c.Ops)
	if c.Mode == collected {
		pass := func() { runtime.GC(); runtime.GC() }
		try(moment{access: -1, all: true}, "a garbage collection", pass)
		if n <= 2 {
			try(moment{op: n - 1}, "a garbage collection", pass)
			try(moment{op: n}, "a garbage collection", pass)
		}
		r.Outcome(uint64(n))
		return
	}
	for _, d := range pauses {
		d := d
		pass := func() { time.Sleep(d) }
		what := "a pause of " + d.String()
		for i := -1; i <= n; i++ {
			if n < 5 || i <= 0 || i >= n-1 || i == n/2 {
				try(moment{op: i, access: -1}, what, pass)
			}
		}
		if d < 30*24*time.Hour {
			try(moment{access: -1, all: true}, what, pass)
		}
		if d < 2*time.Hour {
			try(moment{all: true}, what, pass)
			try(moment{op: n - 1}, what, pass)
			try(moment{op: n}, what, pass)
		}
	}
	if n <= c.N {
		for k := 1; k <= accesses; k++ {
			for _, d := range []time.Duration{11 * time.Second, 25 * time.Hour} {
				d := d
				try(moment{op: n - 1, access: k}, "a pause of "+d.String(), func() { time.Sleep(d) })
			}
		}
	}
	r.Outcome(uint64(n))
}

func (m moment) where() string {
	switch {
	case m.op < 0:
		return "before the opening of the graph"
	case m.access < 0 && m.all:
		return "before every operation"
	case m.access < 0:
		return "before operation " + strconv.Itoa(m.op)
	case m.all:
		return "at every access"
	case m.access == 0:
		return "at every access of operation " + strconv.Itoa(m.op)
	}
	return "at access " + strconv.Itoa(m.access) + " of operation " + strconv.Itoa(m.op)
}

// genPassing emits histories in which time passes.
func genPassing(tier string, emit func(fw.Case) bool) bool {
	n, accesses, gc := 3, 2, 2
	if tier == "thorough" {
		n, accesses, gc = 4, 3, 3
	}
	ok := true
	for d := 1; d <= n && ok; d++ {
		texts := collide
		if d == n {
			texts = distinct
		}
		ok = histories(d, "SFRC", texts, func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "time passes", Mode: later, Ops: ops, N: accesses}) &&
				(d > gc || emit(fw.Case{Fam: "memory is collected", Mode: collected, Ops: ops}))
		})
	}
	for i, p := range patterns {
		ops := via(i%2, p.make(16))
		ok = ok && emit(fw.Case{Fam: "time passes, long histories", Mode: later, Ops: ops}) &&
			emit(fw.Case{Fam: "memory is collected, long histories", Mode: collected, Ops: ops})
	}
	return ok
}
