package st

import "runtime"

// Baton lets clients in several goroutines proceed one at a time, without any
// synchronization that the race detector could see: memory that two clients
// share stays unordered for it, although they never run at the same moment.
type Baton struct {
	turn  int
	ended [2]bool
	stuck bool
}

// patience is how often a waiting client looks before it proceeds unasked,
// since the other one seems to wait for something it has itself.
const patience = 3000000

//go:norace
//go:noinline
func (b *Baton) at() int { return b.turn }

//go:norace
//go:noinline
func (b *Baton) set(turn int) { b.turn = turn }

//go:norace
//go:noinline
func (b *Baton) over(i int) bool { return b.ended[i] || b.stuck }

// Await waits for client i's turn, if impatient not for ever.
//
//go:norace
//go:noinline
func (b *Baton) Await(i int, impatient bool) {
	for n := 0; b.at() != i && !b.over(1-i); n++ {
		if impatient && n > patience {
			b.stuck = true
			return
		}
		runtime.Gosched()
	}
}

// Yield gives the turn to the other client and waits for the next one.
//
//go:norace
//go:noinline
func (b *Baton) Yield(i int) {
	if b.over(1 - i) {
		return
	}
	b.set(1 - i)
	b.Await(i, true)
}

// End ends client i.
//
//go:norace
//go:noinline
func (b *Baton) End(i int) {
	b.ended[i] = true
	b.set(1 - i)
}

// Begin is given before the clients start.
func (b *Baton) Begin(first int) { b.turn = first }
