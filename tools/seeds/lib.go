package main

import (
	"errors"
	"fmt"
	"os"
	"runtime"

	"github.com/mem-memov/semnet"
)

// mem is an in-memory storage for the demonstration. The call with number
// failAt fails (counted from 1); a call with an identifier that was never
// handed out is noted in bad; changes are counted in writes.
type mem struct {
	own bool // returns its own lists
	prev, next       map[uint]uint
	targets, sources map[uint][]uint
	n                uint
	id               func(n uint) uint
	calls, failAt    int
	failed           bool
	writes           int
	bad              []string
	removed          int
	yield            bool
	before           func()
	fault            error // what the failing call returns, if not errFault
	answers          bool  // the failing call answers all the same
}

var errFault = errors.New("storage fault")

func newMem() *mem {
	return &mem{prev: map[uint]uint{}, next: map[uint]uint{}, targets: map[uint][]uint{}, sources: map[uint][]uint{},
		id: func(n uint) uint { return n }}
}

func (m *mem) call(name string, ids ...uint) error {
	if m.before != nil {
		m.before()
	}
	if m.yield {
		runtime.Gosched()
	}
	m.calls++
	for _, id := range ids {
		if _, ok := m.next[id]; !ok {
			m.bad = append(m.bad, fmt.Sprintf("%s(%d)", name, ids))
			if id != 0 {
				return fmt.Errorf("no node %d", id)
			}
		}
	}
	if m.calls == m.failAt {
		m.failed = true
		if m.fault != nil {
			return m.fault
		}
		return errFault
	}
	return nil
}

func (m *mem) Has(source uint) (bool, error) {
	m.calls++
	if m.calls == m.failAt {
		m.failed = true
		return false, errFault
	}
	_, ok := m.next[source]
	return ok, nil
}

func (m *mem) Create() (uint, error) {
	if err := m.call("Create"); err != nil {
		return 0, err
	}
	m.writes++
	m.n++
	id := m.id(m.n)
	m.prev[id], m.next[id] = 0, 0
	return id, nil
}

func (m *mem) ReadSources(target uint) ([]uint, error) {
	if err := m.call("ReadSources", target); err != nil {
		return nil, err
	}
	if m.own {
		return m.sources[target], nil
	}
	return append([]uint(nil), m.sources[target]...), nil
}

func (m *mem) ReadTargets(source uint) ([]uint, error) {
	if err := m.call("ReadTargets", source); err != nil {
		if m.answers {
			return append([]uint(nil), m.targets[source]...), err
		}
		return nil, err
	}
	if m.own {
		return m.targets[source], nil
	}
	return append([]uint(nil), m.targets[source]...), nil
}

func (m *mem) SetReference(source uint, reference uint) error {
	if err := m.call("SetReference", source, reference); err != nil {
		return err
	}
	m.writes++
	if m.next[source] != 0 && m.next[source] != reference {
		m.removed++
	}
	m.next[source] = reference
	m.prev[reference] = source
	return nil
}

func (m *mem) GetReference(source uint) (uint, uint, error) {
	if err := m.call("GetReference", source); err != nil {
		return 0, 0, err
	}
	return m.prev[source], m.next[source], nil
}

func (m *mem) Connect(source uint, target uint) error {
	if err := m.call("Connect", source, target); err != nil {
		return err
	}
	for _, t := range m.targets[source] {
		if t == target {
			return nil
		}
	}
	m.writes++
	m.targets[source] = append(m.targets[source], target)
	m.sources[target] = append(m.sources[target], source)
	return nil
}

func drop(list []uint, x uint) []uint {
	var result []uint
	for _, y := range list {
		if y != x {
			result = append(result, y)
		}
	}
	return result
}

func (m *mem) Disconnect(source uint, target uint) error {
	if err := m.call("Disconnect", source, target); err != nil {
		return err
	}
	m.writes++
	m.removed++
	m.targets[source] = drop(m.targets[source], target)
	m.sources[target] = drop(m.sources[target], source)
	return nil
}

func (m *mem) Delete(source uint) error {
	if err := m.call("Delete", source); err != nil {
		return err
	}
	m.writes++
	m.removed++
	return nil
}

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func need(r semnet.Remark, err error) semnet.Remark {
	if err != nil {
		fail("unexpected error: %v", err)
	}
	return r
}

func text(r semnet.Remark) string {
	o, p, err := r.GetObjectAndProperty()
	if err != nil {
		fail("text: %v", err)
	}
	return o + "|" + p
}

func wantText(r semnet.Remark, o, p string) {
	if got := text(r); got != o+"|"+p {
		fail("text is %q, want %q", got, o+"|"+p)
	}
}

// protect turns a panic into an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}
