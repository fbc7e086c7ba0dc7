package st

import (
	"errors"
	"fmt"
)

// ErrReadOnly is what a change through a Reading returns.
var ErrReadOnly = errors.New("storage: change by a reader")

// snap is the content of a node from a version on.
type snap struct {
	version int
	exists  bool
	node    node
}

// Timeline records the versions of a storage: version v is its content after
// the v-th change since the recording began. It is the storage of the writer.
type Timeline struct {
	Mem   *Mem
	base  int // nodes at the beginning
	snaps map[uint][]snap
	now   int
}

func Record(m *Mem) *Timeline {
	return &Timeline{Mem: m, base: len(m.nodes), snaps: map[uint][]snap{}}
}

// Now is the current version.
func (t *Timeline) Now() int { return t.now }

func (t *Timeline) snapshot(id uint) snap {
	index, ok := t.Mem.index(id)
	if !ok {
		return snap{version: t.now}
	}
	return snap{version: t.now, exists: true, node: t.Mem.nodes[index]} // lists only grow, or are replaced
}

// change performs a change that may touch the given nodes.
func (t *Timeline) change(f func() error, ids ...uint) error {
	for _, id := range ids {
		if len(t.snaps[id]) == 0 {
			t.snaps[id] = append(t.snaps[id], snapAt(t.snapshot(id), 0))
		}
	}
	err := f()
	t.now++
	for _, id := range ids {
		t.snaps[id] = append(t.snaps[id], t.snapshot(id))
	}
	return err
}

func snapAt(s snap, version int) snap {
	s.version = version
	return s
}

func (t *Timeline) Has(source uint) (bool, error)            { return t.Mem.Has(source) }
func (t *Timeline) ReadSources(target uint) ([]uint, error)  { return t.Mem.ReadSources(target) }
func (t *Timeline) ReadTargets(source uint) ([]uint, error)  { return t.Mem.ReadTargets(source) }
func (t *Timeline) GetReference(id uint) (uint, uint, error) { return t.Mem.GetReference(id) }
func (t *Timeline) Connect(source uint, target uint) error {
	return t.change(func() error { return t.Mem.Connect(source, target) }, source, target)
}
func (t *Timeline) Disconnect(source uint, target uint) error {
	return t.change(func() error { return t.Mem.Disconnect(source, target) }, source, target)
}
func (t *Timeline) SetReference(source uint, reference uint) error {
	return t.change(func() error { return t.Mem.SetReference(source, reference) }, source, reference)
}

func (t *Timeline) Create() (uint, error) {
	id, err := t.Mem.Create()
	if err != nil {
		return id, err
	}
	t.now++
	t.snaps[id] = []snap{{}, t.snapshot(id)}
	return id, nil
}

func (t *Timeline) Delete(source uint) error {
	ids := []uint{source}
	if n, err := t.Mem.get(source); err == nil {
		ids = append(append(ids, n.targets...), n.sources...)
	}
	return t.change(func() error { return t.Mem.Delete(source) }, ids...)
}

// Reading is the storage as a reader sees it while the writer goes on: each
// of the reader's accesses comes at a version not before that of the one
// before. Of the versions in which an access has the same result only the
// first is explored: whatever can be read after a later one can also be read
// after the first.
type Reading struct {
	t       *Timeline
	At      int // current version
	Frozen  bool
	Choices []int // which of the results, access by access with several
	Options []int // how many there were
	Wrote   bool
	Moves   int // accesses at which the writer went on
}

func (t *Timeline) Read(at int, frozen bool, choices []int) *Reading {
	return &Reading{t: t, At: at, Frozen: frozen, Choices: choices}
}

// Next gives the choices to explore next, nil: all have been.
func (r *Reading) Next() []int {
	next := make([]int, len(r.Options))
	copy(next, r.Choices)
	for i := len(r.Options) - 1; i >= 0; i-- {
		if next[i]+1 < r.Options[i] {
			next[i]++
			return next[:i+1]
		}
	}
	return nil
}

// see gives the node as the reader sees it; key tells results apart.
func (r *Reading) see(id uint, key func(s *snap) string) *snap {
	list := r.t.snaps[id]
	if len(list) == 0 {
		s := &snap{}
		if n, err := r.t.Mem.get(id); err == nil {
			s.exists, s.node = true, *n
		}
		return s
	}
	first := 0
	for i := range list {
		if list[i].version <= r.At {
			first = i
		}
	}
	if r.Frozen {
		return &list[first]
	}
	var options []int
	var keys []string
next:
	for i := first; i < len(list); i++ {
		k := key(&list[i])
		for _, x := range keys {
			if x == k {
				continue next
			}
		}
		keys = append(keys, k)
		options = append(options, i)
	}
	choice := 0
	if len(options) > 1 {
		n := len(r.Options)
		if n < len(r.Choices) {
			choice = r.Choices[n]
		}
		r.Options = append(r.Options, len(options))
	}
	s := &list[options[choice]]
	if choice > 0 {
		r.At = s.version
		r.Moves++
	}
	return s
}

func (r *Reading) missing(id uint) error { return fmt.Errorf("storage: no node %d", id) }

func (r *Reading) Has(source uint) (bool, error) {
	s := r.see(source, func(s *snap) string { return fmt.Sprint(s.exists) })
	return s.exists, nil
}

func (r *Reading) ReadSources(target uint) ([]uint, error) {
	s := r.see(target, func(s *snap) string { return fmt.Sprint(s.exists, s.node.sources) })
	if !s.exists {
		return []uint{}, r.missing(target)
	}
	return r.t.Mem.order(s.node.sources), nil
}

func (r *Reading) ReadTargets(source uint) ([]uint, error) {
	s := r.see(source, func(s *snap) string { return fmt.Sprint(s.exists, s.node.targets) })
	if !s.exists {
		return []uint{}, r.missing(source)
	}
	return r.t.Mem.order(s.node.targets), nil
}

func (r *Reading) GetReference(source uint) (uint, uint, error) {
	s := r.see(source, func(s *snap) string { return fmt.Sprint(s.exists, s.node.prev, s.node.next) })
	if !s.exists {
		return 0, 0, r.missing(source)
	}
	return s.node.prev, s.node.next, nil
}

func (r *Reading) change() error {
	r.Wrote = true
	return ErrReadOnly
}

func (r *Reading) Create() (uint, error)                          { return 0, r.change() }
func (r *Reading) SetReference(source uint, reference uint) error { return r.change() }
func (r *Reading) Connect(source uint, target uint) error         { return r.change() }
func (r *Reading) Disconnect(source uint, target uint) error      { return r.change() }
func (r *Reading) Delete(source uint) error                       { return r.change() }
