// Package st holds the storages the explorer runs semnet on: an in-memory
// implementation of the storage interface with configurable numbering and
// neighbour order, and a probe that counts, records, fails and cuts off
// storage accesses.
package st

import (
	"fmt"
	"sort"
)

// Storage is semnet's storage interface, spelled out structurally.
type Storage interface {
	Has(source uint) (bool, error)
	Create() (uint, error)
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
	SetReference(source uint, reference uint) error
	GetReference(source uint) (uint, uint, error)
	Connect(source uint, target uint) error
	Disconnect(source uint, target uint) error
	Delete(source uint) error
}

// Numbering of nodes after the eighth.
const (
	Dense = iota
	Gapped
	Descending
	Spread  // equal in the lower 32 bits
	Extreme // descending from the largest value
	Shared  // with nodes of another user of the storage in between
	Numberings
)

// Order of returned neighbours.
const (
	Insertion = iota
	Reverse
	Rotated
	Ascending
	DescendingOrder
	Own // insertion; what is returned is the storage's own list, nil when it is empty
)

type node struct {
	prev, next       uint
	targets, sources []uint
}

// Mem is the in-memory storage. Node 0 exists and is never handed out, as in
// clew. Identifiers 1 to 8 are dense (the library requires it), the rest is
// numbered by Numbering. The nodes of the other user of a Shared storage are
// computed, so that they cannot be changed.
type Mem struct {
	Numbering int
	Order     int
	nodes     []node // by index; index 0 is the reserved node
}

func NewMem(numbering, order int) *Mem {
	return &Mem{Numbering: numbering, Order: order, nodes: make([]node, 1, 256)}
}

const top = uint(1) << 40

// stride of Spread; start of Extreme
const (
	stride = uint(1) << 33
	last   = ^uint(0)
)

func (m *Mem) id(index int) uint {
	if index <= 8 {
		return uint(index)
	}
	switch m.Numbering {
	case Gapped:
		return 8 + 7*uint(index-8)
	case Descending:
		return top - uint(index)
	case Spread:
		return uint(index-8)*stride + 9
	case Extreme:
		return last - uint(index)
	case Shared:
		return 8 + 2*uint(index-8)
	}
	return uint(index)
}

func (m *Mem) index(id uint) (int, bool) {
	index := int(id)
	if id > 8 {
		switch m.Numbering {
		case Gapped:
			if (id-8)%7 != 0 {
				return 0, false
			}
			index = int((id-8)/7) + 8
		case Descending:
			if id > top-9 || id < top-uint(len(m.nodes)) {
				return 0, false
			}
			index = int(top - id)
		case Spread:
			if id < stride || (id-9)%stride != 0 || (id-9)/stride > uint(len(m.nodes)) {
				return 0, false
			}
			index = int((id-9)/stride) + 8
		case Extreme:
			if id > last-9 || id < last-uint(len(m.nodes)) {
				return 0, false
			}
			index = int(last - id)
		case Shared:
			if (id-8)%2 != 0 || id > 8+2*uint(len(m.nodes)) {
				return 0, false
			}
			index = int((id-8)/2) + 8
		}
	}
	if index < 0 || index >= len(m.nodes) {
		return 0, false
	}
	return index, true
}

// foreign tells whether another user of the storage has the node.
func (m *Mem) foreign(id uint) bool {
	return m.Numbering == Shared && len(m.nodes) > 9 && id > 8 && id%2 == 1 && id <= 8+2*uint(len(m.nodes)-9)
}

// others is the content of the nodes of the other user: a chain, connected
// and referring in both directions.
func (m *Mem) others(id uint) *node {
	n := &node{}
	if m.foreign(id - 2) {
		n.prev = id - 2
		n.sources = []uint{id - 2}
	}
	if m.foreign(id + 2) {
		n.next = id + 2
		n.targets = []uint{id + 2}
	}
	return n
}

func (m *Mem) get(id uint) (*node, error) {
	index, ok := m.index(id)
	if !ok {
		if m.foreign(id) {
			return m.others(id), nil
		}
		return nil, fmt.Errorf("storage: no node %d", id)
	}
	return &m.nodes[index], nil
}

// Len is the number of nodes handed out.
func (m *Mem) Len() int { return len(m.nodes) - 1 }

// IDs lists all identifiers handed out.
func (m *Mem) IDs() []uint {
	ids := make([]uint, 0, m.Len())
	for i := 1; i < len(m.nodes); i++ {
		ids = append(ids, m.id(i))
	}
	return ids
}

func (m *Mem) Clone() *Mem {
	c := &Mem{Numbering: m.Numbering, Order: m.Order, nodes: make([]node, len(m.nodes), len(m.nodes)+64)}
	for i, n := range m.nodes {
		c.nodes[i] = node{prev: n.prev, next: n.next,
			targets: append([]uint(nil), n.targets...), sources: append([]uint(nil), n.sources...)}
	}
	return c
}

// Fingerprint is a hash of the complete content, equal in all processes.
func (m *Mem) Fingerprint() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint) {
		h ^= uint64(v)
		h *= 1099511628211
		h ^= h >> 29
	}
	for i := range m.nodes {
		n := &m.nodes[i]
		mix(n.prev)
		mix(n.next)
		mix(uint(len(n.targets)))
		for _, t := range n.targets {
			mix(t)
		}
		mix(uint(len(n.sources)))
		for _, s := range n.sources {
			mix(s)
		}
	}
	return h
}

func (m *Mem) Has(source uint) (bool, error) {
	_, ok := m.index(source)
	return ok || m.foreign(source), nil
}

func (m *Mem) Create() (uint, error) {
	m.nodes = append(m.nodes, node{})
	return m.id(len(m.nodes) - 1), nil
}

func (m *Mem) order(list []uint) []uint {
	if m.Order == Own {
		return list
	}
	n := len(list)
	result := make([]uint, n)
	copy(result, list)
	if n < 2 {
		return result
	}
	switch m.Order {
	case Reverse:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			result[i], result[j] = result[j], result[i]
		}
	case Rotated:
		k := n / 2
		copy(result, list[k:])
		copy(result[n-k:], list[:k])
	case Ascending:
		sort.Slice(result, func(i, j int) bool { return result[i] < result[j] })
	case DescendingOrder:
		sort.Slice(result, func(i, j int) bool { return result[i] > result[j] })
	}
	return result
}

func (m *Mem) ReadSources(target uint) ([]uint, error) {
	n, err := m.get(target)
	if err != nil {
		return []uint{}, err
	}
	return m.order(n.sources), nil
}

func (m *Mem) ReadTargets(source uint) ([]uint, error) {
	n, err := m.get(source)
	if err != nil {
		return []uint{}, err
	}
	return m.order(n.targets), nil
}

func (m *Mem) SetReference(source uint, reference uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	r, err := m.get(reference)
	if err != nil {
		return err
	}
	s.next = reference
	r.prev = source
	return nil
}

func (m *Mem) GetReference(source uint) (uint, uint, error) {
	n, err := m.get(source)
	if err != nil {
		return 0, 0, err
	}
	return n.prev, n.next, nil
}

func has(list []uint, id uint) bool {
	for _, x := range list {
		if x == id {
			return true
		}
	}
	return false
}

func (m *Mem) connected(s, t *node, source, target uint) bool {
	if len(s.targets) <= len(t.sources) {
		return has(s.targets, target)
	}
	return has(t.sources, source)
}

func (m *Mem) Connect(source uint, target uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	t, err := m.get(target)
	if err != nil {
		return err
	}
	if !m.connected(s, t, source, target) {
		s.targets = append(s.targets, target)
		t.sources = append(t.sources, source)
	}
	return nil
}

func without(list []uint, id uint) []uint {
	result := list[:0:0]
	for _, x := range list {
		if x != id {
			result = append(result, x)
		}
	}
	return result
}

func (m *Mem) Disconnect(source uint, target uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	t, err := m.get(target)
	if err != nil {
		return err
	}
	s.targets = without(s.targets, target)
	t.sources = without(t.sources, source)
	return nil
}

func (m *Mem) Delete(source uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	for _, t := range s.targets {
		if n, err := m.get(t); err == nil {
			n.sources = without(n.sources, source)
		}
	}
	for _, x := range s.sources {
		if n, err := m.get(x); err == nil {
			n.targets = without(n.targets, source)
		}
	}
	*s = node{}
	return nil
}
