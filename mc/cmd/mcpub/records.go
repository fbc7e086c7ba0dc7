//go:build internals

package main

import (
	"fmt"

	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	concreteFact "github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	concreteRemark "github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"
	"github.com/mem-memov/semnet/verifmc/fw"
)

// C26: the records the net consists of, on the library's internal packages.

type place struct{ kind, slot int }

var kindNames = []string{"bit", "character", "word", "phrase", "detail", "remark", "fact", "story"}

// readers give, by kind of record, how it is read from the node in each slot.
// A reader returns the nodes of the record by slot.
type reader func(node uint) ([]uint, error)

func (t *tree) readers() [][]reader {
	p := t.e.Probe
	c, w, ph, d := character.NewStorage(p), word.NewStorage(p), phrase.NewStorage(p), detail.NewStorage(p)
	rm, f, s := concreteRemark.NewStorage(p), concreteFact.NewStorage(p), story.NewStorage(p)
	type four interface{ GetClass() uint }
	nodes := func(e four, err error) ([]uint, error) {
		if err != nil {
			return nil, err
		}
		switch e := e.(type) {
		case interface {
			GetBit() uint
			GetCharacter() uint
			GetWord() uint
		}:
			return []uint{e.(four).GetClass(), e.GetBit(), e.GetCharacter(), e.GetWord()}, nil
		case interface {
			GetCharacter() uint
			GetWord() uint
			GetPhrase() uint
		}:
			return []uint{e.(four).GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase()}, nil
		case interface {
			GetWord() uint
			GetPhrase() uint
			GetDetail() uint
		}:
			return []uint{e.(four).GetClass(), e.GetWord(), e.GetPhrase(), e.GetDetail()}, nil
		case interface {
			GetPhrase() uint
			GetRemark() uint
		}:
			return []uint{e.(four).GetClass(), e.GetPhrase(), e.GetRemark()}, nil
		case interface {
			GetDetail() uint
			GetPosition() uint
			GetFact() uint
		}:
			return []uint{e.(four).GetClass(), e.GetDetail(), e.GetPosition(), e.GetFact()}, nil
		case interface {
			GetRemark() uint
			GetPosition() uint
			GetStory() uint
		}:
			return []uint{e.(four).GetClass(), e.GetRemark(), e.GetPosition(), e.GetStory()}, nil
		case interface {
			GetFact() uint
			GetPosition() uint
			GetTree() uint
		}:
			return []uint{e.(four).GetClass(), e.GetFact(), e.GetPosition(), e.GetTree()}, nil
		}
		return nil, fmt.Errorf("unknown kind of record %T", e)
	}
	return [][]reader{
		{
			func(n uint) ([]uint, error) {
				_, x, err := p.GetReference(n)
				return []uint{n, x}, err
			},
		}, {
			func(n uint) ([]uint, error) { e, err := c.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := c.ReadEntityByBit(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := c.ReadEntityByCharacter(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := c.ReadEntityByWord(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := w.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := w.ReadEntityByCharacter(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := w.ReadEntityByWord(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := w.ReadEntityByPhrase(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := ph.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := ph.ReadEntityByWord(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := ph.ReadEntityByPhrase(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := ph.ReadEntityByDetail(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := d.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := d.ReadEntityByPhrase(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := d.ReadEntityByRemark(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := rm.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := rm.ReadEntityByDetail(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := rm.ReadEntityByPosition(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := rm.ReadEntityByFact(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := f.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := f.ReadEntityByRemark(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := f.ReadEntityByPosition(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := f.ReadEntityByStory(n); return nodes(e, err) },
		}, {
			func(n uint) ([]uint, error) { e, err := s.ReadEntityByClass(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := s.ReadEntityByFact(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := s.ReadEntityByPosition(n); return nodes(e, err) },
			func(n uint) ([]uint, error) { e, err := s.ReadEntityByTree(n); return nodes(e, err) },
		},
	}
}

func tests(e abstractClass.Entity) []func(uint) (bool, error) {
	return []func(uint) (bool, error){e.IsBit, e.IsCharacter, e.IsWord, e.IsPhrase, e.IsDetail, e.IsRemark, e.IsFact, e.IsStory}
}

// links are the connections there are in stores of up to three operations,
// by kind and slot of both ends.
var links map[[2]place]bool

// records reads all records of a store and judges them; it gives the place of
// every node.
func (t *tree) records() map[uint]place {
	e, r := t.e, t.e.R
	readers := t.readers()
	places := map[uint]place{}
	classes := class.NewRepository(e.Probe)
	entity, err := classes.ProvideEntity()
	if err != nil {
		r.Fail("class entity: %v", err)
	}
	is := tests(entity)
	bits := bit.NewRepository(e.Probe, classes)
	for k, name := range kindNames {
		list, err := e.Probe.ReadSources(uint(k + 1))
		if err != nil {
			r.Fail("reading the class node of %s: %v", name, err)
		}
		for _, id := range list {
			nodes, err := readers[k][0](id)
			if err != nil {
				r.Fail("reading %s %d: %v", name, id, err)
			}
			r.Nontrivial++
			for slot, n := range nodes {
				if p, ok := places[n]; ok || n <= 8 {
					r.Fail("node %d is node %d of %s %d, and also node %d of another %s, or a class node", n, slot, name, id, p.slot, kindNames[p.kind])
				}
				places[n] = place{k, slot}
				if slot >= len(readers[k]) { // bits are fetched by their character
					b, err := bits.Fetch(n)
					if err != nil || b.GetCharacter() != n {
						r.Fail("fetching bit %d: %v, %v", n, b, err)
					}
					continue
				}
				got, err := readers[k][slot](n)
				r.Evaluations++
				if err != nil {
					r.Fail("reading %s %d from its node %d: %v", name, id, slot, err)
				}
				if fmt.Sprint(got) != fmt.Sprint(nodes) {
					r.Fail("%s %d consists of the nodes %v, but read from its node %d of %v", name, id, nodes, slot, got)
				}
			}
			for x, test := range is {
				yes, err := test(id)
				r.Evaluations++
				if err != nil {
					r.Fail("asking whether %s %d is a %s: %v", name, id, kindNames[x], err)
				}
				if yes != (x == k) {
					r.Fail("%s %d is said to be a %s: %v", name, id, kindNames[x], yes)
				}
			}
		}
	}
	if e.Mem != nil {
		for _, id := range e.Mem.IDs() {
			if _, ok := places[id]; !ok && id > 8 {
				r.Fail("node %d belongs to no record", id)
			}
		}
	}
	return places
}

// eachLink calls f with the connections between records.
func (t *tree) eachLink(places map[uint]place, f func(from, to uint, link [2]place)) {
	for id, p := range places {
		list, err := t.e.Probe.ReadTargets(id)
		if err != nil {
			t.e.R.Fail("targets of %d: %v", id, err)
		}
		for _, x := range list {
			if x <= 8 && int(x) == p.kind+1 && p.slot == 0 {
				continue // its class
			}
			to, ok := places[x]
			if !ok {
				t.e.R.Fail("node %d, node %d of a %s, is connected to node %d, which is in no record", id, p.slot, kindNames[p.kind], x)
			}
			f(id, x, [2]place{p, to})
		}
	}
}

func findLinks(r *fw.Rec) {
	if links != nil {
		return
	}
	links = map[[2]place]bool{}
	for d := 1; d <= 3; d++ {
		histories(d, "SFRC", collide, func(ops []fw.Op) bool {
			e := newEnv(&fw.Case{}, r)
			e.mustAll(ops)
			t := newTree(e)
			t.safely("the records", func() {
				t.eachLink(t.records(), func(from, to uint, link [2]place) { links[link] = true })
			})
			return true
		})
	}
}

func execRecords(c *fw.Case, r *fw.Rec) {
	findLinks(r)
	e := newEnv(c, r)
	for i, op := range c.Ops {
		e.must(op)
		if i < len(c.Ops)-1 && c.Mode != 1 {
			continue
		}
		e.settle()
		t := newTree(e)
		e.Probe.Budget = 1 << 40
		t.safely("the records", func() {
			places := t.records()
			count := map[[2]place]int{}
			t.eachLink(places, func(from, to uint, link [2]place) {
				r.Evaluations++
				count[link]++
				if !links[link] {
					r.Fail("node %d of a %s is connected to node %d of a %s, which never happens in small stores", link[0].slot, kindNames[link[0].kind], link[1].slot, kindNames[link[1].kind])
				}
			})
			h := uint64(len(places))
			for l, n := range count {
				h += uint64(n) << uint(l[0].kind*4+l[1].kind)
			}
			r.Outcome(h)
			// the remarks are those that were created
			remarks := 0
			for id, p := range places {
				if p.kind == 5 && p.slot == 0 {
					remarks++
					if _, ok := e.ByID[id]; !ok {
						r.Fail("there is a remark %d which no operation created", id)
					}
				}
			}
			if remarks != len(e.H) {
				r.Fail("there are %d remarks, %d were created", remarks, len(e.H))
			}
		})
		e.Probe.Reset()
		e.Probe.Budget = 3000000
	}
	e.finish(c.Ops)
}

func genRecords(tier string, emit func(fw.Case) bool) {
	n, max, step := 5, 36, 14
	if tier == "thorough" {
		n, max, step = 6, 100, 9
	}
	complete := func(c fw.Case) bool { return c.Var == vRefused || emit(c) }
	_ = focussed("short histories", 3, "SFRC", distinct, emit) &&
		scale(max, step, emit) &&
		watched("judged after every step", n-1, "SFRC", collide, emit) &&
		varied(tier, "SFRC", complete) &&
		textsOnStorages(emit) &&
		structural("SFRC", depths{collide: n, same: n, distinct: n, lookup: n - 1}, emit)
}

func recordChecks() []*fw.Check {
	return []*fw.Check{{ID: "C26", Level: "model_checking",
		Rule:        "in every store reached by a history: every record of each class is read from each of its nodes by the library's internal storages and has to be the same; its class node has to be told to be of this class and of none of the seven others; every node of the storage has to belong to exactly one record; connections have to be between the same kinds and nodes of records as in all stores of up to three operations; the remarks have to be those created",
		Assumptions: []string{assumeSequential, assumeMem}, Gen: genRecords, Exec: execRecords}}
}
