//go:build internals

package main

import (
	"fmt"

	"github.com/mem-memov/semnet/internal/abstract/fact"
	"github.com/mem-memov/semnet/internal/concrete/class"
)

// innerQuestions are what the library's internal packages can be asked about a
// store, beyond what the public interface offers: navigation between facts,
// records read from each of their nodes, what class a node is of.
func innerQuestions(e *Env) []innerQuestion {
	t := newTree(e)
	var list []innerQuestion
	add := func(ask func() (string, error), format string, args ...interface{}) {
		list = append(list, innerQuestion{fmt.Sprintf(format, args...), ask})
	}
	yes := func(f func() (bool, error)) func() (string, error) {
		return func() (string, error) { b, err := f(); return fmt.Sprint(b), err }
	}
	goes := func(f func() (fact.Aggregate, error)) func() (string, error) {
		return func() (string, error) {
			a, err := f()
			if err != nil {
				return "", err
			}
			return fmt.Sprint(a.GetRemark(), a.GetStory()), nil
		}
	}
	about := func(name string, a fact.Aggregate) {
		add(yes(a.HasParentStory), "has parent story, %s", name)
		add(goes(a.ToParentStory), "parent story, %s", name)
		add(yes(a.HasNextStory), "has next story, %s", name)
		add(goes(a.ToNextStory), "next story, %s", name)
		add(yes(a.HasNextFact), "has next fact, %s", name)
		add(goes(a.ToNextFact), "next fact, %s", name)
		add(goes(a.ToFirstFact), "first fact, %s", name)
		add(func() (string, error) { x, err := a.GetFirstRemark(); return fmt.Sprint(x), err }, "first remark, %s", name)
	}
	t.safely("navigation between facts", func() {
		for r := range e.H {
			a := t.at(r)
			name := fmt.Sprintf("fact of r%d", r)
			about(name, a)
			add(goes(func() (fact.Aggregate, error) { return t.facts.FetchByRemark(a.GetRemark()) }), "fetching the %s", name)
			if b, err := a.ToParentStory(); err == nil {
				about("parent story of "+name, b)
			}
			if b, err := a.ToNextStory(); err == nil {
				about("next story of "+name, b)
			}
			if b, err := a.ToNextFact(); err == nil {
				about("next fact of "+name, b)
			}
		}
	})
	readers := t.readers()
	t.safely("reading records", func() {
		classes := class.NewRepository(e.Probe)
		entity, err := classes.ProvideEntity()
		if err != nil {
			e.R.Fail("class entity: %v", err)
		}
		add(func() (string, error) {
			_, err := class.NewRepository(e.Probe).ProvideEntity()
			return "", err
		}, "class entity")
		is := tests(entity)
		for k, name := range kindNames {
			ids, err := e.Probe.ReadSources(uint(k + 1))
			if err != nil {
				e.R.Fail("reading the class node of %s: %v", name, err)
			}
			for i, id := range ids {
				if i > 1 && i < len(ids)-1 { // the others are of the same kind
					continue
				}
				nodes, err := readers[k][0](id)
				if err != nil {
					e.R.Fail("reading %s %d: %v", name, id, err)
				}
				for slot := range readers[k] {
					n, read := nodes[slot], readers[k][slot]
					add(func() (string, error) { got, err := read(n); return fmt.Sprint(got), err }, "reading %s %d from its node %d", name, id, slot)
				}
				for x := range is {
					id, test := id, is[x]
					add(yes(func() (bool, error) { return test(id) }), "asking whether %s %d is a %s", name, id, kindNames[x])
				}
			}
		}
	})
	e.Probe.Reset()
	return list
}
