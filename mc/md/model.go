// Package md is the reference model: a forest of stories, facts and remarks
// kept in plain slices.
package md

type Remark struct {
	Obj, Prop string
	Fact      int
}

type Fact struct {
	Story   int
	Remarks []int
}

type Story struct {
	Facts    []int
	Parent   int // -1: none
	Children []int
}

type World struct {
	Remarks []Remark
	Facts   []Fact
	Stories []Story
}

// Clone copies a world.
func (w *World) Clone() World {
	c := World{Remarks: append([]Remark(nil), w.Remarks...), Facts: append([]Fact(nil), w.Facts...), Stories: append([]Story(nil), w.Stories...)}
	for i, f := range c.Facts {
		c.Facts[i].Remarks = append([]int(nil), f.Remarks...)
	}
	for i, s := range c.Stories {
		c.Stories[i].Facts = append([]int(nil), s.Facts...)
		c.Stories[i].Children = append([]int(nil), s.Children...)
	}
	return c
}

func (w *World) remark(obj, prop string, fact int) int {
	w.Remarks = append(w.Remarks, Remark{obj, prop, fact})
	r := len(w.Remarks) - 1
	w.Facts[fact].Remarks = append(w.Facts[fact].Remarks, r)
	return r
}

func (w *World) fact(story int) int {
	w.Facts = append(w.Facts, Fact{Story: story})
	f := len(w.Facts) - 1
	w.Stories[story].Facts = append(w.Stories[story].Facts, f)
	return f
}

// StoryOf is the story a remark belongs to.
func (w *World) StoryOf(r int) int { return w.Facts[w.Remarks[r].Fact].Story }

func (w *World) CreateStory(obj, prop string) int {
	w.Stories = append(w.Stories, Story{Parent: -1})
	return w.remark(obj, prop, w.fact(len(w.Stories)-1))
}

func (w *World) AddRemark(r int, prop string) int {
	return w.remark(w.Remarks[r].Obj, prop, w.Remarks[r].Fact)
}

func (w *World) AddFact(r int, obj, prop string) int {
	return w.remark(obj, prop, w.fact(w.StoryOf(r)))
}

func (w *World) CreateChild(r int, obj, prop string) int {
	parent := w.StoryOf(r)
	w.Stories = append(w.Stories, Story{Parent: parent})
	child := len(w.Stories) - 1
	w.Stories[parent].Children = append(w.Stories[parent].Children, child)
	return w.remark(obj, prop, w.fact(child))
}

func after(list []int, x int) int {
	for i, y := range list {
		if y == x && i+1 < len(list) {
			return list[i+1]
		}
	}
	return -1
}

// FirstRemarkOf is the first remark of a story's first fact.
func (w *World) FirstRemarkOf(story int) int { return w.Facts[w.Stories[story].Facts[0]].Remarks[0] }

func (w *World) NextRemark(r int) int { return after(w.Facts[w.Remarks[r].Fact].Remarks, r) }

func (w *World) NextFact(r int) int {
	f := after(w.Stories[w.StoryOf(r)].Facts, w.Remarks[r].Fact)
	if f < 0 {
		return -1
	}
	return w.Facts[f].Remarks[0]
}

func (w *World) FirstFact(r int) int { return w.FirstRemarkOf(w.StoryOf(r)) }

func (w *World) NextStory(r int) int {
	s := w.StoryOf(r)
	p := w.Stories[s].Parent
	if p < 0 {
		return -1
	}
	n := after(w.Stories[p].Children, s)
	if n < 0 {
		return -1
	}
	return w.FirstRemarkOf(n)
}
