package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/mem-memov/semnet/verifmc/fw"
)

// Texts that share bits, characters, words and phrases in every way the code
// distinguishes: 'a' (1100001) is a prefix of U+00C2 (11000010) and U+00C3,
// U+0030 (110000) is a prefix of 'a'; words and phrases are prefixes of each
// other; words recur inside phrases.
var textPairs = []Pair{
	{"a", "a"}, {"a", "b"}, {"b", "a"}, {"Â", "a"}, {"a", "Â"}, {"0", "Âa"},
	{"ab", "a b"}, {"a b", "ab"}, {"a", "a a"}, {"aa", "a"}, {"a b c", "a b"}, {"b a", "a b a"},
	{"aÂ", "Âa Ã"}, {"\x00", "\x01"}, {"abc", "abd"},
}

func genText(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	n, m := 3, 3
	if thorough {
		n, m = 5, 4
	}
	fam := func(name string, depth int, kinds string, pairs []Pair, mode int) bool {
		for k := 1; k <= depth; k++ {
			ok := histories(k, kinds, fixed(pairs...), func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: name, Ops: ops, Mode: mode})
			})
			if !ok {
				return false
			}
		}
		return true
	}
	max, step := 36, 7
	d := depths{collide: 5, same: 4, distinct: 5, lookup: 4}
	if thorough {
		max, step = 130, 5
		d = depths{collide: 6, same: 6, distinct: 6, lookup: 5}
	}
	_ = focussed("short histories", 3, "SFRC", distinct, emit) &&
		scale(max, step, emit) &&
		neighbours(thorough, emit) &&
		varied(tier, "SFRC", emit) &&
		textsOnStorages(emit) &&
		fam("all sequences of colliding texts, judged after every step", n, "S", textPairs, 1) &&
		fam("all operations with colliding texts", m, "SFRC", textPairs[:9], 0) &&
		structural("SRFC", d, emit)
}

// textsOnStorages emits texts sharing parts on every kind of storage.
func textsOnStorages(emit func(fw.Case) bool) bool {
	for _, cfg := range configs {
		for d := 1; d <= 2; d++ {
			if !histories(d, "S", fixed(textPairs...), func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "texts sharing parts on other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			}) {
				return false
			}
		}
		for shift := 1; shift < 3; shift++ {
			if !wideTexts(func(list []string) bool {
				ops := make([]fw.Op, len(list))
				for i, x := range list {
					ops[i] = fw.Op{K: "S", O: x, P: list[(i+shift)%len(list)]}
				}
				return emit(fw.Case{Fam: "texts with wide branching on other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			}) {
				return false
			}
		}
	}
	return true
}

// oddTexts look alike, or look like something other than text.
var oddTexts = []string{
	"a", "A", "ab", "aB", "Ab", "AB", "a b", "A b", "a B", "b a", "ba", "aa", "a a", "aaa", "a a a",
	"\x00", "\x00\x00", "\x00a", "a\x00", "\t", "a\tb", "a\nb", "\n", "\r\n", "a\u00a0b", "a\u2003b", "\u200b", "a\u200db",
	"é", "e\u0301", "ß", "ss", "ẞ", "İ", "i", "I", "ı", "ﬁ", "fi", "０", "0", "1", "01", "10", "1 0", "-1", "1.0", "true", "nil",
	"\ufffd", "\ufeff", "\ufeffa", "\U0010ffff", "\U0001F680", "\U0001F469\u200d\U0001F680", "中", "中 文", "中文", "文",
	"%s", "%d", "%", "\\n", "\\", "\"", "'", "<b>", "&amp;", "a/b", "../a", ";", "#", "abcdefghijklmnopqrstuvwxyz0123456789",
	"the quick brown fox jumps over the lazy dog again and again and again",
}

// neighbours emits histories in which each odd text meets each other one, as
// object, as property, and as continuation of the same word and phrase.
func neighbours(thorough bool, emit func(fw.Case) bool) bool {
	for _, x := range oddTexts {
		for _, y := range oddTexts {
			if !emit(fw.Case{Fam: "odd texts next to each other", Ops: oddHistory(x, y)}) {
				return false
			}
		}
	}
	limit := rune(130)
	if thorough {
		limit = 400
	}
	for a := rune(0); a < limit; a++ {
		for b := rune(0); b < limit; b++ {
			if a == ' ' || b == ' ' || a == b {
				continue
			}
			x, y := string(a), string(b)
			if !emit(fw.Case{Fam: "code points next to each other", Ops: []fw.Op{
				{K: "S", O: "k" + x, P: "k " + x}, {K: "F", T: 0, O: "k" + y, P: "k " + y}, {K: "R", T: 1, P: x}, {K: "C", T: 0, O: x, P: y + x},
			}}) {
				return false
			}
		}
	}
	return true
}

// C02

func words(alphabet []rune, max int) []string {
	var result []string
	var rec func(prefix []rune)
	rec = func(prefix []rune) {
		if len(prefix) > 0 {
			result = append(result, string(prefix))
		}
		if len(prefix) == max {
			return
		}
		for _, c := range alphabet {
			rec(append(prefix[:len(prefix):len(prefix)], c))
		}
	}
	rec(nil)
	return result
}

func phrases(list []string, max int) []string {
	var result []string
	var rec func(prefix []string)
	rec = func(prefix []string) {
		if len(prefix) > 0 {
			result = append(result, strings.Join(prefix, " "))
		}
		if len(prefix) == max {
			return
		}
		for _, w := range list {
			rec(append(prefix[:len(prefix):len(prefix)], w))
		}
	}
	rec(nil)
	return result
}

func scalar(c rune) bool { return c != ' ' && (c < 0xD800 || c > 0xDFFF) }

const blockSize = 256

func genUnicode(tier string, emit func(fw.Case) bool) {
	thorough := tier == "thorough"
	// lengths
	longest, phraseLongest := 140, 80
	if thorough {
		longest, phraseLongest = 700, 300
	}
	for n := 1; n <= longest; n++ {
		for mode := 0; mode < 4; mode++ {
			if !emit(fw.Case{Fam: "word of every length", N: n, M: mode}) {
				return
			}
		}
	}
	for _, n := range []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537} {
		for mode := 0; mode < 2; mode++ {
			if (thorough || n <= 8192) && !emit(fw.Case{Fam: "word of a round length", N: n, M: mode}) {
				return
			}
		}
	}
	for n := 1; n <= phraseLongest; n++ {
		for mode := 0; mode < 4; mode++ {
			if !emit(fw.Case{Fam: "phrase of every length", N: n, M: mode}) {
				return
			}
		}
	}
	for _, n := range []int{127, 128, 129, 255, 256, 257, 512, 1000, 1024, 4096, 65537} {
		for mode := 0; mode < 2; mode++ {
			if (thorough || n <= 1024) && !emit(fw.Case{Fam: "phrase of a round length", N: n, M: mode}) {
				return
			}
		}
	}
	// short words and phrases
	k, l := 4, 4
	if thorough {
		k, l = 6, 6
	}
	for first := 0; first < 4; first++ {
		for mode := 0; mode < 3; mode++ {
			if !emit(fw.Case{Fam: "all words over four characters", N: k, M: first, Mode: mode}) {
				return
			}
			if !emit(fw.Case{Fam: "all phrases over four words", N: l, M: first, Mode: mode}) {
				return
			}
			for _, cfg := range configs {
				cfg.M, cfg.Mode = first, mode
				cfg.Fam, cfg.N = "all words over four characters", 3
				if !emit(cfg) {
					return
				}
				cfg.Fam = "all phrases over four words"
				if !emit(cfg) {
					return
				}
			}
		}
	}
	for n := 3; n <= 300; n += 33 {
		for mode := 0; mode < 2; mode++ {
			if !emit(fw.Case{Fam: "wide branching", N: n, M: mode}) {
				return
			}
			for _, cfg := range configs {
				cfg.Fam, cfg.N, cfg.M = "wide branching", n, mode
				if n < 50 && !emit(cfg) {
					return
				}
			}
		}
	}
	// all pairs of small code points, in both orders, in a fresh store
	limit := 130
	if thorough {
		limit = 1100
	}
	for a := 0; a < limit; a++ {
		if a != ' ' {
			if !emit(fw.Case{Fam: "all ordered pairs of small code points", N: a, M: limit}) {
				return
			}
		}
	}
	// code points related by letter case, bits or width
	last := rune(0x3400)
	if thorough {
		last = 0x20000
	}
	for base := rune(0); base < last; base += blockSize {
		if base >= 0xD800 && base <= 0xDFFF {
			continue
		}
		if !emit(fw.Case{Fam: "related code points next to each other", N: int(base)}) {
			return
		}
	}
	for l := 'a'; l <= 'z'; l++ {
		if !emit(fw.Case{Fam: "letters with combining marks", N: int(l)}) {
			return
		}
	}
	// every code point
	for mode := 0; mode < 2; mode++ {
		if mode == 1 && !thorough {
			break
		}
		for base := 0; base < 0x110000; base += blockSize {
			if base >= 0xD800 && base <= 0xDFFF {
				continue
			}
			if !emit(fw.Case{Fam: "every Unicode scalar value", N: base, Mode: mode}) {
				return
			}
		}
	}
}

func (e *Env) store(o, p string) {
	e.must(fw.Op{K: "S", O: o, P: p})
	i := len(e.H) - 1
	e.judge(i, "", e.ask(e.G[0], e.H[i], qText), qText)
}

func (e *Env) reread() {
	for i, h := range e.H {
		e.judge(i, " (again, at the end)", e.ask(e.G[0], h, qText), qText)
	}
}

func execUnicode(c *fw.Case, r *fw.Rec) {
	e := newEnv(c, r)
	switch c.Fam {
	case "every Unicode scalar value":
		count := 0
		for i := 0; i < blockSize; i++ {
			if i%24 == 0 && i > 0 {
				e.reread()
				e.state()
				count += len(e.H)
				e = newEnv(c, r)
			}
			k := c.N + i
			if c.Mode == 1 {
				k = c.N + blockSize - 1 - i
			}
			if !scalar(rune(k)) {
				continue
			}
			x := string(rune(k))
			if c.Mode == 1 {
				e.store("b"+x+" "+x, x+x+" b "+x+"b")
				continue
			}
			e.store(x, x+" b"+x+"b "+x+x)
		}
		e.reread()
		if e.R.Sampling() {
			e.R.Sample("block of code points from U+%04X: %d stored and read back, alone, at the beginning, in the middle and at the end of words and phrases", c.N, count+len(e.H))
		}
	case "all ordered pairs of small code points":
		for b := 0; b < c.M; b++ {
			if b == ' ' {
				continue
			}
			e = newEnv(c, r)
			x, y := string(rune(c.N)), string(rune(b))
			e.store(x, x+y)
			e.store(y, y+x+" "+x)
			// next to each other after the same character and the same word
			e.store("~"+x, "~ "+x)
			e.store("~"+y, "~ "+y)
			e.store("~"+y+x, "~ "+x+" "+y)
			e.store("~"+x, "~ "+y)
			e.reread()
		}
		if e.R.Sampling() {
			e.R.Sample("code point %d before every other code point below %d, each in its own store", c.N, c.M)
		}
	case "related code points next to each other":
		for i := 0; i < blockSize; i++ {
			x := rune(c.N + i)
			if !scalar(x) {
				continue
			}
			for _, y := range related(x) {
				e = newEnv(c, r)
				e.store("~"+string(x), "~ "+string(x))
				e.store("~"+string(y), "~ "+string(y))
				e.store("~"+string(x)+string(y), string(y)+" "+string(x))
				e.store(string(x)+string(y), string(x)+" "+string(y))
				e.reread()
			}
		}
	case "letters with combining marks":
		for i := rune(0x300); i < 0x370; i++ {
			for _, l := range []rune{rune(c.N), unicode.ToUpper(rune(c.N))} {
				e = newEnv(c, r)
				w := string(l) + string(i)
				e.store(w, w+"b "+w)
				e.store(string(l), string(i)+w)
				e.reread()
			}
		}
	case "word of every length", "word of a round length":
		w := wordOf(c.N, c.M)
		e.Probe.Budget = 1 << 40
		if c.M == 3 { // after shorter and longer ones
			e.store(w+"x", string([]rune(w)[:c.N/2])+"y")
		}
		e.store(w, "p")
		e.store("o", w)
		e.store("x "+w, w+" x")
		e.reread()
		if e.R.Sampling() {
			e.R.Sample("word of %d characters, pattern %d", c.N, c.M)
		}
	case "phrase of every length", "phrase of a round length":
		list := make([]string, c.N)
		e.Probe.Budget = 1 << 40
		for i := range list {
			switch c.M {
			case 0:
				list[i] = "a"
			case 1:
				list[i] = abc(i)
			case 2:
				list[i] = []string{"ab", "a", "b"}[i%3]
			case 3:
				list[i] = "b" + abc(i%4)
			}
		}
		p := strings.Join(list, " ")
		if c.M == 3 {
			e.store(p+" x", strings.Join(list[:len(list)/2+1], " ")+" y")
		}
		e.store(p, "p")
		e.store("o", p)
		e.store(p+" "+p, p)
		e.reread()
		if e.R.Sampling() {
			e.R.Sample("phrase of %d words, pattern %d", c.N, c.M)
		}
	case "all words over four characters", "all phrases over four words":
		var list []string
		if c.Fam == "all words over four characters" {
			alphabet := []rune{'a', 'Â', 'b', '0'}
			rotate := append(alphabet[c.M:len(alphabet):len(alphabet)], alphabet[:c.M]...)
			list = words(rotate, c.N)
		} else {
			base := []string{"a", "ab", "b", "Â"}
			rotate := append(base[c.M:len(base):len(base)], base[:c.M]...)
			list = phrases(rotate, c.N)
		}
		switch c.Mode {
		case 1:
			for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
				list[i], list[j] = list[j], list[i]
			}
		case 2:
			k := 0
			step := 7
			for gcd(step, len(list)) != 1 {
				step += 2
			}
			mixed := make([]string, len(list))
			for i := range mixed {
				mixed[i] = list[k]
				k = (k + step) % len(list)
			}
			list = mixed
		}
		for i, w := range list {
			e.store(w, list[len(list)-1-i])
		}
		e.reread()
		if e.R.Sampling() {
			e.R.Sample("%s, %d texts in one store, order %d", c.Fam, len(list), c.Mode)
		}
	case "wide branching":
		for i := 0; i < c.N; i++ {
			x := string(rune(0x4e00 + 3*i))
			if c.M == 1 {
				x = string(rune('!' + i))
			}
			e.store("b"+x+"c", "b "+x+" c")
		}
		e.reread()
		if e.R.Sampling() {
			e.R.Sample("%d branches after one character and one word", c.N)
		}
	}
	e.state()
	r.Traces++
	r.Outcome(uint64(len(e.H))<<32 + uint64(c.N))
}

// related lists the code points that share their letter case orbit, leading
// or low bits, or differ in one bit only.
func related(x rune) []rune {
	set := map[rune]bool{}
	var list []rune
	add := func(y rune) {
		if y != x && y >= 0 && y <= unicode.MaxRune && scalar(y) && !set[y] {
			set[y] = true
			list = append(list, y)
		}
	}
	for y := unicode.SimpleFold(x); y != x; y = unicode.SimpleFold(y) {
		add(y)
	}
	add(unicode.ToUpper(x))
	add(unicode.ToLower(x))
	add(unicode.ToTitle(x))
	add(x >> 1)
	add(x << 1)
	add(x<<1 | 1)
	add(x + 0x10000)
	add(x + 0xFEE0)
	add(x & 0xFFFF)
	add(x & 0xFF)
	add(x & 0x7F)
	add(x ^ 1)
	add(x ^ 0x80)
	add(x ^ 0x100)
	return list
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func wordOf(n, mode int) string {
	w := make([]rune, n)
	for i := range w {
		switch mode {
		case 0:
			w[i] = 'a'
		case 1:
			w[i] = rune('a' + i%26)
		case 2:
			w[i] = []rune{'a', 'Â', '0', '中', '𐍈'}[i%5]
		case 3:
			w[i] = rune(0x3b1 + i%7)
		}
	}
	return string(w)
}

// C03

// growth counts what is new in a text, as in a trie of characters (by bits),
// words (by characters) and phrases (by words).
type growth struct {
	chars, words, phrases, details map[string]bool
}

func newGrowth() *growth {
	return &growth{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

// Units are numbers of new things.
type Units struct{ C, W, P, D int }

func (g *growth) text(text string, u *Units) {
	list := strings.Split(text, " ")
	for i := range list {
		key := strings.Join(list[:i+1], " ")
		if g.phrases[key] {
			continue
		}
		g.phrases[key] = true
		u.P++
		runes := []rune(list[i])
		for j := range runes {
			w := string(runes[:j+1])
			if g.words[w] {
				continue
			}
			g.words[w] = true
			u.W++
			bits := fmt.Sprintf("%b", runes[j])
			for k := range bits {
				if !g.chars[bits[:k+1]] {
					g.chars[bits[:k+1]] = true
					u.C++
				}
			}
		}
	}
}

func (g *growth) pair(o, p string) Units {
	var u Units
	g.text(o, &u)
	g.text(p, &u)
	key := o + "\x1f " + p
	if !g.details[key] {
		g.details[key] = true
		u.D++
	}
	return u
}

// costs are the numbers of storage nodes per new thing, measured.
type costs struct {
	base       map[string]int
	c, w, p, d int
}

var measured *costs

func (e *Env) grow(op fw.Op) int {
	e.must(op)
	return e.Probe.Creates
}

// measure finds the costs by experiments that add one kind of thing each.
func measure(r *fw.Rec) *costs {
	if measured != nil {
		return measured
	}
	m := &costs{base: map[string]int{}}
	e := newEnv(&fw.Case{}, r)
	s := func(o, p string) int { return e.grow(fw.Op{K: "S", O: o, P: p}) }
	s("a", "b")
	m.base["S"] = s("a", "b")
	m.base["F"] = e.grow(fw.Op{K: "F", T: 0, O: "a", P: "b"})
	m.base["C"] = e.grow(fw.Op{K: "C", T: 0, O: "a", P: "b"})
	m.base["R"] = e.grow(fw.Op{K: "R", T: 0, P: "b"})
	m.d = s("b", "a") - m.base["S"]
	m.p = s("a a", "a") - m.base["S"] - m.d
	m.w = s("a", "ab") - m.base["S"] - m.d - m.p
	// 'Â' is 'a' and one bit more
	m.c = s("a", "Â") - m.base["S"] - m.d - m.p - m.w
	measured = m
	return m
}

var growthPairs = []Pair{
	{"a", "a"}, {"a", "b"}, {"b", "a"}, {"Â", "a"}, {"a", "Â"}, {"0", "Âa"}, {"ab", "a b"}, {"a b", "ab"},
	{"a a", "a"}, {"aa", "aaa"}, {"a b c", "a b"}, {"b a", "a b a"}, {"aÂ", "Âa Ã"}, {"\x00", "\x01\x00"}, {"abc", "abd ab"}, {"a b d", "a bd"},
}

func execGrowth(c *fw.Case, r *fw.Rec) {
	m := measure(r)
	if m.c < 0 || m.w < 0 || m.p < 0 || m.d < 0 {
		r.Fail("the cost of adding to a text is negative: %+v", *m)
	}
	e := newEnv(c, r)
	g := newGrowth()
	ops := c.Ops
	if c.Fam == "sequences over wide alphabets" {
		ops = nil
		for i, x := range c.Strs {
			ops = append(ops, fw.Op{K: "S", O: x, P: c.Strs[(i+c.N)%len(c.Strs)]})
		}
		ops = append(ops, ops...)
	}
	if c.Fam == "many neighbours, then all again" {
		ops = fanOut(c.N, c.M)
	}
	for i, op := range ops {
		if i == 0 { // the first operation also sets the store up
			e.must(op)
			g.pair(op.O, op.P)
			continue
		}
		creates := e.grow(op)
		o := op.O
		if op.K == "R" {
			o = e.W.Remarks[op.T].Obj
		}
		u := g.pair(o, op.P)
		want := m.base[op.K] + u.C*m.c + u.W*m.w + u.P*m.p + u.D*m.d
		r.Evaluations++
		if u != (Units{}) {
			r.Nontrivial++
		}
		r.Outcome(uint64(creates)<<32 + uint64(u.C*1000000+u.W*10000+u.P*100+u.D))
		if creates != want {
			r.Fail("operation %d, %s, adds %d nodes, want %d: %d bits, %d characters, %d words, %d pairs of it are new, which cost %d, %d, %d, %d nodes each, and the operation itself costs %d",
				i, op, creates, want, u.C, u.W, u.P, u.D, m.c, m.w, m.p, m.d, m.base[op.K])
		}
	}
	e.settle()
	e.judgeAll(qText, 0)
	e.finish(ops)
}

func fanOut(n, mode int) []fw.Op {
	var ops []fw.Op
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		op := fw.Op{K: "S", O: "s", P: "t"}
		switch mode {
		case 0:
			op.P = x
		case 1:
			op.O = x
		case 2:
			op.P = "t" + x
		case 3:
			op.P = "t " + x
		case 4:
			op.O, op.P = "s "+x, "s "+x+" t"
		case 5: // all objects with all properties of a square
			w := 1
			for w*w < n {
				w++
			}
			op.O, op.P = string(rune('0'+i/w)), string(rune('0'+i%w))
		}
		ops = append(ops, op)
	}
	again := append([]fw.Op(nil), ops...)
	ops = append(ops, again...)
	for i := range again {
		ops = append(ops, again[len(again)-1-i])
	}
	for i, op := range again {
		switch mode {
		case 0, 2, 3:
			ops = append(ops, fw.Op{K: "R", T: i, P: again[(i*3+1)%n].P})
		}
		ops = append(ops, fw.Op{K: "F", T: i, O: op.O, P: op.P}, fw.Op{K: "C", T: i, O: op.O, P: op.P})
	}
	return ops
}

func genGrowth(tier string, emit func(fw.Case) bool) {
	n, m := 3, 3
	if tier == "thorough" {
		n, m = 5, 4
	}
	ok := true
	for k := 2; k <= n && ok; k++ {
		ok = histories(k, "S", fixed(growthPairs...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "sequences of stories", Ops: ops})
		})
	}
	for _, fam := range []struct {
		name string
		list []string
	}{
		{"w", words([]rune{'a', 'Â', 'b'}, 4)},
		{"p", phrases([]string{"a", "ab", "b"}, 4)},
		{"m", append(words([]rune{'0', 'a', 'Â'}, 3), phrases([]string{"a", "0", "0a"}, 3)[3:]...)},
	} {
		for shift := 0; shift < 12 && ok; shift++ {
			ok = emit(fw.Case{Fam: "sequences over wide alphabets", Strs: fam.list, N: shift})
		}
		for size := 2; size < 40 && ok; size++ {
			ok = emit(fw.Case{Fam: "sequences over wide alphabets", Strs: fam.list[:size], N: 1})
		}
	}
	// many properties of one object, many objects of one property, many
	// words after one character, many words after one word; then all again
	widest := 48
	if tier == "thorough" {
		widest = 400
	}
	var sizes []int
	for n := 2; n <= widest; n += 1 + n/8 {
		sizes = append(sizes, n)
	}
	for _, n := range append(sizes, 70, 140, 270, 530, 1100) {
		for mode := 0; mode < 6 && ok; mode++ {
			ok = emit(fw.Case{Fam: "many neighbours, then all again", N: n, M: mode})
		}
	}
	// every pair of code points in both orders
	limit := 300
	if tier == "thorough" {
		limit = 1200
	}
	for a := 0; a < limit && ok; a++ {
		for b := 0; b < limit && ok; b++ {
			if a != b && a != ' ' && b != ' ' {
				if tier != "thorough" && a%7 != b%7 && a > 130 && b > 130 {
					continue
				}
				x, y := string(rune(a)), string(rune(b))
				ok = emit(fw.Case{Fam: "ordered pairs of code points", Ops: []fw.Op{{K: "S", O: x, P: x}, {K: "S", O: y, P: x}, {K: "S", O: y, P: y}, {K: "S", O: x, P: y}}})
			}
		}
	}
	for _, cfg := range configs {
		for shift := 0; shift < 3 && ok; shift++ {
			ok = wideTexts(func(list []string) bool {
				return emit(fw.Case{Fam: "sequences over wide alphabets", Strs: list, N: shift, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			})
		}
		for mode := 0; mode < 6 && ok; mode++ {
			ok = emit(fw.Case{Fam: "many neighbours, then all again", N: 40, M: mode, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
		}
		for k := 2; k <= 2 && ok; k++ {
			ok = histories(k, "SFRC", fixed(growthPairs...), func(ops []fw.Op) bool {
				return emit(fw.Case{Fam: "other storages", Ops: ops, Num: cfg.Num, Ord: cfg.Ord, Clew: cfg.Clew})
			})
		}
	}
	ok = ok && varied(tier, "SFRC", func(c fw.Case) bool {
		return c.Var == vRefused || emit(c) // refused operations may leave parts of texts
	})
	for k := 2; k <= m && ok; k++ {
		ok = histories(k, "SFRC", fixed(growthPairs[:9]...), func(ops []fw.Op) bool {
			return emit(fw.Case{Fam: "sequences of all operations", Ops: ops})
		})
	}
}

func textChecks() []*fw.Check {
	c01 := modelCheck("C01", "every history of the stated kinds, depth and texts is executed on the real code and the text of every remark is compared with the model, through the original and a looked-up handle", qText, genText)
	c02 := &fw.Check{ID: "C02", Level: "model_checking",
		Rule:        "every Unicode scalar value but the space, every word and phrase length to a bound, all short words and phrases over colliding characters, all ordered pairs of small code points: stored through the public interface, read back at once and again after everything else",
		Assumptions: []string{assumeSequential, assumeMem, "the code points are tried in stores of at most 24 neighbouring code points each (all ordered pairs of small ones in stores of their own)"},
		Gen:         genUnicode, Exec: execUnicode}
	c03 := &fw.Check{ID: "C03", Level: "model_checking",
		Rule:        "every sequence of texts: the number of storage nodes created by each operation is compared with the number of parts of its text that a trie model says are new, at costs measured at the start; then all texts are read back (two different texts on one node cannot both read back)",
		Assumptions: []string{assumeSequential, assumeMem, "a text is stored as bits, characters, words and phrases that share beginnings; how many nodes each part takes is measured, not assumed"},
		Gen:         genGrowth, Exec: execGrowth}
	return []*fw.Check{c01, c02, c03}
}
