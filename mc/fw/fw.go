// Package fw runs checks: it enumerates the cases of a check, deals them out
// to worker processes, merges what they covered, and reports violations.
package fw

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// Op is one operation of a history.
type Op struct {
	K string `json:"k"`           // S story, R remark, F fact, C child story
	T int    `json:"t"`           // target remark, by order of creation
	O string `json:"o,omitempty"` // object
	P string `json:"p,omitempty"` // property
	G int    `json:"g,omitempty"` // which graph
	H int    `json:"h,omitempty"` // which handle
}

// Texts that are not valid UTF-8 are written out in hexadecimal.
type plainOp Op

type hexOp struct {
	plainOp
	OX string `json:"o_hex,omitempty"`
	PX string `json:"p_hex,omitempty"`
}

func (o Op) MarshalJSON() ([]byte, error) {
	x := hexOp{plainOp: plainOp(o)}
	if !utf8.ValidString(o.O) {
		x.O, x.OX = "", hex.EncodeToString([]byte(o.O))
	}
	if !utf8.ValidString(o.P) {
		x.P, x.PX = "", hex.EncodeToString([]byte(o.P))
	}
	return json.Marshal(x)
}

func (o *Op) UnmarshalJSON(b []byte) error {
	var x hexOp
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*o = Op(x.plainOp)
	for _, f := range []struct {
		to  *string
		hex string
	}{{&o.O, x.OX}, {&o.P, x.PX}} {
		if f.hex != "" {
			raw, err := hex.DecodeString(f.hex)
			if err != nil {
				return err
			}
			*f.to = string(raw)
		}
	}
	return nil
}

func (o Op) String() string {
	var s string
	switch o.K {
	case "S":
		s = fmt.Sprintf("CreateStory(%s, %s)", short(o.O), short(o.P))
	case "R":
		s = fmt.Sprintf("r%d.AddRemarkToFact(%s)", o.T, short(o.P))
	case "F":
		s = fmt.Sprintf("r%d.AddFactToStory(%s, %s)", o.T, short(o.O), short(o.P))
	case "C":
		s = fmt.Sprintf("r%d.CreateChildStory(%s, %s)", o.T, short(o.O), short(o.P))
	}
	if o.G != 0 {
		s += fmt.Sprintf("@g%d", o.G)
	}
	if o.H != 0 {
		s += fmt.Sprintf("#h%d", o.H)
	}
	return s
}

func short(s string) string {
	q := strconv.QuoteToASCII(s)
	if len(q) > 60 {
		q = q[:40] + "...\"(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return q
}

// Show writes a history out.
func Show(ops []Op) string {
	parts := make([]string, len(ops))
	for i, o := range ops {
		parts[i] = fmt.Sprintf("r%d=%s", i, o)
	}
	if len(parts) > 40 {
		parts = append(append(parts[:20:20], fmt.Sprintf("... (%d operations)", len(ops))), parts[len(parts)-15:]...)
	}
	return strings.Join(parts, "; ")
}

// Case is one element of a check's enumeration.
type Case struct {
	Fam  string   `json:"fam"`
	Ops  []Op     `json:"ops,omitempty"`
	Num  int      `json:"num,omitempty"`
	Ord  int      `json:"ord,omitempty"`
	Clew bool     `json:"clew,omitempty"`
	Mode int      `json:"mode,omitempty"`
	Var  int      `json:"var,omitempty"`
	N    int      `json:"n,omitempty"`
	M    int      `json:"m,omitempty"`
	Strs []string `json:"strs,omitempty"`
}

// Check is a property with its enumeration and its judge.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Bounds      string
	Assumptions []string
	Gen         func(tier string, emit func(Case) bool)
	Exec        func(c *Case, r *Rec)
}

type stop struct{}

// Rec collects what the execution of cases covers.
type Rec struct {
	Tier     string
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	stats
	violation string
	samples   []string
	sampleAt  int64
}

type stats struct {
	Traces      int64            `json:"traces"`
	Transitions int64            `json:"transitions"`
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Queries     int64            `json:"queries"`
	Accesses    int64            `json:"accesses"`
	Fams        map[string]int64 `json:"fams"`
	Extra       map[string]int64 `json:"extra"`
	Known       map[string]int64 `json:"known"`
}

func newRec(tier string) *Rec {
	return &Rec{Tier: tier, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{},
		stats:    stats{Fams: map[string]int64{}, Extra: map[string]int64{}, Known: map[string]int64{}},
		sampleAt: 1}
}

// Fail ends the case with a violation.
func (r *Rec) Fail(format string, args ...interface{}) {
	r.violation = fmt.Sprintf(format, args...)
	panic(stop{})
}

// Skip ends the case without a verdict.
func (r *Rec) Skip() {
	r.violation = ""
	panic(stop{})
}

// KnownFinding tells whether the known-findings file lists a finding of a
// property, and counts its occurrence if so.
func (r *Rec) KnownFinding(property, name string) bool {
	text, ok := knownFindings()[property+" "+name]
	if ok {
		r.Known[text]++
	}
	return ok
}

var known map[string]string

// knownFindings reads the lines "known: property=ID name=NAME TEXT".
func knownFindings() map[string]string {
	if known != nil {
		return known
	}
	known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("MC_ROOT"), "known_findings.txt"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(line), " ", 4)
		if len(f) == 4 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "name=") {
			known[f[1][9:]+" "+f[2][5:]] = f[3]
		}
	}
	return known
}

func (r *Rec) State(fingerprint uint64) { r.states[fingerprint] = struct{}{} }

// Outcome notes a distinct observed outcome.
func (r *Rec) Outcome(hash uint64) {
	if len(r.outcomes) < 2000000 {
		r.outcomes[hash] = struct{}{}
	}
}

// Sampling tells whether the current case should be written out.
func (r *Rec) Sampling() bool { return len(r.samples) < 12 && r.Traces+r.Evaluations >= r.sampleAt }

func (r *Rec) Sample(format string, args ...interface{}) {
	if !r.Sampling() {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	r.samples = append(r.samples, s)
	r.sampleAt = (r.Traces+r.Evaluations)*6 + 1
}

// Sub is for a client in a goroutine of its own.
func (r *Rec) Sub() *Rec { return newRec(r.Tier) }

// Try runs f and returns the violation, if any.
func (r *Rec) Try(f func()) (violation string) {
	return run(&Check{Exec: func(*Case, *Rec) { f() }}, nil, r)
}

// Absorb takes over what a client has covered.
func (r *Rec) Absorb(s *Rec) {
	merge(&r.stats, &s.stats)
	for k := range s.states {
		r.State(k)
	}
	for k := range s.outcomes {
		r.Outcome(k)
	}
}

// run executes one case and returns the violation, if any.
func run(check *Check, c *Case, r *Rec) (violation string) {
	r.violation = ""
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(stop); ok {
				violation = r.violation
				return
			}
			panic(v)
		}
	}()
	check.Exec(c, r)
	return ""
}

type message struct {
	Progress  *int64   `json:"progress,omitempty"`
	Violation string   `json:"violation,omitempty"`
	Case      *Case    `json:"case,omitempty"`
	Index     int64    `json:"index"`
	Done      *result  `json:"done,omitempty"`
	_         struct{} `json:"-"`
}

type result struct {
	Stats     stats    `json:"stats"`
	Samples   []string `json:"samples"`
	Complete  bool     `json:"complete"`
	Generated int64    `json:"generated"`
	Reached   string   `json:"reached"`
	States    string   `json:"states"`
	Outcomes  string   `json:"outcomes"`
}

func worker(check *Check, tier string, shard, n int, from int64, every int64, deadline time.Time, dir string) {
	out := bufio.NewWriter(os.Stdout)
	say := func(m message) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	r := newRec(tier)
	index := int64(-1)
	complete := true
	reached := ""
	last := time.Now()
	check.Gen(tier, func(c Case) bool {
		index++
		if index%int64(n) != int64(shard) || index < from {
			return true
		}
		now := time.Now()
		if now.After(deadline) {
			complete = false
			reached = fmt.Sprintf("stopped at case %d in family %s", index, c.Fam)
			return false
		}
		if every == 1 || now.Sub(last) > 300*time.Millisecond {
			last = now
			i := index
			say(message{Progress: &i})
		}
		r.Fams[c.Fam]++
		if v := run(check, &c, r); v != "" {
			say(message{Violation: v, Case: &c, Index: index})
			complete = false
			return false
		}
		return true
	})
	res := &result{Stats: r.stats, Samples: r.samples, Complete: complete, Generated: index + 1, Reached: reached}
	res.States = save(filepath.Join(dir, fmt.Sprintf("states.%d", shard)), r.states)
	res.Outcomes = save(filepath.Join(dir, fmt.Sprintf("outcomes.%d", shard)), r.outcomes)
	say(message{Done: res})
}

func save(path string, set map[uint64]struct{}) string {
	f, err := os.Create(path)
	if err != nil {
		return ""
	}
	w := bufio.NewWriter(f)
	var b [8]byte
	for h := range set {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	w.Flush()
	f.Close()
	return path
}

func load(path string, set map[uint64]struct{}) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	rd := bufio.NewReader(f)
	var b [8]byte
	for {
		if _, err := io.ReadFull(rd, b[:]); err != nil {
			return
		}
		set[binary.LittleEndian.Uint64(b[:])] = struct{}{}
	}
}

type finding struct {
	text  string
	c     *Case
	index int64
}

func jsonCopy(c *Case) *Case {
	b, _ := json.Marshal(c)
	d := &Case{}
	json.Unmarshal(b, d)
	return d
}

const workers = 8

// parent runs a check in worker processes. It returns the exit code.
func parent(check *Check, tier string, seconds int, root string) int {
	begin := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+check.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	deadline := begin.Add(time.Duration(seconds) * time.Second)

	total := newRec(tier)
	var mu sync.Mutex
	var found []finding
	var kill []func()
	complete := true
	var generated int64
	reached := ""
	failed := ""
	var stopTimer *time.Timer

	launch := func(shard int, from int64, every int64) (last int64, done bool, violated bool, tail string) {
		cmd := exec.Command(os.Args[0], "worker", check.ID, tier, strconv.Itoa(shard), strconv.Itoa(workers),
			strconv.FormatInt(from, 10), strconv.FormatInt(every, 10), strconv.FormatInt(deadline.Unix(), 10), dir)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		stderr := &tailWriter{}
		cmd.Stderr = stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			return from, false, false, err.Error()
		}
		if err := cmd.Start(); err != nil {
			return from, false, false, err.Error()
		}
		mu.Lock()
		killed := false
		kill = append(kill, func() { killed = true; cmd.Process.Kill() })
		mu.Unlock()
		last = from
		quiet := time.AfterFunc(240*time.Second, func() {
			stderr.Write([]byte("no progress for 240 s"))
			cmd.Process.Kill()
		})
		sc := bufio.NewScanner(pipe)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			quiet.Reset(240 * time.Second)
			var m message
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			mu.Lock()
			switch {
			case m.Progress != nil:
				last = *m.Progress
			case m.Violation != "":
				found = append(found, finding{m.Violation, m.Case, m.Index})
				violated = true
				if stopTimer == nil {
					stopTimer = time.AfterFunc(4*time.Second, func() {
						mu.Lock()
						defer mu.Unlock()
						for _, k := range kill {
							k()
						}
					})
				}
			case m.Done != nil:
				done = true
				d := m.Done
				merge(&total.stats, &d.Stats)
				if len(total.samples) < 10 {
					k := 3
					if len(d.Samples) < k {
						k = len(d.Samples)
					}
					total.samples = append(total.samples, d.Samples[:k]...)
					if len(d.Samples) > k {
						total.samples = append(total.samples, d.Samples[len(d.Samples)-1])
					}
				}
				if !d.Complete {
					complete = false
					if d.Reached != "" {
						reached = d.Reached
					}
				}
				if d.Generated > generated {
					generated = d.Generated
				}
				load(d.States, total.states)
				load(d.Outcomes, total.outcomes)
			}
			mu.Unlock()
		}
		quiet.Stop()
		cmd.Wait()
		mu.Lock()
		defer mu.Unlock()
		if killed {
			return last, true, violated, ""
		}
		return last, done, violated, stderr.String()
	}

	var wg sync.WaitGroup
	for shard := 0; shard < workers; shard++ {
		wg.Add(1)
		go func(shard int) {
			defer wg.Done()
			last, done, _, tail := launch(shard, 0, 0)
			for attempt := 0; !done; attempt++ {
				// The worker died: find the case at fault and run it alone.
				culprit, done2, _, tail2 := launch(shard, last, 1)
				if done2 {
					break // it does not happen again: the rest is covered
				}
				if tail2 != "" {
					tail = tail2
				}
				c := nth(check, tier, culprit)
				dead, text := alone(check, c, dir, culprit)
				mu.Lock()
				if dead {
					found = append(found, finding{"the process dies: " + firstLines(tail, 12), c, culprit})
					mu.Unlock()
					break
				}
				if text != "" {
					found = append(found, finding{text, c, culprit})
					mu.Unlock()
					break
				}
				mu.Unlock()
				last = culprit + 1
				if attempt == 3 {
					mu.Lock()
					failed = "a worker ends again and again without a case at fault: " + firstLines(tail, 12)
					mu.Unlock()
					break
				}
			}
		}(shard)
	}
	wg.Wait()
	if stopTimer != nil {
		stopTimer.Stop()
	}

	sort.SliceStable(found, func(i, j int) bool { return found[i].index < found[j].index })
	wall := time.Since(begin).Seconds()
	evidence(check, tier, root, total, complete && len(found) == 0, generated, reached, wall, len(found))

	fmt.Printf("%s %s: %d cases, %d histories, %d operations, %d evaluations, %d states, %d outcomes, %.1f s, exhaustive=%v %s\n",
		check.ID, tier, sum(total.Fams), total.Traces, total.Transitions, total.Evaluations, len(total.states), len(total.outcomes), wall, complete && len(found) == 0, reached)
	for k := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.ID, k)
	}
	if len(found) > 0 {
		f := found[0]
		again := 0
		for i := 0; i < 5; i++ {
			if dead, text := alone(check, f.c, dir, f.index); dead || text != "" {
				again++
			}
		}
		path := filepath.Join(root, "replays", check.ID+".json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		replay := map[string]interface{}{
			"check": check.ID, "tier": tier, "index": f.index, "case": f.c, "history": Show(f.c.Ops),
			"violation": f.text, "reproduced_alone": fmt.Sprintf("%d of 5", again),
			"how": "sh " + filepath.Join(root, "check.sh") + " replay " + path,
		}
		if again == 0 {
			replay["note"] = "the case alone does not fail: it needs the earlier cases of the same worker process, so the code under test keeps state outside the storage"
		}
		b, _ := json.MarshalIndent(replay, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("history: %s\n%s\n(reproduced alone: %d of 5)\n", Show(f.c.Ops), f.text, again)
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
		return 1
	}
	if failed != "" {
		fmt.Println("error:", failed)
		return 2
	}
	return 0
}

func nth(check *Check, tier string, index int64) *Case {
	var result *Case
	i := int64(-1)
	check.Gen(tier, func(c Case) bool {
		i++
		if i == index {
			result = jsonCopy(&c)
			return false
		}
		return true
	})
	return result
}

// alone runs a single case in a fresh process.
func alone(check *Check, c *Case, dir string, index int64) (dead bool, text string) {
	if c == nil {
		return false, ""
	}
	b, _ := json.Marshal(c)
	path := filepath.Join(dir, fmt.Sprintf("case.%d", index))
	os.WriteFile(path, b, 0o644)
	cmd := exec.Command(os.Args[0], "one", check.ID, path)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var out strings.Builder
	cmd.Stdout = &out
	told := &tailWriter{}
	cmd.Stderr = told
	if err := cmd.Start(); err != nil {
		return false, ""
	}
	timer := time.AfterFunc(240*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	o := out.String()
	if strings.HasPrefix(o, "OK") {
		return false, ""
	}
	if strings.HasPrefix(o, "BAD ") {
		return false, o[4:]
	}
	return true, firstLines(told.String(), 24)
}

func one(check *Check, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	if v := run(check, c, newRec("quick")); v != "" {
		fmt.Print("BAD " + v)
	} else {
		fmt.Print("OK")
	}
}

func merge(a, b *stats) {
	a.Traces += b.Traces
	a.Transitions += b.Transitions
	a.Evaluations += b.Evaluations
	a.Nontrivial += b.Nontrivial
	a.Queries += b.Queries
	a.Accesses += b.Accesses
	for k, v := range b.Fams {
		a.Fams[k] += v
	}
	for k, v := range b.Extra {
		a.Extra[k] += v
	}
	for k, v := range b.Known {
		a.Known[k] += v
	}
}

func sum(m map[string]int64) int64 {
	var s int64
	for _, v := range m {
		s += v
	}
	return s
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}

type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailWriter) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func evidence(check *Check, tier, root string, r *Rec, exhaustive bool, generated int64, reached string, wall float64, violations int) {
	coverage := map[string]interface{}{
		"exhaustive":        exhaustive,
		"cases":             sum(r.Fams),
		"cases_per_family":  r.Fams,
		"samples":           r.samples,
		"bounds":            check.Bounds,
		"distinct_outcomes": len(r.outcomes),
		"queries":           r.Queries,
		"storage_accesses":  r.Accesses,
	}
	if reached != "" {
		coverage["reached"] = reached
	}
	for k, v := range r.Extra {
		coverage[k] = v
	}
	if len(r.Known) > 0 {
		coverage["known_findings"] = r.Known
	}
	if check.Level == "fault_enumeration" {
		coverage["evaluations"] = r.Evaluations
		coverage["distinct_nontrivial"] = r.Nontrivial
		coverage["rule"] = check.Rule
		coverage["states"] = len(r.states)
		coverage["transitions"] = r.Transitions
	} else {
		coverage["states"] = len(r.states)
		coverage["transitions"] = r.Transitions
		coverage["traces_validated_against_impl"] = r.Traces
		coverage["rule"] = check.Rule
		if r.Evaluations > 0 {
			coverage["evaluations"] = r.Evaluations
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	e := map[string]interface{}{
		"property": check.ID, "tier": tier, "seed": seed, "level": check.Level, "coverage": coverage,
		"assumptions": check.Assumptions, "wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, check.ID+".json"), append(b, '\n'), 0o644)
}

// Main is the entry point of an explorer binary.
func Main(checks []*Check) {
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fmt.Println("error: no check", id)
		os.Exit(2)
		return nil
	}
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Println("usage: run ID TIER SECONDS ROOT | replay FILE | list")
		os.Exit(2)
	}
	atoi := func(s string) int64 {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	switch args[0] {
	case "run":
		os.Exit(parent(find(args[1]), args[2], int(atoi(args[3])), args[4]))
	case "worker":
		worker(find(args[1]), args[2], int(atoi(args[3])), int(atoi(args[4])), atoi(args[5]), atoi(args[6]), time.Unix(atoi(args[7]), 0), args[8])
	case "one":
		one(find(args[1]), args[2])
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		var f struct {
			Check string
			Case  *Case
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		fmt.Println("history:", Show(f.Case.Ops))
		check := find(f.Check)
		dir, err := os.MkdirTemp("", "mc-replay-")
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		dead, v := alone(check, f.Case, dir, 0)
		os.RemoveAll(dir)
		if dead {
			v = "the process dies: " + v
		}
		if v != "" {
			fmt.Println(v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Check, args[1])
			os.Exit(1)
		}
		fmt.Println("holds")
	}
}
