package main

// The explorer: stateless depth-first enumeration of choice trees with iterated deviation bounds,
// sharded over worker processes.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Part is one bounded space of executions. Body is run once for every path of its choice tree.
type Part struct {
	Name string
	// Dev is the number of deviations (non-default answers of Choose) explored: quick and thorough.
	Dev [2]int
	// Thorough parts are only explored by the thorough tier.
	Thorough bool
	// Loose parts explore the bound at once. The number of alternatives may vary, which makes them incomplete.
	Loose bool
	Body  func(x *X)
}

// Check decides one property.
type Check struct {
	ID    string
	Rule  string
	Parts []Part
	// Assume lists what is trusted.
	Assume []string
	// Race is set if the race detector is used.
	Race   bool
	Custom func(r *Run) *Violation // replaces worker exploration altogether
}

type choice struct {
	N, V int
	Free bool
}

// Violation is a failing case.
type Violation struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Choices  []int  `json:"choices"`
	Thorough bool   `json:"thorough"`
	Message  string `json:"message"`
	Input    string `json:"input"`
}

// X is the context of one execution.
type X struct {
	w    *Worker
	path []choice
	// answers are given to the first choices, for a replay.
	answers []int
	pos     int
	dev     int
	key     string
	fail    string
	ran     bool
	// thorough is set in the thorough tier.
	thorough bool
}

type skip struct{}

func (x *X) choose(n int, free bool) int {
	if n <= 0 {
		panic("choice without alternatives")
	}
	if x.pos < len(x.path) {
		c := x.path[x.pos]
		if x.w.part.Loose && (c.N != n || c.Free != free) {
			x.Tally("diverging schedules")
			x.w.incomplete = true
			x.pos++
			if c.V >= n {
				return n - 1
			}
			return c.V
		}
		if c.N != n || c.Free != free {
			panic(fmt.Sprintf("divergence while replaying a prefix: choice %d was %v, now %d/%v", x.pos, c, n, free))
		}
		x.pos++
		if !free && c.V > 0 {
			x.dev++
		}
		return c.V
	}
	c := choice{n, 0, free}
	if x.pos < len(x.answers) {
		c.V = x.answers[x.pos]
		if c.V >= n {
			panic("divergence while replaying: alternative out of range")
		}
	}
	x.path = append(x.path, c)
	x.pos++
	return c.V
}

// Choose picks one of n alternatives. Alternative 0 is the default, the others are deviations.
func (x *X) Choose(n int) int { return x.choose(n, false) }

// Free picks one of n alternatives, all of which are explored.
func (x *X) Free(n int) int { return x.choose(n, true) }

// Pick and FreePick are the same for strings.
func (x *X) Pick(in ...string) string     { return in[x.Choose(len(in))] }
func (x *X) FreePick(in ...string) string { return in[x.Free(len(in))] }

// Bool deviates from false.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Case announces the complete case. It does not return if the case is not to be executed here.
func (x *X) Case(key string) {
	x.key = key
	if x.w.replay {
		if x.w.announce {
			fmt.Printf("case: %s\n", clip(key, 2000))
		}
		return
	}
	if x.dev < x.w.level {
		panic(skip{})
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	if int((v>>17)%uint64(x.w.Shards)) != x.w.Shard {
		panic(skip{})
	}
	if _, ok := x.w.seen[v]; ok {
		panic(skip{})
	}
	x.w.seen[v] = struct{}{}
	x.w.Stats.States++
	if x.w.Stats.States&63 == 0 && time.Now().After(x.w.deadline) {
		panic(deadline{})
	}
	x.w.journal(x)
	x.ran = true
	if n := x.w.Stats.States; len(x.w.Stats.Samples) < 2 && (n == 3 || n == 400) || n == 5000 {
		x.w.Stats.Samples = append(x.w.Stats.Samples, x.w.part.Name+": "+clip(key, 400))
	}
}

// Skip abandons a path that does not lead to a case.
func (x *X) Skip() { panic(skip{}) }

type deadline struct{}

// Fail records a violation of the property by this case.
func (x *X) Fail(f string, args ...interface{}) {
	if x.fail == "" {
		x.fail = fmt.Sprintf(f, args...)
	}
}

// Known records that the case shows a listed finding. It returns false if it is not listed.
func (x *X) Known(id string) bool {
	if !x.w.known[id] {
		return false
	}
	if x.w.Stats.Known == nil {
		x.w.Stats.Known = map[string]int{}
	}
	x.w.Stats.Known[id]++
	return true
}

// Outcome counts distinct observations.
func (x *X) Outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x.w.outcomes[h.Sum64()] = struct{}{}
}

// Validated counts a comparison between an execution of the implementation and the model.
func (x *X) Validated() { x.w.Stats.Validated++ }

// Tally counts events, i.e. how many cases took an interesting branch.
func (x *X) Tally(name string) {
	if x.w.Stats.Tally == nil {
		x.w.Stats.Tally = map[string]int{}
	}
	x.w.Stats.Tally[name]++
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// Stats is what a worker reports.
type Stats struct {
	States, Transitions, Validated, Execs, Mapped int
	Outcomes                                      int
	Samples                                       []string
	Known, Tally                                  map[string]int
	// Done maps parts to the completed deviation bound.
	Done map[string]int
	// Sizes maps parts to their number of cases.
	Sizes map[string]int
	Full  bool // all parts completed
}

// Worker explores one shard.
type Worker struct {
	check         *Check
	part          *Part
	level         int
	Shard, Shards int
	seen          map[uint64]struct{}
	outcomes      map[uint64]struct{}
	deadline      time.Time
	replay        bool
	announce      bool
	thorough      bool
	known         map[string]bool
	Stats         Stats
	incomplete    bool
	jr            []byte
	jn            uint64
	dir           string
	disk          map[string]string
	tree          string // the tree on disk of C16
	dirs          map[string]bool
}

func (w *Worker) journal(x *X) {
	if w.jr == nil {
		return
	}
	w.jn++
	b, _ := json.Marshal(struct {
		P string
		C []int
	}{w.part.Name, vals(x.path)})
	s := fmt.Sprintf("%d\n%d\n", w.jn, len(b))
	n := copy(w.jr, s)
	copy(w.jr[n:], b)
}

func vals(p []choice) []int {
	var out []int
	for _, c := range p {
		out = append(out, c.V)
	}
	return out
}

// run executes the body once. It returns false when time is up.
func (w *Worker) run(x *X) (ok bool) {
	ok = true
	defer func() {
		switch r := recover().(type) {
		case nil:
		case skip:
		case deadline:
			ok = false
		default:
			panic(r)
		}
	}()
	x.pos, x.dev, x.key, x.fail, x.ran, x.thorough = 0, 0, "", "", false, w.thorough
	w.part.Body(x)
	return
}

// explore enumerates the part up to the deviation bound.
func (w *Worker) explore(bound int) (complete bool, v *Violation) {
	w.level = 0
	if w.part.Loose {
		w.level = bound
	}
	for ; w.level <= bound; w.level++ {
		x := &X{w: w}
		edges := 0
		depth := 0
		for {
			if !w.run(x) {
				return false, nil
			}
			edges += len(x.path) - depth
			if x.fail != "" {
				if os.Getenv("VERIF_ALL") != "" {
					fmt.Printf("FAIL %s: %q\n%s\n", w.part.Name, x.key, indent(clip(x.fail, 1500)))
				}
				msg, key, path := x.fail, x.key, append([]choice{}, x.path...)
				// A failure has to show again before it is believed.
				again := 0
				for i := 0; i < 5; i++ {
					y := &X{w: w, path: append([]choice{}, path...)}
					w.replay = true
					w.run(y)
					w.replay = false
					if y.fail != "" {
						again++
					}
				}
				if again > 0 && os.Getenv("VERIF_ALL") == "" {
					return false, &Violation{Property: w.check.ID, Part: w.part.Name, Choices: vals(path), Thorough: w.thorough,
						Message: fmt.Sprintf("%s\n(%d of 5 replays failed again)", msg, again), Input: key}
				}
				x.Tally("unconfirmed: " + clip(msg, 200))
			}
			// Backtrack.
			if x.pos < len(x.path) {
				if !w.part.Loose {
					panic("divergence while replaying: fewer choices")
				}
				x.Tally("diverging schedules")
				w.incomplete = true
				x.path = x.path[:x.pos]
			}
			i := len(x.path) - 1
			for ; i >= 0; i-- {
				c := x.path[i]
				if c.V+1 >= c.N {
					continue
				}
				if c.Free || c.V > 0 {
					break
				}
				dev := 0
				for _, b := range x.path[:i] {
					if !b.Free && b.V > 0 {
						dev++
					}
				}
				if dev < w.level {
					break
				}
			}
			if i < 0 {
				break
			}
			x.path = x.path[:i+1]
			x.path[i].V++
			depth = i
		}
		if w.Shard == 0 && !w.part.Loose {
			w.Stats.Transitions += edges
		}
		w.Stats.Done[w.part.Name] = w.level
	}
	return true, nil
}

func (w *Worker) all() *Violation {
	w.Stats.Done = map[string]int{}
	w.Stats.Sizes = map[string]int{}
	w.outcomes = map[uint64]struct{}{}
	w.Stats.Full = true
	for i := range w.check.Parts {
		w.part = &w.check.Parts[i]
		if w.part.Thorough && !w.thorough {
			continue
		}
		w.seen = map[uint64]struct{}{}
		bound := w.part.Dev[0]
		if w.thorough {
			bound = w.part.Dev[1]
		}
		complete, v := w.explore(bound)
		if v != nil {
			return v
		}
		if !complete || w.incomplete {
			w.Stats.Full = false
		}
		if !w.part.Loose {
			w.Stats.Sizes[w.part.Name] += len(w.seen)
		}
	}
	w.Stats.Outcomes = len(w.outcomes)
	return nil
}

// workerMain is the entry of a worker process.
func workerMain(c *Check, shard, shards int, thorough bool, until time.Time, scratch string) {
	w := &Worker{check: c, Shard: shard, Shards: shards, thorough: thorough, deadline: until, known: loadKnown(c.ID)}
	w.dir = filepath.Join(scratch, fmt.Sprintf("w%d", shard))
	must(os.MkdirAll(w.dir, 0o755))
	jf := filepath.Join(scratch, fmt.Sprintf("journal%d", shard))
	f, err := os.OpenFile(jf, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	must(err)
	must(f.Truncate(1 << 20))
	w.jr, err = syscall.Mmap(int(f.Fd()), 0, 1<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	v := w.all()
	out, err := json.Marshal(struct {
		Stats     Stats
		Violation *Violation
	}{w.Stats, v})
	must(err)
	must(ioutil.WriteFile(filepath.Join(scratch, fmt.Sprintf("result%d", shard)), out, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// replayCase runs a single case in this process. It reports whether it fails.
func replayCase(c *Check, v *Violation, dir string) (string, error) {
	w := &Worker{check: c, Shards: 1, replay: true, announce: true, thorough: v.Thorough, known: loadKnown(c.ID), dir: dir, outcomes: map[uint64]struct{}{}}
	for i := range c.Parts {
		if c.Parts[i].Name == v.Part {
			w.part = &c.Parts[i]
		}
	}
	if w.part == nil {
		return "", fmt.Errorf("no part %q", v.Part)
	}
	x := &X{w: w, answers: v.Choices}
	w.run(x)
	return x.fail, nil
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type knownEntry struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

var knownFile = "/verif/known_findings.json"

func knownEntries() []knownEntry {
	b, err := ioutil.ReadFile(knownFile)
	must(err)
	var f struct {
		Findings []knownEntry `json:"findings"`
	}
	must(json.Unmarshal(b, &f))
	return f.Findings
}

func loadKnown(prop string) map[string]bool {
	out := map[string]bool{}
	for _, e := range knownEntries() {
		if e.Property == prop {
			out[e.ID] = true
		}
	}
	return out
}

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }
