//go:build sched

package main

// Interleavings of the concurrent parts of a compilation. The compiler is built with the overlay that schedgen
// writes, so the scheduler of shim/sched decides which goroutine runs between two synchronization operations.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/transforms"
	"github.com/stephen/cssc/verifharness/shim/errgroup"
	"github.com/stephen/cssc/verifharness/shim/sched"
)

// controlled is "no" if the compiler could not be built with the scheduler.
var controlled = "yes"

// scenario is a compilation whose schedules are explored.
type scenario struct {
	name    string
	proj    Proj
	entries []string
	tr      transforms.Options
	custom  bool
	// also are compilations of the same project at the same time.
	also    []*scenario
	key     string
	ref     *observation
	visited map[uint64]int
	states  int
}

// probe is a reporter without any synchronization.
type probe struct {
	texts    []string
	inside   bool
	returned bool
	fail     string
}

// AddError implements cssc.Reporter.
func (p *probe) AddError(err error) {
	if p.inside {
		p.fail = "the reporter is entered by two goroutines at once"
	}
	if p.returned {
		p.fail = "an error is reported after Compile returned: " + err.Error()
	}
	p.inside = true
	sched.Global()
	if controlled != "yes" {
		runtime.Gosched()
	}
	p.texts = append(p.texts, err.Error())
	p.inside = false
}

// stepResolver is a resolver during which other goroutines run.
type stepResolver struct{}

func (stepResolver) Resolve(spec, from string) (string, error) {
	sched.Point()
	if strings.HasPrefix(spec, "none") {
		return "", fmt.Errorf("refused to resolve %s", spec)
	}
	return filepath.Join(from, spec), nil
}

const maxSteps = 20000

// once executes a scenario in one schedule.
func (s *scenario) once(root string, choose func(n int, preempt bool) int) (*observation, sched.Outcome, string) {
	calls := append([]*scenario{s}, s.also...)
	recs := make([]*probe, len(calls))
	results := make([]*cssc.Result, len(calls))
	files := make([]map[string]string, len(calls))
	call := func(i int) {
		var entries []string
		for _, e := range calls[i].entries {
			entries = append(entries, filepath.Join(root, e))
		}
		opts := cssc.Options{Entry: entries, Reporter: recs[i], Transforms: calls[i].tr}
		if calls[i].custom {
			opts.Resolver = stepResolver{}
		}
		result := cssc.Compile(opts)
		recs[i].returned = true
		files[i] = map[string]string{}
		for k, v := range result.Files {
			files[i][k] = v
		}
		results[i] = result
	}
	for i := range calls {
		recs[i] = &probe{}
	}
	before := runtime.RaceErrors()
	fn := func() {
		if len(calls) == 1 {
			call(0)
			return
		}
		var wg errgroup.Group
		for i := range calls {
			i := i
			wg.Go(func() error {
				call(i)
				return nil
			})
		}
		wg.Wait()
	}
	var out sched.Outcome
	if controlled == "yes" {
		runtime.GOMAXPROCS(1)
		out = sched.Run(fn, maxSteps, choose)
	} else {
		fn()
	}
	if n := runtime.RaceErrors() - before; n > 0 {
		return nil, out, "data race:\n" + raceLog()
	}
	if out.Failure != "" {
		return nil, out, out.Failure
	}
	if out.Unsupported != "" {
		return nil, out, ""
	}
	o := &observation{files: map[string]string{}}
	for i, rec := range recs {
		if rec.fail != "" {
			return nil, out, rec.fail
		}
		if results[i] == nil {
			return nil, out, "no result"
		}
		if !reflect.DeepEqual(files[i], results[i].Files) {
			return nil, out, "the result changes after Compile returned"
		}
		for _, t := range rec.texts {
			o.errs = append(o.errs, which(i)+t)
		}
		for f, c := range files[i] {
			o.files[which(i)+f] = c
		}
	}
	sort.Strings(o.errs)
	return o, out, ""
}

// which names one of several compilations.
func which(i int) string { return strings.Repeat("other ", i) }

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			b, _ := ioutil.ReadFile(fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid()))
			if i := strings.LastIndex(string(b), "WARNING: DATA RACE"); i >= 0 {
				b = b[i:]
			}
			return clip(string(b), 4000)
		}
	}
	return ""
}

// schedules explores the schedules of one scenario.
func schedules(x *X, s *scenario, most int) {
	if s.key == "" {
		s.key = s.describe()
	}
	x.key = s.key
	if x.w.replay && x.w.announce {
		fmt.Println("scenario:", x.key)
	}
	x.w.sync(s.proj)
	root := filepath.Join(x.w.dir, "p")
	x.w.Stats.Execs++
	x.w.journal(x)
	if x.w.Stats.States&63 == 0 && time.Now().After(x.w.deadline) && !x.w.replay {
		panic(deadline{})
	}
	defer x.w.journal(x)
	if s.ref == nil {
		// Compilations at the same time have to do what each of them does alone.
		var out sched.Outcome
		o := &observation{files: map[string]string{}}
		for i, c := range append([]*scenario{s}, s.also...) {
			alone := *c
			alone.also = nil
			var one *observation
			var bad string
			one, out, bad = alone.once(root, func(int, bool) int { return 0 })
			if bad != "" {
				x.Fail("%s", bad)
				return
			}
			if one == nil {
				o = nil
				break
			}
			for _, t := range one.errs {
				o.errs = append(o.errs, which(i)+t)
			}
			for f, c := range one.files {
				o.files[which(i)+f] = c
			}
		}
		if o != nil {
			sort.Strings(o.errs)
		}
		if o == nil {
			x.uncontrolled(out.Unsupported)
			controlled = "no"
			runtime.GOMAXPROCS(runtime.NumCPU())
			return
		}
		if len(x.w.Stats.Samples) < 2 {
			x.w.Stats.Samples = append(x.w.Stats.Samples, clip(x.key, 400))
		}
		s.ref = o
		x.Tally("scenarios: " + x.w.part.Name)
	}
	reps := 1
	if controlled != "yes" {
		x.uncontrolled("no overlay")
		reps = 60
	}
	limit := s.limit(x.thorough)
	if limit > most {
		limit = most
	}
	if limit < 0 {
		x.Tally("left out")
		return
	}
	for i := 0; i < reps; i++ {
		x.w.Stats.States++
		pruned := false
		o, out, bad := s.once(root, func(n int, preempt bool) int {
			if !x.w.replay && x.pos == len(x.path) {
				// Nothing new comes after a state that was visited before with as many preemptions left.
				key, left := sched.State(), limit-x.dev
				if old, ok := s.visited[key]; pruned || ok && old >= left {
					pruned = true
					return 0
				}
				if s.visited == nil {
					s.visited = map[uint64]int{}
				}
				s.visited[key] = left
				s.states++
			}
			if preempt && x.dev >= limit {
				return 0
			}
			if preempt {
				return x.Choose(n)
			}
			return x.Free(n)
		})
		x.w.Stats.Transitions += out.Steps
		if bad != "" {
			x.Fail("%s", bad)
			return
		}
		if o == nil {
			x.uncontrolled(out.Unsupported)
			controlled = "no"
			return
		}
		x.Validated()
		if os.Getenv("VERIF_COUNT") != "" {
			x.Tally(fmt.Sprintf("%s/%v/%d", s.name, s.entries, s.tr.ImportRules))
		}
		if d := s.ref.diff(o); d != "" {
			x.Fail("this schedule leads to %s", d)
			return
		}
		x.Outcome(fmt.Sprint(len(o.files), len(o.errs), out.Steps))
	}
}

const unlimited = 1000

// limit is the number of preemptions to explore. It depends on the number of goroutines.
func (s *scenario) limit(thorough bool) int {
	n := 0
	for _, c := range append([]*scenario{s}, s.also...) {
		n += len(c.entries)
		for _, e := range c.entries {
			n += s.imported(e, map[string]bool{})
		}
	}
	n += 2 * len(s.also)
	limits := []int{0, unlimited, unlimited, 3, 2, 1, 0}
	if thorough {
		limits = []int{0, unlimited, unlimited, unlimited, unlimited, 3, 2, 1, 0}
	}
	if len(s.also) > 0 && (n >= len(limits) || limits[n] < 1) {
		return 1
	}
	if n < len(limits) {
		return limits[n]
	}
	return -1
}

// imported is the number of imports that lead away from a file.
func (s *scenario) imported(f string, above map[string]bool) (n int) {
	if above[f] {
		return
	}
	above[f] = true
	for _, m := range importRE.FindAllStringSubmatch(s.proj[f], -1) {
		n += 1 + s.imported(m[1], above)
	}
	delete(above, f)
	return
}

var importRE = regexp.MustCompile(`@import "\./(\w+\.css)"`)

// uncontrolled records that not all schedules are explored.
func (x *X) uncontrolled(why string) {
	x.Tally("not controlled: " + why)
	x.w.incomplete = true
}

func (s *scenario) describe() string {
	var l []string
	for f, c := range s.proj {
		if c == DirMark {
			c = "(directory)"
		}
		l = append(l, fmt.Sprintf("%s: %s", f, strings.ReplaceAll(c, "\n", " ")))
	}
	sort.Strings(l)
	out := s.name
	for _, c := range append([]*scenario{s}, s.also...) {
		out += fmt.Sprintf(" entries %v transforms %v custom %v |", c.entries, c.tr, c.custom)
	}
	return out + " " + strings.Join(l, " | ")
}

// plain is a file that all transformations work on.
const plain = "@custom-media --w (max-width: 9px);\n:root { --v: 1px }\n:any-link { margin: calc(1px + 1px) var(--v) }\n@media (--w) { b { top: 0 } }\n"

const (
	badSyntax = "\n\nx{k:v"
	badCalc   = "\nx { width: calc(1px / 0) }\n"
)

func imports(files ...string) string {
	out := ""
	for _, f := range files {
		out += "@import \"./" + f + "\";\n"
	}
	return out
}

// templates are scenarios with several goroutines that meet.
func templates() []*scenario {
	type t struct {
		name    string
		proj    Proj
		entries string
	}
	leaf := "x { k: v }\n"
	list := []t{
		{"two entries", Proj{"a.css": plain, "b.css": plain}, "a b"},
		{"same entry twice", Proj{"a.css": plain}, "a a"},
		{"same faulty entry twice", Proj{"a.css": leaf + badSyntax}, "a a"},
		{"missing entries", Proj{}, "a b"},
		{"missing entry twice", Proj{"b.css": leaf}, "a a"},
		{"faulty and healthy", Proj{"a.css": leaf + badSyntax, "b.css": leaf + badCalc}, "a b"},
		{"two bad calcs", Proj{"a.css": leaf + badCalc, "b.css": leaf + badCalc}, "a b"},
		{"entry imports entry", Proj{"a.css": imports("b.css") + leaf, "b.css": plain}, "a b"},
		{"entry imports entry, other order", Proj{"a.css": imports("b.css") + leaf, "b.css": plain}, "b a"},
		{"entries import each other", Proj{"a.css": imports("b.css") + leaf, "b.css": imports("a.css") + plain}, "a b"},
		{"cycle", Proj{"a.css": imports("b.css") + leaf, "b.css": imports("a.css") + leaf}, "a"},
		{"self import", Proj{"a.css": imports("a.css") + leaf}, "a"},
		{"self import twice", Proj{"a.css": imports("a.css", "a.css") + leaf}, "a"},
		{"import twice", Proj{"a.css": imports("b.css", "b.css") + leaf, "b.css": plain}, "a"},
		{"import faulty twice", Proj{"a.css": imports("b.css", "b.css") + leaf, "b.css": leaf + badSyntax}, "a"},
		{"import bad calc twice", Proj{"a.css": imports("b.css", "b.css") + leaf, "b.css": leaf + badCalc}, "a"},
		{"import missing twice", Proj{"a.css": imports("b.css", "b.css") + leaf}, "a"},
		{"import unresolvable", Proj{"a.css": imports("none", "none") + leaf}, "a"},
		{"import unresolvable and missing", Proj{"a.css": imports("none", "b.css") + leaf}, "a"},
		{"two imports", Proj{"a.css": imports("b.css", "c.css") + leaf, "b.css": plain, "c.css": plain}, "a"},
		{"two imports and an entry", Proj{"a.css": imports("b.css", "c.css") + leaf, "b.css": leaf, "c.css": plain}, "a c"},
		{"two faulty imports", Proj{"a.css": imports("b.css", "c.css") + leaf, "b.css": leaf + badSyntax, "c.css": leaf + badCalc}, "a"},
		{"entries share import", Proj{"a.css": imports("c.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": plain}, "a b"},
		{"entries share faulty import", Proj{"a.css": imports("c.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": leaf + badSyntax}, "a b"},
		{"entries share bad calc", Proj{"a.css": imports("c.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": leaf + badCalc}, "a b"},
		{"entries share missing import", Proj{"a.css": imports("c.css") + leaf, "b.css": imports("c.css") + leaf}, "a b"},
		{"diamond", Proj{"a.css": imports("b.css", "c.css") + leaf, "b.css": imports("d.css") + leaf, "c.css": imports("d.css") + leaf, "d.css": plain}, "a"},
		{"chain", Proj{"a.css": imports("b.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": plain}, "a"},
		{"chain with entries", Proj{"a.css": imports("b.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": plain}, "a c"},
		{"cycle of three", Proj{"a.css": imports("b.css") + leaf, "b.css": imports("c.css") + leaf, "c.css": imports("a.css") + leaf}, "a"},
		{"three entries", Proj{"a.css": leaf, "b.css": leaf + badSyntax, "c.css": plain}, "a b c"},
		{"entry three times", Proj{"a.css": leaf + badCalc}, "a a a"},
		{"three imports", Proj{"a.css": imports("b.css", "b.css", "b.css") + leaf, "b.css": leaf + badCalc}, "a"},
	}
	var out []*scenario
	for _, t := range list {
		for cfg := trConfigs - 3; cfg < trConfigs; cfg++ {
			s := &scenario{name: t.name, proj: t.proj, tr: trConfig(cfg)}
			for _, e := range strings.Fields(t.entries) {
				s.entries = append(s.entries, e+".css")
			}
			s.custom = strings.Contains(t.name, "unresolvable")
			out = append(out, s)
		}
	}
	return out
}

// graphs are all import graphs over n files with the given lists of imports.
func graphs(lists [][]int, n int, entries []string, contents []string) (out []*scenario) {
	names := []string{"a.css", "b.css", "c.css"}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(lists)
	}
	for g := 0; g < total; g++ {
		for _, content := range contents {
			p := Proj{}
			for i, k := 0, g; i < n; i++ {
				var l []string
				for _, t := range lists[k%len(lists)] {
					l = append(l, names[t])
				}
				k /= len(lists)
				p[names[i]] = imports(l...) + fmt.Sprintf("x%d { k: v }\n", i)
				if i == n-1 {
					p[names[i]] += content
				}
			}
			for _, e := range entries {
				for cfg := trConfigs - 3; cfg < trConfigs; cfg++ {
					s := &scenario{name: "graph", proj: p, tr: trConfig(cfg)}
					for _, e := range strings.Fields(e) {
						s.entries = append(s.entries, e+".css")
					}
					out = append(out, s)
				}
			}
		}
	}
	return
}

func schedulePart(name string, most int, thorough bool, make func() []*scenario) Part {
	var list []*scenario
	return Part{Name: name, Dev: [2]int{unlimited, unlimited}, Thorough: thorough, Loose: true, Body: func(x *X) {
		if list == nil {
			list = make()
		}
		i := x.Free(len(list))
		if !x.w.replay && i%x.w.Shards != x.w.Shard {
			x.Skip()
		}
		schedules(x, list[i], most)
	}}
}

func init() {
	two := [][]int{{}, {0}, {1}, {0, 1}, {1, 0}, {1, 1}}
	small := func() []*scenario {
		return graphs(two, 2, []string{"a", "a b"}, []string{"", badSyntax, badCalc})
	}
	register(&Check{
		ID:   "C15",
		Race: true,
		Rule: "The compiler itself is built with its goroutines, mutexes, wait groups, channels, atomics and ranges over maps under a controlled scheduler, and with the race detector. Every schedule within the limit of preemptions (unlimited for up to 2 concurrent jobs, 3 for 3, 2 for 4, 1 for 5; thorough: unlimited for up to 4, 3 for 5, 2 for 6, 1 for 7) has to give the same outputs, source maps and multiset of errors as the first one, without a data race, deadlock, overlapping calls of the reporter, or anything after Compile returned. Continuations of states that were visited before (same order of operations on every synchronization object) are cut off.",
		Assume: []string{
			"goroutines only communicate through synchronization operations, which the race detector checks in every schedule",
			"a change of the scheduled goroutine between two synchronization operations makes no difference then",
			"the race detector remembers the last four accesses of each memory word",
		},
		Parts: []Part{
			schedulePart("templates, one preemption", 1, false, templates),
			schedulePart("graphs of two files, one preemption", 1, false, small),
			schedulePart("templates", unlimited, false, templates),
			schedulePart("graphs of two files", unlimited, false, small),
			schedulePart("graphs of three files", unlimited, true, func() []*scenario {
				return graphs([][]int{{}, {0}, {1}, {2}, {1, 2}, {2, 2}}, 3, []string{"a", "a c", "a b c"}, []string{"", badSyntax, badCalc})
			}),
		},
	})
}
