package main

// The parent process: starts the workers, watches for crashes, hangs and excessive memory, confirms
// violations by replaying them, and writes the evidence.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

const workers = 8

// raceEnv makes the race detector report every race without ending the process.
const raceEnv = "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0"

var (
	hangAfter = 60 * time.Second
	maxRSS    = int64(3) << 30
)

// Run is one run of a check.
type Run struct {
	Check    *Check
	Thorough bool
	Seed     int
	Start    time.Time
	Until    time.Time
	Scratch  string
	Stats    Stats
	Problems []string
	Extra    map[string]interface{}
}

func scratchBase() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if d, err := ioutil.TempDir("/dev/shm", "cssc-verif-"); err == nil {
			return d
		}
	}
	d, err := ioutil.TempDir("", "cssc-verif-")
	must(err)
	return d
}

func evidenceDir() string {
	if d := os.Getenv("VERIF_EVIDENCE_DIR"); d != "" {
		return d
	}
	return "/verif/evidence"
}

type proc struct {
	cmd    *exec.Cmd
	shard  int
	stderr *bytes.Buffer
	done   chan error
	count  string
	since  time.Time
}

// journalled returns the case a worker was last working on.
func journalled(scratch string, shard int) (count, part string, choices []int) {
	b, err := ioutil.ReadFile(filepath.Join(scratch, fmt.Sprintf("journal%d", shard)))
	if err != nil {
		return
	}
	f := bytes.SplitN(b, []byte("\n"), 3)
	if len(f) < 3 {
		return
	}
	n, err := strconv.Atoi(string(f[1]))
	if err != nil || n > len(f[2]) {
		return
	}
	var j struct {
		P string
		C []int
	}
	if json.Unmarshal(f[2][:n], &j) != nil {
		return
	}
	return string(f[0]), j.P, j.C
}

func rss(pid int) int64 {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// execReplay runs a case in fresh processes and returns how many of them failed, and how.
func (r *Run) execReplay(v *Violation, times int) (failed int, how string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < times; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			file := filepath.Join(r.Scratch, fmt.Sprintf("confirm%d.json", i))
			b, _ := json.Marshal(v)
			must(ioutil.WriteFile(file, b, 0o644))
			bad, text := replayProcess(r.Check.ID, file)
			mu.Lock()
			defer mu.Unlock()
			if bad {
				failed++
				how = text
			}
		}()
	}
	wg.Wait()
	return
}

// replayProcess runs one replay with the limits of a worker.
func replayProcess(id, file string) (bad bool, text string) {
	cmd := exec.Command(os.Args[0], "replay-one", id, file)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), raceEnv)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				return false, ""
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				must(fmt.Errorf("replay: %s", out.String()))
			}
			return true, clip(out.String(), 3000)
		case <-tick.C:
			if time.Since(start) > hangAfter {
				cmd.Process.Kill()
				<-done
				return true, "does not terminate"
			}
			if rss(cmd.Process.Pid) > maxRSS {
				cmd.Process.Kill()
				<-done
				return true, "uses more than 3 GB of memory"
			}
		}
	}
}

func (r *Run) start(shard int) *proc {
	mode := "quick"
	if r.Thorough {
		mode = "thorough"
	}
	cmd := exec.Command(os.Args[0], "worker", r.Check.ID, strconv.Itoa(shard), mode, strconv.FormatInt(r.Until.UnixNano(), 10), r.Scratch)
	p := &proc{cmd: cmd, shard: shard, stderr: &bytes.Buffer{}, done: make(chan error, 1), since: time.Now()}
	cmd.Stderr = p.stderr
	cmd.Stdout = p.stderr
	if os.Getenv("VERIF_ALL") != "" {
		cmd.Stdout = os.Stdout
	}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if r.Check.Race {
		cmd.Env = append(cmd.Env, raceEnv+" log_path="+filepath.Join(r.Scratch, "race"))
	}
	must(cmd.Start())
	go func() { p.done <- cmd.Wait() }()
	return p
}

// explore runs all workers. It returns the violation that was found.
func (r *Run) explore() *Violation {
	procs := map[int]*proc{}
	for i := 0; i < workers; i++ {
		procs[i] = r.start(i)
	}
	kill := func() {
		for _, p := range procs {
			p.cmd.Process.Kill()
			<-p.done
		}
	}
	full := true
	r.Stats.Done = nil
	for len(procs) > 0 {
		time.Sleep(20 * time.Millisecond)
		for i, p := range procs {
			problem := ""
			select {
			case err := <-p.done:
				delete(procs, i)
				if err == nil {
					b, err := ioutil.ReadFile(filepath.Join(r.Scratch, fmt.Sprintf("result%d", i)))
					must(err)
					var res struct {
						Stats     Stats
						Violation *Violation
					}
					must(json.Unmarshal(b, &res))
					r.merge(res.Stats)
					full = full && res.Stats.Full
					if res.Violation != nil {
						kill()
						return res.Violation
					}
					continue
				}
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
					kill()
					must(fmt.Errorf("worker: %s", p.stderr.String()))
				}
				problem = "crash: " + clip(p.stderr.String(), 3000)
			default:
				count, _, _ := journalled(r.Scratch, i)
				if count != p.count {
					p.count, p.since = count, time.Now()
				}
				if time.Since(p.since) > hangAfter && time.Now().After(r.Until) {
					// Only generating cases, or slow at the end: not a verdict.
				}
				if time.Since(p.since) > hangAfter {
					problem = "no progress for a minute"
				} else if rss(p.cmd.Process.Pid) > maxRSS {
					problem = "uses more than 3 GB of memory"
				}
				if problem == "" {
					continue
				}
				p.cmd.Process.Kill()
				<-p.done
				delete(procs, i)
			}
			_, part, choices := journalled(r.Scratch, i)
			if part == "" {
				kill()
				must(fmt.Errorf("worker died before its first case: %s", problem))
			}
			v := &Violation{Property: r.Check.ID, Part: part, Choices: choices, Thorough: r.Thorough, Message: problem}
			// The whole machine is needed to tell a hang from a slow run.
			kill()
			n, how := r.execReplay(v, 5)
			if n >= 3 {
				v.Message = fmt.Sprintf("%s\n(%d of 5 replays in new processes failed again: %s)", problem, n, clip(how, 1500))
				return v
			}
			r.Problems = append(r.Problems, fmt.Sprintf("unconfirmed (%d of 5 replays): part %s choices %v: %s", n, part, choices, clip(problem, 1500)))
			r.Stats.Full = false
			return nil
		}
	}
	r.Stats.Full = full
	return nil
}

func (r *Run) merge(s Stats) {
	t := &r.Stats
	t.States += s.States
	t.Transitions += s.Transitions
	t.Validated += s.Validated
	t.Mapped += s.Mapped
	t.Execs += s.Execs
	t.Outcomes += s.Outcomes
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	add := func(dst *map[string]int, src map[string]int) {
		for k, v := range src {
			if *dst == nil {
				*dst = map[string]int{}
			}
			(*dst)[k] += v
		}
	}
	add(&t.Known, s.Known)
	add(&t.Tally, s.Tally)
	add(&t.Sizes, s.Sizes)
	if t.Done == nil {
		t.Done = s.Done
	} else {
		for k, v := range t.Done {
			if d, ok := s.Done[k]; !ok {
				delete(t.Done, k)
			} else if d < v {
				t.Done[k] = d
			}
		}
	}
}

// finish writes evidence, prints the result and exits.
func (r *Run) finish(v *Violation) {
	dir := evidenceDir()
	must(os.MkdirAll(dir, 0o755))
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	violations := 0
	if v != nil {
		violations = 1
	}
	cov := map[string]interface{}{
		"states":                        r.Stats.States,
		"transitions":                   r.Stats.Transitions,
		"traces_validated_against_impl": r.Stats.Validated,
		"rules_mapped":                  r.Stats.Mapped,
		"compilations":                  r.Stats.Execs,
		"distinct_outcomes":             r.Stats.Outcomes,
		"samples":                       r.Stats.Samples,
		"rule":                          r.Check.Rule,
		"exhaustive":                    r.Stats.Full && v == nil,
		"completed_deviation_bounds":    r.Stats.Done,
		"cases_per_part":                r.Stats.Sizes,
		"tally":                         r.Stats.Tally,
		"known_finding_cases":           r.Stats.Known,
		"problems":                      r.Problems,
	}
	for k, e := range r.Extra {
		cov[k] = e
	}
	ev := map[string]interface{}{
		"property": r.Check.ID, "tier": tier, "seed": r.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": r.Check.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(ioutil.WriteFile(filepath.Join(dir, r.Check.ID+".json"), append(b, '\n'), 0o644))
	for _, e := range knownEntries() {
		if e.Property == r.Check.ID && r.Stats.Known[e.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases)\n", e.Property, e.ID, e.What, r.Stats.Known[e.ID])
		}
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d validated executions, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		r.Check.ID, tier, r.Stats.States, r.Stats.Transitions, r.Stats.Validated, r.Stats.Outcomes, r.Stats.Full && v == nil, time.Since(r.Start).Seconds())
	for _, p := range r.Problems {
		fmt.Println("note:", p)
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println("bounds:", r.Stats.Done, "sizes:", r.Stats.Sizes, "tally:", r.Stats.Tally)
	}
	if v != nil {
		must(os.MkdirAll(filepath.Join(dir, "replays"), 0o755))
		file := filepath.Join(dir, "replays", r.Check.ID+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		must(ioutil.WriteFile(file, append(b, '\n'), 0o644))
		fmt.Println("input:")
		fmt.Println(indent(clip(v.Input, 3000)))
		fmt.Println(indent(clip(v.Message, 4000)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check.ID, file)
		os.RemoveAll(r.Scratch)
		os.Exit(1)
	}
	os.RemoveAll(r.Scratch)
	os.Exit(0)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID quick|thorough | replay ID FILE")
		os.Exit(3)
	}
	c := findCheck(os.Args[2])
	if c == nil {
		must(fmt.Errorf("no check %s", os.Args[2]))
	}
	switch os.Args[1] {
	case "worker":
		shard, _ := strconv.Atoi(os.Args[3])
		ns, _ := strconv.ParseInt(os.Args[5], 10, 64)
		workerMain(c, shard, workers, os.Args[4] == "thorough", time.Unix(0, ns), os.Args[6])
	case "history":
		historyMain()
	case "replay-one", "replay":
		b, err := ioutil.ReadFile(os.Args[3])
		must(err)
		var v Violation
		must(json.Unmarshal(b, &v))
		dir := scratchBase()
		msg, err := replayCase(c, &v, dir)
		os.RemoveAll(dir)
		must(err)
		if msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
		if os.Args[1] == "replay" {
			fmt.Println("the property holds for this case")
		}
	case "run":
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		r := &Run{Check: c, Thorough: os.Args[3] == "thorough", Seed: seed, Start: time.Now(), Scratch: scratchBase(), Extra: map[string]interface{}{}}
		budget := 240 * time.Second
		if r.Thorough {
			budget = 3 * time.Hour
		}
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if d, err := time.ParseDuration(s); err == nil {
				budget = d
			}
		}
		r.Until = r.Start.Add(budget)
		if c.Custom != nil {
			r.finish(c.Custom(r))
		}
		r.finish(r.explore())
	}
}
