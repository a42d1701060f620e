package main

// Histories of compilations in one process. Every history runs in a process of its own, and each of its
// compilations has to give what it gives as the only compilation of a process.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
)

// step is one compilation of a history. The files are put in place before it.
type step struct {
	Name string
	// Over replaces files of the common project. An empty content removes the file.
	Over     map[string]string
	Dir      string   // working directory
	Entries  []string // those that start with a slash are below the root
	Cfg      int
	Resolver string
	Silent   bool // without a reporter
}

// stepResult is what the user sees of a step.
type stepResult struct {
	Files  map[string]string
	Errs   []string
	Stderr string
	Bad    string
}

const historyCSS = `@import "./b.css";
@import "pkg";
@import "lib/c";
@custom-media --w (max-width: 11px);
:root { --v: 21px; --u: var(--v) }
@media (--w) and (width >= 31px) { a:any-link { margin: calc(1px + 2px) var(--u) } }
`

// usesOnly relies on definitions that it does not have.
const usesOnly = "@media (--w) { a { margin: var(--v) var(--u, 5px) var(--b) } }\n@media (--b) { b { top: calc(1px * 2) } }\n"

var historyBase = map[string]string{
	"a.css":                          historyCSS,
	"b.css":                          "@custom-media --b print;\n:root { --b: 41px }\nb:any-link { top: var(--b) }\n",
	"node_modules/pkg/package.json":  `{"style": "one.css"}`,
	"node_modules/pkg/one.css":       "one { k: v }\n",
	"node_modules/pkg/two.css":       "two { k: v }\n",
	"node_modules/lib/c.css":         "c { k: v }\n",
	"lib/a.css":                      "@import \"./b.css\";\nother { k: var(--v) }\n",
	"lib/b.css":                      "lib { k: v }\n",
	"lib/lib/c.css":                  "based { k: v }\n",
	"flat/b.css":                     "flat { k: v }\n",
	"flat/pkg":                       "flat2 { k: v }\n",
	"flat/c":                         "flat3 { k: v }\n",
	"other/node_modules/pkg/one.css": "never { k: v }\n",
}

func historySteps() []step {
	a := []string{"/a.css"}
	all := trConfigs - 3
	return []step{
		{Name: "inline all", Entries: a, Cfg: all + 1},
		{Name: "passthrough", Entries: a, Cfg: 0},
		{Name: "follow all", Entries: a, Cfg: all + 2},
		{Name: "inline only", Entries: a, Cfg: 1},
		{Name: "all but imports", Entries: a, Cfg: all},
		{Name: "other values", Entries: a, Cfg: all + 1, Over: map[string]string{"a.css": strings.NewReplacer("11px", "12px", "21px", "22px", "31px", "32px").Replace(historyCSS)}},
		{Name: "other import", Entries: a, Cfg: all + 1, Over: map[string]string{"b.css": "@custom-media --b scree;\n:root { --b: 42px }\nb:any-link { top: var(--b) }\n"}},
		{Name: "faulty import", Entries: a, Cfg: all + 1, Over: map[string]string{"b.css": "b{" + syntaxError}},
		{Name: "missing import", Entries: a, Cfg: all + 1, Over: map[string]string{"b.css": ""}},
		{Name: "uses without definitions", Entries: a, Cfg: all + 1, Over: map[string]string{"a.css": usesOnly}},
		{Name: "uses without definitions, passthrough", Entries: a, Cfg: 0, Over: map[string]string{"a.css": usesOnly}},
		{Name: "two entries", Entries: []string{"/a.css", "/b.css"}, Cfg: all + 2},
		{Name: "imported file alone", Entries: []string{"/b.css"}, Cfg: all + 1},
		{Name: "other main file", Entries: a, Cfg: 2, Over: map[string]string{"node_modules/pkg/package.json": `{"style": "two.css"}`}},
		{Name: "no package.json", Entries: a, Cfg: 2, Over: map[string]string{"node_modules/pkg/package.json": "", "node_modules/pkg/index.css": "index { k: v }\n"}},
		{Name: "no package", Entries: a, Cfg: 2, Over: map[string]string{"node_modules/pkg/package.json": "", "node_modules/pkg/one.css": "", "node_modules/pkg/two.css": ""}},
		{Name: "base directory", Entries: a, Cfg: 1, Resolver: "node:lib"},
		{Name: "custom resolver", Entries: a, Cfg: all + 2, Resolver: "flat"},
		{Name: "silent", Entries: a, Cfg: all + 1, Silent: true},
		{Name: "silent with faulty import", Entries: a, Cfg: all + 1, Over: map[string]string{"b.css": "b{" + syntaxError}, Silent: true},
		{Name: "relative", Entries: []string{"a.css"}, Cfg: all + 1},
		{Name: "relative elsewhere", Entries: []string{"a.css"}, Dir: "lib", Cfg: all + 1},
		{Name: "unclean twice", Entries: []string{"/lib/../a.css", "/a.css"}, Cfg: all + 1},
		{Name: "missing entry", Entries: []string{"/none.css"}, Cfg: all + 1},
		{Name: "faulty entry", Entries: a, Cfg: all, Over: map[string]string{"a.css": historyCSS + "@media (--w) { a { b: c" + syntaxError}},
		{Name: "bad calc", Entries: a, Cfg: all, Over: map[string]string{"a.css": ":root { --x: var(--x) }\na { width: calc(1px / 0) var(--x) }\n"}},
		{Name: "swapped", Entries: []string{"/a.css"}, Cfg: all + 1, Over: map[string]string{"a.css": "@import './b.css';\nx { top: var(--v) }\n", "b.css": historyCSS}},
		{Name: "large", Entries: a, Cfg: all, Over: map[string]string{"a.css": strings.Repeat(historyCSS[strings.Index(historyCSS, ":root"):], 40)}},
	}
}

// put makes the files of a directory those of the project.
func put(root string, over map[string]string) {
	must(os.Chdir("/"))
	must(os.RemoveAll(root))
	write := func(f, c string) {
		if c == "" {
			return
		}
		full := filepath.Join(root, f)
		must(os.MkdirAll(filepath.Dir(full), 0o755))
		must(ioutil.WriteFile(full, []byte(c), 0o644))
	}
	for f, c := range historyBase {
		if _, ok := over[f]; !ok {
			write(f, c)
		}
	}
	for f, c := range over {
		write(f, c)
	}
}

// withStderr runs fn and returns what it writes to the standard error and output.
func withStderr(scratch string, fn func()) (stderr, stdout string) {
	var saved, fds [2]int
	var names [2]string
	for i, fd := range []int{2, 1} {
		names[i] = filepath.Join(scratch, fmt.Sprintf("fd%d", fd))
		to, err := syscall.Open(names[i], syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_APPEND, 0o644)
		must(err)
		saved[i], err = syscall.Dup(fd)
		must(err)
		syscall.CloseOnExec(saved[i])
		must(syscall.Dup2(to, fd))
		syscall.Close(to)
		fds[i] = fd
	}
	defer func() {
		var texts [2]string
		for i := range fds {
			must(syscall.Dup2(saved[i], fds[i]))
			syscall.Close(saved[i])
			b, err := ioutil.ReadFile(names[i])
			must(err)
			texts[i] = string(b)
		}
		stderr, stdout = texts[0], texts[1]
	}()
	fn()
	return
}

// history runs steps one after another in this process.
func history(root, scratch string, steps []step) (out []stepResult) {
	var results []*cssc.Result
	var recs []*recorder
	for _, s := range steps {
		put(root, s.Over)
		must(os.Chdir(filepath.Join(root, s.Dir)))
		var entries []string
		for _, e := range s.Entries {
			if strings.HasPrefix(e, "/") {
				e = root + e
			}
			entries = append(entries, e)
		}
		given := append([]string{}, entries...)
		rec := &recorder{}
		opts := cssc.Options{Entry: given, Transforms: trConfig(s.Cfg)}
		if !s.Silent {
			opts.Reporter = rec
		}
		switch {
		case strings.HasPrefix(s.Resolver, "node:"):
			opts.Resolver = &resolver.NodeResolver{BaseURL: filepath.Join(root, s.Resolver[5:])}
		case s.Resolver == "flat":
			opts.Resolver = flat(filepath.Join(root, "flat"))
		}
		r := stepResult{Files: map[string]string{}}
		stderr, stdout := withStderr(scratch, func() {
			res := cssc.Compile(opts)
			for f, c := range res.Files {
				r.Files[f] = c
			}
			results = append(results, res)
		})
		recs = append(recs, rec)
		r.Errs = append(r.Errs, rec.texts...)
		sort.Strings(r.Errs)
		lines := strings.Split(stderr, "\n")
		sort.Strings(lines)
		r.Stderr = strings.Join(lines, "\n")
		switch {
		case rec.panics != "":
			r.Bad = rec.panics
		case stdout != "":
			r.Bad = "something is written to the standard output: " + stdout
		case !reflect.DeepEqual(entries, given):
			r.Bad = "the list of entries is changed"
		}
		out = append(out, r)
	}
	for i, res := range results {
		if !reflect.DeepEqual(res.Files, out[i].Files) && out[i].Bad == "" {
			out[i].Bad = "the result is changed by a later compilation"
		}
		var texts []string
		for _, e := range recs[i].errs {
			texts = append(texts, e.Error())
		}
		sort.Strings(texts)
		if len(texts)+len(out[i].Errs) > 0 && !reflect.DeepEqual(texts, out[i].Errs) && out[i].Bad == "" {
			out[i].Bad = "a reported error is changed by a later compilation"
		}
	}
	must(os.Chdir("/"))
	return
}

// flat resolves file names in a directory.
type flat string

func (f flat) Resolve(spec, from string) (string, error) {
	return filepath.Join(string(f), filepath.Base(spec)), nil
}

// historyMain is the process that runs a history.
func historyMain() {
	var in struct {
		Root, Scratch string
		Steps         []step
	}
	must(json.NewDecoder(os.Stdin).Decode(&in))
	must(json.NewEncoder(os.Stdout).Encode(history(in.Root, in.Scratch, in.Steps)))
}

// inProcess runs a history in a new process.
func (x *X) inProcess(steps []step) ([]stepResult, string) {
	bin := os.Getenv("VERIF_PLAIN")
	if bin == "" {
		bin = os.Args[0]
	}
	b, err := json.Marshal(map[string]interface{}{"Root": filepath.Join(x.w.dir, "p"), "Scratch": x.w.dir, "Steps": steps})
	must(err)
	cmd := exec.Command(bin, "history", x.w.check.ID)
	cmd.Stdin = bytes.NewReader(b)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			must(fmt.Errorf("history: %s", stderr.String()))
		}
		return nil, fmt.Sprintf("the process of the history ends with %v: %s", err, clip(stderr.String(), 2000))
	}
	x.w.Stats.Execs += len(steps)
	var out []stepResult
	must(json.Unmarshal(stdout.Bytes(), &out))
	return out, ""
}

// observation is what the user sees of one execution.
type observation struct {
	files map[string]string
	errs  []string
}

func (o *observation) diff(p *observation) string {
	if !reflect.DeepEqual(o.errs, p.errs) {
		return fmt.Sprintf("other errors:\n%s\ninstead of\n%s", indent(strings.Join(p.errs, "\n")), indent(strings.Join(o.errs, "\n")))
	}
	for f := range o.files {
		if _, ok := p.files[f]; !ok {
			return "no output for " + f
		}
	}
	for f, c := range p.files {
		want, ok := o.files[f]
		if !ok {
			return "an additional output for " + f
		}
		if c != want {
			return fmt.Sprintf("another output for %s:\n%s\ninstead of\n%s", f, indent(c), indent(want))
		}
	}
	return ""
}

func (r stepResult) diff(p stepResult) string {
	switch {
	case p.Bad != "":
		return p.Bad
	case !reflect.DeepEqual(r.Errs, p.Errs):
		return fmt.Sprintf("other errors:\n%s\ninstead of\n%s", indent(strings.Join(p.Errs, "\n")), indent(strings.Join(r.Errs, "\n")))
	case r.Stderr != p.Stderr:
		return fmt.Sprintf("another standard error:\n%s\ninstead of\n%s", indent(p.Stderr), indent(r.Stderr))
	}
	return (&observation{r.Files, nil}).diff(&observation{p.Files, nil})
}

// independent compares the steps of a history with each of them alone.
func independent(x *X, alone map[string]stepResult, steps []step) {
	got, bad := x.inProcess(steps)
	x.w.disk, x.w.dirs = nil, nil
	if bad != "" {
		x.Fail("%s", bad)
		return
	}
	for i, s := range steps {
		want, ok := alone[s.Name]
		if !ok {
			first, bad := x.inProcess([]step{s})
			if bad != "" {
				x.Fail("%s", bad)
				return
			}
			want = first[0]
			alone[s.Name] = want
			if len(want.Errs) == 0 && len(want.Files) == 0 && want.Stderr == "" {
				x.Fail("neither an output nor an error: %s", s.Name)
				return
			}
		}
		x.Validated()
		if d := want.diff(got[i]); d != "" {
			x.Fail("compilation %d (%s) leads to %s", i+1, s.Name, d)
			return
		}
		x.Outcome(fmt.Sprint(len(got[i].Files), got[i].Errs, got[i].Stderr))
	}
}

func historyPart(name string, n int, thorough bool) Part {
	steps := historySteps()
	alone := map[string]stepResult{}
	return Part{Name: name, Thorough: thorough, Body: func(x *X) {
		var l []step
		var names []string
		for i := 0; i < n; i++ {
			s := steps[x.Free(len(steps))]
			l = append(l, s)
			names = append(names, s.Name)
		}
		x.Case(strings.Join(names, "; "))
		independent(x, alone, l)
	}}
}

var check23 = &Check{
	ID:   "C23",
	Race: true,
	Rule: "Every history of up to 3 compilations (4 in the thorough tier) out of 28, which differ in the contents and presence of files, entries, transforms, resolvers, reporters and the working directory, runs in a process of its own. Each compilation has to give the outputs, errors and writes to standard error that it gives as the only one of a process, and leave the options and the earlier results and errors alone. Every schedule of two compilations at once with a limited number of preemptions has to give both results as alone, without a data race.",
	Assume: []string{
		"compilations are compared on the same paths of a scratch directory",
		"the assumptions of C15 for compilations at once",
	},
	Parts: []Part{
		historyPart("single compilations", 1, false),
		historyPart("histories of two", 2, false),
		historyPart("histories of three", 3, false),
		historyPart("histories of four", 4, true),
	},
}

func init() { register(check23) }
