package main

// Options that are left out behave as documented.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

// silent is a compilation without some of the options.
type silent struct {
	files  map[string]string
	errs   []string
	stderr string
	stdout string
	panics string
}

// compileWith runs one compilation and captures what is written.
func (x *X) compileWith(opts cssc.Options, reporter bool) (s silent) {
	rec := &recorder{}
	if reporter {
		opts.Reporter = rec
	}
	x.w.Stats.Execs++
	s.stderr, s.stdout = withStderr(x.w.dir, func() {
		defer func() {
			if p := recover(); p != nil {
				s.panics = fmt.Sprint(p)
			}
		}()
		s.files = cssc.Compile(opts).Files
	})
	s.errs = rec.texts
	if rec.panics != "" {
		s.panics = rec.panics
	}
	sort.Strings(s.errs)
	return
}

// printed checks that the text consists of each error in a line of its own, in any order.
func printed(text string, errs []string) string {
	var try func(rest string, used []bool, n int) bool
	try = func(rest string, used []bool, n int) bool {
		if n == len(errs) {
			return rest == ""
		}
		last := ""
		for i, e := range errs {
			if used[i] || n > 0 && e == last {
				continue
			}
			if strings.HasPrefix(rest, e+"\n") {
				used[i] = true
				if try(rest[len(e)+1:], used, n+1) {
					return true
				}
				used[i] = false
				last = e
			}
		}
		return false
	}
	if !try(text, make([]bool, len(errs)), 0) {
		return fmt.Sprintf("standard error is\n%s\ninstead of one line for each of\n%s", indent(text), indent(strings.Join(errs, "\n")))
	}
	return ""
}

// defaults compares compilations with and without options.
func defaults(x *X, p Proj, entries []string, cfg int, base string) {
	x.w.sync(p)
	root := filepath.Join(x.w.dir, "p")
	must(os.MkdirAll(filepath.Join(root, base), 0o755))
	must(os.Chdir(filepath.Join(root, base)))
	defer os.Chdir("/")
	var list []string
	for _, e := range entries {
		if !strings.HasPrefix(e, ".") {
			e = filepath.Join(root, e)
		}
		list = append(list, e)
	}
	tr := trConfig(cfg)
	var named transforms.Options
	if cfg == 0 {
		named = transforms.Options{
			ImportRules: transforms.ImportRulesPassthrough, MediaFeatureRanges: transforms.MediaFeatureRangesPassthrough, AnyLink: transforms.AnyLinkPassthrough,
			CustomProperties: transforms.CustomPropertiesPassthrough, CustomMediaQueries: transforms.CustomMediaQueriesPassthrough, CalcReduction: transforms.CalcReductionPassthrough,
		}
	} else {
		named = tr
	}
	want := x.compileWith(cssc.Options{Entry: list, Transforms: named, Resolver: &resolver.NodeResolver{}}, true)
	opts := cssc.Options{Entry: list}
	if cfg != 0 {
		opts.Transforms = tr
	}
	got := x.compileWith(opts, false)
	half := x.compileWith(opts, true)
	x.Validated()
	x.Outcome(fmt.Sprint(len(want.files), want.errs))
	if len(want.errs) > 0 {
		x.Tally("reported")
	}
	for _, c := range []struct {
		name string
		s    silent
	}{{"with all options", want}, {"without a reporter and a resolver", got}, {"without a resolver", half}} {
		if c.s.panics != "" {
			x.Fail("%s: %s", c.name, c.s.panics)
			return
		}
		if c.s.stdout != "" {
			x.Fail("%s: %q is written to the standard output", c.name, c.s.stdout)
			return
		}
		if !reflect.DeepEqual(c.s.files, want.files) {
			x.Fail("%s, the outputs are different\n%v\ninstead of\n%v", c.name, c.s.files, want.files)
			return
		}
	}
	if want.stderr != "" || half.stderr != "" {
		x.Fail("although there is a reporter, this is written to the standard error: %s", want.stderr+half.stderr)
		return
	}
	if !reflect.DeepEqual(half.errs, want.errs) {
		x.Fail("without a resolver, other errors are reported:\n%s\ninstead of\n%s", strings.Join(half.errs, "\n"), strings.Join(want.errs, "\n"))
		return
	}
	if d := x.untouched(p); d != "" {
		x.Fail("%s", d)
		return
	}
	if d := printed(got.stderr, want.errs); d != "" {
		x.Fail("without a reporter, %s", d)
	}
}

func init() {
	faults := []string{"", "x{k:v", "x{width:calc(1px / 0)}", "x{margin:calc(1px*1px) calc(1/0)}", "y{k:v}\n\t\n  x{k: calc(1 + 1px);\n%s %d%% é{", "@import 'none';", "@import './gone.css';", "@media (--m){x{k:v}}@custom-media --m (a),(b);", "x{k:var(--v)}:root{--v:var(--v)}", "@import url(./b.css) screen;", "]", "\xff\x00x{", "x{k:v}\r\n\fy{"}
	register(&Check{
		ID:     "C24",
		Rule:   "all pairs of 13 kinds of problems in two files, in several relations (entries, imports), with all import modes and transforms off and on, entries spelled absolutely and relatively, compiled with all options and with options left out: outputs, errors and everything that is written to the standard streams; package resolution with and without a resolver; distinct by files, entries, working directory and configuration",
		Assume: []string{"the order in which problems are printed is not determined"},
		Parts: []Part{
			{Name: "problems", Body: func(x *X) {
				a, b := faults[x.Free(len(faults))], faults[x.Free(len(faults))]
				cfg := []int{0, 1, 2, 93, 94, 95}[x.Free(6)]
				p := Proj{"b.css": "b{k:v}" + b}
				entries := []string{"a.css"}
				switch x.Free(4) {
				case 0:
					p["a.css"] = "@import './b.css';a{k:v}" + a
				case 1:
					p["a.css"] = "@import './b.css';@import './b.css';a{k:v}" + a
					entries = append(entries, "b.css")
				case 2:
					p["a.css"] = "a{k:v}" + a
					entries = append(entries, "b.css", "gone.css")
				case 3:
					p["a.css"] = "a{k:v}" + a
					entries = append(entries, "a.css")
				}
				base := x.FreePick("", "d")
				if base == "d" {
					entries[0] = "../a.css"
				}
				x.Case(fmt.Sprintf("%q %v %d %s", p, entries, cfg, base))
				defaults(x, p, entries, cfg, base)
			}},
			{Name: "packages", Body: func(x *X) {
				p := Proj{"d/a.css": "@import " + x.FreePick("'pkg'", "'pkg/s'", "'./s'", "'s.css'", "'d/s.css'", "'../s'", "'/s.css'", "'pkg' screen") + ";a{k:v}"}
				places := []string{"d/node_modules/pkg", "node_modules/pkg", "d/s.css", "s.css", "node_modules/s.css", "d/node_modules/pkg.css"}
				for i, f := range places {
					if x.Free(2) == 1 {
						if strings.HasSuffix(f, ".css") {
							p[f] = fmt.Sprintf("f%d{k:v}", i)
						} else {
							p[f+"/package.json"] = `{"style":"t.css"}`
							p[f+"/t.css"] = fmt.Sprintf("f%d{k:v}", i)
							p[f+"/s.css"] = fmt.Sprintf("g%d{k:v}", i)
						}
					}
				}
				cfg := []int{1, 2, 0}[x.Free(3)]
				base := x.FreePick("", "d", "e")
				x.Case(fmt.Sprintf("%q %d %s", p, cfg, base))
				defaults(x, p, []string{"d/a.css"}, cfg, base)
			}},
			{Name: "constructs", Body: func(x *X) {
				css := corpus[x.Free(len(corpus))]
				if n := x.Free(len(corpus) + 1); n > 0 {
					css += corpus[n-1]
				}
				cfg := x.Free(2) * (trConfigs - 2)
				x.Case(fmt.Sprintf("%q %d", css, cfg))
				defaults(x, Proj{"a.css": css, "i": "i{k:v}", "j.css": "j{k:v}"}, []string{"a.css"}, cfg, "")
			}},
		},
	})
}

// untouched checks that the files are still those of the project.
func (x *X) untouched(p Proj) (bad string) {
	root := filepath.Join(x.w.dir, "p")
	found := 0
	must(filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		rel, err := filepath.Rel(root, path)
		must(err)
		b, err := os.ReadFile(path)
		must(err)
		if c, ok := p[rel]; !ok || c != string(b) {
			bad = "the compilation writes " + rel
		}
		found++
		return nil
	}))
	if found != len(p) && bad == "" {
		bad = "the compilation removes a file"
	}
	return
}
