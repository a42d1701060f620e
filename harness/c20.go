package main

// Faulty files don't affect the others.

import (
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
)

// brokenResolver resolves file names in the importing directory. It fails for some.
type brokenResolver struct {
	modes map[string]string
}

func (r brokenResolver) Resolve(spec, from string) (string, error) {
	switch r.modes[path.Base(spec)] {
	case "refused":
		return "", errors.New("refused to resolve " + spec)
	case "wrong":
		return filepath.Join(from, "wrong-"+path.Base(spec)), nil
	case "empty":
		return "", fmt.Errorf("nothing for %s: %w", spec, os.ErrNotExist)
	}
	return filepath.Join(from, spec), nil
}

const syntaxError = "\n\nx{k:v"

// isolated checks a project, in which some files are faulty.
func isolated(x *X, healthy Proj, faults map[string]string, entries []string, cfg int, custom bool) {
	tr := trConfig(cfg)
	p := Proj{}
	modes := map[string]string{}
	flatten := Proj{}
	for f, c := range healthy {
		flatten[f] = c
	}
	for f, c := range healthy {
		switch faults[f] {
		case "":
			p[f] = c
			continue
		case "missing":
		case "directory":
			p[f] = DirMark
		case "syntax":
			p[f] = c + syntaxError
		case "early":
			p[f] = "]{" + c
		default:
			p[f] = c
			modes[f] = faults[f]
		}
		delete(flatten, f)
	}
	config := Cfg{Entries: entries, Tr: tr}
	if custom {
		config.Resolver = brokenResolver{modes}
	}
	res := x.Compile(p, config)
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	x.Validated()
	// A file that only resolution fails for is faulty for its importers, but not as an entry.
	want, faulty, seen := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var visit func(f string, entry, output bool)
	visit = func(f string, entry, output bool) {
		if faults[f] != "" && (!entry || modes[f] == "") {
			faulty[f] = true
			return
		}
		if output {
			want[f] = true
		}
		if seen[f] {
			return
		}
		seen[f] = true
		for _, i := range importsOf(healthy, f) {
			visit(i, false, tr.ImportRules == 1)
		}
	}
	for _, e := range entries {
		visit(e, true, true)
	}
	if a, b := outKeys(res), keysOf(want); !sameList(a, b) {
		x.Fail("outputs %q instead of %q\n%s", a, b, res.ErrText())
		return
	}
	for f := range faulty {
		found := false
		for _, e := range res.Errs {
			found = found || strings.Contains(e.Text, f)
		}
		if !found {
			x.Fail("the fault of %s is not reported:\n%s", f, res.ErrText())
			return
		}
	}
	for _, e := range res.Errs {
		ok := false
		for f := range faulty {
			ok = ok || strings.Contains(e.Text, f)
		}
		if !ok {
			x.Fail("%s is reported, but none of the faults (%v)", e.Text, keysOf(faulty))
			return
		}
	}
	for f := range want {
		if tr.ImportRules != 2 {
			ref := x.Compile(healthy, Cfg{Entries: []string{f}, Tr: tr})
			if res.Out[f] != ref.Out[f] || res.Map[f] != ref.Map[f] {
				x.Fail("the output of %s is\n%s instead of\n%s", f, res.Out[f], ref.Out[f])
				return
			}
			continue
		}
		failed, conditions := 0, 0
		flatten[f] = healthy[f]
		flat := flattenCSS(flatten, f, nil, &failed, &conditions)
		if faults[f] != "" {
			delete(flatten, f)
			flat = flattenWithout(healthy, f, faults)
		}
		sub := tr
		sub.ImportRules = 0
		ref := x.Compile(One(flat), Cfg{Tr: sub})
		a, b := CanonSheet(ParseSheet(ref.Out["a.css"]).Rules), CanonSheet(ParseSheet(res.Out[f]).Rules)
		if !sameList(a, b) {
			x.Fail("the output of %s is\n%s instead of\n%s", f, res.Out[f], ref.Out["a.css"])
			return
		}
	}
	x.Outcome(res.ErrText() + fmt.Sprint(res.Out))
	if len(faulty) > 0 {
		x.Tally("with faults")
	}
}

// flattenWithout includes the healthy imports of an entry that itself cannot be imported.
func flattenWithout(healthy Proj, entry string, faults map[string]string) string {
	p := Proj{"\x00entry/" + entry: healthy[entry]}
	css := healthy[entry]
	for f, c := range healthy {
		if faults[f] == "" {
			p[f] = c
		}
	}
	failed, conditions := 0, 0
	p["entry.css"] = css
	return flattenCSS(p, "entry.css", nil, &failed, &conditions)
}

func init() {
	faults := []string{"", "missing", "directory", "syntax", "early"}
	resolverFaults := []string{"", "missing", "syntax", "refused", "wrong", "empty", "directory"}
	bodies := []string{"#{k:v}", ":root{--x:1px}#{k:var(--x)calc(1px + 1px)}", "@custom-media --m (w:1);#{k:var(--x,1px)}@media (--m){#:any-link{k:v}}"}
	names := []string{"a.css", "b.css", "c.css", "d.css"}
	project := func(x *X, n, imports int) Proj {
		p := Proj{}
		for i := 0; i < n; i++ {
			s := ""
			max := imports
			if !x.thorough && n == 3 && i > 0 {
				max = 1
			}
			for k := x.Free(max + 1); k > 0; k-- {
				s += fmt.Sprintf("@import \"./%s\";", names[x.Free(n)])
			}
			p[names[i]] = s + strings.Replace(bodies[i%3], "#", string(rune('a'+i)), -1)
		}
		return p
	}
	part := func(x *X, n, imports, maxEntries int, cfgs []int, custom bool) {
		p := project(x, n, imports)
		set := faults
		if custom {
			set = resolverFaults
		}
		f := map[string]string{}
		for i := 0; i < n; i++ {
			if s := set[x.Choose(len(set))]; s != "" {
				f[names[i]] = s
			}
		}
		var entries []string
		for k := 1 + x.Free(maxEntries); k > 0; k-- {
			entries = append(entries, names[x.Free(n)])
		}
		cfg := cfgs[x.Free(len(cfgs))]
		x.Case(fmt.Sprint(p, f, entries, cfg, custom))
		isolated(x, p, f, entries, cfg, custom)
	}
	register(&Check{
		ID:   "C20",
		Rule: "all pairs of 21 kinds of healthy contents with imports; all import graphs over up to three (thorough: four) files, all assignments of faults (missing, a directory, unparsable at the start or end, resolution refused or wrong) to up to two (thorough: all) files, entries and import modes; distinct by files, faults, entries and configuration",
		Parts: []Part{
			{Name: "two files", Dev: [2]int{2, 2}, Body: func(x *X) { part(x, 2, 2, 2, []int{0, 93, 94, 95}, false) }},
			{Name: "three files", Dev: [2]int{2, 3}, Body: func(x *X) {
				n := 1
				if x.thorough {
					n = 2
				}
				part(x, 3, n, n, []int{0, 94, 95}, false)
			}},
			{Name: "two imports each", Dev: [2]int{1, 2}, Body: func(x *X) { part(x, 3, 2, 1, []int{94, 95}, false) }},
			{Name: "faulty resolver", Dev: [2]int{2, 3}, Body: func(x *X) { part(x, 3, 1, 1, []int{0, 94, 95}, true) }},
			{Name: "kinds of contents", Dev: [2]int{1, 2}, Body: func(x *X) {
				// Healthy files without any rule or with unusual ones.
				kinds := []string{"", " ", "\n", "\r", "/* c */", "<!-- -->", "a{}", "a{k:v}", ":root{--x:1px}", ":root{}", "@custom-media --m (w);", "@media (m){}", "@font-face{}", "@keyframes n{}", ";", "a{;}", "a{*k:v}", strings.Repeat("a{k:v}", 200), "/*" + strings.Repeat("c\n", 3000) + "*/", "\x00{k:v}", "é{k:v}"}
				p := Proj{"c.css": "c{k:v}"}
				p["a.css"] = []string{"", `@import "./b.css";`, `@import "./c.css";@import "./b.css";`}[x.Free(3)] + kinds[x.Free(len(kinds))]
				p["b.css"] = []string{"", `@import "./c.css";`, `@import "./a.css";`}[x.Free(3)] + kinds[x.Free(len(kinds))]
				f := map[string]string{}
				for _, n := range names[:3] {
					if s := faults[x.Choose(len(faults))]; s != "" {
						f[n] = s
					}
				}
				entries := [][]string{{"a.css"}, {"a.css", "b.css", "c.css"}}[x.Free(2)]
				cfg := []int{94, 95, 0, 93}[x.Free(4)]
				if len(f) > 0 && cfg != 94 && !x.thorough {
					x.Skip()
				}
				x.Case(fmt.Sprintf("%q %v %v %d", p, f, entries, cfg))
				isolated(x, p, f, entries, cfg, false)
			}},
			{Name: "four files", Thorough: true, Dev: [2]int{0, 2}, Body: func(x *X) { part(x, 4, 1, 1, []int{94, 95}, false) }},
		},
	})
}
