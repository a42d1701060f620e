package main

// The outputs are those of the requested files, and independent of each other.

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// content returns the content of a file or of the target of a link.
func (p Proj) content(file string) string {
	for strings.HasPrefix(p[file], LinkMark) {
		file = path.Join(path.Dir(file), p[file][len(LinkMark):])
	}
	return p[file]
}

// importsOf returns the existing files that a file imports with relative specifiers.
func importsOf(p Proj, file string) (out []string) {
	toks, _ := Tokenize(p.content(file))
	for i := 0; i < len(toks); i++ {
		if toks[i].K != TAt || toks[i].V != "import" {
			continue
		}
		j := i
		for toks[j].K != TSemi {
			j++
		}
		pre, _ := Nest(toks[i+1 : j])
		spec, _ := ImportTarget(trimWS(pre))
		target := path.Join(path.Dir(file), spec)
		if !strings.HasSuffix(target, ".css") {
			target += ".css"
		}
		if c, ok := p[target]; ok && c != DirMark {
			out = append(out, target)
		}
	}
	return
}

// reachable returns the files that can be reached from the files, including themselves.
func reachable(p Proj, files ...string) map[string]bool {
	out := map[string]bool{}
	for len(files) > 0 {
		f := files[0]
		files = files[1:]
		if !out[f] {
			out[f] = true
			files = append(files, importsOf(p, f)...)
		}
	}
	return out
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func outKeys(r *Res) []string {
	m := map[string]bool{}
	for k := range r.Out {
		m[k] = true
	}
	return keysOf(m)
}

// spell returns the file with another spelling of its path.
func spell(x *X, file string, n int) string {
	abs := filepath.Join(x.w.dir, "p", file)
	dir, base := filepath.Split(abs)
	switch n {
	case 1:
		return dir + "./" + base
	case 2:
		return dir + "/" + base
	case 3:
		return dir + "nope/../" + base
	case 4:
		wd, err := os.Getwd()
		must(err)
		rel, err := filepath.Rel(wd, abs)
		must(err)
		return rel
	case 5:
		wd, err := os.Getwd()
		must(err)
		rel, err := filepath.Rel(wd, abs)
		must(err)
		return "./" + rel
	case 6:
		return dir + "../" + filepath.Base(dir) + "/" + base
	}
	return abs
}

const spellings = 7

// sameOutputs checks the set of outputs, and each output against that of the file alone.
func sameOutputs(x *X, p Proj, entries, raw []string, cfg int) {
	tr := trConfig(cfg)
	res := x.Compile(p, Cfg{Raw: raw, Tr: tr})
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	x.Validated()
	want := map[string]bool{}
	for _, e := range entries {
		want[e] = true
	}
	if tr.ImportRules == 1 {
		want = reachable(p, entries...)
	}
	if a, b := outKeys(res), keysOf(want); !sameList(a, b) {
		x.Fail("outputs %q instead of %q\n%s", a, b, res.ErrText())
		return
	}
	alltogether := map[string]bool{}
	for _, e := range res.Errs {
		alltogether[e.Text] = true
	}
	for _, f := range keysOf(want) {
		alone := x.Compile(p, Cfg{Entries: []string{f}, Tr: tr})
		if alone.Out[f] != res.Out[f] || alone.Map[f] != res.Map[f] {
			x.Fail("the output of %s is not that of the file alone\n%s\n%s\nalone\n%s\n%s", f, res.Out[f], res.Map[f], alone.Out[f], alone.Map[f])
			return
		}
		for _, e := range alone.Errs {
			if !alltogether[e.Text] {
				x.Fail("%s is only reported for %s alone", e.Text, f)
				return
			}
		}
		x.Outcome(res.Out[f])
	}
	if want := len(want); want == 0 && len(res.Errs) == 0 {
		x.Tally("nothing")
	}
}

// oddFiles are names of files.
var oddFiles = []string{"_b.css", ".b.css", "b.module.css", "b.min.css", "b", "b.CSS", "B.css", "b.css.css", "-b.css", "é.css", "b c.css", "b#c.css", "b?x.css", "%62.css", "node_modules/b.css", "~b.css", "@b.css", "[b].css", "b.scss", "b.less", "b.js", "index.css", "d/index.css", "vendor/b.css", "b'.css", "b\".css", "b*.css", "b.css.map", "b.test.css", "..b.css", "b..css", "CON.css", "b,c.css", "b;c.css", "0.css", "$b.css", "{b}.css", "d.css/b.css", ".d/b.css", "_d/b.css"}

func init() {
	names := []string{"a.css", "d/b.css", "c.css"}
	specs := [][]string{{"./a.css", "./d/b.css", "./c.css"}, {"../a.css", "./b.css", "../c.css"}, {"./a.css", "./d/b", "./d/../c"}}
	bodies := []string{"#{k:v}", ":root{--x:1px}#{k:var(--x) calc(1px + 1px)}", "@custom-media --m (w:1);#{k:var(--x,1px)}@media (--m){#:any-link{k:var(--y)}}"}
	project := func(x *X, n, imports int) Proj {
		p := Proj{}
		for i := 0; i < n; i++ {
			s := ""
			for k := x.Free(imports + 1); k > 0; k-- {
				s += fmt.Sprintf("@import %q;", specs[i][x.Free(n)])
			}
			p[names[i]] = s + strings.Replace(bodies[i], "#", string(rune('a'+i)), -1)
		}
		return p
	}
	cfgs := []int{0, 1, 2, 93, 94, 95}
	register(&Check{
		ID:   "C14",
		Rule: "all import graphs over up to three files in two directories with up to two imports each, all sequences of up to three (thorough: four) entries with repetitions in seven spellings, all pairs of 40 file names, all import modes with transforms off and on; distinct by files, entries and configuration",
		Parts: []Part{
			{Name: "entries of two files", Dev: [2]int{0, 0}, Body: func(x *X) {
				p := project(x, 2, 2)
				cfg := cfgs[x.Free(len(cfgs))]
				entries, raw := []string{}, []string{}
				for n := x.Free(4); n > 0; n-- {
					f := names[x.Free(2)]
					entries = append(entries, f)
					raw = append(raw, spell(x, f, 0))
				}
				x.Case(fmt.Sprint(p, entries, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "entries of three files", Dev: [2]int{0, 0}, Body: func(x *X) {
				p := project(x, 3, map[bool]int{false: 1, true: 2}[x.thorough])
				set := cfgs[:]
				if !x.thorough {
					set = []int{0, 94, 95}
				}
				cfg := set[x.Free(len(set))]
				entries, raw := []string{}, []string{}
				for n := x.Free(map[bool]int{false: 4, true: 5}[x.thorough]); n > 0; n-- {
					f := names[x.Free(3)]
					entries = append(entries, f)
					raw = append(raw, spell(x, f, 0))
				}
				x.Case(fmt.Sprint(p, entries, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "graphs of three files", Dev: [2]int{0, 0}, Body: func(x *X) {
				p := project(x, 3, 2)
				cfg := []int{94, 95}[x.Free(2)]
				entries, raw := []string{}, []string{}
				for n := 1 + x.Free(2); n > 0; n-- {
					f := names[x.Free(3)]
					entries = append(entries, f)
					raw = append(raw, spell(x, f, 0))
				}
				x.Case(fmt.Sprint(p, entries, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "kinds of contents", Dev: [2]int{0, 0}, Body: func(x *X) {
				// In particular files without any rule, and those that a transform leaves nothing of.
				kinds := []string{"", " ", "\n", "/* c */", "<!-- -->", "a{}", "a{k:v}", ":root{--x:1px}", ":root{}", "@custom-media --m (w);", "@media (m){}", "@media (m){a{}}", "@font-face{}", "@keyframes n{}", ";", "a{k:var(--x)}@media (--m){b{k:v}}"}
				p := Proj{}
				imp := []string{"", `@import "./d/b.css";`, `@import "./d/b.css";@import "./c.css";`}[x.Free(3)]
				p["a.css"] = imp + kinds[x.Free(len(kinds))]
				p["d/b.css"] = []string{"", `@import "../c.css";`}[x.Free(2)] + kinds[x.Free(len(kinds))]
				p["c.css"] = kinds[x.Free(len(kinds))]
				cfg := []int{94, 95, 93, 0}[x.Free(4)]
				entries := [][]string{{"a.css"}, {"a.css", "c.css"}, {"c.css", "d/b.css", "a.css"}}[x.Free(3)]
				var raw []string
				for _, e := range entries {
					raw = append(raw, spell(x, e, 0))
				}
				x.Case(fmt.Sprintf("%q %v %d", p, entries, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "symbolic links", Dev: [2]int{0, 0}, Body: func(x *X) {
				// A link is a file of its own, with the path that it was asked for.
				p := Proj{"a.css": `@import "` + x.FreePick("./l.css", "./d/b.css", "./l.css\";@import \"./d/b.css") + `";a{k:v}`, "d/b.css": x.FreePick("", `@import "./c.css";`) + "b{k:v}", "c.css": "c{k:v}", "d/c.css": "dc{k:v}",
					"l.css": LinkMark + x.FreePick("d/b.css", "m.css", "./d/../d/b.css"), "m.css": LinkMark + x.FreePick("d/b.css", "c.css"), "d/l.css": LinkMark + x.FreePick("../l.css", "b.css", "../a.css")}
				cfg := cfgs[x.Free(len(cfgs))]
				all := []string{"a.css", "d/b.css", "l.css", "m.css", "d/l.css"}
				var entries, raw []string
				for n := 1 + x.Free(2); n > 0; n-- {
					e := all[x.Free(len(all))]
					entries = append(entries, e)
					raw = append(raw, spell(x, e, []int{0, 4, 6}[x.Choose(3)]))
				}
				x.Case(fmt.Sprintf("%q %v %d", p, raw, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "names of files", Dev: [2]int{0, 0}, Body: func(x *X) {
				// No name is special.
				f, g := oddFiles[x.Free(len(oddFiles))], oddFiles[x.Free(len(oddFiles))]
				if f == g || !x.thorough && x.Free(2) == 1 && g != "_b.css" {
					x.Skip()
				}
				imp := ""
				if strings.HasSuffix(g, ".css") && x.Free(2) == 1 {
					r, err := filepath.Rel(filepath.Dir(f), g)
					must(err)
					imp = "@import \"./" + strings.Replace(r, `"`, `\"`, -1) + "\";"
				}
				p := Proj{f: imp + "f{k:v}", g: "g{k:v}"}
				cfg := cfgs[x.Free(len(cfgs))]
				entries := [][]string{{f}, {f, g}, {g, f}, {g}}[x.Free(4)]
				var raw []string
				for _, e := range entries {
					raw = append(raw, spell(x, e, []int{0, 4}[x.Free(2)]))
				}
				x.Case(fmt.Sprintf("%q %v %d", p, raw, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "many files", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := []int{5, 17, 64}[x.Free(3)]
				shape := x.FreePick("none", "chain", "star", "back")
				step := 1 + x.Free(3)
				cfg := cfgs[x.Free(len(cfgs))]
				p := Proj{}
				entries, raw := []string{}, []string{}
				for i := 0; i < n; i++ {
					s := ""
					add := func(j int) {
						if j >= 0 && j < n {
							s += fmt.Sprintf("@import \"./f%d.css\";", j)
						}
					}
					switch shape {
					case "chain":
						add(i + 1)
					case "back":
						add(i - 1)
					case "star":
						for j := 1; i == 0 && j < n; j++ {
							add(j)
						}
					}
					f := fmt.Sprintf("f%d.css", i)
					p[f] = s + fmt.Sprintf("a%d{k:v}:root{--x%d:v}@custom-media --m%d (w:1);", i, i, i)
					if i%step == 0 {
						entries = append(entries, f)
						raw = append(raw, spell(x, f, 0))
					}
				}
				x.Case(fmt.Sprint(n, shape, step, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
			{Name: "spellings", Dev: [2]int{0, 0}, Body: func(x *X) {
				p := Proj{"a.css": `@import "./d/b.css";a{k:v}`, "d/b.css": `@import "../a.css";b{k:v}`, "c.css": "c{k:v}"}
				cfg := cfgs[x.Free(len(cfgs))]
				var entries, raw, key []string
				for n := 1 + x.Free(map[bool]int{false: 2, true: 3}[x.thorough]); n > 0; n-- {
					f, s := names[x.Free(3)], x.Free(spellings)
					entries = append(entries, f)
					raw = append(raw, spell(x, f, s))
					key = append(key, fmt.Sprint(f, s))
				}
				x.Case(fmt.Sprint(key, cfg))
				sameOutputs(x, p, entries, raw, cfg)
			}},
		},
	})
}
