package main

// Inlining imports equals textual inclusion.

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"
)

// flattenCSS includes the imported files textually. Imports that can't be loaded stay.
func flattenCSS(p Proj, file string, stack []string, failed, conditions *int) string {
	css := p[file]
	var b strings.Builder
	last := 0
	toks, _ := Tokenize(css)
	for i := 0; i < len(toks); i++ {
		if toks[i].K != TAt || toks[i].V != "import" {
			continue
		}
		j := i
		for toks[j].K != TSemi {
			j++
		}
		pre, _ := Nest(toks[i+1 : j])
		pre = trimWS(pre)
		spec, _ := ImportTarget(pre)
		target := path.Join(path.Dir(file), spec)
		if strings.HasPrefix(spec, "/") {
			target = spec[1:]
		}
		if !strings.HasSuffix(target, ".css") {
			target += ".css"
		}
		if _, ok := p[target]; !ok {
			*failed++
			continue
		}
		if len(noWS(pre)) > 1 {
			*conditions++
		}
		b.WriteString(css[last:toks[i].Start])
		last = toks[j].End
		cyc := target == file
		for _, s := range stack {
			cyc = cyc || s == target
		}
		if !cyc {
			b.WriteString(flattenCSS(p, target, append(stack[:len(stack):len(stack)], file), failed, conditions))
		}
		i = j
	}
	return b.String() + css[last:]
}

// inlined compares inlining with the compilation of the flattened text.
func inlined(x *X, p Proj, cfg int, preserved bool) {
	tr := trConfig(cfg)
	tr.ImportRules = 2
	res := x.Compile(p, Cfg{Tr: tr})
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	out, ok := res.Out["a.css"]
	if !ok || len(res.Out) != 1 {
		x.Fail("%d outputs: %s", len(res.Out), res.ErrText())
		return
	}
	failed, conditions := 0, 0
	flat := flattenCSS(p, "a.css", nil, &failed, &conditions)
	tr.ImportRules = 0
	ref := x.Compile(One(flat), Cfg{Tr: tr, Resolver: nil})
	want := ref.Out["a.css"]
	x.Validated()
	x.Outcome(out)
	cw, cg := CanonSheet(ParseSheet(want).Rules), CanonSheet(ParseSheet(out).Rules)
	if !sameList(cw, cg) {
		x.Fail("the output differs from textual inclusion\nflattened: %s\noutput: %s\nwant: %s", flat, out, want)
		return
	}
	if cfg < 3 && preserved {
		// Without transforms, it has to be the text itself.
		if diff, known := SheetDiff(flat, out); diff != "" {
			x.Explained(known, "the output differs from textual inclusion\noutput: %s\n%s", out, diff)
			return
		}
	}
	// The failed imports are reported by the reference as well.
	if a, b := len(res.Errs)-conditions, len(ref.Errs); a != b {
		x.Fail("%d problems are reported instead of %d\n%s\n%s", a, b, res.ErrText(), ref.ErrText())
	}
	if failed > 0 && len(res.Errs) == 0 {
		x.Fail("an import can't be loaded and is not reported")
	}
	if len(res.Errs) > 0 {
		x.Tally("reported")
	}
}

func init() {
	run := func(x *X, p Proj, cfg int) {
		x.Case(fmt.Sprint(cfg, p))
		inlined(x, p, cfg, true)
	}
	bodies := []string{"#{k:v}", "", ":root{--x:#px}", "#{k:var(--x,a)}", "@custom-media --m (#:1);", "@media (--m){#{k:v}}", "@media (w>=1px){#:any-link{k:calc(2px*2)}}", "@keyframes #{from{k:v}}", ":root{--x:var(--y)}#{k:var(--y,b)}", ":root{--y:#px}", "@font-face{k:#}", "#{k:v}/*c*/ @media m{#{k:v}}"}
	body := func(x *X, i int, n int) string {
		return strings.Replace(bodies[n], "#", string(rune('p'+i)), -1)
	}
	cfgs := []int{0, 93, 12, 24}
	register(&Check{
		ID:   "C13",
		Rule: "all import graphs over up to three files with up to two imports each (also of missing files and in cycles), all pairs and triples of files with 12 kinds of contents, spellings and directories, all sheets of C22 and single edits of them as imported files, imports of 1 to 36 and up to 257 files in 6 shapes, all spellings of 40 addresses with a resolver that knows them; distinct by files and configuration",
		Parts: []Part{
			{Name: "graphs", Dev: [2]int{0, 1}, Body: func(x *X) {
				n := 3
				p := Proj{}
				for f := 0; f < n; f++ {
					var b strings.Builder
					for k := x.Free(3); k > 0; k-- {
						fmt.Fprintf(&b, "@import \"./%c.css\";", 'a'+x.Free(n+1))
					}
					b.WriteString(x.Pick("", ":root{--x:"+string(rune('1'+f))+"px}"))
					fmt.Fprintf(&b, "%c{k:var(--x)}", 'a'+f)
					p[fmt.Sprintf("%c.css", 'a'+f)] = b.String()
				}
				run(x, p, []int{0, 93}[x.Choose(2)])
			}},
			{Name: "two files with contents", Dev: [2]int{1, 1}, Body: func(x *X) {
				a, b := x.Free(len(bodies)), x.Free(len(bodies))
				imp := x.Pick(`@import "./b.css";`, `@import './b.css' ;`, `@import url(./b.css);`, `@import url("./b.css");`, `@import "./b";`, `@import "./x/../b.css";`, `@import "./b.css";@import "./b.css";`, `@import "\2e/b.css";`, "@import/**/\"./b.css\"\n;", `@import "./b.css" screen;`, `@import "./b.css" (m);`, `@import "./a.css";@import "./b.css";`, `@import "./b.css";@import "./nope.css";`, `@import "./nope.css";`)
				pos := x.Pick("I$", "$I", "$I$")
				css := strings.NewReplacer("I", imp, "$", body(x, 0, a)).Replace(pos)
				run(x, Proj{"a.css": css, "b.css": body(x, 1, b)}, cfgs[x.Free(len(cfgs))])
			}},
			{Name: "two constructs per file", Dev: [2]int{0, 0}, Body: func(x *X) {
				set := len(bodies)
				if !x.thorough {
					set = 7
				}
				var p [4]string
				for i := range p {
					p[i] = body(x, i, x.Free(set))
				}
				run(x, Proj{"a.css": `@import "./b.css";` + p[0] + p[1], "b.css": p[2] + p[3]}, []int{93, 0}[x.Choose(2)])
			}},
			{Name: "three files", Dev: [2]int{0, 1}, Body: func(x *X) {
				f := [][3]string{
					{`@import "./b.css";$`, `@import "./c.css";$`, `$`},
					{`@import "./b.css";@import "./c.css";$`, `$`, `$`},
					{`@import "./b.css";@import "./c.css";$`, `@import "./c.css";$`, `$`},
					{`@import "./b.css";$`, `$@import "./c.css";`, `@import "./b.css";$`},
				}[x.Free(4)]
				p := Proj{}
				for i := range f {
					n := len(bodies)
					if !x.thorough && i > 0 {
						n = 7
					}
					p[string(rune('a'+i))+".css"] = strings.Replace(f[i], "$", body(x, i, x.Free(n)), 1)
				}
				run(x, p, []int{93, 0, 12, 24}[x.Choose(4)])
			}},
			{Name: "names of imported files", Dev: [2]int{0, 0}, Body: func(x *X) {
				// The resolver decides which file it is.
				imp := x.FreePick("", "@import 'c';") + importOf(x)
				cfg := []int{2, 1}[x.Free(2)]
				res := x.Compile(Proj{"a.css": imp + "a{k:v}", "d/b.css": "b{k:v}"}, Cfg{Tr: trConfig(cfg), Resolver: toFile(filepath.Join(x.w.dir, "p", "d", "b.css"))})
				x.Case(fmt.Sprint(cfg, imp))
				if res.Panic != "" || len(res.Errs) > 0 {
					x.Fail("%s", res.Panic+res.ErrText())
					return
				}
				x.Outcome(res.Out["a.css"])
				if cfg == 2 {
					x.Preserved(strings.Repeat("b{k:v}", strings.Count(imp, "@import"))+"a{k:v}", res.Out["a.css"])
				} else if x.Preserved(imp+"a{k:v}", res.Out["a.css"]); len(res.Out) != 2 || res.Out["d/b.css"] != "b{k:v}" {
					x.Fail("the imported file is not in the result %q", res.Out)
				}
			}},
			{Name: "sheets of the other checks", Dev: [2]int{0, 0}, Body: func(x *X) {
				cfg, a := 93, "Iy{k:v}"
				sheets := wellFormed
				edit := x.Free(2) == 1
				if !edit || x.thorough {
					cfg, a = cfgs[x.Free(len(cfgs))], x.FreePick("I", "y{k:v}I", "I@media (--b){y{k:var(--b,w)}}", "Iy{k:v}I")
					sheets = append(append(append([]string{}, wellFormed...), unknown...), atRules...)
				}
				b := sheets[x.Free(len(sheets))]
				if edit {
					b = mutated(x, b, false)
				}
				if strings.Contains(strings.ToLower(b), "import") {
					x.Skip()
				}
				if res := x.CompileOne(b, Cfg{Tr: trConfig(cfg)}); len(res.Out) == 0 {
					x.Skip() // reported
				}
				p := Proj{"a.css": strings.Replace(a, "I", "@import './b.css';", -1), "b.css": b}
				x.Case(fmt.Sprint(cfg, p))
				inlined(x, p, cfg, false) // C22 compares with the text
			}},
			{Name: "many imports", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := 1 + x.Free(40)
				if n > 36 {
					n = []int{64, 100, 128, 257}[n-37]
				}
				shape := x.FreePick("one file", "chain", "chain from the end", "two at a time", "the same one", "missing")
				cfg := cfgs[x.Free(len(cfgs))]
				p, all := Proj{}, ""
				for i := 0; i < n; i++ {
					s := ""
					all += fmt.Sprintf("@import \"./f%d.css\";", i)
					if next := fmt.Sprintf("@import \"./f%d.css\";", i+1); i+1 < n && shape == "chain" || shape == "two at a time" && i%2 == 0 && i+1 < n {
						s = next
					} else if shape == "chain from the end" && i > 0 {
						s = fmt.Sprintf("@import \"./f%d.css\";", i-1)
					}
					p[fmt.Sprintf("f%d.css", i)] = s + fmt.Sprintf("f%d{k:v}", i)
				}
				switch shape {
				case "chain":
					all = "@import './f0.css';"
				case "chain from the end":
					all = fmt.Sprintf("@import './f%d.css';", n-1)
				case "two at a time":
					all = ""
					for i := 0; i < n; i += 2 {
						all += fmt.Sprintf("@import './f%d.css';", i)
					}
				case "the same one":
					all = strings.Repeat("@import './f0.css';", n)
				case "missing":
					all = strings.Replace(all, fmt.Sprintf("./f%d.css", n-1), "./nope.css", 1)
				}
				p["a.css"] = all + "a{k:v}"
				x.Case(fmt.Sprint(n, shape, cfg))
				inlined(x, p, cfg, true)
			}},
			{Name: "directories", Dev: [2]int{0, 0}, Body: func(x *X) {
				specs := []string{"./b.css", "./d/b.css", "../b.css", "../d/c.css", "./d/e/c.css", "../../a.css", "./e/c.css", "./c.css"}
				file := func(n string) string {
					s := ""
					for i := x.Free(3); i > 0; i-- {
						s += fmt.Sprintf("@import %q;", specs[x.Free(len(specs))])
						if !x.thorough {
							break
						}
					}
					return s + n + "{k:v}"
				}
				p := Proj{"a.css": fmt.Sprintf("@import %q;a{k:v}", specs[x.Free(len(specs))]), "d/b.css": file("b"), "d/e/c.css": file("c"), "b.css": "bb{k:v}", "d/c.css": "dc{k:v}"}
				run(x, p, 0)
			}},
		},
	})
}
