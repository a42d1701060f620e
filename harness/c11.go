package main

// Custom property substitution follows CSS semantics.

import (
	"fmt"
	"strings"
)

// varSheet is the reference for custom property substitution.
type varSheet struct {
	defs   map[string][]CV
	imp    map[string]bool
	opaque map[string]bool // the definition can't be parsed by the compiler
	left   int             // references that had to be left
	raw    int             // references in declarations that the compiler doesn't understand
	steps  int
}

// isOpaque tells whether a value has something that the compiler passes through verbatim. Only blocks are used here.
func isOpaque(in []CV, math bool) bool {
	for _, c := range in {
		if c.K == TLCurly || c.K == TLParen && !math || isOpaque(c.Sub, c.K == TFunc && isMathName(c.V) || c.K == TLParen && math) {
			return true
		}
	}
	return false
}

func hasVar(in []CV) bool {
	for _, c := range in {
		if c.K == TFunc && c.V == "var" || hasVar(c.Sub) {
			return true
		}
	}
	return false
}

func isRoot(prelude []CV) bool {
	s := trimWS(prelude)
	return len(s) == 2 && s[0].K == TColon && s[1].K == TIdent && s[1].V == "root"
}

func (v *varSheet) collect(rules []Rule) []Rule {
	v.defs, v.imp, v.opaque = map[string][]CV{}, map[string]bool{}, map[string]bool{}
	var out []Rule
	for _, r := range rules {
		if !r.IsAt && isRoot(r.Prelude) {
			var rest []Decl
			for _, d := range r.Decls {
				if !strings.HasPrefix(d.Prop, "--") {
					rest = append(rest, d)
					continue
				}
				if isOpaque(d.Value, false) {
					if !v.imp[d.Prop] {
						v.opaque[d.Prop] = true
					}
					rest = append(rest, d)
					continue
				}
				if d.Imp || !v.imp[d.Prop] {
					v.defs[d.Prop], v.imp[d.Prop] = trimWS(d.Value), d.Imp
					delete(v.opaque, d.Prop)
				}
			}
			r.Decls = rest
		}
		out = append(out, r)
	}
	return out
}

// refs visits the references in a value.
func refs(in []CV, f func(name string, c CV)) {
	for _, c := range in {
		if c.K == TFunc && c.V == "var" {
			if a := noWS(c.Sub); len(a) > 0 && a[0].K == TIdent {
				f(a[0].V, c)
			}
		}
		refs(c.Sub, f)
	}
}

// cyclic tells whether a definition depends on itself.
func (v *varSheet) cyclic(name string) bool {
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		refs(v.defs[n], func(m string, _ CV) {
			if !seen[m] {
				seen[m] = true
				visit(m)
			}
		})
	}
	visit(name)
	return seen[name]
}

// fallback is what is after the first comma.
func fallback(c CV) ([]CV, bool) {
	for i, s := range c.Sub {
		if s.K == TComma {
			f := trimWS(c.Sub[i+1:])
			return f, len(f) > 0
		}
	}
	return nil, false
}

// valid tells whether the value of a definition is valid at computed-value time.
func (v *varSheet) valid(name string) bool {
	val, ok := v.defs[name]
	return ok && !v.cyclic(name) && v.complete(val)
}

func (v *varSheet) complete(in []CV) bool {
	for _, c := range in {
		if c.K == TFunc && c.V == "var" {
			a := noWS(c.Sub)
			if len(a) == 0 || a[0].K != TIdent {
				return false
			}
			if v.opaque[a[0].V] || v.valid(a[0].V) {
				continue
			}
			f, ok := fallback(c)
			if !ok || !v.complete(f) {
				return false
			}
			continue
		}
		if !v.complete(c.Sub) {
			return false
		}
	}
	return true
}

// operator tells whether there is an operator before or after a value.
func operator(in []CV, i, dir int) bool {
	for i += dir; i >= 0 && i < len(in); i += dir {
		if in[i].K != TWS {
			return in[i].K == TDelim
		}
	}
	return false
}

// subst replaces the references in a value.
func (v *varSheet) subst(in []CV, math bool) []CV {
	var out []CV
	for i, c := range in {
		if v.steps++; v.steps > 1<<22 {
			panic("too many steps")
		}
		if c.K == TFunc && c.V == "var" {
			var repl []CV
			name := ""
			if a := noWS(c.Sub); len(a) > 0 && a[0].K == TIdent {
				name = a[0].V
			}
			f, ok := fallback(c)
			switch {
			case v.opaque[name]:
				out = append(out, c)
				continue
			case v.valid(name):
				repl = v.subst(v.defs[name], math)
			case ok:
				repl = v.subst(f, math)
			default:
				v.left++
				out = append(out, c)
				continue
			}
			// Operands of a calculation are single values.
			if operand := math && (operator(in, i, -1) || operator(in, i, 1)); operand && len(noWS(repl)) != 1 {
				v.left++
				out = append(out, c)
				continue
			}
			ws := CV{Tok: Tok{K: TWS}}
			if !math {
				out = append(append(append(out, ws), repl...), ws)
			} else {
				out = append(out, repl...)
			}
			continue
		}
		if c.nested() {
			c.Sub = v.subst(c.Sub, c.K == TFunc && isMathName(c.V) || c.K == TLParen && math)
		}
		out = append(out, c)
	}
	return out
}

func (v *varSheet) rules(rules []Rule) []Rule {
	var out []Rule
	for _, r := range rules {
		var decls []Decl
		for _, d := range r.Decls {
			if isOpaque(d.Value, false) {
				known := false
				refs(d.Value, func(n string, _ CV) { known = known || v.defs[n] != nil })
				if known {
					v.raw++
				}
			} else {
				d.Value = trimWS(v.subst(d.Value, false))
			}
			decls = append(decls, d)
		}
		r.Decls = decls
		r.Rules = v.rules(r.Rules)
		out = append(out, r)
	}
	return out
}

// substituted compares an output with the reference.
func substituted(x *X, css string, res *Res) {
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	out, ok := res.Only()
	if !ok {
		x.Fail("no output: %s", res.ErrText())
		return
	}
	x.Validated()
	x.Outcome(out)
	v := &varSheet{}
	want := CanonSheet(v.rules(v.collect(ParseSheet(css).Rules)))
	got := CanonSheet(ParseSheet(out).Rules)
	if !sameList(want, got) {
		x.Fail("the substituted sheet differs\noutput: %s\nwant:\n%s\ngot:\n%s", out, indent(Show(want)), indent(Show(got)))
		return
	}
	if v.left+v.raw > 0 {
		x.Tally("reported")
		if len(res.Errs) == 0 {
			x.Fail("a reference is left without a report\noutput: %s", out)
		}
	} else if len(res.Errs) > 0 {
		x.Fail("something is reported although everything can be substituted: %s", res.ErrText())
	}
}

func init() {
	check := func(x *X, css string) {
		x.Case(css)
		substituted(x, css, x.CompileOne(css, Cfg{Tr: trConfig(12)}))
	}
	vals := []string{"1px", "a b", "a,b", "var(--y)", "var(--y) var(--y)", "var(--u,a b)", "f(var(--y),1)", "\"s\"", "url(u)", "-1.5%", "#fff", "calc(var(--y)*2)", "(1px)", "[var(--y)]", "var(--u)", "var(--y, 3px)", "1px / 2px", "var(--u,var(--y))", "var(--x)", "f(var(--x))", "{a:b}", "f(f(a),var(--u, b c))", "var(--y,var(--x))", "é", "U+1-2", "f(1px,)", "a,", ",a", "var(--u,a,)", "var(--u,,a) b"}
	uses := []string{"var(--x)", "a var(--x)", "var(--x) a", "var(--x)var(--x)", "var(--x),var(--y)", "f(var(--x))", "f(a,var(--x) b)", "var(--x,d)", "var(--u,var(--x))", "var(--u, var(--x) e,f)", "calc(var(--x)*2)", "calc(2*(var(--x)/3))", "[a var(--x)]", "(var(--x))", "var( --x )", "var(/**/--x/**/ , d)", "var(--u)", "var(--u,)", "\"var(--x)\"", "url(var\\(--x\\))", "--x", "var(--x)!important", "var(--X)", "var(--\\78)", "a/var(--x)", "var(--x)/**/a", "min(var(--x),1px)", "calc(var(--x))", "f(g(h(var(--x))))", "var(--xx,var(--x))", "{k:var(--x)}", "var(--u,d,)", "var(--u,,)", "var(--u,,d)", "var(--u,d,e)", "var(--u,d , e f,)", "f(var(--u,d,),var(--x))", "var(--u,var(--x),)", "var(--x,,)", "var(--u, var(--w) var(--x))", "calc(1*var(--u,var(--x)))"}
	ctx := []string{"a{k:$}", "@media (m){a{k:$}}", "@font-face{k:$}", "@keyframes n{from{k:$}to{k:l}}", "a{--z:$}", ":root{k:$}", ":root{l:m;--q:$}", "a{k:l;--x:$;n:o}", "@media m{:root{--x:q;k:$}}", "@page{k:$}", "a,b:hover{k:$;l:$}"}
	inserted := func(x *X, defs, use string) string {
		return strings.NewReplacer("D", defs, "$", use).Replace(x.Pick("D$", "$D"))
	}
	register(&Check{
		ID:   "C11",
		Rule: "all combinations of 30 definition values and 41 uses in 11 places, all sequences of up to three definitions in rules of 10 kinds, and all graphs of up to three or four definitions that refer to each other in 9 ways; distinct by text",
		Parts: []Part{
			{Name: "definitions and uses", Dev: [2]int{1, 2}, Body: func(x *X) {
				defs := ":root{--x:" + vals[x.Free(len(vals))] + ";--y:" + x.Pick(vals...) + "}"
				u := uses[x.Free(len(uses))]
				c := x.Pick(ctx...)
				if strings.Contains(c, ";--x:$") && strings.Contains(u, "{") {
					x.Skip()
				}
				check(x, inserted(x, defs, strings.Replace(c, "$", u, -1)))
			}},
			{Name: "places", Dev: [2]int{1, 1}, Body: func(x *X) {
				defs := ":root{--x:" + x.FreePick("1px", "a b", "var(--y) 2px", "{a:b}", "var(--q)") + ";--y:" + x.Pick(vals...) + "}"
				c := ctx[x.Free(len(ctx))]
				check(x, inserted(x, defs, strings.Replace(c, "$", uses[x.Free(len(uses))], -1)))
			}},
			{Name: "two uses in a declaration", Dev: [2]int{0, 0}, Body: func(x *X) {
				u := uses[x.Free(len(uses))]
				w := uses[x.Free(len(uses))]
				if strings.Contains(u+w, "!") {
					x.Skip()
				}
				check(x, ":root{--x:"+x.FreePick("1px", "a,b")+";--y:3%}a{k:"+u+x.FreePick(" ", "/**/", ",")+w+"}")
			}},
			{Name: "which definition", Dev: [2]int{1, 2}, Body: func(x *X) {
				sel := []string{":root", " :root ", ":root,a", "a:root", ":root a", ":root:hover", "::root", "html", ":not(:root)", ":root/**/", ".root", ":root>a", ":root:root", "*:root", ":root,:root"}
				var s strings.Builder
				n := x.Free(3) + 1
				for i := 0; i < n; i++ {
					body := fmt.Sprintf("--x:%dpx", i)
					body = strings.Replace(x.Pick("$", "$;k:v", "k:v;$;", "$ !important", "--x:0;$", "$;--x:{a:b}", "--x:{a:b};$", "--x : a"), "$", body, 1)
					rule := sel[x.Free(len(sel))] + "{" + body + "}"
					s.WriteString(strings.Replace(x.Pick("$", "@media (m){$}", "/**/$\n"), "$", rule, 1))
				}
				use := "b{k:var(--x) var(--x,c)}"
				css := s.String() + use
				if x.Bool() {
					css = use + s.String()
				}
				check(x, css)
			}},
			{Name: "definitions that refer to each other", Dev: [2]int{0, 1}, Body: func(x *X) {
				form := []string{"1px", "var(--%)", "var(--%,e)", "a var(--%)", "f(var(--%))", "var(--u,var(--%))", "var(--%,var(--#))", "var(--%) var(--#)", "var(--u)"}
				n := 3
				var b strings.Builder
				for i := 0; i < n; i++ {
					f := form[x.Free(len(form))]
					to := func() string { return string(rune('a' + x.Free(n))) }
					if strings.Contains(f, "%") {
						f = strings.Replace(f, "%", to(), 1)
					}
					if strings.Contains(f, "#") {
						if x.thorough {
							f = strings.Replace(f, "#", to(), 1)
						} else {
							f = strings.Replace(f, "#", string(rune('a'+(i+1)%n)), 1)
						}
					}
					b.WriteString("--" + string(rune('a'+i)) + ":" + f + ";")
				}
				check(x, ":root{"+b.String()+"}k{l:var(--a);m:"+x.Pick("var(--b,g)", "f(var(--c)) var(--b)", "calc(1*var(--b))")+"}")
			}},
			{Name: "long chains", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := x.Free(9) + 1
				form := x.FreePick("var(--v%)", "var(--v%,f)", "f(var(--v%))", "a var(--v%)", "var(--v%) var(--v%)", "var(--u,var(--v%))")
				last := x.FreePick("1px", "var(--v0)", "var(--w)", "{a:b}", "b c")
				var d []string
				for i := 0; i < n; i++ {
					d = append(d, fmt.Sprintf("--v%d:%s", i, strings.Replace(form, "%", fmt.Sprint(i+1), -1)))
				}
				d = append(d, fmt.Sprintf("--v%d:%s", n, last))
				if x.Free(2) == 1 {
					for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
						d[i], d[j] = d[j], d[i]
					}
				}
				check(x, ":root{"+strings.Join(d, ";")+"}a{k:var(--v0) "+x.FreePick("", "var(--v1,g)", "calc(2*var(--v0))")+"}")
			}},
		},
	})
}
