package main

// Compiled output is accepted again and is a fixed point.

import (
	"fmt"
	"strings"
)

// Unsquash puts whitespace around + and - in math functions that were printed without it (K1). An operator may
// as well be part of a unit such as px-: the n-th one is left alone if bit n of keep is set. It also tells how
// many operators there are.
func Unsquash(css string, keep int) (string, int) {
	n := 0
	var b strings.Builder
	var stack []bool // for every open parenthesis: in math
	math := func() bool { return len(stack) > 0 && stack[len(stack)-1] }
	alnum := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '%' || c == ')' || c == '_' || c >= 0x80
	}
	for i := 0; i < len(css); i++ {
		c := css[i]
		switch c {
		case '"', '\'':
			j := i + 1
			for j < len(css) && css[j] != c {
				if css[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(css) {
				j = len(css) - 1
			}
			b.WriteString(css[i : j+1])
			i = j
			continue
		case '(':
			st := i
			for st > 0 && (alnum(css[st-1]) && css[st-1] != ')' || css[st-1] == '-' || css[st-1] == '_') {
				st--
			}
			name := strings.ToLower(css[st:i])
			for strings.HasPrefix(name, "-") {
				name = name[1:] // the sign is an operator
			}
			stack = append(stack, isMathName(name) || name == "" && math())
		case ')':
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		case '+', '-':
			if math() && i > 0 && (alnum(css[i-1]) || css[i-1] == '"' || css[i-1] == '\'') && i+1 < len(css) && css[i+1] != ' ' {
				exp := (css[i-1] == 'e' || css[i-1] == 'E') && i > 1 && (css[i-2] >= '0' && css[i-2] <= '9' || css[i-2] == '.') && css[i+1] >= '0' && css[i+1] <= '9'
				if exp {
					// A number has only one exponent.
					j := i - 2
					for j > 0 && css[j] >= '0' && css[j] <= '9' {
						j--
					}
					if css[j] == '+' || css[j] == '-' {
						j--
					}
					exp = j < 1 || css[j] != 'e' && css[j] != 'E' || css[j-1] < '0' || css[j-1] > '9'
				}
				if !exp {
					n++
					if keep>>(n-1)&1 == 1 {
						b.WriteByte(c)
						continue
					}
				}
				if !exp {
					b.WriteString(" " + string(c) + " ")
					continue
				}
			}
		}
		b.WriteByte(c)
	}
	return b.String(), n
}

func fixedPoint(x *X, css string, cfgN int) {
	cfg := Cfg{Tr: trConfig(cfgN)}
	x.Case(fmt.Sprint(cfgN, " ", css))
	res := x.CompileOne(css, cfg)
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	if len(res.Errs) > 0 {
		x.Tally("reported")
		return
	}
	out, ok := res.Only()
	if !ok {
		x.Fail("no output and no error")
		return
	}
	x.Validated()
	x.Outcome(out)
	if out == "" {
		return
	}
	again := x.CompileOne(out, cfg)
	out2, _ := again.Only()
	if again.Panic == "" && len(again.Errs) == 0 && out2 == out {
		return
	}
	if _, n := Unsquash(out, 0); n > 0 {
		for keep := 0; keep < 1<<uint(n) && keep < 16; keep++ {
			u, _ := Unsquash(out, keep)
			fixed := x.CompileOne(u, cfg)
			if out3, _ := fixed.Only(); len(fixed.Errs) == 0 && out3 == out && x.Known("K1") {
				return
			}
		}
	}
	x.Fail("compiled again, the output changes or is not accepted\nfirst: %s\nsecond: %s\n%s", out, out2, again.ErrText()+again.Panic)
}

// someConfigs are: everything off, everything on with each import mode, and each switch alone.
var someConfigs = []int{0, 95, 94, 3, 6, 12, 24, 48}

func init() {
	cfg := func(x *X) int { return someConfigs[x.Free(len(someConfigs))] }
	register(&Check{
		ID:   "C06",
		Rule: "all sheets of the bounded grammars of the other checks that compile without errors, with the transforms off, on and one at a time; distinct by text and configuration",
		Parts: []Part{
			{Name: "two selectors", Dev: [2]int{1, 1}, Body: func(x *X) {
				s := simples[x.Free(len(simples))]
				if x.Free(2) == 1 {
					s = joined(x, s, joins[x.Free(len(joins))], simples[x.Free(len(simples))])
				}
				fixedPoint(x, strings.Replace(x.Pick("$ {k:v}", "@media (m){$ {k:v}}"), "$", s, 1), []int{0, 95}[x.Free(2)])
			}},
			{Name: "namespaces and columns", Dev: [2]int{0, 0}, Body: func(x *X) {
				s := ""
				for i := 1 + x.Free(3); i > 0; i-- {
					s += x.FreePick("a", "*", ".c", "#i", ":hover", "|")
					if i > 1 {
						s += x.FreePick("||", " || ", "|", " | ", "", ">", " ")
					}
				}
				fixedPoint(x, s+"{k:v}", 0)
			}},
			{Name: "attribute tests and An+B", Dev: [2]int{1, 2}, Body: func(x *X) {
				s := ""
				if x.Free(2) == 0 {
					sp := func() string { return x.Pick(attrSpace...) }
					v := x.FreePick(attrVals...)
					s = x.Pick("", "a", "b ") + "[" + sp() + x.Pick(attrNames...) + sp() + x.FreePick(attrOps...) + sp() + v + x.Pick(" i", "", " s") + sp() + "]" + x.Pick("", ".k", " .k", ">b")
				} else {
					s = ":nth-child(" + x.Pick("", " ") + anPlusB(x) + ")" + x.Pick("", ".c", " d")
				}
				fixedPoint(x, s+"{k:v}", 0)
			}},
			{Name: "two values in blocks", Dev: [2]int{1, 1}, Body: func(x *X) {
				v := values[x.Free(len(values))]
				if x.Free(2) == 1 {
					second := smallValues
					if x.thorough {
						second = values
					}
					v += x.FreePick(" ", ",", "/**/", "") + x.FreePick(second...)
				}
				fixedPoint(x, strings.Replace(x.Pick(blocks...), "$", v, -1), []int{0, 95}[x.Free(2)])
			}},
			{Name: "verbatim declarations", Dev: [2]int{1, 2}, Body: func(x *X) {
				css := "q{" + x.Pick("", "r:s;", "--r:s;", ";") + x.Pick("p:", "--p:", "*p:", "p") + x.FreePick("", "a ") + oddValues[x.Free(len(oddValues))] + x.FreePick("", " b") + x.Pick("", ";", " !important") + x.FreePick("", ";r:s") + "}"
				fixedPoint(x, css, []int{0, 95}[x.Free(2)])
			}},
			{Name: "three rules of 29 kinds", Dev: [2]int{0, 1}, Body: func(x *X) {
				var b strings.Builder
				for i := x.Free(3); i >= 0; i-- {
					b.WriteString(strings.Replace(ruleKinds[x.Free(len(ruleKinds))], "#", string(rune('1'+i)), -1))
				}
				fixedPoint(x, b.String(), []int{0, 95}[x.Free(2)])
			}},
			{Name: "media queries", Dev: [2]int{0, 0}, Body: func(x *X) {
				q := mediaQuery(x, 1)
				fixedPoint(x, "@custom-media --c (c>1px);@media "+q+"{a{k:v}}", []int{0, 3, 27}[x.Free(3)])
			}},
			{Name: "media features", Dev: [2]int{1, 1}, Body: func(x *X) {
				q := x.Pick("", "not ", "screen and ") + features[x.Free(len(features))] + x.FreePick("", " and ", ",", " or ")
				if strings.HasSuffix(q, " ") || strings.HasSuffix(q, ",") {
					q += features[x.Free(len(features))]
				}
				fixedPoint(x, "@media "+q+"{a{k:v}}", []int{0, 3}[x.Free(2)])
			}},
			{Name: "math", Dev: [2]int{1, 9}, Body: func(x *X) {
				f := x.Pick("calc($)", "min($,1px)", "calc(($) * 2)", "f(calc($))", "calc(calc($) - 1px)")
				fixedPoint(x, ":root{--x:2}a{b:"+strings.Replace(f, "$", mathText(x, 3), -1)+"}", []int{48, 0, 60}[x.Choose(3)])
			}},
			{Name: "variables", Dev: [2]int{2, 3}, Body: func(x *X) {
				vs := []string{"1px", "a b", "a,b", "var(--y)", "var(--y) var(--y)", "var(--u,a b)", "f(var(--y))", "{a:b}", "1px solid var(--z,#fff)", `"s"`, "calc(var(--y)*2)", "url(x)", "-a", "var(--x)"}
				css := x.Pick(":root", ":root,a", ":root ") + "{--x:" + vs[x.Free(len(vs))] + ";--y:" + x.Pick(vs...) + "}a{b:" + vs[x.Free(len(vs))] + x.Pick("", " ", ",") + "var(--x);c:" + x.Pick("d", "f(var(--x))", "[var(--x)]", "var(--x)var(--y)") + "}"
				fixedPoint(x, css, cfg(x))
			}},
			{Name: "addresses of imports", Dev: [2]int{1, 1}, Body: func(x *X) {
				fixedPoint(x, importOf(x)+x.Pick("", "a{k:v}"), []int{0, 93}[x.Free(2)])
			}},
			{Name: "at-rules and their names", Dev: [2]int{1, 1}, Body: func(x *X) {
				r := x.FreePick(atRules...)
				if r2 := x.Free(len(atRules) + 1); r2 > 0 {
					r += atRules[r2-1]
				}
				fixedPoint(x, x.Pick("", "y{k:v}")+r, []int{0, 95}[x.Free(2)])
			}},
			{Name: "names of media features and types", Dev: [2]int{0, 0}, Body: func(x *X) {
				q := "(" + x.FreePick(mediaFeatures...) + ")"
				if x.Free(2) == 1 {
					q = x.FreePick(mediaTypes...)
				}
				q = strings.Replace(x.FreePick("$", "not $", "$ and (m)", "screen and $", "m,$", "(m) and (not $)", "only $"), "$", q, 1)
				fixedPoint(x, "@media "+q+"{a{k:v}}", []int{0, 3}[x.Free(2)])
			}},
			{Name: "numbers and units", Dev: [2]int{0, 0}, Body: func(x *X) {
				u := ""
				if n := x.Free(len(unitNames) + 1); n > 0 {
					u = unitNames[n-1]
				}
				v := x.FreePick(numbers...) + u
				fixedPoint(x, "q{p:"+strings.Replace(x.FreePick("$", "$ $", "f($)", "calc($)", "calc($*2)", "calc($ + 1px)", "var(--x,$)"), "$", v, -1)+"}", []int{0, 48}[x.Free(2)])
			}},
			{Name: "names in selectors, properties and functions", Dev: [2]int{0, 0}, Body: func(x *X) {
				css := ""
				switch x.Free(4) {
				case 0:
					css = x.FreePick("", "a") + ":" + x.FreePick(pseudoClasses...) + x.FreePick("", ":hover", " b") + "{k:v}"
				case 1:
					css = x.FreePick("", "a") + "::" + x.FreePick(pseudoElements...) + x.FreePick("", ":hover", " b") + "{k:v}"
				case 2:
					css = "a{" + x.FreePick(properties...) + ":" + x.FreePick("0", "0px", "#ffffff", "normal", "\"a\"", "a , b", "1.0", "1px 1px 1px 1px") + "}"
				case 3:
					css = "a{k:" + x.FreePick(functions...) + "(" + x.FreePick("", "0", "0 0", "1, 0", "a/b", "--a,1px") + ")}"
				}
				fixedPoint(x, css, []int{0, 94}[x.Free(2)])
			}},
			{Name: "single edits of well-formed sheets and unknown constructs", Dev: [2]int{0, 0}, Body: func(x *X) {
				sheets := append(append(append([]string{}, wellFormed...), unknown...), atRules...)
				css := sheets[x.Free(len(sheets))]
				if x.Free(2) == 1 {
					css = mutated(x, css, x.thorough)
				}
				fixedPoint(x, css, []int{0, 93}[x.Free(2)])
			}},
			{Name: "corpus", Dev: [2]int{0, 0}, Body: func(x *X) {
				a, b := corpus[x.Free(len(corpus))], corpus[x.Free(len(corpus))]
				fixedPoint(x, a+b, x.Free(trConfigs))
			}},
			{Name: "token sequences in context", Dev: [2]int{0, 0}, Body: func(x *X) {
				css := strings.Replace(contexts[x.Free(len(contexts))], "$", x.seq(2, lexemes, nil), 1)
				fixedPoint(x, css, []int{0, 95}[x.Free(2)])
			}},
			{Name: "longer token sequences in context", Thorough: true, Body: func(x *X) {
				css := strings.Replace(contexts[x.Free(len(contexts))], "$", x.seq(3, lexemes, nil), 1)
				fixedPoint(x, css, []int{0, 95}[x.Free(2)])
			}},
			{Name: "three values", Thorough: true, Body: func(x *X) {
				v := values[x.Free(len(values))]
				for i := 0; i < 2; i++ {
					v += x.FreePick(" ", ",") + values[x.Free(len(values))]
				}
				fixedPoint(x, "q{p:"+v+"}", 0)
			}},
		},
	})
}
