package main

import "strings"

// values has one component value per token kind, function shape and lexical hazard.
var values = []string{
	"a", "-a", "--a", "1", "+1", "-1", ".5", "1e3", "1E-3", "-.5e+2", "1px", "1.50e3px", "1e-x", "50%", "-5%", `"s"`, "'s'", `"a'b"`, `'a"b'`, `"a\"b"`, `'a\'b'`, `""`, `"\61 b"`,
	"url(x)", "url( x )", `url("x y")`, "url('x')", `url()`, "url(a\\)b)", "#fff", "#123", "#a-b", "f(1)", "f(a b)", "f(a,b)", "f( a , b )", "f()", "f(g(1) 2)", "f(1 -2)", "f(a -b)", "f(1 2 3,4)",
	"calc(1px * 2)", "calc(1px*2)", "calc((1px))", "calc(2*(3px/4))", "min(1px,2px)", "max(1px, 2%)", "clamp(1px,2%,3em)", "calc(var(--x)*2)", "var(--x)", "var(--x, 1)", "var(--x,)", "var(--x,a,b)",
	"/", "[a]", "[a b]", "[]", "[ a ]", "alpha(opacity=50)", "progid:f(a='b',c=d)", "\\41", "é", "A", "px", "e3", "f(a/b)", "rgb(1 2 3 / 4)", "U", "a\\:b", "very-long-identifier-name",
}

var smallValues = []string{"a", "-a", "1", "+1", "-1", ".5", "1px", "50%", `"s"`, `'a"b'`, "url(x)", "#fff", "f(1 2)", "var(--x, 1)", "calc(1px * 2)", "/", "[a]"}

// oddValues are values that the compiler passes through verbatim.
var oddValues = []string{
	"{a:b}", "{a:b;c:d}", "(a)", "(a;b)", "a=b", "a.b", "a*b", "@x", "a:b", "1 + 2", "$v", "%", "a{b}c", "[a;b]", "[{}]", "f({a:b})", "f([a])", "f(a:b)", "f(;)", "f(!)", "U+26", "u+0-7F", "u+4??", "a!b", "! x", "!important a", "<!--", "-->", "a|b", "~a", "f((a))", "expression(a.b(1))", "calc(1px +)", "calc(a b)", "calc()", "calc(1px + (a b))", "\\", "&", "a^b", "`x`", "f(@a)", "{}", "{;}", "{\"}\"}", "(})"[:2] + ")", "url(x)y", "/**/=", "a,", ",a", "a,,b",
}

// blocks put a declaration value ($) in all kinds of positions.
var blocks = []string{
	"q{p:$}", "q{p:$;}", "q{p: $ ;r:s}", "q{k:v;p:$}", "q{k:v;p:$;r:s}z{k:v}", "q{;;p:$;;r:s}", "q{p:$;p:$}", "q{--p:$;r:s}", "q{p:$ !important;r:s}", "q{p:$! important}", "q{p:$!important;}", "q { p\n:\n$\n; }", "q{/**/p/**/:/**/$/**/;/**/}",
	"@media (m){q{p:$;r:s}}", "@media (m){y{k:v}q{p:$}z{k:v}}", "@font-face{p:$;r:s}", "@keyframes n{from{p:$}50%{r:s}}", "q{*p:$;r:s}", "q{-x-p:$;r:s}", "q{P:$;r:s}", "q{\\70:$}", ":root{--p:$}", "q{é:$;r:s}",
}

func valueCase(x *X, v string) {
	valid(x, strings.Replace(x.Pick(blocks...), "$", v, -1))
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "all values of up to three component values with all separators in all kinds of blocks, verbatim declarations between all kinds of neighbours; distinct by text",
		Parts: []Part{
			{Name: "one and two of 70 values, every block", Dev: [2]int{1, 1}, Body: func(x *X) {
				v := values[x.Free(len(values))]
				if x.Free(2) == 1 {
					v += x.FreePick(" ", ",", ", ", "/**/ /**/") + values[x.Free(len(values))]
				}
				valueCase(x, v)
			}},
			{Name: "adjacent values without whitespace", Dev: [2]int{1, 1}, Body: func(x *X) {
				a, b := values[x.Free(len(values))], values[x.Free(len(values))]
				v := a + x.FreePick("/**/", "") + b
				valueCase(x, v)
			}},
			{Name: "three of 17 values", Dev: [2]int{0, 1}, Body: func(x *X) {
				v := smallValues[x.Free(len(smallValues))]
				for i := 0; i < 2; i++ {
					v += x.FreePick(" ", ",", "/**/") + smallValues[x.Free(len(smallValues))]
				}
				valueCase(x, v)
			}},
			{Name: "three of 70 values", Thorough: true, Body: func(x *X) {
				v := values[x.Free(len(values))]
				for i := 0; i < 2; i++ {
					v += x.FreePick(" ", ",") + values[x.Free(len(values))]
				}
				valueCase(x, v)
			}},
			{Name: "values in functions", Dev: [2]int{0, 1}, Body: func(x *X) {
				a := values[x.Free(len(values))]
				if x.Free(2) == 1 {
					a += x.FreePick(" ", ",", " , ", "/") + values[x.Free(len(values))]
				}
				f := x.FreePick("f($)", "f(g($))", "f(1 $ 2)", "[$]", "var(--x,$)", "f($,$)", "url-prefix($)")
				valueCase(x, strings.Replace(f, "$", a, -1))
			}},
			{Name: "math", Dev: [2]int{0, 1}, Body: func(x *X) {
				f := x.FreePick("calc($)", "min($)", "max(1px,$)", "clamp($,1px,2px)", "f(calc($))", "calc(($))", "calc(calc($))")
				valueCase(x, strings.Replace(f, "$", mathText(x, 3), -1))
			}},
			{Name: "numbers and units", Dev: [2]int{0, 1}, Body: func(x *X) {
				u := ""
				if n := x.Free(len(unitNames) + 1); n > 0 {
					u = unitNames[n-1]
				}
				v := x.FreePick(numbers...) + u
				f := x.FreePick("$", "$ $", "$,$", "-$", "a $", "f($)", "calc($)", "calc(1px + $)", "calc($*2)", "min($,$)", "rgb($ $ $ / $)", "calc(($))", "var(--x,$)", "[$]")
				if f == "-$" && strings.ContainsAny(v[:1], "+-") {
					x.Skip()
				}
				valueCase(x, strings.Replace(f, "$", v, -1))
			}},
			{Name: "names of properties", Dev: [2]int{0, 1}, Body: func(x *X) {
				v := x.FreePick("0", "0px", "0s", "0%", "-0.50em", "1.0", "400", "100ms", "1e3ms", "red", "none", "normal", "bold", "inherit", "initial!important", "transparent", "#ffffff", "#FFAABB80", "#abc", "rgb(255,0,0)", "rgba(0, 0, 0, .0)", "hsl(0deg 0% 0%)", "\"Arial\"", "'Times New Roman',Arial", "arial , serif", "url(a)", "url('a b')", "url(\"a\")", "0 0 0 0", "1px 1px", "1px 1px 1px 1px", "1px 2px 1px 2px", "1px solid red", "all 0s ease 0s", "translate(0)", "scale(1, 1)", "center center", "a/b", "1 / 2", "auto", "\"\"", "''", "counter(a)", "a a", "a,a", "U+26", "A", "100%", "1 1 0%", "1 1 0px", "var(--a)", "calc(1px + 0px)", "-a", "attr(x)", "[a] 1fr [b]", "\"a b\" \"c d\"")
				p := properties[x.Free(len(properties))]
				valid(x, strings.Replace(x.Pick("q{$}", "q{k:v;$;$}", "@media (m){q{r:s;$}}", "@font-face{$}", "@keyframes n{from{$;r:s}}", "@page{$}"), "$", p+":"+v, -1))
			}},
			{Name: "names of functions", Dev: [2]int{0, 1}, Body: func(x *X) {
				f := x.FreePick(functions...)
				arg := x.FreePick("", "0", "0,0", "1px 2px", "0 , 0 ,0", "a", "a,b", "red,blue 50%,#fff", "to left,red", "1deg", "\"s\"", "0%,100%", "1,0,0,1,0,0", "--a,1px", "a b / c", "-a", "1px,calc(1px * 2)", "url(a) 1x,url('b') 2x", "255 255 255/100%", "n,(a)", "n,1px auto", "$(a)", "$($())", "1px + 2px"[:3])
				arg = strings.Replace(arg, "$", f, -1)
				valueCase(x, strings.Replace(x.FreePick("$", "a $", "$ b", "$,$", "$$", "-$", "f($)"), "$", f+"("+arg+")", -1))
			}},
			{Name: "verbatim declarations and their neighbours", Dev: [2]int{1, 2}, Body: func(x *X) {
				nb := []string{"", "r:s;", "r:s!important;", "--r:s;", "*r:s;", "r:{};", "r;", ";", "r:f(a=b);"}
				v := oddValues[x.Free(len(oddValues))]
				css := "q{" + nb[x.Free(len(nb))] + x.Pick("p:", "--p:", "p :", "*p:", "$p:", "p") + x.FreePick("", "a ", "f(1) ") + v + x.FreePick("", " b") + x.Pick("", ";", " !important") + x.FreePick("", ";r:s", ";r:{}") + "}" + x.Pick("", "z{k:v}")
				css = strings.Replace(x.Pick("$", "@media (m){$}", "@font-face{k:v}$"), "$", css, 1)
				preserved(x, css)
			}},
		},
	})
}

// preserved is for input that may be reported. If not, it has to be preserved.
func preserved(x *X, css string) {
	x.Case(css)
	res := x.CompileOne(css, Cfg{})
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
	}
	if len(res.Errs) > 0 {
		x.Tally("reported")
		return
	}
	out, ok := x.Accepted(res)
	if ok {
		x.Outcome(out)
		x.Preserved(css, out)
	}
}

// mathText generates operands and operators with all whitespace allowed around them.
func mathText(x *X, n int) string {
	ops := []string{"1px", "2", "3%", "var(--x)", "(1px)", "(2*3)", "-1px", "f(1)"}
	s := ops[x.Free(len(ops))]
	for i := x.Free(n); i > 0; i-- {
		s += x.FreePick(" + ", " - ", "*", " * ", "/", " / ", "/**/*/**/") + ops[x.Free(len(ops))]
	}
	return s
}
