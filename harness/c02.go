package main

// Selectors, declarations and rule structure keep their meaning with transforms off.

import (
	"strconv"
	"strings"
)

// simples are simple selectors; the ones that start with a name can only start a compound.
var simples = []string{
	"a", "*", ".c", "#i", "[x]", "[x=y]", `[x="y"]`, `[x^="y"]`, `[x~="y z"]`, `[x|="y" i]`, `[x$='y' s]`, `[x*="]"]`, ":hover", "::before",
	":not(.d)", ":is(a,b)", ":not(a b)", ":nth-child(2n+1)", ":nth-last-child(odd)", "::slotted(b)", ":lang(en)", ":host(.h)", ".--m", "#-z", ".\\31 x", ".é", "any-thing", ":any-link",
}

var smallSimples = []string{"a", "*", ".c", "#i", "[x]", `[x="y" i]`, ":hover", "::before", ":not(.d)", ":nth-child(2n+1)"}

// joins between simple selectors: compound, combinators with and without space, comments, lists.
var joins = []string{"", " ", ">", " > ", "+", " + ", "~", " ~ ", ",", " , ", "/**/.q", " /**/ ", "\n", "\t>", ",\n", ">/**/"}
var smallJoins = []string{"", " ", ">", " + ", "~", ", "}

func startsName(s string) bool { return s == "a" || s == "any-thing" || s == "*" }

// joined appends a simple selector if this is valid.
func joined(x *X, cur, join, next string) string {
	if cur != "" && (join == "" || join == "/**/.q") && startsName(next) {
		x.Skip()
	}
	return cur + join + next
}

var ruleContexts = []string{"$ {k:v}", "$ {k:v}z{k:v}", "y{k:v}\n$ {k:v}", "@media (m){$ {k:v}}", "@media (m){y{k:v}$ {k:v}z{k:v}}"}

func selectorCase(x *X, sel string) {
	css := strings.Replace(x.Pick(ruleContexts...), "$", sel, 1)
	valid(x, css)
}

// valid checks that a valid sheet is accepted and preserved.
func valid(x *X, css string) {
	x.Case(css)
	if bad := ParseSheet(css).Bad; len(bad) > 0 {
		panic("generator made a malformed sheet: " + css + ": " + bad[0])
	}
	if out, ok := x.Accepted(x.CompileOne(css, Cfg{})); ok {
		x.Outcome(out)
		x.Preserved(css, out)
	}
}

var (
	attrNames = []string{"x", "data-x", "--x", "X", "\\31 x"}
	attrOps   = []string{"=", "~=", "|=", "^=", "$=", "*="}
	attrVals  = []string{"y", `"y"`, "'y'", `""`, `"a b"`, `"]"`, `'"'`, `"'"`, `"\""`, `"i"`, "i", "-y", "--y", "\\31 0", `"é"`}
	attrMods  = []string{"", " i", " s", "i", "s", "/**/i"}
	attrSpace = []string{"", " ", "/**/", "\n"}
)

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "all selectors made of up to three simple selectors and joiners, all attribute tests, all supported An+B spellings, in several positions of a sheet; distinct by text",
		Parts: []Part{
			{Name: "two simple selectors of 28 with 16 joiners", Dev: [2]int{1, 1}, Body: func(x *X) {
				s := simples[x.Free(len(simples))]
				if n := x.Free(2); n == 1 {
					s = joined(x, s, joins[x.Free(len(joins))], simples[x.Free(len(simples))])
				}
				selectorCase(x, s)
			}},
			{Name: "three simple selectors of 10 with 6 joiners", Dev: [2]int{0, 1}, Body: func(x *X) {
				s := smallSimples[x.Free(len(smallSimples))]
				for i := 0; i < 2; i++ {
					s = joined(x, s, smallJoins[x.Free(len(smallJoins))], smallSimples[x.Free(len(smallSimples))])
				}
				selectorCase(x, s)
			}},
			{Name: "three simple selectors of 28 with 6 joiners", Thorough: true, Body: func(x *X) {
				s := simples[x.Free(len(simples))]
				for i := 0; i < 2; i++ {
					s = joined(x, s, smallJoins[x.Free(len(smallJoins))], simples[x.Free(len(simples))])
				}
				selectorCase(x, s)
			}},
			{Name: "four simple selectors of 10 with 6 joiners", Thorough: true, Body: func(x *X) {
				s := smallSimples[x.Free(len(smallSimples))]
				for i := 0; i < 3; i++ {
					s = joined(x, s, smallJoins[x.Free(len(smallJoins))], smallSimples[x.Free(len(smallSimples))])
				}
				selectorCase(x, s)
			}},
			{Name: "attribute tests", Dev: [2]int{3, 5}, Body: func(x *X) {
				sp := func() string { return x.Pick(attrSpace...) }
				s := x.Pick("", "a", "*", "b ") + "[" + sp() + x.Pick(attrNames...) + sp()
				if x.Free(2) == 1 {
					v := x.FreePick(attrVals...)
					s += x.FreePick(attrOps...) + sp() + v
					m := x.Pick(attrMods...)
					if (m == "i" || m == "s") && !strings.HasSuffix(v, `"`) && !strings.HasSuffix(v, "'") {
						x.Skip() // would be a part of the name
					}
					s += m + sp()
				}
				s += "]" + x.Pick("", ".k", " .k", ">b", "[z]", ",[w] ")
				selectorCase(x, s)
			}},
			{Name: "An+B", Dev: [2]int{2, 3}, Body: func(x *X) {
				fn := x.FreePick("nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type")
				selectorCase(x, x.FreePick("", "a", "b > ")+":"+fn+"("+x.Pick("", " ", "/**/", "\n")+anPlusB(x)+x.Pick("", " ", "/**/")+")"+x.Pick("", ".c", " d", ":hover", "::after"))
			}},
			{Name: "all small coefficients of An+B", Dev: [2]int{0, 0}, Body: func(x *X) {
				a, b := x.Free(259)-129, x.Free(27)-13
				sa, sb := strconv.Itoa(a), strconv.Itoa(b)
				if b >= 0 && (a != 0 || x.Free(2) == 1) {
					sb = "+" + sb
				}
				switch {
				case a == 0:
					selectorCase(x, ":nth-child("+sb+")")
				case b == 0:
					selectorCase(x, "a:nth-last-child("+sa+"n)")
				default:
					selectorCase(x, "a:nth-of-type("+sa+"n"+sb+") b")
				}
			}},
			{Name: "names of elements and pseudo-classes", Dev: [2]int{0, 1}, Body: func(x *X) {
				s := ""
				switch x.Free(4) {
				case 0:
					s = x.FreePick(tagNames...)
				case 1:
					s = ":" + x.FreePick(pseudoClasses...)
				case 2:
					s = "::" + x.FreePick(pseudoElements...)
				case 3:
					n := x.FreePick(pseudoFunctions...)
					arg := "a > .b,#c"
					if strings.HasPrefix(n, "nth") {
						arg = "-2n + 10"
					}
					s = x.FreePick(":", "::") + n + "(" + arg + ")"
				}
				form := x.FreePick("$", "a$", "*$", ".c$", "$.c", "$#d", "$[e]", "$:hover", "$::before", "$ > $", "$,$", "a $,b~$", ":not($)", ":is(a,$ b)", "[e]$", ".$", "#$", "[$]", "[$=$]", "[e=\"$\" i]")
				if len(s) > 0 && s[0] == ':' && strings.ContainsAny(form[:1], ".#") && form != ".c$" || s[0] == ':' && strings.HasPrefix(form, "[$") || s[0] != ':' && (form == "a$" || form == ".c$" || form == "*$" || form == "[e]$") {
					x.Skip()
				}
				if strings.Contains(form, "\"") && strings.ContainsAny(s, "\\\"") {
					x.Skip()
				}
				selectorCase(x, strings.Replace(form, "$", s, -1))
			}},
			{Name: "namespaces and columns", Dev: [2]int{1, 1}, Body: func(x *X) {
				s := ""
				for i := 1 + x.Free(2); i > 0; i-- {
					s += x.FreePick("", "a", "*") + x.FreePick("|", "") + x.FreePick("a", "*") + x.FreePick("", ".c", ":hover", "[x]")
					if i > 1 {
						s += x.FreePick("||", " || ", " ||", "|| ", " ", ">", ",")
					}
				}
				for _, bad := range []string{"aa", "a*", "*a", "**"} {
					if strings.Contains(s, bad) {
						x.Skip()
					}
				}
				selectorCase(x, s)
			}},
			{Name: "nested arguments", Dev: [2]int{2, 3}, Body: func(x *X) {
				depth := x.Free(4)
				s := x.Pick(smallSimples...)
				for i := 0; i < depth; i++ {
					s = x.Pick("", "a", ".e") + x.FreePick(":not(", ":is(", ":where(", "::slotted(", ":has(") + x.Pick("", " ") + s + x.Pick("", ",b", " c", ">d", " ") + ")"
				}
				selectorCase(x, x.Pick("", "z ")+s+x.Pick("", ".f", " g", ",h"))
			}},
		},
	})
}

// anPlusB generates the supported spellings.
func anPlusB(x *X) string {
	a := x.FreePick("", "n", "-n", "2n", "-2n", "+2n", "0n", "1n", "-1n", "+1n", "10n", "+0n", "-0n", "02n")
	if a == "" {
		return x.FreePick("even", "odd", "0", "1", "5", "-5", "+5", "10", "+0", "-0", "007")
	}
	b := x.FreePick("", "0", "1", "3", "10", "05")
	if b == "" {
		return a
	}
	sign := x.FreePick("+", "-")
	left, right := x.Pick("", " ", "  ", "/**/"), x.Pick("", " ", "\t")
	joined := a + left + sign + right + b
	return joined
}
