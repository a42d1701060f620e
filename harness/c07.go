package main

// Transforms are off by default and independent of each other.

import (
	"fmt"
	"strings"
)

const (
	oRange = 1 << iota
	oLink
	oVar
	oCustom
	oCalc
)

// piece is a construct with what becomes of it under the options that it depends on. # is a digit.
type piece struct {
	css  string
	opts int
	// out has the result for every non-empty combination of the options.
	out   map[int]string
	style bool // can be in @media
}

var pieces = []piece{
	{css: "a#{k:v;--p:q}", style: true},
	{css: "a#:any-link{k:v}", opts: oLink, out: map[int]string{oLink: "a#:visited,a#:link{k:v}"}, style: true},
	{css: "b#:any-link c:any-link d,e{any-link:any-link}", opts: oLink, out: map[int]string{oLink: "b#:visited c:visited d,b#:visited c:link d,b#:link c:visited d,b#:link c:link d,e{any-link:any-link}"}, style: true},
	{css: "e#:not(:any-link) f::any-link2{k:v}", style: true},
	{css: "@media (w#>=1px){f{k:v}}", opts: oRange, out: map[int]string{oRange: "@media (min-w#:1px){f{k:v}}"}},
	{css: "@media (1px<w#<2px) and (c),not (3px<=w#<=4px){f{k:v}}", opts: oRange, out: map[int]string{oRange: "@media (min-w#:1.001px) and (max-w#:1.999px) and (c),not ((min-w#:3px) and (max-w#:4px)){f{k:v}}"}},
	{css: "@media (w#>1px){f:any-link{k:calc(1px*2);l:var(--u,3px)}}", opts: oRange | oLink | oVar | oCalc, out: map[int]string{
		oRange:                        "@media (min-w#:1.001px){f:any-link{k:calc(1px*2);l:var(--u,3px)}}",
		oLink:                         "@media (w#>1px){f:visited,f:link{k:calc(1px*2);l:var(--u,3px)}}",
		oVar:                          "@media (w#>1px){f:any-link{k:calc(1px*2);l:3px}}",
		oCalc:                         "@media (w#>1px){f:any-link{k:2px;l:var(--u,3px)}}",
		oRange | oLink:                "@media (min-w#:1.001px){f:visited,f:link{k:calc(1px*2);l:var(--u,3px)}}",
		oRange | oVar:                 "@media (min-w#:1.001px){f:any-link{k:calc(1px*2);l:3px}}",
		oRange | oCalc:                "@media (min-w#:1.001px){f:any-link{k:2px;l:var(--u,3px)}}",
		oLink | oVar:                  "@media (w#>1px){f:visited,f:link{k:calc(1px*2);l:3px}}",
		oLink | oCalc:                 "@media (w#>1px){f:visited,f:link{k:2px;l:var(--u,3px)}}",
		oVar | oCalc:                  "@media (w#>1px){f:any-link{k:2px;l:3px}}",
		oRange | oLink | oVar:         "@media (min-w#:1.001px){f:visited,f:link{k:calc(1px*2);l:3px}}",
		oRange | oLink | oCalc:        "@media (min-w#:1.001px){f:visited,f:link{k:2px;l:var(--u,3px)}}",
		oRange | oVar | oCalc:         "@media (min-w#:1.001px){f:any-link{k:2px;l:3px}}",
		oLink | oVar | oCalc:          "@media (w#>1px){f:visited,f:link{k:2px;l:3px}}",
		oRange | oLink | oVar | oCalc: "@media (min-w#:1.001px){f:visited,f:link{k:2px;l:3px}}",
	}},
	{css: "@custom-media --m# (w>=1px);@media (--m#) and (c){g{k:v}}", opts: oRange | oCustom, out: map[int]string{
		oRange:           "@custom-media --m# (min-w:1px);@media (--m#) and (c){g{k:v}}",
		oCustom:          "@media (w>=1px) and (c){g{k:v}}",
		oRange | oCustom: "@media (min-w:1px) and (c){g{k:v}}",
	}},
	{css: "@custom-media --n# (n:1);@media not (--n#){g{k:v}}", opts: oCustom, out: map[int]string{oCustom: "@media not (n:1){g{k:v}}"}},
	{css: "@media (--u#) and (w<=1px){a{k:v}}", opts: oRange, out: map[int]string{oRange: "@media (--u#) and (max-w:1px){a{k:v}}"}},
	{css: ":root{--v#:1px}h{k:var(--v#) --v#}", opts: oVar, out: map[int]string{oVar: "h{k:1px --v#}"}},
	{css: "h#{k:var(--u#,2px) f(var(--u#,a b))}", opts: oVar, out: map[int]string{oVar: "h#{k:2px f(a b)}"}, style: true},
	{css: "i#{k:calc(1px*2);l:calc}", opts: oCalc, out: map[int]string{oCalc: "i#{k:2px;l:calc}"}, style: true},
	{css: "i#{k:f(calc(2*(6px/4))) min(1px,2px)}", opts: oCalc, out: map[int]string{oCalc: "i#{k:f(3px) min(1px,2px)}"}, style: true},
	{css: ":root{--w#:3px}j{k:calc(var(--w#)*2)}", opts: oVar | oCalc, out: map[int]string{
		oVar:         "j{k:calc(3px*2)}",
		oCalc:        ":root{--w#:3px}j{k:calc(var(--w#)*2)}",
		oVar | oCalc: "j{k:6px}",
	}},
	{css: ":root{--x#:calc(1px*2)}k{k:var(--x#)}", opts: oVar | oCalc, out: map[int]string{
		oVar:         "k{k:calc(1px*2)}",
		oCalc:        ":root{--x#:2px}k{k:var(--x#)}",
		oVar | oCalc: "k{k:2px}",
	}},
	{css: "@font-face{k#:calc(1px*2);l:var(--u,3px)}", opts: oVar | oCalc, out: map[int]string{
		oVar:         "@font-face{k#:calc(1px*2);l:3px}",
		oCalc:        "@font-face{k#:2px;l:var(--u,3px)}",
		oVar | oCalc: "@font-face{k#:2px;l:3px}",
	}},
	{css: "@keyframes n#{from{k:calc(1px*2);l:var(--u,3px)}}", opts: oVar | oCalc, out: map[int]string{
		oVar:         "@keyframes n#{from{k:calc(1px*2);l:3px}}",
		oCalc:        "@keyframes n#{from{k:2px;l:var(--u,3px)}}",
		oVar | oCalc: "@keyframes n#{from{k:2px;l:3px}}",
	}},
	{css: ":root{--a#:var(--b#);--b#:4px;k:var(--a#)}", opts: oVar, out: map[int]string{oVar: ":root{k:4px}"}},
	{css: ":root:any-link{--r#:1px}l{k:v}", opts: oLink, out: map[int]string{oLink: ":root:visited,:root:link{--r#:1px}l{k:v}"}},
	{css: "@page{k#:url(calc\\(1px\\));l:\"var(--x) (w>1px) :any-link\"}"},
}

// under is the expected text of a piece.
func (p piece) under(cfg int, digit string) string {
	out := p.css
	if m := cfg & p.opts; m != 0 {
		out = p.out[m]
	}
	return strings.Replace(out, "#", digit, -1)
}

// nameContexts are places with the names, numbers, components and so on that can be there.
var nameContexts = []struct {
	ctx   string
	names func() []string
}{
	{"a{b:$}", numbersWithUnits}, {"a{b:f($,$)}", numbersWithUnits}, {"@media (a:$){b{c:d}}", numbersWithUnits}, {"a{$:$}", func() []string { return properties }},
	{"a{b:$(c)}", func() []string { return functions }}, {"a{b:$(1px,2 / 3)}", func() []string { return functions }}, {"a{b:$(1px)}", func() []string { return functions }}, {"a{b:$(-1.5)}", func() []string { return functions }}, {"a{b:$(1px,2px)}", func() []string { return functions }}, {"a{b:$()}", func() []string { return functions }}, {"a{b:$(2%) $(3)}", func() []string { return functions }}, {"a{b:$(\"s\",1)}", func() []string { return functions }}, {"a{b:$(1px + 2px)}", func() []string { return functions }}, {"a{b:c,$($(0),1)/$(1)}", func() []string { return functions }}, {"@keyframes n{$%{k:v}}", func() []string { return numbers }},
	{"a:nth-child($){b:c}", func() []string { return numbers }}, {"a:${b:c}", func() []string { return pseudoClasses }}, {"a::$ b{c:d}", func() []string { return pseudoElements }},
	{"a:$(b){c:d}", func() []string { return pseudoFunctions }}, {"$ $,$>$ {a:b}", func() []string { return simples }}, {"a{b:$ c}", func() []string { return values }},
	{"a{b:$;c:d}", func() []string { return oddValues }}, {"@media not $ , $ and (a){b{c:d}}", func() []string { return features }}, {"@supports (a:$){b{c:$}}", func() []string { return values }},
	{"@page{a:$}", numbersWithUnits}, {"@font-face{a:$}", func() []string { return values }}, {"$ {a:b}", func() []string { return tagNames }},
}

// numbersWithUnits are all numbers without unit, and some with each.
func numbersWithUnits() []string {
	out := append([]string{}, numbers...)
	for _, u := range unitNames {
		for _, n := range numbers {
			if strings.HasPrefix(strings.ToLower(u), "e") && strings.ContainsAny(n, "eE") {
				continue
			}
			out = append(out, n+u)
		}
	}
	return out
}

func init() {
	for _, p := range pieces {
		for m := 1; m < 32; m++ {
			if m&^p.opts == 0 {
				if _, ok := p.out[m]; !ok {
					panic(fmt.Sprint(p.css, m))
				}
			}
		}
	}
	expect := func(x *X, what, out, want string) {
		x.Validated()
		x.Outcome(out)
		if diff, known := SheetDiff(want, out); diff != "" {
			x.Explained(known, "%s is not rewritten as its options ask for\noutput: %s\n%s", what, out, diff)
		}
	}
	run := func(x *X, p Proj, cfg Cfg) *Res {
		res := x.Compile(p, cfg)
		if res.Panic != "" || len(res.Errs) > 0 {
			x.Fail("valid input is not accepted: %s%s", res.Panic, res.ErrText())
			return nil
		}
		return res
	}
	// sheet makes a sheet of n constructs and its expected output under a configuration.
	sheet := func(x *X, n, cfg int, digits string) (css, want string) {
		for i := 0; i < n; i++ {
			p := pieces[x.Free(len(pieces))]
			f := "$"
			if p.style {
				f = x.Pick("$", "@media (y){$}")
			}
			css += strings.Replace(f, "$", p.under(0, digits[i:i+1]), 1)
			want += strings.Replace(f, "$", p.under(cfg, digits[i:i+1]), 1)
		}
		return
	}
	register(&Check{
		ID:   "C07",
		Rule: "all sheets of two (thorough: three) of 21 constructs at top level and in @media, and all pairs of files with one construct each connected by an import, each under all 96 combinations of transform options; all single edits of well-formed sheets with and without each option that has nothing to do in them; all names, numbers with units, components and selectors of the dictionaries, which no transform may touch; distinct by text and configuration",
		Parts: []Part{
			{Name: "two constructs", Dev: [2]int{2, 2}, Body: func(x *X) {
				n := x.Free(trConfigs)
				css, want := sheet(x, 2, n/3, "12")
				x.Case(fmt.Sprint(n, " ", css))
				if res := run(x, One(css), Cfg{Tr: trConfig(n)}); res != nil {
					expect(x, "a construct", res.Out["a.css"], want)
				}
			}},
			{Name: "transforms without anything to transform", Dev: [2]int{0, 0}, Body: func(x *X) {
				sheets := append(append(append([]string{}, wellFormed...), unknown...), atRules...)
				var css string
				if which := x.Free(3); which == 2 {
					c := x.Free(len(nameContexts))
					names := nameContexts[c].names()
					css = strings.Replace(nameContexts[c].ctx, "$", names[x.Free(len(names))], -1)
				} else if which == 0 {
					css = x.FreePick("", "y{k:v}") + sheets[x.Free(len(sheets))]
				} else if x.thorough {
					css = mutated(x, sheets[x.Free(len(sheets))], false)
				} else {
					css = mutated(x, wellFormed[x.Free(len(wellFormed))], false)
				}
				n := []int{0, 31}[x.Free(2)]
				low := strings.ToLower(css)
				if strings.Contains(css, "\\") {
					x.Skip() // names may be spelled in many ways
				}
				x.Case(fmt.Sprint(n, " ", css))
				res := x.CompileOne(css, Cfg{Tr: trConfig(3 * n)})
				for bit, relevant := range []bool{
					strings.Contains(low, "@") && strings.ContainsAny(low, "<>="),
					strings.Contains(low, "link"),
					strings.Contains(low, "--") || strings.Contains(low, "var("),
					strings.Contains(low, "--") || strings.Contains(low, "custom"),
					strings.Contains(low, "calc("),
				} {
					if relevant {
						continue
					}
					m := n ^ 1<<uint(bit)
					other := x.CompileOne(css, Cfg{Tr: trConfig(3 * m)})
					x.Validated()
					if a, b := res.Out["a.css"], other.Out["a.css"]; a != b || res.Map["a.css"] != other.Map["a.css"] || len(res.Out) != len(other.Out) {
						x.Fail("transforms %d and %d, which differ in one that has nothing to do\n%s\n%s", n, m, a, b)
					}
					if res.ErrText() != other.ErrText() || res.Panic != other.Panic {
						x.Fail("transforms %d and %d, which differ in one that has nothing to do\n%s\n%s", n, m, res.ErrText(), other.ErrText())
					}
				}
			}},
			{Name: "three constructs", Dev: [2]int{0, 1}, Body: func(x *X) {
				n := 0
				if x.thorough {
					n = x.Free(trConfigs)
				} else {
					n = []int{0, 3, 6, 12, 24, 48, 95}[x.Free(7)]
				}
				css, want := sheet(x, 3, n/3, "123")
				x.Case(fmt.Sprint(n, " ", css))
				if res := run(x, One(css), Cfg{Tr: trConfig(n)}); res != nil {
					expect(x, "a construct", res.Out["a.css"], want)
				}
			}},
			{Name: "a construct in an imported file", Dev: [2]int{0, 1}, Body: func(x *X) {
				n := x.Free(trConfigs)
				css, want := sheet(x, 1, n/3, "1")
				imp, impWant := sheet(x, 1, n/3, "2")
				x.Case(fmt.Sprint(n, " ", css, "|", imp))
				res := run(x, Proj{"a.css": "@import \"./i.css\";" + css, "i.css": imp}, Cfg{Tr: trConfig(n)})
				if res == nil {
					return
				}
				files := 1
				switch n % 3 {
				case 2:
					want = impWant + want
				case 1:
					files = 2
					expect(x, "a construct of the followed file", res.Out["i.css"], impWant)
					fallthrough
				default:
					want = "@import \"./i.css\";" + want
				}
				expect(x, "a construct", res.Out["a.css"], want)
				if len(res.Out) != files {
					x.Fail("%d files in the result instead of %d", len(res.Out), files)
				}
			}},
		},
	})
}
