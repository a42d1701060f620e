package main

// Compilation always terminates, never crashes, and accounts for each entry.

import (
	"fmt"
	"strings"

	"github.com/stephen/cssc/transforms"
)

var allOn = transforms.Options{ImportRules: transforms.ImportRulesInline, MediaFeatureRanges: 1, AnyLink: 1, CustomProperties: 1, CustomMediaQueries: 1, CalcReduction: 1}

// trConfig enumerates transform options: 3 import modes and 5 switches.
func trConfig(n int) (t transforms.Options) {
	t.ImportRules = transforms.ImportRules(n % 3)
	n /= 3
	t.MediaFeatureRanges = transforms.MediaFeatureRanges(n & 1)
	t.AnyLink = transforms.AnyLink(n >> 1 & 1)
	t.CustomProperties = transforms.CustomProperties(n >> 2 & 1)
	t.CustomMediaQueries = transforms.CustomMediaQueries(n >> 3 & 1)
	t.CalcReduction = transforms.CalcReduction(n >> 4 & 1)
	return
}

const trConfigs = 3 * 32

// robust runs a case and checks that it is accounted for.
func robust(x *X, p Proj, cfg Cfg) *Res {
	res := x.Compile(p, cfg)
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return res
	}
	entries := cfg.Entries
	if entries == nil {
		entries = []string{"a.css"}
	}
	for _, e := range entries {
		if _, ok := res.Out[e]; !ok && len(res.Errs) == 0 {
			x.Fail("entry %s has neither an output nor an error", e)
		}
	}
	x.Validated()
	x.Outcome(fmt.Sprint(len(res.Out), len(res.Errs), res.Out["a.css"] != ""))
	if len(res.Errs) > 0 {
		x.Tally("reported")
	}
	if len(res.Out) > 0 {
		x.Tally("has output")
	}
	return res
}

// corpus has well-formed sheets that reach every part of the compiler.
var corpus = []string{
	`a.b#c[d^="e" i]:hover::before>f+g~h i,*{k:v}`,
	`a:not(.b,c > d):nth-child( -2n + 1 ):nth-of-type(even){k:v}`,
	`a{b:c;d:1px solid #fff!important;e:f(1,2 3);g:url(h) "i" 'j'}`,
	`a{width:calc((1px + 2px)*3 - var(--x, 4px)/2);m:min(1px,2%)}`,
	`:root{--a:1px;--b:var(--a) 2px;--c:{x:y};--d:var(--e)}b{c:var(--b) var(--u, var(--a)) var(--d)}`,
	`@media screen and (min-width:1px), not (2px<=width<3px) or ((a) and (b)){a{b:c}}`,
	`@custom-media --m (width>1px) and (--n);@custom-media --n (x);@media (--m) or (not (--n)){a:any-link{b:c}}`,
	`@keyframes x{from,50%{a:b}to{c:var(--d)}}`,
	`@import "i" screen;@import url(j) (width>=1px);a{b:c}`,
	`@font-face{a:b;unicode-range:U+0-7F,u+4??}<!-- a{*b:c;filter:alpha(opacity=50)} -->`,
	"/* c */a\\:b\\31 {c:\"d\\\ne\\\"\";f:url( g\\) )}\r\n\f@page{h:[i j]}",
	`a:any-link b:any-link,c:any-link{d:e}`,
	`a{b:(c;d);e{f:g};h:i}j{k:l}`,
	"a{b:1e3 +.5e-2em -1 5% é \\e9 x}",
}

var bytesAlphabet = []string{"a", "1", " ", "\n", "\r", "\f", "\t", "\x00", "\x80", "\xff", "é", "\U0001F600", "\\", "\"", "'", "/", "*", "@", "#", ".", "-", "+", "(", ")", "[", "]", "{", "}", ":", ";", ",", "!", "<", ">", "=", "\xef\xbb\xbf", "u", "\x7f", "\xc3"}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "all short byte strings, all token sequences of bounded length in every context, every truncation and single edit of a corpus, scaled inputs, and all pairs of 23 kinds of nested or chained expressions and of 22 kinds of selectors and queries up to 240 levels, under transform configurations; distinct by text and configuration",
		Parts: []Part{
			{Name: "strings of 3 of 39 characters", Body: func(x *X) {
				ctx := []string{"$", "a{$}", "a{b:$"}[x.Free(3)]
				css := strings.Replace(ctx, "$", x.seq(3, bytesAlphabet, nil), 1)
				x.Case(css)
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "strings of 4 of 39 characters", Thorough: true, Body: func(x *X) {
				css := x.seq(4, bytesAlphabet, nil)
				x.Case(css)
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "sequences of 2 of 39 lexemes in context", Body: func(x *X) {
				css := strings.Replace(contexts[x.Free(len(contexts))], "$", x.seq(2, lexemes, nil), 1)
				x.Case(css)
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "sequences of 3 of 18 lexemes in context", Body: func(x *X) {
				css := strings.Replace(contexts[x.Free(len(contexts))], "$", x.seq(3, small, nil), 1)
				x.Case(css)
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "sequences of 3 of 39 lexemes in context", Thorough: true, Body: func(x *X) {
				css := strings.Replace(contexts[x.Free(len(contexts))], "$", x.seq(3, lexemes, nil), 1)
				x.Case(css)
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "transform constructs with missing and odd arguments", Dev: [2]int{2, 3}, Body: func(x *X) {
				// Arguments for every function and prelude that a transform looks into.
				args := []string{"", "--x", "--x,", "--x,1px", "--x 1", "1px", "1px + 2px", "a", ",", "var(--x)", "var()", "calc(1px + 1px)", "(1px)", "\"s\"", "[a]", "--y", "1px * a", "1 / 0", "1px + 2", "9e999px * 2", "f()", "-1px", "1px,2px"}
				fn := x.FreePick("var", "calc", "min", "clamp", "f")
				a := args[x.Free(len(args))]
				b := "1px"
				if x.thorough {
					b = args[x.Choose(len(args))]
				}
				css := x.Pick(":root", ":root,a", ":root ", "b:root", ":root()") + "{--x:" + args[x.Free(len(args))] + ";--y:" + b + "}a{b:" + fn + "(" + a + x.Pick("", " ", ",") + ") " + x.Pick("", "c", "!important", "var(--x)") + "}"
				cfg := []int{95, 0, 2, 12 * 1, 48, 60}[x.Choose(6)]
				x.Case(fmt.Sprint(cfg, css))
				robust(x, One(css), Cfg{Tr: trConfig(cfg)})
			}},
			{Name: "truncations and edits of a corpus", Dev: [2]int{1, 2}, Body: func(x *X) {
				css := corpus[x.Free(len(corpus))]
				switch op := x.Free(4); op {
				case 0: // as it is
				case 1:
					css = css[:x.Free(len(css))]
				case 2:
					i := x.Free(len(css))
					css = css[:i] + css[i+1:]
				case 3:
					i := x.Free(len(css))
					css = css[:i] + []string{"{", "}", "(", ")", "\"", ";", "@", "\\", "\n", "/*", "-", "1", " "}[x.Free(13)] + css[i:]
				}
				if x.thorough && x.Choose(2) == 1 {
					i := x.Free(len(css) + 1)
					css = css[:i]
				}
				cfg := []int{trConfigs - 1, 0, 1, 49, 64}[x.Free(5)]
				x.Case(fmt.Sprint(cfg, css))
				robust(x, One(css), Cfg{Tr: trConfig(cfg)})
			}},
			{Name: "every configuration", Dev: [2]int{0, 0}, Body: func(x *X) {
				css, n := corpus[x.Free(len(corpus))], x.Free(trConfigs)
				x.Case(fmt.Sprint(n, css))
				robust(x, Proj{"a.css": css, "i.css": corpus[1] + corpus[4], "j.css": ""}, Cfg{Tr: trConfig(n)})
			}},
			{Name: "scale", Dev: [2]int{1, 1}, Body: func(x *X) {
				// Repetition and nesting: open^n middle close^n.
				shapes := [][3]string{
					{"a{b:c}", "", ""}, {"a{b:", "", "}"}, {"(", "", ")"}, {"{", "", "}"}, {"[", "", "]"}, {"a{b:f(", "1", ")}"}, {"a{b:", "c ", "}"}, {"/*", "", "*/"}, {"\n", "a{}", "\n"}, {"@media (a){", "b{c:d}", "}"}, {"@media ", "(a)", " {}"}, {"a ", "b", "{c:d}"},
					{"a,", "b{c:d}", ""}, {":not(", "a", ")"}, {"@", "x", ";"}, {"\\", "a", "{}"}, {"\"", "", "\""}, {"url(", "a", ")"}, {"<!--", "", "-->"}, {"a{", "b:c", "}"}, {"a{b:c;", "", "}"}, {"@import 'x", "';", ""}, {"a{b:calc((", "1", "))}"},
				}
				pre := [][2]string{{"", ""}, {"a{b:", "}"}, {"a{b:f(", ")}"}, {"a{b:calc(", ")}"}, {"a{--x:", "}"}, {"@media ", "{a{b:c}}"}, {"a", "{b:c}"}, {"a{b:calc(1px + ", "1px)}"}}
				s := shapes[x.Free(len(shapes))]
				p := pre[x.Free(len(pre))]
				n := []int{100, 5000, 20000}[x.Free(3)]
				both := x.Choose(2) == 0
				css := p[0] + strings.Repeat(s[0], n) + s[1]
				if both {
					css += strings.Repeat(s[2], n)
				}
				css += p[1]
				x.Case(fmt.Sprintf("%q x %d in %q both=%v", s, n, p, both))
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "long expressions", Dev: [2]int{0, 0}, Body: func(x *X) {
				// Nested or chained: the time must not be exponential in the length.
				shapes := [][3]string{{"", "1px", " + 1px"}, {"1px - ", "1px", ""}, {"2*", "1px", ""}, {"", "1px", "/2"}, {"", "2", "*2"}, {"(", "1px", ")*2"}, {"2*(", "1px", ")"}, {"(", "1px", " + 1px)"}, {"(1px + ", "1px", ")"}, {"(1px + ", "1em", " + 2px)"}, {"calc(", "1px", " + 1px)"}, {"calc(", "1px", ")"}, {"(", "1px", ") + 1em"}, {"calc(1px + ", "var(--x)", ")"}, {"min(", "1px", ",2px)"}, {"f(1px,", "1px", ")"}, {"var(--u,", "1px", ")"}, {"var(--x,", "1px", ")"}, {"[", "1px", "]"}, {"", "1px", ",1px"}, {"(", "1 + 2px", ")*(1em*1em)"}, {"1/0 + (", "1px", ")"}, {"", "1px", " + 1em - var(--x)"}}
				s, t := shapes[x.Free(len(shapes))], shapes[x.Free(len(shapes))]
				n, k := []int{1, 8, 40, 120}[x.Free(4)], []int{0, 30, 120}[x.Free(3)]
				ctx := x.FreePick("a{b:calc($)}", "a{b:$}", "a{b:f(calc($) c)}", "@media (a:calc($)){b{c:d}}", ":root{--x:calc($)}b{c:var(--x)}", "@font-face{a:calc($)}")
				v := strings.Repeat(s[0], n) + strings.Repeat(t[0], k) + s[1] + strings.Repeat(t[2], k) + strings.Repeat(s[2], n)
				css := ":root{--x:3px}" + strings.Replace(ctx, "$", v, 1)
				x.Case(fmt.Sprintf("%q x %d, %q x %d in %s", s, n, t, k, ctx))
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "long selectors and queries", Dev: [2]int{0, 0}, Body: func(x *X) {
				shapes := [][3]string{{":not(", "a", ")"}, {"", "a", ":hover"}, {"a>", "b", ""}, {"a,", "b", ""}, {"", "a", ".b"}, {"", "a", "[b]"}, {":is(a,", "b", ",c)"}, {":nth-child(2n of ", "a", ")"}, {"a ", "b", ""}, {"", ":any-link", " b"}, {":not(", ":any-link", ")"}, {"(", "(a)", ")"}, {"not (", "(a)", ")"}, {"((a) and ", "(b)", ")"}, {"((a) or ", "(b)", ")"}, {"(a) and ", "(1px<w<2px)", ""}, {"", "(w>1px)", " or (b)"}, {"(1px<w<2px),", "(a)", ""}, {"", "(--m)", " and (--m)"}, {"(--n) and ", "(a)", ""}, {"not ((--m) or ", "(a)", ")"}, {"(", "--m", ")"}}
				s, t := shapes[x.Free(len(shapes))], shapes[x.Free(len(shapes))]
				n, k := []int{1, 8, 40, 120}[x.Free(4)], []int{0, 30, 120}[x.Free(3)]
				ctx := x.FreePick("$ {a:b}", "@media $ {a{b:c}}", "@custom-media --n $;@media (--n){a{b:c}}", "@media m{$ {a:b}}", "@supports $ {a{b:c}}", "@import 'a' $;")
				mid := s[1]
				if n == 1 {
					mid = t[1]
				}
				v := strings.Repeat(s[0], n) + strings.Repeat(t[0], k) + mid + strings.Repeat(t[2], k) + strings.Repeat(s[2], n)
				css := "@custom-media --m (w>1px);" + strings.Replace(ctx, "$", v, 1)
				x.Case(fmt.Sprintf("%q x %d, %q x %d in %s", s, n, t, k, ctx))
				if strings.Contains(v, "any-link") && strings.Count(v, "any-link") > 12 {
					x.Skip() // a rule with k of them has 2^k selectors
				}
				robust(x, One(css), Cfg{Tr: allOn})
			}},
			{Name: "chains and cycles", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := []int{1, 2, 3, 10, 40, 300}[x.Free(6)]
				fan := x.Free(3)   // references per definition
				cycle := x.Free(3) // none, back to the first, to itself
				kind := x.Free(4)
				var b strings.Builder
				ref := func(i int) string {
					switch {
					case i >= n && cycle == 0:
						return "0"
					case i >= n && cycle == 1:
						i = 0
					case i >= n:
						i = n - 1
					}
					return fmt.Sprint(i)
				}
				for i := 0; i < n; i++ {
					switch kind {
					case 0, 1:
						v := strings.TrimSuffix(strings.Repeat("var(--v"+ref(i+1)+") ", fan+1), " ")
						if kind == 1 {
							v = strings.TrimSuffix(strings.Repeat("var(--v"+ref(i+1)+")*", fan+1), "*")
							v = "calc(" + v + ")"
						}
						fmt.Fprintf(&b, ":root{--v%d:%s}", i, v)
					case 2, 3:
						j := " and "
						if kind == 3 {
							j = " or "
						}
						fmt.Fprintf(&b, "@custom-media --v%d %s;", i, strings.TrimSuffix(strings.Repeat("(--v"+ref(i+1)+")"+j, fan+1), j))
					}
				}
				b.WriteString("a{b:var(--v0);c:calc(var(--v0) + 1px)}@media (--v0){a{b:c}}@media not (--v0){a{b:c}}")
				x.Case(b.String())
				robust(x, One(b.String()), Cfg{Tr: allOn})
			}},
			{Name: "import graphs", Dev: [2]int{0, 0}, Body: func(x *X) {
				p, imports := graph(x, 3, 2)
				mode := x.Free(3)
				x.Case(fmt.Sprint(mode, imports))
				tr := allOn
				tr.ImportRules = transforms.ImportRules(mode)
				robust(x, p, Cfg{Tr: tr, Entries: []string{"a.css", "b.css"}})
			}},
		},
	})
}

// graph generates the imports of n files (a, b, ...), each with up to max imports of any file or a missing one.
func graph(x *X, n, max int) (Proj, [][]int) {
	p := Proj{}
	var all [][]int
	for f := 0; f < n; f++ {
		var b strings.Builder
		var l []int
		for k := x.Free(max + 1); k > 0; k-- {
			to := x.Free(n + 1)
			l = append(l, to)
			fmt.Fprintf(&b, "@import %q;", "./"+string(rune('a'+to))+".css")
		}
		fmt.Fprintf(&b, "%c{k:v}", 'a'+f)
		p[string(rune('a'+f))+".css"] = b.String()
		all = append(all, l)
	}
	return p, all
}
