package main

// Media range rewriting preserves the query's truth value.

import (
	"fmt"
	"strings"
)

// mediaRulesDiff compares rules whose media queries were rewritten.
func mediaRulesDiff(x *X, in, out []Rule, defs map[string]*mnode) string {
	if len(in) != len(out) {
		return fmt.Sprintf("%d rules instead of %d", len(out), len(in))
	}
	for i, want := range in {
		got := out[i]
		if want.IsAt && (want.At == "media" || want.At == "import") && got.IsAt && got.At == want.At {
			wp, gp := want.Prelude, got.Prelude
			if want.At == "import" {
				wt, _ := ImportTarget(wp)
				gt, _ := ImportTarget(gp)
				if wt != gt {
					return "different targets"
				}
				wp, gp = wp[1:], gp[1:]
			}
			a, bad := parseMedia(wp)
			if bad != "" {
				return "harness: the input query is invalid: " + bad
			}
			b, bad := parseMedia(gp)
			if bad != "" {
				return "the output query is invalid: " + bad
			}
			d, envs := mediaDiff(a, b, defs)
			x.w.Stats.Transitions += envs
			if d != "" {
				return d
			}
			want.Prelude, got.Prelude = nil, nil
		}
		if a, b := CanonRule(want), CanonRule(got); a != b {
			return "want " + Show([]string{a}) + "\ngot  " + Show([]string{b})
		}
	}
	return ""
}

// rangesLeft tells whether a prelude still has a range.
func rangesLeft(in []CV) bool {
	for _, c := range in {
		if c.is(TDelim, "<") || c.is(TDelim, ">") || rangesLeft(c.Sub) {
			return true
		}
	}
	return false
}

func init() {
	check := func(x *X, css string, cfg int) {
		x.Case(fmt.Sprint(cfg, css))
		out, ok := x.Accepted(x.CompileOne(css, Cfg{Tr: trConfig(cfg)}))
		if !ok {
			return
		}
		x.Validated()
		x.Outcome(out)
		rules := ParseSheet(out).Rules
		if d := mediaRulesDiff(x, ParseSheet(css).Rules, rules, nil); d != "" {
			x.Fail("the rewritten query differs\noutput: %s\n%s", out, d)
		}
		for _, r := range rules {
			if rangesLeft(r.Prelude) {
				x.Fail("there still is a range\noutput: %s", out)
			}
		}
	}
	wrap := func(x *X, q string) string {
		return strings.Replace(x.Pick("@media $ {a{k:v}}", "@media $ {a{k:v}}b{l:w}", "@import 'i' $;", "a{k:v}@media $ {b{c>d:e}c>d{e:f}}", "@media n{g{h:i}}@media $ {}"), "$", q, 1)
	}
	nums := []string{"1px", "0px", "0", "-1px", "1.5em", ".5px", "+2px", "100%", "1e1px", "1.0005px", "99999px", "1000.001px", "-0.001px", ".999px", "0.0001px", "-.5px", "2", "1e-1em", "10.10px", "1234567.891px"}
	names := []string{"w", "width", "-w-x", "w1", "min-w", "W", "é", "--w"}
	ranges := func(x *X) string {
		sp := func() string { return x.Pick("", " ", "/**/", "\n ") }
		op := func(o string) string { return sp() + o + sp() }
		name := x.Pick(names...)
		switch x.Free(3) {
		case 0:
			return "(" + sp() + name + op(x.FreePick("<", "<=", ">", ">=")) + x.FreePick(nums...) + sp() + ")"
		case 1:
			return "(" + sp() + x.FreePick(nums...) + op(x.FreePick("<", "<=", ">", ">=")) + name + sp() + ")"
		default:
			d := x.FreePick("<", ">")
			l, r := x.FreePick("", "="), x.FreePick("", "=")
			if l != r {
				x.Skip() // reported as unsupported
			}
			return "(" + sp() + x.FreePick(nums...) + op(d+l) + name + op(d+r) + x.FreePick(nums...) + sp() + ")"
		}
	}
	// operand generates one atom, each with names of its own.
	operand := func(x *X, i int) string {
		n := string(rune('a' + i))
		return strings.Replace(x.FreePick("($>1px)", "(2em>=$)", "(1px<$<3px)", "($)", "(4px>=$>=2px)", "(min-$:1px)", "(--$)"), "$", n, -1)
	}
	var nested func(x *X, depth int, i *int) string
	nested = func(x *X, depth int, i *int) string {
		atom := func() string {
			if depth > 0 && x.Choose(2) == 1 {
				return "(" + nested(x, depth-1, i) + ")"
			}
			*i++
			return operand(x, *i)
		}
		switch x.Free(4) {
		case 0:
			return "not " + atom()
		case 1:
			return atom() + " and " + atom()
		case 2:
			return atom() + " or " + atom()
		default:
			return atom()
		}
	}
	register(&Check{
		ID:   "C09",
		Rule: "all one- and two-sided ranges over 20 numbers, 8 names, all operators, operand orders and spacings, real names with all units, and all queries that combine up to four features with not, and, or, media types, lists and nesting; every query evaluated in all environments at, next to and around its boundaries; distinct by text",
		Parts: []Part{
			{Name: "single ranges", Dev: [2]int{1, 2}, Body: func(x *X) {
				check(x, wrap(x, ranges(x)), 3)
			}},
			{Name: "names and units", Dev: [2]int{0, 1}, Body: func(x *X) {
				names := strings.Fields("width height inline-size device-width aspect-ratio resolution color color-index monochrome horizontal-viewport-segments -webkit-device-pixel-ratio -webkit-transform-3d -x _x WIDTH Width max-x é x\\:y \\31 z")
				vals := []string{"1", "-2.5", "0", "1e1"}
				for i := 0; i < len(vals); i++ {
					vals[i] += "$"
				}
				var name, a, b string
				if x.Free(2) == 0 {
					name = x.FreePick(names...)
					a = strings.Replace(x.FreePick(vals...), "$", x.FreePick(unitNames...), 1)
					b = a
				} else {
					name = "width"
					u := x.FreePick("", "px", "%")
					a, b = x.FreePick(numbers...)+u, x.FreePick("0", "7")+u
				}
				if strings.Contains(a, "1e1e") || strings.Contains(a, "1e1E") || strings.Contains(a, "e400") { // numbers that are too large are reported
					x.Skip()
				}
				op := x.FreePick("<", "<=", ">", ">=")
				s := a + op + name
				switch x.Free(3) {
				case 1:
					s = name + op + a
				case 2:
					s = b + op + name + op + a
				}
				check(x, wrap(x, "("+s+")"), 3)
			}},
			{Name: "two ranges", Dev: [2]int{1, 2}, Body: func(x *X) {
				s := x.FreePick("", "screen and ", "not print and ", "not all and ", "only screen and ") + operand(x, 0)
				if strings.Contains(s, " and ") || x.Free(2) == 1 {
					for i := x.Free(3); i > 0; i-- {
						s += " and " + operand(x, i)
					}
				} else {
					for i := x.Free(3); i > 0; i-- {
						s += " or " + operand(x, i)
					}
				}
				check(x, wrap(x, s), 3)
			}},
			{Name: "lists", Dev: [2]int{1, 2}, Body: func(x *X) {
				qs := []string{"(a>1px)", "(1px<b<2px)", "screen and (c>=1px)", "not print", "not (1px<=d<=3px)", "(a<3px) and (b)", "not screen and (1px<a<2px)", "(a>2px) or (1px<b<3px)"}
				s := x.FreePick(qs...)
				for i := x.Free(3); i > 0; i-- {
					s += x.Pick(",", " , ") + x.FreePick(qs...)
				}
				check(x, wrap(x, s), []int{3, 93}[x.Choose(2)])
			}},
			{Name: "nested conditions", Dev: [2]int{2, 2}, Body: func(x *X) {
				i := 0
				s := x.Pick("", "screen and (", "not all and (") + nested(x, 2, &i)
				if strings.HasPrefix(s, "s") || strings.HasPrefix(s, "not all") {
					s += ")"
					if strings.Contains(s, "(not ") == false && strings.Count(s, "(") == 2 {
						s = strings.Replace(strings.Replace(s, "((", "(", 1), "))", ")", 1)
					}
				}
				if i > 4 {
					x.Skip()
				}
				check(x, "@media "+s+"{a{k:v}}", 3)
			}},
		},
	})
}
