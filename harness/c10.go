package main

// Custom media substitution preserves the query's truth value.

import (
	"fmt"
	"strings"
)

// customDefs collects the definitions: the last one of every name counts.
func customDefs(rules []Rule) (map[string]*mnode, string) {
	defs := map[string]*mnode{}
	for _, r := range rules {
		if !r.IsAt || r.At != "custom-media" {
			continue
		}
		pre := trimWS(r.Prelude)
		if len(pre) == 0 || pre[0].K != TIdent {
			return nil, "invalid definition"
		}
		n, bad := parseMedia(pre[1:])
		if bad != "" {
			return nil, bad
		}
		defs[pre[0].V] = n
	}
	return defs, ""
}

// reach tells what a query refers to: a definition that refers to itself, and definitions with a media type.
func reach(n *mnode, defs map[string]*mnode, path map[string]bool) (cycle, typed bool) {
	n.walk(func(n *mnode) {
		if n.op == "type" && len(path) > 0 {
			typed = true
		}
		d := defs[n.name]
		if n.op != "ref" || d == nil {
			return
		}
		if path[n.name] {
			cycle = true
			return
		}
		path[n.name] = true
		c, t := reach(d, defs, path)
		delete(path, n.name)
		cycle, typed = cycle || c, typed || t
	})
	return
}

// writable tells whether a query with media types in definitions is one that surely can be written down: a single
// reference, or one that comes first and is joined with and.
func writable(q *mnode, defs map[string]*mnode) bool {
	ref := func(n *mnode) bool { return n.op == "ref" && defs[n.name] != nil }
	plain := func(n *mnode) bool { _, t := reach(n, defs, map[string]bool{}); return !t }
	// positive is a definition like screen and (c).
	positive := func(n *mnode) bool {
		d := defs[n.name].kids
		return len(d) == 1 && d[0].op == "and" && d[0].kids[0].op == "type" && plain(&mnode{op: "and", kids: d[0].kids[1:]})
	}
	if ref(q) {
		d := defs[q.name].kids
		return len(d) == 1 && (plain(&mnode{op: "and", kids: d[0].kids}) || writable(d[0], defs))
	}
	if q.op == "and" && ref(q.kids[0]) && positive(q.kids[0]) {
		return plain(&mnode{op: "and", kids: q.kids[1:]})
	}
	return false
}

func init() {
	check := func(x *X, css string, cfg int) {
		x.Case(fmt.Sprint(cfg, css))
		res := x.CompileOne(css, Cfg{Tr: trConfig(cfg)})
		if res.Panic != "" {
			x.Fail("%s", res.Panic)
			return
		}
		in := ParseSheet(css).Rules
		defs, bad := customDefs(in)
		if bad != "" {
			x.Fail("harness: %s", bad)
			return
		}
		mayFail, mustFail := false, false
		for _, r := range in {
			if !r.IsAt || r.At != "media" && r.At != "import" {
				continue
			}
			pre := r.Prelude
			if r.At == "import" {
				pre = pre[1:]
			}
			q, bad := parseMedia(pre)
			if bad != "" {
				x.Fail("harness: %s", bad)
				return
			}
			for _, k := range q.kids {
				cycle, typed := reach(k, defs, map[string]bool{})
				mustFail = mustFail || cycle
				mayFail = mayFail || cycle || typed && !writable(k, defs)
			}
		}
		x.Validated()
		if len(res.Errs) > 0 {
			x.Tally("reported")
			x.Outcome(res.ErrText())
			if !mayFail {
				x.Fail("a query that can be written is not accepted: %s", res.ErrText())
			}
			return
		}
		out, ok := res.Only()
		if !ok {
			x.Fail("no output and no error")
			return
		}
		x.Outcome(out)
		if mustFail {
			x.Fail("a cycle is not reported\noutput: %s", out)
			return
		}
		var rest []Rule
		for _, r := range in {
			if !r.IsAt || r.At != "custom-media" {
				rest = append(rest, r)
			}
		}
		if d := mediaRulesDiff(x, rest, ParseSheet(out).Rules, defs); d != "" {
			x.Fail("the substituted query differs\noutput: %s\n%s", out, d)
		}
		for _, r := range ParseSheet(out).Rules {
			if strings.Contains(Canon(r.Prelude), "--a") && defs["--a"] != nil {
				x.Fail("there still is a reference to a definition\noutput: %s", out)
			}
		}
	}
	bodies := []string{"(c)", "not (c)", "(c) and (d)", "(c) or (d)", "screen", "screen and (c)", "not screen", "not screen and (c)", "only screen", "(--b)", "not (--b)", "(--b) and (c)", "(d) or (--b)", "(--u)", "((c) or (d))", "(1px<=e<=3px)", "(--a)", "((--b) and (c)) or (d)", "(c:1px)", "not ((--b))", "screen and (--b)", "not all", "(1px<e<3px)"}
	uses := []string{"(--a)", "not (--a)", "(--a) and (x)", "(x) and (--a)", "(--a) or (x)", "(x) or (--a) or (y)", "screen and (--a)", "print and (x) and (--a)", "((--a) and (x)) or (y)", "not ((--a))", "((--a))", "(x) and (not (--a))", "(--a),(x)", "(x),not (--a)", "(--a) and (--b)", "(--b) or (--a)", "not (--b)", "not screen and (--a)", "(--u) and (--a)", "(--a) and (--a)", "only all and (--a)", "not ((--a) or (--b))", "(1px<f) and (--a)", "((x) or (--a)) and (--b)"}
	bsub := []string{"", "@custom-media --b (g);", "@custom-media --b not (g);", "@custom-media --b (g) or (h);", "@custom-media --b print;", "@custom-media --b (--a);", "@custom-media --b (--u) and (g);", "@custom-media --b (g) and (h);", "@custom-media --b not print;", "@custom-media --b (--d2);@custom-media --d2 (g) or (h);"}
	wrap := []string{"@media $ {i{k:v}}", "@import 'i' $;", "i{k:v}@media $ {j{k:v}l{m:n}}", "@media $ {i{k:v}}@media $ {j{k:v}}", "@media n,$ {i{k:v}}"}
	register(&Check{
		ID:   "C10",
		Rule: "all sheets with up to three definitions over 23 bodies, before and after and repeated, and one or two uses out of 24 boolean contexts, also with range rewriting; every query evaluated in all environments, also next to up to two of 40 plain queries; distinct by text and configuration",
		Parts: []Part{
			{Name: "definitions and uses", Dev: [2]int{1, 2}, Body: func(x *X) {
				a := "@custom-media --a " + bodies[x.Free(len(bodies))] + ";"
				b := bsub[x.Free(len(bsub))]
				use := strings.Replace(x.Pick(wrap...), "$", uses[x.Free(len(uses))], -1)
				css := strings.NewReplacer("A", a, "B", b, "$", use).Replace(x.Pick("AB$", "$AB", "B$A", "BA$", "A$B"))
				check(x, css, []int{24, 27, 93}[x.Choose(3)])
			}},
			{Name: "repeated definitions", Dev: [2]int{1, 2}, Body: func(x *X) {
				def := func() string { return "@custom-media --a " + bodies[x.Free(len(bodies))] + ";" }
				if x.thorough {
					check(x, def()+strings.Replace(x.Pick(wrap...), "$", uses[x.Free(len(uses))], -1)+def(), 24)
					return
				}
				small := []string{"(--a)", "not (--a)", "(x) or (--a)", "(--a) and (x)", "screen and (--a)"}
				check(x, def()+strings.Replace(x.Pick(wrap...), "$", small[x.Free(len(small))], -1)+def(), 24)
			}},
			{Name: "two uses", Dev: [2]int{0, 1}, Body: func(x *X) {
				a := "@custom-media --a " + x.FreePick("(c) or (d)", "not (c)", "screen", "(--b) and (c)", "(--b)") + ";"
				b := bsub[x.Free(len(bsub))]
				u := strings.Replace(wrap[0], "$", uses[x.Free(len(uses))]+","+uses[x.Free(len(uses))], 1)
				check(x, a+b+x.Pick("", "@custom-media --c2 (--a) or (--b);")+u, 24)
			}},
			{Name: "lists with other queries", Dev: [2]int{0, 1}, Body: func(x *X) {
				// Other queries neither keep a reference from being replaced nor change.
				plain := append(append([]string{}, mediaTypes...), "not all", "only all", "only screen", "not print", "screen and (x)", "not screen and (x)", "(x)", "not (x)", "(x) and (y)", "(x) or (y)", "(x>=1px)", "(1px<x<2px)", "((x))", "(--u)", "not (--u)", "(x:1px)", "all and (x)", "only all and (x)", "(x) and (--u)")
				q := func() string { return plain[x.Free(len(plain))] }
				var list []string
				use := x.FreePick("(--a)", "not (--a)", "(--a) and (z)", "(z) or (--a)", "screen and (--a)", "((--a)) or (z)")
				switch x.Free(4) {
				case 0:
					list = []string{q(), use}
				case 1:
					list = []string{use, q()}
				case 2:
					list = []string{use, q(), "(--a)"}
				case 3:
					list = []string{q(), q(), use}
				}
				body := x.FreePick("(c)", "(c) and (d)", "not (c)")
				css := strings.Join(list, x.Pick(",", " , ", ",/**/"))
				check(x, strings.NewReplacer("B", body, "$", css).Replace(x.Pick("@custom-media --a B;@media $ {i{k:v}}", "@import 'i' $;@custom-media --a B;", "@media y{i{k:v}}@media $ {i{k:v}}@media (--a){i{k:v}}@custom-media --a B;")), 24)
			}},
			{Name: "names and spelling", Dev: [2]int{3, 4}, Body: func(x *X) {
				n := x.Pick("--a", "--A", "--é", "--a-b", "---", "--1", "--a_")
				m := n
				if x.Bool() {
					m = x.Pick("--a", "--A", "--z")
				}
				css := "@custom-media" + x.Pick(" ", "  ", "/**/ ", "\n") + n + x.Pick(" ", "\n", " /**/") + x.Pick("(c)", "not (c)") + x.Pick(";", " ;") + "@media " + x.Pick("", "not ", "screen and ") + x.Pick("(", "( ", "(/**/") + m + x.Pick(")", " )", "/**/)") + "{i{k:v}}"
				check(x, css, 24)
			}},
			{Name: "chains", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := x.Free(5) + 2
				order := x.Free(2)
				var defs []string
				op := x.FreePick("not (%)", "(%) and (x$)", "(x$) or (%)", "(%)", "screen and (%)")
				for i := 0; i < n; i++ {
					defs = append(defs, strings.NewReplacer("%", fmt.Sprint("--n", i+1), "$", fmt.Sprint(i)).Replace(fmt.Sprint("@custom-media --n", i, " ", op, ";")))
				}
				last := x.FreePick("", "(y)", "(y) or (z)", "print", "(--n0)")
				if last != "" {
					defs = append(defs, fmt.Sprint("@custom-media --n", n, " ", last, ";"))
				}
				if order == 1 {
					for i, j := 0, len(defs)-1; i < j; i, j = i+1, j-1 {
						defs[i], defs[j] = defs[j], defs[i]
					}
				}
				check(x, strings.Join(defs, "")+"@media "+x.FreePick("(--n0)", "not (--n0)", "(w) or (--n0)", "(w) and (--n1)")+"{i{k:v}}", 24)
			}},
		},
	})
}
