package main

// :any-link rewriting preserves matching.

import (
	"fmt"
	"sort"
	"strings"
)

// linkStates are sets of the states that an element can be in.
const (
	isOther = 1 << iota
	isUnvisited
	isVisited
)

// linkNorm takes a complex selector apart: what is left when the link pseudo-classes are taken out, and for
// every compound that had any, the link states that it accepts.
func linkNorm(in []CV) (skeleton string, states []int, anyLink bool) {
	in = trimWS(in)
	var rest []CV
	allowed := 0 // of the current compound, 0 if it has no link pseudo-class
	flush := func() {
		states = append(states, allowed)
		allowed = 0
	}
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c.K == TWS || isCombinator(c) {
			if c.K != TWS || !isCombinator(in[i-1]) && !isCombinator(in[i+1]) {
				flush()
			}
			rest = append(rest, c)
			continue
		}
		if c.K == TColon && i+1 < len(in) && in[i+1].K == TIdent && (i == 0 || in[i-1].K != TColon) {
			accepts := 0
			switch in[i+1].V {
			case "any-link":
				accepts = isUnvisited | isVisited
				anyLink = true
			case "link":
				accepts = isUnvisited
			case "visited":
				accepts = isVisited
			}
			if accepts != 0 {
				if allowed == 0 {
					allowed = isOther | isUnvisited | isVisited
				}
				allowed &= accepts
				if allowed == 0 {
					allowed = 1 << 3 // nothing
				}
				if n := len(rest); n == 0 || rest[n-1].V != "\x02" {
					rest = append(rest, CV{Tok: Tok{K: TDelim, V: "\x02"}})
				}
				i++
				continue
			}
		}
		rest = append(rest, c)
	}
	flush()
	return CanonSelector(rest), states, anyLink
}

// linkMatch describes which elements a selector list matches.
func linkMatch(prelude []CV) (match string, anyLink bool) {
	set := map[string]bool{}
	for _, s := range SplitComma(prelude) {
		skeleton, states, any := linkNorm(s)
		anyLink = anyLink || any
		tuples := []string{""}
		for _, st := range states {
			var next []string
			for _, t := range tuples {
				if st == 0 {
					next = append(next, t+"*")
				}
				for bit, name := range map[int]string{isOther: "o", isUnvisited: "u", isVisited: "v"} {
					if st&bit != 0 {
						next = append(next, t+name)
					}
				}
			}
			tuples = next
		}
		for _, t := range tuples {
			set[skeleton+" "+t] = true
		}
		if len(tuples) == 0 {
			set[skeleton+" never"] = true
		}
	}
	var all []string
	for s := range set {
		if strings.HasSuffix(s, " never") && len(set) > 1 {
			continue
		}
		all = append(all, s)
	}
	sort.Strings(all)
	return strings.Join(all, "\n"), anyLink
}

// linkDiff compares rules before and after the rewriting.
func linkDiff(in, out []Rule) string {
	keep := func(rules []Rule) (out []Rule) {
		for _, r := range rules {
			if CanonRule(r) != "" {
				out = append(out, r)
			}
		}
		return
	}
	in, out = keep(in), keep(out)
	if len(in) != len(out) {
		return fmt.Sprintf("%d rules instead of %d", len(out), len(in))
	}
	for i, want := range in {
		got := out[i]
		if want.IsAt != got.IsAt || want.At != got.At {
			return "different kinds of rules"
		}
		if want.IsAt && want.At == "media" {
			if d := linkDiff(want.Rules, got.Rules); d != "" {
				return d
			}
			want.Rules, got.Rules = nil, nil
		}
		if !want.IsAt {
			if m, any := linkMatch(want.Prelude); any {
				n, still := linkMatch(got.Prelude)
				if still {
					return "there still is an :any-link"
				}
				if m != n {
					return "the selectors match\n" + Show([]string{n}) + "\ninstead of\n" + Show([]string{m})
				}
				want.Prelude, got.Prelude = nil, nil
			}
		}
		if a, b := CanonRule(want), CanonRule(got); a != b {
			return "want " + Show([]string{a}) + "\ngot  " + Show([]string{b})
		}
	}
	return ""
}

func init() {
	check := func(x *X, css string) {
		x.Case(css)
		out, ok := x.Accepted(x.CompileOne(css, Cfg{Tr: trConfig(6)}))
		if !ok {
			return
		}
		x.Validated()
		x.Outcome(out)
		if d := linkDiff(ParseSheet(css).Rules, ParseSheet(out).Rules); d != "" {
			x.Fail("the rewritten selectors differ\noutput: %s\n%s", out, d)
		}
	}
	// compound generates a compound selector with any number of link pseudo-classes.
	parts := []string{"", ".c", "#i", "[d]", ":hover", ":not(:any-link)", ":link", ":visited", "::after", ":nth-child(2n+1)", ":is(a:any-link,b)", "::any-link", ":any-link-x", ":matches(:any-link)"}
	compound := func(x *X, max int) string {
		s := x.Pick("a", "", "*")
		for i := x.Free(max + 1); i > 0; i-- {
			s += x.Pick(parts...) + ":any-link"
		}
		s += x.Pick(parts...)
		if s == "" {
			s = "e"
		}
		return s
	}
	register(&Check{
		ID:   "C08",
		Rule: "all selector lists of up to three complex selectors of up to four compounds with up to three :any-link each, with other simple selectors around them, at top level and in @media, next to other rules, all pairs of 45 unrelated selectors next to each other; distinct by text",
		Parts: []Part{
			{Name: "one compound", Dev: [2]int{4, 4}, Body: func(x *X) {
				check(x, compound(x, 3)+"{k:v}")
			}},
			{Name: "complex selectors", Dev: [2]int{2, 2}, Body: func(x *X) {
				s := compound(x, 2)
				max := 1
				if x.thorough {
					max = 2
				}
				for i := x.Free(max + 1); i > 0; i-- {
					s += x.FreePick(" ", ">", "+", " ~ ") + compound(x, 1)
				}
				check(x, s+"{k:v}")
			}},
			{Name: "longer complex selectors", Dev: [2]int{0, 1}, Body: func(x *X) {
				s := compound(x, 1)
				for i := x.Free(4); i > 0; i-- {
					s += x.FreePick(" ", ">", "+", " ~ ") + compound(x, 1)
				}
				check(x, s+"{k:v}")
			}},
			{Name: "selector lists", Dev: [2]int{1, 3}, Body: func(x *X) {
				sel := []string{"a:any-link", "b", ":any-link", "a:any-link b:any-link", "a:any-link>b c:any-link", "d:not(:any-link)", "e:link", "f:visited", "a:any-link:any-link", ":any-link:hover", "a:any-link", ":any-link :any-link :any-link", "g:any-link::before"}
				s := x.FreePick(sel...)
				for i := x.Free(3); i > 0; i-- {
					s += x.Pick(",", " , ", ",\n", ",/**/") + x.FreePick(sel...)
				}
				decls := x.Pick("k:v", "k:v;any-link:any-link !important;--any-link:any-link", "k:\":any-link\"", "")
				rule := x.Pick("", " ") + s + x.Pick("{", " {") + decls + "}"
				check(x, strings.Replace(x.Pick("$", "@media (m){$}", "x{k:v}$y:hover{l:w}", "@media (m){z,q{k:v}$}", "$$", "@font-face{k:v}@media n{$w{k:v}$}", "@keyframes n{from{k:v}}$"), "$", rule, -1))
			}},
			{Name: "lists of unrelated selectors", Dev: [2]int{0, 0}, Body: func(x *X) {
				// Whatever is next to each other in a list stays there.
				all := append(append([]string{}, simples...), ":is(b)", ":is(a)", ":not(.e)", ":nth-child(1)", ":nth-child(2)", "[x=z]", "[y]", ":lang(de)", ":focus", "::after", "a b", "a>b", "a:hover", "a.c", "a:any-link", ":any-link b")
				a, b := all[x.Free(len(all))], all[x.Free(len(all))]
				third := x.FreePick("", ",c:any-link", ",c d", ":any-link,c")
				check(x, x.FreePick("", "c:any-link,")+a+","+b+third+"{k:v}")
			}},
			{Name: "many occurrences", Dev: [2]int{0, 0}, Body: func(x *X) {
				n := x.Free(9) + 1
				if !x.thorough && n > 6 {
					x.Skip()
				}
				sep := x.FreePick(" ", ">", "")
				s := strings.Repeat(sep+":any-link", n)[len(sep):]
				check(x, s+x.FreePick("", ",b", ",c:any-link")+"{k:v}")
			}},
			{Name: "nested and unrelated uses", Dev: [2]int{2, 3}, Body: func(x *X) {
				s := x.FreePick("a", "", ":any-link", "b ") + ":" + x.FreePick("not", "is", "matches", "-webkit-any", "any-link") + "(" + x.FreePick("", " ") + x.FreePick(":any-link", "a:any-link", ":not(:any-link)", ":any-link,b", "b :any-link:hover") + x.Pick("", " ") + ")" + x.Pick("", ":any-link", " c", " c:any-link", ":link")
				check(x, s+x.Pick("", ",d:any-link", ",e")+"{k:v}")
			}},
		},
	})
}
