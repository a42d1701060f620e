package main

// Equivalent spellings compile to equivalent output.

import (
	"fmt"
	"strings"
)

// respelling is an equivalent spelling: replace [start,end) of the base by text.
type respelling struct {
	start, end int
	text       string
}

// respellings lists lexically equivalent spellings of a sheet, judged by the reference parser.
func respellings(css string) []respelling {
	var out []respelling
	toks, _ := Tokenize(css)
	base := strings.Join(CanonSheet(ParseSheet(css).Rules), "\n")
	add := func(s, e int, t string, check bool) {
		if css[s:e] == t {
			return
		}
		v := css[:s] + t + css[e:]
		if check {
			if sh := ParseSheet(v); strings.Join(CanonSheet(sh.Rules), "\n") != base {
				return
			}
		}
		out = append(out, respelling{s, e, t})
	}
	hard := func(t Tok) bool { return t.K == TDelim && strings.Contains("<>=^$~|*!+-", t.V) }
	for i, t := range toks {
		prev := 0
		if i > 0 {
			prev = toks[i-1].End
		}
		if t.K == TWS {
			for _, w := range []string{" ", "\n", "\r\n", "\r", "\f", "\t", "  ", " /**/", "/**/ ", " /* x */ ", "\n/*\n*/\n", "/*\"*/ ", "\r/*\r\n*//**/"} {
				add(t.Start, t.End, w, true)
			}
			continue
		}
		// Comments and whitespace between tokens.
		if prev == t.Start {
			for _, w := range []string{"/**/", "/*;}'*/"} {
				add(t.Start, t.Start, w, true)
			}
			afterWS := i > 0 && toks[i-1].K == TWS
			joint := i > 0 && hard(toks[i-1]) && hard(t)
			if !afterWS && !joint {
				for _, w := range []string{" ", "\n", "\r\n\t"} {
					add(t.Start, t.Start, w, true)
				}
			}
		}
		src := css[t.Start:t.End]
		switch t.K {
		case TString:
			if !strings.ContainsAny(src[1:len(src)-1], `"'\`) {
				add(t.Start, t.End, "'"+src[1:len(src)-1]+"'", false)
				add(t.Start, t.End, `"`+src[1:len(src)-1]+`"`, false)
			}
			other := "'"
			if src[0] == '\'' {
				other = `"`
			}
			add(t.Start, t.End, other+escapeAll(t.V)+other, false)
			add(t.Start, t.End, src[:1]+escapeAll(t.V)+src[:1], false)
			for _, nl := range []string{"\n", "\r\n", "\r", "\f"} {
				add(t.Start, t.End, src[:1]+"\\"+nl+src[1:], false)
				add(t.Start, t.End, src[:len(src)-1]+"\\"+nl+src[len(src)-1:], false)
			}
			for _, e := range escapeOne(t.V) {
				add(t.Start, t.End, src[:1]+e+src[:1], false)
			}
		case TURL:
			add(t.Start, t.End, "url("+escapeAll(t.V)+")", false)
			add(t.Start, t.End, "url( "+escapeAll(t.V)+"\n)", false)
			add(t.Start, t.End, "url(\r\n"+escapeAll(t.V)+"\f\t)", false)
			for _, q := range []string{`"`, "'"} {
				add(t.Start, t.End, "url("+q+escapeAll(t.V)+q+")", false)
				add(t.Start, t.End, "url( "+q+escapeAll(t.V)+q+" )", false)
				add(t.Start, t.End, "url(\n"+q+escapeAll(t.V)+q+")", false)
			}
			for _, e := range escapeOne(t.V) {
				if !strings.ContainsAny(t.V, "()\"' \\\n") {
					add(t.Start, t.End, "url("+e+")", false)
				}
			}
		case TIdent, THash, TDim, TAt, TFunc:
			pre, post := "", ""
			switch t.K {
			case THash:
				pre = "#"
			case TAt:
				pre = "@"
			case TDim:
				pre = t.N
			case TFunc:
				post = "("
				if strings.EqualFold(t.V, "url") {
					continue
				}
			}
			add(t.Start, t.End, pre+escapeAll(t.V)+post, true)
			for _, e := range escapeOne(t.V) {
				add(t.Start, t.End, pre+e+post, true)
			}
		}
	}
	for _, w := range []string{" ", "\n", "/**/", "\r\n", "/*x*/\f"} {
		add(len(css), len(css), w, true)
	}
	if strings.Contains(css, "\n") {
		for _, nl := range []string{"\r\n", "\r", "\f"} {
			if v := strings.ReplaceAll(css, "\n", nl); !strings.Contains(css, "\r") {
				out = append(out, respelling{0, len(css), v})
			}
		}
	}
	return out
}

// escapeAll spells every character as a hexadecimal escape.
func escapeAll(v string) string {
	var b strings.Builder
	for i, r := range v {
		if i == 0 && r == '-' {
			b.WriteRune(r) // the parser does not look for escaped hyphens at the beginning of names
			continue
		}
		fmt.Fprintf(&b, "\\%x ", r)
	}
	return b.String()
}

// escapeOne escapes the first, second or last character in several ways.
func escapeOne(v string) []string {
	rs := []rune(v)
	var out []string
	seen := map[int]bool{}
	for _, i := range []int{0, 1, len(rs) - 1} {
		if i < 0 || i >= len(rs) || seen[i] || i == 0 && rs[i] == '-' {
			continue
		}
		seen[i] = true
		pre, post := string(rs[:i]), string(rs[i+1:])
		if strings.ContainsAny(pre+post, "\\\"'()\n \x00") {
			continue
		}
		r := rs[i]
		out = append(out, fmt.Sprintf("%s\\%06x%s", pre, r, post), fmt.Sprintf("%s\\%X %s", pre, r, post), fmt.Sprintf("%s\\%x\n%s", pre, r, post), fmt.Sprintf("%s\\%x\r\n%s", pre, r, post))
		if !isHexR(r) && !isNL(r) {
			out = append(out, pre+"\\"+string(r)+post)
		}
	}
	return out
}

// spellingBases are sheets with one spelling per lexical feature, accepted or not.
func spellingBases() []string {
	var out []string
	out = append(out, corpus...)
	for _, s := range simples {
		out = append(out, s+" "+s+","+s+">"+s+"{k:v}")
	}
	for _, v := range values {
		out = append(out, "q{p:"+v+" "+v+" !important;r:s}")
	}
	for _, v := range oddValues {
		out = append(out, "q{p:"+v+" ;r:s}z{k:v}")
	}
	for _, f := range features {
		out = append(out, "@media not "+f+"{a{k:v}}", "@media screen and "+f+",n{a{k:v}}", "@media "+f+" or (x){a{k:v}}")
	}
	for _, r := range ruleKinds {
		if strings.Contains(r, "<!--") || strings.Contains(r, "-->") {
			continue
		}
		out = append(out, strings.Replace(r, "#", "1", -1), "y{k:v}\n"+strings.Replace(r, "#", "2", -1)+"\nz{k:v}")
	}
	out = append(out, `@import "i" screen and (m:1px);`, `@import url(i);a{b:c}`, "a:not(b + c ~ d){e:f}", "a{--b: c {d} ;e:f}", "a:nth-child(2n + 1) b:nth-child( even ){k:v}", "@keyframes x{ from , 50% {a:b} to{c:d}}", "a{b:calc( ( 1px + 2% ) * 3 )}",
		"@custom-media --x (a) and (b);@media (--x) and (c){a{b:c}}", ":root{--x:1px;--y: a b}q{p:var( --x , 2px ) var(--y)}", "a{unicode-range:U+0-7F}", "[x = 'y' i] {k:v}", "a , b\n>\nc{k\n:\nv\n;\n}", "@media (1px < m <= 2px) , not screen{a{b:c}}",
		"a{b:rgba(1, 2, 3, 0.5) , #fff;c:url( 'd' )}", "a:any-link , b:any-link:hover{k:v}", "é{ü:\"ö\"}", "a\\{b{c:d\\;e}", "#\\31 0,.\\-{k:v}", "a{b:\"\\\"\" '\\'' \"\\\\\"}", "a{b:url(\\)\\()}",
		// These are not accepted.
		"a{b:c", "a b", "a[b{c:d}", "@media (a{b{c:d}}", "a:nth-child(x){k:v}", "@foo bar;", "@media (a) and (b) or (c){d{e:f}}", "a{b:\"c\n\"}", ")a{b:c}", "a:not(b,){k:v}", "@import x;", "@keyframes x{y{k:v}}")
	for _, sheets := range [][]string{wellFormed, unknown, atRules} {
		for _, s := range sheets {
			if !strings.Contains(s, "<!--") && !strings.Contains(s, "-->") && !strings.HasSuffix(s, "/*") { // not in an unclosed comment
				out = append(out, s)
			}
		}
	}
	return out
}

func init() {
	spelled := func(n int) func(x *X) {
		var bases []string
		cache := map[int][]respelling{}
		return func(x *X) {
			if bases == nil {
				bases = spellingBases()
			}
			bi := x.Free(len(bases))
			if cache[bi] == nil {
				cache[bi] = respellings(bases[bi])
			}
			rs := cache[bi]
			css := bases[bi]
			var first *respelling
			i := x.Free(len(rs))
			if n == 2 {
				if !x.thorough && len(rs) > 75 {
					x.Skip()
				}
				// The second one comes before the first.
				j := x.Free(len(rs))
				r, q := rs[i], rs[j]
				if q.end > r.start || j == i || q.end == r.start && (q.start == q.end || r.start == r.end) {
					x.Skip()
				}
				first = &q
			}
			r := rs[i]
			v := css[:r.start] + r.text + css[r.end:]
			if first != nil {
				v = v[:first.start] + first.text + v[first.end:]
			}
			tr := []int{0, 94}[x.Free(2)] // off, everything on but imports followed
			x.Case(fmt.Sprint(tr, " ", css, " => ", v))
			sameSpelling(x, css, v, Cfg{Tr: trConfig(tr)})
		}
	}
	register(&Check{
		ID:   "C05",
		Rule: "every equivalent respelling (and pair of respellings) at every position of every base sheet, with transforms off and on, all comment bodies of up to three characters of 20 and all whitespace sequences of up to four in all places; distinct by base, text and configuration",
		Parts: []Part{
			{Name: "one respelling", Body: spelled(1)},
			{Name: "two respellings (in the quick tier of the shorter sheets)", Body: spelled(2)},
			{Name: "pairs of tokens joined by whitespace or comments", Dev: [2]int{0, 1}, Body: func(x *X) {
				// The same two components with every equivalent separation.
				ctx := x.FreePick("q{p:$}", "q{p:f($)}", "q{p:[$]}", "q{--x:$}", "@media $ {a{b:c}}", "$ {k:v}", "q{p:v;$:v}")
				a, b := smallValues[x.Free(len(smallValues))], smallValues[x.Free(len(smallValues))]
				sep := x.FreePick("\n", "\r\n", "\r", "\f", "\t", " /**/", "/**/ ", "/**/ /**/", "/*\n*/\r\n/*\f*/", " /* * / ** */ ")
				base := strings.Replace(ctx, "$", a+" "+b, 1)
				v := strings.Replace(ctx, "$", a+sep+b, 1)
				x.Case(base + " => " + v)
				sameSpelling(x, base, v, Cfg{})
			}},
			{Name: "bodies of comments", Dev: [2]int{0, 0}, Body: func(x *X) {
				// A comment is skipped whatever is in it.
				ctx := commentContexts[x.Free(len(commentContexts))]
				n := 3
				if x.thorough {
					n = 4
				}
				body := ""
				for i := 0; i < n; i++ {
					if j := x.Free(len(commentChars) + 1); j > 0 {
						body += commentChars[j-1]
					} else if body != "" {
						x.Skip() // shorter ones begin with nothing
					}
				}
				if strings.Contains(body, "*/") {
					x.Skip()
				}
				v := strings.Replace(ctx, "$", "/*"+body+"*/", 1)
				base := strings.Replace(ctx, "$", "/**/", 1)
				x.Case(fmt.Sprintf("%q", v))
				sameSpelling(x, base, v, Cfg{})
			}},
			{Name: "sequences of whitespace", Dev: [2]int{0, 0}, Body: func(x *X) {
				ctx := spaceContexts[x.Free(len(spaceContexts))]
				n := 4
				if x.thorough {
					n = 6
				}
				ws := []string{" ", "\t", "\n", "\r", "\f", "/**/"}
				seq := ""
				space := false
				for i := 0; i < n; i++ {
					if j := x.Free(len(ws) + 1); j > 0 {
						seq += ws[j-1]
						space = space || j < 6
					} else if seq != "" {
						x.Skip()
					}
				}
				if !space || strings.Contains(ctx, "url") && strings.Contains(seq, "*") {
					x.Skip() // there are no comments in urls
				}
				x.Case(fmt.Sprintf("%q %s", seq, ctx))
				sameSpelling(x, strings.Replace(ctx, "$", " ", 1), strings.Replace(ctx, "$", seq, 1), Cfg{})
			}},
			{Name: "code points, literal and escaped", Body: func(x *X) {
				// Every place a name, string or url can be at, with every code point in it.
				ctx := x.FreePick(codePointContexts...)
				cps := codePoints(x.thorough)
				r := cps[x.Free(len(cps))]
				name := !strings.Contains(ctx, "~")
				ctx = strings.Replace(ctx, "~", "", 1)
				ascii := r < 0x80
				if name && ascii && (!isName(r) || strings.Contains(ctx, "!") && !isNameS(r)) {
					x.Skip()
				}
				if !name && (r < ' ' || r == 0x7f || strings.ContainsRune(`"'\() `, r)) {
					x.Skip()
				}
				ctx = strings.Replace(ctx, "!", "", 1)
				literal := strings.ReplaceAll(ctx, "$", string(r))
				x.Case(fmt.Sprintf("%U in %s", r, ctx))
				for _, e := range []string{fmt.Sprintf("\\%x ", r), fmt.Sprintf("\\%06x", r), "\\" + string(r)} {
					if e == "\\"+string(r) && isHexR(r) {
						continue
					}
					if isHexR(rune(e[1])) && e[len(e)-1] != ' ' && strings.Contains(ctx, "$ ") {
						e += " " // or else the whitespace of the context is a part of the escape
					}
					sameSpelling(x, literal, strings.ReplaceAll(ctx, "$", e), Cfg{})
				}
				// These are all well-formed, so they have to be accepted and preserved.
				if out, ok := x.Accepted(x.CompileOne(literal, Cfg{})); ok {
					x.Preserved(literal, out)
				}
			}},
		},
	})
}

// commentContexts are places for a comment that is followed by more.
var commentContexts = []string{
	"a{b:c}${d:e}", "a{b:c}$d{e:f}/**/h{i:j}", "a $ b{c:d}", "a{b:c $ d;e:f}", "a{$b:c}", "a{--b:c$d;e:f}", "a{b:f(c$,d)}", "@media $ (a){b{c:d}}", "$@import \"a\";", "a{b:c;$}d{e:f}",
}

// commentChars are what could matter in a comment, by itself or in a sequence.
var commentChars = []string{"*", "/", "\\", "\"", "'", "\n", "\r\n", "\r", "\f", "x", "{", "}", ";", " ", "é", "!", "(", ")", ":", "@"}

// spaceContexts are places for whitespace.
var spaceContexts = []string{"a$b{c:d}", "a{b:c$d}", "a{b:c}$d{e:f}", "@media$(a)$and (b){c{d:e}}", "a{b$:c}", "a{--b:c$d}", "a{b:f($c)}", "a{b:c$!important}", "@import$\"a\";", "a$>b{c:d}", "a{b:url($c)}", "$a{b:c}"}

// codePointContexts are places for a code point: in names, where ! marks places that have to start one, and
// in strings and urls, marked with ~.
var codePointContexts = []string{
	"x$y{k:v}", ".!$y{k:v}", ".x$ .z{k:v}", "#!$y{k:v}", "#x$y{k:v}", ".-!$y{k:v}", "[!$y]{k:v}", "[x$=x$]{k:v}", ":x$y{k:v}", "::!$y{k:v}", "a{!$y:v}", "a{x$:v}", "a{k:!$y}", "a{k:x$y z}", "a{k:1!$}", "a{k:1x$ 2}",
	"a{k:!$y(1)}", "a{k:x$(1)}", "a{--$:v}", "a{--x$y:v}", "a{k:var(--$y)}", "a{k:#$y}", "@keyframes !$y{from{k:v}}", "@media !$y{a{k:v}}", "@media (x$y:1px){a{k:v}}", "@media (x$y){a{k:v}}", "@x$y{k:v}",
	"~a{k:\"$\"}", "~a{k:'x$y'}", "~a{k:url($)}", "~a{k:url(x$y)}", "~@import \"x$y\";", "~@import url(x$y);", "~[a=\"$\"]{k:v}",
}

// codePoints are all ASCII and Latin code points, and the ends of the ranges that encodings treat differently.
// In the thorough tier, the whole basic plane is there.
func codePoints(thorough bool) []rune {
	var out []rune
	top := rune(0x180)
	if thorough {
		top = 0x10000
	}
	for r := rune(1); r < top; r++ {
		if r < 0xd800 || r > 0xdfff && r != 0xfffd {
			out = append(out, r)
		}
	}
	for _, r := range []rune{0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0x200b, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff} {
		if r >= top {
			out = append(out, r)
		}
	}
	return out
}

// sameSpelling compares how two spellings of a sheet compile.
func sameSpelling(x *X, base, v string, cfg Cfg) {
	rb, rv := x.CompileOne(base, cfg), x.CompileOne(v, cfg)
	if rb.Panic != "" || rv.Panic != "" {
		x.Fail("%s", rb.Panic+rv.Panic)
		return
	}
	x.Validated()
	ob, okb := rb.Only()
	ov, okv := rv.Only()
	if okb != okv || (len(rb.Errs) == 0) != (len(rv.Errs) == 0) {
		x.Fail("one spelling is accepted, the other is not\nbase: %v %s\nrespelled: %v %s", okb, rb.ErrText(), okv, rv.ErrText())
		return
	}
	x.Outcome(ob)
	if !okb {
		x.Tally("not accepted")
		return
	}
	if len(rb.Errs) != len(rv.Errs) {
		x.Fail("different errors\nbase: %s\nrespelled: %s", rb.ErrText(), rv.ErrText())
	}
	cb, cv := CanonSheet(ParseSheet(ob).Rules), CanonSheet(ParseSheet(ov).Rules)
	if !sameList(cb, cv) {
		x.Fail("different output\nbase output: %s\n%s\nrespelled output: %s\n%s", ob, indent(Show(cb)), ov, indent(Show(cv)))
	}
}
