package main

// Diagnostics: every one is at the place of its construct, wherever that is put.

import (
	"fmt"
	"sort"
	"strings"
)

// faulty are rules with a problem. The offending construct is between the marks, D is where declarations can be put, R where rules can be put.
var faulty = []string{
	"R«@foo bar;»", "Ra«]»{k:v}", "Ra{D«k»}", "Ra{Dk:v;«k»;l:w}", "R«a[b»{k:v}", "R«a[b?=»c]{k:v}", "Ra:nth-child(«x»){k:v}", "Ra:nth-child(2n «x»){k:v}", "Ra:not(«)»{k:v}", "Ra«,»{k:v}", "R«,»a{k:v}", "Ra«{»", "Ra{Dk:«v»", "Ra{Dk:«\"v\n\"»}", "Ra{Dk:«'v»",
	"R«/*x», R«@import»", "R@import «x»;", "R@import \"./ok.css\" «(»", "R@import «foo(\"./ok.css\")»;", "R@media {a{k:v}«»", "R@media (1<w«>»2){a{k:v}}", "R@media (w:1){R«@media» (x){a{k:v}}}", "R@media (w:1){Ra{Dk:v}«", "R@keyframes n{R«x»{k:v}}", "R@keyframes n{from{Dk:v}«}»{", "R@keyframes «{»from{k:v}}",
	"R@custom-media --m (w:1)«,(x);»", "R@custom-media --m (w:1)«}»", "Ra{Dk:v «!»x}", "Ra{Dk:v !important «x»}", "Ra{Dk:«}»", "Ra{Dk:calc(«1px +)»}", "Ra{Dk:«calc()»}", "R«}»", "R«)»a{k:v}", "Ra{Dk:«url(a b)»}", "Ra{Dk:«url(a\")»}", "Ra{k:\"\\\n\";Dl:«(»",
	"R@font-face{Dk:«", "R:root{D--x:«{»",
	// Warnings of the transforms.
	"Ra{Dk:«var(--u)»}", "Ra{Dk:1px «var(--u)» 2px}", "Ra{Dk:«var(--u)» «var(--u)»}", "R@media (w:1){Ra{Dk:«var(--u)»}}", "Ra{Dk:f(1,«var(--u)»)}", "Ra{Dk:«calc(1px + 1)»}", "Ra{Dk:«calc(1px + 2px * 3px)»}", "Ra{Dk:«calc(1px / 0)»}", "Ra{Dk:1px «calc(2 / 1px)» 3px}", "Ra{Dk:«calc(1px,2px)»}", "Ra{Dk:«var(--loop)»}R:root{--loop:var(--loop)}",
	"Ra{Dk:«var(--bad)»}R:root{D--bad:calc(1px + 1)}", "Ra{Dk:«calc(2 * var(--two))»}R:root{--two:1 2}", "Ra{D«*k:var(--raw)»}R:root{D--raw:1px}", "R@media («x>2»){a{k:v}}", "R@media («w>x»){Ra{k:v}}", "R@media «(--l)»{a{k:v}}R@custom-media --l (--l);", "R@media not «(--s)»{a{k:v}}R@custom-media --s screen and (w:1);", "R«@import \"./ok.css\" screen;»",
	"Ra:nth-child(«2n+»){k:v}", "R«@charset \"x\";»", "R«@page :first»{k:v}", "Ra{Dk:v;b{k:v}«»", "R@keyframes n{from{Dk:«var(--u)»}}", "R@font-face{Dk:«calc(1px + 1)»}",
}

// diag is a diagnostic without its place, and the offset of that place.
type diag struct {
	file   string
	offset int
	text   string
	// end is where the underlined part of the line ends, and more whether it goes on in the next line.
	end  int
	more bool
}

// diags translates diagnostics.
func diags(x *X, p Proj, res *Res) ([]diag, bool) {
	var out []diag
	for _, e := range res.Errs {
		if !e.Located {
			out = append(out, diag{text: e.Text})
			continue
		}
		content, ok := p[e.File]
		if !ok {
			x.Fail("%s: there is no such file", e.Text)
			return nil, false
		}
		pp := newPositions(content)
		if e.Line < 1 || e.Line > len(pp.starts) || e.Col < 1 {
			x.Fail("%s: there is no such line", e.Text)
			return nil, false
		}
		offset := pp.starts[e.Line-1] + e.Col - 1
		end := strings.IndexAny(content[pp.starts[e.Line-1]:], "\r\n")
		line := content[pp.starts[e.Line-1]:]
		if end >= 0 {
			line = line[:end]
		}
		if e.Col-1 > len(line) {
			x.Fail("%s: the line %q is not that long", e.Text, line)
			return nil, false
		}
		quote := strings.SplitN(e.Quote, "\n", 2)
		if len(quote) != 2 || strings.TrimPrefix(quote[0], "\t") != strings.ReplaceAll(line, "\t", "  ") {
			x.Fail("%s: quotes %q instead of %q", e.Text, quote[0], line)
			return nil, false
		}
		d := diag{file: e.File, offset: offset, text: e.Msg}
		under := strings.TrimLeft(quote[1], "\t ")
		d.more = strings.HasSuffix(under, ">")
		under = strings.TrimSuffix(under, ">")
		d.end = offset + len(under)
		if strings.Trim(under, "~") != "" || e.Col-1+len(under) > len(line) || d.more && e.Col-1+len(under) != len(line) {
			x.Fail("%s: %q is not a part of the line", e.Text, quote[1])
			return nil, false
		}
		if indent := len(quote[1]) - len(strings.TrimLeft(quote[1], "\t ")) - 1; indent != e.Col-1+strings.Count(line[:e.Col-1], "\t") {
			x.Tally("underlined elsewhere because of tabs")
		}
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.file != b.file {
			return a.file < b.file
		}
		if a.offset != b.offset {
			return a.offset < b.offset
		}
		return a.text < b.text
	})
	return out, true
}

// assemble fills in the rules and declarations and removes the marks. It returns where the marks were, and where
// each byte of the text without additions went.
func assemble(template string, r, d func() string) (text string, spans [][2]int, moved []int) {
	var b strings.Builder
	for _, c := range template {
		switch c {
		case 'R':
			b.WriteString(r())
		case 'D':
			b.WriteString(d())
		case '«':
			spans = append(spans, [2]int{b.Len(), -1})
		case '»':
			spans[len(spans)-1][1] = b.Len()
		default:
			for n := len(string(c)); n > 0; n-- {
				moved = append(moved, b.Len()+len(string(c))-n)
			}
			b.WriteRune(c)
		}
	}
	moved = append(moved, b.Len())
	for i := range spans {
		if spans[i][1] < 0 {
			spans[i][1] = b.Len()
		}
	}
	return b.String(), spans, moved
}

// diagnosed checks the diagnostics of an assembled text against those of the text without additions.
func diagnosed(x *X, template string, r, d func() string, cfg int, where string) {
	none := func() string { return "" }
	// place puts a text where it is to be compiled.
	place := func(css string) (Proj, string) {
		p := Proj{"a.css": css, "ok.css": "ok{k:v}\n\n\n\nok{k:v}\n"}
		switch where {
		case "imported":
			p["b.css"] = css
			p["a.css"] = "\n\n@import \"./b.css\";\n"
			return p, "b.css"
		case "twice":
			p["b.css"] = css
			p["c.css"] = "/*\n*/@import \"./b.css\";"
			p["a.css"] = "\n\n@import \"./c.css\";\n@import \"./ok.css\";"
			return p, "b.css"
		}
		return p, "a.css"
	}
	plain, spans, _ := assemble(template, none, none)
	base, file := place(plain)
	text, _, moved := assemble(template, r, d)
	p, _ := place(text)
	x.Case(fmt.Sprint(cfg, where, p))
	tr := trConfig(cfg)
	want, ok := diags(x, base, x.Compile(base, Cfg{Tr: tr}))
	if !ok {
		return
	}
	if text == plain {
		if len(want) == 0 {
			x.Tally("no diagnostic with these transforms")
		}
		for _, w := range want {
			in := w.file == file
			for i, s := range spans {
				in = in && (w.offset >= s[0] && w.offset <= s[1] || i+1 < len(spans))
				if w.offset >= s[0] && w.offset <= s[1] {
					break
				}
			}
			if !in && w.file != "" {
				x.Fail("offset %d in %s is not the offending construct %v\n%s", w.offset, w.file, spans, w.text)
			}
		}
	}
	got, ok := diags(x, p, x.Compile(p, Cfg{Tr: tr}))
	if !ok {
		return
	}
	x.Validated()
	for i := range want {
		w := &want[i]
		if w.file != file {
			continue
		}
		start, end := w.offset, w.end
		w.offset = moved[start]
		if end > start {
			w.end = moved[end-1] + 1
		} else {
			w.end = w.offset
		}
		// What was added inside of the construct may have a newline.
		if nl := strings.IndexAny(text[w.offset:], "\r\n"); nl >= 0 && (w.more || w.offset+nl < w.end) {
			w.end, w.more = w.offset+nl, true
		}
	}
	x.Outcome(fmt.Sprint(got))
	if fmt.Sprint(want) != fmt.Sprint(got) {
		x.Fail("the diagnostics are\n%v instead of\n%v", got, want)
	}
}

func init() {
	ruleItems := []string{"", "\n", "\r\n", "\r", "\f", " ", "\t", "/*c*/", "/*\n*/", "/*\r\n\r*/", "p{k:v}", "p{k:v}\n", "p{k:\"\\\n\"}", "p{k:'\\\r\n\\\r'}", "@media (w:1){\np{k:v}\r}", "é\U0001F600{k:v}", "@keyframes n{from{k:v}\n}", ":root{--ok:\n1px}", "<!--\n", "p{--x:{\r\n}}", "p{*k:\n(;\r)}", "p{k:url(\n)}", "p\\31\n{k:v}", "p[b=\"\\\r\n\"]{k:v}", "@custom-media --ok (w:\n1);", "@import \"./ok.css\";", "@media (--okk){\r\np{k:var(--okk,1)}}", "p{k:calc(1px +\n1px)}", "/*\ufeff\u200b\u0301\u3042\u2028\x01*/"}
	declItems := []string{"", "\n", "\r\n", "\r", "\f", "\t", "/*\n*/", "k:v;", "k:v;\n", "--x:{\n};", "k:\"\\\n\";", "*k:v\r\n;", ";", "k:\nv !important;", "é:\U0001F600;", "k:var(--nope,\n1px);", "k:url(\n);", "k:f(\n(1),\r2);", "k:\"\ufeff\u0301\U0001F468\u200d\U0001F469\u0085\u2029\";", "*k:[\n];"}
	split := func(s []string) []string {
		var out []string
		for _, f := range s {
			if i := strings.Index(f, ", R«"); i > 0 {
				out = append(out, f[:i], f[i+2:])
			} else {
				out = append(out, f)
			}
		}
		return out
	}
	faulty := split(faulty)
	nested := func(template string) func(*X) func() string {
		// The first R is always at top level, others can be in a block where some rules are not allowed.
		return func(x *X) func() string {
			first := true
			return func() string {
				items := ruleItems
				if !first || strings.HasPrefix(template, "R@import") {
					items = []string{"", "\n", "\r\n", "\r", "\f", " ", "/*\n*/"}
				}
				first = false
				return items[x.Choose(len(items))]
			}
		}
	}
	body := func(places []string, cfgs []int) func(x *X) {
		return func(x *X) {
			t := faulty[x.Free(len(faulty))]
			cfg := cfgs[x.Free(len(cfgs))]
			where := x.FreePick(places...)
			rules := nested(t)(x)
			diagnosed(x, t, func() string { return rules() + rules() }, func() string { return declItems[x.Choose(len(declItems))] }, cfg, where)
		}
	}
	register(&Check{
		ID:   "C19",
		Rule: "70 constructs with problems after all combinations of 28 rules and 19 declarations with newlines of every style, in entries and in imported files, in all import modes; the same with up to 2,000 (thorough: 20,000) rules or lines in front and rules behind on the line; all single edits of well-formed sheets, shifted, newlines of all styles at all pairs of places inside and after the construct; distinct by files and configuration",
		Parts: []Part{
			{Name: "everything in front", Dev: [2]int{2, 3}, Body: body([]string{"entry"}, []int{94})},
			{Name: "single edits of the sheets of C22", Dev: [2]int{0, 0}, Body: func(x *X) {
				css := mutated(x, wellFormed[x.Free(len(wellFormed))], x.thorough)
				if strings.ContainsAny(css, "RD\u00ab\u00bb") {
					x.Skip()
				}
				add, where, cfg := x.FreePick("\n", "\U0001F600{k:v}\r\n\t"), "entry", 0
				if x.thorough {
					add, where = x.FreePick("\n", "\r\n\t", "/*\r*/ ", "\U0001F600{k:v}\n"), x.FreePick("entry", "imported")
					cfg = []int{0, 94}[x.Free(2)]
				} else if add == "\n" {
					where, cfg = "imported", 94
				}
				diagnosed(x, "R\u00ab"+css+"\u00bb", func() string { return add }, nil, cfg, where)
			}},
			{Name: "newlines of any style inside and after", Dev: [2]int{0, 0}, Body: func(x *X) {
				// Every diagnostic is the same text whatever the newlines look like.
				css := strings.NewReplacer("R", "", "D", "", "«", "", "»", "").Replace(faulty[x.Free(len(faulty))])
				toks, _ := Tokenize(css)
				if len(toks) == 0 {
					x.Skip()
				}
				at := toks[x.Free(len(toks))].Start
				second := at
				if i := x.Free(4); i < 3 && at+i < len(css) {
					second = toks[len(toks)*i/3].Start // one more somewhere
				}
				if second < at {
					x.Skip()
				}
				with := func(nl string) string {
					s := css[:at] + nl + css[at:second]
					if second != at {
						s += nl
					}
					return s + css[second:] + nl
				}
				nl := x.FreePick("\r\n", "\r")
				cfg := []int{94, 0}[x.Free(2)]
				x.Case(fmt.Sprintf("%d %q", cfg, with(nl)))
				p := Proj{"a.css": with("\n"), "ok.css": "ok{k:v}"}
				q := Proj{"a.css": with(nl), "ok.css": "ok{k:v}"}
				want, got := x.Compile(p, Cfg{Tr: trConfig(cfg)}), x.Compile(q, Cfg{Tr: trConfig(cfg)})
				if _, ok := diags(x, p, want); !ok {
					return
				}
				if _, ok := diags(x, q, got); !ok {
					return
				}
				x.Validated()
				x.Outcome(got.ErrText())
				if a, b := want.ErrText(), got.ErrText(); a != b {
					x.Fail("the diagnostics are\n%s\ninstead of\n%s", b, a)
				}
			}},
			{Name: "long lines and many lines", Dev: [2]int{0, 0}, Body: func(x *X) {
				t := faulty[x.Free(len(faulty))]
				sizes := []int{0, 1, 10, 20, 40, 100, 170, 300, 2000}
				if x.thorough {
					sizes = append(sizes, 20000)
				}
				front, back := sizes[x.Free(len(sizes))], sizes[x.Free(len(sizes))]
				// What follows a construct that is not closed is part of it.
				if front+back > 300 && front > 0 && back > 0 && !x.thorough || back > 0 && !strings.HasSuffix(t, "}") && !strings.HasSuffix(t, ";") {
					x.Skip()
				}
				item := x.FreePick("z{k:v}", "\n", "\t", "é{k:v}\r\n", "/*\U0001F600*/")
				if front == 0 && item != "z{k:v}" || strings.HasPrefix(t, "R@import") && strings.HasPrefix(item, "z") && x.Free(2) == 1 {
					x.Skip()
				}
				first := true
				r := func() string {
					if !first {
						return ""
					}
					first = false
					return strings.Repeat(item, front)
				}
				diagnosed(x, t+strings.Repeat("z{k:v}", back), r, func() string { return "" }, 94, x.FreePick("entry", "imported"))
			}},
			{Name: "files and configurations", Dev: [2]int{1, 2}, Body: body([]string{"entry", "imported", "twice"}, []int{0, 93, 94, 95})},
		},
	})
}
