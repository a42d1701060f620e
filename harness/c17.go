package main

// Source maps: decoded independently, and compared to the positions of the rules in both texts.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// pos is a zero-based position in utf-16 code units.
type pos struct{ line, col int }

// positions translates byte offsets of a text.
type positions struct {
	text   string
	starts []int
}

func newPositions(text string) *positions {
	p := &positions{text: text, starts: []int{0}}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' || text[i] == '\r' && !(i+1 < len(text) && text[i+1] == '\n') {
			p.starts = append(p.starts, i+1)
		}
	}
	return p
}

func units(s string) (n int) {
	for _, r := range s {
		n++
		if r >= 0x10000 {
			n++
		}
	}
	return
}

func (p *positions) at(offset int) pos {
	l := sort.SearchInts(p.starts, offset+1) - 1
	return pos{l, units(p.text[p.starts[l]:offset])}
}

// has tells whether the position is in the text, or at the end of a line.
func (p *positions) has(at pos) bool {
	if at.line < 0 || at.line >= len(p.starts) || at.col < 0 {
		return false
	}
	end := len(p.text)
	if at.line+1 < len(p.starts) {
		end = p.starts[at.line+1]
	}
	return at.col <= units(p.text[p.starts[at.line]:end])
}

type segment struct {
	gen    pos
	source int
	orig   pos
}

type sourceMap struct {
	Version        int       `json:"version"`
	File           *string   `json:"file"`
	SourceRoot     string    `json:"sourceRoot"`
	Sources        []string  `json:"sources"`
	SourcesContent []*string `json:"sourcesContent"`
	Names          []string  `json:"names"`
	Mappings       *string   `json:"mappings"`
	segments       []segment
}

const b64digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// vlqs decodes the numbers of a segment.
func vlqs(s string) ([]int, error) {
	var out []int
	v, shift := 0, 0
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b64digits, s[i])
		if d < 0 {
			return nil, fmt.Errorf("%q is no base64 digit", s[i])
		}
		v |= (d & 31) << shift
		shift += 5
		if shift > 60 {
			return nil, fmt.Errorf("%q is too long", s)
		}
		if d&32 != 0 {
			if i+1 == len(s) {
				return nil, fmt.Errorf("%q is not terminated", s)
			}
			continue
		}
		n := v >> 1
		if v&1 == 1 {
			n = -n
		}
		out = append(out, n)
		v, shift = 0, 0
	}
	return out, nil
}

func decodeMap(in string) (*sourceMap, error) {
	m := &sourceMap{}
	d := json.NewDecoder(bytes.NewReader([]byte(in)))
	if err := d.Decode(m); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("there is something after the source map")
	}
	if m.Version != 3 || m.File == nil || m.Mappings == nil || len(m.Sources) == 0 || len(m.SourcesContent) != len(m.Sources) {
		return nil, fmt.Errorf("a field is missing")
	}
	var source, line, col int
	for l, group := range strings.Split(*m.Mappings, ";") {
		gen := 0
		if group == "" {
			continue
		}
		for _, s := range strings.Split(group, ",") {
			v, err := vlqs(s)
			if err != nil {
				return nil, err
			}
			if len(v) != 4 {
				return nil, fmt.Errorf("a segment has %d fields: %q", len(v), s)
			}
			gen += v[0]
			source += v[1]
			line += v[2]
			col += v[3]
			m.segments = append(m.segments, segment{pos{l, gen}, source, pos{line, col}})
		}
	}
	return m, nil
}

// located is a rule with its place in a source.
type located struct {
	file  string
	start int
	key   string
}

var digits = regexp.MustCompile(`[0-9]+`)
var numbered = regexp.MustCompile(`[a-z]*[0-9]+`)

// ruleKey identifies a rule among others with another number.
func ruleKey(r Rule, parent string) string {
	pre := Canon(r.Prelude)
	props := ""
	for _, d := range r.Decls {
		if !strings.HasPrefix(d.Prop, "--") {
			props += " " + d.Prop
			if r.IsAt {
				props += digits.FindString(Canon(d.Value))
			}
		}
	}
	switch {
	case r.Frame:
		return parent + "/" + pre
	case r.IsAt:
		return parent + "/@" + r.At + digits.FindString(pre) + props
	}
	return parent + "/" + numbered.FindString(pre) + props
}

// locateRules lists all rules of a file in order, with the imported ones. Empty rules, which are not printed, are left out.
func locateRules(p Proj, file string, stack []string, inline bool) (out []located) {
	for _, s := range stack {
		if s == file {
			return nil
		}
	}
	var add func(rules []Rule, parent string)
	add = func(rules []Rule, parent string) {
		for _, r := range rules {
			if CanonRule(r) == "" {
				continue
			}
			if inline && parent == "" && r.IsAt && r.At == "import" && !r.HasBlk {
				spec, _ := ImportTarget(trimWS(r.Prelude))
				target := path.Join(path.Dir(file), spec)
				if _, ok := p[target]; ok {
					out = append(out, locateRules(p, target, append(stack[:len(stack):len(stack)], file), true)...)
					continue
				}
			}
			key := ruleKey(r, parent)
			out = append(out, located{file, r.Start, key})
			add(r.Rules, key)
		}
	}
	add(ParseSheet(p[file]).Rules, "")
	return
}

// mapped checks the source map of one output. byKey matches the rules by numbers instead of their order.
func mapped(x *X, p Proj, file, css, m string, inline, byKey bool) {
	sm, err := decodeMap(m)
	if err != nil {
		x.Fail("invalid source map: %s\n%s", err, m)
		return
	}
	if *sm.File != "$/"+file && filepath.Base(*sm.File) != file {
		x.Fail("the source map is for %q instead of %s", *sm.File, file)
		return
	}
	out := newPositions(css)
	in := map[string]*positions{}
	names := make([]string, len(sm.Sources))
	for i, s := range sm.Sources {
		names[i] = strings.TrimPrefix(s, "$/")
		if i == 0 {
			names[i] = file
		}
		content, ok := p[names[i]]
		if !ok {
			x.Fail("the source map has an unknown source %q", s)
			return
		}
		if sm.SourcesContent[i] == nil || utf8.ValidString(content) && *sm.SourcesContent[i] != content {
			x.Fail("the source map has the wrong contents for %s: %q", names[i], m)
			return
		}
		in[names[i]] = newPositions(content)
	}
	at := map[pos]segment{}
	for i, s := range sm.segments {
		if s.source < 0 || s.source >= len(names) {
			x.Fail("segment %v has an unknown source", s)
			return
		}
		if !out.has(s.gen) || !in[names[s.source]].has(s.orig) {
			x.Fail("segment %v is not in the texts\n%s\n%s", s, css, p[names[s.source]])
			return
		}
		if i > 0 {
			q := sm.segments[i-1].gen
			if s.gen.line == q.line && s.gen.col < q.col {
				x.Fail("segment %v is not in order after %v", s, q)
				return
			}
		}
		if q, ok := at[s.gen]; ok && (q.source != s.source || q.orig != s.orig) {
			x.Fail("segments %v and %v contradict each other", q, s)
			return
		}
		at[s.gen] = s
	}
	want := locateRules(p, file, nil, inline)
	got := locateRules(Proj{"out": css}, "out", nil, false)
	if byKey {
		byKey := map[string]located{}
		for _, l := range want {
			byKey[l.key] = l
		}
		want = nil
		for _, l := range got {
			w, ok := byKey[l.key]
			if !ok {
				// Some transforms merge or rename what the key is made of.
				x.Tally("rules without a key")
			}
			want = append(want, w)
		}
	}
	if len(want) != len(got) {
		x.Tally("other rules")
		return
	}
	x.Validated()
	for i, g := range got {
		w := want[i]
		if w.file == "" {
			continue
		}
		gen, orig := out.at(g.start), in[w.file]
		s, ok := at[gen]
		if !ok {
			x.Fail("there is no segment for the rule at %v in\n%s\nsegments: %v", gen, css, sm.segments)
			return
		}
		if orig == nil || names[s.source] != w.file || s.orig != orig.at(w.start) {
			x.Fail("the rule at %v in\n%s\nis mapped to %v in %s instead of offset %d in %s\n%s", gen, css, s.orig, names[s.source], w.start, w.file, p[w.file])
			return
		}
		x.w.Stats.Mapped++
	}
	x.Outcome(fmt.Sprint(sm.segments))
}

func init() {
	run := func(x *X, p Proj, cfg int, byKey bool) {
		x.Case(fmt.Sprint(cfg, p))
		tr := trConfig(cfg)
		res := x.Compile(p, Cfg{Tr: tr})
		if res.Panic != "" {
			x.Fail("%s", res.Panic)
			return
		}
		if len(res.Out) == 0 {
			x.Tally("not accepted")
			return
		}
		for f, css := range res.Out {
			mapped(x, p, f, css, res.Map[f], tr.ImportRules == 2, byKey)
		}
	}
	trivia := []string{"", " ", "\n", "\r\n", "\r", "\f", "\t\n ", "/*a*/", "/*\n\r\n*/ ", "/*é\U0001F600*/", "<!--", "\n\r", "/*\r*/\n\n", "/*\f\u2028*/"}
	rules := []string{
		"a#{k:v}", "\U0001F600é#{k:v}", "a#::before,\nb>c{k:\"\U0001F600\"}", "q#{k:\"\\\nx\"}", "q#{k:'\\\r\nx\\\ry'; l : w }", "@media (w:#){~a#{k:v}~b#{k:v}~}", "@media \U0001F600 and\n(w:#){~\U0001F600#{k:v}}", "@keyframes n#{~from{k:v}~to{k:w}}", "@font-face{k:\"\U0001F600\";l:v#}", "@import \"i#\";", "@custom-media --c# (w:#);",
		".\\e9 #{k:v}", ".\\1f600 a#{k:v}", "a#{--x:{\n} ;k:v}", "a#{*k:\n{\U0001F600}}", "@media (--c#){~a#{k:v}}", ":root{k#:v;--d#:1px}", "a#:any-link{k:v}", "a#{k:url(\U0001F600)calc(1px + 1px)var(--d1)}", "a#{}", "@media m#{}", "a#[b='\\\n\"']{k:v}", "@page{k#:v}",
	}
	rule := func(x *X, i, n int, trivia func() string) string {
		s := strings.Replace(rules[n], "#", string(rune('1'+i)), -1)
		for strings.Contains(s, "~") {
			s = strings.Replace(s, "~", trivia(), 1)
		}
		return s
	}
	inner := []string{"", "\n", " ", "\r", "/*\U0001F600*/"}
	distances := []int{0, 1, 14, 15, 16, 17, 31, 32, 510, 511, 512, 513, 16382, 16383, 16384, 16385, 524287, 524288, 524289}
	register(&Check{
		ID:   "C17",
		Rule: "all sequences of up to three rules of 23 kinds with 14 kinds of trivia around and in them, at 19 distances in lines and columns, in inlined files, all rules of the corpus, under transform configurations; distinct by files and configuration",
		Parts: []Part{
			{Name: "two rules and trivia", Dev: [2]int{0, 1}, Body: func(x *X) {
				var b strings.Builder
				for i := 0; i < 2; i++ {
					b.WriteString(trivia[x.Free(len(trivia))])
					b.WriteString(rule(x, i, x.Free(len(rules)), func() string { return inner[x.Choose(len(inner))] }))
				}
				run(x, One(b.String()), []int{0, 95}[x.Choose(2)], true)
			}},
			{Name: "three rules", Dev: [2]int{0, 1}, Body: func(x *X) {
				var b strings.Builder
				for i := 0; i < 3; i++ {
					b.WriteString(trivia[x.Choose(len(trivia))])
					n := x.Free(len(rules))
					b.WriteString(rule(x, i, n, func() string { return inner[x.Choose(len(inner))] }))
				}
				b.WriteString(x.Pick("", "\n", "/*e*/", "}"))
				run(x, One(b.String()), []int{0, 95}[x.Choose(2)], true)
			}},
			{Name: "nested rules", Dev: [2]int{1, 2}, Body: func(x *X) {
				in := func() string { return x.Pick(append(inner, "\r\n", "\f", "/*\n*/")...) }
				s := in() + rule(x, 0, 5+x.Free(3), in) + in() + rule(x, 1, x.Free(9), in) + in()
				run(x, One(s), someConfigs[x.Free(len(someConfigs))], true)
			}},
			{Name: "all transforms", Dev: [2]int{0, 0}, Body: func(x *X) {
				a, b := x.Free(len(rules)), x.Free(len(rules))
				s := ":root{--d1:2px;--d2:1px;k9:v}\n" + rule(x, 0, a, func() string { return "\n" }) + " " + rule(x, 1, b, func() string { return "" }) + "\n\U0001F600z8{k:v}"
				run(x, One(s), 3*x.Free(trConfigs/3), true)
			}},
			{Name: "distances", Dev: [2]int{2, 3}, Body: func(x *X) {
				pad := func() string {
					d := distances[x.Choose(len(distances))]
					unit := x.FreePick("\n", " ", "/*\U0001F600*/")
					if !x.thorough && d > 17000 {
						x.Skip()
					}
					if len(unit) > 1 {
						return "/*" + strings.Repeat("\U0001F600", d/2) + "*/"
					}
					return strings.Repeat(unit, d)
				}
				gap := x.FreePick("", "a{k:v}", "a{k:\"$\"}", "a{k:\"@\"}")
				long := distances[x.Choose(16)]
				if !strings.ContainsAny(gap, "$@") && long > 0 {
					x.Skip()
				}
				gap = strings.NewReplacer("$", strings.Repeat("x", long), "@", strings.Repeat("\\\n", long)).Replace(gap)
				run(x, One(pad()+gap+pad()+"b{k:v}\nc{k:v}"), 0, false)
			}},
			{Name: "sheets of the other checks", Dev: [2]int{0, 0}, Body: func(x *X) {
				sheets := spellingBases()
				s := sheets[x.Free(len(sheets))]
				t := ""
				if x.thorough {
					t = sheets[x.Free(len(sheets))]
				}
				run(x, One("y{k:v}\n"+s+x.FreePick("", "\n")+t+" z{k:v}"), 0, false)
			}},
			{Name: "inlined files", Dev: [2]int{1, 2}, Body: func(x *X) {
				file := func(name string, max int) string {
					var b strings.Builder
					for i := 1 + x.Free(max); i > 0; i-- {
						b.WriteString(x.Pick("", "\n", "/*\U0001F600\n*/"))
						b.WriteString(strings.Replace(x.FreePick(`@import "./b.css";`, `@import "./c.css";`, "#{k:v}", "@media (w:1){#{k:v}\n\U0001F600{k:v}}", `@import "./nope.css";`, "@keyframes #{to{k:\"\\\n\"}}"), "#", name, -1))
					}
					return b.String()
				}
				last := 1
				if x.thorough {
					last = 2
				}
				p := Proj{"a.css": file("a", 1+last), "b.css": file("b", 2), "c.css": file("c", last)}
				run(x, p, []int{2, 95}[x.Choose(2)], false)
			}},
		},
	})
}
