package main

// Reference model of CSS syntax (css-syntax-3), written independently of the code under test:
// tokenizer, component value tree, rule structure and a canonical form in which two stylesheets
// are equal exactly if they have the same rules, preludes and declarations token for token.

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

type Kind byte

const (
	TEOF Kind = iota
	TIdent
	TFunc
	TAt
	THash
	TString
	TBadString
	TURL
	TBadURL
	TDelim
	TNum
	TPerc
	TDim
	TWS
	TCDO
	TCDC
	TColon
	TSemi
	TComma
	TLBrack
	TRBrack
	TLParen
	TRParen
	TLCurly
	TRCurly
)

var kindName = map[Kind]string{TEOF: "eof", TIdent: "ident", TFunc: "func", TAt: "at", THash: "hash", TString: "str", TBadString: "badstr", TURL: "url", TBadURL: "badurl", TDelim: "delim", TNum: "num", TPerc: "perc", TDim: "dim", TWS: "ws", TCDO: "cdo", TCDC: "cdc", TColon: ":", TSemi: ";", TComma: ",", TLBrack: "[", TRBrack: "]", TLParen: "(", TRParen: ")", TLCurly: "{", TRCurly: "}"}

// Tok is a token. V is the unescaped value (or unit), N the literal number.
type Tok struct {
	K          Kind
	V, N       string
	Start, End int
}

type lexr struct {
	s   string
	p   int
	bad []string // syntax problems: unterminated constructs, bad strings and urls
}

func isNL(r rune) bool   { return r == '\n' || r == '\r' || r == '\f' }
func isWS(r rune) bool   { return isNL(r) || r == ' ' || r == '\t' }
func isDig(r rune) bool  { return r >= '0' && r <= '9' }
func isHexR(r rune) bool { return isDig(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' }
func isNameS(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= 0x80 || r == 0
}
func isName(r rune) bool { return isNameS(r) || isDig(r) || r == '-' }

// at returns the i-th code point after the current position (0 is the current one).
func (l *lexr) at(i int) rune {
	p := l.p
	for {
		if p >= len(l.s) {
			return -1
		}
		r, n := utf8.DecodeRuneInString(l.s[p:])
		if i == 0 {
			return r
		}
		p += n
		i--
	}
}

func (l *lexr) adv() rune {
	if l.p >= len(l.s) {
		return -1
	}
	r, n := utf8.DecodeRuneInString(l.s[l.p:])
	l.p += n
	if r == '\r' && l.p < len(l.s) && l.s[l.p] == '\n' {
		l.p++
	}
	if isNL(r) {
		return '\n'
	}
	if r == 0 {
		return 0xFFFD
	}
	return r
}

func (l *lexr) escOK(i int) bool {
	return l.at(i) == '\\' && l.at(i+1) != -1 && !isNL(l.at(i+1))
}
func (l *lexr) identStart(i int) bool {
	switch r := l.at(i); {
	case r == '-':
		return isNameS(l.at(i+1)) || l.at(i+1) == '-' || l.escOK(i+1)
	case isNameS(r):
		return true
	case r == '\\':
		return l.escOK(i)
	}
	return false
}
func (l *lexr) numStart(i int) bool {
	r := l.at(i)
	if r == '+' || r == '-' {
		return isDig(l.at(i+1)) || l.at(i+1) == '.' && isDig(l.at(i+2))
	}
	if r == '.' {
		return isDig(l.at(i + 1))
	}
	return isDig(r)
}

// esc consumes what follows a backslash.
func (l *lexr) esc() rune {
	if !isHexR(l.at(0)) {
		return l.adv()
	}
	v := 0
	for i := 0; i < 6 && isHexR(l.at(0)); i++ {
		var d int
		fmt.Sscanf(string(l.adv()), "%x", &d)
		v = v*16 + d
	}
	if isWS(l.at(0)) {
		l.adv()
	}
	if v == 0 || v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
		return 0xFFFD
	}
	return rune(v)
}

func (l *lexr) name() string {
	var b strings.Builder
	for {
		switch {
		case isName(l.at(0)):
			b.WriteRune(l.adv())
		case l.escOK(0):
			l.p++
			b.WriteRune(l.esc())
		default:
			return b.String()
		}
	}
}

func (l *lexr) num() string {
	st := l.p
	if l.at(0) == '+' || l.at(0) == '-' {
		l.p++
	}
	for isDig(l.at(0)) {
		l.p++
	}
	if l.at(0) == '.' && isDig(l.at(1)) {
		l.p += 2
		for isDig(l.at(0)) {
			l.p++
		}
	}
	if e := l.at(0); e == 'e' || e == 'E' {
		if isDig(l.at(1)) {
			l.p += 2
		} else if (l.at(1) == '+' || l.at(1) == '-') && isDig(l.at(2)) {
			l.p += 3
		}
		if l.s[l.p-1] != '.' {
			for l.p > st && isDig(l.at(0)) && strings.ContainsAny(l.s[st:l.p], "eE") {
				l.p++
			}
		}
	}
	return l.s[st:l.p]
}

func (l *lexr) next() Tok {
	for l.at(0) == '/' && l.at(1) == '*' {
		i := strings.Index(l.s[l.p+2:], "*/")
		if i < 0 {
			l.bad = append(l.bad, "unterminated comment")
			l.p = len(l.s)
			break
		}
		l.p += i + 4
	}
	t := Tok{Start: l.p}
	fin := func(k Kind) Tok { t.K = k; t.End = l.p; return t }
	r := l.at(0)
	switch {
	case r == -1:
		return fin(TEOF)
	case isWS(r):
		for isWS(l.at(0)) {
			l.adv()
		}
		return fin(TWS)
	case r == '"' || r == '\'':
		l.p++
		var b strings.Builder
		for {
			c := l.at(0)
			switch {
			case c == -1:
				l.bad = append(l.bad, "unterminated string")
				t.V = b.String()
				return fin(TString)
			case c == r:
				l.p++
				t.V = b.String()
				return fin(TString)
			case isNL(c):
				l.bad = append(l.bad, "bad string")
				return fin(TBadString)
			case c == '\\':
				l.p++
				if l.at(0) == -1 {
					l.bad = append(l.bad, "unterminated string")
				} else if isNL(l.at(0)) {
					l.adv()
				} else {
					b.WriteRune(l.esc())
				}
			default:
				b.WriteRune(l.adv())
			}
		}
	case r == '#' && (isName(l.at(1)) || l.escOK(1)):
		l.p++
		t.V = l.name()
		return fin(THash)
	case l.numStart(0):
		t.N = l.num()
		if l.identStart(0) {
			t.V = l.name()
			return fin(TDim)
		}
		if l.at(0) == '%' {
			l.p++
			return fin(TPerc)
		}
		return fin(TNum)
	case r == '-' && l.at(1) == '-' && l.at(2) == '>':
		l.p += 3
		return fin(TCDC)
	case r == '<' && strings.HasPrefix(l.s[l.p:], "<!--"):
		l.p += 4
		return fin(TCDO)
	case r == '@' && l.identStart(1):
		l.p++
		t.V = l.name()
		return fin(TAt)
	case l.identStart(0):
		t.V = l.name()
		if l.at(0) != '(' {
			return fin(TIdent)
		}
		l.p++
		if !strings.EqualFold(t.V, "url") {
			return fin(TFunc)
		}
		save := l.p
		for isWS(l.at(0)) {
			l.adv()
		}
		if q := l.at(0); q == '"' || q == '\'' {
			l.p = save
			return fin(TFunc)
		}
		var b strings.Builder
		for {
			c := l.at(0)
			switch {
			case c == ')':
				l.p++
				t.V = b.String()
				return fin(TURL)
			case c == -1:
				l.bad = append(l.bad, "unterminated url")
				t.V = b.String()
				return fin(TURL)
			case isWS(c):
				for isWS(l.at(0)) {
					l.adv()
				}
				if l.at(0) == ')' || l.at(0) == -1 {
					continue
				}
			case c == '\\' && l.escOK(0):
				l.p++
				b.WriteRune(l.esc())
				continue
			case c == '"' || c == '\'' || c == '(' || c == '\\' || c >= 1 && c <= 8 || c == 0xb || c >= 0xe && c <= 0x1f || c == 0x7f:
			default:
				b.WriteRune(l.adv())
				continue
			}
			l.bad = append(l.bad, "bad url")
			for {
				if c := l.at(0); c == -1 {
					break
				} else if l.escOK(0) {
					l.p++
					l.esc()
				} else if l.adv(); c == ')' {
					break
				}
			}
			return fin(TBadURL)
		}
	}
	l.adv()
	switch r {
	case ':':
		return fin(TColon)
	case ';':
		return fin(TSemi)
	case ',':
		return fin(TComma)
	case '[':
		return fin(TLBrack)
	case ']':
		return fin(TRBrack)
	case '(':
		return fin(TLParen)
	case ')':
		return fin(TRParen)
	case '{':
		return fin(TLCurly)
	case '}':
		return fin(TRCurly)
	}
	t.V = string(r)
	return fin(TDelim)
}

// Tokenize returns all tokens (comments dropped, whitespace kept) and the lexical problems found.
func Tokenize(s string) ([]Tok, []string) {
	l := &lexr{s: s}
	var out []Tok
	for {
		t := l.next()
		if t.K == TEOF {
			return out, l.bad
		}
		// Comments between two whitespace runs leave a single whitespace.
		if t.K == TWS && len(out) > 0 && out[len(out)-1].K == TWS {
			out[len(out)-1].End = t.End
			continue
		}
		out = append(out, t)
	}
}

// CV is a component value: a preserved token, or a function / simple block with children.
type CV struct {
	Tok
	Sub    []CV
	Open   int // end of the opening token
	Closed bool
}

func (c CV) nested() bool { return c.K == TFunc || c.K == TLParen || c.K == TLBrack || c.K == TLCurly }
func (c CV) is(k Kind, v string) bool {
	return c.K == k && strings.EqualFold(c.V, v)
}

var closer = map[Kind]Kind{TFunc: TRParen, TLParen: TRParen, TLBrack: TRBrack, TLCurly: TRCurly}

// Nest builds the component value tree.
func Nest(toks []Tok) ([]CV, []string) {
	var bad []string
	p := 0
	var list func(end Kind) []CV
	list = func(end Kind) []CV {
		var out []CV
		for p < len(toks) {
			t := toks[p]
			p++
			if t.K == end {
				return out
			}
			cv := CV{Tok: t, Open: t.End}
			switch t.K {
			case TFunc, TLParen:
				cv.Sub = list(TRParen)
			case TLBrack:
				cv.Sub = list(TRBrack)
			case TLCurly:
				cv.Sub = list(TRCurly)
			case TRParen, TRBrack, TRCurly:
				bad = append(bad, "unmatched "+kindName[t.K])
			}
			cv.End = toks[p-1].End
			cv.Closed = cv.nested() && closer[cv.K] == toks[p-1].K && p-1 > 0 && toks[p-1].Start >= t.End
			out = append(out, cv)
		}
		if end != TEOF {
			bad = append(bad, "unclosed block")
		}
		return out
	}
	return list(TEOF), bad
}

// Rule is a rule of a stylesheet. Style rules have no name.
type Rule struct {
	At      string
	IsAt    bool
	Prelude []CV
	HasBlk  bool
	Decls   []Decl // contents of a declaration block
	Rules   []Rule // contents of @media and @keyframes
	Start   int    // offset of the first token
	Frame   bool   // keyframe rule
}

// Decl is a declaration, or anything else between the semicolons of a block.
type Decl struct {
	Prop  string // empty if it doesn't look like a declaration
	Value []CV   // without surrounding whitespace and !important
	Imp   bool
	All   []CV
	Start int
}

// Sheet is a parsed stylesheet with all problems that make it not well-formed.
type Sheet struct {
	Rules []Rule
	Bad   []string
}

func trimWS(in []CV) []CV {
	for len(in) > 0 && in[0].K == TWS {
		in = in[1:]
	}
	for len(in) > 0 && in[len(in)-1].K == TWS {
		in = in[:len(in)-1]
	}
	return in
}

func noWS(in []CV) []CV {
	var out []CV
	for _, c := range in {
		if c.K != TWS {
			out = append(out, c)
		}
	}
	return out
}

// ParseSheet parses a whole stylesheet.
func ParseSheet(s string) *Sheet {
	toks, bad := Tokenize(s)
	cvs, bad2 := Nest(toks)
	sh := &Sheet{Bad: append(bad, bad2...)}
	sh.Rules = parseRules(cvs, true, false, &sh.Bad)
	return sh
}

func parseRules(in []CV, top, frames bool, bad *[]string) []Rule {
	var out []Rule
	i := 0
	for i < len(in) {
		c := in[i]
		switch {
		case c.K == TWS || top && (c.K == TCDO || c.K == TCDC):
			i++
		case top && c.K == TSemi: // stray semicolons between rules; also ends block-less at rules here
			i++
		default:
			r := Rule{Start: c.Start, Frame: frames}
			if c.K == TAt {
				r.IsAt, r.At = true, c.V
				i++
			}
			st := i
			for i < len(in) && in[i].K != TLCurly && !(r.IsAt && in[i].K == TSemi) {
				i++
			}
			r.Prelude = trimWS(in[st:i])
			if i < len(in) && in[i].K == TLCurly {
				r.HasBlk = true
				if r.IsAt && strings.EqualFold(r.At, "media") {
					r.Rules = parseRules(in[i].Sub, false, false, bad)
				} else if r.IsAt && strings.HasSuffix(strings.ToLower(r.At), "keyframes") {
					r.Rules = parseRules(in[i].Sub, false, true, bad)
				} else {
					r.Decls = parseDecls(in[i].Sub)
				}
				i++
			} else if !r.IsAt {
				*bad = append(*bad, "rule without block")
			} else if i < len(in) {
				i++
			}
			out = append(out, r)
		}
	}
	return out
}

func parseDecls(in []CV) []Decl {
	var out []Decl
	flush := func(seg []CV) {
		seg = trimWS(seg)
		if len(seg) == 0 {
			return
		}
		d := Decl{All: seg, Start: seg[0].Start}
		rest := seg
		star := ""
		if rest[0].is(TDelim, "*") {
			star, rest = "*", trimWS(rest[1:])
		}
		if len(rest) > 0 && rest[0].K == TIdent {
			after := trimWS(rest[1:])
			if len(after) > 0 && after[0].K == TColon {
				d.Prop = star + rest[0].V
				d.Value = trimWS(after[1:])
				v := noWS(d.Value)
				if n := len(v); n >= 2 && v[n-1].is(TIdent, "important") && v[n-2].is(TDelim, "!") {
					d.Imp = true
					for !d.Value[len(d.Value)-1].is(TDelim, "!") {
						d.Value = d.Value[:len(d.Value)-1]
					}
					d.Value = trimWS(d.Value[:len(d.Value)-1])
				}
			}
		}
		out = append(out, d)
	}
	st := 0
	for i, c := range in {
		if c.K == TSemi {
			flush(in[st:i])
			st = i + 1
		}
	}
	flush(in[st:])
	return out
}

// ---- canonical form ----

func isMathName(n string) bool {
	switch strings.ToLower(n) {
	case "calc", "min", "max", "clamp":
		return true
	}
	return false
}

// Canon renders component values without insignificant whitespace. Inside math functions,
// whitespace around + and - is significant.
func Canon(in []CV) string {
	var b strings.Builder
	canonInto(&b, in, false, false)
	return b.String()
}

func canonInto(b *strings.Builder, in []CV, math, keepWS bool) {
	for i, c := range in {
		if c.K == TWS {
			sig := keepWS
			if math {
				for _, j := range []int{i - 1, i + 1} {
					if j >= 0 && j < len(in) && (in[j].is(TDelim, "+") || in[j].is(TDelim, "-")) {
						sig = true
					}
				}
			}
			if sig {
				b.WriteString("\x1f_")
			}
			continue
		}
		b.WriteByte('\x1f')
		canonTok(b, c.Tok)
		if c.nested() {
			// url("x") is the same as url(x).
			if c.K == TFunc && strings.EqualFold(c.V, "url") {
				if s := noWS(c.Sub); len(s) == 1 && s[0].K == TString {
					str := b.String()
					b.Reset()
					b.WriteString(str[:strings.LastIndexByte(str, '\x1f')+1])
					canonTok(b, Tok{K: TURL, V: s[0].V})
					continue
				}
			}
			canonInto(b, c.Sub, math && c.K == TLParen || c.K == TFunc && isMathName(c.V), keepWS)
			b.WriteString("\x1f)")
		}
	}
}

func canonTok(b *strings.Builder, t Tok) {
	switch t.K {
	case TIdent:
		b.WriteString("i:" + t.V)
	case TFunc:
		b.WriteString("f:" + strings.ToLower(t.V))
	case TAt:
		b.WriteString("@:" + t.V)
	case THash:
		b.WriteString("#:" + t.V)
	case TString:
		b.WriteString("s:" + t.V)
	case TURL:
		b.WriteString("u:" + t.V)
	case TNum, TPerc, TDim:
		b.WriteString(kindName[t.K] + ":" + t.N + "|" + t.V)
	case TDelim:
		b.WriteString("d:" + t.V)
	default:
		b.WriteString(kindName[t.K])
	}
}

func isCombinator(c CV) bool {
	return c.is(TDelim, ">") || c.is(TDelim, "+") || c.is(TDelim, "~")
}

// isColumn returns whether the two values at i are the column combinator.
func isColumn(in []CV, i int) bool {
	return i >= 0 && i+1 < len(in) && in[i].is(TDelim, "|") && in[i+1].is(TDelim, "|")
}

// SplitComma splits component values at top-level commas.
func SplitComma(in []CV) [][]CV {
	var out [][]CV
	st := 0
	for i, c := range in {
		if c.K == TComma {
			out = append(out, in[st:i])
			st = i + 1
		}
	}
	return append(out, in[st:])
}

// CanonSelectorList renders a selector list: commas, compounds and combinators.
func CanonSelectorList(in []CV) string {
	var parts []string
	for _, s := range SplitComma(in) {
		parts = append(parts, CanonSelector(s))
	}
	return strings.Join(parts, "\x1e,")
}

// CanonSelector renders one complex selector. Remaining whitespace is the descendant combinator.
func CanonSelector(in []CV) string {
	in = trimWS(in)
	var b strings.Builder
	for i, c := range in {
		if c.K == TWS {
			if !isCombinator(in[i-1]) && !isCombinator(in[i+1]) && !isColumn(in, i-2) && !isColumn(in, i+1) {
				b.WriteString("\x1f_")
			}
			continue
		}
		b.WriteByte('\x1f')
		switch {
		case c.K == TFunc && strings.HasPrefix(strings.ToLower(c.V), "nth-"):
			b.WriteString("f:" + c.V + "(" + canonNth(c.Sub) + ")")
		case c.K == TFunc:
			b.WriteString("f:" + c.V + "(" + CanonSelectorList(c.Sub) + ")")
		case c.nested():
			canonTok(&b, c.Tok)
			b.WriteString(Canon(c.Sub) + "\x1f)")
		default:
			canonTok(&b, c.Tok)
		}
	}
	return b.String()
}

// canonNth evaluates An+B to its two coefficients.
func canonNth(in []CV) string {
	if a, n, ok := ParseNth(in); ok {
		return fmt.Sprintf("nth %d %d", a, n)
	}
	return Canon(in)
}

// ParseNth parses the An+B microsyntax from its text.
func ParseNth(in []CV) (a, bb int, ok bool) {
	var t strings.Builder
	for _, c := range trimWS(in) {
		switch c.K {
		case TWS:
			t.WriteByte(' ')
		case TNum:
			t.WriteString(c.N)
		case TDim:
			t.WriteString(c.N + c.V)
		case TIdent, TDelim:
			t.WriteString(c.V)
		default:
			return 0, 0, false
		}
	}
	s := strings.ToLower(t.String())
	switch s {
	case "even":
		return 2, 0, true
	case "odd":
		return 2, 1, true
	}
	num := func(s string) (int, bool) {
		if s == "" || len(s) > 9 {
			return 0, false
		}
		v := 0
		for _, r := range s {
			if !isDig(r) {
				return 0, false
			}
			v = v*10 + int(r-'0')
		}
		return v, true
	}
	sign := 1
	if strings.HasPrefix(s, "-") {
		sign, s = -1, s[1:]
	} else if strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	i := strings.IndexByte(s, 'n')
	if i < 0 {
		v, ok := num(s)
		return 0, sign * v, ok
	}
	a = 1
	if i > 0 {
		if a, ok = num(s[:i]); !ok {
			return 0, 0, false
		}
	}
	a *= sign
	rest := strings.Trim(s[i+1:], " ")
	if rest == "" {
		return a, 0, true
	}
	sign = 1
	if rest[0] == '-' {
		sign = -1
	} else if rest[0] != '+' {
		return 0, 0, false
	}
	v, ok := num(strings.TrimLeft(rest[1:], " "))
	return a, sign * v, ok
}

// CanonDecl renders a declaration.
func CanonDecl(d Decl) string {
	if d.Prop == "" {
		return "raw" + Canon(d.All)
	}
	var b strings.Builder
	b.WriteString("decl:" + d.Prop)
	if d.Imp {
		b.WriteString("!")
	}
	// A unicode range is only the same if nothing is inserted in between.
	canonInto(&b, d.Value, false, strings.EqualFold(d.Prop, "unicode-range"))
	return b.String()
}

// CanonRule renders a rule. Rules that may be omitted render as "".
func CanonRule(r Rule) string {
	var b strings.Builder
	if r.IsAt {
		b.WriteString("@" + r.At + " ")
		pre := r.Prelude
		if r.At == "import" && len(pre) > 0 {
			if t, ok := ImportTarget(pre); ok {
				b.WriteString("target:" + t)
				pre = pre[1:]
			}
		}
		b.WriteString(Canon(pre))
		if !r.HasBlk {
			return b.String() + ";"
		}
	} else {
		if len(r.Decls) == 0 {
			return ""
		}
		if r.Frame {
			b.WriteString(Canon(r.Prelude))
		} else {
			b.WriteString(CanonSelectorList(r.Prelude))
		}
	}
	b.WriteString("\x1d{")
	for _, d := range r.Decls {
		b.WriteString("\x1d" + CanonDecl(d))
	}
	for _, n := range r.Rules {
		if c := CanonRule(n); c != "" {
			b.WriteString("\x1d" + c)
		}
	}
	b.WriteString("\x1d}")
	return b.String()
}

// ImportTarget returns the url of an @import prelude.
func ImportTarget(pre []CV) (string, bool) {
	if len(pre) == 0 {
		return "", false
	}
	switch c := pre[0]; {
	case c.K == TString || c.K == TURL:
		return c.V, true
	case c.is(TFunc, "url"):
		if s := noWS(c.Sub); len(s) == 1 && s[0].K == TString {
			return s[0].V, true
		}
	}
	return "", false
}

// CanonSheet renders all rules.
func CanonSheet(rules []Rule) []string {
	var out []string
	for _, r := range rules {
		if c := CanonRule(r); c != "" {
			out = append(out, c)
		}
	}
	return out
}

// Show makes a canonical form readable.
func Show(in []string) string {
	s := strings.Join(in, "\n")
	for _, r := range []string{"\x1f", "\x1e", "\x1d"} {
		s = strings.ReplaceAll(s, r, " ")
	}
	return s
}

// Squash serialises a stylesheet the way the known finding K1 prints it: without whitespace around
// the operators inside of math functions.
func Squash(src string) string {
	toks, _ := Tokenize(src)
	cvs, _ := Nest(toks)
	q := &squasher{src: src}
	q.list(cvs, false)
	return q.b.String()
}

type squasher struct {
	b   strings.Builder
	src string
	end int // end of the last written token in src
	gap bool
}

func (q *squasher) tok(start, end int) {
	if start > q.end && !q.gap {
		q.b.WriteString("/**/") // there was a comment
	}
	q.gap = false
	q.b.WriteString(q.src[start:end])
	q.end = end
}

func (q *squasher) list(in []CV, math bool) {
	isOp := func(j int) bool {
		return j >= 0 && j < len(in) && in[j].K == TDelim && strings.Contains("+-*/", in[j].V)
	}
	isNum := func(j int) bool { return in[j].K == TNum || in[j].K == TDim || in[j].K == TPerc }
	for i, c := range in {
		if math && i > 0 && isNum(i-1) && isNum(i) {
			// Two numbers with nothing in between are separate values, e.g. 1-2px.
			q.b.WriteByte(' ')
			q.end, q.gap = c.Start, true
		}
		switch {
		case c.K == TWS && math && (isOp(i-1) || isOp(i+1)):
			q.end, q.gap = c.End, true
		case c.K == TWS:
			q.b.WriteByte(' ')
			q.end, q.gap = c.End, true
		case math && c.K == TDelim:
			q.gap = true // comments are dropped as well
			q.tok(c.Start, c.End)
			q.gap = true
		case !c.nested():
			q.tok(c.Start, c.End)
		default:
			open := c.Start + 1
			if c.K == TFunc {
				open = c.Open
			}
			q.tok(c.Start, open)
			q.list(c.Sub, math && c.K == TLParen || c.K == TFunc && isMathName(c.V))
			if c.Closed {
				q.gap = q.gap || math
				q.tok(c.End-1, c.End)
			}
		}
	}
}
