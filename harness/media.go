package main

// A reference evaluator for media query lists.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// mnode is a part of a media query: and, or, not, a media type, a comparison of a feature, or a flag.
type mnode struct {
	op   string // and or not type flag < <= > >= ref
	kids []*mnode
	name string
	unit string
	val  float64
}

func (n *mnode) walk(f func(*mnode)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// feature identifies what a comparison looks at.
func (n *mnode) feature() string { return n.name + " in " + n.unit }

type menv struct {
	num   map[string]float64
	flags map[string]bool
	typ   string
	defs  map[string]*mnode // custom media
}

const eps = 1e-7

func (n *mnode) eval(e *menv) bool {
	v := e.num[n.feature()]
	switch n.op {
	case "and":
		for _, k := range n.kids {
			if !k.eval(e) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range n.kids {
			if k.eval(e) {
				return true
			}
		}
		return false
	case "not":
		return !n.kids[0].eval(e)
	case "type":
		return n.name == "all" || n.name == e.typ
	case "flag":
		return e.flags[n.name]
	case "ref":
		if d := e.defs[n.name]; d != nil {
			return d.eval(e)
		}
		return e.flags[n.name]
	case "<":
		return v < n.val-eps
	case "<=":
		return v < n.val+eps
	case ">":
		return v > n.val+eps
	case ">=":
		return v > n.val-eps
	}
	panic(n.op)
}

type mparser struct {
	in  []CV
	err string
}

func (p *mparser) fail(f string, args ...interface{}) *mnode {
	if p.err == "" {
		p.err = fmt.Sprintf(f, args...)
	}
	return &mnode{op: "flag", name: "error"}
}

func (p *mparser) peek() CV {
	if len(p.in) == 0 {
		return CV{}
	}
	return p.in[0]
}

func (p *mparser) keyword(k string) bool {
	if p.peek().is(TIdent, k) {
		p.in = p.in[1:]
		return true
	}
	return false
}

// parseMedia parses a media query list. The whole list is one or.
func parseMedia(in []CV) (*mnode, string) {
	in = trimWS(in)
	list := &mnode{op: "or"}
	if len(in) == 0 {
		return &mnode{op: "and"}, ""
	}
	for _, q := range SplitComma(in) {
		p := &mparser{in: noWS(q)}
		n := p.query()
		if len(p.in) > 0 && p.err == "" {
			p.fail("unexpected %s in a media query", p.peek().V+kindName[p.peek().K])
		}
		if p.err != "" {
			return nil, p.err
		}
		list.kids = append(list.kids, n)
	}
	return list, ""
}

func (p *mparser) query() *mnode {
	negate := false
	if c := p.peek(); c.K == TIdent {
		if c.is(TIdent, "not") && len(p.in) > 1 && p.in[1].K == TIdent {
			negate = true
			p.in = p.in[1:]
		} else if c.is(TIdent, "not") {
			return p.condition()
		} else {
			p.keyword("only")
		}
		c = p.peek()
		if c.K != TIdent || c.is(TIdent, "and") || c.is(TIdent, "or") || c.is(TIdent, "not") || c.is(TIdent, "only") {
			return p.fail("a media type is missing")
		}
		p.in = p.in[1:]
		n := &mnode{op: "and", kids: []*mnode{{op: "type", name: strings.ToLower(c.V)}}}
		for p.keyword("and") {
			if p.keyword("not") {
				n.kids = append(n.kids, &mnode{op: "not", kids: []*mnode{p.parens()}})
				break
			}
			n.kids = append(n.kids, p.parens())
		}
		if negate {
			return &mnode{op: "not", kids: []*mnode{n}}
		}
		return n
	}
	return p.condition()
}

func (p *mparser) condition() *mnode {
	if p.keyword("not") {
		return &mnode{op: "not", kids: []*mnode{p.parens()}}
	}
	n := p.parens()
	for _, op := range []string{"and", "or"} {
		if p.peek().is(TIdent, op) {
			n = &mnode{op: op, kids: []*mnode{n}}
			for p.keyword(op) {
				n.kids = append(n.kids, p.parens())
			}
			break
		}
	}
	return n
}

func mvalue(c CV) (v float64, unit string, ok bool) {
	switch c.K {
	case TNum:
	case TDim:
		unit = strings.ToLower(c.V)
	case TPerc:
		unit = "%"
	default:
		return 0, "", false
	}
	v, err := strconv.ParseFloat(c.N, 64)
	return v, unit, err == nil
}

var flipped = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}

func (p *mparser) parens() *mnode {
	c := p.peek()
	if c.K != TLParen {
		return p.fail("expected ( in a media query")
	}
	p.in = p.in[1:]
	sub := noWS(c.Sub)
	if len(sub) == 0 {
		return p.fail("empty feature")
	}
	if sub[0].K == TLParen || sub[0].is(TIdent, "not") && len(sub) > 1 && sub[1].K == TLParen {
		q := &mparser{in: sub}
		n := q.condition()
		if len(q.in) > 0 {
			q.fail("unexpected content in parentheses")
		}
		if q.err != "" {
			p.fail("%s", q.err)
		}
		return &mnode{op: "or", kids: []*mnode{n}} // keeps the parentheses apart from what is in them
	}
	// Operands and operators of a range.
	var operands []CV
	var ops []string
	for i := 0; i < len(sub); i++ {
		s := sub[i]
		if s.is(TDelim, "<") || s.is(TDelim, ">") {
			op := s.V
			if i+1 < len(sub) && sub[i+1].is(TDelim, "=") && sub[i+1].Start == s.End {
				op += "="
				i++
			}
			ops = append(ops, op)
			continue
		}
		operands = append(operands, s)
	}
	if len(ops) > 0 {
		cmp := func(name CV, op string, value CV) *mnode {
			v, unit, ok := mvalue(value)
			if name.K != TIdent || !ok {
				return p.fail("invalid range")
			}
			return &mnode{op: op, name: strings.ToLower(name.V), unit: unit, val: v}
		}
		switch {
		case len(ops) == 1 && len(operands) == 2 && operands[0].K == TIdent:
			return cmp(operands[0], ops[0], operands[1])
		case len(ops) == 1 && len(operands) == 2:
			return cmp(operands[1], flipped[ops[0]], operands[0])
		case len(ops) == 2 && len(operands) == 3 && ops[0][0] == ops[1][0]:
			return &mnode{op: "and", kids: []*mnode{cmp(operands[1], flipped[ops[0]], operands[0]), cmp(operands[1], ops[1], operands[2])}}
		}
		return p.fail("invalid range")
	}
	if sub[0].K != TIdent {
		return p.fail("a feature without a name")
	}
	name := strings.ToLower(sub[0].V)
	if len(sub) == 1 {
		if strings.HasPrefix(name, "--") {
			return &mnode{op: "ref", name: sub[0].V}
		}
		return &mnode{op: "flag", name: name}
	}
	if sub[1].K != TColon || len(sub) < 3 {
		return p.fail("invalid feature")
	}
	if len(sub) == 3 && (strings.HasPrefix(name, "min-") || strings.HasPrefix(name, "max-")) {
		if v, unit, ok := mvalue(sub[2]); ok {
			return &mnode{op: map[string]string{"min-": ">=", "max-": "<="}[name[:4]], name: name[4:], unit: unit, val: v}
		}
	}
	return &mnode{op: "flag", name: name + ":" + Canon(sub[2:])}
}

// mediaDiff evaluates two query lists in every environment that can tell them apart: all combinations of
// media types, flags, and values of every feature at, next to and around every number that it is compared to.
// Values within .001 of a number of the first list are left out, except for the number itself.
func mediaDiff(a, b *mnode, defs map[string]*mnode) (diff string, envs int) {
	bounds := map[string]map[float64]bool{}
	flags := map[string]bool{}
	types := map[string]bool{}
	seen := map[string]bool{}
	var collect func(n *mnode)
	collect = func(n *mnode) {
		n.walk(func(n *mnode) {
			switch n.op {
			case "<", "<=", ">", ">=":
				if bounds[n.feature()] == nil {
					bounds[n.feature()] = map[float64]bool{}
				}
				bounds[n.feature()][n.val] = true
			case "flag":
				flags[n.name] = true
			case "type":
				if n.name != "all" {
					types[n.name] = true
				}
			case "ref":
				if seen[n.name] {
					return
				}
				seen[n.name] = true
				if d := defs[n.name]; d != nil {
					collect(d)
				} else {
					flags[n.name] = true
				}
			}
		})
	}
	collect(a)
	given := map[string]map[float64]bool{}
	for f, bs := range bounds {
		given[f] = map[float64]bool{}
		for v := range bs {
			given[f][v] = true
		}
	}
	collect(b)
	e := &menv{num: map[string]float64{}, flags: map[string]bool{}, defs: defs}
	typs := []string{"none of them"}
	for t := range types {
		typs = append(typs, t)
	}
	sort.Strings(typs)
	var names, fl []string
	values := map[string][]float64{}
	for f, bs := range bounds {
		names = append(names, f)
		cand := map[float64]bool{}
		for v := range bs {
			for _, d := range []float64{0, .0011, -.0011, 1, -1} {
				cand[v+d] = true
			}
		}
		for v := range cand {
			ok := true
			for w := range given[f] {
				if d := math.Abs(v - w); d > eps && d < .00105 {
					ok = false
				}
			}
			if ok {
				values[f] = append(values[f], v)
			}
		}
		sort.Float64s(values[f])
	}
	for f := range flags {
		fl = append(fl, f)
	}
	sort.Strings(names)
	sort.Strings(fl)
	var rec func(i int) string
	rec = func(i int) string {
		switch {
		case i < len(names):
			for _, v := range values[names[i]] {
				e.num[names[i]] = v
				if d := rec(i + 1); d != "" {
					return d
				}
			}
		case i < len(names)+len(fl):
			for _, v := range []bool{false, true} {
				e.flags[fl[i-len(names)]] = v
				if d := rec(i + 1); d != "" {
					return d
				}
			}
		default:
			for _, t := range typs {
				e.typ = t
				envs++
				if x, y := a.eval(e), b.eval(e); x != y {
					return fmt.Sprintf("with %v, %v and media type %s, the query is %v before and %v after", e.num, e.flags, t, x, y)
				}
			}
		}
		return ""
	}
	return rec(0), envs
}
