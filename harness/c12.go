package main

// calc() reduction preserves the computed value.

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// mathVal is the result of a calculation. The exact value is only known for a single unit.
type mathVal struct {
	kind  int
	v     *big.Rat
	unit  string
	scale float64 // the largest magnitude that took part
	lone  bool    // consists of one operand or has a nested calc() that does: not necessarily reduced
}

const (
	mSingle  = iota // a number with a unit
	mUnknown        // mixed units or operands that aren't numbers
	mMaybe          // the same, and it may be ill-typed
	mIll
)

type mathParser struct {
	in   []CV
	vars map[string]string
	bad  bool
}

func (p *mathParser) next() (CV, bool) {
	if len(p.in) == 0 {
		return CV{}, false
	}
	return p.in[0], true
}

func worse(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mag(r *big.Rat) float64 {
	f, _ := r.Float64()
	return math.Abs(f)
}

func combine(a, b mathVal, op string) mathVal {
	r := mathVal{kind: worse(a.kind, b.kind), scale: math.Max(a.scale, b.scale), lone: a.lone || b.lone}
	if r.kind == mIll {
		return r
	}
	zero := op == "/" && b.kind == mSingle && b.unit == "" && b.v.Sign() == 0
	if r.kind != mSingle {
		if zero || op == "/" && b.kind == mSingle && b.unit != "" || op == "/" && b.kind != mSingle || op == "*" && a.kind != mSingle && b.kind == mSingle && b.unit != "" || op == "*" && b.kind != mSingle && a.kind == mSingle && a.unit != "" || op == "*" && a.kind != mSingle && b.kind != mSingle {
			r.kind = mMaybe
		}
		if op == "+" || op == "-" {
			r.kind = worse(r.kind, mUnknown)
			if a.kind == mSingle && a.unit == "" || b.kind == mSingle && b.unit == "" {
				r.kind = mMaybe
			}
		}
		return r
	}
	r.unit = a.unit
	switch op {
	case "+", "-":
		if a.unit != b.unit {
			r.kind = mUnknown
			if a.unit == "" || b.unit == "" {
				r.kind = mIll
			}
			return r
		}
		if op == "+" {
			r.v = new(big.Rat).Add(a.v, b.v)
		} else {
			r.v = new(big.Rat).Sub(a.v, b.v)
		}
	case "*":
		if a.unit != "" && b.unit != "" {
			r.kind = mIll
			return r
		}
		r.unit = a.unit + b.unit
		r.v = new(big.Rat).Mul(a.v, b.v)
	case "/":
		if b.unit != "" || zero {
			r.kind = mIll
			return r
		}
		r.v = new(big.Rat).Quo(a.v, b.v)
	}
	r.scale = math.Max(r.scale, mag(r.v))
	return r
}

func (p *mathParser) sum() mathVal {
	a := p.product()
	for {
		c, ok := p.next()
		if !ok || !c.is(TDelim, "+") && !c.is(TDelim, "-") {
			return a
		}
		p.in = p.in[1:]
		a = combine(a, p.product(), c.V)
	}
}

func (p *mathParser) product() mathVal {
	a := p.operand()
	for {
		c, ok := p.next()
		if !ok || !c.is(TDelim, "*") && !c.is(TDelim, "/") {
			return a
		}
		p.in = p.in[1:]
		a = combine(a, p.operand(), c.V)
	}
}

// evalMath evaluates the contents of calc() or parentheses.
func evalMath(in []CV, vars map[string]string) (mathVal, bool) {
	p := &mathParser{in: noWS(in), vars: vars}
	n := len(p.in)
	v := p.sum()
	if n == 1 && !(noWS(in)[0].K == TLParen) {
		v.lone = true
	}
	return v, !p.bad && len(p.in) == 0
}

func (p *mathParser) operand() mathVal {
	c, ok := p.next()
	if !ok {
		p.bad = true
		return mathVal{kind: mUnknown}
	}
	p.in = p.in[1:]
	unit := ""
	switch c.K {
	case TNum:
	case TPerc:
		unit = "%"
	case TDim:
		unit = c.V
	case TLParen:
		v, ok := evalMath(c.Sub, p.vars)
		if len(noWS(c.Sub)) == 1 {
			v.lone = false
		}
		p.bad = p.bad || !ok
		return v
	case TFunc:
		if c.V == "calc" {
			v, ok := evalMath(c.Sub, p.vars)
			p.bad = p.bad || !ok
			if v.lone && v.kind == mSingle {
				return mathVal{kind: mMaybe, lone: true} // calc(1px) isn't reduced
			}
			return v
		}
		if a := noWS(c.Sub); c.V == "var" && len(a) > 0 && p.vars[a[0].V] != "" {
			t, _ := Tokenize(p.vars[a[0].V])
			cv, _ := Nest(t)
			q := &mathParser{in: cv}
			return q.operand()
		}
		return mathVal{kind: mUnknown}
	default:
		return mathVal{kind: mUnknown}
	}
	v, ok2 := new(big.Rat).SetString(c.N)
	if !ok2 {
		p.bad = true
		return mathVal{kind: mUnknown}
	}
	return mathVal{v: v, unit: unit, scale: mag(v)}
}

// calcs lists the outermost calc() in a value.
func calcs(in []CV) (out []CV) {
	for _, c := range in {
		if c.K == TFunc && c.V == "calc" {
			out = append(out, c)
			continue
		}
		out = append(out, calcs(c.Sub)...)
	}
	return
}

func init() {
	// check compiles an expression put in place of $.
	check := func(x *X, expr, form string, withVars bool) {
		css := strings.Replace(form, "$", expr, 1)
		cfg, vars := 48, map[string]string(nil)
		if withVars {
			css = ":root{--x:3px}" + css
			cfg, vars = 60, map[string]string{"--x": "3px"}
		}
		x.Case(fmt.Sprint(cfg, css))
		toks, _ := Tokenize(expr)
		nested, _ := Nest(toks)
		v, ok := evalMath(nested, vars)
		if !ok {
			x.Fail("harness: can't evaluate %s", expr)
			return
		}
		res := x.CompileOne(css, Cfg{Tr: trConfig(cfg)})
		if res.Panic != "" {
			x.Fail("%s", res.Panic)
			return
		}
		out, ok := res.Only()
		if !ok {
			x.Fail("no output: %s", res.ErrText())
			return
		}
		x.Validated()
		x.Outcome(out)
		if n := len(res.Errs); n > 0 && v.kind != mIll && v.kind != mMaybe {
			x.Fail("something is reported for a valid expression: %s", res.ErrText())
			return
		} else if n == 0 && v.kind == mIll {
			x.Fail("an ill-typed expression is not reported\noutput: %s", out)
			return
		}
		if len(res.Errs) > 0 {
			x.Tally("reported")
		}
		unreduced := css
		if withVars {
			unreduced = strings.Replace(strings.TrimPrefix(css, ":root{--x:3px}"), "var(--x)", "3px", -1)
		}
		diff, known := SheetDiff(unreduced, out)
		if diff == "" || len(known) > 0 {
			if v.kind == mSingle && !v.lone {
				x.Fail("an expression with a single unit is not reduced\noutput: %s", out)
			} else if diff != "" {
				x.Explained(known, "the unreduced expression differs\noutput: %s\n%s", out, diff)
			}
			return
		}
		if v.kind != mSingle || v.lone {
			// Nested calculations are reduced on their own.
			if inner := innerReduced(expr, vars); inner != expr {
				unreduced = strings.Replace(form, "$", inner, 1)
				if diff, known = SheetDiff(unreduced, out); diff == "" {
					return
				} else if len(known) > 0 {
					x.Explained(known, "the unreduced expression differs\noutput: %s\n%s", out, diff)
					return
				}
			}
			x.Fail("an expression that can't be reduced is changed\noutput: %s\n%s", out, diff)
			return
		}
		// The output has to have exactly one number in place of the calculation.
		pre, post := strings.SplitN(form, "calc($)", 2)[0], strings.SplitN(form, "calc($)", 2)[1]
		if !strings.HasPrefix(out, pre) || !strings.HasSuffix(out, post) || len(out) < len(pre)+len(post) {
			x.Fail("something else than the expression is changed\noutput: %s", out)
			return
		}
		got, _ := Tokenize(out[len(pre) : len(out)-len(post)])
		if len(got) != 1 || got[0].K != TNum && got[0].K != TDim && got[0].K != TPerc {
			x.Fail("the expression is not replaced by a value\noutput: %s", out)
			return
		}
		unit := got[0].V
		if got[0].K == TPerc {
			unit = "%"
		} else if got[0].K == TNum {
			unit = ""
		}
		w, ok := new(big.Rat).SetString(got[0].N)
		if !ok || unit != v.unit {
			x.Fail("the unit is %q instead of %q\noutput: %s", unit, v.unit, out)
			return
		}
		if d := mag(new(big.Rat).Sub(w, v.v)); d > 1e-12*v.scale {
			x.Fail("the value is %s instead of %s\noutput: %s", got[0].N, v.v.FloatString(12), out)
		}
	}
	// expression joins operands and puts up to two pairs of parentheses in.
	expression := func(x *X, operands []CVText, n, pairs int) string {
		before, after := make([]string, n), make([]string, n)
		add := func(i, j int) {
			before[i] = "(" + before[i]
			after[j] += ")"
		}
		if p := x.Free(pairs + 1); p > 0 && n > 1 {
			i := x.Free(n)
			j := i + x.Free(n-i)
			add(i, j)
			if p > 1 {
				k := x.Free(n)
				l := k + x.Free(n-k)
				if !(k >= i && l <= j || k > j || l < i) {
					x.Skip()
				}
				if k >= i && l <= j {
					// the second pair is inside
					before[k] = before[k] + "("
					after[l] = ")" + after[l]
				} else {
					add(k, l)
				}
			}
		}
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				op := x.FreePick("+", "-", "*", "/")
				if op == "+" || op == "-" {
					s += x.Pick(" ", "\n", " /**/ ") + op + x.Pick(" ", "  ", "\t")
				} else {
					s += x.Pick("", " ", "/**/") + op + x.Pick("", " ")
				}
			}
			s += before[i] + string(operands[x.Free(len(operands))]) + after[i]
		}
		return s
	}
	all := []CVText{"1px", "2", "3%", "4em", "var(--x)", "-1.5px", "0", "+.5", "calc(1px + 2px)", "1e2px", "f(1)", "calc(2*2)", "10PX", "calc(5px)"}
	numeric := []CVText{"2px", "3", "4", "5em"}
	forms := []string{"a{k:calc($)}", "a{k:b calc($)}", "a{k:f(calc($),c)}", "a{k:calc($)!important}", "a{k:[calc($)]}", "@media (m){a{k:calc($)}}", "@font-face{k:calc($)}", "@keyframes n{from{k:calc($)}}", "a{--k:calc($)}", "a{k:min(calc($),1px)}", "a{k:l,calc($) m}", "a{k:f(g(calc($)))}"}
	register(&Check{
		ID:   "C12",
		Rule: "all expressions of up to three (thorough: four) operands out of 14 and four (thorough: five) out of 4, with all operators and up to two pairs of parentheses, in 12 places, with and without variables, all pairs of number spellings and of units, all pairs of 21 particular numbers with units and a third operand; distinct by text",
		Parts: []Part{
			{Name: "three operands", Dev: [2]int{0, 1}, Body: func(x *X) {
				n := x.Free(3) + 1
				ops := all
				if !x.thorough {
					ops = all[:9]
				}
				check(x, expression(x, ops, n, 1), x.Pick(forms...), x.Bool())
			}},
			{Name: "two operands everywhere", Dev: [2]int{0, 2}, Body: func(x *X) {
				n := x.Free(2) + 1
				check(x, expression(x, all, n, 1), forms[x.Free(len(forms))], x.Bool())
			}},
			{Name: "four numbers", Dev: [2]int{0, 0}, Body: func(x *X) {
				nums := numeric
				if !x.thorough {
					nums = []CVText{"2px", "3", "5em"}
				}
				pairs := 1
				if x.thorough {
					pairs = 2
				}
				check(x, expression(x, nums, 4, pairs), forms[0], false)
			}},
			{Name: "five numbers", Thorough: true, Body: func(x *X) {
				check(x, expression(x, []CVText{"8px", "4", "2"}, 5, 2), forms[0], false)
			}},
			{Name: "four operands", Thorough: true, Body: func(x *X) {
				check(x, expression(x, []CVText{"1px", "2", "3%", "var(--x)", "0", "calc(1px + 2px)"}, 4, 1), forms[0], false)
			}},
			{Name: "numbers and units of real stylesheets", Dev: [2]int{0, 0}, Body: func(x *X) {
				op := x.FreePick("+", "-", "*", "/")
				if x.Free(2) == 0 {
					a, b, u := x.FreePick(numbers...), x.FreePick(numbers...), x.FreePick("", "px")
					if strings.Contains(a+b, "e400") {
						x.Skip() // out of range
					}
					check(x, a+u+" "+op+" "+b+u, forms[0], false)
					return
				}
				units := append([]string{""}, unitNames...)
				u, v := x.FreePick(units...), x.FreePick(units...)
				check(x, "3"+u+" "+op+" "+x.FreePick("2", "-.5")+v, forms[0], false)
			}},
			{Name: "particular numbers", Dev: [2]int{0, 0}, Body: func(x *X) {
				nums := []string{"0", "1", "2", "3", "10", "16", "50", "60", "96", "100", "180", "255", "360", "1000", "-1", "-100", "0.5", ".01", "1.0", "+1", "1e2"}
				u, v := x.FreePick("", "px", "%", "em", "rem", "vw", "deg", "s", "fr"), x.FreePick("", "px", "%", "em", "vh")
				op := x.FreePick("+", "-", "*", "/")
				a, b := x.FreePick(nums...), x.FreePick(nums...)
				third := x.FreePick("", " * 2", " + 1px", "/100", "*100%")
				if u == "em" && strings.Contains(a, "e") || v == "em" && strings.Contains(b, "e") {
					x.Skip()
				}
				if third != "" && !x.thorough && (u != "" && u != "px" && u != "%" || v != "" && v != "px" && v != "%") {
					x.Skip()
				}
				check(x, a+u+" "+op+" "+b+v+third, forms[0], false)
			}},
			{Name: "numbers", Dev: [2]int{0, 0}, Body: func(x *X) {
				nums := []CVText{"0", "-0", "1", "0.1", ".2", "0.3", "1e3", "1e-3", "-2.5E2", "123456789", "0.000001", "99999999999", "1e15", "1e-9", "+3", "007", "1.50"}
				unit := x.FreePick("", "px", "%", "e", "rem", "Q", "--u", "é")
				op := x.FreePick("+", "-", "*", "/")
				a, b := string(nums[x.Free(len(nums))]), string(nums[x.Free(len(nums))])
				if !x.thorough && unit != "" && unit != "px" && unit != "%" {
					x.Skip()
				}
				if unit == "e" && strings.ContainsAny(a+b, "Ee") {
					x.Skip()
				}
				if op == "+" || op == "-" {
					b += unit
				}
				check(x, a+unit+" "+op+" "+b, forms[0], false)
			}},
		},
	})
}

// CVText is the text of an operand.
type CVText string

// innerReduced reduces the nested calculations of an expression that can't be reduced itself.
func innerReduced(expr string, vars map[string]string) string {
	toks, _ := Tokenize(expr)
	in, _ := Nest(toks)
	var b strings.Builder
	last := 0
	var visit func(in []CV)
	visit = func(in []CV) {
		for _, c := range in {
			if c.K == TFunc && c.V == "calc" {
				if v, ok := evalMath(c.Sub, vars); ok && v.kind == mSingle && !v.lone {
					f, _ := v.v.Float64()
					b.WriteString(expr[last:c.Start] + fmt.Sprint(f) + v.unit)
					last = c.End
					continue
				}
			}
			visit(c.Sub)
		}
	}
	visit(in)
	b.WriteString(expr[last:])
	out := b.String()
	for name, val := range vars {
		out = strings.Replace(out, "var("+name+")", val, -1)
	}
	return out
}
