package main

// Rule structure, at-rules, media queries, imports and keyframes keep their meaning.

import "strings"

// rules has one member per kind of rule. The digit makes every use recognisable.
var ruleKinds = []string{
	"a#{k:v}", "a#,b#{k:v;l:w}", "a#{}", "a#{k:v;}", "@media (m#){a{k:v}}", "@media m#{a{k:v}b{k:v}}", "@media (m#){}", "@media{a#{k:v}}", "@media m#,n{a{}}", "@media (m#) {a{k:v;l:w;}}", "@keyframes n#{from{k:v}to{k:w}}", "@keyframes n#{0%,50%{k:v}to{}}", "@keyframes n#{}", "@-webkit-keyframes n#{from{k:v}}",
	"@font-face{k:v#}", "@font-face{}", "@import \"i#\";", "@import url(i#) m;", "@import 'i#' (m),n;", "@custom-media --c# (m);", "@page{k:v#}", "<!--", "-->", ";", "/*#*/", "@media (--c#){a{k:v}}", "a#:hover>b{k:calc(1px*2);--l:x}", ":root{--k#:v}", "@viewport{k:v#}",
}

// conds are media conditions in parentheses.
var features = []string{"(m)", "(m:1px)", "(m: w)", "(min-m:1.5dpcm)", "(m>1px)", "(m >= 1px)", "(1px<m)", "(1px <=m<= 2px)", "(1px<m<2px)", "(1px>=m>=0)", "(--c)", "(m:-1px)", "(-w-m:2)", "(m<.5px)", "(M:1PX)", "( m )", "(m :1px)"}
var smallFeatures = []string{"(m)", "(n:1px)", "(o>1px)", "(1px<p<2px)", "(--c)"}

// condition generates a media condition.
func condition(x *X, depth, max int) string {
	f := smallFeatures
	atom := func() string {
		if depth > 0 && x.Free(2) == 1 {
			return "(" + condition(x, depth-1, 1) + ")"
		}
		return f[x.Free(len(f))]
	}
	switch x.Free(4) {
	case 0:
		return atom()
	case 1:
		return "not " + atom()
	case 2:
		s := atom()
		for i := x.Free(max) + 1; i > 0; i-- {
			s += " and " + atom()
		}
		return s
	default:
		s := atom()
		for i := x.Free(max) + 1; i > 0; i-- {
			s += " or " + atom()
		}
		return s
	}
}

// mediaQuery generates a media query.
func mediaQuery(x *X, depth int) string {
	switch x.Free(3) {
	case 0:
		if depth > 0 && !x.thorough {
			return condition(x, depth, 1)
		}
		return condition(x, depth, 2)
	case 1:
		return x.FreePick("screen", "not print", "only screen", "all")
	default:
		s := x.FreePick("screen", "not print", "only screen")
		for i := x.Free(2) + 1; i > 0; i-- {
			s += " and " + smallFeatures[x.Free(len(smallFeatures))]
		}
		return s
	}
}

func init() {
	var prec []string
	prec = append(prec, ruleKinds...)
	register(&Check{
		ID:   "C04",
		Rule: "all sheets of up to three rules of every kind at top level and of style rules in blocks, all media query lists, keyframe selector lists and import conditions of bounded size; distinct by text",
		Parts: []Part{
			{Name: "three rules of 29 kinds", Dev: [2]int{1, 2}, Body: func(x *X) {
				var b strings.Builder
				for i := x.Free(3); i >= 0; i-- {
					b.WriteString(strings.Replace(prec[x.Free(len(prec))], "#", string(rune('1'+i)), -1))
					b.WriteString(x.Pick("", " ", "\n", "/**/", "\r\n\t"))
				}
				valid(x, b.String())
			}},
			{Name: "four rules of 12 kinds", Thorough: true, Body: func(x *X) {
				kinds := []string{ruleKinds[0], ruleKinds[1], ruleKinds[2], ruleKinds[4], ruleKinds[6], ruleKinds[10], ruleKinds[14], ruleKinds[16], ruleKinds[19], ruleKinds[23], ruleKinds[25], ruleKinds[27]}
				var b strings.Builder
				for i := 0; i < 5; i++ {
					b.WriteString(strings.Replace(kinds[x.Free(len(kinds))], "#", string(rune('1'+i)), -1))
				}
				valid(x, b.String())
			}},
			{Name: "rules in @media and frames in @keyframes", Dev: [2]int{2, 3}, Body: func(x *X) {
				inner := []string{"a{k:v}", "b,c{k:v;l:w}", "d{}", "e:not(f) g{k:f(1,2)}", "h{k:v !important}", "i{k:{}}"}
				frames := []string{"from{k:v}", "to{k:v;l:w}", "50%{k:v}", "0%,to{k:v}", "12.5% , 50%{k:v}", "from{}"}
				set, head := inner, x.FreePick("@media (m)", "@media")
				if x.Free(2) == 1 {
					set, head = frames, "@keyframes "+x.Pick("n", "-n", "\\6e m", "from2", "\"n\"")
				}
				s := head + x.Pick("", " ", "/**/") + "{" + x.Pick("", " ")
				for i := x.Free(4); i > 0; i-- {
					s += set[x.Free(len(set))] + x.Pick("", " ", "\n", "/**/")
				}
				valid(x, x.Pick("", "y{k:v}")+s+"}"+x.Pick("", "z{k:v}"))
			}},
			{Name: "media features and their spacing", Dev: [2]int{1, 2}, Body: func(x *X) {
				n := x.Free(3)
				s := x.Pick("", "not ", "screen and ", "only screen and ", "n,") + features[x.Free(len(features))]
				for i := 0; i < n; i++ {
					s += x.Pick(" and ", ",", " , ", "/**/ and/**/ ", "\nand\n") + features[x.Free(len(features))]
				}
				head := x.Pick("@media ", "@media", "@media/**/", "@import 'i' ", "@custom-media --d ")
				if head == "@media" && s[0] != '(' {
					head += " "
				}
				if strings.Contains(head, "i") && strings.Contains(head, "@m") {
					valid(x, head+s+x.Pick("{a{k:v}}", " {a{k:v}}"))
					return
				}
				if strings.Contains(head, "custom") && strings.Contains(s, ",") {
					x.Skip() // a list of queries is reported as unsupported
				}
				valid(x, head+s+x.Pick(";", " ;"))
			}},
			{Name: "media query lists", Dev: [2]int{0, 0}, Body: func(x *X) {
				valid(x, "@media "+mediaQuery(x, 1)+"{a{k:v}}")
			}},
			{Name: "two media queries", Thorough: true, Body: func(x *X) {
				valid(x, "@media "+mediaQuery(x, 0)+","+mediaQuery(x, 0)+"{a{k:v}}")
			}},
			{Name: "nested conditions", Thorough: true, Body: func(x *X) {
				valid(x, "@media "+condition(x, 2, 1)+"{a{k:v}}")
			}},
			{Name: "names of at-rules", Dev: [2]int{1, 1}, Body: func(x *X) {
				r := x.FreePick(atRules...)
				known := strings.Contains(r, "keyframes n") && r[:3] != "@-m" && r[:3] != "@-o" || strings.HasPrefix(r, "@font-face") || strings.HasPrefix(r, "@page {") && !strings.Contains(r, "@top") || r == "@keyframes \"n\" { from{k:v} }"
				if r2 := x.Free(len(atRules) + 1); r2 > 0 {
					r += atRules[r2-1]
					known = false
				}
				css := x.Pick("", "y{k:v}", "<!--") + r + x.Pick("", "z{k:v}", "-->", " ")
				if known {
					valid(x, css)
					return
				}
				preserved(x, css)
			}},
			{Name: "names of keyframes", Dev: [2]int{0, 0}, Body: func(x *X) {
				name := x.FreePick(tagNames...)
				if x.Free(2) == 1 {
					name = x.FreePick("\"n\"", "'n'", "\"a b\"", "\"none\"", "'initial'", "\"\"", "\"a\\\"b\"", "\"1\"", "'é'", "none", "Initial", "--n")
				}
				head := "@" + x.FreePick("keyframes", "-webkit-keyframes") + x.FreePick(" ", "/**/ ", "\n") + name + x.FreePick("", " ", "/**/")
				valid(x, head+x.FreePick("{}", "{from{k:v}}", "{ 0% , 50.5%,to{k:v}to{l:w} }"))
			}},
			{Name: "names of media features and types", Dev: [2]int{1, 2}, Body: func(x *X) {
				q := ""
				switch x.Free(3) {
				case 0:
					q = "(" + x.FreePick(mediaFeatures...) + ")"
					q = strings.Replace(x.FreePick("$", "not $", "$ and (m)", "(m) or $", "screen and $", "m,$", "($)", "(m) and (not $)", "only print and (m) and $"), "$", q, 1)
				case 1:
					q = "(" + x.FreePick(mediaFeatures...) + ")" + x.FreePick(" and ", " or ", ",") + "(" + x.FreePick(mediaFeatures...) + ")"
				case 2:
					q = x.FreePick("", "not ", "only ") + x.FreePick(mediaTypes...) + x.FreePick("", " and (m)", ",print", " and (m:1px) and (n)")
				}
				preserved(x, strings.Replace(x.Pick("@media $ {a{k:v}}", "@import 'i' $;"), "$", q, 1))
			}},
			{Name: "addresses of imports", Dev: [2]int{1, 2}, Body: func(x *X) {
				valid(x, importOf(x)+x.Pick("", "a{k:v}", importOf(x)))
			}},
			{Name: "imports", Dev: [2]int{1, 2}, Body: func(x *X) {
				s := ""
				for i := x.Free(2) + 1; i > 0; i-- {
					sp := x.Pick(" ", "", "/**/", "\n")
					target := x.FreePick(`"i"`, "'i'", `"i j"`, "url(i)", `url("i")`, "url( 'i' )", "url()", `""`, `"i\"j"`, `"http://h/i.css"`)
					if sp == "" && target[0] == 'u' {
						x.Skip()
					}
					s += "@import" + sp + target
					if q := x.FreePick("", "m", "(m)", "m,(n)", "not m", "m and (n:1px)"); q != "" {
						s += x.Pick(" ", "/**/ ", "\n") + q
					}
					s += x.Pick("", " ") + ";" + x.Pick("", "a{k:v}", "\n")
				}
				valid(x, s)
			}},
		},
	})
}

// importOf generates an import of an address.
func importOf(x *X) string {
	a := addresses[x.Free(len(addresses))]
	target := ""
	switch x.Free(5) {
	case 0:
		target = ` "` + a + `"`
	case 1:
		target = " '" + strings.Replace(strings.Replace(a, `\"`, `"`, -1), "'", `\'`, -1) + "'"
	case 2:
		target = ` url("` + a + `")`
	case 3:
		target = " url( '" + strings.Replace(a, "'", `\'`, -1) + "' )"
	case 4:
		if strings.ContainsAny(a, "\n") {
			x.Skip()
		}
		r := strings.NewReplacer(`\"`, `\"`, "'", `\'`, "(", `\(`, ")", `\)`, " ", `\ `, "\t", `\9 `)
		if strings.HasPrefix(a, " ") || strings.HasSuffix(a, " ") {
			x.Skip()
		}
		target = " url(" + r.Replace(a) + ")"
	}
	return "@import" + target + x.Pick("", " screen", " (m)", " not print and (m:1px)") + ";"
}
