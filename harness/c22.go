package main

import "strings"

// Lexemes with one member per token kind and lexical hazard.
var lexemes = []string{
	"a", "1", "1px", "50%", `"s"`, "#h", ":", ";", ",", "(", ")", "{", "}", "[", "]", " ", ".", "*", "+", "-", ">", "=", "!important",
	"f(", "url(u)", "@x", "--v", "/**/", "/", "n", "not", "and", "\\", "\n", "|", "!", "'", "<!--", "%",
}

// small is a subset for deeper sequences.
var small = []string{"a", "1", ":", ";", ",", "(", ")", "{", "}", "[", " ", ".", "+", "f(", "@x", `"s"`, "=", "/**/"}

// contexts put a token sequence ($) everywhere in a stylesheet.
var contexts = []string{
	"$", "$ b{c:d}", "q{r:s} $", "q{r:s} $ b{c:d}", "a$ b{c:d}", "a{$} b{c:d}", "a{x:$} b{c:d}", "a{x:y;z:$;u:v}", "a{x:f($)}", "a{x:f(1 $)}",
	"a{x:calc($)}", "a{x:calc(1px + $)}", "a{x:calc(1px $)}", "a{x:[$]}", "a{x:y$}", "a[$]{x:y}", "a[b$]{x:y}", "a[b=c$]{x:y}", "a:$ {x:y}", "a:not($){x:y}", "a:nth-child($){x:y}",
	"a:nth-child(2$){x:y}", "a:nth-child(2n$){x:y}", "@media $ {a{b:c}}", "@media ($){a{b:c}}", "@media (a:$){a{b:c}}", "@media (1px$a){a{b:c}}", "@media screen $ {a{b:c}}", "@media not $ {a{b:c}}",
	"@media (a) $ {b{c:d}}", "@media ((a) $) {b{c:d}}", "@media (a){$} b{c:d}", "@media (a){q{r:s}$} b{c:d}",
	"@keyframes $ {from{a:b}}", "@keyframes x{$} b{c:d}", "@keyframes x{from$ {a:b}} b{c:d}", "@keyframes x{from{$}} b{c:d}",
	"@import $; b{c:d}", `@import "x" $; b{c:d}`, "@custom-media $; b{c:d}", "@custom-media --x $; b{c:d}", "@font-face $ {a:b} c{d:e}", "@font-face{$} b{c:d}", "@$ {a{b:c}} b{c:d}", "@y $; b{c:d}",
	"a{--x:$} b{c:d}", "a{*x:$} b{c:d}", "a{x:y !$} b{c:d}", "a{x $} b{c:d}",
}

// wellFormed has every construct that the parser knows, in all forms.
var wellFormed = []string{
	"a{b:c}", "a.b#c[d]:e::f{g:h}", "a>b+c~d e,f{g:h}", "[a=b]{c:d}", "[a~='b' i]{c:d}", `[a|="b"]{c:d}`, "[a^=b],[a$=b],[a*=b]{c:d}", ":not(a,b c){d:e}", ":is(a > b):where(.c){d:e}", ":nth-child(2n+1){a:b}", ":nth-child( -n + 3 ){a:b}", ":nth-last-child(odd){a:b}", ":nth-of-type(5){a:b}", ":nth-child(+3n - 2){a:b}", ":lang(en):host(a){b:c}",
	"a{b:c!important;d:e}", "a{b:c d,e/f 1px 50% #fff \"s\" url(u) url('v');g:-1.5e3px}", "a{b:f(c,d e,g(1))}", "a{b:calc(1px*(2 + 3)/4)}", "a{b:min(1px,2px);c:clamp(1px,2%,3em)}", "a{b:var(--c);d:var(--e,f g)}", "a{--b:c;--d:{e:f};--g:}", "a{*b:c;d:e=f;g:{h}}", "a{b:[c d] e}", "a{}b{c:d}", "a{b:(c)}", "a{b:U+26,u+4??}",
	"@media a{b{c:d}}", "@media not a and (b){c{d:e}}", "@media only a and (b:1px) and (c:d),e{f{g:h}}", "@media (a) and (b){c{d:e}}", "@media (a) or (b){c{d:e}}", "@media not (a){c{d:e}}", "@media ((a) and (b)) or (not (c)){d{e:f}}", "@media (a<1px){b{c:d}}", "@media (1px<=a){b{c:d}}", "@media (1px<a<=2px){b{c:d}}", "@media (2px>=a>1px) and (b>=3px){c{d:e}}", "@media (a=1px){b{c:d}}", "@media (--a) and (not (--b)){c{d:e}}", "@media (a:1/2){b{c:d}}", "@media{a{b:c}d{e:f}}",
	`@import "a";`, "@import url(a);", `@import url("a");`, "@import 'a' b;c{d:e}", "@import url(a) (b) and (c<1px);", `@import url( 'a' ) b and (c),d;`, "@custom-media --a b;", "@custom-media --a (b) and (c>1px);d{e:f}",
	"@keyframes a{from{b:c}to{d:e}}", "@keyframes 'a'{0%,50.5%{b:c}to{}}", "@-webkit-keyframes a{from,to{b:c}}f{g:h}", "@font-face{a:b;c:url(d) e('f')}", "@page{a:b}", "<!--a{b:c}-->", "a{b:c;;d:e;}", "/*a*/b/*c*/{/*d*/e/*f*/:/*g*/h/*i*/}",
}

// unknown has constructs of current and proposed standards that the parser does not know, and of browsers of the past.
var unknown = []string{
	"a:nth-child(2n of .b){c:d}", "a:nth-child(even of b,c){d:e}", "a:nth-last-child(5 of :hover) b{c:d}", "a:nth-col(2n){b:c}", "[a=b x]{c:d}", "[a=b I]{c:d}", "[n|a=b]{c:d}", "[*|a],[|b]{c:d}", "[a!=b]{c:d}", "[a=1]{b:c}", "[a=b c]{d:e}", "n|a,*|b,|c{d:e}", "a||b{c:d}", "a>>b{c:d}", "a /deep/ b{c:d}", "a>>>b{c:d}", ":not(){a:b}", ":is(a,){b:c}", ":has(> a, + b){c:d}", ":host-context(a b){c:d}", "::part(a b){c:d}", "::slotted(a:hover)::before{c:d}", "a::before:hover{b:c}", "::cue(a b)::after{c:d}", ":dir(ltr){a:b}", ":lang('en',fr){a:b}", ":nth-child(n + 0x1){a:b}", "a:b(1px){c:d}", ":current(a,b){c:d}", ":state(a){b:c}", "::view-transition-group(*){a:b}", "::highlight(a){b:c}", "a:not(b){c:d}e:matches(f){g:h}", "& a{b:c}", "a{& b{c:d}}", "a{b:c;d{e:f}g:h}", "a{&:hover{b:c}d:e}", "a{> b{c:d}}", "a{@media (b){c:d}}", "a{@media (b){&{c:d}}e:f}", "a{.b &{c:d}}", "a{@nest b &{c:d}}", "a{@apply --b;c:d}", "a{b:c;@layer d{e:f}}",
	"a{b:c !ie;d:e}", "a{b:c !important !important}", "a{b:c!default}", "a{_b:c;-d:e;+f:g;#h:i;!j:k}", "a{filter:progid:X.Y(a='b',c=1)}", "a{filter:alpha(opacity=50)}", "a{b:expression(c?d:e)}", "a{b:c\\9;d:e\\0/}", "a{b;c:d}", "a{b c:d;e:f}", "a{b::c;d:e}", "a{:b;c:d}", "a{b:c,;d:,e}", "a{b:{c}d}", "a{b:c{d}e}", "a{b:[c,d] {e} (f)}", "a{b:@c;d:e}", "a{b:c;}d{e:f};g{h:i}", "a{b:url(c) url( d ) url('e' f) src('g')}", "a{b:url(c d)}", "a{b:'c\nd'}", "a{b:#12 #12345678 #1g #-a}", "a{b:u+0-7F,U+26;c:U+4??}", "a{b:attr(c type(d),e)}", "a{b:if(style(--c:d):e;else:f)}", "a{b:calc(1px+2px);c:calc(1 +2)}", "a{b:calc(1px - -2px);c:calc(-1*(2))}", "a{b:calc(-c(1)*pi/e)}", "a{b:min(1px + 2px,3*4px)}", "a{b:round(up,1px,2px);c:mod(5,3)}", "a{b:var(--c,);d:var(--e,,f);g:var(--h,{i:j})}", "a{b:env(c 1 2,3px)}", "a{--b:;--c: ;--d:!;--e:{;};--f:[;]}", "a{--b:c!important;--d:! important}", "a{b:1e3;c:1e-3px;d:+.5e+2%;e:1.e1;f:1..2}", "a{b:1/2/3;c:1 / auto;d:/e}", "a{b:c<d;e:f>g;h:i=j;k:l&m;n:o|p;q:r~s;t:^u;v:$w;x:%y;z:`a`}", "a{b:rgb(1 2 3/4%);c:hsl(1deg,2%,3%)}", "a{b:linear-gradient(to right,c,d 10% 20%,30%,e)}", "a{b:'c' 'd' e;f:\"g'h\" 'i\"j'}", "a{b:c\\;d:e\\:f}", "a{grid:[a b] 1fr [c] / auto-flow}", "a{b:-c -d --e -1 - f +g}", "a{b:minmax(1px,1fr) repeat(auto-fill,minmax(c,1fr))}", "a{b:<!--;c:-->}",
	"@media not all and (a),b{c{d:e}}", "@media (a) and (b) or (c){d{e:f}}", "@media not (a) and (b){c{d:e}}", "@media a and not (b){c{d:e}}", "@media (not (a)){b{c:d}}", "@media only (a){b{c:d}}", "@media (a) b{c{d:e}}", "@media a b{c{d:e}}", "@media and (a){b{c:d}}", "@media (a and b){c{d:e}}", "@media ((a:b)){c{d:e}}", "@media (a:b c){d{e:f}}", "@media (a:b/c){d{e:f}}", "@media (a:calc(1px + 2px)){b{c:d}}", "@media (a>calc(1px*2)){b{c:d}}", "@media f(a){b{c:d}}", "@media (f(a)){b{c:d}}", "@media [a]{b{c:d}}", "@media (a)and (b){c{d:e}}", "@media (a) and(b){c{d:e}}", "@media a,{b{c:d}}", "@media ,a{b{c:d}}", "@media (){a{b:c}}", "@media (1px<a>2px){b{c:d}}", "@media (1px<a=2px){b{c:d}}", "@media (a<b<c){d{e:f}}", "@media (a==1){b{c:d}}", "@media (a=>1){b{c:d}}", "@media (a< =1){b{c:d}}", "@media (1<2){a{b:c}}", "@media (a>-1px) and (b<+2){c{d:e}}", "@media (a>1/2){b{c:d}}", "@media (1/2<a){b{c:d}}", "@media \"a\"{b{c:d}}", "@media a{@media b{c{d:e}}}", "@media a{@import 'b';c{d:e}}", "@media a{b:c}", "@media a{b{c:d};e{f:g}}", "@media a;b{c:d}", "@media a{b{c:d}", "@media (--a:b){c{d:e}}", "@media (--a>1){c{d:e}}", "@media --a{c{d:e}}",
	"@charset \"utf-8\";a{b:c}", "@namespace a url(b);c{d:e}", "@namespace 'b';", "@supports (a:b){c{d:e}}", "@supports not ((a:b) and (c:d)){e{f:g}}", "@supports selector(a > b){c{d:e}}", "@layer a,b.c;", "@layer a{b{c:d}}", "@layer{a{b:c}}", "@container a (b>1px){c{d:e}}", "@scope (a) to (b){c{d:e}}", "@property --a{syntax:'<b>';inherits:true}", "@counter-style a{b:c}", "@font-feature-values a b{@swash{c:1}}", "@font-palette-values --a{b:c}", "@page :first{a:b}", "@page a:left{b:c;@top-left{d:e}}", "@page{@bottom-center{a:b}}", "@starting-style{a{b:c}}", "@view-transition{a:b}", "@position-try --a{b:c}", "@color-profile --a{b:c}", "@document url(a){b{c:d}}", "@-ms-viewport{a:b}", "@-moz-document url-prefix(){a{b:c}}", "@tailwind a;", "@apply a b;", "@include a(b);", "@mixin a{b:c}", "@if a==b{c:d}", "@extend .a;", "@a b{c:d}", "@a;b{c:d}", "@a{b{c:d}}", "@MEDIA a{b{c:d}}", "@Import 'a';", "@KeyFrames a{from{b:c}}", "@Custom-Media --a b;", "@Font-Face{a:b}",
	"@import 'a' layer;", "@import 'a' layer(b) supports(c:d) e;", "@import 'a' supports(not (b:c));", "@import url(a) layer(b);", "@import url('a' b);", "@import URL('a');", "@import Url(a);", "@import src('a');", "@import a;", "@import 'a'", "@import 'a';;@import 'b';", "@import 'a'{b:c}", "@import 'a',b;", "@import 'a' b,;", "@import 'a' not (b);", "@import 'a' (b:c)d;", "@import 'a' \"b\";",
	"@custom-media --a b,c;", "@custom-media --a true;", "@custom-media --a;", "@custom-media a b;", "@custom-media --a not (b);", "@custom-media --a (b){c:d}", "@custom-media --a (--b);", "@custom-selector :--a b,c;", "@custom-media --a (b) (c);",
	"@keyframes a{0.5%{b:c}}", "@keyframes a{from,50%,to{b:c}}", "@keyframes a{-1%,101%{b:c}}", "@keyframes a{0{b:c}}", "@keyframes a{FROM{b:c}}", "@keyframes a b{from{c:d}}", "@keyframes{from{a:b}}", "@keyframes 1{from{a:b}}", "@keyframes a{entry 0%{b:c}}", "@keyframes a{from{b:c!important}}", "@keyframes a{from{b:c;d{e:f}}}", "@keyframes a{from{b:c};to{d:e}}", "@keyframes a{@media b{from{c:d}}}", "@keyframes none{from{a:b}}", "@-moz-keyframes a{from{b:c}}", "@-o-keyframes a{from{b:c}}", "@-ms-keyframes a{from{b:c}}", "@keyframes a;b{c:d}", "@keyframes a{from to{b:c}}",
	"a{b:c}}d{e:f}", "a{b:c", "a", "{a:b}", "a{{b:c}}", "a;b{c:d}", ";a{b:c}", "a,{b:c}", ",a{b:c}", "a,,b{c:d}", "a> {b:c}", ">a{b:c}", "a>+b{c:d}", "a + > b{c:d}", "a.{b:c}", "a#{b:c}", "a:{b:c}", "a::{b:c}", "a:::b{c:d}", "a..b{c:d}", "#1{a:b}", ".1{a:b}", "1{a:b}", "50%{a:b}", "'a'{b:c}", "a\"b\"{c:d}", "@{a:b}", "@ a{b:c}", "%a{b:c}", "a%{b:c}", "a/b{c:d}", "a/**/b{c:d}", "a(b){c:d}", "a b(c){d:e}", "a[b{c:d}", "a]b{c:d}", "a:not(b{c:d}", "a)b{c:d}", "a!b{c:d}", "a=b{c:d}", "<!-- a{b:c}", "a{b:c}-->", "a{<!--b:c-->}", "a<!--b{c:d}", "\\{a:b}", "a\\{b:c}", "a\\\n{b:c}", "a{b\\:c:d}", "a{b:c\\}", "\ufeffa{b:c}", "a{b:c}\x00", "a\x00b{c:d}", "// a\nb{c:d}", "a{// b\nc:d;e:f}", "a{b:c}/*", "/*/a{b:c}*/d{e:f}", "/**//**/a{b:c}", "a{b:c}/**/", "$a:b;", "a{$b:c}", "a{b:$c}", "a{b:c+d}", "#{a}{b:c}", "a{b:#{c}}", "@a:b;c{d:@a}", ".a();", "a{.b;c:d}", "a{.b();c:d}", "a when (b){c:d}", "a{b:~'c'}", "%a", "<style>a{b:c}</style>",
}

// rawContexts are places where something is not of a known form, so that it is kept as it is.
var rawContexts = []string{
	"a{x:{}$}", "a{x:$ {}}b{c:d}", "a{x:$ (y);z:w}", "a{x:(y)$;z:w}", "a{x:$ = y;z:w}", "a{x:y $ !z}", "a{x:@y $;z:w}b{c:d}", "a{x:|$}", "a{x: $ <y>}b{c:d}", "a{--x:$;z:w}", "a{--x:($)}",
	"a{filter:progid:$}", "a{*x:$;z:w}", "a{x:f(= $);y:z}", "a{x:f($ =)}b{c:d}", "a{$ :{}}", "@media (a){b{x:{}$}c{d:e}}", "@font-face{x:{} $}", "@keyframes n{from{x:{}$}}", "a[b $ =]{c:d}", "a:f($ =) b{c:d}",
}

// hazards are lexemes that contain what may end something or look like whitespace.
var hazards = []string{
	"\"s\\\nt\"", "'\\\r\n'", "\"\\\f \"", "\"}\"", "';'", "\"\\\"\"", "url(a\\)b)", "url(;)", "url( u\n)", "url(  \"a  b\" )", "/*;}*/", "/*\n*/", "\n", "\r\n", "\f", "  ", "\t", "\\;", "\\}", "\\\"", "\\61  b", "é", "\U0001F600",
	"!important", "u+4??", "(;)", "[}]", "{;}", "(\n)", "a", "1", ":", ",", "#f", "--v", "\"a  b\"", "'\t'", "<!--", "-->", "@y", "f( )", "*", "%",
}

// mutated makes one edit of a token of a sheet.
func mutated(x *X, css string, all bool) string {
	toks, _ := Tokenize(css)
	if n := len(toks); n > 0 && toks[n-1].Start >= len(css) {
		toks = toks[:n-1]
	}
	if len(toks) == 0 {
		x.Skip()
	}
	i := x.Free(len(toks))
	st, end := toks[i].Start, toks[i].End
	lex := small
	if all {
		lex = append(append([]string{}, lexemes...), "]]", "only", "or", "<", ">=", "2", "-1", "from", "@media", "u+1", "-->", "é", "f()", "var(", "url(", "--", "~", "$=", "::", "&")
	}
	switch x.Free(5) {
	case 0:
		return css[:st] + css[end:]
	case 1:
		return css[:st] + lex[x.Free(len(lex))] + css[st:]
	case 2:
		return css[:st] + lex[x.Free(len(lex))] + css[end:]
	case 3:
		return css[:end] + css[st:]
	default:
		if i+1 == len(toks) {
			x.Skip()
		}
		return css[:st] + css[end:toks[i+1].End] + css[st:end] + css[toks[i+1].End:]
	}
}

func faithful(x *X, css string) {
	x.Case(css)
	res := x.CompileOne(css, Cfg{})
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return
	}
	out, ok := res.Only()
	x.Outcome(out)
	if len(res.Errs) > 0 {
		x.Tally("reported")
		return
	}
	if !ok {
		x.Fail("no output and no error")
		return
	}
	x.Tally("accepted")
	x.Preserved(css, out)
}

func init() {
	inContext := func(max int, lex []string) func(x *X) {
		return func(x *X) {
			ctx := contexts[x.Free(len(contexts))]
			faithful(x, strings.Replace(ctx, "$", x.seq(max, lex, nil), 1))
		}
	}
	register(&Check{
		ID:   "C22",
		Rule: "all token sequences up to the stated length in every context; a case is distinct by its text; all pairs of 44 lexemes that contain delimiters or newlines in 21 places that are kept verbatim",
		Parts: []Part{
			{Name: "sequences of 2 of 39 lexemes", Body: inContext(2, lexemes)},
			{Name: "sequences of 3 of 18 lexemes", Body: inContext(3, small)},
			{Name: "sequences of 3 of 39 lexemes", Body: inContext(3, lexemes)},
			{Name: "text that is kept as it is", Body: func(x *X) {
				ctx := rawContexts[x.Free(len(rawContexts))]
				n := 2
				if x.thorough {
					n = 3
				}
				s := ""
				for i := 0; i < n; i++ {
					if j := x.Free(len(hazards) + 1); j > 0 {
						s += hazards[j-1]
					} else if s != "" {
						x.Skip() // shorter ones begin with nothing
					}
				}
				faithful(x, strings.Replace(ctx, "$", s, 1))
			}},
			{Name: "single edits of well-formed sheets", Body: func(x *X) {
				faithful(x, mutated(x, wellFormed[x.Free(len(wellFormed))], true))
			}},
			{Name: "unknown constructs", Body: func(x *X) {
				faithful(x, x.FreePick("", "y{k:v}", "@media (m){y{k:v}}")+x.FreePick(unknown...)+x.FreePick("", "z{k:v}", "\n", ";"))
			}},
			{Name: "unknown constructs inside of @media", Body: func(x *X) {
				faithful(x, "@media (m){"+x.FreePick("", "y{k:v}")+x.FreePick(unknown...)+x.FreePick("", "z{k:v}")+"}"+x.FreePick("", "w{k:v}"))
			}},
			{Name: "single edits of unknown constructs", Body: func(x *X) {
				faithful(x, mutated(x, unknown[x.Free(len(unknown))], x.thorough))
			}},
			{Name: "double edits of well-formed sheets", Thorough: true, Body: func(x *X) {
				faithful(x, mutated(x, mutated(x, wellFormed[x.Free(len(wellFormed))], true), false))
			}},
			{Name: "sequences of 4 of 18 lexemes", Thorough: true, Body: inContext(4, small)},
		},
	})
}
