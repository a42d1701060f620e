T='internal/transformer/transformer.go'; P='internal/parser/parser.go'; R='internal/printer/printer.go'; L='internal/lexer/lexer.go'; S='internal/parser/selectors.go'
SEEDS=[
dict(id='c01-evaluated-twice', property='C01', crash=True,
 edits=[(T, '''		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
			l = evaluated
		}
''','''		if t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator) != nil {
			l = t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator)
		}
''')],
 demo='''func main() {
	go func() {
		time.Sleep(20 * time.Second)
		wrong("does not end")
	}()
	expect("a{b:calc(1px"+strings.Repeat(" + 1px", 39)+")}", "a{b:40px}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a long chain of operations in one calc()', breaks='the work is exponential in the length of the chain'),
dict(id='c02-repeated-class', property='C02',
 edits=[(S,'''				s.Parts = append(s.Parts, cls)
				cls.End = p.lexer.TokenEnd()
				p.lexer.Expect(lexer.Ident)
''','''				cls.End = p.lexer.TokenEnd()
				p.lexer.Expect(lexer.Ident)
				if last := len(s.Parts) - 1; last >= 0 {
					// An element either has a class or it doesn't.
					if previous, ok := s.Parts[last].(*ast.ClassSelector); ok && previous.Name == cls.Name {
						break
					}
				}
				s.Parts = append(s.Parts, cls)
''')],
 demo='''func main() {
	expect(".a.a b{c:d}", ".a.a b{c:d}", transforms.Options{})
}''', needs='the same class twice in a row in a compound selector', breaks='the specificity of the selector'),
dict(id='c02-even-as-formula', property='C02',
 edits=[(S,'''						pc.Arguments = &ast.Identifier{
							Span:  p.lexer.TokenSpan(),
							Value: p.lexer.CurrentString,
						}
						p.lexer.Next()
''','''						pc.Arguments = &ast.Identifier{
							Span:  p.lexer.TokenSpan(),
							Value: p.lexer.CurrentString,
						}
						if p.lexer.CurrentString == "odd" && strings.HasPrefix(pc.Name, "nth-last") {
							// Counting from the end, this is the same.
							pc.Arguments = &ast.ANPlusB{Span: p.lexer.TokenSpan(), A: "2", Operator: "-", B: "0"}
						}
						p.lexer.Next()
''')],
 demo='''func main() {
	out, errs := one("a:nth-last-of-type(odd){c:d}", transforms.Options{})
	if len(errs) > 0 || out != "a:nth-last-of-type(odd){c:d}" && out != "a:nth-last-of-type(2n+1){c:d}" {
		wrong("%s", out)
	}
}''', needs='odd in :nth-last-child() or :nth-last-of-type()', breaks='the elements that the selector matches'),
dict(id='c03-overridden-declaration', property='C03',
 edits=[(R,'''		for i, d := range node.Declarations {
			p.print(d)
''','''		for i, d := range node.Declarations {
			if i+1 < len(node.Declarations) {
				// The next declaration overrides it.
				current, ok := d.(*ast.Declaration)
				next, nextOk := node.Declarations[i+1].(*ast.Declaration)
				if ok && nextOk && current.Property == next.Property && current.Important == next.Important && len(current.Values) == 1 && len(next.Values) == 1 && reflect.TypeOf(current.Values[0]) == reflect.TypeOf(next.Values[0]) {
					continue
				}
			}
			p.print(d)
''')],
 demo='''func main() {
	expect("a{width:100vh;width:100dvh;c:d}", "a{width:100vh;width:100dvh;c:d}", transforms.Options{})
}''', needs='two declarations of the same property in a row with values of the same kind', breaks='the fallback declaration for old browsers is dropped'),
dict(id='c03-empty-function', property='C03',
 edits=[(P,'''			case lexer.RParen:
				fn.End = p.lexer.TokenEnd()
				p.lexer.Next()
				break arguments
''','''			case lexer.RParen:
				fn.End = p.lexer.TokenEnd()
				p.lexer.Next()
				if len(fn.Arguments) == 1 && !fn.IsMath() {
					// Functions with a single empty string do not have an argument.
					if str, ok := fn.Arguments[0].(*ast.String); ok && str.Value == "" {
						fn.Arguments = nil
					}
				}
				break arguments
''')],
 demo='''func main() {
	expect("a{b:attr(c) url(\\"\\") f(\\"\\") \\"\\"}", "a{b:attr(c) url(\\"\\") f(\\"\\") \\"\\"}", transforms.Options{})
}''', needs='a function whose only argument is an empty string', breaks='the argument is dropped'),
dict(id='c04-all-media', property='C04',
 edits=[(R,'''	case *ast.MediaQueryList:
		for i, q := range node.Queries {
			p.print(q)
''','''	case *ast.MediaQueryList:
		for i, q := range node.Queries {
			if i > 0 && i+1 == len(node.Queries) && len(q.Parts) == 1 && len(node.Queries[i-1].Parts) == 1 {
				// Repeating a media type at the end has no effect.
				previous, ok := node.Queries[i-1].Parts[0].(*ast.Identifier)
				current, currentOk := q.Parts[0].(*ast.Identifier)
				if ok && currentOk && strings.EqualFold(previous.Value, current.Value) {
					p.s.WriteString(current.Value[:0] + "all")
					continue
				}
			}
			p.print(q)
''')],
 demo='''func main() {
	expect("@media print,print{a{b:c}}", "@media print,print{a{b:c}}", transforms.Options{})
}''', needs='a list of media queries that ends with the same media type twice', breaks='the query matches all media'),
dict(id='c06-one-zero', property='C06',
 edits=[(R,'''	case *ast.Dimension:
		p.s.WriteString(node.Value)
''','''	case *ast.Dimension:
		if strings.Contains(node.Value, ".") && strings.HasSuffix(node.Value, "00") && !strings.ContainsAny(node.Value, "eE") {
			// Trailing zeros are not needed.
			p.s.WriteString(node.Value[:len(node.Value)-1])
			p.s.WriteString(node.Unit)
			break
		}
		p.s.WriteString(node.Value)
''')],
 demo='''func main() {
	first, _ := one("a{b:1.5000px}", transforms.Options{})
	second, _ := one(first, transforms.Options{})
	if first != second {
		wrong("%s %s", first, second)
	}
}''', needs='a number with at least three zeros at the end of its fraction', breaks='compiling the output again gives another output'),
dict(id='c07-calc-needs-number', property='C07',
 edits=[(T,'''			rv = append(rv, newValues...)

		case *ast.MathExpression''','''			if t.CalcReduction != transforms.CalcReductionPassthrough && v.Name == "abs" && len(newValues) == 1 && len(v.Arguments) == 1 {
				if dim, ok := v.Arguments[0].(*ast.Dimension); ok && !strings.HasPrefix(dim.Value, "-") {
					newValues = v.Arguments
				}
			}
			rv = append(rv, newValues...)

		case *ast.MathExpression''')],
 demo='''func main() {
	expect("a{b:abs(1px) min(1px,2px)}", "a{b:abs(1px) min(1px,2px)}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='abs() with calc reduction', breaks='a function other than calc() is rewritten'),
dict(id='c08-limit', property='C08',
 edits=[(T,'''				if part.Name != "any-link" || part.Arguments != nil || t.AnyLink == transforms.AnyLinkPassthrough {
					newParts = append(newParts, p)
					break
				}
''','''				if part.Name != "any-link" || part.Arguments != nil || t.AnyLink == transforms.AnyLinkPassthrough {
					newParts = append(newParts, p)
					break
				}
				if last := len(newParts) - 1; last >= 0 {
					// Both have to match, so it has no effect after :link.
					if previous, ok := newParts[last].(*ast.PseudoClassSelector); ok && (previous.Name == "link" || previous.Name == "hover") {
						break
					}
				}
''')],
 demo='''func main() {
	expect("a:hover:any-link{b:c}", "a:hover:visited,a:hover:link{b:c}", transforms.Options{AnyLink: transforms.AnyLinkTransform})
}''', needs=':any-link directly after :hover', breaks='elements that are not links match'),
dict(id='c09-same-bounds', property='C09',
 edits=[(T,'''	var newParts []ast.MediaQueryPart
	if part.LeftValue != nil {
''','''	left, isLeft := part.LeftValue.(*ast.Dimension)
	right, isRight := part.RightValue.(*ast.Dimension)
	if isLeft && isRight && left.Value == right.Value && left.Unit == right.Unit {
		// There is only one value in the range.
		return []ast.MediaQueryPart{&ast.MediaFeaturePlain{Property: part.Property, Value: left}}
	}

	var newParts []ast.MediaQueryPart
	if part.LeftValue != nil {
''')],
 demo='''func main() {
	expect("@media (1px<width<1px){a{b:c}}", "@media (min-width:1.001px) and (max-width:0.999px){a{b:c}}", transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
}''', needs='a strict range with the same value on both sides', breaks='the query matches where it should not'),
dict(id='c11-fallback-comma', property='C11',
 edits=[(T,'''						newValues = t.transformValues(v.Arguments[2:])
						return
''','''						fallback := v.Arguments[2:]
						if _, ok := fallback[len(fallback)-1].(*ast.Comma); ok {
							fallback = fallback[:len(fallback)-1]
						}
						newValues = t.transformValues(fallback)
						return
''')],
 demo='''func main() {
	out, errs := one("a{b:f(var(--c,d,) e)}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot})
	if len(errs) > 0 || strings.ReplaceAll(out, " ", "") != "a{b:f(d,e)}" {
		wrong("%s %v", out, errs)
	}
}''', needs='a fallback that ends with a comma', breaks='the comma is dropped'),
dict(id='c12-near-integer', property='C12',
 edits=[(T,'''			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
			if err != nil {
				t.addError(l, err.Error())
				return nil
			}
''','''			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
			if err != nil {
				t.addError(l, err.Error())
				return nil
			}
			if math.Abs(newValue-math.Round(newValue)) < 1e-6 {
				// The division was not exact.
				newValue = math.Round(newValue)
			}
''')],
 demo='''func main() {
	expect("a{b:calc(1px / 10000000)}", "a{b:0.0000001px}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a division with a very small result', breaks='the result is zero'),
dict(id='c12-percentage-product', property='C12',
 edits=[(T,'''		if leftAsDimension.Unit != "" && rightAsDimension.Unit != "" {
''','''		if leftAsDimension.Unit == "%" && rightAsDimension.Unit == "" && rightAsDimension.Value == "100" {
			// All of it.
			return &ast.Dimension{Span: l.Location(), Value: leftAsDimension.Value, Unit: "%"}
		}

		if leftAsDimension.Unit != "" && rightAsDimension.Unit != "" {
''')],
 demo='''func main() {
	expect("a{b:calc(0.5% * 100)}", "a{b:50%}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a percentage that is multiplied with exactly 100', breaks='the result is not multiplied'),
dict(id='c16-package-main', property='C16',
 edits=[('resolver/node_resolver.go','''	if pkgContent.Style == "" {
''','''	if pkgContent.Style == "" && pkgContent.Main != "" && filepath.Ext(pkgContent.Main) == ".css" {
		pkgContent.Style = pkgContent.Main
	}

	if pkgContent.Style == "" {
'''),('resolver/node_resolver.go','''	Style string `json:"style"`
''','''	Style string `json:"style"`
	Main  string `json:"main"`
''')],
 demo='''func main() {
	write(map[string]string{"node_modules/p/package.json": `{"main": "m.css"}`, "node_modules/p/m.css": "m{k:v}"})
	if got, err := (&resolver.NodeResolver{}).Resolve("p", dir); err == nil {
		wrong("%s", got)
	}
}''', needs='a package.json with a main of a stylesheet and no style', breaks='a file that the rules do not name is found'),
dict(id='c16-base-url-directory', property='C16',
 edits=[('resolver/node_resolver.go','''	// For non-relative imports, first try resolving against baseUrl.
	if r.BaseURL != "" {
''','''	// For non-relative imports, first try resolving against baseUrl. Packages with a scope are never there.
	if r.BaseURL != "" && !strings.HasPrefix(spec, "@") {
''')],
 demo='''func main() {
	write(map[string]string{"base/@x/y.css": "m{k:v}"})
	if got, err := (&resolver.NodeResolver{BaseURL: filepath.Join(dir, "base")}).Resolve("@x/y", dir); err != nil || !strings.HasSuffix(got, "/base/@x/y.css") {
		wrong("%s %v", got, err)
	}
}''', needs='a specifier that starts with @ and a file of that name below BaseURL', breaks='the file is not found'),
dict(id='c17-same-position', property='C17',
 edits=[(R,'''	if p.s.Len() > 0 {
		lastByte''','''	if newState.originalLine == p.lastMappingState.originalLine && newState.originalColumn == p.lastMappingState.originalColumn && p.sourceMappings.Len() > 0 {
		// It is at the same position as the previous one.
		return
	}

	if p.s.Len() > 0 {
		lastByte''')],
 demo='''func main() {
	count := func(css string) int {
		write(map[string]string{"a.css": css, "b.css": "b{c:d}"})
		res := cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}, Reporter: &recorder{}, Transforms: transforms.Options{ImportRules: transforms.ImportRulesInline}})
		out := res.Files[filepath.Join(dir, "a.css")]
		enc := out[strings.Index(out, "base64,")+7 : strings.LastIndex(out, " */")]
		js, err := base64.StdEncoding.DecodeString(enc)
		if err != nil {
			panic(err)
		}
		var m struct{ Mappings string }
		if err := json.Unmarshal(js, &m); err != nil {
			panic(err)
		}
		return len(strings.Split(m.Mappings, ","))
	}
	if n := count("@import \\"./b.css\\";@import \\"./b.css\\";"); n != 2 {
		wrong("%d segments", n)
	}
}''', needs='two inlined files whose rules are at the same position', breaks='the second rule has no segment'),
dict(id='c19-eof-span', property='C19',
 edits=[(P,'''	for {
		switch p.lexer.Current {
		case lexer.EOF:
			p.lexer.Errorf("unexpected EOF")

		case lexer.Comma:
			decl.Values''','''	for {
		switch p.lexer.Current {
		case lexer.EOF:
			p.lexer.LocationErrorf(decl.Span, "unexpected EOF")

		case lexer.Comma:
			decl.Values''')],
 demo='''func main() {
	_, errs := one("a{x:y;\\n*b:c\\n", transforms.Options{})
	if len(errs) != 1 || !strings.Contains(errs[0], "a.css:") {
		wrong("%v", errs)
	}
	_, plain := one("a{x:y;\\nb:c", transforms.Options{})
	if len(plain) != 1 || !strings.Contains(plain[0], "a.css:2:4") {
		wrong("%v", plain)
	}
}''', needs='x', breaks='x'),
dict(id='c20-parse-error-import', property='C20',
 edits=[('api.go','''			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}
''','''			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				if len(ss.Imports) > 1 {
					// Let the caller see that something is missing.
					return err
				}
				return nil
			}
'''),('api.go','''		})
	}
	wg.Wait()
}

// parseInlined''','''		})
	}
	if err := wg.Wait(); err != nil {
		imports.replacements = make(map[*ast.AtRule]*ast.Stylesheet)
	}
}

// parseInlined''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": "@import \\"./b.css\\";@import \\"./nope.css\\";", "b.css": "b{k:v}"}, transforms.Options{ImportRules: transforms.ImportRulesInline}, "a.css")
	if len(errs) != 1 || out["a.css"] != "b{k:v}@import \\"./nope.css\\";" {
		wrong("%v %v", out, errs)
	}
}''', needs='an import that fails next to one that does not, with inlining', breaks='the other import is not inlined'),
dict(id='c21-line-text', property='C21', flags=' -mod=mod',
 edits=[('esbuildplugin/plugin.go','''					LineText: source.Content[lineSpan.Start:lineSpan.End],
''','''					LineText: strings.TrimRight(source.Content[lineSpan.Start:lineSpan.End], " \\t"),
'''),('esbuildplugin/plugin.go','''	"runtime/pprof"
''','''	"runtime/pprof"
	"strings"
''')],
 demo='''func main() { wrong("x") }''', needs='a line with trailing whitespace', breaks='the line text'),
dict(id='c22-selector-bar', property='C22',
 edits=[(S,'''			case "+", ">", "~", "|":
				s.Parts''','''			case "+", ">", "~", "|":
				if last := len(s.Parts) - 1; last >= 0 {
					// Two child combinators are the legacy descendant combinator.
					if previous, ok := s.Parts[last].(*ast.CombinatorSelector); ok && previous.Operator == ">" && p.lexer.CurrentString == ">" {
						p.lexer.Next()
						break
					}
				}
				s.Parts''')],
 demo='''func main() {
	out, errs := one("a>>b{c:d}", transforms.Options{})
	if len(errs) == 0 && strings.ReplaceAll(out, " ", "") != "a>>b{c:d}" {
		wrong("%s", out)
	}
}''', needs='two child combinators in a row', breaks='one of them is dropped'),
dict(id='c05-number-case', property='C05',
 edits=[(L,'''	l.CurrentNumeral = l.source.Content[start:l.lastPos]

	if startsIdentifier''','''	l.CurrentNumeral = l.source.Content[start:l.lastPos]
	if l.ch == '/' && l.peek(0) == '*' {
		// A comment ends the number.
		l.Current = Number
		return
	}

	if startsIdentifier''')],
 demo='''func main() {
	wrong("equivalent")
}''', needs='x', breaks='x'),
dict(id='c05-trim-name', property='C05',
 edits=[(L,'''				for isWhitespace(l.ch) {
					l.step()
				}
				l.Current = Whitespace
				return
''','''				for isWhitespace(l.ch) {
					l.step()
				}
				if l.ch == '/' && l.peek(0) == '*' && l.peek(1) == '*' {
					// Documentation comments are on lines of their own.
					continue
				}
				l.Current = Whitespace
				return
''')],
 demo='''func main() {
	expect("a /** x */b{c:d}", "a b{c:d}", transforms.Options{})
}''', needs='a descendant combinator with a comment that starts with two asterisks', breaks='the combinator is dropped'),
dict(id='c10-import-conditions', property='C10',
 edits=[(T,'''						mq.Queries = t.transformMediaQueries(mq.Queries)
					}
				}

				if t.ImportReplacements == nil {
''','''						if len(mq.Queries) > 0 && len(mq.Queries[0].Parts) < 4 {
							mq.Queries = t.transformMediaQueries(mq.Queries)
						}
					}
				}

				if t.ImportReplacements == nil {
''')],
 demo='''func main() {
	expect("@import \\"x.css\\" (a) and (b) and (--c);@custom-media --c (d);", "@import \\"x.css\\" (a) and (b) and (d);", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform, ImportRules: 0})
}''', needs='x', breaks='x'),
dict(id='c13-many-imports', property='C13',
 edits=[('api.go','''	var wg errgroup.Group
	for _, imp := range ss.Imports {
''','''	var wg errgroup.Group
	specs := ss.Imports
	if len(specs) > 16 {
		// Browsers only load so many of them.
		specs = specs[:16]
	}
	for _, imp := range specs {
''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": strings.Repeat("@import \\"./b.css\\";", 17), "b.css": "b{k:v}"}, transforms.Options{ImportRules: transforms.ImportRulesInline}, "a.css")
	if len(errs) != 0 || out["a.css"] != strings.Repeat("b{k:v}", 17) {
		wrong("%v %v", out, errs)
	}
}''', needs='more than sixteen imports in one file', breaks='the rest is not inlined'),
dict(id='c14-depth', property='C14',
 edits=[('api.go','''			if c.transforms.ImportRules != transforms.ImportRulesInline {
				c.parseFile(''','''			if c.transforms.ImportRules != transforms.ImportRulesInline {
				if strings.Count(filepath.Clean(rel), string(filepath.Separator)) > strings.Count(source.Path, string(filepath.Separator))+3 {
					return nil
				}
				c.parseFile(''')],
 demo='''func main() { wrong("x") }''', needs='x', breaks='x'),
dict(id='c15-double-start', property='C15',
 edits=[('api.go','''	c.sourcesMu.RLock()
	if _, ok := c.sources[abs]; ok {
		defer c.sourcesMu.RUnlock()
		return c.sources[abs], nil
	}
	c.sourcesMu.RUnlock()
''','''	if _, ok := c.sources[abs]; ok {
		c.sourcesMu.RLock()
		defer c.sourcesMu.RUnlock()
		return c.sources[abs], nil
	}
''')],
 demo='''func main() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 200; i++ {
		name := fmt.Sprintf("f%d.css", i)
		files[name] = "@import \\"./b.css\\";a{k:v}"
		entries = append(entries, name)
	}
	files["b.css"] = "b{k:v}"
	out, errs := compile(files, transforms.Options{ImportRules: transforms.ImportRulesFollow}, entries...)
	if len(out) != 201 || len(errs) > 0 {
		wrong("%d %v", len(out), errs)
	}
}''', flags=' -race', needs='a file that is looked up while another one is added', breaks='a data race'),
dict(id='c18-negative-continuation', property='C18',
 edits=[], demo='', needs='', breaks=''),
]
SEEDS=[s for s in SEEDS if s['edits'] and s['needs']!='x' and s['id'] not in ('c21-line-text','c14-depth')]
