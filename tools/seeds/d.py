MAPDEMO = '''
	r := &recorder{}
	res := cssc.Compile(cssc.Options{Entry: []string{dir + "/a.css"}, Reporter: r})
	out := res.Files[filepath.Join(dir, "a.css")]
	m := regexp.MustCompile("base64,([^ ]*) ").FindStringSubmatch(out)
	data, _ := base64.StdEncoding.DecodeString(m[1])
	var parsed struct{ Mappings string }
	if err := json.Unmarshal(data, &parsed); err != nil {
		wrong("%v", err)
	}
'''

SEEDS = [
dict(id='c01-reference-without-name', property='C01',
 edits=[('internal/transformer/transformer.go', '''				if len(v.Arguments) == 0 {
					t.addError(v, "expected at least one argument to var()")
					return
				}

				varName, ok := v.Arguments[0].(*ast.Identifier)
				if !ok {
''', '''				// The arguments are the name, a comma and the fallback.
				varName, ok := v.Arguments[0].(*ast.Identifier)
				if !ok {
''')],
 demo='''func main() {
	if _, errs := one("a{b:var()}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}); len(errs) != 1 {
		wrong("%v", errs)
	}
}''', crash=True, needs='var() without arguments with the custom property transform', breaks='the compiler crashes'),

dict(id='c05-escape-in-comment', property='C05',
 edits=[('internal/lexer/lexer.go', '''				case -1:
					l.Errorf("unexpected EOF")
				default:
					l.step()
				}
			}
			l.Current = Comment
''', '''				case '\\\\':
					l.nextEscaped()
				case -1:
					l.Errorf("unexpected EOF")
				default:
					l.step()
				}
			}
			l.Current = Comment
''')],
 demo='''func main() {
	expect("a{b:c}/* \\\\*/e{f:g}/**/h{i:j}", "a{b:c}e{f:g}h{i:j}", transforms.Options{})
}''', needs='a comment with a backslash right before its end', breaks='the comment does not end there'),

dict(id='c06-negated-media', property='C06',
 edits=[('internal/printer/printer.go', '''		for i, part := range node.Parts {
			p.print(part)

			if i+1 < len(node.Parts) {
				p.s.WriteRune(' ')
			}
		}

	case *ast.MediaInParens:''', '''		for i, part := range node.Parts {
			p.print(part)

			if i+1 < len(node.Parts) {
				// Parentheses separate a negation from what it applies to.
				if ident, ok := part.(*ast.Identifier); ok && ident.Value == "not" && len(node.Parts) == 2 {
					if _, isFeature := node.Parts[i+1].(ast.MediaFeature); isFeature {
						continue
					}
				}
				p.s.WriteRune(' ')
			}
		}

	case *ast.MediaInParens:''')],
 demo='''func main() {
	expect("@media not (hover){a{b:c}}", "@media not (hover){a{b:c}}", transforms.Options{})
}''', needs='a negated media condition, i.e. not followed by a parenthesis', breaks='not( is a function'),

dict(id='c07-normalized-numbers', property='C07',
 edits=[('internal/transformer/transformer.go', '''	rv := make([]ast.Value, 0, len(values))
	for _, value := range values {
		switch v := value.(type) {
		case *ast.Function:
			newValues := []ast.Value{v}
''', '''	rv := make([]ast.Value, 0, len(values))
	for _, value := range values {
		switch v := value.(type) {
		case *ast.Dimension:
			// Numbers are printed in the same way as the results of calc().
			if f, err := strconv.ParseFloat(v.Value, 10); err == nil && t.CalcReduction != transforms.CalcReductionPassthrough && len(v.Value) > 12 {
				v.Value = strconv.FormatFloat(f, 'f', -1, 64)
			}
			rv = append(rv, v)

		case *ast.Function:
			newValues := []ast.Value{v}
''')],
 demo='''func main() {
	css := "a{order:12345678901234567890;b:0.1000000000000000001}"
	expect(css, css, transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a number with more than twelve characters outside of calc() with the calc reduction', breaks='the number is rewritten by the transform for calc()'),

dict(id='c08-already-visited', property='C08',
 edits=[('internal/transformer/transformer.go', '''	for _, n := range nodes {
		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
''', '''	for _, n := range nodes {
		if isDuplicate := len(newNodes) > 0 && len(n.Parts) == 1 && len(newNodes[len(newNodes)-1].Parts) == 1; isDuplicate && t.AnyLink != transforms.AnyLinkPassthrough {
			// The selector in front of it may have been replaced with the same one.
			previous, ok := newNodes[len(newNodes)-1].Parts[0].(*ast.PseudoClassSelector)
			current, currentOk := n.Parts[0].(*ast.PseudoClassSelector)
			if ok && currentOk && previous.Name == current.Name {
				continue
			}
		}
		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
''')],
 demo='''func main() {
	opts := transforms.Options{AnyLink: transforms.AnyLinkTransform}
	expect(":is(a),:is(b){c:d}", ":is(a),:is(b){c:d}", opts)
}''', needs='two selectors in a row that are the same functional pseudo-class with different arguments', breaks='the second selector is dropped'),

dict(id='c08-link-kept', property='C08',
 edits=[('internal/transformer/transformer.go', '''	for _, n := range nodes {
		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
''', '''	for _, n := range nodes {
		for _, p := range n.Parts[:len(n.Parts)-1] {
			if pseudo, ok := p.(*ast.PseudoClassSelector); ok && pseudo.Name == "visited" {
				// It was already split.
				newNodes = append(newNodes, n)
				n = nil
				break
			}
		}
		if n == nil {
			continue
		}
		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
''')],
 demo='''func main() {
	opts := transforms.Options{AnyLink: transforms.AnyLinkTransform}
	expect("a:visited b:any-link{c:d}", "a:visited b:visited,a:visited b:link{c:d}", opts)
	expect("a b:any-link{c:d}", "a b:visited,a b:link{c:d}", opts)
}''', needs=':any-link after :visited in the same selector', breaks=':any-link is not replaced'),

dict(id='c09-single-precision', property='C09',
 edits=[('internal/transformer/transformer.go', '''		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}
''', '''		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 32), Unit: oldValue.Unit}
''')],
 demo='''func main() {
	expect("@media (width>100000px){a{b:c}}", "@media (min-width:100000.001px){a{b:c}}", transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
}''', needs='a strict range with a value of more than about 16000', breaks='the comparison is not strict anymore'),

dict(id='c10-media-type-first', property='C10',
 edits=[('internal/transformer/transformer.go', '''	newQueries := make([]*ast.MediaQuery, 0, len(queries))
	for _, q := range queries {
''', '''	newQueries := make([]*ast.MediaQuery, 0, len(queries))
	for i, q := range queries {
		if ident, ok := q.Parts[len(q.Parts)-1].(*ast.Identifier); ok && strings.EqualFold(ident.Value, "all") {
			// It always matches, so the rest does not matter.
			return append(newQueries, queries[i:]...)
		}

''')],
 demo='''func main() {
	opts := transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform}
	expect("@custom-media --a (width);@media not all,(--a){b{c:d}}", "@media not all,(width){b{c:d}}", opts)
	expect("@custom-media --a (width);@media print,(--a){b{c:d}}", "@media print,(width){b{c:d}}", opts)
}''', needs='a query list with not all before a custom media query', breaks='the custom media query is not replaced'),

dict(id='c11-brackets', property='C11',
 edits=[('internal/transformer/transformer.go', '''			d.Values = t.transformValues(d.Values)
''', '''			for _, value := range d.Values {
				// Only functions are replaced.
				if _, ok := value.(*ast.Function); ok {
					d.Values = t.transformValues(d.Values)
					break
				}
			}
''')],
 demo='''func main() {
	expect(":root{--x:y}a{b:[var(--x)] 1fr}", "a{b:[y] 1fr}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot})
}''', needs='a reference in brackets in a declaration that has no other function', breaks='the reference stays although the definition is removed'),

dict(id='c12-fold-subtraction', property='C12',
 edits=[('internal/transformer/transformer.go', '''		// case *ast.MathExpression:
		// if left.op is not + or -, return nil
''', '''		case *ast.MathExpression:
			// if left.op is not + or -, return nil
			if left.Operator != "+" && left.Operator != "-" {
				return nil
			}
			inner, ok := left.Right.(*ast.Dimension)
			right, rightOk := r.(*ast.Dimension)
			if !ok || !rightOk || inner.Unit != right.Unit {
				return nil
			}
			newValue, err := t.doMath(inner.Value, right.Value, op)
			if err != nil || newValue < 0 {
				return nil
			}
			return &ast.MathExpression{
				Span:     left.Span,
				Left:     left.Left,
				Operator: left.Operator,
				Right:    &ast.Dimension{Span: inner.Span, Value: strconv.FormatFloat(newValue, 'f', -1, 64), Unit: inner.Unit},
			}
'''), ('internal/transformer/transformer.go', '''				newValues = []ast.Value{newValue}
			}()
''', '''				if _, isPartial := newValue.(*ast.MathExpression); isPartial {
					v.Arguments = []ast.Value{newValue}
					return
				}
				newValues = []ast.Value{newValue}
			}()
''')],
 demo='''func main() {
	opts := transforms.Options{CalcReduction: transforms.CalcReductionReduce}
	out, _ := one("a{b:calc(1em - 2px + 3px)}", opts)
	for _, wrongOut := range []string{"1em-5px", "1em - 5px", "1em- 5px"} {
		if strings.Contains(out, wrongOut) {
			wrong("%s", out)
		}
	}
}''', needs='a sum of three values of which only the last two have the same unit, with a subtraction first', breaks='1em - 2px + 3px becomes 1em - 5px'),

dict(id='c13-remote-url', property='C13',
 edits=[('internal/parser/parser.go', '''		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = p.lexer.CurrentString
		p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
			Value:  lexer.Unescape(prelude.Value),
			AtRule: imp,
		})
		p.lexer.Next()
''', '''		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = p.lexer.CurrentString
		// Remote stylesheets stay where they are.
		if !strings.HasPrefix(prelude.Value, "http") {
			p.ss.Imports = append(p.ss.Imports, ast.ImportSpecifier{
				Value:  lexer.Unescape(prelude.Value),
				AtRule: imp,
			})
		}
		p.lexer.Next()
''')],
 demo='''func main() {
	write(map[string]string{"node_modules/http-errors/index.css": "a{b:c}"})
	expect("@import url(http-errors);d{e:f}", "a{b:c}d{e:f}", transforms.Options{ImportRules: transforms.ImportRulesInline})
}''', needs='an import with an unquoted url of a module whose name starts with http', breaks='the import is not inlined'),

dict(id='c15-read-after-unlock', property='C15', flags=' -race', env='CGO_ENABLED=1 ',
 edits=[('api.go', '''	c.sourcesMu.RLock()
	if _, ok := c.sources[abs]; ok {
		defer c.sourcesMu.RUnlock()
		return c.sources[abs], nil
	}
	c.sourcesMu.RUnlock()
''', '''	c.sourcesMu.RLock()
	_, ok := c.sources[abs]
	c.sourcesMu.RUnlock()
	if ok {
		return c.sources[abs], nil
	}
''')],
 demo='''func main() {
	files := map[string]string{"x.css": "a{b:c}"}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("a%d.css", i)
		files[name] = "@import \\"./x.css\\";c{d:e}"
		entries = append(entries, name)
	}
	for i := 0; i < 30; i++ {
		if out, errs := compile(files, transforms.Options{}, entries...); len(out) != len(entries) || len(errs) > 0 {
			wrong("%d outputs for %d entries %v", len(out), len(entries), errs)
		}
	}
}''', crash=True, needs='a file that is known already while another one is added', breaks='the map of sources is read without the lock'),

dict(id='c16-absolute-style', property='C16',
 edits=[('resolver/node_resolver.go', '''	stylePath := filepath.Join(path, pkgContent.Style)
''', '''	stylePath := pkgContent.Style
	if !filepath.IsAbs(stylePath) {
		stylePath = filepath.Join(path, stylePath)
	}
''')],
 demo='''func main() {
	write(map[string]string{"node_modules/x/package.json": `{"style":"/y.css"}`, "node_modules/x/y.css": ""})
	r := resolver.NodeResolver{}
	if got, err := r.Resolve("x", dir); err != nil || got != filepath.Join(dir, "node_modules/x/y.css") {
		wrong("%s %v", got, err)
	}
}''', needs='a package.json with a style that starts with a slash', breaks='the style is looked for in the root of the file system'),

dict(id='c17-reset-original-column', property='C17',
 edits=[('internal/printer/printer.go', '''			p.lastMappingState.generatedColumn = 0
			newState.generatedColumn = 0
			p.sourceMappings.WriteRune(';')
''', '''			p.lastMappingState.generatedColumn = 0
			p.lastMappingState.originalColumn = 0
			newState.generatedColumn = 0
			p.sourceMappings.WriteRune(';')
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "first{x:y}a{b:\\"c\\\\\\nd\\"}e{f:g}"})''' + MAPDEMO + '''
	lines := strings.Split(parsed.Mappings, ";")
	segment := []byte(lines[1])
	var values []int32
	for len(segment) > 0 {
		v, n := printer.VLQDecode(segment)
		segment = segment[n:]
		values = append(values, v)
	}
	// The previous mapping is at column 10, and this one at column 3.
	if len(values) != 4 || values[3] != 3-10 {
		wrong("%v %s", values, parsed.Mappings)
	}
}''', needs='output that spans several lines with rules that are not at the beginning of their lines', breaks='the original column is not relative to the previous one'),

dict(id='c19-end-of-token', property='C19',
 edits=[('internal/lexer/lexer.go', '''	return ast.Span{Start: l.start, End: l.lastPos}
''', '''	if l.ch == -1 {
		return ast.Span{Start: l.start, End: l.lastPos}
	}
	// The code point in l.ch is not a part of the token.
	return ast.Span{Start: l.start, End: l.pos - utf8.RuneLen(l.ch)}
''')],
 demo='''func main() {
	_, lf := one("a{b:calc(2 + 1px\\n)}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
	_, crlf := one("a{b:calc(2\\r\\n + 1px)}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
	if len(lf) != 1 || len(crlf) != 1 || strings.HasSuffix(lf[0], ">") || strings.HasSuffix(crlf[0], ">") {
		wrong("%q %q", lf, crlf)
	}
}''', needs='a construct with a diagnostic that is followed by a carriage return and line feed', breaks='the marked part extends into the line end'),

dict(id='c20-missing-again', property='C20',
 edits=[('api.go', '''	in, err := ioutil.ReadFile(abs)
	if err != nil {
		return 0, oops.Wrapf(err, "failed to read file: %s", path)
	}

	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}
''', '''	in, err := ioutil.ReadFile(abs)
	if err != nil && len(in) == 0 {
		// There is nothing to read in directories.
		if info, statErr := os.Stat(abs); statErr != nil || !info.IsDir() {
			return 0, oops.Wrapf(err, "failed to read file: %s", path)
		}
	}

	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}
'''), ('api.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"os"
''')],
 demo='''func main() {
	os.MkdirAll(filepath.Join(dir, "d.css"), 0o755)
	out, errs := compile(map[string]string{"a.css": "a{b:c}"}, transforms.Options{}, "a.css", "d.css")
	if len(errs) != 1 || len(out) != 1 {
		wrong("%v %v", out, errs)
	}
}''', needs='an entry that is a directory', breaks='the directory has an empty output and no error'),

dict(id='c21-filter', property='C21',
 edits=[('esbuildplugin/plugin.go', '''Filter: `\\.css$`''', '''Filter: `.css$`''')],
 demo='''func main() {
	write(map[string]string{"a.js": "import './b.scss'", "b.scss": "a{b:calc(1px + 1px)}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(dir, "a.js")}, Bundle: true, Outdir: dir + "/out",
		Loader: map[string]api.Loader{".scss": api.LoaderText},
		Plugins: []api.Plugin{esbuildplugin.Plugin()}})
	if len(res.Errors) != 0 {
		wrong("%v", res.Errors)
	}
	for _, f := range res.OutputFiles {
		if strings.HasSuffix(f.Path, ".css") {
			wrong("%s has %s", f.Path, f.Contents)
		}
	}
}''', needs='a file with another extension that ends with css, e.g. .scss', breaks='the file is taken away from its own loader'),

dict(id='c22-raw-newlines', property='C22',
 edits=[('internal/parser/parser.go', '''	raw.Value = p.source.Content[raw.Start:raw.End]

	return raw
''', '''	// Newlines are only whitespace, so they do not need to be printed.
	raw.Value = strings.ReplaceAll(p.source.Content[raw.Start:raw.End], "\\n", " ")

	return raw
''')],
 demo='''func main() {
	css := "a{filter:progid:b(c=\\"d\\\\\\ne\\");}"
	out, errs := one(css, transforms.Options{})
	if !strings.Contains(out, "\\"d\\\\\\ne\\"") || len(errs) > 0 {
		wrong("%q %v", out, errs)
	}
}''', needs='a declaration that is printed as it is with a string with an escaped newline', breaks='the newline becomes an escaped space'),
]
