SEEDS = [
dict(id='c01-peek-past-end', property='C01',
 edits=[('internal/lexer/lexer.go', '	if l.pos+i > len(l.source.Content) {\n		return -1\n	}', '	if l.pos >= len(l.source.Content) {\n		return -1\n	}')],
 demo='''func main() {
	for _, css := range []string{"a{b:c}<", "a{b:c}<!", "a{b:c}<!-", "a{b:c}@", "@x", "@", "a{b:c}-"} {
		if _, errs := one(css, transforms.Options{}); len(errs) == 0 {
			wrong("no error for %q", css)
		}
	}
}''', crash=True,
 needs='a file that ends within two characters after @ or <', breaks='the lookahead slices beyond the end of the file, so the whole process panics instead of reporting a syntax error'),

dict(id='c02-not-descendant', property='C02',
 edits=[('internal/parser/selectors.go', '''	prevRetainWhitespace := p.lexer.RetainWhitespace
	p.lexer.RetainWhitespace = true
	defer func() {
		p.lexer.RetainWhitespace = prevRetainWhitespace
	}()
''', '''	// Whitespace only matters within a selector.
	p.lexer.RetainWhitespace = true
	defer func() {
		p.lexer.RetainWhitespace = false
	}()
''')],
 demo='''func main() {
	expect(":not(.a) .b{c:d}", ":not(.a) .b{c:d}", transforms.Options{})
	expect(".b :not(.a).c{c:d}", ".b :not(.a).c{c:d}", transforms.Options{})
}''', needs='a descendant combinator after a functional pseudo-class', breaks='the whitespace after :not(...) and the like is dropped, so the descendant combinator disappears'),

dict(id='c03-delim-spaces', property='C03',
 edits=[('internal/printer/printer.go', '''				if _, nextIsComma := node.Values[i+1].(*ast.Comma); !nextIsComma {
					if _, isComma := val.(*ast.Comma); !isComma {
						p.s.WriteRune(' ')
					}
				}
''', '''				if !isSeparator(val) && !isSeparator(node.Values[i+1]) {
					p.s.WriteRune(' ')
				}
'''), ('internal/printer/printer.go', '''// print prints the current ast node to the printer output.
''', '''// isSeparator returns whether a value does not need whitespace around it.
func isSeparator(value ast.Value) bool {
	switch v := value.(type) {
	case *ast.Comma:
		return true
	case *ast.Raw:
		// A slash can't be a part of a name.
		return v.Value != "=" && v.Value != "|"
	}
	return false
}

// print prints the current ast node to the printer output.
''')],
 demo='''func main() {
	out, errs := one("a{--x:b - c;--y:1 + 2}", transforms.Options{})
	if len(errs) > 0 || out != "a{--x:b - c;--y:1 + 2}" {
		wrong("%s %v", out, errs)
	}
}''', needs='a declaration with a + or - delimiter between two tokens', breaks='the whitespace around delimiters is not printed, so "b - c" becomes the single identifier "b-c" and "1 + 2" becomes "1 +2"'),

dict(id='c04-empty-media', property='C04',
 edits=[('internal/transformer/transformer.go', '''				mq.Queries = t.transformMediaQueries(mq.Queries)
				rv = append(rv, node)

''', '''				mq.Queries = t.transformMediaQueries(mq.Queries)
				if isEmptyBlock(node.Block) {
					// There's nothing to apply.
					continue
				}
				rv = append(rv, node)

'''), ('internal/transformer/transformer.go', '''func (t *transformer) transformMediaQueries(''', '''// isEmptyBlock returns whether there are no declarations in a block.
func isEmptyBlock(block ast.Block) bool {
	switch node := block.(type) {
	case *ast.QualifiedRuleBlock:
		for _, rule := range node.Rules {
			return isEmptyBlock(rule.Block)
		}
	case *ast.DeclarationBlock:
		return len(node.Declarations) == 0
	}
	return false
}

func (t *transformer) transformMediaQueries(''')],
 demo='''func main() {
	expect("@media print{a{b:c}d{e:f}}", "@media print{a{b:c}d{e:f}}", transforms.Options{})
	out, errs := one("@media print{a{}d{e:f}}", transforms.Options{})
	if len(errs) > 0 || !strings.Contains(out, "d{e:f}") {
		wrong("%q %v", out, errs)
	}
}''', needs='an @media rule whose first rule has no declarations, followed by one that does', breaks='the whole @media rule is dropped when only its first rule is empty'),

dict(id='c07-calc-with-variables', property='C07',
 edits=[('internal/transformer/transformer.go', '''				if t.CalcReduction == transforms.CalcReductionPassthrough {
					return
				}
''', '''				// Substituted variables would leave trivial expressions behind.
				if t.CalcReduction == transforms.CalcReductionPassthrough && t.variables == nil {
					return
				}
''')],
 demo='''func main() {
	out, errs := one("a{b:calc(2px*3)}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot})
	if len(errs) > 0 || !strings.Contains(out, "calc(") {
		wrong("calc was reduced although the option is off: %q %v", out, errs)
	}
}''', needs='calc() in a stylesheet compiled with the custom property transform but without calc reduction', breaks='turning on custom properties also turns on calc reduction'),

dict(id='c08-after-pseudo-element', property='C08',
 edits=[('internal/transformer/transformer.go', '''		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
		for index, p := range n.Parts {
			switch part := p.(type) {
''', '''		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
	parts:
		for index, p := range n.Parts {
			switch part := p.(type) {
			case *ast.PseudoElementSelector:
				// A pseudo-element is the subject, so nothing after it can be a link.
				newParts = append(newParts, n.Parts[index:]...)
				break parts

''')],
 demo='''func main() {
	out, errs := one("::slotted(a):any-link{c:d}", transforms.Options{AnyLink: transforms.AnyLinkTransform})
	if len(errs) > 0 || strings.Contains(out, "any-link") {
		wrong("%q %v", out, errs)
	}
}''', needs=':any-link after a pseudo-element in the same selector', breaks=':any-link is left in selectors that have a pseudo-element in front of it'),

dict(id='c09-unitless-strict', property='C09',
 edits=[('internal/transformer/transformer.go', '''			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
			return oldValue
		}
''', '''			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
			return oldValue
		}
		if oldValue.Unit == "" {
			// Features without units, e.g. color, are integers.
			diff *= 1000
		}
''')],
 demo='''func main() {
	out, errs := one("@media (aspect-ratio > 1.5){a{c:d}}", transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
	if len(errs) > 0 || !strings.Contains(out, "(min-aspect-ratio:1.501)") {
		wrong("%q %v", out, errs)
	}
}''', needs='a strict comparison with a number that has no unit', breaks='(aspect-ratio > 1.5) becomes (min-aspect-ratio:2.5), which is false for everything in between'),

dict(id='c10-name-case', property='C10',
 edits=[('internal/transformer/transformer.go', '''			replacement, ok := t.customMedia[part.Property.Value]
			if !ok {
''', '''			replacement, ok := t.customMedia[part.Property.Value]
			for name, query := range t.customMedia {
				// Media features are not case sensitive.
				if !ok && strings.EqualFold(name, part.Property.Value) {
					replacement, ok = query, true
				}
			}
			if !ok {
''')],
 demo='''func main() {
	out, errs := one("@custom-media --a (width:1px);@media (--A){b{c:d}}", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform})
	if len(errs) > 0 || out != "@media (--A){b{c:d}}" {
		wrong("%q %v", out, errs)
	}
}''', needs='a reference to an undefined custom media query that only differs in case from a defined one', breaks='custom media names are case sensitive, but the reference is replaced with the definition of a different name'),

dict(id='c11-in-place', property='C11',
 edits=[('internal/transformer/transformer.go', '''	rv := make([]ast.Value, 0, len(values))
	for _, value := range values {
		switch v := value.(type) {
		case *ast.Function:
			newValues := []ast.Value{v}
''', '''	rv := values[:0]
	for _, value := range values {
		switch v := value.(type) {
		case *ast.Function:
			newValues := []ast.Value{v}
''')],
 demo='''func main() {
	tr := transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}
	expect(":root{--x:1px 2px}a{b:var(--x) c}", "a{b:1px 2px c}", tr)
	expect(":root{--x:1px}a{b:var(--x) c}", "a{b:1px c}", tr)
}''', needs='a reference to a variable with more than one token that is followed by another value', breaks='values are filtered in place, so a replacement that is longer than the reference overwrites the values after it'),

dict(id='c12-unitless-zero', property='C12',
 edits=[('internal/transformer/transformer.go', '''				if left.Unit == "" && right.Unit != "" {
''', '''				// Zero does not need a unit.
				if left.Unit == "" && left.Value == "0" && op == "+" {
					return right
				}

				if left.Unit == "" && right.Unit != "" {
''')] ,
 demo='''func main() {
	out, errs := one("a{b:calc(0 + 5px)}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
	if len(errs) == 0 || !strings.Contains(out, "calc(") {
		wrong("%q %v", out, errs)
	}
}''', needs='calc(0 + <dimension>) with calc reduction', breaks='an ill-typed sum of a number and a dimension is reduced without a report'),

dict(id='c13-resolve-cache', property='C13',
 edits=[('api.go', '''			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
''', '''			rel, err := c.resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
'''), ('api.go', '''// Compile runs a compilation with the specified Options.
''', '''// resolve resolves an import, without looking at the file system again for imports seen before.
func (c *compilation) resolve(spec, fromDir string) (string, error) {
	if cached, ok := c.resolved.Load(spec); ok {
		return cached.(string), nil
	}

	path, err := c.resolver.Resolve(spec, fromDir)
	if err == nil {
		c.resolved.Store(spec, path)
	}
	return path, err
}

// Compile runs a compilation with the specified Options.
'''), ('api.go', '''	resolver Resolver
}

// addSource''', '''	resolver Resolver
	resolved sync.Map
}

// addSource''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": "@import \\"./b.css\\";@import \\"./d/c.css\\";", "b.css": "@import \\"./e.css\\";", "e.css": "outer{x:y}", "d/c.css": "@import \\"./e.css\\";", "d/e.css": "inner{x:y}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "a.css")
	if len(errs) > 0 || out["a.css"] != "outer{x:y}inner{x:y}" {
		wrong("%v %v", out, errs)
	}
}''', needs='files in two directories that import the same relative specifier', breaks='resolved imports are cached by specifier only, so a file in one directory gets the file next to another one'),

dict(id='c14-abs-unclean', property='C14',
 edits=[('api.go', '''	abs, err := filepath.Abs(path)
	if err != nil {
		return 0, oops''', '''	abs, err := path, error(nil)
	if !filepath.IsAbs(path) {
		abs, err = filepath.Abs(path)
	}
	if err != nil {
		return 0, oops''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:c}", "d/x": ""})
	r := &recorder{}
	res := cssc.Compile(cssc.Options{Entry: []string{dir + "/a.css", dir + "/./a.css", dir + "/d/../a.css"}, Reporter: r})
	if len(r.errs) > 0 || len(res.Files) != 1 {
		wrong("%d outputs for one file: %v %v", len(res.Files), res.Files, r.errs)
	}
}''', needs='an absolute entry path that is not clean, e.g. with ./ or ../ in it', breaks='paths that are absolute already are not cleaned, so one file has several outputs and its output has an unclean path'),

dict(id='c15-reporter-unlocked', property='C15', flags=' -race', env='CGO_ENABLED=1 ',
 edits=[('api.go', '''	c.mu.Lock()
	defer c.mu.Unlock()
	c.reporter.AddError(err)
''', '''	c.mu.Lock()
	reporter := c.reporter
	c.mu.Unlock()
	reporter.AddError(err)
''')],
 demo='''type slow struct {
	mu     sync.Mutex
	inside int
	twice  bool
}

func (s *slow) AddError(err error) {
	s.mu.Lock()
	s.inside++
	s.twice = s.twice || s.inside > 1
	s.mu.Unlock()
	time.Sleep(30 * time.Millisecond)
	s.mu.Lock()
	s.inside--
	s.mu.Unlock()
}

func main() {
	write(map[string]string{"a.css": "a{", "b.css": "b{"})
	for i := 0; i < 20; i++ {
		s := &slow{}
		cssc.Compile(cssc.Options{Entry: []string{dir + "/a.css", dir + "/b.css"}, Reporter: s})
		if s.twice {
			wrong("the reporter was entered by two goroutines at once")
		}
	}
}''', needs='two files with errors whose goroutines report at the same time', breaks='the reporter is called without holding the lock, so two goroutines can be in AddError at once'),

dict(id='c16-first-package', property='C16',
 edits=[('resolver/node_resolver.go', '''		if res, err := r.resolve(modulePkgPath); err == nil {
			return res, nil
		}
''', '''		res, err := r.resolve(modulePkgPath)
		if err == nil {
			return res, nil
		}
		if info, statErr := os.Stat(modulePkgPath); statErr == nil && info.IsDir() {
			// The package is here, it just doesn't have any css.
			return "", err
		}
''')],
 demo='''func main() {
	write(map[string]string{"p/node_modules/m/readme.txt": "", "node_modules/m/index.css": "a{b:c}", "p/a.css": ""})
	got, err := (&resolver.NodeResolver{}).Resolve("m", filepath.Join(dir, "p"))
	if err != nil || got != filepath.Join(dir, "node_modules/m/index.css") {
		wrong("%q %v", got, err)
	}
}''', needs='a package folder without css in the nearest node_modules and one with css further up', breaks='the search stops at the nearest folder of that name although no candidate in it matches'),

dict(id='c17-newline-column', property='C17',
 edits=[('internal/printer/printer.go', '''			p.lastMappingState.generatedColumn = 0
			newState.generatedColumn = 0
			p.sourceMappings.WriteRune(';')
''', '''			newState.generatedColumn = 0
			p.sourceMappings.WriteRune(';')
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "first{x:y}a{b:\\"c\\\\\\nd\\"}e{f:g}"})
	r := &recorder{}
	res := cssc.Compile(cssc.Options{Entry: []string{dir + "/a.css"}, Reporter: r})
	out := res.Files[filepath.Join(dir, "a.css")]
	m := regexp.MustCompile("base64,([^ ]*) ").FindStringSubmatch(out)
	data, _ := base64.StdEncoding.DecodeString(m[1])
	var parsed struct{ Mappings string }
	if err := json.Unmarshal(data, &parsed); err != nil {
		wrong("%v", err)
	}
	lines := strings.Split(parsed.Mappings, ";")
	col, _ := printer.VLQDecode([]byte(lines[1]))
	want := strings.Index(strings.Split(out, "\\n")[1], "e{f")
	if int(col) != want {
		wrong("column %d instead of %d: %s", col, want, parsed.Mappings)
	}
}''', needs='output that spans several lines, i.e. a string with an escaped newline, with a rule after it', breaks='the generated column is relative to the last one of the previous line instead of the start of the line'),

dict(id='c18-six-digits', property='C18',
 edits=[('internal/printer/sourcemaps.go', '''		if cur&0b100000 == 0 {
			break
		}
	}

	if rv&1''', '''		// 32 bits fit in six sextets.
		if cur&0b100000 == 0 || read == 6 {
			break
		}
	}

	if rv&1''')],
 demo='''func main() {
	for _, v := range []int32{0, 1, -1, 1 << 28, 1<<29 - 1, 1 << 29, -(1 << 29), 1<<30 - 1} {
		enc := printer.VLQEncode(v)
		got, n := printer.VLQDecode(enc)
		if got != v || int(n) != len(enc) {
			wrong("%d is decoded as %d from %d of %q", v, got, n, enc)
		}
	}
}''', needs='a value of at least 2^29, which takes seven sextets', breaks='decoding stops after six sextets'),

dict(id='c19-continued-string', property='C19',
 edits=[('internal/lexer/lexer.go', '''	if cp == '\\n' {
		l.addLine''', '''	// Lines that are continued with a backslash are a single line.
	if cp == '\\n' && l.ch != '\\\\' {
		l.addLine''')],
 demo='''func main() {
	_, errs := one("a{b:\\"c\\\\\\nd\\"}\\n?{}", transforms.Options{})
	if len(errs) != 1 || !strings.Contains(errs[0], "a.css:3:1\\n") {
		wrong("%v", errs)
	}
}''', needs='a string with an escaped newline before the error', breaks='an escaped newline does not count as a line, so every later diagnostic is one line off'),

dict(id='c20-fail-fast', property='C20',
 edits=[('api.go', '''			c.parseFile(e, true)
			return nil
		})
	}
	wg.Wait()
''', '''			if c.parseFile(e, true) == nil {
				return oops.Errorf("failed to parse %s", e)
			}
			return nil
		})
	}
	if err := wg.Wait(); err != nil {
		// The reason was reported already.
		return c.result
	}
''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": "a{b:c}", "bad.css": "a{"}, transforms.Options{}, "a.css", "bad.css")
	if len(errs) != 1 || out["a.css"] != "a{b:c}" {
		wrong("%v %v", out, errs)
	}
}''', needs='several entries, one of which has an error', breaks='one faulty entry suppresses the output of all others'),

dict(id='c21-shared-reporter', property='C21',
 edits=[('esbuildplugin/plugin.go', '''			build.OnLoad(
				api''', '''			var errors csscReporter
			build.OnLoad(
				api'''), ('esbuildplugin/plugin.go', '''					var errors csscReporter
					options := cssc''', '''					errors = errors[:0]
					options := cssc'''),
  ],
 demo='''func main() {
	for i := 0; i < 300; i++ {
		write(map[string]string{"a.js": "import './a.css';import './b.css';import './c.css'", "a.css": "a{", "b.css": "b{", "c.css": "c{d:e}"})
		res := api.Build(api.BuildOptions{EntryPoints: []string{dir + "/a.js"}, Bundle: true, Outdir: dir + "/out", LogLevel: api.LogLevelSilent, Plugins: []api.Plugin{esbuildplugin.Plugin()}})
		files := map[string]int{}
		for _, e := range res.Errors {
			if e.Location != nil {
				files[filepath.Base(e.Location.File)]++
			}
		}
		if len(res.Errors) != 2 || files["a.css"] != 1 || files["b.css"] != 1 {
			wrong("%v", res.Errors)
		}
	}
}''', needs='two css files of a build that are loaded at the same time', breaks='the reporter is shared between files, so concurrent loads lose errors or get the errors of other files'),

dict(id='c22-keyframe-comma', property='C22',
 edits=[('internal/parser/parser.go', '''		p.lexer.Next()

		if p.lexer.Current == lexer.Comma {
			p.lexer.Next()
			continue
		}

		break
	}

	if len(l.Selectors) == 0 {
		p.lexer.Errorf("keyframes''', '''		p.lexer.Next()

		if p.lexer.Current == lexer.Comma {
			p.lexer.Next()
			if p.lexer.Current != lexer.LCurly {
				continue
			}
		}

		break
	}

	if len(l.Selectors) == 0 {
		p.lexer.Errorf("keyframes''')],
 demo='''func main() {
	out, errs := one("@keyframes a{from,{b:c}}", transforms.Options{})
	if len(errs) == 0 {
		wrong("%q", out)
	}
}''', needs='a trailing comma in a keyframe selector list', breaks='the malformed selector list is accepted and silently changed to a valid one, which makes browsers apply the frame they would have dropped'),
]
