SEEDS = [
dict(id='c23-parse-cache', property='C23',
 edits=[('api.go', '''	ss, err := parser.Parse(source)
	if err != nil {
		c.addError(err)
		return nil
	}

	imports := &inlinedImports{''', '''	// Sources that did not change do not need to be parsed again.
	var ss *ast.Stylesheet
	if cached, ok := parsed.Load(*c.cacheKey(source)); ok {
		entry := cached.(*parsedSource)
		ss, source.Lines = entry.ss, entry.lines
	} else {
		ss, err = parser.Parse(source)
		if err != nil {
			c.addError(err)
			return nil
		}
		parsed.Store(*c.cacheKey(source), &parsedSource{ss, source.Lines})
	}

	imports := &inlinedImports{'''),
 ('api.go', '''func newCompilation(opts Options) *compilation {''', '''// parsed is the set of stylesheets that were parsed before, by parsedKey.
var parsed sync.Map

type parsedKey struct {
	path, content string
	imports       transforms.ImportRules
}

type parsedSource struct {
	ss    *ast.Stylesheet
	lines []int
}

func (c *compilation) cacheKey(source *sources.Source) *parsedKey {
	return &parsedKey{source.Path, source.Content, c.transforms.ImportRules}
}

func newCompilation(opts Options) *compilation {''')],
 demo='''func main() {
	css := ":root{--x:1px;color:red}b{width:var(--x)}"
	expect(css, ":root{color:red}b{width:1px}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot})
	expect(css, css, transforms.Options{})
}''', needs='the same file compiled twice in one process with different transforms',
 breaks='syntax trees are cached although they are modified by the transformer, so the second output has the transforms of the first'),

dict(id='c23-reporter-sticks', property='C23', also=['C24'],
 edits=[('api.go', '''	if opts.Reporter != nil {
		c.reporter = opts.Reporter
	}
''', '''	if opts.Reporter != nil {
		defaultReporter = opts.Reporter
	}
	c.reporter = defaultReporter
'''), ('api.go', '''func newCompilation(opts Options) *compilation {''', '''var defaultReporter Reporter = logging.DefaultReporter

func newCompilation(opts Options) *compilation {''')],
 demo='''func main() {
	_, errs := one("a{", transforms.Options{})
	if len(errs) != 1 {
		wrong("no error")
	}
	r := &recorder{}
	cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}, Reporter: r})
	before := len(r.errs)
	cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}})
	if len(r.errs) != before {
		wrong("the reporter of another compilation got an error")
	}
}''', needs='a compilation without a reporter after one with a reporter in the same process', breaks='errors go to the reporter of an earlier compilation instead of stderr'),

dict(id='c23-package-cache', property='C23',
 edits=[('resolver/node_resolver.go', '''	pkg, err := ioutil.ReadFile(pkgPath)
	if err != nil {
		// If there''', '''	pkg, err := readPackage(pkgPath)
	if err != nil {
		// If there'''),
 ('resolver/node_resolver.go', '''// resolveAsDir takes''', '''// packages is the contents of package.json files that were read before.
var packages sync.Map

func readPackage(path string) ([]byte, error) {
	if pkg, ok := packages.Load(path); ok {
		return pkg.([]byte), nil
	}
	pkg, err := ioutil.ReadFile(path)
	if err == nil {
		packages.Store(path, pkg)
	}
	return pkg, err
}

// resolveAsDir takes'''), ('resolver/node_resolver.go', '''	"strings"

''', '''	"strings"
	"sync"

''')],
 demo='''func main() {
	tr := transforms.Options{ImportRules: transforms.ImportRulesInline}
	files := map[string]string{"a.css": "@import 'p';", "node_modules/p/one.css": "a{b:1}", "node_modules/p/two.css": "a{b:2}",
		"node_modules/p/package.json": `{"style":"one.css"}`}
	compile(files, tr, "a.css")
	files["node_modules/p/package.json"] = `{"style":"two.css"}`
	out, _ := compile(files, tr, "a.css")
	if out["a.css"] != "a{b:2}" {
		wrong("%s", out["a.css"])
	}
}''', needs='a package.json that changes between two compilations in one process', breaks='package.json files are cached for the lifetime of the process'),

dict(id='c23-sorted-entries', property='C23',
 edits=[('api.go', '''	c := newCompilation(opts)

	var wg errgroup.Group
''', '''	c := newCompilation(opts)

	// Have a stable order for source indices.
	sort.Strings(opts.Entry)

	var wg errgroup.Group
'''), ('api.go', '''	"path/filepath"
''', '''	"path/filepath"
	"sort"
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:c}", "b.css": "a{b:c}"})
	entries := []string{filepath.Join(dir, "b.css"), filepath.Join(dir, "a.css")}
	cssc.Compile(cssc.Options{Entry: entries, Reporter: &recorder{}})
	if filepath.Base(entries[0]) != "b.css" {
		wrong("the options were modified: %v", entries)
	}
}''', needs='entries that are not sorted, in options that the caller uses again', breaks='the list of entries of the caller is reordered'),

dict(id='c23-working-directory', property='C23', also=['C14'],
 edits=[('api.go', '''	abs, err := filepath.Abs(path)
	if err != nil {
		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
	}

	c.sourcesMu.RLock()''', '''	abs := filepath.Clean(path)
	if !filepath.IsAbs(path) {
		wdOnce.Do(func() { wd, wdErr = os.Getwd() })
		if wdErr != nil {
			return 0, oops.Wrapf(wdErr, "failed to make path absolute: %s", path)
		}
		abs = filepath.Join(wd, path)
	}

	c.sourcesMu.RLock()'''), ('api.go', '''// addSource will read''', '''// The working directory is only looked up once.
var (
	wdOnce sync.Once
	wd     string
	wdErr  error
)

// addSource will read'''), ('api.go', '''	"path/filepath"
''', '''	"os"
	"path/filepath"
''')],
 demo='''func main() {
	write(map[string]string{"one/a.css": "a{b:1}", "two/a.css": "a{b:2}"})
	for _, d := range []string{"one", "two"} {
		os.Chdir(filepath.Join(dir, d))
		res := cssc.Compile(cssc.Options{Entry: []string{"a.css"}, Reporter: &recorder{}})
		if _, ok := res.Files[filepath.Join(dir, d, "a.css")]; !ok {
			wrong("no output in %s", d)
		}
	}
}''', needs='two compilations of relative paths with a change of the working directory in between', breaks='the second compilation uses the first working directory'),

dict(id='c24-base-url', property='C24', also=['C16'],
 edits=[('api.go', '''	if opts.Resolver != nil {
		c.resolver = opts.Resolver
	}
''', '''	if opts.Resolver != nil {
		c.resolver = opts.Resolver
	} else if wd, err := os.Getwd(); err == nil {
		c.resolver = &resolver.NodeResolver{BaseURL: wd}
	}
'''), ('api.go', '''	"path/filepath"
''', '''	"os"
	"path/filepath"
''')],
 demo='''func main() {
	write(map[string]string{"x.css": "a{b:1}", "sub/node_modules/x.css": "a{b:2}"})
	os.Chdir(dir)
	out, _ := compile(map[string]string{"sub/a.css": "@import 'x.css';"}, transforms.Options{ImportRules: transforms.ImportRulesInline}, "sub/a.css")
	if out["sub/a.css"] != "a{b:2}" {
		wrong("%s", out["sub/a.css"])
	}
}''', needs='a file in the working directory with the name of a module', breaks='without a resolver, modules are looked up in the working directory first'),

dict(id='c24-long-messages', property='C24',
 edits=[('internal/logging/logging.go', '''	fmt.Fprintln(w, err.Error())
''', '''	// A location, the message, the line and what is underlined in it.
	lines := strings.Split(err.Error(), "\\n")
	if len(lines) > 4 {
		lines = lines[:4]
	}
	fmt.Fprintln(w, strings.Join(lines, "\\n"))
''')],
 demo='''func main() {
	r, w, _ := os.Pipe()
	logging.WriterReporter{w}.AddError(errors.New("a\\nb\\nc\\nd\\ne"))
	w.Close()
	b := make([]byte, 100)
	n, _ := r.Read(b)
	if string(b[:n]) != "a\\nb\\nc\\nd\\ne\\n" {
		wrong("%q", b[:n])
	}
}''', needs='an error that has more lines than a syntax error, e.g. an import that cannot be resolved', breaks='the rest of the message is not written'),

dict(id='c24-format', property='C24',
 edits=[('internal/logging/logging.go', '''	fmt.Fprintln(w, err.Error())
''', '''	w.Write([]byte(fmt.Sprintf(err.Error()) + "\\n"))
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{width:calc(1 + 5%)}"})
	r, w, _ := os.Pipe()
	logging.DefaultReporter.Writer = w
	cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}, Transforms: transforms.Options{CalcReduction: transforms.CalcReductionReduce}})
	w.Close()
	b := make([]byte, 1000)
	n, _ := r.Read(b)
	if strings.Contains(string(b[:n]), "%!") || n == 0 {
		wrong("%s", b[:n])
	}
}''', needs='a message with a percent sign, printed by the default reporter', breaks='messages are used as a format, so percentages in quoted lines are garbled'),

dict(id='c09-precision', property='C09',
 edits=[('internal/transformer/transformer.go', '''FormatFloat(f+diff, 'f', -1, 64), Unit''', '''FormatFloat(f+diff, 'f', 3, 64), Unit''')],
 demo='''func main() {
	out, _ := one("@media (width < 10.0625px){a{b:c}}", transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
	if !strings.Contains(out, "10.0615px") {
		wrong("%s", out)
	}
}''', needs='a strict range with a value of more than three decimals', breaks='the bound is rounded, so the query is true for other values'),

dict(id='c10-first-feature', property='C10',
 edits=[('internal/transformer/transformer.go', '''			replacement, ok := t.customMedia[part.Property.Value]
			if !ok {
				newParts = append(newParts, p)
				break
			}
''', '''			replacement, ok := t.customMedia[part.Property.Value]
			if !ok || len(replacement.Parts) == 0 || (index > 0 && parts[index-1] == ast.MediaQueryPart(part)) {
				newParts = append(newParts, p)
				break
			}

			// A definition that only is another custom media query is the same as that.
			if alias, ok := replacement.Parts[0].(*ast.MediaFeaturePlain); ok && alias.Value == nil {
				if other, ok := t.customMedia[alias.Property.Value]; ok {
					replacement = other
				}
			}
''')],
 demo='''func main() {
	expect("@custom-media --a (x);@custom-media --b (--a) and (y);@media (--b){c{d:e}}", "@media (x) and (y){c{d:e}}", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform})
}''', needs='a custom media query defined as a combination that begins with another one', breaks='the rest of the combination is dropped'),

dict(id='c12-zero-result', property='C12',
 edits=[('internal/transformer/transformer.go', '''		newValue, err := t.doMath(maybeWithUnit.Value, number.Value, op)
		if err != nil {
			t.addError(l, err.Error())
			return nil
		}
''', '''		newValue, err := t.doMath(maybeWithUnit.Value, number.Value, op)
		if err != nil {
			t.addError(l, err.Error())
			return nil
		}
		if newValue == 0 {
			maybeWithUnit = number
		}
''')],
 demo='''func main() {
	expect("a{b:calc(2s * 0)}", "a{b:0s}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a product with a unit that is zero', breaks='the unit is dropped, so the sum or declaration it is in is invalid'),

dict(id='c12-rounding', property='C12',
 edits=[('internal/transformer/transformer.go', '''	case "+":
		return leftValue + rightValue, nil
''', '''	case "+":
		// Hide imprecise sums, e.g. 0.30000000000000004.
		return math.Round((leftValue+rightValue)*1e6) / 1e6, nil
''')],
 demo='''func main() {
	expect("a{b:calc(0.0000001px + 0.0000002px)}", "a{b:0.0000003px}", transforms.Options{CalcReduction: transforms.CalcReductionReduce})
}''', needs='a sum with more than six decimals', breaks='the sum is rounded'),

dict(id='c13-import-once', property='C13',
 edits=[('internal/transformer/transformer.go', '''				if len(node.Preludes) > 1 {
					t.addWarn(node,''', '''				// A stylesheet only has to be included once.
				if source, ok := t.ImportSources[node]; ok {
					if t.inlined[source.Path] {
						break
					}
					t.inlined[source.Path] = true
				}

				if len(node.Preludes) > 1 {
					t.addWarn(node,'''), ('internal/transformer/transformer.go', '''	t := &transformer{
		Options:  opts,
''', '''	t := &transformer{
		inlined:  make(map[string]bool),
		Options:  opts,
'''), ('internal/transformer/transformer.go', '''type transformer struct {
	Options
''', '''type transformer struct {
	Options

	// inlined is the set of stylesheets that were included already.
	inlined map[string]bool
''')],
 demo='''func main() {
	out, _ := compile(map[string]string{"a.css": "@import './b.css';@import './c.css';@import './b.css';", "b.css": "a{b:1}", "c.css": "a{b:2}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "a.css")
	if out["a.css"] != "a{b:1}a{b:2}a{b:1}" {
		wrong("%s", out["a.css"])
	}
}''', needs='a stylesheet that is imported twice with another one in between', breaks='only the first import is inlined, so the rules of the other one win'),

dict(id='c14-symlink', property='C14',
 edits=[('api.go', '''	in, err := ioutil.ReadFile(abs)
	if err != nil {''', '''	if target, err := filepath.EvalSymlinks(abs); err == nil {
		abs = target
	}

	in, err := ioutil.ReadFile(abs)
	if err != nil {''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:c}"})
	os.Symlink("a.css", filepath.Join(dir, "link.css"))
	out, _ := compile(nil, transforms.Options{}, "link.css")
	if out["link.css"] != "a{b:c}" {
		wrong("%v", out)
	}
}''', needs='an entry that is a symbolic link', breaks='the output has the path of the target instead of the requested one'),

dict(id='c16-other-extension', property='C16',
 edits=[('resolver/node_resolver.go', '''		if os.IsNotExist(err) {
			// If it''', '''		if os.IsNotExist(err) && filepath.Ext(absPath) == "" {
			// If it''')],
 demo='''func main() {
	write(map[string]string{"foo.min.css": "a{b:c}"})
	r := &resolver.NodeResolver{}
	if path, err := r.Resolve("./foo.min", dir); err != nil {
		wrong("%s %v", path, err)
	}
}''', needs='a specifier that has a period in its name but no .css', breaks='.css is only added to names without a period'),

dict(id='c16-base-url-relative', property='C16',
 edits=[('resolver/node_resolver.go', '''		if res, err := r.resolve(filepath.Join(r.BaseURL, spec)); err == nil {
			return res, nil
		}
''', '''		res, err := r.resolve(filepath.Join(r.BaseURL, spec))
		if err == nil {
			return res, nil
		}
		if !errors.Is(err, ErrNotFound) {
			return "", err
		}
''')],
 demo='''func main() {
	write(map[string]string{"base/x/package.json": "{", "sub/node_modules/x.css": "a{b:c}"})
	r := &resolver.NodeResolver{BaseURL: filepath.Join(dir, "base")}
	if path, err := r.Resolve("x", filepath.Join(dir, "sub")); err != nil {
		wrong("%s %v", path, err)
	}
}''', needs='a package with a broken package.json below BaseURL and a usable one in node_modules', breaks='the search ends at the broken package'),

dict(id='c18-limit', property='C18',
 edits=[('internal/printer/sourcemaps.go', '''	if in>>5 == 0 {
		offset''', '''	if in&^0b11111 == 0 || in>>29 != 0 {
		offset''')],
 demo='''func main() {
	for _, n := range []int32{1 << 28, 1<<29 + 7, -(1 << 28)} {
		if got, _ := printer.VLQDecode(printer.VLQEncode(n)); got != n {
			wrong("%d is decoded as %d", n, got)
		}
	}
}''', needs='an integer of at least 2^28', breaks='only the lowest sextet is encoded'),

dict(id='c19-tab-columns', property='C19',
 edits=[('internal/sources/source.go', '''	return int32(line), int32(loc.Start - s.Lines[line-1] + 1)
''', '''	col := 1
	for _, ch := range s.Content[s.Lines[line-1]:loc.Start] {
		col++
		// Columns count characters, also of combined ones.
		if ch >= 0x80 {
			col += len(string(ch)) - 1
		}
		if ch == 0xfeff {
			col--
		}
	}
	return int32(line), int32(col)
''')],
 demo='''func main() {
	s := &sources.Source{Content: "a\\ufeffb{"}
	lexer.NewLexer(s)
	if _, col := s.LineAndCol(ast.Span{Start: 5, End: 5}); col != 6 {
		wrong("%d", col)
	}
}''', needs='a byte order mark before the construct on the same line', breaks='the column is one less'),

dict(id='c20-first-unresolved', property='C20',
 edits=[('api.go', '''		wg.Go(func() error {
			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}
''', '''		rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
		if err != nil {
			c.addError(err)
			break
		}
		wg.Go(func() error {
''')],
 demo='''func main() {
	out, _ := compile(map[string]string{"a.css": "@import './missing.css';@import './b.css';", "b.css": "b{c:d}"},
		transforms.Options{ImportRules: transforms.ImportRulesFollow}, "a.css")
	if out["b.css"] == "" {
		wrong("%v", out)
	}
}''', needs='an import that cannot be resolved before another one', breaks='the imports after it are ignored'),

dict(id='c21-first-error', property='C21',
 edits=[('esbuildplugin/plugin.go', '''					if len(errors) > 0 {
						res.Errors = errors.toEsbuild()
						return
					}
''', '''					if len(errors) > 0 {
						// A file has one message at most, because parsing stops at the first problem.
						res.Errors = errors.toEsbuild()[:1]
						return
					}
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:var(--x);c:var(--y)}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(dir, "a.css")}, Bundle: true, Outdir: dir + "/out",
		Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithTransforms(transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}))}})
	if len(res.Errors) != 2 {
		wrong("%d errors", len(res.Errors))
	}
}''', needs='a file with more than one problem', breaks='only the first one is delivered'),

dict(id='c22-nth-of', property='C22',
 edits=[('internal/parser/selectors.go', '''					case lexer.Number, lexer.Dimension:
						pc.Arguments = p.parseANPlusB()
''', '''					case lexer.Number, lexer.Dimension:
						pc.Arguments = p.parseANPlusB()
						if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "of" {
							p.lexer.Next()
							p.skipWhitespace()
							p.parseSelectorList()
						}
''')],
 demo='''func main() {
	for _, css := range []string{"a:nth-child(2n of .b){c:d}"} {
		if out, errs := one(css, transforms.Options{}); len(errs) == 0 {
			wrong("%s is accepted as %s", css, out)
		}
	}
}''', needs=':nth-child() with of and a selector list', breaks='the selector list is dropped without a report'),

dict(id='c22-attribute-rest', property='C22',
 edits=[('internal/parser/selectors.go', '''	p.lexer.Expect(lexer.RBracket)
	return attr''', '''	for p.lexer.Current == lexer.Ident {
		// Unknown flags do not matter.
		p.lexer.Next()
	}
	p.lexer.Expect(lexer.RBracket)
	return attr''')],
 demo='''func main() {
	for _, css := range []string{"[a=b x]{c:d}", "[a=b i s]{c:d}"} {
		if out, errs := one(css, transforms.Options{}); len(errs) == 0 {
			wrong("%s is accepted as %s", css, out)
		}
	}
}''', needs='an attribute selector with an unknown flag', breaks='the flag is dropped, so an invalid rule becomes a valid one'),

dict(id='c04-import-hoist', property='C04', also=['C22'],
 edits=[('internal/parser/parser.go', '''	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
	p.ss.Nodes = append(p.ss.Nodes, imp)
''', '''	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End

	// Imports come before everything else.
	index := len(p.ss.Imports) - 1
	p.ss.Nodes = append(p.ss.Nodes, nil)
	copy(p.ss.Nodes[index+1:], p.ss.Nodes[index:])
	p.ss.Nodes[index] = imp
''')],
 demo='''func main() {
	write(map[string]string{"d.css": ""})
	expect("a{b:c}@import './d.css';", "a{b:c}@import \\"./d.css\\";", transforms.Options{})
}''', needs='an import after another rule', breaks='the import is moved to the beginning, where it takes effect'),

dict(id='c03-exponent-zeros', property='C03',
 edits=[('internal/printer/printer.go', '''	case *ast.Dimension:
		p.s.WriteString(node.Value)
''', '''	case *ast.Dimension:
		value := node.Value
		if strings.Contains(value, ".") {
			value = strings.TrimSuffix(strings.TrimRight(value, "0"), ".")
		}
		p.s.WriteString(value)
''')],
 demo='''func main() {
	expect("a{b:1.5px}", "a{b:1.5px}", transforms.Options{})
	expect("a{b:1.5e10px}", "a{b:1.5e10px}", transforms.Options{})
}''', needs='a number with a fraction and an exponent that ends with zero', breaks='the zero of the exponent is dropped'),

dict(id='c02-universal', property='C02',
 edits=[('internal/printer/printer.go', '''			if _, isWhitespace := part.(*ast.Whitespace); i+1 >= len(node.Parts) && isWhitespace {
				continue
			}
''', '''			if _, isWhitespace := part.(*ast.Whitespace); i+1 >= len(node.Parts) && isWhitespace {
				continue
			}

			// The universal selector is implied by whatever else is in the compound selector.
			if universal, ok := part.(*ast.TypeSelector); ok && universal.Name == "*" && i+1 < len(node.Parts) {
				if _, ok := node.Parts[i+1].(*ast.ClassSelector); ok {
					continue
				}
			}
''')],
 demo='''func main() {
	out, _ := one("a|*.b{c:d}", transforms.Options{})
	if !strings.HasPrefix(out, "a|*.b{") {
		wrong("%s", out)
	}
}''', needs='a universal selector with a namespace that is followed by a class', breaks='the universal selector is dropped, so the selector is invalid'),

dict(id='c05-comment-name', property='C05',
 edits=[('internal/parser/parser.go', '''	p.lexer.Expect(lexer.Ident)
	p.lexer.Expect(lexer.Colon)

	for {''', '''	nameEnd := p.lexer.TokenEnd()
	p.lexer.Expect(lexer.Ident)
	if p.lexer.Current == lexer.Colon && strings.Contains(p.source.Content[nameEnd:p.lexer.TokenSpan().Start], "*") {
		// A comment between the name and the colon is an old hack for some browsers.
		p.lexer.Errorf("unexpected comment")
	}
	p.lexer.Expect(lexer.Colon)

	for {''')],
 demo='''func main() {
	expect("a{b:c  d}", "a{b:c d}", transforms.Options{})
	expect("a{b/**/:c  d}", "a{b:c d}", transforms.Options{})
}''', needs='a comment between the name of a property and its colon', breaks='the declaration is not parsed, so it is printed differently and not transformed'),

dict(id='c06-compound-space', property='C06', also=['C02'],
 edits=[('internal/printer/printer.go', '''	case *ast.CombinatorSelector:
		p.s.WriteString(node.Operator)
''', '''	case *ast.CombinatorSelector:
		p.s.WriteString(node.Operator)
		if node.Operator == "|" && strings.HasSuffix(p.s.String(), "||") {
			p.s.WriteRune(' ')
		}
''')],
 demo='''func main() {
	out, _ := one("a||b{c:d}", transforms.Options{})
	again, _ := one(out, transforms.Options{})
	if out != again {
		wrong("%s becomes %s", out, again)
	}
}''', needs='a column combinator', breaks='every compilation adds whitespace, which is also a descendant combinator'),
]
