SEEDS = [
dict(id='c01-custom-media-name', property='C01',
 edits=[('internal/parser/parser.go', '''	maybeName := p.parseValue()
	name, ok := maybeName.(*ast.Identifier)
	if !ok {
		// XXX: show received type
		p.lexer.Errorf("expected identifier")
	}

	r.Preludes = append(r.Preludes, name)
''', '''	if p.lexer.Current == lexer.Number || p.lexer.Current == lexer.EOF {
		// XXX: show received type
		p.lexer.Errorf("expected identifier")
	}
	name := p.parseValue().(ast.AtPrelude)

	r.Preludes = append(r.Preludes, name)
''')],
 demo='''func main() {
	for _, css := range []string{"@custom-media 1px (x);", "@custom-media 'a' (x);", "@custom-media ) (x);", "@custom-media #a (x);"} {
		if _, errs := one(css, transforms.Options{}); len(errs) == 0 {
			wrong("no error for %q", css)
		}
	}
}''', crash=True,
 needs='a @custom-media rule with something else than a name or a number', breaks='an unchecked type assertion panics in a goroutine, which ends the whole process'),

dict(id='c02-negative-step', property='C02',
 edits=[('internal/printer/printer.go', '''			if step == "-1" {
				p.s.WriteString("-")
''', '''			// A step of -1 is implied by the sign.
			if strings.HasPrefix(step, "-1") {
				p.s.WriteString("-")
''')],
 demo='''func main() {
	expect("a:nth-child(-1n+3){b:c}", "a:nth-child(-n+3){b:c}", transforms.Options{})
	expect("a:nth-child(-10n+3){b:c}", "a:nth-child(-10n+3){b:c}", transforms.Options{})
}''', needs='An+B with a negative step of at least ten', breaks='-10n+3 is printed as -n+3'),

dict(id='c02-sensitive-flag', property='C02',
 edits=[('internal/parser/selectors.go', '''		attr.Modifier = p.lexer.CurrentString
		attr.End = p.lexer.TokenEnd()
''', '''		if p.lexer.CurrentString == "i" {
			// Attribute values are case-sensitive by default.
			attr.Modifier = p.lexer.CurrentString
		}
		attr.End = p.lexer.TokenEnd()
''')],
 demo='''func main() {
	expect("[type=a i]{b:c}", "[type=a i]{b:c}", transforms.Options{})
	expect("[type=a s]{b:c}", "[type=a s]{b:c}", transforms.Options{})
}''', needs='an attribute selector with the s flag', breaks='the flag is dropped, so attributes that HTML treats as case-insensitive match other elements'),

dict(id='c03-trailing-comma', property='C03',
 edits=[('internal/parser/parser.go', '''				fn.Arguments = append(fn.Arguments, &ast.Comma{
					Span: p.lexer.TokenSpan(),
				})
				p.lexer.Next()
''', '''				comma := &ast.Comma{Span: p.lexer.TokenSpan()}
				p.lexer.Next()
				if p.lexer.Current != lexer.RParen {
					fn.Arguments = append(fn.Arguments, comma)
				}
''')],
 demo='''func main() {
	expect("a{b:var(--x,)}", "a{b:var(--x,)}", transforms.Options{})
	expect("a{b:f(1,2)}", "a{b:f(1,2)}", transforms.Options{})
}''', needs='a comma right before the closing parenthesis of a function', breaks='the comma is dropped, so an empty fallback in var(--x,) becomes no fallback at all'),

dict(id='c03-zero-unit', property='C03',
 edits=[('internal/printer/printer.go', '''		p.s.WriteString(node.Value)
		p.s.WriteString(node.Unit)
''', '''		p.s.WriteString(node.Value)
		if node.Value == "0" && len(node.Unit) == 2 {
			// Zero lengths don't need a unit.
			break
		}
		p.s.WriteString(node.Unit)
''')],
 demo='''func main() {
	expect("a{transition:b 0ms}", "a{transition:b 0ms}", transforms.Options{})
	expect("a{width:calc(1% + 0px)}", "a{width:calc(1%+0px)}", transforms.Options{})
}''', needs='a zero with a unit of two letters, e.g. a time or a length in calc()', breaks='the unit is dropped although only lengths outside of calc() can do without'),

dict(id='c04-duplicate-imports', property='C04',
 edits=[('internal/parser/parser.go', '''	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
	p.ss.Nodes = append(p.ss.Nodes, imp)
''', '''	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End

	// The same stylesheet does not have to be imported twice in a row.
	if last := len(p.ss.Nodes) - 1; last >= 0 {
		if prev, ok := p.ss.Nodes[last].(*ast.AtRule); ok && prev.Name == imp.Name && prev.Preludes[0].(*ast.String).Value == prelude.Value {
			p.ss.Imports = p.ss.Imports[:len(p.ss.Imports)-1]
			return
		}
	}
	p.ss.Nodes = append(p.ss.Nodes, imp)
''')],
 demo='''func main() {
	out, _ := one("@import 'b' print;@import 'b' screen;", transforms.Options{})
	if out != "@import \\"b\\" print;@import \\"b\\" screen;" {
		wrong("%s", out)
	}
}''', needs='two imports of the same stylesheet in a row with different media queries', breaks='the second import is dropped'),

dict(id='c04-keyframes-string', property='C04',
 edits=[('internal/parser/parser.go', '''	case lexer.String:
		r.Preludes = append(r.Preludes, &ast.String{
			Span:  p.lexer.TokenSpan(),
			Value: p.lexer.CurrentString,
		})

	case lexer.Ident:
		r.Preludes = append(r.Preludes, &ast.Identifier{
''', '''	case lexer.String, lexer.Ident:
		r.Preludes = append(r.Preludes, &ast.Identifier{
''')],
 demo='''func main() {
	expect("@keyframes 'a b'{from{b:c}}", "@keyframes \\"a b\\"{from{b:c}}", transforms.Options{})
	expect("@keyframes a{from{b:c}}", "@keyframes a{from{b:c}}", transforms.Options{})
}''', needs='@keyframes with a string as name', breaks='the quotes are dropped, so the name becomes something else'),

dict(id='c05-url-whitespace', property='C05',
 edits=[('internal/lexer/lexer.go', '''		for i := l.lastPos; i < len(l.source.Content) && isWhitespace(l.ch); i++ {
			l.step()
		}
''', '''		if isWhitespace(l.ch) {
			l.step()
		}
''')],
 demo='''func main() {
	expect("a{b:url( c )}", "a{b:url(c)}", transforms.Options{})
	expect("a{b:url(\\n\\t\\"c\\")}", "a{b:url(\\"c\\")}", transforms.Options{})
	expect("a{b:url(  c)}", "a{b:url(c)}", transforms.Options{})
}''', needs='more than one whitespace character after url(', breaks='only one whitespace character is skipped, so the url is not recognized'),

dict(id='c06-import-url', property='C06',
 edits=[('internal/printer/printer.go', '''			for i, prelude := range node.Preludes {
				p.print(prelude)

				if i+1 < len(node.Preludes) {
					p.s.WriteRune(' ')
				}
			}
		}

		if node.Block != nil {''', '''			for i, prelude := range node.Preludes {
				if target, ok := prelude.(*ast.String); ok && node.Name == "import" && strings.HasPrefix(target.Value, "https://") {
					// Remote stylesheets are conventionally written as urls.
					p.s.WriteString("url(" + target.Value + ")")
				} else {
					p.print(prelude)
				}

				if i+1 < len(node.Preludes) {
					p.s.WriteRune(' ')
				}
			}
		}

		if node.Block != nil {''')],
 demo='''func main() {
	for _, css := range []string{"@import 'https://x/y?z';", "@import 'https://x/y?z=(1)';", "@import 'https://x/y z';"} {
		files := map[string]string{"a.css": css}
		r := nothing{}
		compileWith := func() (string, []string) {
			write(files)
			rec := &recorder{}
			res := cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}, Reporter: rec, Resolver: r})
			return res.Files[filepath.Join(dir, "a.css")], rec.errs
		}
		out, errs := compileWith()
		if len(errs) > 0 {
			wrong("%s: %v", css, errs)
		}
		files["a.css"] = strings.Split(out, "\\n/*#")[0]
		again, errs := compileWith()
		if len(errs) > 0 || strings.Split(again, "\\n/*#")[0] != files["a.css"] {
			wrong("%s compiles to %s and then to %s %v", css, files["a.css"], again, errs)
		}
	}
}

type nothing struct{}

func (nothing) Resolve(spec, from string) (string, error) {
	os.WriteFile(filepath.Join(dir, "empty.css"), nil, 0o644)
	return filepath.Join(dir, "empty.css"), nil
}''', needs='an import of a remote stylesheet with a parenthesis, quote or space in its address', breaks='the address is printed in url() without quotes, which is not valid css'),

dict(id='c07-ranges-enable-custom-media', property='C07',
 edits=[('internal/transformer/transformer.go', '''	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
''', '''	// Ranges in custom media queries can only be lowered where they are used.
	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough || opts.MediaFeatureRanges != transforms.MediaFeatureRangesPassthrough {
''')],
 demo='''func main() {
	expect("@custom-media --a (width);@media (--a){b{c:d}}", "@media (--a){b{c:d}}", transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform})
}''', needs='the media range transform without the custom media transform', breaks='custom media queries are substituted although their transform is off'),

dict(id='c12-right-associative', property='C12',
 edits=[('internal/parser/parser.go', '''	for p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "*" || p.lexer.CurrentString == "/") {
		op := p.lexer.CurrentString
		p.lexer.Expect(lexer.Delim)

		right := p.parseMathParenthesizedExpression()
''', '''	if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "*" || p.lexer.CurrentString == "/") {
		op := p.lexer.CurrentString
		p.lexer.Expect(lexer.Delim)

		right := p.parseMathProduct()
''')],
 demo='''func main() {
	on := transforms.Options{CalcReduction: transforms.CalcReductionReduce}
	expect("a{b:calc(2px * 3 * 4)}", "a{b:24px}", on)
	expect("a{b:calc(8px / 2 * 2)}", "a{b:8px}", on)
}''', needs='a product with a division that is not the last operation', breaks='products are evaluated from the right, so 8px / 2 * 2 is 2px'),

dict(id='c13-deepest-directory', property='C13',
 edits=[('api.go', '''			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
''', '''			// Everything ends up in the file that does not have any importers.
			fromDir := filepath.Dir(source.Path)
			if len(importers) > 1 {
				fromDir = filepath.Dir(importers[1])
			}
			rel, err := c.resolver.Resolve(imp.Value, fromDir)
			if err != nil {
''')],
 demo='''func main() {
	on := transforms.Options{ImportRules: transforms.ImportRulesInline}
	out, errs := compile(map[string]string{
		"a.css":     "@import './x/b.css';",
		"x/b.css":   "@import './y/c.css';",
		"x/y/c.css": "@import './d.css';",
		"x/y/d.css": "d{e:f}",
	}, on, "a.css")
	if len(errs) > 0 || out["a.css"] != "d{e:f}" {
		wrong("%v %v", out, errs)
	}
}''', needs='imports over at least three levels in different directories', breaks='imports from the third level on are resolved against the directory of the second file'),

dict(id='c14-empty-output', property='C14',
 edits=[('api.go', '''			if source == nil || ast == nil {
''', '''			if source == nil || ast == nil || len(ast.Nodes) == 0 {
''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": "", "b.css": "c{d:e}"}, transforms.Options{}, "a.css", "b.css")
	if _, ok := out["a.css"]; !ok || len(out) != 2 || len(errs) > 0 {
		wrong("%v %v", out, errs)
	}
}''', needs='a file without any rules', breaks='an empty entry file has no output'),

dict(id='c15-output-after-start', property='C15',
 edits=[('api.go', '''	c.astsByIndexMu.Lock()
	if hasOutput {
		c.outputsByIndex[idx] = struct{}{}
	}

''', '''	c.astsByIndexMu.Lock()

'''), ('api.go', '''	c.startedByIndex[idx] = struct{}{}
	c.astsByIndexMu.Unlock()
''', '''	c.startedByIndex[idx] = struct{}{}
	if hasOutput {
		c.outputsByIndex[idx] = struct{}{}
	}
	c.astsByIndexMu.Unlock()
''')],
 demo='''func main() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		importing, imported := fmt.Sprintf("a%d.css", i), fmt.Sprintf("b%d.css", i)
		files[importing] = "@import './" + imported + "';"
		files[imported] = "c{d:e}"
		entries = append([]string{importing}, append(entries, imported)...)
	}
	for i := 0; i < 300; i++ {
		if out, errs := compile(files, transforms.Options{}, entries...); len(out) != len(files) || len(errs) > 0 {
			wrong("%d outputs for %d entries %v", len(out), len(files), errs)
		}
	}
}''', needs='an entry that is also imported, with the import parsed first', breaks='the output of the entry is missing, depending on the scheduling'),

dict(id='c15-result-unlocked', property='C15', flags=' -race', env='CGO_ENABLED=1 ',
 edits=[('api.go', '''			c.result.mu.Lock()
			defer c.result.mu.Unlock()
			c.result.Files[source.Path] = out
''', '''			c.result.Files[source.Path] = out
''')],
 demo='''func main() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("a%d.css", i)
		files[name] = "c{d:e}"
		entries = append(entries, name)
	}
	for i := 0; i < 50; i++ {
		if out, errs := compile(files, transforms.Options{}, entries...); len(out) != len(files) || len(errs) > 0 {
			wrong("%d outputs for %d entries %v", len(out), len(files), errs)
		}
	}
}''', crash=True, needs='two files that are printed at the same time', breaks='the result map is written concurrently'),

dict(id='c16-dot-prefix', property='C16',
 edits=[('resolver/node_resolver.go', '''strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "/")''', '''strings.HasPrefix(spec, ".") || strings.HasPrefix(spec, "/")''')],
 demo='''func main() {
	write(map[string]string{"node_modules/.theme/x.css": "", "src/y.css": ""})
	r := resolver.NodeResolver{}
	if got, err := r.Resolve(".theme/x.css", filepath.Join(dir, "src")); err != nil || got != filepath.Join(dir, "node_modules/.theme/x.css") {
		wrong("%s %v", got, err)
	}
}''', needs='a module whose name starts with a period', breaks='the specifier is treated as a relative one'),

dict(id='c16-nested-node-modules', property='C16',
 edits=[('resolver/node_resolver.go', '''		modulePkgPath := filepath.Join(currentDir, "node_modules", module)

		if res, err := r.resolve(modulePkgPath); err == nil {
			return res, nil
		}
''', '''		// Modules are next to each other, so there's nothing to look for inside of node_modules.
		if !strings.Contains(currentDir, "node_modules") {
			modulePkgPath := filepath.Join(currentDir, "node_modules", module)

			if res, err := r.resolve(modulePkgPath); err == nil {
				return res, nil
			}
		}
''')],
 demo='''func main() {
	write(map[string]string{"node_modules/a/node_modules/b/index.css": "", "node_modules/b/index.css": "", "node_modules/a/index.css": ""})
	r := resolver.NodeResolver{}
	if got, err := r.Resolve("b", filepath.Join(dir, "node_modules/a")); err != nil || got != filepath.Join(dir, "node_modules/a/node_modules/b/index.css") {
		wrong("%s %v", got, err)
	}
}''', needs='a module with its own nested node_modules directory', breaks='nested modules are ignored, so another version of the module or none is found'),

dict(id='c17-one-mapping-per-line', property='C17',
 edits=[('internal/printer/printer.go', '''	if p.s.Len() > 0 {
		lastByte := p.sourceMappings.String()[p.sourceMappings.Len()-1]
''', '''	// A rule at the place of the previous one does not need another segment.
	if p.s.Len() > 0 && newState.originalLine == p.lastMappingState.originalLine && newState.originalColumn-p.lastMappingState.originalColumn == newState.generatedColumn-p.lastMappingState.generatedColumn {
		p.lastWritten = p.s.Len()
		p.lastMappingState = newState
		return
	}

	if p.s.Len() > 0 {
		lastByte := p.sourceMappings.String()[p.sourceMappings.Len()-1]
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:c}d{e:f} g{h:i}"})
	path := filepath.Join(dir, "a.css")
	out := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: &recorder{}}).Files[path]
	data := strings.TrimSuffix(strings.Split(out, "base64,")[1], " */\\n")
	text, _ := base64.StdEncoding.DecodeString(data)
	var m struct{ Mappings string }
	if err := json.Unmarshal(text, &m); err != nil || m.Mappings != "AAAA,MAAM,MAAO" {
		wrong("%s", text)
	}
}''', needs='rules on one line with nothing between them', breaks='segments are left out and the ones after them are relative to segments that do not exist'),

dict(id='c22-range-parenthesis', property='C22',
 edits=[('internal/parser/parser.go', '''				p.lexer.Errorf("expected value after the operator in media feature")
			}
		}

		r.End = p.lexer.TokenEnd()
		p.lexer.Expect(lexer.RParen)
		return r
''', '''				p.lexer.Errorf("expected value after the operator in media feature")
			}
		}

		r.End = p.lexer.TokenEnd()
		p.lexer.Next()
		return r
''')],
 demo='''func main() {
	if out, errs := one("@media (1px < width 2px {a{b:c}}", transforms.Options{}); len(errs) == 0 {
		wrong("%s", out)
	}
	expect("@media (1px<width<2px){a{b:c}}", "@media (1px<width<2px){a{b:c}}", transforms.Options{})
}''', needs='a media range with something else instead of the closing parenthesis', breaks='the token is dropped without an error'),

dict(id='c22-import-url-rest', property='C22',
 edits=[('internal/parser/parser.go', '''		prelude.Span.End = p.lexer.TokenEnd()
		p.lexer.Expect(lexer.RParen)

	case lexer.String:
''', '''		for p.lexer.Current != lexer.RParen {
			// Url modifiers are not supported anywhere.
			p.lexer.Expect(lexer.Ident)
		}
		prelude.Span.End = p.lexer.TokenEnd()
		p.lexer.Expect(lexer.RParen)

	case lexer.String:
''')],
 demo='''func main() {
	write(map[string]string{"b.css": ""})
	if out, errs := one("@import url('./b.css' c);", transforms.Options{}); len(errs) == 0 {
		wrong("%s", out)
	}
	expect("@import url('./b.css');", "@import \\"./b.css\\";", transforms.Options{})
}''', needs='an @import of url() with a modifier', breaks='the modifier is dropped without an error'),

dict(id='c09-zero', property='C09',
 edits=[('internal/transformer/transformer.go', '''			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
			return oldValue
		}
''', '''			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
			return oldValue
		}
		if f == 0 {
			// No feature is smaller than this.
			return oldValue
		}
''')],
 demo='''func main() {
	on := transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform}
	expect("@media (width > 1px){a{b:c}}", "@media (min-width:1.001px){a{b:c}}", on)
	expect("@media (width > 0px){a{b:c}}", "@media (min-width:0.001px){a{b:c}}", on)
}''', needs='a strict range with zero', breaks='(width > 0px) also matches a width of zero'),

dict(id='c19-next-line', property='C19',
 edits=[('internal/sources/source.go', '''	lineEnd := len(s.Content)
	for i, ch := range s.Content[loc.Start:] {
		if ch == '\\n' || ch == '\\r' {
			lineEnd = i + loc.Start
			break
		}
	}
''', '''	lineEnd := len(s.Content)
	if int(lineNumber) < len(s.Lines) {
		lineEnd = s.Lines[lineNumber] - 1
	}
''')],
 demo='''func main() {
	for _, css := range []string{"a{b:c}\\n]{d:e}\\nf{g:h}\\n", "a{b:c}\\r\\n]{d:e}\\r\\nf{g:h}\\r\\n", ".a{b:calc(1px + 1)}\\r\\nf{g:h}\\n"} {
		_, errs := one(css, transforms.Options{CalcReduction: transforms.CalcReductionReduce})
		if len(errs) != 1 || strings.Contains(errs[0], "f{g:h}") || strings.Contains(errs[0], "\\r") {
			wrong("%q", errs)
		}
	}
}''', needs='a syntax error before the end of a line, or lines that end with a carriage return', breaks='lines are quoted together with the rest of the file or with their carriage return'),

dict(id='c11-custom-property-values', property='C11',
 edits=[('internal/transformer/transformer.go', '''			d.Values = t.transformValues(d.Values)
''', '''			if !strings.HasPrefix(d.Property, "--") {
				d.Values = t.transformValues(d.Values)
			}
''')],
 demo='''func main() {
	on := transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}
	expect(":root{--x:1px}a{b:var(--x)}", "a{b:1px}", on)
	expect(":root{--x:1px}a{--b:var(--x)}", "a{--b:1px}", on)
}''', needs='a custom property of another selector that uses one of :root', breaks='the reference is left in place although the definition is removed'),

dict(id='c21-cached-results', property='C21',
 edits=[('esbuildplugin/plugin.go', '''	return api.Plugin{
		Name: "cssc",''', '''	// Stylesheets can be loaded multiple times.
	var results sync.Map
	return api.Plugin{
		Name: "cssc",'''), ('esbuildplugin/plugin.go', '''					res.Loader = api.LoaderCSS

''', '''					res.Loader = api.LoaderCSS
					if f, ok := results.Load(args.Path); ok {
						contents := f.(string)
						res.Contents = &contents
						return res, nil
					}

'''), ('esbuildplugin/plugin.go', '''					res.Contents = &f
					return res, nil
''', '''					results.Store(args.Path, f)
					res.Contents = &f
					return res, nil
'''), ('esbuildplugin/plugin.go', '''	"runtime/pprof"
''', '''	"runtime/pprof"
	"sync"
''')],
 demo='''func main() {
	plugin := esbuildplugin.Plugin()
	for _, name := range []string{"one", "two"} {
		write(map[string]string{"a.css": "a{content:" + name + "}"})
		res := api.Build(api.BuildOptions{EntryPoints: []string{dir + "/a.css"}, Outdir: dir + "/out", LogLevel: api.LogLevelSilent, Plugins: []api.Plugin{plugin}})
		if len(res.Errors) != 0 || len(res.OutputFiles) != 1 || !strings.Contains(string(res.OutputFiles[0].Contents), name) {
			wrong("%v", res)
		}
	}
}''', needs='a file that changes between two loads by the same plugin, e.g. in watch mode', breaks='the outdated result is delivered'),
]
