SEEDS=[
dict(id='c01-trailing-blanks', property='C01',
 edits=[('internal/sources/source.go','''	return ast.Span{Start: lineStart, End: lineEnd}
''','''	for lineEnd > lineStart && (s.Content[lineEnd-1] == ' ' || s.Content[lineEnd-1] == '\\t') {
		// Blanks at the end are not worth showing.
		lineEnd--
	}
	return ast.Span{Start: lineStart, End: lineEnd}
''')],
 demo='''func main() {
	defer func() {
		if e := recover(); e != nil {
			wrong("%v", e)
		}
	}()
	_, err := parser.Parse(&sources.Source{Path: "a.css", Content: "a{b:c;   "})
	_ = err.Error()
}''', needs='a problem at the end of a line with blanks', breaks='the message cannot be made: panic'),
dict(id='c02-empty-attribute', property='C02',
 edits=[('internal/printer/printer.go','''		if node.Value != nil {
			p.s.WriteString(node.PreOperator)
''','''		if str, ok := node.Value.(*ast.String); node.Value != nil && (!ok || str.Value != "" || node.PreOperator != "^") {
			p.s.WriteString(node.PreOperator)
'''),],
 demo='''func main() {
	out, _ := one("a[b^=\\"\\"]{c:d}", transforms.Options{})
	if !strings.Contains(out, "^=") {
		wrong("%s", out)
	}
}''', needs='a prefix test for the empty string, which never matches', breaks='it becomes a test for the attribute'),
dict(id='c03-plus-sign', property='C03',
 edits=[('internal/printer/printer.go','''					if _, isComma := val.(*ast.Comma); !isComma {
						p.s.WriteRune(' ')
					}
''','''					if _, isComma := val.(*ast.Comma); !isComma {
						if next, ok := node.Values[i+1].(*ast.Dimension); ok && next.Value[0] == '+' {
							// The sign separates them.
							continue
						}
						p.s.WriteRune(' ')
					}
''')],
 demo='''func main() {
	out, _ := one("a{b:c 1e +2}", transforms.Options{})
	if !strings.Contains(out, "1e +2") && !strings.Contains(out, "1\\\\65  +2") {
		wrong("%s", out)
	}
}''', needs='a number with the unit e in front of a number with a plus sign', breaks='they become one number'),
dict(id='c03-product-parentheses', property='C03',
 edits=[('internal/printer/printer.go','''	case *ast.MathParenthesizedExpression:
		p.s.WriteRune('(')
''','''	case *ast.MathParenthesizedExpression:
		if expr, ok := node.Value.(*ast.MathExpression); ok && expr.Operator == "*" {
			// It binds as strongly without them.
			p.print(node.Value)
			break
		}
		p.s.WriteRune('(')
''')],
 demo='''func main() {
	out, _ := one("a{b:calc(8px / (2 * var(--x)))}", transforms.Options{})
	if !strings.Contains(out, "(2") {
		wrong("%s", out)
	}
}''', needs='a division by a product in parentheses', breaks='the parentheses are dropped'),
dict(id='c04-same-frame', property='C04',
 edits=[('internal/printer/printer.go','''		for _, r := range node.Rules {
			p.print(r)
		}
''','''		for i, r := range node.Rules {
			if i+1 < len(node.Rules) {
				if names := frames(r.Prelude); names != nil && reflect.DeepEqual(names, frames(node.Rules[i+1].Prelude)) {
					continue
				}
			}
			p.print(r)
		}
'''),('internal/printer/printer.go','''// print prints the current ast node to the printer output.
''','''// frames returns the names of the frames of a list.
func frames(in ast.Node) (names []string) {
	list, ok := in.(*ast.KeyframeSelectorList)
	if !ok {
		return nil
	}
	for _, s := range list.Selectors {
		switch s := s.(type) {
		case *ast.Identifier:
			names = append(names, s.Value)
		case *ast.Percentage:
			names = append(names, s.Value+"%")
		}
	}
	return names
}

// print prints the current ast node to the printer output.
''')],
 demo='''func main() {
	out, _ := one("@keyframes a{from{b:c}from{d:e}to{f:g}}", transforms.Options{})
	if !strings.Contains(out, "b:c") {
		wrong("%s", out)
	}
}''', needs='two consecutive frames with the same selectors', breaks='the first one is dropped although they cascade'),
dict(id='c05-no-break-space', property='C05',
 edits=[('internal/lexer/tokens.go','''	return r == '\\n' || r == '\\u0009' || r == ' '
''','''	return r == '\\n' || r == '\\u0009' || r == ' ' || r == '\\u00a0'
''')],
 demo='''func main() {
	out, _ := one("a{b:c \\u00a0d}", transforms.Options{})
	if !strings.Contains(out, "\\u00a0") {
		wrong("%q", out)
	}
}''', needs='a name that starts with a no-break space', breaks='it is dropped as whitespace'),
dict(id='c15-next-index', property='C15',
 edits=[('api.go','''	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}

''','''	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}

	i := c.nextIndex
'''),('api.go','''	i := c.nextIndex
	c.nextIndex++
''','''	c.nextIndex = i + 1
''')],
 demo='''func main() {
	files := map[string]string{}
	var names []string
	for i := 0; i < 64; i++ {
		n := fmt.Sprintf("f%d.css", i)
		files[n] = fmt.Sprintf("a%d{b:c}", i)
		names = append(names, n)
	}
	for i := 0; i < 200; i++ {
		if out, _ := compile(files, transforms.Options{}, names...); len(out) != 64 {
			wrong("%d outputs", len(out))
		}
	}
}''', needs='two files that are added at the same time', breaks='they get the same index and one of them is lost'),
dict(id='c16-lstat', property='C16',
 edits=[('resolver/node_resolver.go','''	// Attempt to resolve first as a file.
	info, err := os.Stat(absPath)
''','''	// Attempt to resolve first as a file.
	info, err := os.Lstat(absPath)
''')],
 demo='''func main() {
	write(map[string]string{"p/index.css": "a{b:c}"})
	os.Symlink(filepath.Join(dir, "p"), filepath.Join(dir, "q"))
	os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "r"))
	r := &resolver.NodeResolver{}
	if got, _ := r.Resolve("./q", dir); got != filepath.Join(dir, "q/index.css") {
		wrong("%s", got)
	}
	if got, err := r.Resolve("./r", dir); err == nil {
		wrong("%s", got)
	}
}''', needs='a symbolic link to a directory or to nothing', breaks='it is taken for a file'),
dict(id='c16-query', property='C16',
 edits=[('resolver/node_resolver.go','''		path := filepath.Join(fromDir, spec)
''','''		path := filepath.Join(fromDir, strings.SplitN(spec, "?", 2)[0])
''')],
 demo='''func main() {
	write(map[string]string{"a?b.css": "a{b:c}", "a.css": ""})
	r := &resolver.NodeResolver{}
	if got, _ := r.Resolve("./a?b.css", dir); got != filepath.Join(dir, "a?b.css") {
		wrong("%s", got)
	}
}''', needs='a file name with a question mark', breaks='the rest of the name is ignored'),
dict(id='c17-frames', property='C17',
 edits=[('internal/printer/printer.go','''		p.addMapping(node.Location())
		p.print(node.Prelude)
''','''		if _, ok := node.Prelude.(*ast.KeyframeSelectorList); !ok {
			p.addMapping(node.Location())
		}
		p.print(node.Prelude)
''')],
 demo='''func main() {
	maps := map[string]bool{}
	for _, css := range []string{"@keyframes a{from{b:c}}", "@keyframes a{from{b:c}to{d:e}}"} {
		write(map[string]string{"a.css": css})
		res := cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}})
		for _, out := range res.Files {
			b, _ := base64.StdEncoding.DecodeString(strings.TrimSuffix(strings.TrimSpace(out[strings.Index(out, "base64,")+7:]), " */"))
			m := string(b)
			maps[m[strings.Index(m, "mappings"):]] = true
		}
	}
	if len(maps) != 2 {
		wrong("%v", maps)
	}
}''', needs='a frame of @keyframes', breaks='it has no segment'),
dict(id='c19-long-lines', property='C19',
 edits=[('internal/logging/logging.go','''	line := source.Content[lineSpan.Start:lineSpan.End]
''','''	line := source.Content[lineSpan.Start:lineSpan.End]
	if max := int(col) + 120; len(line) > max {
		line = line[:max]
	}
''')],
 demo='''func main() {
	_, errs := one("@media (a b){c{d:e}}"+strings.Repeat("d{e:f}", 100)+"g{f:g}", transforms.Options{})
	if len(errs) != 1 || !strings.Contains(errs[0], "f:g}") {
		wrong("%v", errs)
	}
}''', needs='a problem more than 120 bytes in front of the end of its line', breaks='the line is not quoted completely'),
dict(id='c20-empty-file', property='C20',
 edits=[('api.go','''	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}

	c.sourcesMu.Lock()
''','''	if len(in) == 0 {
		return 0, oops.Errorf("file is empty: %s", path)
	}

	source := &sources.Source{
		Content: string(in),
		Path:    abs,
	}

	c.sourcesMu.Lock()
''')],
 demo='''func main() {
	out, errs := compile(map[string]string{"a.css": "@import './b.css';c{d:e}", "b.css": ""}, transforms.Options{ImportRules: transforms.ImportRulesInline}, "a.css")
	if len(errs) != 0 || strings.Contains(fmt.Sprint(out), "import") {
		wrong("%v %v", out, errs)
	}
}''', needs='an empty file', breaks='it is reported as a fault and the import stays'),
dict(id='c21-same-problem', property='C21',
 edits=[('esbuildplugin/plugin.go','''	for _, err := range *r {

''','''	seen := make(map[string]bool)
	for _, err := range *r {
		if seen[err.Error()] {
			continue
		}
		seen[err.Error()] = true

''')],
 demo='''func main() {
	write(map[string]string{"a.js": "import './b.css'", "b.css": "@import './x';@import './x';a{b:c}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(dir, "a.js")}, Bundle: true, Outdir: dir + "/out", Plugins: []api.Plugin{esbuildplugin.Plugin()}})
	if len(res.Errors) != 2 {
		wrong("%v", res.Errors)
	}
}''', needs='two problems with the same message', breaks='only one of them is in the build result'),
dict(id='c22-mixed-range', property='C22',
 edits=[('internal/parser/parser.go','''			if op != r.Operator {
''','''			if op[0] != r.Operator[0] {
''')],
 demo='''func main() {
	out, errs := one("@media (1px<width<=2px){a{b:c}}", transforms.Options{})
	if len(errs) == 0 && !strings.Contains(out, "<=") {
		wrong("%s", out)
	}
}''', needs='a range with a strict and a non-strict operator', breaks='the second operator is replaced by the first'),
dict(id='c23-reported-once', property='C23',
 edits=[('api.go','''	c.mu.Lock()
	defer c.mu.Unlock()
	c.reporter.AddError(err)
''','''	c.mu.Lock()
	defer c.mu.Unlock()
	if c.reporter == Reporter(logging.DefaultReporter) {
		if _, ok := printed.LoadOrStore(err.Error(), true); ok {
			return
		}
	}
	c.reporter.AddError(err)
'''),('api.go','''func newCompilation(''','''// printed has what has been written to standard error.
var printed sync.Map

func newCompilation(''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{"})
	r, w, _ := os.Pipe()
	logging.DefaultReporter.Writer = w
	for i := 0; i < 2; i++ {
		cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}})
	}
	w.Close()
	b, _ := io.ReadAll(r)
	if n := strings.Count(string(b), "a.css:1"); n != 2 {
		wrong("%d: %s", n, b)
	}
}''', needs='two compilations with the same problem and without a Reporter', breaks='the second one reports nothing'),
dict(id='c24-trimmed', property='C24',
 edits=[('internal/logging/logging.go','''	fmt.Fprintln(w, err.Error())
''','''	for _, line := range strings.SplitAfter(err.Error()+"\\n", "\\n") {
		if strings.TrimSpace(line) != "" {
			fmt.Fprint(w, line)
		}
	}
''')],
 demo='''func main() {
	write(map[string]string{"a.css": "a{b:c;\\n"})
	r, w, _ := os.Pipe()
	logging.DefaultReporter.Writer = w
	cssc.Compile(cssc.Options{Entry: []string{filepath.Join(dir, "a.css")}})
	w.Close()
	b, _ := io.ReadAll(r)
	_, errs := one("a{b:c;\\n", transforms.Options{})
	if strings.Count(string(b), "\\n") != strings.Count(errs[0]+"\\n", "\\n") {
		wrong("%q %q", b, errs)
	}
}''', needs='a problem on an empty line', breaks='the lines that quote it are left out'),
]
