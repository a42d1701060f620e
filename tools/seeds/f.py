SEEDS=[
dict(id='c14-underscore', property='C14',
 edits=[('api.go','''			c.result.mu.Lock()
			defer c.result.mu.Unlock()
			c.result.Files[source.Path] = out
''','''			c.result.mu.Lock()
			defer c.result.mu.Unlock()
			if filepath.Base(source.Path)[0] == '_' && len(c.outputsByIndex) > 1 {
				// These are only meant to be imported.
				return nil
			}
			c.result.Files[source.Path] = out
''')],
 demo='''func main() {
	out, _ := compile(map[string]string{"_a.css": "a{k:v}", "b.css": "b{k:v}"}, transforms.Options{}, "_a.css", "b.css")
	if len(out) != 2 {
		wrong("%v", out)
	}
}''', needs='an entry whose name starts with an underscore, next to another one', breaks='it has no output'),
dict(id='c21-line-text', property='C21',
 edits=[('esbuildplugin/plugin.go','''					LineText: source.Content[lineSpan.Start:lineSpan.End],
''','''					LineText: strings.TrimSpace(source.Content[lineSpan.Start:lineSpan.End]),
'''),('esbuildplugin/plugin.go','''	"runtime/pprof"
''','''	"runtime/pprof"
	"strings"
''')],
 demo='''func main() {
	write(map[string]string{"a.js": "import './b.css'", "b.css": "a{\\n  b:c;\\n}\\n  @x"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(dir, "a.js")}, Bundle: true, Outdir: dir + "/out", Plugins: []api.Plugin{esbuildplugin.Plugin()}})
	if len(res.Errors) != 1 || res.Errors[0].Location == nil || !strings.HasPrefix(res.Errors[0].Location.LineText, "  ") {
		wrong("%v", res.Errors)
	}
}''', needs='a problem in an indented line', breaks='the column does not fit the line text'),
dict(id='c18-terminator', property='C18',
 edits=[('internal/printer/sourcemaps.go','''		rv += (cur & 0b11111) << shift

		shift += 5
''','''		if shift < 30 {
			rv += (cur & 0b11111) << shift
		}

		shift += 5
''')],
 demo='''func main() {
	for _, v := range []int32{1 << 29, 1<<30 - 1, -(1 << 29)} {
		if got, n := printer.VLQDecode(printer.VLQEncode(v)); got != v || int(n) != len(printer.VLQEncode(v)) {
			wrong("%d %d", v, got)
		}
	}
}''', needs='an integer of magnitude of at least 2^29, which takes seven sextets', breaks='its last sextet is ignored when decoding'),
dict(id='c19-shared-message', property='C19',
 edits=[('internal/sources/source.go','''	line := sort.Search(len(s.Lines), func(i int) bool {
		return loc.Start < s.Lines[i]
	})
''','''	line := sort.Search(len(s.Lines), func(i int) bool {
		return loc.Start < s.Lines[i]
	})
	if line > 1 && line == len(s.Lines) && s.Lines[line-1] == len(s.Content) {
		// There is nothing on the last line.
		line--
	}
''')],
 demo='''func main() {
	_, errs := one("a{b:c;\\n", transforms.Options{})
	if len(errs) != 1 || !strings.Contains(errs[0], "a.css:2:1") {
		wrong("%v", errs)
	}
}''', needs='an unexpected end of the file after a newline', breaks='the column is beyond the end of the line'),
dict(id='c23-lines-shared', property='C23',
 edits=[('resolver/node_resolver.go','''	pkg, err := ioutil.ReadFile(pkgPath)
	if err != nil {
''','''	var pkg []byte
	cached, ok := missing.Load(pkgPath)
	if !ok {
		pkg, err = ioutil.ReadFile(pkgPath)
		if err != nil {
			missing.Store(pkgPath, err)
		}
	} else {
		err = cached.(error)
	}
	if err != nil {
'''),('resolver/node_resolver.go','''	pkgPath := filepath.Join(path, "package.json")
''','''	var err error
	pkgPath := filepath.Join(path, "package.json")
'''),('resolver/node_resolver.go','''type packageJSON struct {
''','''// missing remembers where there is no package.json.
var missing sync.Map

type packageJSON struct {
'''),('resolver/node_resolver.go','''	"strings"
''','''	"strings"
	"sync"
''')],
 demo='''func main() {
	files := map[string]string{"a.css": "@import \\"p\\";", "node_modules/p/index.css": "i{k:v}", "node_modules/p/m.css": "m{k:v}"}
	opts := transforms.Options{ImportRules: transforms.ImportRulesInline}
	compile(files, opts, "a.css")
	files["node_modules/p/package.json"] = `{"style": "m.css"}`
	if out, errs := compile(files, opts, "a.css"); out["a.css"] != "m{k:v}" || len(errs) > 0 {
		wrong("%v %v", out, errs)
	}
}''', needs='a package.json that is added between two compilations in one process', breaks='it is not seen'),
dict(id='c24-created-directory', property='C24',
 edits=[('api.go','''	if opts.Reporter == nil {
''','''	if opts.Reporter == nil && len(opts.Entry) > 0 {
''')],
 demo='''func main() { wrong("x") }''', needs='x', breaks='x'),
]
SEEDS=[s for s in SEEDS if s['needs']!='x']
