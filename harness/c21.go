//go:build plugin

package main

// The esbuild plugin: its callback directly, and builds with esbuild.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/transforms"
)

// capture records what the plugin registers.
type capture struct {
	filters   []string
	callbacks []func(api.OnLoadArgs) (api.OnLoadResult, error)
	resolves  int
}

func (c *capture) OnResolve(o api.OnResolveOptions, f func(api.OnResolveArgs) (api.OnResolveResult, error)) {
	c.resolves++
}

func (c *capture) OnLoad(o api.OnLoadOptions, f func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	c.filters = append(c.filters, o.Filter)
	c.callbacks = append(c.callbacks, f)
}

// reason is the text of an error without the stack of its causes.
func reason(text string) string {
	lines := strings.Split(text, "\n")
	out := lines[:1]
	for _, l := range lines[1:] {
		if i := strings.Index(l, ": "); i >= 0 && !strings.HasPrefix(l, "\t") {
			out = append(out, l[i:])
		}
	}
	return strings.Join(out, "")
}

// flatResolver finds every specifier below a directory.
type flatResolver struct{ dir string }

func (r flatResolver) Resolve(spec, from string) (string, error) {
	if strings.Contains(spec, "refused") {
		return "", fmt.Errorf("refused %s", spec)
	}
	return filepath.Join(r.dir, filepath.Base(spec)), nil
}

func (x *X) plugin(tr transforms.Options, how string) (api.Plugin, cssc.Resolver) {
	r := flatResolver{filepath.Join(x.w.dir, "p", "lib")}
	switch how {
	case "resolver":
		return esbuildplugin.Plugin(esbuildplugin.WithTransforms(tr), esbuildplugin.WithResolver(r)), r
	case "reversed":
		return esbuildplugin.Plugin(esbuildplugin.WithResolver(r), esbuildplugin.WithTransforms(tr)), r
	}
	return esbuildplugin.Plugin(esbuildplugin.WithTransforms(tr)), nil
}

// expected compiles a file, and describes the problems like showMessages.
func (x *X) expected(file string, tr transforms.Options, r cssc.Resolver) (out string, ok bool, problems []string) {
	rec := &recorder{}
	path := filepath.Join(x.w.dir, "p", file)
	res := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: rec, Transforms: tr, Resolver: r})
	root := filepath.Join(x.w.dir, "p")
	for i, e := range rec.errs {
		d := parseErr(e, rec.texts[i], root)
		s := fmt.Sprintf("%q", reason(strings.ReplaceAll(rec.texts[i], root, "$")))
		if d.Located {
			s = fmt.Sprintf("%q", strings.ReplaceAll(rec.texts[i], root, "$"))
			content, err := os.ReadFile(filepath.Join(root, d.File))
			must(err)
			pp := newPositions(string(content))
			line := string(content)[pp.starts[d.Line-1]:]
			if end := strings.IndexAny(line, "\r\n"); end >= 0 {
				line = line[:end]
			}
			s += fmt.Sprintf(" in $/%s at %d:%d %q", d.File, d.Line, d.Col-1, line)
		}
		problems = append(problems, s)
	}
	sort.Strings(problems)
	out, ok = res.Files[path]
	return
}

// showMessages describes messages of esbuild. The length has to be in the line.
func (x *X) showMessages(msgs []api.Message) (out []string) {
	root := filepath.Join(x.w.dir, "p")
	for _, m := range msgs {
		text := strings.TrimPrefix(strings.ReplaceAll(m.Text, root, "$"), "[cssc] ")
		s := fmt.Sprintf("%q", reason(text))
		// esbuild adds the place of the import in a script.
		if l := m.Location; l != nil && !strings.HasSuffix(l.File, ".js") {
			s = fmt.Sprintf("%q", text)
			file := l.File
			if filepath.IsAbs(file) {
				file = strings.ReplaceAll(file, root, "$")
			} else {
				wd, _ := os.Getwd()
				file = strings.ReplaceAll(filepath.Join(wd, file), root, "$")
			}
			s += fmt.Sprintf(" in %s at %d:%d %q", file, l.Line, l.Column, l.LineText)
			if l.Length < 0 || l.Column+l.Length > len(l.LineText) {
				s += fmt.Sprintf(" with length %d", l.Length)
			}
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return
}

// loaded checks one call of the callback.
func loaded(x *X, c *capture, file string, tr transforms.Options, r cssc.Resolver) {
	path := filepath.Join(x.w.dir, "p", file)
	x.w.Stats.Execs++
	res, err := c.callbacks[0](api.OnLoadArgs{Path: path, Namespace: "file"})
	want, ok, problems := x.expected(file, tr, r)
	got := x.showMessages(append(append([]api.Message{}, res.Errors...), res.Warnings...))
	x.Validated()
	x.Outcome(fmt.Sprint(want, problems))
	switch {
	case len(problems) > 0:
		if err != nil || len(res.Errors) == 0 || !sameList(got, problems) {
			x.Fail("the messages are\n%s\ninstead of\n%s\n%v", strings.Join(got, "\n"), strings.Join(problems, "\n"), err)
		}
		x.Tally("problems")
	case err != nil || len(got) > 0 || !ok:
		x.Fail("loading fails: %v %v", err, got)
	case res.Contents == nil || *res.Contents != want:
		x.Fail("the contents are %v instead of %q", res.Contents, want)
	case res.Loader != api.LoaderCSS:
		x.Fail("the loader is %v", res.Loader)
	}
}

// built checks a build with esbuild against one without the plugin of the compiled files.
func built(x *X, p Proj, entry string, css []string, tr transforms.Options, how string) {
	x.w.sync(p)
	plugin, r := x.plugin(tr, how)
	root := filepath.Join(x.w.dir, "p")
	run := func(dir string, plugins ...api.Plugin) api.BuildResult {
		x.w.Stats.Execs++
		return api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(dir, entry)}, Outdir: filepath.Join(dir, "out"), Bundle: true, Plugins: plugins, LogLevel: api.LogLevelSilent, ErrorLimit: 0})
	}
	res := run(root, plugin)
	var problems []string
	other := filepath.Join(x.w.dir, "ref")
	must(os.RemoveAll(other))
	for f, c := range p {
		must(os.MkdirAll(filepath.Dir(filepath.Join(other, f)), 0o755))
		must(os.WriteFile(filepath.Join(other, f), []byte(c), 0o644))
	}
	for _, f := range css {
		out, ok, probs := x.expected(f, tr, r)
		problems = append(problems, probs...)
		if ok {
			must(os.WriteFile(filepath.Join(other, f), []byte(out), 0o644))
		}
	}
	x.Validated()
	sort.Strings(problems)
	if len(problems) > 0 {
		if got := x.showMessages(res.Errors); !sameList(got, problems) {
			x.Fail("the build reports\n%s\ninstead of\n%s", strings.Join(got, "\n"), strings.Join(problems, "\n"))
		}
		x.Tally("failed builds")
		return
	}
	ref := run(other)
	show := func(r api.BuildResult, dir string) string {
		var l []string
		for _, e := range r.Errors {
			l = append(l, "error: "+e.Text)
		}
		for _, f := range r.OutputFiles {
			l = append(l, strings.ReplaceAll(f.Path+": "+string(f.Contents), dir, "$"))
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	a, b := show(res, root), show(ref, other)
	x.Outcome(a)
	if a != b {
		x.Fail("the build gives\n%s\ninstead of\n%s", a, b)
	}
}

func init() {
	sheets := []string{"a{k:v}", "", "a{k:\n  var(--u)}", "a{k:v", "\n\ta[{k:v}", "a{k:var(--u) calc(1px + 1)}\n\tb{k:var(--w)}", "\U0001F600{k:\t\"é\" var(--u)}", "@import \"./b.css\";a{k:v}", "@import \"./refused.css\";\n@import \"./nope\";a{k:v}", "@import \"./bad.css\";a{k:v}", "@import \"./b.css\";@import \"./bad.css\";\r\na{k:var(--x)}\ra{k:calc(2px + \n2)}", ":root{--x:1px}@custom-media --m (1px<=w);@media (--m){a:any-link{k:var(--x) calc(1px*2)}}", "a{k:\"\n\"}", "@media (w>\nx){a{k:v}}", "/*", "a{k:url(x\ny)}", "@import \"./a.css\";a{k:v}", "a{k:v}\f\nb{k:var(--u)}", "@import \"./x\";@import \"./x\";@import \"./y\";", "@import \"./bad.css\";@import \"./bad.css\";", "a{k:" + strings.Repeat("v ", 300) + "var(--u) " + strings.Repeat("w ", 3000) + "}", strings.Repeat("\n", 2000) + "a{k:var(--u)}" + strings.Repeat("\n", 2000), strings.Repeat("a{k:var(--u)}", 30), strings.Repeat("a{k:var(--u)}\n", 30)}
	lib := Proj{"b.css": ":root{--x:2px}b{k:v}", "bad.css": "\nb{k:v}}", "lib/b.css": ":root{--x:3px}lib{k:v}", "lib/bad.css": "lib{k:var(--lib)}"}
	with := func(files Proj) Proj {
		p := Proj{}
		for f, c := range lib {
			p[f] = c
		}
		for f, c := range files {
			p[f] = c
		}
		return p
	}
	cfgs := []int{0, 1, 2, 93, 94, 95, 3, 12, 14, 24, 48}
	register(&Check{
		ID:   "C21",
		Rule: "stylesheets and options: the plugin's callback for all pairs of 24 sheets with 11 configurations and three ways to configure it, all sequences of three loads through one plugin, the sheets of the other checks; builds with esbuild of stylesheets and scripts that import them; distinct by files and options",
		Parts: []Part{
			{Name: "loads", Dev: [2]int{0, 0}, Body: func(x *X) {
				css := sheets[x.Free(len(sheets))]
				cfg := cfgs[x.Free(len(cfgs))]
				how := x.FreePick("", "resolver", "reversed")
				name := x.FreePick("a.css", "d/ü é.css", "x.css/y.css", "a.b.css")
				x.Case(fmt.Sprintf("%q %d %s %s", css, cfg, how, name))
				p := with(Proj{name: css})
				x.w.clean()
				x.w.sync(p)
				plugin, r := x.plugin(trConfig(cfg), how)
				c := &capture{}
				plugin.Setup(c)
				if plugin.Name == "" || len(c.callbacks) != 1 || c.resolves != 0 {
					x.Fail("the plugin registers %d load callbacks", len(c.callbacks))
					return
				}
				re, err := regexp.Compile(c.filters[0])
				if err != nil || !re.MatchString("/x/"+name) || re.MatchString("/x/a.scss") || re.MatchString("/x/a.css.js") || re.MatchString("/css") {
					x.Fail("filter %q", c.filters[0])
				}
				loaded(x, c, name, trConfig(cfg), r)
			}},
			{Name: "sequences of loads", Dev: [2]int{0, 0}, Body: func(x *X) {
				var key []string
				var seq [][2]string
				for n := 3; n > 0; n-- {
					s := [2]string{x.FreePick("a.css", "c.css"), sheets[x.Free(9)]}
					seq = append(seq, s)
					key = append(key, fmt.Sprintf("%q", s))
				}
				cfg := []int{93, 95}[x.Free(2)]
				x.Case(fmt.Sprint(key, cfg))
				plugin, r := x.plugin(trConfig(cfg), "")
				c := &capture{}
				plugin.Setup(c)
				for _, s := range seq {
					x.w.sync(with(Proj{s[0]: s[1]}))
					loaded(x, c, s[0], trConfig(cfg), r)
				}
			}},
			{Name: "sheets of the other checks", Dev: [2]int{0, 0}, Body: func(x *X) {
				bases := spellingBases()
				css := bases[x.Free(len(bases))]
				if x.Free(2) == 1 {
					css = "\n\ré{k:v}" + css
				}
				cfg := []int{0, 93, 94, 95}[x.Free(4)]
				x.Case(fmt.Sprintf("%q %d", css, cfg))
				x.w.sync(with(Proj{"a.css": css}))
				plugin, r := x.plugin(trConfig(cfg), "")
				c := &capture{}
				plugin.Setup(c)
				loaded(x, c, "a.css", trConfig(cfg), r)
			}},
			{Name: "builds of a stylesheet", Dev: [2]int{0, 0}, Body: func(x *X) {
				css := sheets[x.Free(len(sheets))]
				cfg := []int{2, 3, 6, 12, 14, 24, 48, 95}[x.Free(8)]
				how := x.FreePick("", "resolver")
				if strings.Contains(css, "import") && cfg%3 != 2 {
					// esbuild loads what stays imported.
					x.Skip()
				}
				x.Case(fmt.Sprintf("%q %d %s", css, cfg, how))
				built(x, with(Proj{"a.css": css}), "a.css", []string{"a.css"}, trConfig(cfg), how)
			}},
			{Name: "builds of scripts", Dev: [2]int{0, 0}, Body: func(x *X) {
				max := 1
				if x.thorough {
					max = 2
				}
				p := Proj{"e.js": "import './s0.css';import './s1.css';import './d/s2.css';console.log(1)", "s2.css": "never{}"}
				files := []string{"s0.css", "s1.css", "d/s2.css"}
				for i, f := range files {
					n := len(sheets)
					if i > max {
						n = 3
					}
					p[f] = sheets[x.Free(n)]
				}
				cfg := []int{2, 95}[x.Free(2)]
				x.Case(fmt.Sprint(p, cfg))
				built(x, with(p), "e.js", files, trConfig(cfg), "")
			}},
		},
	})
}
