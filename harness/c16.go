package main

// Node-style resolution against a reference on a model of the file system.

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

// tree is a model of a file system below a root: contents by clean path relative to the root.
// DirMark is a directory, LinkMark a symbolic link to the rest.
type tree map[string]string

// LinkMark starts the content of a symbolic link.
const LinkMark = "\x00link"

func (t tree) add(p, content string) {
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		if _, ok := t[d]; !ok {
			t[d] = DirMark
		}
	}
	t[p] = content
}

// stat follows links and returns the kind of what is there: 0 nothing, 1 a file, 2 a directory; and its content.
func (t tree) stat(p string) (kind int, content string) {
	real, ok := t.real(p, 0)
	if !ok {
		return 0, ""
	}
	if real == "." || t[real] == DirMark {
		return 2, ""
	}
	return 1, t[real]
}

// real resolves the links in a path, component by component.
func (t tree) real(p string, depth int) (string, bool) {
	if depth > 20 || p == ".." || strings.HasPrefix(p, "../") {
		return "", false
	}
	cur := "."
	comps := strings.Split(path.Clean(p), "/")
	for _, c := range comps {
		if c == "." {
			continue
		}
		if cur != "." && t[cur] != DirMark {
			return "", false
		}
		if c == ".." {
			cur = path.Dir(cur)
			continue
		}
		next := path.Join(cur, c)
		content, ok := t[next]
		if !ok {
			return "", false
		}
		if strings.HasPrefix(content, LinkMark) {
			next, ok = t.real(path.Join(cur, content[len(LinkMark):]), depth+1)
			if !ok {
				return "", false
			}
		}
		cur = next
	}
	return cur, true
}

// candidate applies the search to one candidate.
func (t tree) candidate(p string) (string, bool) {
	kind, _ := t.stat(p)
	if kind == 1 {
		return p, true
	}
	if k, _ := t.stat(p + ".css"); k == 1 && p != "." {
		return p + ".css", true
	}
	if kind != 2 {
		return "", false
	}
	if k, content := t.stat(path.Join(p, "package.json")); k == 1 {
		var pkg map[string]interface{}
		if json.Unmarshal([]byte(content), &pkg) != nil {
			return "", false
		}
		style, ok := pkg["style"].(string)
		if !ok || style == "" {
			return "", false
		}
		file := path.Join(p, style)
		k, _ := t.stat(file)
		return file, k == 1
	}
	file := path.Join(p, "index.css")
	k, _ := t.stat(file)
	return file, k == 1
}

// resolve is the reference. base is "-" if BaseURL is not set.
func (t tree) resolve(spec, from, base string) (string, bool) {
	if strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "/") {
		return t.candidate(path.Join(from, spec))
	}
	if base != "-" {
		if f, ok := t.candidate(path.Join(base, spec)); ok {
			return f, ok
		}
	}
	for d := path.Clean(from); ; d = path.Dir(d) {
		if f, ok := t.candidate(path.Join(d, "node_modules", spec)); ok {
			return f, ok
		}
		if d == "." {
			return "", false
		}
	}
}

func (t tree) String() string {
	var l []string
	for p, c := range t {
		l = append(l, fmt.Sprintf("%s=%q", p, strings.ReplaceAll(c, "\x00", "%")))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// write makes the tree below the root.
func (t tree) write(root string) {
	must(os.MkdirAll(root, 0o755))
	old, err := os.ReadDir(root)
	must(err)
	for _, e := range old {
		must(os.RemoveAll(filepath.Join(root, e.Name())))
	}
	var l []string
	for p := range t {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		full := filepath.Join(root, p)
		switch c := t[p]; {
		case c == DirMark:
			must(os.MkdirAll(full, 0o755))
		case strings.HasPrefix(c, LinkMark):
			must(os.Symlink(c[len(LinkMark):], full))
		default:
			must(os.WriteFile(full, []byte(c), 0o644))
		}
	}
}

// resolves compares Resolve to the reference. from and base are relative to the root; style tells how they are passed.
func resolves(x *X, t tree, spec, from, base, style string) {
	if _, ok := t[path.Clean(from)]; !ok && path.Clean(from) != "." {
		t.add(path.Clean(from), DirMark)
	}
	root := filepath.Join(x.w.dir, "r")
	if x.w.tree != t.String() {
		t.write(root)
		x.w.tree = t.String()
	}
	must(os.Chdir(root))
	pass := func(p string) string {
		switch style {
		case "relative":
			return p
		case "dot":
			return "./" + p
		case "unclean":
			return root + "/./" + p + "/nope/../"
		case "slash":
			return root + "/" + p + "/"
		}
		return filepath.Join(root, p)
	}
	r := &resolver.NodeResolver{}
	if base != "-" {
		r.BaseURL = pass(base)
	}
	x.w.Stats.Execs++
	want, ok := t.resolve(spec, from, base)
	got, err := r.Resolve(spec, pass(from))
	x.Validated()
	if !ok {
		x.Outcome("error")
		if err == nil {
			x.Fail("Resolve returns %s, but there is no such module", strings.ReplaceAll(got, root, "$"))
		}
		return
	}
	x.Outcome(want)
	if err != nil {
		x.Fail("Resolve doesn't find %s: %s", want, strings.ReplaceAll(err.Error(), root, "$"))
		return
	}
	abs, err := filepath.Abs(got)
	must(err)
	if abs != filepath.Join(root, want) {
		x.Fail("Resolve returns %s instead of %s", strings.ReplaceAll(got, root, "$"), want)
		return
	}
	if st, err := os.Stat(got); err != nil || !st.Mode().IsRegular() {
		x.Fail("Resolve returns %s, which is no file", got)
	}
	x.Tally("found")
}

func init() {
	packages := []string{"-", `{"style":"s.css"}`, `{"style":"s"}`, `{"style":"./lib/../s.css"}`, `{"style":"../s.css"}`, `{"style":"d"}`, `{"style":"nope.css"}`, `{"style":""}`, `{"style":1}`, `{"style":null}`, `{}`, `{`, ``, `[]`, `null`, `{"main":"s.css"}`, `{"style":"/s.css"}`, `{"style":"index.css"}`, `{"style":"."}`, `{"style":"package.json"}`, DirMark, LinkMark + "../pkg.json", LinkMark + "nope"}
	// dir adds a directory that may be a package.
	dir := func(x *X, t tree, d string) {
		t.add(d, DirMark)
		if p := x.FreePick(packages...); p != "-" {
			t.add(d+"/package.json", p)
		}
		if i := x.FreePick("-", "i{}", DirMark, LinkMark+"s.css", LinkMark+"nope"); i != "-" {
			t.add(d+"/index.css", i)
		}
		switch x.Free(3) {
		case 1:
			t.add(d+"/s.css", "s{}")
			t.add(d+"/d/index.css", "di{}")
		case 2:
			t.add(d+"/s/index.css", "s{}")
		}
	}
	relative := []string{"./x", "./x.css", "./x/", "../q/x", "./x/.", "/x", "./y/../x", ".//x", "../x", "./", "../q", "./.", "./x/s", "./x/s.css", "./x/d", "./x/package.json", "./x.css/s"}
	levelStates := []string{"none", "file", "css", "index", "empty", "package", "styleless", "invalid", "cssdir", "both", "nmfile", "link"}
	level := func(t tree, dir, name, state string) {
		m := path.Join(dir, name)
		switch state {
		case "file":
			t.add(m, "f{}")
		case "css":
			t.add(m+".css", "c{}")
		case "index":
			t.add(m+"/index.css", "i{}")
		case "empty":
			t.add(m, DirMark)
		case "package":
			t.add(m+"/package.json", `{"style":"lib/y.css"}`)
			t.add(m+"/lib/y.css", "p{}")
			t.add(m+"/y.css", "py{}")
			t.add(m+"/index.css", "pi{}")
		case "styleless":
			t.add(m+"/package.json", `{}`)
			t.add(m+"/index.css", "i{}")
		case "invalid":
			t.add(m+"/package.json", `{"style"}`)
			t.add(m+"/index.css", "i{}")
			t.add(m+"/y/index.css", "i{}")
		case "cssdir":
			t.add(m+".css/index.css", "i{}")
		case "both":
			t.add(m+".css", "c{}")
			t.add(m+"/index.css", "i{}")
			t.add(m+"/y.css", "y{}")
		case "nmfile":
			if dir != "." && !strings.HasPrefix(dir, "base") {
				t.add(dir, "a file")
			}
		case "link":
			t.add("store/index.css", "l{}")
			t.add("store/y.css", "l{}")
			t.add(m, LinkMark+strings.Repeat("../", strings.Count(m, "/"))+"store")
		}
	}
	register(&Check{
		ID:   "C16",
		Rule: "all states of the files and directories that one relative candidate can depend on (package.json in 23 forms, index.css, style targets, extensions, symbolic links) for 17 specifiers; all combinations of 12 states on four levels of node_modules and BaseURL for non-relative specifiers; all pairs of 54 names of files in three directories; spellings of the directories; the same through Compile; distinct by tree, specifier, directory and BaseURL",
		Parts: []Part{
			{Name: "one candidate", Dev: [2]int{0, 0}, Body: func(x *X) {
				t := tree{"pkg.json": `{"style":"s.css"}`, "p/pkg.json": `{"style":"s.css"}`, "p": DirMark, "p/q": DirMark, "p/q/pkg.json": `{"style":"s.css"}`, "p/q/s.css": "qs{}"}
				switch x.Free(5) {
				case 1:
					t.add("p/q/x", "x{}")
				case 2:
					dir(x, t, "p/q/x")
				case 3:
					t.add("p/q/x", LinkMark+"s.css")
				case 4:
					t.add("p/q/x", LinkMark+"nope")
				}
				switch x.Free(5) {
				case 1:
					t.add("p/q/x.css", "xc{}")
				case 2:
					t.add("p/q/x.css/index.css", "xci{}")
				case 3:
					t.add("p/q/x.css", LinkMark+"nope")
				case 4:
					t.add("p/q/x.css", LinkMark+"x/s.css")
				}
				spec := x.FreePick(relative...)
				x.Case(fmt.Sprint(t, spec))
				resolves(x, t, spec, "p/q", "-", "")
			}},
			{Name: "extension and directory", Dev: [2]int{0, 0}, Body: func(x *X) {
				// The same for the directory itself and its parent.
				t := tree{"p": DirMark, "p/q": DirMark, "pkg.json": `{"style":"s.css"}`, "p/pkg.json": `{"style":"s.css"}`}
				if x.Free(2) == 1 {
					t.add("p/q.css", "qc{}")
				}
				if x.Free(2) == 1 {
					t.add("p.css", "pc{}")
				}
				dir(x, t, "p/q")
				if x.Free(2) == 1 {
					t.add("p/index.css", "pi{}")
				}
				spec := x.FreePick("./", "./.", "../q", "../q/", "../", "../.", "/", "/../q", "../q.css", "..", ".", "", "./..", "../../p")
				x.Case(fmt.Sprint(t, spec))
				resolves(x, t, spec, "p/q", "-", "")
			}},
			{Name: "levels", Dev: [2]int{2, 4}, Body: func(x *X) {
				t := tree{}
				spec := x.FreePick("x", "x/y", "@s/x", "x.css", "x/y.css", "x/", "x/../x")
				name := "x"
				if spec == "@s/x" {
					name = spec
				}
				base := "-"
				for _, dir := range []string{"base", "p/q/node_modules", "p/node_modules", "node_modules", "p/q/r/node_modules"} {
					s := levelStates[x.Choose(len(levelStates))]
					level(t, dir, name, s)
				}
				if x.Free(2) == 1 {
					base = "base"
				}
				from := x.FreePick("p/q", "p/q/r")
				x.Case(fmt.Sprint(t, spec, from, base))
				resolves(x, t, spec, from, base, "")
			}},
			{Name: "names", Dev: [2]int{0, 0}, Body: func(x *X) {
				// No name is special.
				names := append([]string{"b.css", "b.css.css", "b.scss.css", "b.", "b..css.css", "b.css?x", "b.css#c", "b c", "!b.css", "b!c.css", "b\\c.css", "http:", "file:b.css", "B"}, oddFiles...)
				t := tree{"p/q": DirMark}
				where, other := x.FreePick("p/q", "p/node_modules", "base", "node_modules"), x.FreePick("p/q", "node_modules", "base")
				f, g := names[x.Free(len(names))], names[x.Free(len(names))]
				if !x.thorough && (where == "base" && other == "base" || where == "node_modules") {
					x.Skip()
				}
				t.add(path.Join(where, f), "f{}")
				if h := path.Join(other, g); t[h] == "" {
					t.add(h, "g{}")
				}
				spec := x.FreePick("", "./", "/") + strings.TrimSuffix(f, x.FreePick("", ".css"))
				if !x.thorough && strings.HasPrefix(spec, "/") {
					x.Skip()
				}
				x.Case(fmt.Sprint(t, spec))
				resolves(x, t, spec, "p/q", "base", "")
			}},
			{Name: "directories", Dev: [2]int{1, 2}, Body: func(x *X) {
				t := tree{}
				from := x.FreePick(".", "p", "p/q", "p/q/node_modules/z", "p/q/node_modules", "p/node_modules/x", "p/a b/ü")
				base := x.FreePick("-", "base", ".", "base/nope", "p", "base/../base")
				style := x.FreePick("", "relative", "dot", "unclean", "slash")
				for _, dir := range []string{"base", "p/q/node_modules", "p/node_modules", "node_modules", "p/a b/node_modules", "p/q/node_modules/z/node_modules", "p/node_modules/x/node_modules", "p/q/node_modules/node_modules"} {
					if dir == "p/node_modules/x/node_modules" && (t["p/node_modules/x"] != "" && t["p/node_modules/x"] != DirMark || t["p/node_modules"] != "" && t["p/node_modules"] != DirMark) {
						continue
					}
					if strings.HasPrefix(dir, "p/q/node_modules/") && t["p/q/node_modules"] != "" && t["p/q/node_modules"] != DirMark {
						continue
					}
					level(t, dir, "x", levelStates[x.Choose(8)])
				}
				spec := x.FreePick("x", "./node_modules/x", "../x", "node_modules/x", ".x", "..x", "x/y", "./x")
				if style == "unclean" && (strings.HasPrefix(base, "base/") || base == ".") {
					x.Skip()
				}
				x.Case(fmt.Sprint(t, spec, from, base, style))
				resolves(x, t, spec, from, base, style)
			}},
			{Name: "through Compile", Dev: [2]int{2, 3}, Body: func(x *X) {
				t := tree{}
				spec := x.FreePick("x", "./x", "x/y", "../x", "./x/y")
				for _, dir := range []string{"p/q/node_modules", "node_modules", "p/q", "p"} {
					s := levelStates[x.Choose(10)]
					if s == "file" || s == "nmfile" {
						s = "none"
					}
					level(t, dir, "x", s)
				}
				base := x.FreePick("-", "p")
				mode := transforms.ImportRules(1 + x.Free(2))
				x.Case(fmt.Sprint(t, spec, base, mode))
				want, ok := t.resolve(spec, "p/q", base)
				t.add("p/q/a.css", fmt.Sprintf("@import %q;e{k:v}", spec))
				p := Proj{}
				for f, c := range t {
					if c != DirMark {
						p[f] = c
					}
				}
				for f, c := range t {
					if c == DirMark {
						p[f+"/.keep"] = ""
					}
				}
				x.w.clean()
				res := x.Compile(p, Cfg{Entries: []string{"p/q/a.css"}, Tr: transforms.Options{ImportRules: mode}, Resolver: x.resolver(base)})
				x.Validated()
				keys := map[string]bool{"p/q/a.css": true}
				css := fmt.Sprintf("@import %q;", spec)
				if ok {
					_, content := t.stat(want)
					if mode == 1 {
						keys[want] = true
					} else {
						css = content
					}
				}
				css += "e{k:v}"
				if !sameList(outKeys(res), keysOf(keys)) || res.Panic != "" {
					x.Fail("outputs %q instead of %q\n%s%s", outKeys(res), keysOf(keys), res.ErrText(), res.Panic)
				} else if d, _ := SheetDiff(css, res.Out["p/q/a.css"]); d != "" {
					x.Fail("%s", d)
				} else if ok != (len(res.Errs) == 0) {
					x.Fail("resolves: %v, but %d errors\n%s", ok, len(res.Errs), res.ErrText())
				}
				x.Outcome(res.Out["p/q/a.css"])
			}},
		},
	})
}
