// Command schedgen writes a build overlay, in which the packages of the compiler use the controlled
// scheduler: synchronization packages are replaced, and go statements, channel operations and ranges over
// maps call it. It is run in the directory of the harness.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module = "github.com/stephen/cssc"
	shims  = "github.com/stephen/cssc/verifharness/shim/"
)

type pkg struct {
	ImportPath, Dir, Export string
	Standard                bool
	GoFiles                 []string
	ImportMap               map[string]string
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type gen struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	n     int
	notes []string
	used  bool
	done  map[ast.Node]bool
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "schedgen:", err)
		os.Exit(1)
	}
}

func main() {
	out := os.Args[1]
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json"}, module)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	pkgs := map[string]*pkg{}
	var mine []*pkg
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		pkgs[p.ImportPath] = p
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	overlay := map[string]string{}
	var notes []string
	count := 0
	for _, p := range mine {
		p := p
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			d := pkgs[path]
			if d == nil || d.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(d.Export)
		})
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := ioutil.ReadFile(name)
			check(err)
			a, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			check(err)
			files, names, srcs = append(files, a), append(names, name), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			g := &gen{fset: fset, info: info, src: srcs[i], base: fset.File(f.Pos()).Base(), done: map[ast.Node]bool{}}
			text, changed := g.file(f)
			notes = append(notes, g.notes...)
			if !changed {
				continue
			}
			count += g.n
			dst := filepath.Join(out, fmt.Sprintf("overlay%d_%s", len(overlay), filepath.Base(names[i])))
			check(ioutil.WriteFile(dst, text, 0o644))
			overlay[names[i]] = dst
		}
	}
	b, err = json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	check(err)
	check(ioutil.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	for _, n := range notes {
		fmt.Println("not controlled:", n)
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("%d files, %d places\n", len(overlay), count)
	}
}

func (g *gen) off(p token.Pos) int { return int(p) - g.base }

func (g *gen) replace(from, to token.Pos, text string) {
	g.edits = append(g.edits, edit{g.off(from), g.off(to), text, len(g.edits)})
}

func (g *gen) insert(at token.Pos, text string) { g.replace(at, at, text) }

func (g *gen) text(n ast.Node) string { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }

func (g *gen) note(n ast.Node, what string) {
	g.notes = append(g.notes, fmt.Sprintf("%s: %s", g.fset.Position(n.Pos()), what))
}

func (g *gen) unsupported(at token.Pos, n ast.Node, what string) {
	g.note(n, what)
	g.used = true
	g.insert(at, "zzsched.Unsupported("+strconv.Quote(what)+"); ")
}

func (g *gen) file(f *ast.File) ([]byte, bool) {
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		to := map[string]string{"sync": "sync", "sync/atomic": "atomic", "golang.org/x/sync/errgroup": "errgroup"}[path]
		if to != "" {
			g.replace(imp.Path.Pos(), imp.Path.End(), strconv.Quote(shims+to))
			g.n++
		}
	}
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	comm := map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			labels[n.Stmt] = n
		case *ast.CommClause:
			if n.Comm != nil {
				comm[n.Comm] = true
			}
		}
		return true
	})
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if s, ok := n.(ast.Stmt); ok && comm[s] {
			return false
		}
		switch n := n.(type) {
		case *ast.GoStmt:
			g.goStmt(n)
		case *ast.RangeStmt:
			g.rangeStmt(n)
		case *ast.SendStmt:
			g.used = true
			g.insert(n.Chan.Pos(), "zzsched.Send(")
			g.replace(n.Chan.End(), n.Value.Pos(), ")(")
			g.insert(n.Value.End(), ")")
			g.n++
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				g.recv(n.Rhs[0], "Recv2")
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				g.recv(n.Values[0], "Recv2")
			}
		case *ast.UnaryExpr:
			g.recv(n, "Recv")
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && g.builtin(id) {
				g.used = true
				g.replace(id.Pos(), id.End(), "zzsched.Close")
				g.n++
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if o, ok := g.info.Uses[s.Sel].(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "runtime" && o.Name() == "Gosched" {
					g.used = true
					g.replace(n.Pos(), n.Lparen, "_ = runtime.NumCPU; zzsched.Point")
					g.n++
				}
			}
		case *ast.SelectStmt:
			at := n.Pos()
			if l := labels[n]; l != nil {
				at = l.Pos()
			}
			g.unsupported(at, n, "select")
		}
		return true
	}
	ast.Inspect(f, visit)
	if len(g.edits) == 0 {
		return nil, false
	}
	if g.used {
		g.insert(f.Name.End(), "; import zzsched "+strconv.Quote(shims+"sched"))
	}
	sort.SliceStable(g.edits, func(i, j int) bool {
		a, b := g.edits[i], g.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		// Insertions before replacements.
		if (a.to == a.from) != (b.to == b.from) {
			return a.to == a.from
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	out.WriteString("//go:build go1.21\n\n")
	pos := 0
	for _, e := range g.edits {
		if e.from < pos {
			g.note(f, "overlapping edits")
			return nil, false
		}
		out.Write(g.src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(g.src[pos:])
	return out.Bytes(), true
}

func (g *gen) builtin(id *ast.Ident) bool {
	_, ok := g.info.Uses[id].(*types.Builtin)
	return ok
}

func (g *gen) recv(e ast.Expr, fn string) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW || g.done[u] {
		return
	}
	g.done[u] = true
	g.used = true
	g.n++
	g.replace(u.Pos(), u.X.Pos(), "zzsched."+fn+"(")
	g.insert(u.End(), ")")
}

// goStmt rewrites go f(a) to { zzf := f; zz0 := a; zzsched.Go(func() { zzf(zz0) }) }.
func (g *gen) goStmt(n *ast.GoStmt) {
	c := n.Call
	fun := c.Fun
	if id, ok := fun.(*ast.Ident); ok && g.builtin(id) {
		g.unsupported(n.Pos(), n, "go with a builtin function")
		return
	}
	if len(c.Args) == 1 {
		if t, ok := g.info.Types[c.Args[0]]; ok {
			if _, ok := t.Type.(*types.Tuple); ok {
				g.unsupported(n.Pos(), n, "go with a multi-value argument")
				return
			}
		}
	}
	g.used = true
	g.n++
	g.replace(n.Pos(), fun.Pos(), "{ zzf := ")
	at, sep := fun.End(), "; "
	var names []string
	for i, a := range c.Args {
		t := g.info.Types[a]
		if t.Value != nil || t.IsNil() {
			g.replace(at, a.End(), sep)
			sep = ""
			names = append(names, g.text(a))
		} else {
			name := fmt.Sprintf("zz%d", i)
			names = append(names, name)
			g.replace(at, a.Pos(), sep+name+" := ")
			sep = "; "
		}
		at = a.End()
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	g.replace(at, c.End(), sep+"zzsched.Go(func() { zzf("+strings.Join(names, ", ")+dots+") }) }")
}

func (g *gen) rangeStmt(n *ast.RangeStmt) {
	t := g.info.Types[n.X].Type
	if t == nil {
		g.note(n, "range over an unknown type")
		return
	}
	iter := ""
	switch t.Underlying().(type) {
	case *types.Map:
		iter = "Iter"
	case *types.Chan:
		iter = "IterChan"
	default:
		return
	}
	addr := func(e ast.Expr) string {
		if e == nil {
			return "nil"
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return "nil"
		}
		return "&" + g.text(e)
	}
	name := func(e ast.Expr) string {
		if a := addr(e); a != "nil" {
			return a[1:]
		}
		return "_"
	}
	g.used = true
	g.n++
	k, v := addr(n.Key), addr(n.Value)
	head, args := "for zzit := zzsched."+iter+"(", ""
	if iter == "Iter" {
		if n.Tok == token.DEFINE {
			head = fmt.Sprintf("for %s, %s, zzit := zzsched.Iter3(", name(n.Key), name(n.Value))
		}
		args = k + ", " + v
	} else {
		if n.Tok == token.DEFINE {
			head = fmt.Sprintf("for %s, zzit := zzsched.IterChan2(", name(n.Key))
		}
		args = k
	}
	if g.text(n)[:3] != "for" {
		g.note(n, "range")
		return
	}
	g.replace(n.For, n.X.Pos(), head)
	g.insert(n.X.End(), "); zzit.Next("+args+"); ")
}
