package main

// Runs the compiler on files in the scratch directory of the worker.

import (
	"encoding/base64"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

// Proj is a set of files by path relative to the project root.
type Proj map[string]string

// Err is a reported error.
type Err struct {
	Text      string // with the project root replaced by $
	Located   bool
	File      string // relative
	Line, Col int
	Msg       string
	Quote     string // the quoted line and underline
	Err       error
}

// Res is the observable result of a compilation.
type Res struct {
	Out   map[string]string // css without source map by relative path
	Map   map[string]string // source map json
	Errs  []Err
	Panic string
	Late  bool // the reporter was used after Compile returned, or by two goroutines at once
}

// Only returns the output of the only file.
func (r *Res) Only() (string, bool) {
	o, ok := r.Out["a.css"]
	return o, ok
}

// ErrText joins all errors.
func (r *Res) ErrText() string {
	var l []string
	for _, e := range r.Errs {
		l = append(l, e.Text)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type recorder struct {
	mu     sync.Mutex
	errs   []error
	texts  []string
	panics string
}

// AddError implements cssc.Reporter.
func (r *recorder) AddError(err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			r.panics = fmt.Sprintf("reported error cannot be printed: %v\n%s", p, debug.Stack())
		}
	}()
	r.errs = append(r.errs, err)
	r.texts = append(r.texts, err.Error())
}

// Cfg configures a compilation.
type Cfg struct {
	Entries  []string // default a.css; relative to the root
	Raw      []string // entries passed as they are
	Tr       transforms.Options
	Resolver cssc.Resolver
}

// One is the project with just a.css.
func One(css string) Proj { return Proj{"a.css": css} }

// sync makes the scratch directory equal to the project. Contents starting with "\x00dir" are directories.
func (w *Worker) sync(p Proj) {
	if w.disk == nil {
		w.disk = map[string]string{}
	}
	for f := range w.disk {
		if _, ok := p[f]; !ok {
			must(os.RemoveAll(filepath.Join(w.dir, "p", f)))
			delete(w.disk, f)
		}
	}
	for f, c := range p {
		if old, ok := w.disk[f]; ok && old == c {
			continue
		}
		full := filepath.Join(w.dir, "p", f)
		if w.dirs == nil {
			w.dirs = map[string]bool{}
		}
		if d := filepath.Dir(full); !w.dirs[d] {
			must(os.MkdirAll(d, 0o755))
			w.dirs[d] = true
		}
		switch old := w.disk[f]; {
		case c == DirMark:
			must(os.RemoveAll(full))
			must(os.MkdirAll(full, 0o755))
		case strings.HasPrefix(c, LinkMark):
			must(os.RemoveAll(full))
			must(os.Symlink(c[len(LinkMark):], full))
		default:
			if old == DirMark || strings.HasPrefix(old, LinkMark) {
				must(os.RemoveAll(full))
			}
			must(ioutil.WriteFile(full, []byte(c), 0o644))
		}
		w.disk[f] = c
	}
}

// DirMark as content makes a directory instead of a file.
const DirMark = "\x00dir"

var locRE = regexp.MustCompile(`(?s)^(.*?):(\d+):(\d+)\n(.*?):\n(\t.*)$`)

// Compile runs the compiler.
func (x *X) Compile(p Proj, cfg Cfg) *Res {
	w := x.w
	w.sync(p)
	w.Stats.Execs++
	root := filepath.Join(w.dir, "p")
	var entries []string
	if cfg.Entries == nil && cfg.Raw == nil {
		cfg.Entries = []string{"a.css"}
	}
	for _, e := range cfg.Entries {
		entries = append(entries, filepath.Join(root, e))
	}
	entries = append(entries, cfg.Raw...)
	rec := &recorder{}
	res := &Res{Out: map[string]string{}, Map: map[string]string{}}
	var result *cssc.Result
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Panic = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		result = cssc.Compile(cssc.Options{Entry: entries, Reporter: rec, Transforms: cfg.Tr, Resolver: cfg.Resolver})
	}()
	if rec.panics != "" {
		res.Panic = rec.panics
	}
	for i, e := range rec.errs {
		if i < len(rec.texts) {
			res.Errs = append(res.Errs, parseErr(e, rec.texts[i], root))
		}
	}
	if result == nil {
		return res
	}
	for f, out := range result.Files {
		rel, err := filepath.Rel(root, f)
		if err != nil || f != filepath.Join(root, rel) {
			rel = "!" + f
		}
		css, m := SplitMap(out)
		res.Out[rel] = css
		res.Map[rel] = strings.ReplaceAll(m, root, "$")
	}
	return res
}

func parseErr(e error, text, root string) Err {
	t := strings.ReplaceAll(text, root, "$")
	out := Err{Text: t, Err: e}
	if m := locRE.FindStringSubmatch(t); m != nil {
		out.Located = true
		out.File = strings.TrimPrefix(m[1], "$/")
		out.Line, _ = strconv.Atoi(m[2])
		out.Col, _ = strconv.Atoi(m[3])
		out.Msg, out.Quote = m[4], m[5]
	}
	return out
}

const mapMark = "\n/*# sourceMappingURL=data:application/json;base64,"

// SplitMap separates the css from the source map.
func SplitMap(out string) (css, m string) {
	i := strings.LastIndex(out, mapMark)
	if i < 0 {
		return out, ""
	}
	b64 := out[i+len(mapMark):]
	j := strings.Index(b64, " */")
	if j < 0 || strings.Trim(b64[j+3:], "\n") != "" {
		return out, ""
	}
	b, err := base64.StdEncoding.DecodeString(b64[:j])
	if err != nil {
		return out[:i], "invalid base64: " + err.Error()
	}
	return out[:i], string(b)
}

// clean forgets the project, with the directories that it made.
func (w *Worker) clean() {
	must(os.RemoveAll(filepath.Join(w.dir, "p")))
	w.disk, w.dirs = nil, nil
}

// resolver is the default resolver with a BaseURL relative to the project, or without one.
func (x *X) resolver(base string) cssc.Resolver {
	if base == "-" {
		return nil
	}
	return &resolver.NodeResolver{BaseURL: filepath.Join(x.w.dir, "p", base)}
}
