package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// SheetDiff compares the meaning of a stylesheet before and after compilation with transforms off.
// It returns the differences, and which known findings would explain all of them.
func SheetDiff(in, out string) (diff string, known []string) {
	want, got := ParseSheet(in), ParseSheet(out)
	cw, cg := CanonSheet(want.Rules), CanonSheet(got.Rules)
	if sameList(cw, cg) {
		return "", nil
	}
	diff = fmt.Sprintf("want:\n%s\ngot:\n%s", indent(Show(cw)), indent(Show(cg)))
	dropped := func(rules []Rule) []Rule {
		var out []Rule
		for _, r := range rules {
			if !(r.IsAt && r.At == "custom-media") {
				out = append(out, r)
			}
		}
		return out
	}
	if sameList(CanonSheet(dropped(want.Rules)), cg) {
		return diff, []string{"K2"}
	}
	sq := ParseSheet(Squash(in))
	if sameList(CanonSheet(sq.Rules), cg) {
		return diff, []string{"K1"}
	}
	if sameList(CanonSheet(dropped(sq.Rules)), cg) {
		return diff, []string{"K1", "K2"}
	}
	return diff, nil
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Explained fails unless the difference is made of listed findings only.
func (x *X) Explained(known []string, f string, args ...interface{}) {
	for _, k := range known {
		if !x.Known(k) {
			known = nil
		}
	}
	if len(known) == 0 {
		x.Fail(f, args...)
	}
}

// Preserved checks that a compilation with transforms off kept the meaning of the sheet.
func (x *X) Preserved(in, out string) {
	x.Validated()
	if diff, known := SheetDiff(in, out); diff != "" {
		x.Explained(known, "the output has a different meaning\noutput: %s\n%s", out, diff)
	}
}

// Accepted checks that the only file compiled without any error and returns its output.
func (x *X) Accepted(res *Res) (string, bool) {
	if res.Panic != "" {
		x.Fail("%s", res.Panic)
		return "", false
	}
	if len(res.Errs) > 0 {
		x.Fail("valid input is not accepted: %s", res.ErrText())
		return "", false
	}
	out, ok := res.Only()
	if !ok {
		x.Fail("no output and no error")
	}
	return out, ok
}

// seq enumerates all sequences of up to max elements joined with one of the joiners.
func (x *X) seq(max int, alphabet, joiners []string) string {
	var b strings.Builder
	n := x.Free(max + 1)
	for i := 0; i < n; i++ {
		if i > 0 && len(joiners) > 0 {
			b.WriteString(joiners[x.Free(len(joiners))])
		}
		b.WriteString(alphabet[x.Free(len(alphabet))])
	}
	return b.String()
}

// toFile resolves every import to the same file.
type toFile string

// Resolve implements cssc.Resolver.
func (f toFile) Resolve(spec, fromDir string) (string, error) { return string(f), nil }

// CompileOne compiles a sheet. Its imports lead to an unrelated file.
func (x *X) CompileOne(css string, cfg Cfg) *Res {
	p := One(css)
	if strings.Contains(css, "import") || strings.Contains(css, "\\") && strings.Contains(css, "@") {
		p["i.css"] = "imported{k:v}"
		cfg.Resolver = toFile(filepath.Join(x.w.dir, "p", "i.css"))
	}
	return x.Compile(p, cfg)
}
