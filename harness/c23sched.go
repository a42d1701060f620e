//go:build sched

package main

// Compilations at the same time, under the controlled scheduler.

import "strings"

// together are pairs of compilations of one project.
func together() (out []*scenario) {
	leaf := "x { k: v }\n"
	shared := Proj{"a.css": plain, "b.css": plain, "c.css": leaf + badSyntax, "d.css": leaf + badCalc, "e.css": imports("b.css") + leaf, "f.css": imports("c.css") + leaf, "g.css": imports("none", "z.css") + leaf, "h.css": strings.Replace(plain, "1px", "2px", -1)}
	names := strings.Fields("a b c d e f g h z")
	cfgs := []int{trConfigs - 3, trConfigs - 2, trConfigs - 1, 0}
	one := func(e string, cfg int) *scenario {
		return &scenario{name: "compilations at once", proj: shared, entries: []string{e + ".css"}, tr: trConfig(cfg), custom: e == "g"}
	}
	for _, e := range names {
		for _, f := range names {
			for _, c := range cfgs {
				for _, d := range cfgs {
					if e > f || e == f && c > d {
						continue
					}
					s := one(e, c)
					s.also = []*scenario{one(f, d)}
					out = append(out, s)
				}
			}
		}
	}
	return
}

func init() {
	check23.Parts = append(check23.Parts,
		schedulePart("compilations at once, one preemption", 1, false, together),
		schedulePart("compilations at once", unlimited, true, together),
		schedulePart("three compilations at once", 1, true, func() (out []*scenario) {
			for i, s := range together() {
				third := *s.also[0]
				t := *s
				t.also = append([]*scenario{}, s.also[0], &third)
				if i%3 == 0 {
					out = append(out, &t)
				}
			}
			return
		}),
	)
}
