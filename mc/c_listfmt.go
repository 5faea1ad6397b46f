package main

import (
	"fmt"
	"strings"
)

// listFormats are ways to write a whole package list.
var listFormats = []struct {
	name string
	f    func(s string) string
}{
	{"plain", func(s string) string { return s }},
	{"no-final-newline", func(s string) string { return strings.TrimRight(s, "\n") }},
	{"blank-at-end", func(s string) string { return s + "\n\n\n" }},
	{"blank-at-start", func(s string) string { return "\n\n" + s }},
	{"blank-between", func(s string) string { return strings.ReplaceAll(s, "\n\n", "\n\n\n\n\n") }},
	{"crlf", func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }},
	{"crlf-no-final-newline", func(s string) string { return strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\r\n") }},
	{"crlf-final-lf", func(s string) string { return strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\r\n") + "\n" }},
	{"crlf-blank-at-end", func(s string) string { return strings.ReplaceAll(s+"\n\n", "\n", "\r\n") }},
	{"crlf-blank-between", func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "\n\n", "\n\n\n\n"), "\n", "\r\n")
	}},
	{"crlf-after-first", func(s string) string {
		i := strings.Index(s, "\n\n") + 2
		return s[:i] + strings.ReplaceAll(s[i:], "\n", "\r\n")
	}},
	{"crlf-first-only", func(s string) string {
		i := strings.Index(s, "\n\n") + 2
		return strings.ReplaceAll(s[:i], "\n", "\r\n") + s[i:]
	}},
	{"blanks-between", func(s string) string { return strings.ReplaceAll(s, "\n\n", "\n \n") }},
}

// runC06f writes whole package lists in many ways.
func runC06f(c *Ctx) {
	n, dg := product(len(listFormats), 3, 3, 2)
	var names []string
	for _, f := range listFormats {
		names = append(names, f.name)
	}
	c.Bound("package lists written in %d ways %v x source list / binary list / both x 1-3 chains of packages x in the first or second repository: %d configurations", len(names), names, n)
	c.Cases(n, pick(c, 10, 40), func(i int) *Kase {
		g := dg(i)
		var l []Pkg
		for x := 0; x <= g[2]; x++ {
			l = append(l, Pkg{Name: fmt.Sprintf("B%d", x), Ver: "1.0"}, Pkg{Name: fmt.Sprintf("A%d", x), Ver: "1.0", Imports: fmt.Sprintf("B%d", x)})
		}
		r := DRepo{Name: "R1", Src: l}
		if g[1] != 0 {
			r.Bin, r.RepoType = l, "MPN"
		}
		o := DRepo{Name: "R2", Src: []Pkg{{Name: "Z", Ver: "1.0"}}}
		d := &Decl{Packages: []string{"Z"}, Repos: []DRepo{r, o}}
		if g[3] == 1 {
			d.Repos = []DRepo{o, r}
		}
		for x := 0; x <= g[2]; x++ {
			d.Packages = append(d.Packages, fmt.Sprintf("A%d", x))
		}
		k := declCase(fmt.Sprintf("list-%s-%v", names[g[0]], g[1:]), d, nil, "set")
		for p, b := range k.World.Files {
			if strings.HasPrefix(p, "www/R1/") && strings.HasSuffix(p, "/PACKAGES") && (g[1] == 2 || strings.Contains(p, "/src/") == (g[1] == 0)) {
				k.World.Files[p] = []byte(listFormats[g[0]].f(string(b)))
			}
		}
		judge := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := judge(r)
			if sig != "" {
				sig = "list-" + names[g[0]] + ":" + sig
			}
			return sig, msg
		}
		return k
	})
}
