package main

import (
	"fmt"
	"strings"
)

// twiceForms are ways in which a configuration says the same thing again.
var twiceForms = []struct {
	name string
	f    func(y string) string
}{
	{"package", func(y string) string { return strings.Replace(y, "  - B\n", "  - B\n  - A\n  - B\n", 1) }},
	{"ignored", func(y string) string { return strings.Replace(y, "  - Z\n", "  - Z\n  - Z\n", 1) }},
	{"tarball", func(y string) string {
		return strings.Replace(y, "  - tb/T_0.3.tar.gz\n", "  - tb/T_0.3.tar.gz\n  - tb/T_0.3.tar.gz\n", 1)
	}},
	{"tarball-spelled-otherwise", func(y string) string {
		return strings.Replace(y, "  - tb/T_0.3.tar.gz\n", "  - tb/T_0.3.tar.gz\n  - ./tb/../tb/T_0.3.tar.gz\n", 1)
	}},
	{"description", func(y string) string {
		return strings.Replace(y, "  - ds/U/DESCRIPTION\n", "  - ds/U/DESCRIPTION\n  - ds/U/DESCRIPTION\n", 1)
	}},
	{"repository", func(y string) string {
		return strings.Replace(y, "  - R1: http://r1.example\n", "  - R1: http://r1.example\n  - R1: http://r1.example\n", 1)
	}},
	{"repository-under-another-name", func(y string) string {
		return strings.Replace(y, "  - R2: http://r2.example\n", "  - R2: http://r2.example\n  - Again: http://r1.example\n  - Slash: http://r2.example/\n", 1)
	}},
}

// runTwice repeats what a configuration says.
func runTwice(c *Ctx) {
	nf := len(twiceForms)
	n, dg := product(1<<nf, 3, 2, 2)
	var names []string
	for _, f := range twiceForms {
		names = append(names, f.name)
	}
	c.Bound("every combination of %d repetitions in the configuration %v x an empty library, one with everything outdated, one with everything x source or binary repository x one or three workers: %d configurations", nf, names, n)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		g := dg(i)
		a, b, cc := Pkg{Name: "A", Ver: "2.0", Imports: "B", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", Variant: "repo"}
		z := Pkg{Name: "Z", Ver: "1.0"}
		r := DRepo{Name: "R1", Src: []Pkg{a, b, z}}
		if g[2] == 1 {
			r.RepoType, r.Bin = "MPN", r.Src
		}
		d := &Decl{Packages: []string{"A", "B"}, Ignore: []string{"Z"}, Repos: []DRepo{r, {Name: "R2", Src: []Pkg{cc, a}}}, Threads: 1 + 2*g[3],
			Tarballs: []Pkg{{Name: "T", Ver: "0.3", Imports: "A", Variant: "tar"}}, Descs: []Pkg{{Name: "U", Ver: "1.0", Imports: "C"}}}
		for _, p := range []Pkg{a, b, cc, d.Tarballs[0]} {
			p.Variant = "was"
			switch g[1] {
			case 1:
				p.Ver = "0.1"
				d.Installed = append(d.Installed, p)
			case 2:
				d.Installed = append(d.Installed, p)
			}
		}
		var on []string
		y := d.YAML()
		for x, f := range twiceForms {
			if g[0]>>x&1 == 1 {
				y2 := f.f(y)
				if y2 == y {
					panic(f.name)
				}
				y = y2
				on = append(on, f.name)
			}
		}
		k := declCase(fmt.Sprintf("twice-%v", g), d, nil, "set", "source", "content", "update", "library")
		k.World.Add("proj/pkgr.yml", y)
		k.Desc = y
		judge := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := judge(r)
			if sig == "" {
				started := map[string]int{}
				for _, e := range r.last().Evs {
					if e.T == "rstart" && (e.Kind == "install") {
						started[fmt.Sprintf("%s build %v", e.Pkg, e.Build)]++
					}
				}
				for p, n := range started {
					if n > 1 {
						sig, msg = "more-than-once", fmt.Sprintf("R was started %d times for %s; config:\n%s", n, p, y)
					}
				}
			}
			if sig != "" {
				sig = "twice:" + sig
				msg = fmt.Sprintf("repeated %v: %s", on, msg)
			}
			return sig, msg
		}
		return k
	})
}
