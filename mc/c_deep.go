package main

import (
	"fmt"
	"strings"
)

// ---- deeper and wider dependency graphs than the exhaustive families reach ----

type deepShape struct {
	name string
	pkgs []Pkg
	top  []string
}

// dname scatters the names, so that they sort neither as the dependencies go
// nor against them.
func dname(i int) string { return fmt.Sprintf("%c%dx", 'a'+rune(i*7%26), i) }

func deepShapes() []deepShape {
	kind := func(p *Pkg, i int, deps []string) {
		s := strings.Join(deps, ", ")
		switch i % 3 {
		case 0:
			p.Imports = s
		case 1:
			p.LinkingTo = s
		default:
			p.Depends = s
		}
	}
	mk := func(n int, deps func(i int) []int) []Pkg {
		var ps []Pkg
		for i := 0; i < n; i++ {
			p := Pkg{Name: dname(i), Ver: "1.0"}
			var ds []string
			for _, j := range deps(i) {
				ds = append(ds, dname(j))
			}
			kind(&p, i, ds)
			ps = append(ps, p)
		}
		return ps
	}
	chain := mk(10, func(i int) []int {
		if i == 0 {
			return nil
		}
		return []int{i - 1}
	})
	ladder := mk(14, func(i int) []int {
		if i < 2 {
			return nil
		}
		return []int{i/2*2 - 2, i/2*2 - 1}
	})
	full := mk(7, func(i int) []int {
		var r []int
		for j := 0; j < i; j++ {
			r = append(r, j)
		}
		return r
	})
	wide := mk(42, func(i int) []int {
		var r []int
		if i == 41 {
			for j := 0; j < i; j++ {
				r = append(r, j)
			}
		}
		return r
	})
	// two chains over one bottom, and one package that needs the ends of both and the bottom itself
	arms := mk(12, func(i int) []int {
		switch {
		case i == 0:
			return nil
		case i == 1 || i == 6:
			return []int{0}
		case i == 11:
			return []int{5, 10, 0}
		}
		return []int{i - 1}
	})
	return []deepShape{
		{"deep", chain, []string{dname(9)}},
		{"ladder", ladder, []string{dname(12), dname(13)}},
		{"full", full, []string{dname(6), dname(2)}},
		{"wide", wide, []string{dname(41)}},
		{"arms", arms, []string{dname(11)}},
	}
}

func deepScens(c *Ctx, fails int) []*iscen {
	var l []*iscen
	for i, s := range deepShapes() {
		if fails > 0 && s.name == "wide" && c.quick() {
			continue
		}
		for st := 0; st < 2; st++ {
			sc := &iscen{name: s.name, src: s.pkgs, user: s.top, threads: 3, quiet: true, maxFail: fails, failExit: failExits[i%len(failExits)],
				budget: Budget{Env: 9, Out: 9, Total: pick(c, 1, 2)}, starve: Budget{Out: min(fails, 1), Total: min(fails, pick(c, 0, 1))}}
			if c.quick() {
				// every other run deviates in its outcomes or in its order, not both
				sc.starve = Budget{}
				if fails > 0 {
					sc.budget = Budget{Out: 1, Total: 1}
				}
			}
			if st == 1 {
				// a package in the middle is outdated, another current
				sc.name += "-have"
				n := len(s.pkgs)
				a, b := s.pkgs[n/2], s.pkgs[n/3]
				a.Ver = "0.5"
				sc.installed = []Pkg{a, b}
			}
			l = append(l, sc)
		}
	}
	c.Bound("%d deeper and wider plans (a chain of 10, 7 layers of 2, everything on everything before it, one on 41, two arms of 5), fresh and on a partly installed library: up to %d deviations", len(l), pick(c, 1, 2))
	return l
}

// deepCases plans the same graphs, by every way of requesting them.
func deepCases(each func(s deepShape, how int, d *Decl) *Kase) []*Kase {
	var ks []*Kase
	for _, s := range deepShapes() {
		for how := 0; how < 3; how++ {
			d := &Decl{Rolloff: true}
			all := append([]Pkg{}, s.pkgs...)
			switch how {
			case 0:
				d.Packages = s.top
			case 1: // through a tarball
				d.Tarballs = []Pkg{{Name: "Tar", Ver: "1.0", Imports: strings.Join(s.top, ", ")}}
			case 2: // a suggested package
				all = append(all, Pkg{Name: "Top", Ver: "1.0", Suggests: strings.Join(s.top, ", ")})
				d.Packages, d.Suggests = []string{"Top"}, true
			}
			d.Repos = []DRepo{{Name: "X", Src: all}}
			ks = append(ks, each(s, how, d))
		}
	}
	return ks
}
