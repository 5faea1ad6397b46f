package main

import "fmt"

// runC07r lists a package twice, under any of the reasons for which an entry does not count.
func runC07r(c *Ctx) {
	cons := []string{"", "R (>= 4.0)", "R (>= 99.0)"}
	n, dg := product(2, 4, 3, 3, 3, 2)
	c.Bound("a package listed twice: newer entry first or last x entries with a Path (none, newer, older, both) x the R they need (any, this one, a later one) each x source list, binary list, second repository x another repository offers it or not: %d configurations", n)
	c.Cases(n, pick(c, 6, 40), func(i int) *Kase {
		g := dg(i)
		older := Pkg{Name: "A", Ver: "1.0", Depends: cons[g[2]], Variant: "older"}
		newer := Pkg{Name: "A", Ver: "1.1", Depends: cons[g[3]], Variant: "newer"}
		if g[1]&1 == 1 {
			newer.Extra = []string{"Path: 4.4.0/Recommended"}
		}
		if g[1]&2 == 2 {
			older.Extra = []string{"Path: Older"}
		}
		l := []Pkg{newer, older}
		if g[0] == 1 {
			l = []Pkg{older, newer}
		}
		z := Pkg{Name: "Z", Ver: "1.0", Suggests: "A"}
		r1, r2 := DRepo{Name: "R1", Src: []Pkg{z}}, DRepo{Name: "R2", Src: []Pkg{{Name: "Y", Ver: "1.0"}}}
		switch g[4] {
		case 0:
			r1.Src = append(r1.Src, l...)
		case 1:
			r1.RepoType, r1.Bin = []string{"MPN", "mpn", "Mpn"}[i%3], append(l, z)
		case 2:
			r2.Src = append(r2.Src, l...)
		}
		if g[5] == 1 {
			o := &r2
			if g[4] == 2 {
				o = &DRepo{Name: "R3", Src: []Pkg{{Name: "A", Ver: "0.5", Variant: "other"}}}
				d := &Decl{Packages: []string{"Z"}, Suggests: true, Repos: []DRepo{r1, r2, *o}}
				return declCase(fmt.Sprintf("records-%v", g), d, nil, "set", "source", "content")
			}
			o.Src = append(o.Src, Pkg{Name: "A", Ver: "0.5", Variant: "other"})
		}
		d := &Decl{Packages: []string{"Z"}, Suggests: true, Repos: []DRepo{r1, r2}}
		return declCase(fmt.Sprintf("records-%v", g), d, nil, "set", "source", "content")
	})
}
