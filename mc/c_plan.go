package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// ---- planning: C05..C09 ----

// declCase turns a declaration into a one-step install case judged by the
// given aspects of the reference comparison.
func declCase(id string, d *Decl, args []string, aspects ...string) *Kase {
	wd, sc := d.build()
	ref := d.ref()
	return &Kase{ID: id, World: wd, Scen: sc, Desc: d.YAML(), Steps: []Step{{Opts: Opts{Args: append([]string{"install"}, args...)}}},
		Judge: func(r *Run) (string, string) {
			if ref.Circular {
				return "", ""
			}
			return anyOf(d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), append(aspects, "crash")...)
		}}
}

var edgeKinds = []string{"", "Depends", "Imports", "LinkingTo", "Suggests"}

func (p *Pkg) dep(kind, on string) {
	f := map[string]*string{"Depends": &p.Depends, "Imports": &p.Imports, "LinkingTo": &p.LinkingTo, "Suggests": &p.Suggests}[kind]
	if f == nil {
		return
	}
	if *f != "" {
		*f += ", "
	}
	*f += on
}

func runC06(c *Ctx) {
	runC06b(c)
	runC06d(c)
	runC06f(c)
	runC06e(c)
	runC06g(c)
	runC06h(c)
	dk := deepCases(func(s deepShape, how int, d *Decl) *Kase {
		return declCase(fmt.Sprintf("%s-%d", s.name, how), d, nil, "set")
	})
	c.Bound("deeper and wider graphs (a chain of 10, 7 layers of 2, everything on everything before it, one on 41, two arms of 5), requested in the list, through a tarball, as suggestions: %d configurations", len(dk))
	c.Cases(len(dk), 3, func(i int) *Kase { return dk[i] })
	// A -> B -> C, A -> MASS (recommended, offered), A -> stats (base), A -> X (offered nowhere)
	kB, kC, kM, kS, kX := edgeKinds, edgeKinds, edgeKinds, []string{"", "Depends", "Suggests"}, []string{"", "Imports", "Suggests"}
	if c.quick() {
		kC = []string{"", "LinkingTo", "Suggests"}
		kM = []string{"", "Imports", "Suggests"}
		kS = []string{"", "Depends"}
		kX = []string{"", "Imports"}
	}
	reqs := [][]string{{"A"}, {"A", "MASS"}, {"stats", "A"}}
	igns := [][]string{nil, {"B"}, {"C", "MASS"}}
	if c.quick() {
		igns = [][]string{nil, {"C", "MASS"}}
	}
	sug := 4
	n, dg := product(len(kB), len(kC), len(kM), len(kS), len(kX), 2, sug, len(reqs), len(igns))
	c.Bound("every edge kind A-B (%d), B-C (%d), A-MASS recommended (%d), A-stats base (%d), A-X offered nowhere (%d) x NoRecommended x suggests none/global/package/global but not the package x requests %v x ignored %v: %d configurations", len(kB), len(kC), len(kM), len(kS), len(kX), reqs, igns, n)
	c.Cases(n, pick(c, 24, 200), func(i int) *Kase {
		g := dg(i)
		a, b, cc := Pkg{Name: "A", Ver: "1.0"}, Pkg{Name: "B", Ver: "1.0"}, Pkg{Name: "C", Ver: "1.0"}
		a.dep(kB[g[0]], "B")
		b.dep(kC[g[1]], "C")
		a.dep(kM[g[2]], "MASS")
		a.dep(kS[g[3]], "stats")
		a.dep(kX[g[4]], "X")
		d := &Decl{Packages: reqs[g[7]], Ignore: igns[g[8]], NoRec: g[5] == 1,
			Repos: []DRepo{{Name: "CRAN", Src: []Pkg{a, b, cc, {Name: "MASS", Ver: "7.3"}, {Name: "D", Ver: "1.0"}}}}}
		switch g[6] {
		case 1:
			d.Suggests = true
		case 2:
			d.Cust = []PkgCust{{Pkg: "A", Suggests: bp(true)}}
		case 3:
			d.Suggests = true
			d.Cust = []PkgCust{{Pkg: "A", Suggests: bp(false)}}
		}
		return declCase(fmt.Sprintf("edges-%v", g), d, nil, "set")
	})
	runC06c(c)
}

// runC06e: an ignored package is not taken from any repository, in any type.
func runC06e(c *Ctx) {
	type rk struct{ Type, RepoType string }
	kinds := []rk{{"", ""}, {"", "MPN"}, {"source", "MPN"}, {"binary", "MPN"}}
	custs := []*PkgCust{nil, {Pkg: "B", Type: "binary"}, {Pkg: "B", Type: "source"}, {Pkg: "B", Repo: "R2"}, {Pkg: "B", Repo: "R2", Type: "binary"}, {Pkg: "B", Suggests: bp(true)}}
	n, dg := product(len(kinds), len(kinds), 3, len(custs), 3, 3)
	c.Bound("two repositories of %d x %d kinds x which of them offer the ignored package (first, second, both, as source and as binary) x %d customizations of it x what needs it (an import, a suggestion, a tarball) x ignored, ignored and installed, not ignored: %d configurations", len(kinds), len(kinds), len(custs), n)
	c.Cases(n, pick(c, 6, 30), func(i int) *Kase {
		g := dg(i)
		a := Pkg{Name: "A", Ver: "1.0"}
		d := &Decl{Packages: []string{"A"}}
		switch g[4] {
		case 0:
			a.Imports = "B, D"
		case 1:
			a.Suggests, d.Suggests = "B, D", true
		case 2:
			d.Tarballs = []Pkg{{Name: "T", Ver: "1.0", Imports: "D", LinkingTo: "A"}}
			a.Depends = "B"
		}
		if g[5] < 2 {
			d.Ignore = []string{"B", "nowhere"}
		}
		if g[5] == 1 {
			d.Installed = []Pkg{{Name: "B", Ver: "0.1", Variant: "old"}}
		}
		for j := 0; j < 2; j++ {
			r := DRepo{Name: fmt.Sprintf("R%d", j+1), Type: kinds[g[j]].Type, RepoType: kinds[g[j]].RepoType}
			l := []Pkg{{Name: fmt.Sprintf("Only%d", j), Ver: "1.0"}}
			if (g[2]+1)>>j&1 != 0 {
				l = append(l, Pkg{Name: "B", Ver: fmt.Sprintf("1.%d", j), Imports: "C"}, Pkg{Name: "C", Ver: "1.0"})
			}
			if j == 0 {
				l = append(l, Pkg{Name: "D", Ver: "1.0"}, a)
			}
			r.Src = l
			if r.RepoType != "" {
				r.Bin = l
			}
			d.Repos = append(d.Repos, r)
		}
		if custs[g[3]] != nil {
			d.Cust = []PkgCust{*custs[g[3]]}
		}
		return declCase(fmt.Sprintf("ignored-%v", g), d, nil, "set")
	})
}

// runC06g: what else is set for a package or a repository does not change what
// the package needs.
func runC06g(c *Ctx) {
	kinds := []DRepo{{}, {RepoType: "MPN"}, {RepoType: "MPN", Type: "source"}}
	kB := append([]string{}, edgeKinds...)
	n, dg := product(3, 2, 3, len(kinds), len(kB), 3, 2)
	c.Bound("package customized with Type none/source/binary x Repo and Env x Suggests none/true/false x %d kinds of repository x edges A-B (%d) and B-C (3) x Suggests in general: %d configurations", len(kinds), len(kB), n)
	c.Cases(n, pick(c, 6, 30), func(i int) *Kase {
		g := dg(i)
		if g[0] == 2 && kinds[g[3]].RepoType == "" {
			return nil
		}
		a, b := Pkg{Name: "A", Ver: "1.0"}, Pkg{Name: "B", Ver: "1.0"}
		a.dep(kB[g[4]], "B")
		b.dep([]string{"", "LinkingTo", "Suggests"}[g[5]], "C")
		l := []Pkg{a, b, {Name: "C", Ver: "1.0"}, {Name: "D", Ver: "1.0"}}
		r := kinds[g[3]]
		r.Name, r.Src = "CRAN", l
		if r.RepoType != "" {
			r.Bin = l
		}
		d := &Decl{Packages: []string{"A", "D"}, Repos: []DRepo{r}, Suggests: g[6] == 1}
		cu := PkgCust{Pkg: "A", Type: []string{"", "source", "binary"}[g[0]]}
		if g[1] == 1 {
			cu.Repo, cu.Env = "CRAN", []string{"MC_X: \"1\""}
		}
		if g[2] > 0 {
			cu.Suggests = bp(g[2] == 1)
		}
		if g[0]+g[1]+g[2] > 0 {
			d.Cust = []PkgCust{cu}
		}
		return declCase(fmt.Sprintf("settings-%v", g), d, nil, "set")
	})
}

// runC06h: every package that comes with R, needed or requested.
func runC06h(c *Ctx) {
	var names []string
	for p := range vrBase {
		if p != "R" {
			names = append(names, p)
		}
	}
	for p := range vrRec {
		names = append(names, p)
	}
	names = append(names, "Rcpp", "mass", "matrix", "Base", "stats5")
	sort.Strings(names)
	n, dg := product(len(names), 5, 2, 2)
	c.Bound("each of %d packages that come with R or have names like theirs x imported, suggested, needed by a tarball, requested, requested and imported x NoRecommended x offered by the repository or not: %d configurations", len(names), n)
	c.Cases(n, 6, func(i int) *Kase {
		g := dg(i)
		x := names[g[0]]
		a := Pkg{Name: "A", Ver: "1.0", Imports: "B"}
		d := &Decl{Packages: []string{"A"}, NoRec: g[2] == 1}
		switch g[1] {
		case 0:
			a.Imports = "B, " + x
		case 1:
			a.Suggests, d.Suggests = x, true
		case 2:
			d.Tarballs = []Pkg{{Name: "T", Ver: "1.0", Depends: x, Imports: "B"}}
		case 3:
			d.Packages = append(d.Packages, x)
		case 4:
			a.Imports = "B, " + x
			d.Packages = []string{x, "A"}
		}
		l := []Pkg{a, {Name: "B", Ver: "1.0"}, {Name: "Z", Ver: "1.0"}}
		if g[3] == 1 {
			l = append(l, Pkg{Name: x, Ver: "9.0", Imports: "Z"})
		}
		d.Repos = []DRepo{{Name: "CRAN", Src: l}}
		return declCase(fmt.Sprintf("comes-with-R-%v %s", g, x), d, nil, "set")
	})
}

// runC06d: every way to write the records of a repository, of a tarball and of a description file.
func runC06d(c *Ctx) {
	var names []string
	for _, s := range spellings {
		names = append(names, s.name)
	}
	n, dg := product(len(spellings), 5, 3)
	c.Bound("records written in %d ways %v x repository / tarball / description file / installed packages / everything x position in the repository: %d configurations", len(names), names, n)
	c.Cases(n, pick(c, 20, 60), func(i int) *Kase {
		g := dg(i)
		t := Pkg{Name: "T", Ver: "1.0", Depends: "R (>= 2.10), D1, methods", Imports: "B, D2", LinkingTo: "D3", Suggests: "S1"}
		a := Pkg{Name: "A", Ver: "1.0", Depends: "R (>= 2.10), D1", Imports: "B, utils, D2", LinkingTo: "D3, D4", Suggests: "S1, S2"}
		b := Pkg{Name: "B", Ver: "1.0", Depends: "D5", Imports: "D4", Suggests: "S2"}
		u := t
		u.Name, u.Suggests = "U", "S3"
		var others []Pkg
		for _, x := range []string{"D1", "D2", "D3", "D4", "D5", "S1", "S2", "S3", "Q1", "Q2", "Q3", "Q4", "Q5", "Q6"} {
			others = append(others, Pkg{Name: x, Ver: "1.0"})
		}
		d := &Decl{Packages: []string{"A"}}
		if g[1] == 1 || g[1] == 4 {
			t.Spell = g[0]
			d.Tarballs = []Pkg{t}
		}
		if g[1] == 2 || g[1] == 4 {
			u.Spell = g[0]
			d.Descs = []Pkg{u}
		}
		if g[1] == 0 || g[1] == 4 {
			a.Spell, b.Spell = g[0], g[0]
		}
		if g[1] == 3 {
			x, y := b, others[0]
			x.Spell, y.Spell = g[0], g[0]
			d.Installed, d.Foreign = []Pkg{x}, []Pkg{y}
		}
		l := append([]Pkg{}, others[:7]...)
		switch g[2] {
		case 0:
			l = append(append([]Pkg{a, b}, l...), others[7:]...)
		case 1:
			l = append(append(l, a, b), others[7:]...)
		case 2:
			l = append(append(l, others[7:]...), b, a)
		}
		d.Repos = []DRepo{{Name: "CRAN", Src: l}}
		k := declCase(fmt.Sprintf("spelling-%s-%v", spellings[g[0]].name, g[1:]), d, nil, "set")
		judge := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := judge(r)
			if sig != "" {
				sig = spellings[g[0]].name + ":" + sig
			}
			return sig, msg
		}
		return k
	})
}

// runC06b: dependencies of tarballs and description files, missing requests.
func runC06b(c *Ctx) {
	kinds := edgeKinds
	n, dg := product(5, len(kinds), len(kinds), 4, 2, 2)
	c.Bound("tarball / description file / both / two tarballs / two description files x edge to B x edge from B x what else is requested x NoRecommended x Suggests: %d configurations", n)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		g := dg(i)
		t, b := Pkg{Name: "T", Ver: "1.0"}, Pkg{Name: "B", Ver: "1.0"}
		t.dep(kinds[g[1]], "B")
		t.dep("Imports", "utils")
		b.dep(kinds[g[2]], "C")
		d := &Decl{NoRec: g[4] == 1, Suggests: g[5] == 1, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{b, {Name: "C", Ver: "1.0"}, {Name: "E", Ver: "1.0", Suggests: "F"}, {Name: "F", Ver: "1.0"}}}}}
		u := t
		u.Name = "U"
		switch g[0] {
		case 0:
			d.Tarballs = []Pkg{t}
		case 1:
			d.Descs = []Pkg{u}
		case 2:
			d.Tarballs, d.Descs = []Pkg{t}, []Pkg{u}
		case 3:
			d.Tarballs = []Pkg{t, u}
		case 4:
			d.Descs = []Pkg{u, t}
		}
		switch g[3] {
		case 0:
			d.Packages = []string{"E"}
		case 1:
			d.Packages = []string{"E", "B"}
		case 2:
			d.Packages = nil
		case 3:
			d.Packages = []string{"E", "Nowhere", "AlsoNowhere"}
		}
		return declCase(fmt.Sprintf("inputs-%v", g), d, nil, "set")
	})
}

// runC06c: every dependency graph on three packages, with two-digit rotations
// of edge kinds, every nonempty request and every ignored package.
func runC06c(c *Ctx) {
	names := []string{"P1", "P2", "P3", "P4"}
	m := pick(c, 3, 4)
	ne := m * (m - 1) / 2
	kinds := []string{"", "Depends", "Imports", "LinkingTo", "Suggests"}
	nk := 1
	for i := 0; i < ne; i++ {
		nk *= len(kinds)
	}
	if m == 4 {
		nk = 1 << ne
	}
	n, dg := product(nk, 1<<m-1, m+1, 2)
	c.Bound("every acyclic graph on %d packages (%d) x every request (%d) x every ignored package x suggests on/off: %d configurations", m, nk, 1<<m-1, n)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		g := dg(i)
		ps := make([]Pkg, m)
		k := g[0]
		e := 0
		for a := 0; a < m; a++ {
			ps[a] = Pkg{Name: names[a], Ver: "1.0"}
		}
		for a := 0; a < m; a++ {
			for b := a + 1; b < m; b++ {
				kd := ""
				if m == 4 {
					if k>>e&1 != 0 {
						kd = kinds[1+(e+g[0])%4]
					}
				} else {
					kd = kinds[k%len(kinds)]
					k /= len(kinds)
				}
				e++
				ps[a].dep(kd, ps[b].Name)
			}
		}
		d := &Decl{Suggests: g[3] == 1, Repos: []DRepo{{Name: "CRAN", Src: ps}}}
		for a := 0; a < m; a++ {
			if (g[1]+1)>>a&1 != 0 {
				d.Packages = append(d.Packages, names[a])
			}
		}
		if g[2] < m {
			d.Ignore = []string{names[g[2]]}
		}
		return declCase(fmt.Sprintf("dag-%v", g), d, nil, "set")
	})
}

func init() {
	checks["C06"] = checkDef{title: "plan is the dependency closure", run: runC06, quick: 110 * time.Second}
}

var _ = strings.Join
