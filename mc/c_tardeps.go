package main

import (
	"fmt"
	"strings"
)

// ---- tarballs, repository packages and what is installed, depending on each other (C01, C02) ----

type tarRel struct {
	edges  [][2]int // nodes 0 T1, 1 T2, 2 P
	have   [3]int   // absent, older, the repository's, the tarball's
	inRepo [2]bool
	rot    int
	nofol  bool
}

var tarNodes = []string{"T1", "T2", "P"}

func acyclic(n int, es [][2]int) bool {
	var st [8]int
	var visit func(i int) bool
	visit = func(i int) bool {
		if st[i] == 1 {
			return false
		}
		if st[i] == 2 {
			return true
		}
		st[i] = 1
		for _, e := range es {
			if e[0] == i && !visit(e[1]) {
				return false
			}
		}
		st[i] = 2
		return true
	}
	for i := 0; i < n; i++ {
		if !visit(i) {
			return false
		}
	}
	return true
}

func (x *tarRel) deps(i int) (r []string) {
	for _, e := range x.edges {
		if e[0] == i {
			r = append(r, tarNodes[e[1]])
		}
	}
	return
}

// above are all packages i depends on, directly or not.
func (x *tarRel) above(i int, r map[int]bool) map[int]bool {
	for _, e := range x.edges {
		if e[0] == i && !r[e[1]] {
			r[e[1]] = true
			x.above(e[1], r)
		}
	}
	return r
}

func (x *tarRel) kase() *Kase {
	d := &Decl{Packages: []string{"P"}, Threads: 2}
	src := []Pkg{{Name: "P", Ver: "1.0", Imports: strings.Join(x.deps(2), ", ")}}
	for i := 0; i < 2; i++ {
		p := Pkg{Name: tarNodes[i], Ver: "1.0", Imports: strings.Join(x.deps(i), ", ")}
		if x.inRepo[i] {
			src = append(src, p)
		}
		p.Ver, p.Variant = "2.0", "tar"
		if i == 0 {
			p.Imports, p.Depends = "", p.Imports
		}
		d.Tarballs = append(d.Tarballs, p)
	}
	d.Repos = []DRepo{{Name: "X", Src: src}}
	for i, h := range x.have {
		p := Pkg{Name: tarNodes[i], Imports: strings.Join(x.deps(i), ", ")}
		p.Ver = []string{"", "0.5", "1.0", "2.0"}[h]
		if h > 0 {
			d.Installed = append(d.Installed, p)
		}
	}
	wd, sc := d.build()
	id := fmt.Sprintf("tarballs depending %v installed %v offered %v map order %d", x.edges, x.have, x.inRepo, x.rot)
	// what only a tarball has cannot be required by others
	bad := false
	for _, e := range x.edges {
		bad = bad || e[1] < 2 && !x.inRepo[e[1]]
	}
	return &Kase{ID: id, World: wd, Scen: sc, Desc: d.YAML(), Steps: []Step{{Opts: Opts{Args: []string{"install"}, MapRot: x.rot}}},
		Judge: func(k *Run) (string, string) {
			r := k.last()
			what := fmt.Sprintf("%s: R events %s; %s", id, evLine(r.Evs), tail(r.all(), 600))
			if r.Verdict != "" || crashed(r) && !bad {
				return "crash", what
			}
			done := map[string]bool{}
			for _, e := range r.Evs {
				if e.Kind != "install" {
					continue
				}
				if e.T == "rend" && e.Code == 0 { // a tarball is built in the library
					done[e.Pkg+"@"+e.Ver] = true
				}
				if e.T != "rstart" {
					continue
				}
				if len(e.Missing) > 0 && !bad {
					return "missing-of-tarballs", fmt.Sprintf("R was started for %s but cannot find %v; %s", e.Pkg, e.Missing, what)
				}
				for i := 0; i < 2; i++ {
					if e.Pkg != tarNodes[i] || e.Ver != "2.0" {
						continue
					}
					for j := range x.above(i, map[int]bool{}) {
						if j < 2 && !bad && !done[tarNodes[j]+"@2.0"] {
							return "tarball-order", fmt.Sprintf("R was started for the tarball of %s before that of %s, which it depends on, was installed; %s", tarNodes[i], tarNodes[j], what)
						}
					}
				}
			}
			if bad {
				return "", ""
			}
			if r.Code != 0 {
				return "tarballs-fail", "the command failed: " + what
			}
			for i, n := range tarNodes {
				want := "2.0"
				if i == 2 {
					want = "1.0"
					if x.have[2] == 3 {
						want = "2.0"
					}
				}
				if v := ParseDCF([]byte(k.end()["proj/lib/"+n+"/DESCRIPTION"]))["Version"]; v != want {
					return "tarballs-incomplete", fmt.Sprintf("%s is installed in version %q, not %s; %s", n, v, want, what)
				}
			}
			return "", ""
		}}
}

// tarballDeps enumerates them.
func tarballDeps(c *Ctx) {
	var pairs [][2]int
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			if a != b {
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	var dags [][][2]int
	for m := 0; m < 64; m++ {
		var es [][2]int
		for i, p := range pairs {
			if m>>i&1 == 1 {
				es = append(es, p)
			}
		}
		if acyclic(3, es) {
			dags = append(dags, es)
		}
	}
	rots := pick(c, 1, 4)
	n, dg := product(len(dags), 4, 4, 3, 3, rots)
	c.Bound("two tarballs and a repository package: %d dependency graphs x each absent / older / the repository's / the tarball's in the library x offered by the repository or not x %d map orders: %d", len(dags), rots, n)
	c.Cases(n, pick(c, 12, 48), func(i int) *Kase {
		g := dg(i)
		x := &tarRel{edges: dags[g[0]], have: [3]int{g[1], g[2], g[3]}, rot: g[5]}
		x.inRepo = [2]bool{g[4] != 1, g[4] != 2}
		return x.kase()
	})
}
