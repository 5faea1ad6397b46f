package main

import (
	"fmt"
	"strings"
)

// ---- what a cached build is used for (C27) ----

// keyConf is a configuration; all of them share one cache.
type keyConf struct {
	name string
	d    *Decl
	plat string // of R
}

// keyConfs offer packages of the same names and versions that differ in what they hold.
func keyConfs() []keyConf {
	p := func(v string) []Pkg {
		return []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: v}, {Name: "B", Ver: "1.0", Variant: v}}
	}
	r := func(f func(r *DRepo)) DRepo {
		x := DRepo{Name: "R1", Src: p("src"), Bin: p("bin")}
		if f != nil {
			f(&x)
		}
		return x
	}
	var l []keyConf
	add := func(name, rv string, f func(d *Decl), rs ...DRepo) {
		k := keyConf{name, &Decl{Packages: []string{"A"}, RVer: rv, Repos: rs, Threads: 1}, plat}
		if f != nil {
			f(k.d)
		}
		l = append(l, k)
	}
	add("source", "4.3.1", nil, r(nil))
	add("address", "4.3.1", nil, r(func(r *DRepo) { r.Alias, r.Src = "elsewhere", p("src-elsewhere") }))
	add("path", "4.3.1", nil, r(func(r *DRepo) { r.Alias, r.Src = "r1/v2", p("src-v2") }))
	add("path-case", "4.3.1", nil, r(func(r *DRepo) { r.Alias, r.Src = "r1/V2", p("src-V2") }))
	add("path-longer", "4.3.1", nil, r(func(r *DRepo) { r.Alias, r.Src = "r1/v2/v2", p("src-v2v2") }))
	add("name", "4.3.1", nil, r(func(r *DRepo) { r.Name, r.Alias = "R2", "r1" }))
	add("patch", "4.3.2", nil, r(nil))
	add("R-4.2", "4.2.1", nil, r(nil))
	add("binary", "4.3.1", nil, r(func(r *DRepo) { r.RepoType = "MPN" }))
	add("customized-source", "4.3.1", func(d *Decl) { d.Cust = []PkgCust{{Pkg: "A", Type: "source"}} }, r(func(r *DRepo) { r.RepoType = "MPN" }))
	add("MPN-source", "4.3.1", nil, r(func(r *DRepo) { r.RepoType, r.Type = "MPN", "source" }))
	add("suffix", "4.3.1", nil, r(func(r *DRepo) { r.RepoType, r.Bin, r.Suffix = "MPN", p("bin-suffix"), "sfx" }))
	add("other-suffix", "4.3.1", nil, r(func(r *DRepo) { r.RepoType, r.Bin, r.Suffix = "MPN", p("bin-other"), "other" }))
	add("deep-suffix", "4.3.1", nil, r(func(r *DRepo) { r.RepoType, r.Bin, r.Suffix = "MPN", p("bin-deep"), "other/2024-01" }))
	add("binary-4.2", "4.2.1", nil, r(func(r *DRepo) { r.RepoType, r.Bin = "MPN", p("bin42") }))
	add("version", "4.3.1", nil, r(func(r *DRepo) {
		r.Alias, r.Src = "newer", []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: "newer"}, {Name: "B", Ver: "1.0-1", Variant: "newer"}}
	}))
	add("tarball", "4.3.1", func(d *Decl) {
		d.Packages, d.Tarballs = nil, []Pkg{{Name: "B", Ver: "1.0", Variant: "tarball"}}
	}, r(nil))
	add("two", "4.3.1", func(d *Decl) { d.Cust = []PkgCust{{Pkg: "B", Repo: "R2"}} }, r(nil), DRepo{Name: "R2", Alias: "second", Src: p("second")})
	add("two-swapped", "4.3.1", func(d *Decl) { d.Cust = []PkgCust{{Pkg: "B", Repo: "R1"}} }, DRepo{Name: "R1", Alias: "second", Src: p("second")}, DRepo{Name: "R2", Alias: "third", Src: p("third")})
	arm := keyConf{"platform", &Decl{Packages: []string{"A"}, RVer: "4.3.1", Repos: []DRepo{r(nil)}, Threads: 1}, "aarch64-unknown-linux-gnu"}
	return append(l, arm)
}

// sameSeries drops the patch version of R from what is recorded about a build.
func sameSeries(s Snap) Snap {
	n := Snap{}
	for k, v := range unstamped(s) {
		if strings.HasSuffix(k, "/DESCRIPTION") {
			l := strings.Split(v, "\n")
			for i, x := range l {
				if strings.HasPrefix(x, "Built: R ") {
					f := strings.SplitN(x[9:], ";", 2)
					q := strings.Split(f[0], ".")
					l[i] = "Built: R " + strings.Join(q[:min(2, len(q))], ".") + ";" + f[1]
				}
			}
			v = strings.Join(l, "\n")
		}
		n[k] = v
	}
	return n
}

func runC27(c *Ctx) {
	all := []string{"set", "source", "update", "content", "crash"}
	cs := keyConfs()
	web, site := newWorld(), &Scen{WWW: map[string]string{}}
	for _, k := range cs {
		w2 := newWorld()
		k.d.addRepos(w2, &Scen{}, "x")
		for _, r := range k.d.Repos {
			dir := "www/" + strings.ReplaceAll(r.url()[7:], "/", "_")
			for _, f := range sortedKeys(w2.Files) {
				if x, ok := strings.CutPrefix(f, "x/"+r.Name+"/"); ok {
					web.Files[dir+"/"+x] = w2.Files[f]
				}
			}
			site.WWW[r.url()] = "@ROOT@/" + dir
		}
	}
	c.shareWWW(web, site)
	mk := func(hist []int) *Kase {
		k := &Kase{World: newWorld(), Scen: site}
		var ds []*Decl
		var refs []*Ref
		for j, x := range hist {
			d := *cs[x].d
			d.Library = fmt.Sprintf("lib%d", j)
			ds, refs = append(ds, &d), append(refs, d.ref())
			k.World.addRon(fmt.Sprintf("bin%d", j), d.rver(), cs[x].plat)
			y := strings.Replace(d.YAML(), "Library: "+d.Library, "Library: ../"+d.Library, 1)
			for _, t := range d.Tarballs {
				k.World.Files[fmt.Sprintf("proj/c%d/tb/%s_%s.tar.gz", j, t.Name, t.Ver)] = t.Tgz()
			}
			k.World.Add(fmt.Sprintf("proj/c%d/pkgr.yml", j), y)
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--config", fmt.Sprintf("c%d/pkgr.yml", j)}, Scen: site, Env: []string{fmt.Sprintf("PKGR_RPATH=@ROOT@/bin%d/R", j)}}})
		}
		var names []string
		for _, x := range hist {
			names = append(names, cs[x].name)
		}
		k.ID = "cache-history-" + strings.Join(names, ",")
		k.Desc = names
		k.Judge = func(r *Run) (string, string) {
			for j := range r.R {
				if sig, msg := anyOf(ds[j].judgeInstall(refs[j], r.R[j], r.S[j], r.S[j+1]), all...); sig != "" {
					return sig, fmt.Sprintf("configurations %v share a cache, run %d: %s", names, j+1, msg)
				}
				if b := badInput(r.R[j], ds[j]); b != "" {
					return "bad-input", fmt.Sprintf("configurations %v share a cache, run %d: %s", names, j+1, b)
				}
			}
			return "", ""
		}
		return k
	}
	// what each installs with an empty cache
	cold := make([]Snap, len(cs))
	for x := range cs {
		k := mk([]int{x})
		r := c.runKase(c.W[0], k, false)
		if sig, msg := k.Judge(r); sig != "" {
			c.Violate("cold:"+sig, msg, map[string]any{"case": k.ID})
			return
		}
		cold[x] = sameSeries(r.end().sub("proj/lib0/"))
	}
	for depth := 2; depth <= pick(c, 3, 4); depth++ {
		if !c.timeLeft() {
			return
		}
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(cs)
		}
		c.Cases(n, pick(c, 10, 40), func(i int) *Kase {
			var hist []int
			for j := 0; j < depth; j++ {
				hist = append(hist, i%len(cs))
				i /= len(cs)
			}
			k := mk(hist)
			j0 := k.Judge
			k.Judge = func(r *Run) (string, string) {
				if sig, msg := j0(r); sig != "" {
					return sig, msg
				}
				for j := range r.R {
					if df := cold[hist[j]].diff(sameSeries(r.S[j+1].sub(fmt.Sprintf("proj/lib%d/", j)))); len(df) > 0 {
						return "other-build", fmt.Sprintf("configurations %v share a cache: run %d installed something else than with an empty cache: %v; R events: %s", k.Desc, j+1, df, evLine(r.R[j].Evs))
					}
				}
				return "", ""
			}
			return k
		})
		c.Bound("every history of %d installs out of %d configurations (%s) that share one cache: %d", depth, len(cs), func() string {
			var l []string
			for _, k := range cs {
				l = append(l, k.name)
			}
			return strings.Join(l, " ")
		}(), n)
	}
}

func init() {
	checks["C27"] = checkDef{title: "cached builds", run: runC27}
}
