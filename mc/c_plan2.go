package main

import (
	"fmt"
	"regexp"
	"strings"
)

// ---- C07: source selection ----

// planLines extracts what a plan or install run says about packages.
var kvRe = regexp.MustCompile(`(\w+)=("(?:[^"\\]|\\.)*"|\S*)`)

func kvs(s string) map[string]string {
	m := map[string]string{}
	for _, x := range kvRe.FindAllStringSubmatch(s, -1) {
		m[x[1]] = strings.Trim(x[2], `"`)
	}
	return m
}

// said is what the output says of each package: repo, type and version.
func said(r *Result) map[string][]map[string]string {
	out := map[string][]map[string]string{}
	for _, l := range parseLog(r.all()) {
		m := kvs(l.rest)
		p := m["pkg"]
		if p == "" {
			p = m["package"]
		}
		if p != "" && m["repo"] != "" && m["type"] != "" && m["version"] != "" {
			out[p] = append(out[p], m)
		}
	}
	return out
}

// judgeSaid compares what a plan printed with the reference.
func (d *Decl) judgeSaid(ref *Ref, r *Result) (string, string) {
	s := said(r)
	for p, l := range s {
		x, ok := ref.Plan[p]
		if !ok {
			return "plan-shows-unplanned", fmt.Sprintf("the plan shows %s, which is not part of it; config:\n%s", p, d.YAML())
		}
		for _, m := range l {
			if m["repo"] != x.Repo || m["type"] != x.Type || m["version"] != x.Ver {
				return "plan-shows-other", fmt.Sprintf("the plan shows %s as %s %s from %s, selected is %s %s from %s; config:\n%s", p, m["type"], m["version"], m["repo"], x.Type, x.Ver, x.Repo, d.YAML())
			}
		}
	}
	if len(s) > 0 && len(ref.Missing) == 0 {
		for p := range ref.Plan {
			if len(s[p]) == 0 {
				return "plan-omits", fmt.Sprintf("the plan does not show %s; config:\n%s", p, d.YAML())
			}
		}
	}
	return "", ""
}

func planThenInstall(id string, d *Decl, aspects ...string) *Kase {
	k := declCase(id, d, nil, aspects...)
	ref := d.ref()
	if ref.Circular {
		return nil
	}
	k.Steps = append([]Step{{Opts: Opts{Args: []string{"plan", "--loglevel", "debug"}}}}, k.Steps...)
	k.Judge = func(r *Run) (string, string) {
		if sig, msg := anyOf(d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), append(aspects, "crash")...); sig != "" {
			return sig, msg
		}
		if ref.BadCust || len(ref.Missing) > 0 {
			if r.R[0].Code == 0 {
				return "plan-not-aborted", fmt.Sprintf("the plan succeeds for a configuration that cannot be satisfied (missing %v); config:\n%s", ref.Missing, d.YAML())
			}
			return "", ""
		}
		return d.judgeSaid(ref, r.R[0])
	}
	return k
}

func runC07(c *Ctx) {
	osCases(c)
	sameNames(c)
	manyCusts(c)
	manyRepoCusts(c)
	runC07r(c)
	type rk struct{ Type, RepoType, Suffix string }
	kinds := []rk{{"", "", ""}, {"", "MPN", ""}, {"source", "MPN", ""}, {"", "MPN", "sfx/2024-01.x"}, {"binary", "", ""}, {"", "RSPM", ""}}
	kinds2 := kinds
	if c.quick() {
		kinds2 = kinds[:4]
	}
	offers := 4 // none, source, binary, both
	custs := []*PkgCust{nil, {Pkg: "A", Repo: "R1"}, {Pkg: "A", Repo: "R2"}, {Pkg: "A", Repo: "R9"}, {Pkg: "A", Type: "source"}, {Pkg: "A", Type: "Binary"}, {Pkg: "A", Repo: "R2", Type: "binary"}, {Pkg: "A", Type: "bogus"}, {Pkg: "A", Suggests: bp(true)}}
	n, dg := product(len(kinds), len(kinds2), offers, offers, len(custs), 2)
	c.Bound("two repositories of %d x %d kinds (plain, MPN, with type, with suffix, RSPM), each offering a package not at all / as source / as binary / as both in different versions, x %d package customizations x the package requested or a dependency: %d configurations, each planned and installed", len(kinds), len(kinds2), len(custs), n)
	c.Cases(n, pick(c, 16, 100), func(i int) *Kase {
		g := dg(i)
		if c.quick() && g[5] == 1 && (g[4] == 3 || g[4] == 7 || g[4] == 8) {
			return nil
		}
		d := &Decl{Packages: []string{"A"}}
		for j := 0; j < 2; j++ {
			k := kinds[g[0]]
			if j == 1 {
				k = kinds2[g[1]]
			}
			r := DRepo{Name: fmt.Sprintf("R%d", j+1), Type: k.Type, RepoType: k.RepoType, Suffix: k.Suffix}
			o := g[2+j]
			if o&1 != 0 {
				r.Src = append(r.Src, Pkg{Name: "A", Ver: fmt.Sprintf("1.%d-0", j), Variant: r.Name + "src"})
			}
			if o&2 != 0 {
				r.Bin = append(r.Bin, Pkg{Name: "A", Ver: fmt.Sprintf("1.%d.1", j), Variant: r.Name + "bin"})
			}
			r.Src = append(r.Src, Pkg{Name: fmt.Sprintf("Only%d", j), Ver: "1.0"})
			d.Repos = append(d.Repos, r)
		}
		// a third, plain repository that has what needs A
		d.Repos = append(d.Repos, DRepo{Name: "R3", Src: []Pkg{{Name: "Z", Ver: "1.0", Imports: "A"}, {Name: "Yo", Ver: "1.0"}}})
		if g[5] == 1 {
			d.Packages = []string{"Yo", "Z"}
		}
		if cu := custs[g[4]]; cu != nil {
			d.Cust = []PkgCust{*cu}
		}
		return planThenInstall(fmt.Sprintf("select-%v", g), d, "source", "set")
	})
	// names that are nearly the same, of repositories and of packages
	names := [][2]string{{"Main", "main"}, {"main", "Main"}, {"R", "R1"}, {"R1", "R"}, {"R.1", "R1"}, {"R1", "R11"}, {"a-b", "a"}}
	pkgs := [][2]string{{"A", "a"}, {"a", "A"}, {"A", "AA"}, {"AA", "A"}, {"A.b", "A"}, {"Ab", "A.b"}}
	nn, dgn := product(len(names), len(pkgs), 4, 4, 3)
	c.Bound("%d pairs of similar repository names x %d pairs of similar package names x which repository offers which (4) x customization of the first package (none, either repository, type) x already installed (none, either): %d configurations, planned and installed", len(names), len(pkgs), nn)
	c.Cases(nn, pick(c, 4, 20), func(i int) *Kase {
		g := dgn(i)
		pk := pkgs[g[1]]
		d := &Decl{Packages: []string{pk[0], pk[1]}}
		for j, nm := range names[g[0]] {
			r := DRepo{Name: nm, Alias: fmt.Sprintf("h%d", j), Src: []Pkg{{Name: "Only" + fmt.Sprint(j), Ver: "1.0"}}}
			for x, p := range pk {
				if x == 0 || g[2]>>j&1 == 0 || g[2] == 3 {
					r.Src = append(r.Src, Pkg{Name: p, Ver: fmt.Sprintf("1.%d", 5-j), Variant: nm + "!" + p})
				}
			}
			d.Repos = append(d.Repos, r)
		}
		switch g[3] {
		case 1, 2:
			d.Cust = []PkgCust{{Pkg: pk[0], Repo: names[g[0]][g[3]-1]}}
		case 3:
			d.Cust = []PkgCust{{Pkg: pk[0], Type: "source"}, {Pkg: pk[1], Repo: names[g[0]][1]}}
		}
		if g[4] > 0 {
			d.Installed = []Pkg{{Name: pk[g[4]-1], Ver: "0.1", Variant: "old"}}
		}
		return planThenInstall(fmt.Sprintf("similar-%v", g), d, "source", "set", "content", "update")
	})
	// the address: trailing slash, path below the host, same archive name in both repositories, other packages around
	urls := []string{"http://r1.example", "http://r1.example/", "http://r1.example/deep/path", "@ROOT@/www/R1", "@ROOT@/www/R1/", "~/../www/R1", "../www/R1"}
	m, dg2 := product(len(urls), 2, 2)
	c.Bound("%d forms of the repository address (trailing slash, path, local directory, home, relative) x position x repository kind: %d configurations", len(urls), m)
	c.Cases(m, pick(c, 0, 0), func(i int) *Kase {
		g := dg2(i)
		r1 := DRepo{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0", Variant: "one", Imports: "B"}, {Name: "B", Ver: "2.0", Variant: "one"}}}
		r2 := DRepo{Name: "R2", Src: []Pkg{{Name: "A", Ver: "1.0", Variant: "two"}, {Name: "B", Ver: "2.0", Variant: "two"}, {Name: "C", Ver: "0.1", Variant: "two", Extra: []string{"Path: older"}}, {Name: "C", Ver: "0.2", Variant: "two"}}}
		if g[2] == 1 {
			r1.RepoType = "MPN"
			r1.Bin = []Pkg{{Name: "A", Ver: "1.0", Variant: "onebin", Imports: "B"}, {Name: "B", Ver: "2.0", Variant: "onebin"}}
			r1.Suffix = "sfx"
		}
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{r1, r2}}
		if g[1] == 1 {
			d.Repos = []DRepo{r2, r1}
			d.Cust = []PkgCust{{Pkg: "A", Repo: "R1"}}
		}
		k := planThenInstall(fmt.Sprintf("url-%v", g), d, "source", "set", "content")
		u := urls[g[0]]
		y := strings.Replace(d.YAML(), "R1: http://r1.example", "R1: \""+u+"\"", 1)
		k.World.Add("proj/pkgr.yml", y)
		ref := d.ref()
		if strings.HasPrefix(u, "http") {
			if strings.Contains(u, "deep") {
				for _, f := range sortedKeys(k.World.Files) {
					b := k.World.Files[f]
					if strings.HasPrefix(f, "www/R1/") {
						k.World.Files["www/R1/deep/path/"+f[7:]] = b
						delete(k.World.Files, f)
					}
				}
				for p, x := range ref.Plan {
					x.URL = strings.Replace(x.URL, "http://r1.example", u, 1)
					ref.Plan[p] = x
				}
			}
			k.Judge = func(r *Run) (string, string) {
				return anyOf(d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), "source", "set", "content", "crash")
			}
			return k
		}
		k.Judge = func(r *Run) (string, string) {
			for _, f := range d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]) {
				if f.sig == "not-fetched" {
					continue
				}
				if f.aspect == "source" || f.aspect == "set" || f.aspect == "content" || f.aspect == "crash" {
					return "local:" + f.sig, f.msg
				}
			}
			return "", ""
		}
		return k
	})
}

// ---- C08: updates ----

var versions = []string{"0.9", "1.0", "1.0.0", "1.0-0", "1.0-1", "1.2", "1.2.3", "1.2-3", "1.2.3-4", "1.2.3.4", "1.2.3.4.5", "1.2.3.4.6", "1.2.3-4-10", "1.2.3.9000", "1.2.10", "1.9", "1.10", "2.0", "10.0", "0.2023.10", "2023.4.1", "3.99.0-1", "1.2.3.4.5.6", "1.2.3.4.5.7", "1.2.3-4.5-6.1", "1.0.20240131", "1.0.20231230", "01.2", "0.0.0.9"}

func runC08(c *Ctx) {
	vs := versions
	// modes: how updating is set; relation: requested, dependency, outside the plan
	modes := []string{"default", "config", "flag", "config+update"}
	n, dg := product(len(vs), len(modes), 3, 2)
	c.Bound("every ordered pair of %d version strings (%d pairs) x update setting %v x package requested / dependency / outside the plan x installed by pkgr or not", len(vs), len(vs)*len(vs), modes)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		g := dg(i)
		d := &Decl{}
		repo := DRepo{Name: "CRAN"}
		root := Pkg{Name: "Root", Ver: "1.0"}
		for j, v := range vs {
			p := Pkg{Name: fmt.Sprintf("P%02d", j), Ver: v, Variant: "new"}
			repo.Src = append(repo.Src, p)
			o := p
			o.Ver, o.Variant = vs[g[0]], "old"
			if g[3] == 0 {
				d.Installed = append(d.Installed, o)
			} else {
				d.Foreign = append(d.Foreign, o)
			}
			switch g[2] {
			case 0:
				d.Packages = append(d.Packages, p.Name)
			case 1:
				root.dep([]string{"Imports", "Depends", "LinkingTo"}[j%3], p.Name)
			}
		}
		repo.Src = append(repo.Src, root)
		d.Packages = append(d.Packages, "Root")
		d.Repos = []DRepo{repo}
		var args []string
		switch modes[g[1]] {
		case "config":
			d.NoUpdate = true
		case "flag":
			args = []string{"--no-update"}
		case "config+update":
			d.NoUpdate = true
			args = []string{"--update"}
		}
		k := declCase(fmt.Sprintf("pairs-%s-%s-%d-%d", vs[g[0]], modes[g[1]], g[2], g[3]), d, args, "update", "set", "content")
		if modes[g[1]] == "flag" {
			d.NoUpdate = true
		}
		if modes[g[1]] == "config+update" {
			d.NoUpdate = false
		}
		ref := d.ref()
		k.Judge = func(r *Run) (string, string) {
			if sig, msg := anyOf(d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), "update", "set", "content", "crash"); sig != "" {
				return sig, msg
			}
			if d.NoUpdate {
				l := parseLog(r.R[0].all())
				for p := range ref.Outdated {
					ok := false
					for _, x := range l {
						ok = ok || ((x.level == "warning" || x.level == "error") && (word(x.msg, p) || word(x.rest, p)) && strings.Contains(x.msg+x.rest, ref.Plan[p].Ver))
					}
					if !ok {
						return "outdated-unreported", fmt.Sprintf("updates are disabled and %s %s is outdated (%s is offered) but no warning says so", p, vs[g[0]], ref.Plan[p].Ver)
					}
				}
			}
			return "", ""
		}
		return k
	})
}

// ---- C09: R version requirements ----

func runC09(c *Ctx) {
	manyVersions(c)
	rvs := []string{"3.6.3", "4.0.0", "4.3.1", "4.10.0"}
	cvs := []string{"3.5", "3.6.3", "4.0", "4.0.0", "4.2.1", "4.3", "4.3.0", "4.3.1", "4.3.2", "4.9.9", "4.10", "4.10.0", "5.0", "10.0.0", "4", "3", "4.3-1", "4.10-0"}
	if !c.quick() {
		rvs = append(rvs, "3.5.0", "3.6.0", "4.0.5", "4.2.1", "4.3.0", "4.3.2", "4.3.10", "4.4.0", "5.0.0", "10.0.0")
		cvs = append(cvs, "2.10", "3.6", "3.6.0", "4.3.10", "4.3.1.1", "4.4", "4.4.0", "4.30")
	}
	ops := []string{">=", ">", "<=", "<", "==", "!="}
	forms := []string{"R (>= 3.0.0), methods, R (%s %s)", "R (%s %s), R (>= 2.10)", "R (%s %s)", "R(%s%s)", "R (%s%s), methods", "methods, R ( %s %s )"}
	// per operator and form one execution with one package per version
	n, dg := product(len(rvs), len(ops), len(forms), 2, 2)
	c.Bound("R versions %v x operators %v x versions %v x %d spellings x source/binary repository x offered by the first or second repository; each planned twice, the second time for another R with the same database cache; R announces itself in five ways in rotation (plain, Patched, RC, after warnings): %d histories", rvs, ops, cvs, len(forms), n)
	c.Cases(n, pick(c, 10, 50), func(i int) *Kase {
		g := dg(i)
		a := Pkg{Name: "A", Ver: "1.0"}
		var l []Pkg
		for j, v := range cvs {
			p := Pkg{Name: fmt.Sprintf("P%02d", j), Ver: "1.0", Depends: fmt.Sprintf(forms[g[2]], ops[g[1]], v)}
			l = append(l, p)
			a.dep("Suggests", p.Name)
		}
		// no requirement at all, and unversioned
		l = append(l, Pkg{Name: "N1", Ver: "1.0"}, Pkg{Name: "N2", Ver: "1.0", Depends: "R"}, Pkg{Name: "N3", Ver: "1.0", Depends: "methods, R"})
		for _, x := range []string{"N1", "N2", "N3"} {
			a.dep("Suggests", x)
		}
		// two entries of one package of which one fits, in either order
		for j, v := range []string{"4.0.0", "4.2.0", "4.3.1"} {
			lo := Pkg{Name: fmt.Sprintf("M%d", j), Ver: "1.0", Depends: "R (< " + v + ")"}
			hi := Pkg{Name: fmt.Sprintf("M%d", j), Ver: "2.0", Depends: "R (>= " + v + ")"}
			l = append(l, lo, hi)
			lo.Name, hi.Name = fmt.Sprintf("W%d", j), fmt.Sprintf("W%d", j)
			l = append(l, hi, lo)
			a.dep("Suggests", fmt.Sprintf("M%d", j))
			a.dep("Suggests", fmt.Sprintf("W%d", j))
		}
		a.dep("Suggests", "L")
		r1 := DRepo{Name: "R1", Src: []Pkg{{Name: "L", Ver: "1.0"}}}
		r2 := DRepo{Name: "R2", Src: []Pkg{{Name: "L", Ver: "2.0"}}}
		x := &r1
		if g[4] == 1 {
			x = &r2
		}
		if g[3] == 1 {
			x.RepoType, x.Bin = "MPN", append(l, x.Src...)
		} else {
			x.Src = append(x.Src, l...)
		}
		// the other repository offers some of them for every R
		y := &r2
		if g[4] == 1 {
			y = &r1
		}
		y.Src = append(y.Src, Pkg{Name: "P00", Ver: "9.0", Depends: "R (>= 99.0)"})
		d := &Decl{Packages: []string{"A"}, Suggests: true, RVer: rvs[g[0]], Repos: []DRepo{r1, r2, {Name: "R3", Src: []Pkg{a}}}}
		k := declCase(fmt.Sprintf("rver-%v", g), d, nil, "set", "source")
		d2 := *d
		d2.RVer = rvs[(g[0]+1)%len(rvs)]
		k.World.addR("bin2", d2.RVer)
		// binaries for the second R
		w2, s2 := newWorld(), &Scen{}
		d2.addRepos(w2, s2, "www")
		for f, b := range w2.Files {
			k.World.Files[f] = b
		}
		ref, ref2 := d.ref(), d2.ref()
		d2.Library = "lib2"
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--library", "lib2"}, Env: []string{"PKGR_RPATH=@ROOT@/bin2/R"}}})
		k.NoStock = true
		k.Scen.Banner = i % 5
		k.Judge = func(r *Run) (string, string) {
			if sig, msg := anyOf(d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), "set", "source", "crash"); sig != "" {
				return sig, "R " + d.RVer + ": " + msg
			}
			if sig, msg := anyOf(d2.judgeInstall(ref2, r.R[1], r.S[1], r.S[2]), "set", "source", "crash"); sig != "" {
				return "second:" + sig, "R " + d2.RVer + " after R " + d.RVer + ": " + msg
			}
			return "", ""
		}
		return k
	})
}

// ---- C05: the library after a success ----

func runC05(c *Ctx) {
	runTwice(c)
	states := []string{"absent", "current", "outdated", "newer"}
	tars := []string{"none", "new", "installed", "planned", "planned-outdated", "same-version-installed", "same-version-planned"}
	n, dg := product(4, 4, len(tars), 3, 2, 2)
	c.Bound("library state of two packages (%v each) x tarball %v x repository kind source/binary/mixed x caches cold or warm x one or three workers: %d start states", states, tars, n)
	c.Cases(n, pick(c, 24, 120), func(i int) *Kase {
		g := dg(i)
		a, b, t := Pkg{Name: "A", Ver: "2.0", Imports: "B", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", LinkingTo: "B", Variant: "repo"}
		r := DRepo{Name: "R1", Src: []Pkg{a, b, t}}
		r2 := DRepo{Name: "R2", Src: []Pkg{{Name: "A", Ver: "9.0", Variant: "r2"}, {Name: "B", Ver: "9.0", Variant: "r2"}, {Name: "Z", Ver: "7.0", Variant: "r2"}}}
		switch g[3] {
		case 1:
			r.RepoType, r.Bin = "MPN", []Pkg{a, b, t}
			for j := range r.Src {
				r.Src[j].Variant = "reposrc"
			}
		case 2:
			r.RepoType, r.Bin = "MPN", []Pkg{b, t}
		}
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{r, r2}, Threads: 1 + 2*g[5], Foreign: []Pkg{{Name: "Z", Ver: "0.1"}, {Name: "zlast.pkg", Ver: "3"}, {Name: "notes__OLD__A", Ver: "0.1"}}}
		if g[3] == 2 {
			d.Cust = []PkgCust{{Pkg: "A", Type: "source"}}
		}
		put := func(p Pkg, st int) {
			p.Variant = "was"
			switch states[st] {
			case "absent":
				return
			case "outdated":
				p.Ver = "1.0.9"
			case "newer":
				p.Ver = "3.0"
			}
			d.Installed = append(d.Installed, p)
		}
		put(a, g[0])
		put(b, g[1])
		tb := Pkg{Name: "T", Ver: "0.3", Imports: "A", Variant: "tar"}
		switch tars[g[2]] {
		case "new":
			d.Tarballs = []Pkg{tb}
		case "installed":
			d.Tarballs = []Pkg{tb, {Name: "T2", Ver: "1.0", Variant: "tar"}}
			d.Installed = append(d.Installed, Pkg{Name: "T", Ver: "0.9", Variant: "was"})
		case "planned":
			d.Tarballs = []Pkg{{Name: "B", Ver: "0.7", Variant: "tar"}}
		case "planned-outdated":
			d.Tarballs = []Pkg{{Name: "C", Ver: "0.7", LinkingTo: "B", Variant: "tar"}}
			d.Installed = append(d.Installed, Pkg{Name: "C", Ver: "0.5", Variant: "was"})
		case "same-version-installed": // only the contents differ
			d.Tarballs = []Pkg{tb}
			d.Installed = append(d.Installed, Pkg{Name: "T", Ver: "0.3", Imports: "A", Variant: "was"})
		case "same-version-planned":
			d.Tarballs = []Pkg{{Name: "C", Ver: "1.0", LinkingTo: "B", Variant: "tar"}}
			d.Installed = append(d.Installed, Pkg{Name: "C", Ver: "1.0", LinkingTo: "B", Variant: "was"})
		}
		k := declCase(fmt.Sprintf("start-%v", g), d, nil, "set", "source", "update", "content")
		if g[4] == 1 {
			// an earlier run into another library fills the caches
			ref := d.ref()
			k.Steps = append([]Step{{Opts: Opts{Args: []string{"install", "--library", "otherlib"}}}}, k.Steps...)
			k.Judge = func(r *Run) (string, string) {
				return anyOf(d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), "set", "source", "update", "content", "crash")
			}
		}
		// entries of the library that are not packages
		k.World.Add("proj/lib/notes.txt", "keep me")
		k.World.Add("proj/lib/Z/extra/data.bin", "\x00\x01\x02")
		old := k.Judge
		k.Judge = func(r *Run) (string, string) {
			if sig, msg := old(r); sig != "" {
				return sig, msg
			}
			if e := r.end(); e["proj/lib/notes.txt"] != "keep me" {
				return "foreign-file", "a file in the library that belongs to no package was changed"
			}
			return "", ""
		}
		return k
	})
}

func init() {
	checks["C05"] = checkDef{title: "library after success", run: runC05}
	checks["C07"] = checkDef{title: "source selection", run: runC07}
	checks["C08"] = checkDef{title: "updates", run: runC08}
	checks["C09"] = checkDef{title: "R requirements", run: runC09}
}
