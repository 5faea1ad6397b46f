package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// ---- C10: planning and inspecting change nothing; the plan is what install does ----

// number finds the first log line holding key=N.
func number(r *Result, key string) (int, bool) {
	for _, l := range parseLog(r.all()) {
		for _, f := range strings.Fields(l.rest) {
			if v, ok := strings.CutPrefix(f, key+"="); ok {
				if n, err := strconv.Atoi(strings.Trim(v, `"`)); err == nil {
					return n, true
				}
			}
		}
	}
	return 0, false
}

// unchanged compares states around a command that must not change anything:
// library, project and package cache (in which listed tarballs may be unpacked).
func unchanged(a, b Snap) []string {
	f := func(s Snap) Snap {
		return s.without(func(p string) bool {
			return !strings.HasPrefix(p, "proj/") && !strings.HasPrefix(p, "cache/") && !strings.HasPrefix(p, "home/")
		})
	}
	var r []string
	for _, x := range f(a).diff(f(b)) {
		p := strings.TrimLeft(x, "+-~ ")
		if strings.HasPrefix(p, "cache/") {
			d := strings.Split(p, "/")
			if len(d) > 1 && isHex(strings.TrimSuffix(d[1], ":")) && !a.hasPrefix("cache/"+d[1]+"/") {
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

func isHex(s string) bool {
	if len(s) < 8 {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("0123456789abcdef", c) {
			return false
		}
	}
	return true
}

func (s Snap) hasPrefix(p string) bool {
	for k := range s {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// startDecl enumerates start states for planning and installing.
// dims: state of A (5), of B (5), tarball (5), repository kinds (3), NoUpdate (2)
func startDecl(g []int) *Decl {
	a, b, t := Pkg{Name: "A", Ver: "2.0", Imports: "B", Suggests: "S", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", LinkingTo: "B", Variant: "repo"}
	z := Pkg{Name: "Z", Ver: "7.0", Variant: "repo"}
	s := Pkg{Name: "S", Ver: "1.0", Depends: "C", Variant: "repo"}
	r := DRepo{Name: "R1", Src: []Pkg{a, b, t, z, s}}
	r2 := DRepo{Name: "R2", Src: []Pkg{{Name: "A", Ver: "9.0", Variant: "r2"}, {Name: "B", Ver: "9.0", Variant: "r2"}}}
	switch g[3] {
	case 1:
		r.RepoType, r.Bin = "MPN", []Pkg{a, b, t, s}
	case 2:
		r.RepoType, r.Bin = "MPN", []Pkg{b, t}
	}
	d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{r, r2}, Foreign: []Pkg{{Name: "Z", Ver: "0.1"}, {Name: "Z__OLD__C", Ver: "0.1"}}, NoUpdate: g[4] == 1}
	if g[3] == 2 {
		d.Cust = []PkgCust{{Pkg: "A", Type: "source", Suggests: bp(true)}, {Pkg: "S", Repo: "R1", Type: "Source"}}
	}
	put := func(p Pkg, st int) {
		p.Variant = "was"
		switch st {
		case 0:
			return
		case 2, 4:
			p.Ver = "1.0.9"
		case 3:
			p.Ver = "3.0"
		}
		if st == 4 {
			d.Foreign = append(d.Foreign, p)
		} else {
			d.Installed = append(d.Installed, p)
		}
	}
	put(a, g[0])
	put(b, g[1])
	tb := Pkg{Name: "T", Ver: "0.3", Imports: "A", Variant: "tar"}
	switch g[2] {
	case 1:
		d.Tarballs = []Pkg{tb}
	case 2:
		d.Tarballs = []Pkg{tb, {Name: "T2", Ver: "1.0", Variant: "tar"}}
		d.Installed = append(d.Installed, Pkg{Name: "T", Ver: "0.9", Variant: "was"})
	case 3:
		d.Tarballs = []Pkg{{Name: "B", Ver: "0.7", Variant: "tar"}}
	case 4:
		d.Tarballs = []Pkg{{Name: "C", Ver: "0.7", LinkingTo: "B", Variant: "tar"}}
		d.Installed = append(d.Installed, Pkg{Name: "C", Ver: "0.5", Variant: "was"})
	}
	return d
}

func runC10(c *Ctx) {
	n, dg := product(5, 5, 5, 3, 2)
	m, dg2 := product(1, 1, 4, 3, 2) // without a library
	ro := [][]string{{"plan", "--show-deps"}, {"inspect", "--deps"}, {"inspect", "--deps", "--reverse", "A", "B"}, {"inspect", "--deps", "--tree"}, {"inspect", "--installed-from"}, {"load"}, {"load", "--all", "--json"}}
	c.Bound("every library state of two packages (5 x 5: absent, current, outdated, newer, outdated and foreign) x tarballs (5) x repository kinds (3) x updating on/off, and the same without a library: %d start states; in each plan, one of %d other read-only commands (all of them on every 7th state), and then install", n+m, len(ro))
	c.Cases(n+m, pick(c, 24, 100), func(i int) *Kase {
		var g []int
		d := &Decl{}
		if i < n {
			g = dg(i)
			d = startDecl(g)
		} else {
			g = dg2(i - n)
			d = startDecl(g)
			d.Foreign, d.Installed = nil, nil
		}
		wd, sc := d.build()
		if i < n {
			wd.Add("proj/lib/notes.txt", "keep me")
		}
		wd.Add("cache/other/file.txt", "keep me too")
		sc.LibPaths = []string{"@ROOT@/proj/lib"}
		ref := d.ref()
		k := &Kase{ID: fmt.Sprintf("plan-%v-%v", g, i < n), World: wd, Scen: sc, Desc: d.YAML()}
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"plan", "--loglevel", "debug"}}})
		for j := range ro {
			if j == i%len(ro) || i%7 == 0 || !c.quick() {
				k.Steps = append(k.Steps, Step{Opts: Opts{Args: ro[j]}})
			}
		}
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"plan"}}}, Step{Opts: Opts{Args: []string{"install"}}})
		k.Judge = func(r *Run) (string, string) {
			last := len(r.R) - 1
			for j := 0; j < last; j++ {
				if crashed(r.R[j]) {
					return "crash", fmt.Sprintf("%v crashed: %s", k.Steps[j].Args, tail(r.R[j].all(), 400))
				}
				if df := unchanged(r.S[j], r.S[j+1]); len(df) > 0 {
					return "changes:" + k.Steps[j].Args[0], fmt.Sprintf("%v changed %v", k.Steps[j].Args, df)
				}
				for _, e := range r.R[j].Evs {
					if e.T == "rstart" && e.Kind == "install" {
						return "installs:" + k.Steps[j].Args[0], fmt.Sprintf("%v made R install %s", k.Steps[j].Args, e.Pkg)
					}
				}
			}
			if sig, msg := d.judgeSaid(ref, r.R[0]); sig != "" {
				return sig, msg
			}
			if sig, msg := anyOf(d.judgeInstall(ref, r.R[last], r.S[last], r.S[last+1]), "set", "source", "update", "crash"); sig != "" {
				return sig, msg
			}
			// counts
			got := map[string]bool{}
			for _, e := range r.R[last].Evs {
				_, tar := ref.Tar[e.Pkg]
				if e.T == "rend" && e.Kind == "install" && (tar || !e.Build) && e.Code == 0 {
					got[e.Pkg] = true
				}
			}
			n := len(got)
			for p := range ref.Tar {
				if ref.Install[p] {
					n++ // installed from the repository, then from the tarball
				}
			}
			// an update that a tarball overrides may count as an update or not
			ups, upsTar := 0, 0
			for p := range got {
				if _, tar := ref.Tar[p]; ref.Update[p] && tar {
					upsTar++
				} else if ref.Update[p] {
					ups++
				}
			}
			for _, j := range []int{0, last - 1, last} {
				if x, ok := number(r.R[j], "to_install"); ok && x != n && x != len(got) {
					return "count-install", fmt.Sprintf("%v announced to_install=%d, install carried out %d installations of %v; R events: %s; config:\n%s", k.Steps[j].Args, x, n, sortedKeys(got), evLine(r.R[last].Evs), d.YAML())
				}
				if x, ok := number(r.R[j], "to_update"); ok && (x < ups || x > ups+upsTar) {
					return "count-update", fmt.Sprintf("%v announced to_update=%d, install updated %d: %v; config:\n%s", k.Steps[j].Args, x, ups, sortedKeys(ref.Update), d.YAML())
				}
			}
			return "", ""
		}
		return k
	})
}

// ---- C11: convergence ----

// edits are the changes a history is made of.
var edits = []struct {
	name string
	f    func(d *Decl)
}{
	{"none", func(d *Decl) {}},
	{"add-C", func(d *Decl) {
		if !has(d.Packages, "C") {
			d.Packages = append(append([]string{}, d.Packages...), "C")
		}
	}},
	{"drop-A", func(d *Decl) {
		var l []string
		for _, p := range d.Packages {
			if p != "A" {
				l = append(l, p)
			}
		}
		d.Packages = append(l, "D")
	}},
	{"bump-B", func(d *Decl) { d.bump("B") }},
	{"bump-A-needs-C", func(d *Decl) {
		d.bump("A")
		for i := range d.Repos[0].Src {
			if d.Repos[0].Src[i].Name == "A" {
				d.Repos[0].Src[i].Imports = "B, C"
			}
		}
	}},
	{"other-repo-first", func(d *Decl) { d.Repos = []DRepo{d.Repos[1], d.Repos[0]} }},
	{"A-binary", func(d *Decl) { d.Cust = []PkgCust{{Pkg: "B", Repo: "R2", Type: "binary"}} }},
	{"no-update", func(d *Decl) { d.NoUpdate = !d.NoUpdate }},
	{"tarball", func(d *Decl) {
		v := "tar1"
		if len(d.Tarballs) > 0 {
			v = d.Tarballs[0].Variant + "x"
		}
		d.Tarballs = []Pkg{{Name: "T", Ver: "0.3", Imports: "C", Variant: v}}
	}},
	{"ignore-C", func(d *Decl) { d.Ignore = []string{"C"} }},
}

func (d *Decl) bump(p string) {
	rs := append([]DRepo{}, d.Repos...)
	for i := range rs {
		rs[i].Src = append([]Pkg{}, rs[i].Src...)
		for j := range rs[i].Src {
			if rs[i].Src[j].Name == p {
				rs[i].Src[j].Ver = strings.Replace(rs[i].Src[j].Ver, ".", "1.", 1)
				rs[i].Src[j].Variant += "+"
			}
		}
	}
	d.Repos = rs
}

// settle is the library the reference expects after an install.
func (d *Decl) settle(ref *Ref) []Pkg {
	m := map[string]Pkg{}
	for _, p := range append(append([]Pkg{}, d.Foreign...), d.Installed...) {
		m[p.Name] = p
	}
	for p := range ref.Install {
		m[p] = ref.Plan[p].Pkg
	}
	for p, t := range ref.Tar {
		m[p] = t
	}
	var l []Pkg
	for _, p := range sortedKeys(m) {
		l = append(l, m[p])
	}
	return l
}

func runC11(c *Ctx) {
	depth := pick(c, 3, 4)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(edits)
	}
	var names []string
	for _, e := range edits {
		names = append(names, e.name)
	}
	c.Bound("every history of %d edits out of %v, each followed by an install (the database cache expired or not), and two further installs: %d histories", depth-1, names[1:], n/len(edits))
	c.Cases(n/len(edits)*2, pick(c, 12, 60), func(i int) *Kase {
		fresh := i%2 == 0
		i /= 2
		d := &Decl{Packages: []string{"A"}, Foreign: []Pkg{{Name: "Z", Ver: "0.1"}, {Name: "D", Ver: "0.1"}}, Repos: []DRepo{
			{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: "r1"}, {Name: "B", Ver: "1.0", Variant: "r1"}, {Name: "C", Ver: "1.0", Imports: "B", Variant: "r1"}, {Name: "D", Ver: "1.0", Variant: "r1"}, {Name: "Z", Ver: "9", Variant: "r1"}}},
			{Name: "R2", RepoType: "MPN", Src: []Pkg{{Name: "A", Ver: "1.0", Variant: "r2"}, {Name: "B", Ver: "1.5", Variant: "r2"}}, Bin: []Pkg{{Name: "B", Ver: "1.6", Variant: "r2bin"}}}}}
		ds := []*Decl{d}
		var hist []string
		x := i
		for j := 1; j < depth; j++ {
			e := edits[x%len(edits)]
			x /= len(edits)
			hist = append(hist, e.name)
			nd := *ds[len(ds)-1]
			nd.Installed, nd.Foreign = ds[len(ds)-1].settle(ds[len(ds)-1].ref()), nil
			e.f(&nd)
			ds = append(ds, &nd)
		}
		// the last configuration is installed twice more, the second time with all caches gone
		for j := 0; j < 2; j++ {
			nd := *ds[len(ds)-1]
			nd.Installed, nd.Foreign = ds[len(ds)-1].settle(ds[len(ds)-1].ref()), nil
			ds = append(ds, &nd)
		}
		wd, sc := d.build()
		k := &Kase{ID: fmt.Sprintf("history-%v-%v", hist, fresh), World: wd, Scen: sc, Desc: hist}
		var refs []*Ref
		for j, d := range ds {
			refs = append(refs, d.ref())
			st := Step{Opts: Opts{Args: []string{"install"}}}
			if !fresh || j >= depth {
				st.Env = []string{"R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE=0"}
			}
			if j > 0 {
				w2, s2 := newWorld(), &Scen{}
				d.addTo(w2, s2)
				ex := fresh
				st.Pre = func(w *Worker) {
					for _, f := range sortedKeys(w2.Files) {
						if !strings.HasPrefix(f, "proj/lib/") {
							os.MkdirAll(filepath.Dir(w.P(f)), 0755)
							os.WriteFile(w.P(f), []byte(w.Subst(string(w2.Files[f]))), 0644)
						}
					}
					if ex {
						// long after: the databases have expired
						os.RemoveAll(w.P("xdg/pkgr/r_packagedb_caches"))
						ago := time.Now().Add(-400 * 24 * time.Hour)
						filepath.Walk(w.P("cache"), func(p string, _ os.FileInfo, err error) error {
							if err == nil {
								os.Chtimes(p, ago, ago)
							}
							return nil
						})
					}
				}
			}
			k.Steps = append(k.Steps, st)
		}
		k.Judge = func(r *Run) (string, string) {
			for j := range r.R {
				if len(ds[j].unsat(refs[j])) > 0 {
					return "", "" // R refuses; failures are not of interest here
				}
				if j > 0 && len(refs[j].Missing) > 0 {
					return "", "" // nothing was installed: later expectations do not apply
				}
				if sig, msg := anyOf(ds[j].judgeInstall(refs[j], r.R[j], r.B[j], r.S[j+1]), "set", "source", "update", "content", "crash"); sig != "" {
					return sig, fmt.Sprintf("history %v, install %d: %s", hist, j+1, msg)
				}
				for _, u := range fetched(r.R[j].Evs) {
					if p := r.B[j].cachedArchive(u); p != "" {
						return "refetched", fmt.Sprintf("history %v, install %d: %s was downloaded again although %s is in the cache", hist, j+1, u, p)
					}
				}
			}
			j := depth
			for ; j < len(r.R); j++ {
				for _, e := range r.R[j].Evs {
					if e.T == "rstart" && e.Kind == "install" {
						if _, tar := refs[j].Tar[e.Pkg]; !tar {
							return "repeats", fmt.Sprintf("history %v: repeating the install runs R for %s; R events: %s", hist, e.Pkg, evLine(r.R[j].Evs))
						}
					}
				}
				if l := fetched(r.R[j].Evs); len(l) > 0 {
					return "refetched", fmt.Sprintf("history %v: repeating the install downloads %v", hist, l)
				}
				if df := r.B[j].sub("proj/lib/").diff(r.S[j+1].sub("proj/lib/")); len(df) > 0 {
					return "not-converged", fmt.Sprintf("history %v: repeating the install changes the library: %v", hist, df)
				}
			}
			return "", ""
		}
		return k
	})
}

// cachedArchive is the cached file of the archive at that address, "" if there is none.
func (s Snap) cachedArchive(u string) string {
	host := strings.SplitN(strings.TrimPrefix(u, "http://"), ".", 2)[0]
	typ := "/src/"
	if strings.Contains(u, "/bin/") {
		typ = "/binary/"
	}
	for k := range s {
		if strings.HasPrefix(k, "cache/") && strings.HasSuffix(k, "/"+filepath.Base(u)) && strings.Contains(k, typ) && strings.HasPrefix(strings.ToLower(k), "cache/"+host) {
			return k
		}
	}
	return ""
}

func init() {
	checks["C10"] = checkDef{title: "plan and install agree", run: runC10}
	checks["C11"] = checkDef{title: "convergence", run: runC11}
}
