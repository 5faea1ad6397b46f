package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

// ---- C20: pkgr load ----

// loadCase is one use of "pkgr load".
type loadCase struct {
	exit     int
	d        *Decl
	all      bool
	json     bool
	lvl      string
	fail     []string // packages that do not load
	from     string   // directory the command is run from
	cfgArg   string   // --config
	threads  string   // --threads
	expected []string // packages to test, once each
	order    []string // further arguments
	libs     []string // libraries R searches after the configured one
	noise    string   // what the startup files of R print
}

func (l *loadCase) args() []string {
	a := []string{"load"}
	if l.all {
		a = append(a, "--all")
	}
	if l.json {
		a = append(a, "--json")
	}
	if l.lvl != "" {
		a = append(a, "--loglevel", l.lvl)
	}
	if l.cfgArg != "" {
		a = append(a, "--config", l.cfgArg)
	}
	if l.threads != "" {
		a = append(a, "--threads="+l.threads)
	}
	return append(a, l.order...)
}

// tested is what the documentation says is loaded.
func (l *loadCase) tested() []string {
	var r []string
	add := func(p string) {
		if !has(r, p) {
			r = append(r, p)
		}
	}
	if l.all {
		ref := l.d.ref()
		for p := range ref.Plan {
			add(p)
		}
		for _, t := range l.d.Tarballs {
			add(t.Name)
		}
	} else {
		for _, p := range l.d.Packages {
			add(p)
		}
	}
	sort.Strings(r)
	return r
}

type loadReport struct {
	RMetadata   struct{ LibPaths []string }
	LoadResults map[string]struct {
		Package, Version, Path, Exiterr string
		Success                         bool
	}
	Failures *int
}

// loadOracle judges one run of load.
func (l *loadCase) loadOracle(w *Worker, r *Result) (string, string) {
	want := l.expected
	ctx := func(f string, a ...any) string {
		return fmt.Sprintf("%s on %v: %s; output: %s", strings.Join(l.args(), " "), want, fmt.Sprintf(f, a...), tail(r.all(), 500))
	}
	switch r.Verdict {
	case "deadlock", "horizon", "timeout":
		return "hang", ctx("the command never ends (%s)", r.Verdict)
	}
	if crashed(r) {
		return "crash", ctx("the command crashed")
	}
	started := map[string]int{}
	ended := map[string]bool{} // loads
	for _, e := range r.Evs {
		if e.Kind == "install" {
			return "install", ctx("an R installation of %s was started", e.Pkg)
		}
		if e.Kind != "library" {
			continue
		}
		if e.T == "rstart" {
			started[e.Pkg]++
			if filepath.Base(e.Exe) != "R" || !strings.HasPrefix(e.Exe, w.Root+"/bin/") {
				return "exe", ctx("%s was loaded with %s rather than the configured R", e.Pkg, e.Exe)
			}
			if strings.TrimSuffix(e.Dir, "/") != w.P("proj") {
				return "dir", ctx("R for %s was started in %s, the configuration is in %s", e.Pkg, e.Dir, w.P("proj"))
			}
		} else {
			ended[e.Pkg] = e.Code == 0
		}
	}
	for _, p := range want {
		if started[p] != 1 {
			return "count", ctx("%s was tested %d times", p, started[p])
		}
	}
	for p := range started {
		if !has(want, p) {
			return "extra", ctx("%s was tested though it is not among the packages to load", p)
		}
	}
	nf := 0
	for _, ok := range ended {
		if !ok {
			nf++
		}
	}
	if l.json {
		i := strings.Index(r.Out, "{")
		var rep loadReport
		if i < 0 || json.NewDecoder(strings.NewReader(r.Out[i:])).Decode(&rep) != nil || rep.Failures == nil {
			return "json", ctx("no JSON report")
		}
		if *rep.Failures != nf {
			return "failures", ctx("the report counts %d failures, R failed to load %d packages", *rep.Failures, nf)
		}
		for _, p := range want {
			x, ok := rep.LoadResults[p]
			if !ok || x.Package != p {
				return "unreported", ctx("%s is missing in the report", p)
			}
			if x.Success != ended[p] {
				return "success", ctx("%s is reported with Success=%v, R loading it: %v", p, x.Success, ended[p])
			}
			if (x.Exiterr == "") != ended[p] {
				return "exiterr", ctx("%s is reported with Exiterr=%q, R loading it: %v", p, x.Exiterr, ended[p])
			}
			if x.Success && !vrBase[p] {
				ver, lib := "", ""
				for _, q := range append(append(append([]Pkg{}, l.d.Installed...), l.d.Foreign...), l.d.Tarballs...) {
					if q.Name == p && ver == "" {
						ver, lib = q.Ver, w.P("proj/lib", p)
					}
				}
				if x.Version != ver || x.Path != lib {
					return "info", ctx("%s is reported as version %s in %s; it is version %s in %s", p, x.Version, x.Path, ver, lib)
				}
			}
		}
		var paths []string
		for _, x := range append(l.libPaths(), "/usr/lib/R/library") {
			paths = append(paths, strings.ReplaceAll(x, "@ROOT@", w.Root))
		}
		if fmt.Sprint(rep.RMetadata.LibPaths) != fmt.Sprint(paths) || len(rep.RMetadata.LibPaths) != len(paths) {
			return "libpaths", ctx("the report has the search path %q; R has %q", rep.RMetadata.LibPaths, paths)
		}
		if len(rep.LoadResults) != len(want) {
			return "report", ctx("the report has %d packages", len(rep.LoadResults))
		}
		return "", ""
	}
	if l.lvl == "fatal" {
		return "", ""
	}
	lines := parseLog(r.all())
	said := func(m string) bool {
		for _, x := range lines {
			if strings.Contains(x.msg, m) {
				return true
			}
		}
		return false
	}
	good, bad := said("all packages loaded successfully"), said("some packages failed to load")
	if bad != (nf > 0) || l.lvl != "error" && good != (nf == 0) {
		return "status", ctx("R failed to load %d packages, reported: all loaded %v, some failed %v", nf, good, bad)
	}
	for p, ok := range ended {
		named := false
		for _, x := range lines {
			if x.level == "error" && (word(x.msg, p) || word(x.rest, p)) {
				named = true
			}
		}
		if !ok && !named {
			return "unnamed", ctx("%s failed to load and no error names it", p)
		}
	}
	return "", ""
}

// loadTree: what the command may change (caches aside).
func loadTree(p string) bool {
	return strings.HasPrefix(p, "proj/") || strings.HasPrefix(p, "home/") || strings.HasPrefix(p, "other/")
}

func (l *loadCase) build() (*World, *Scen) {
	wd, sc := l.d.build()
	sc.LibPaths = l.libPaths()
	sc.Noise = l.noise
	sc.LoadFail = l.fail
	sc.FailExit = l.exit
	wd.Files["other/"] = nil
	return wd, sc
}

// libPaths is the search path of R, its own library aside.
func (l *loadCase) libPaths() []string {
	return append([]string{"@ROOT@/proj/lib"}, l.libs...)
}

func runC20(c *Ctx) {
	// every graph on 3 packages, every subset of packages that are not
	// installed or do not load, every selection
	levels := []string{"", "trace", "error", "fatal"}
	n, dg := product(8, 27, 7, 2, 2, pick(c, 1, len(levels)))
	c.Bound("every dependency graph on 3 packages x each package loads / fails to load / is not installed x every nonempty request x --all x --json%s: %d configurations", pick(c, "", " x log level"), n)
	c.Cases(n, pick(c, 16, 64), func(i int) *Kase {
		g := dg(i)
		ps := dagScens(3, 0)[g[0]].src
		d := &Decl{Repos: []DRepo{{Name: "CRAN", Src: ps}}, Rolloff: true}
		l := &loadCase{d: d, all: g[3] == 1, json: g[4] == 1, lvl: levels[g[5]], exit: failExits[i%len(failExits)]}
		st := g[1]
		for j, p := range ps {
			switch st % 3 {
			case 0:
				d.Installed = append(d.Installed, p)
			case 1:
				d.Installed = append(d.Installed, p)
				l.fail = append(l.fail, p.Name)
			}
			st /= 3
			if (g[2]+1)>>j&1 != 0 {
				d.Packages = append(d.Packages, p.Name)
			}
		}
		return l.kase(fmt.Sprintf("load-%v", g))
	})
	// forms of the configuration and of the command line
	type form struct {
		name string
		set  func(l *loadCase)
	}
	forms := []form{
		{"plain", func(l *loadCase) {}},
		{"listed-twice", func(l *loadCase) { l.d.Packages = append(l.d.Packages, "P1", "P2") }},
		{"tarball", func(l *loadCase) { l.d.Tarballs = []Pkg{{Name: "T", Ver: "1.0", Imports: "P3"}} }},
		{"tarball-required", func(l *loadCase) { l.d.Tarballs = []Pkg{{Name: "P3", Ver: "1.5"}} }},
		{"tarball-requested", func(l *loadCase) { l.d.Tarballs = []Pkg{{Name: "P1", Ver: "1.5", Imports: "P3"}} }},
		{"description", func(l *loadCase) { l.d.Descs = []Pkg{{Name: "U", Ver: "1.0", Imports: "P3"}} }},
		{"suggests", func(l *loadCase) { l.d.Suggests = true; l.d.Repos[0].Src[0].Suggests = "P3" }},
		{"base", func(l *loadCase) { l.d.Packages = append(l.d.Packages, "stats") }},
		{"elsewhere", func(l *loadCase) { l.from, l.cfgArg = "other", "../proj/pkgr.yml" }},
		{"elsewhere-absolute", func(l *loadCase) { l.from, l.cfgArg = "other", "@ROOT@/proj/pkgr.yml" }},
		{"parent", func(l *loadCase) { l.from, l.cfgArg = ".", "proj/pkgr.yml" }},
		{"named", func(l *loadCase) { l.cfgArg = "pkgr.yml" }},
		{"many", func(l *loadCase) {
			l.d.Packages = nil
			for j := 0; j < 20; j++ {
				p := Pkg{Name: fmt.Sprintf("Q%d", j), Ver: "1.0"}
				l.d.Repos[0].Src = append(l.d.Repos[0].Src, p)
				l.d.Installed = append(l.d.Installed, p)
				l.d.Packages = append(l.d.Packages, p.Name)
			}
			l.fail = append(l.fail, "Q3", "Q19")
		}},
		{"nothing", func(l *loadCase) { l.d.Packages = nil }},
		{"strange-names", func(l *loadCase) {
			for _, x := range []string{"P", "P10", "a.b", "data.table", "R6"} {
				p := Pkg{Name: x, Ver: "2024.01-3"}
				l.d.Repos[0].Src = append(l.d.Repos[0].Src, p)
				l.d.Installed = append(l.d.Installed, p)
				l.d.Packages = append(l.d.Packages, x)
			}
			l.fail = append(l.fail, "P", "data.table")
		}},
		{"search-path", func(l *loadCase) { l.libs = []string{"/opt/r-site", "/usr/lib/R/site-library"} }},
		{"search-path-short", func(l *loadCase) { l.libs = []string{"/a", "/b", "/c", "/d", "/e", "/f", "/g", "/h", "/i", "/k"} }},
		{"search-path-long", func(l *loadCase) { l.libs = []string{"/opt/" + strings.Repeat("long-name-", 12), "/a b/lib"} }},
		{"startup-prints", func(l *loadCase) {
			l.libs, l.noise = []string{"/opt/r-site"}, "- Project '~/proj' loaded. [renv 1.0.7]\n"
		}},
		{"startup-prints-lines", func(l *loadCase) { l.noise = "[1] \"starting\"\n\nlibrary:\n[1] 1 2 3\n" }},
		{"no-library", func(l *loadCase) { l.d.Installed = nil }},
		{"outdated", func(l *loadCase) { l.d.Installed[0].Ver, l.d.Installed[2].Ver = "0.5", "1.5" }},
		{"foreign", func(l *loadCase) { l.d.Foreign, l.d.Installed = l.d.Installed, nil }},
	}
	workers := []string{"", "1", "2", "100", "0", "-1", "cfg0", "cfg1", "cfg-3"}
	n2, dg2 := product(len(forms), len(workers), 8, 2, 2)
	c.Bound("%d forms of configuration and command line x %d worker counts (a configured or given 0 and negative ones included) x every subset of 3 packages failing x --all x --json: %d", len(forms), len(workers), n2)
	c.Cases(n2, pick(c, 16, 64), func(i int) *Kase {
		g := dg2(i)
		if c.quick() && g[1] > 1 && g[2] != 0 && g[2] != 5 {
			return nil
		}
		ps := []Pkg{{Name: "P1", Ver: "1.0", Imports: "P2"}, {Name: "P2", Ver: "1.1"}, {Name: "P3", Ver: "1.2"}}
		d := &Decl{Packages: []string{"P1", "P2"}, Repos: []DRepo{{Name: "CRAN", Src: ps}}, Installed: append([]Pkg{}, ps...), Rolloff: true}
		l := &loadCase{d: d, all: g[3] == 1, json: g[4] == 1}
		for j := range ps {
			if g[2]>>j&1 != 0 {
				l.fail = append(l.fail, ps[j].Name)
			}
		}
		switch x := workers[g[1]]; {
		case strings.HasPrefix(x, "cfg"):
			d.Extra = append(d.Extra, "Threads: "+x[3:])
		default:
			l.threads = x
		}
		forms[g[0]].set(l)
		return l.kase(fmt.Sprintf("loadform-%v %s", g, forms[g[0]].name))
	})
	// every order in which the R sessions start and end
	b := Budget{Sched: 1, Env: 9, Out: 9, Total: 2}
	if !c.quick() {
		b = Budget{Sched: 2, Env: 9, Out: 9, Total: 4}
	}
	var scens []*iscen
	byScen := map[string]*loadCase{}
	scen := func(name string, l *loadCase) {
		l.d.Rolloff = true
		l.expected = l.tested()
		s := &iscen{name: "load-" + name, src: l.d.Repos[0].Src, user: l.d.Packages, args: l.args(), budget: b, starve: Budget{Env: 1, Total: 1}}
		s.custom = func(c *Ctx, s *iscen) error {
			s.wd, s.sc = l.build()
			c.shareWWW(s.wd, s.sc)
			s.sc.RAsync = true
			return nil
		}
		byScen[s.name] = l
		scens = append(scens, s)
	}
	ps := []Pkg{{Name: "P1", Ver: "1.0", Imports: "P2"}, {Name: "P2", Ver: "1.1"}, {Name: "P3", Ver: "1.2"}, {Name: "P4", Ver: "1.3"}}
	for _, th := range []string{"1", "2"} {
		for _, js := range []bool{true, false} {
			for _, fail := range [][]string{nil, {"P3"}, {"P2", "P4"}} {
				k := pick(c, 3, 4)
				var user []string
				for _, p := range ps[:k] {
					user = append(user, p.Name)
				}
				d := &Decl{Packages: user, Repos: []DRepo{{Name: "CRAN", Src: ps}}, Installed: ps}
				scen(fmt.Sprintf("%s-%v-%v", th, js, fail), &loadCase{d: d, json: js, threads: th, fail: fail})
			}
		}
	}
	exploreAll(c, scens, func(s *iscen, w *Worker, r *Result) (string, string) { return byScen[s.name].loadOracle(w, r) })
}

func (l *loadCase) kase(id string) *Kase {
	l.expected = l.tested()
	wd, sc := l.build()
	return &Kase{ID: id, World: wd, Scen: sc, Desc: map[string]any{"args": l.args(), "fail": l.fail},
		Steps: []Step{{Opts: Opts{Args: l.args(), Dir: l.from}}},
		Judge: func(k *Run) (string, string) {
			if sig, msg := l.loadOracle(k.W, k.last()); sig != "" {
				return sig, msg
			}
			keep := func(s Snap) Snap { return s.without(func(p string) bool { return !loadTree(p) }) }
			if df := keep(k.S[0]).diff(keep(k.end())); len(df) > 0 {
				return "changed", fmt.Sprintf("%s changed files: %v", strings.Join(l.args(), " "), df)
			}
			return "", ""
		}}
}

func init() {
	checks["C20"] = checkDef{title: "load report", run: runC20}
}
