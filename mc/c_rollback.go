package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
)

// ---- C04: a failed install leaves the library exactly as it was ----

// classify names a difference between two libraries independently of the packages.
func classify(df []string) string {
	k := map[string]bool{}
	for _, x := range df {
		switch {
		case strings.Contains(x, "__OLD__") || strings.Contains(x, "BACKUP"):
			k["backup-left"] = true
		case strings.HasPrefix(x, "+"):
			k["added"] = true
		case strings.HasPrefix(x, "-"):
			k["lost"] = true
		default:
			k["changed"] = true
		}
	}
	return strings.Join(sortedKeys(k), "+")
}

// judgeFailed judges the library after an install in which R failed for something.
func judgeFailed(evs []Ev, before, after Snap, rollback bool) (string, string) {
	if len(failedSet(evs)) == 0 {
		return "", ""
	}
	if rollback {
		if df := before.diff(after); len(df) > 0 {
			return "library:" + classify(df), fmt.Sprintf("after a failed install the library differs from what it was: %v", df)
		}
		return "", ""
	}
	started, done := map[string]bool{}, map[string]bool{}
	for _, e := range evs {
		if e.Kind != "install" {
			continue
		}
		if e.T == "rstart" {
			started[e.Pkg] = true
		}
		if e.T == "rend" && e.Code == 0 {
			done[e.Pkg] = true
		}
	}
	for _, p := range before.top() {
		vb, va := before.sub(p+"/"), after.sub(p+"/")
		if !started[p] {
			if df := vb.diff(va); len(df) > 0 || before[p] != after[p] {
				return "norollback:untouched", fmt.Sprintf("with rollback disabled %s, for which R was never started, changed: %v", p, df)
			}
		}
	}
	return "", ""
}

func runC04(c *Ctx) {
	// under every completion order and outcome
	b := Budget{Sched: pick(c, 0, 1), Env: 9, Out: 9, Total: pick(c, 2, 3)}
	old := []Pkg{{Name: "D", Ver: "0.5"}, {Name: "A", Ver: "0.9", Imports: "D"}, {Name: "Z", Ver: "1"}}
	scens := []*iscen{
		{name: "rb-update", src: pDiamond, user: []string{"A"}, threads: 2, installed: old},
		{name: "rb-partial", src: pDiamond, user: []string{"A"}, threads: 2, installed: old, partial: true},
		{name: "rb-fork", src: pFork, user: []string{"A", "B", "C"}, threads: 3, installed: []Pkg{{Name: "B", Ver: "0.5", Imports: "D"}, {Name: "C", Ver: "0.1"}, {Name: "D", Ver: "0.1"}}, partial: true},
		{name: "rb-flat", src: pFlat, user: []string{"A", "B", "C"}, threads: 3, installed: []Pkg{{Name: "A", Ver: "0.5"}, {Name: "C", Ver: "1.0"}}},
		{name: "rb-cached", src: pDiamond, user: []string{"A"}, threads: 2, installed: old, binCache: []string{"D", "B"}, partial: true},
		{name: "rb-tar", src: pTwo, user: []string{"C"}, threads: 2, installed: []Pkg{{Name: "T", Ver: "0.1"}, {Name: "B", Ver: "0.1"}, {Name: "D", Ver: "1.0"}}, tarballs: []Pkg{{Name: "T", Ver: "1.0", Imports: "A"}}, partial: true},
	}
	var mu sync.Mutex
	base := map[string]Snap{}
	for _, rb := range []bool{true, false} {
		var l []*iscen
		for _, s := range scens {
			n := *s
			n.maxFail, n.budget = 2, b
			if !rb {
				n.name += "-norollback"
				n.extra = []string{"NoRollback: true"}
			}
			l = append(l, &n)
		}
		exploreAll(c, l, func(s *iscen, w *Worker, r *Result) (string, string) {
			after := w.Snapshot("proj/lib")
			mu.Lock()
			if base[s.name] == nil {
				w.Reset(s.wd)
				base[s.name] = w.Snapshot("proj/lib")
			}
			before := base[s.name]
			mu.Unlock()
			sig, msg := judgeFailed(r.Evs, before, after, rb)
			if sig != "" {
				msg = fmt.Sprintf("scenario %s: %s; R events: %s", s.name, msg, evLine(r.Evs))
			}
			return sig, msg
		})
	}
	runC04b(c)
	runC04c(c)
	runC04d(c)
	runC04e(c)
}

// runC04e fails installs into libraries that did not exist or were empty, in all sorts of places.
func runC04e(c *Ctx) {
	libs := []string{"lib", "env/R/4.3/lib", "./lib/", "@ROOT@/libs/a/lib", "~/rlibs/lib", "../shared/lib", "env/../lib", "lib.new"}
	// what is there beforehand: nothing, the directory above with other libraries in it, the empty library, a library with a file
	n, dg := product(len(libs), 4, 4, 3, 2, 2)
	c.Bound("%d forms of the library x missing, missing beside other libraries, empty, with a file x what fails (a dependency, what needs it, a tarball, an archive that cannot be downloaded) x failing step x partial files or not x rollback on/off: %d cases; whatever lies around the library is watched too", len(libs), n)
	c.Cases(n, pick(c, 6, 40), func(i int) *Kase {
		g := dg(i)
		if g[2] == 3 && g[3] > 0 {
			return nil
		}
		d := &Decl{Packages: []string{"A"}, Library: libs[g[0]], Tarballs: []Pkg{{Name: "T", Ver: "1.0"}}, Threads: 1}
		d.Repos = []DRepo{{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}}}}
		rb := g[5] == 0
		if !rb {
			d.Extra = append(d.Extra, "NoRollback: true")
		}
		wd, sc := d.build()
		lib := filepath.Clean("proj/" + libs[g[0]])
		if strings.HasPrefix(libs[g[0]], "@ROOT@/") {
			lib = libs[g[0]][7:]
		} else if strings.HasPrefix(libs[g[0]], "~/") {
			lib = "home/" + libs[g[0]][2:]
		}
		up := filepath.Dir(lib)
		if g[1] > 0 {
			wd.addInstalled(up+"/other", Pkg{Name: "A", Ver: "0.3"}, true)
			wd.addInstalled(up+"/lib2", Pkg{Name: "B", Ver: "0.3"}, false)
			wd.Add(up+"/notes.txt", "keep me")
		}
		switch g[1] {
		case 2:
			wd.Add(lib+"/", "")
		case 3:
			wd.Add(lib+"/.keep", "")
		}
		sc.FailPartial = g[4] == 1
		sc.FailStage = []string{"", "build", "final"}[g[3]]
		what := []string{"B", "A", "T", "an archive"}[g[2]]
		if g[2] < 3 {
			sc.FailAlways = []string{what}
		} else {
			sc.Faults = []HTTPFault{{Suffix: "A_1.0.tar.gz", Mode: []string{"404", "trunc"}[g[4]]}}
		}
		k := &Kase{ID: fmt.Sprintf("newlib-%v", g), World: wd, Scen: sc, Desc: d.YAML()}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			if crashed(r.R[0]) {
				return "crash", what + " fails: the command crashed: " + tail(r.R[0].all(), 400)
			}
			evs := r.R[0].Evs
			if g[2] == 3 {
				evs = append([]Ev{{T: "rend", Kind: "install", Pkg: "A", Code: 1}}, evs...)
			}
			if sig, msg := judgeFailed(evs, r.S[0].sub(lib+"/"), r.S[1].sub(lib+"/"), rb); sig != "" {
				return sig, fmt.Sprintf("%s fails: %s; R events: %s; config:\n%s", what, msg, evLine(r.R[0].Evs), d.YAML())
			}
			// and all around it
			in := func(s Snap) Snap {
				return s.without(func(p string) bool {
					return strings.HasSuffix(p, "/") || p == lib || strings.HasPrefix(p, lib+"/") || !strings.HasPrefix(p, "proj/") && !strings.HasPrefix(p, up+"/")
				})
			}
			if df := in(r.S[0]).diff(in(r.S[1])); len(df) > 0 {
				return "around:" + classify(df), fmt.Sprintf("%s fails: what lies around the library %s differs from what it was: %v; config:\n%s", what, libs[g[0]], df, d.YAML())
			}
			return "", ""
		}
		return k
	})
}

// runC04d fails the download of an archive.
func runC04d(c *Ctx) {
	pk := []string{"A", "B", "C"}
	modes := []string{"404", "500", "conn", "trunc"}
	st := pick(c, 3, 5)
	n, dg := product(st, st, 3, 3, len(pk), len(modes), 2)
	perm := []int{0, 2, 1, 4, 3}
	c.Bound("every library state of two packages (%d x %d) x tarballs (3) x repository kinds (3) x the package whose archive cannot be had %v x why %v x rollback on/off: %d cases", st, st, pk, modes, n)
	c.Cases(n, pick(c, 8, 40), func(i int) *Kase {
		g := dg(i)
		d := startDecl([]int{perm[g[0]], perm[g[1]], g[2], g[3], 0})
		rb := g[6] == 0
		d.Threads = 1
		if !rb {
			d.Extra = append(d.Extra, "NoRollback: true")
		}
		ref := d.ref()
		x, ok := ref.Plan[pk[g[4]]]
		if _, tar := ref.Tar[pk[g[4]]]; !ok || tar || len(ref.Missing) > 0 {
			return nil
		}
		wd, sc := d.build()
		wd.Add("proj/lib/notes.txt", "keep me")
		sc.Faults = []HTTPFault{{Suffix: filepath.Base(x.URL), Mode: modes[g[5]]}}
		k := &Kase{ID: fmt.Sprintf("undelivered-%v", g), World: wd, Scen: sc, Desc: d.YAML()}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			what := fmt.Sprintf("%s cannot be downloaded (%s)", filepath.Base(x.URL), modes[g[5]])
			if crashed(r.R[0]) {
				return "crash", what + ": the command crashed: " + tail(r.R[0].all(), 400)
			}
			asked := false
			for _, e := range r.R[0].Evs {
				asked = asked || e.T == "http" && e.Mode != ""
			}
			if !asked {
				return "", ""
			}
			lib := "proj/" + d.lib() + "/"
			before, after := r.S[0].sub(lib), r.S[1].sub(lib)
			if df := before.diff(after); rb && len(df) > 0 {
				return "undelivered:" + classify(df), fmt.Sprintf("%s: after the failed install the library differs from what it was: %v; config:\n%s", what, df, d.YAML())
			}
			if sig, msg := judgeFailed(append([]Ev{{T: "rend", Kind: "install", Pkg: pk[g[4]], Code: 1}}, r.R[0].Evs...), before, after, rb); sig != "" {
				return sig, what + ": " + msg
			}
			return "", ""
		}
		return k
	})
}

func runC04b(c *Ctx) {
	fails := [][]string{{"A"}, {"B"}, {"C"}, {"T"}, {"A", "C"}, {"T", "T2"}}
	st := pick(c, 3, 5)
	n, dg := product(st, st, 5, 3, len(fails), 3, 2, 2)
	c.Bound("every library state of two packages (%d x %d) x tarballs (5) x repository kinds (3) x failing packages %v x failing step (any, build, final) x partial files left or not x rollback on/off, then a healthy install: %d cases", st, st, fails, n)
	perm := []int{0, 2, 1, 4, 3} // absent, outdated, current, outdated and foreign, newer
	c.Cases(n, pick(c, 24, 100), func(i int) *Kase {
		g := dg(i)
		d := startDecl([]int{perm[g[0]], perm[g[1]], g[2], g[3], 0})
		f := fails[g[4]]
		if f[0] == "T" && len(d.Tarballs) == 0 {
			return nil
		}
		if len(f) == 2 && f[0] == "T" && len(d.Tarballs) < 2 {
			return nil
		}
		rb := g[7] == 0
		d.Threads = 1
		if !rb {
			d.Extra = append(d.Extra, "NoRollback: true")
		}
		wd, sc := d.build()
		wd.Add("proj/lib/notes.txt", "keep me")
		wd.Add("proj/lib/Z/extra/data.bin", "\x00\x01\x02")
		ok := *sc
		sc.FailAlways, sc.FailStage, sc.FailPartial = f, []string{"", "build", "final"}[g[5]], g[6] == 1
		sc.FailExit = []int{1, 2, -9, 137, -11}[i%5]
		k := &Kase{ID: fmt.Sprintf("failed-%v", g), World: wd, Scen: sc, Desc: map[string]any{"config": d.YAML(), "failing": f}}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		again := rb && i%4 == 0
		if again {
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}, Scen: &ok}})
		}
		ref := d.ref()
		k.Judge = func(r *Run) (string, string) {
			if crashed(r.R[0]) {
				return "crash", "the command crashed: " + tail(r.R[0].all(), 400)
			}
			if len(ref.Missing) > 0 {
				return "", ""
			}
			lib := "proj/" + d.lib() + "/"
			if sig, msg := judgeFailed(r.R[0].Evs, r.S[0].sub(lib), r.S[1].sub(lib), rb); sig != "" {
				return sig, fmt.Sprintf("R fails for %v: %s; R events: %s; config:\n%s", f, msg, evLine(r.R[0].Evs), d.YAML())
			}
			if again && len(failedSet(r.R[0].Evs)) > 0 {
				if sig, msg := anyOf(d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), "set", "source", "update", "content", "crash"); sig != "" {
					return "retry:" + sig, fmt.Sprintf("R failed for %v, then installing again: %s", f, msg)
				}
			}
			return "", ""
		}
		return k
	})
}

// runC04c fails installs of packages named nearly like others in the library.
func runC04c(c *Ctx) {
	pairs := [][2]string{{"Rcpp", "rcpp"}, {"rcpp", "Rcpp"}, {"A", "AA"}, {"AA", "A"}, {"A.b", "A"}, {"A", "A.b"}, {"A", "OLD__A"}, {"A1", "A10"}}
	states := 5 // of the second name: in the library at the same version, outdated, by other means; or a listed tarball, an older or a newer one installed
	n, dg := product(len(pairs), states, 3, 3, 2, 2)
	c.Bound("%d pairs of similar package names, the first (absent, outdated or current) requested and the second (current, outdated, installed by other means, listed as tarball while an older or a newer one is installed) x what fails (first, second, a package needing both) x second requested too x rollback on/off: %d cases", len(pairs), n)
	c.Cases(n, pick(c, 8, 40), func(i int) *Kase {
		g := dg(i)
		a, b := pairs[g[0]][0], pairs[g[0]][1]
		d := &Decl{Packages: []string{a, "Zap"}, Threads: 1}
		d.Repos = []DRepo{{Name: "CRAN", Src: []Pkg{{Name: a, Ver: "2.0", Variant: "new " + a}, {Name: b, Ver: "2.0", Variant: "new " + b}, {Name: "Zap", Ver: "1.0", Imports: a}}}}
		switch g[1] {
		case 0:
			d.Installed = append(d.Installed, Pkg{Name: b, Ver: "2.0", Variant: "old"})
		case 1:
			d.Installed = append(d.Installed, Pkg{Name: b, Ver: "1.0", Variant: "old"})
		case 2:
			d.Foreign = append(d.Foreign, Pkg{Name: b, Ver: "1.0", Variant: "old"})
		case 3:
			d.Installed = append(d.Installed, Pkg{Name: b, Ver: "1.0", Variant: "old"})
			d.Tarballs = append(d.Tarballs, Pkg{Name: b, Ver: "3.0", Variant: "tar"})
		case 4:
			d.Installed = append(d.Installed, Pkg{Name: b, Ver: "5.0", Variant: "old"})
			d.Tarballs = append(d.Tarballs, Pkg{Name: b, Ver: "3.0", Variant: "tar"})
		}
		if g[2] > 0 {
			d.Installed = append(d.Installed, Pkg{Name: a, Ver: []string{"", "1.0", "2.0"}[g[2]], Variant: "old"})
		}
		if g[4] == 1 {
			d.Packages = append(d.Packages, b)
		}
		rb := g[5] == 0
		if !rb {
			d.Extra = append(d.Extra, "NoRollback: true")
		}
		wd, sc := d.build()
		sc.FailAlways, sc.FailPartial = []string{[]string{a, b, "Zap"}[g[3]]}, i%2 == 0
		k := &Kase{ID: fmt.Sprintf("similar-%v", g), World: wd, Scen: sc, Desc: d.YAML(), NoStock: !rb} // what is left without rollback depends on timing
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			if crashed(r.R[0]) {
				return "crash", "the command crashed: " + tail(r.R[0].all(), 400)
			}
			sig, msg := judgeFailed(r.R[0].Evs, r.S[0].sub("proj/lib/"), r.S[1].sub("proj/lib/"), rb)
			if sig == "" && len(failedSet(r.R[0].Evs)) == 0 {
				return anyOf(d.judgeInstall(d.ref(), r.R[0], r.S[0], r.S[1]), "set", "update", "content")
			}
			return sig, msg
		}
		return k
	})
}

func init() {
	checks["C04"] = checkDef{title: "rollback", run: runC04}
}
