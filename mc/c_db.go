package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// ---- C14: the package-database cache ----

const dbDir = "xdg/pkgr/r_packagedb_caches"

// dbConfigs are configurations that differ in what a database cache depends on.
// What is at an address is the same in all of them.
func dbConfigs() []*Decl {
	p := func(v string) []Pkg {
		return []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: v}, {Name: "B", Ver: "1.0", Variant: v}}
	}
	src := []Pkg{{Name: "A", Ver: "2.0", Imports: "B", Variant: "new", Depends: "R (>= 4.3.1)"}, {Name: "A", Ver: "1.5", Variant: "old", Depends: "R (< 4.3.1)"}, {Name: "B", Ver: "1.0", Variant: "src"}}
	r := func(f func(r *DRepo)) DRepo {
		x := DRepo{Name: "R1", Src: src, Bin: p("bin1")}
		if f != nil {
			f(&x)
		}
		return x
	}
	var l []*Decl
	add := func(rv string, rs ...DRepo) {
		l = append(l, &Decl{Packages: []string{"A"}, RVer: rv, Repos: rs})
	}
	add("4.3.1", r(nil))
	add("4.3.1", r(func(r *DRepo) { r.Alias = "elsewhere"; r.Src = p("src-elsewhere") }))
	add("4.3.1", r(func(r *DRepo) { r.Alias = "r1/v2"; r.Src = p("src-v2") }))
	add("4.3.1", r(func(r *DRepo) { r.Name, r.Alias = "R2", "r1" }))
	add("4.3.0", r(nil))
	add("4.3.1", r(func(r *DRepo) { r.RepoType = "MPN" }))
	add("4.3.1", r(func(r *DRepo) { r.RepoType, r.Type = "MPN", "source" }))
	add("4.3.1", r(func(r *DRepo) { r.RepoType, r.Bin, r.Suffix = "MPN", p("bin-suffix"), "sfx" }))
	add("4.3.1", r(func(r *DRepo) { r.RepoType, r.Bin, r.Suffix = "MPN", p("bin-other"), "other" }))
	add("4.2.1", r(func(r *DRepo) { r.RepoType, r.Bin = "MPN", p("bin42") }))
	add("4.2.1", r(func(r *DRepo) { r.Bin = p("bin42") }))
	add("4.3.1", r(func(r *DRepo) {
		r.Alias, r.RepoType, r.Bin = "elsewhere", "MPN", p("bin-elsewhere")
		r.Src = p("src-elsewhere")
	}))
	return l
}

func runC14(c *Ctx) {
	all := []string{"set", "source", "update", "content", "crash"}
	cs := dbConfigs()
	// every history of configurations, the database cache shared
	depth := pick(c, 2, 3)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(cs)
	}
	c.Bound("every history of %d configurations out of %d that differ in address, name, R version, package type, kind and variant of a repository, with one database cache: %d histories", depth, len(cs), n)
	web, site := newWorld(), &Scen{WWW: map[string]string{}}
	for _, d := range cs {
		w2 := newWorld()
		d.addRepos(w2, &Scen{}, "x")
		r := d.Repos[0]
		dir := "www/" + strings.ReplaceAll(r.url()[7:], "/", "_")
		for _, f := range sortedKeys(w2.Files) {
			web.Files[dir+strings.TrimPrefix(f, "x/"+r.Name)] = w2.Files[f]
		}
		site.WWW[r.url()] = "@ROOT@/" + dir
	}
	c.shareWWW(web, site)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		k := &Kase{World: newWorld(), Scen: site}
		var ds []*Decl
		var refs []*Ref
		var ids []int
		for j := 0; j < depth; j++ {
			x := i % len(cs)
			ids = append(ids, x)
			i /= len(cs)
			d := *cs[x]
			d.Library = fmt.Sprintf("lib%d", j)
			ds, refs = append(ds, &d), append(refs, d.ref())
			k.World.addR(fmt.Sprintf("bin%d", j), d.rver())
			y := strings.Replace(d.YAML(), "Library: "+d.Library, "Library: ../"+d.Library, 1)
			// package archives are not shared: this is about the databases
			k.World.Add(fmt.Sprintf("proj/c%d/pkgr.yml", j), strings.Replace(y, "@ROOT@/cache", fmt.Sprintf("@ROOT@/cache%d", j), 1))
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--config", fmt.Sprintf("c%d/pkgr.yml", j)}, Scen: site, Env: []string{fmt.Sprintf("PKGR_RPATH=@ROOT@/bin%d/R", j)}}})
		}
		k.ID = fmt.Sprintf("db-history-%v", ids)
		k.Judge = func(r *Run) (string, string) {
			for j := range r.R {
				if sig, msg := anyOf(ds[j].judgeInstall(refs[j], r.R[j], r.S[j], r.S[j+1]), all...); sig != "" {
					return fmt.Sprintf("keyed:%s", sig), fmt.Sprintf("configurations %v, run %d: %s", ids, j+1, msg)
				}
			}
			return "", ""
		}
		return k
	})
	for _, f := range []*fbase{faultBases()[1], faultBases()[3]} {
		if !c.timeLeft() {
			return
		}
		wd, sc, _ := f.world()
		c.sweepOps(f, wd, sc, "/r_packagedb_caches", "package databases")
		c.listFaults(f, wd, sc)
		c.damagedDb(f, wd, sc)
		c.expiry(f, wd, sc)
	}
}

// listFaults makes requests for package lists fail.
func (c *Ctx) listFaults(f *fbase, wd *World, sc *Scen) {
	var lists []string
	for _, p := range sortedKeys(wd.Files) {
		if strings.HasSuffix(p, "/PACKAGES") {
			lists = append(lists, strings.TrimPrefix(p, "www/"))
		}
	}
	modes := append(append([]string{""}, httpModes...), "503")
	m := 1
	for range lists {
		m *= len(modes)
	}
	all := []string{"set", "source", "update", "content", "crash"}
	c.Cases(m, pick(c, 3, 12), func(i int) *Kase {
		s1 := *sc
		var bad []string
		// what a list that does not exist means
		d2 := *f.d
		d2.Repos = append([]DRepo{}, f.d.Repos...)
		notFound, broken := false, false
		for _, l := range lists {
			mode := modes[i%len(modes)]
			i /= len(modes)
			if mode == "" {
				continue
			}
			name, rest, _ := strings.Cut(l, "/")
			bad = append(bad, mode+" for "+l)
			s1.Faults = append(s1.Faults, HTTPFault{Suffix: strings.ToLower(name) + ".example/" + rest, Mode: mode})
			if mode == "404" {
				notFound = true
				for j := range d2.Repos {
					if d2.Repos[j].Name == name && strings.HasPrefix(rest, "src/") {
						d2.Repos[j].NoSrc = true
						d2.Repos[j].Src = nil
					} else if d2.Repos[j].Name == name {
						d2.Repos[j].NoBin = true
						d2.Repos[j].Bin = nil
					}
				}
			} else {
				broken = true
			}
		}
		ref, ref2 := f.d.ref(), d2.ref()
		k := &Kase{ID: fmt.Sprintf("%s-lists-%v", f.name, bad), World: wd, Scen: sc, Desc: f.d.YAML()}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}, Scen: &s1}}, {Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			lib := "proj/" + f.d.lib() + "/"
			df := r.S[0].sub(lib).diff(r.S[1].sub(lib))
			switch {
			case len(bad) == 0:
			case crashed(r.R[0]):
				return "crash", fmt.Sprintf("%v: the command crashed: %s", bad, tail(r.R[0].all(), 400))
			case r.R[0].Code != 0 && len(df) > 0:
				return "library", fmt.Sprintf("%v: the command failed but the library changed: %v", bad, df)
			case r.R[0].Code != 0:
			case broken:
				return "acted-on", fmt.Sprintf("%v: a package list could not be fetched, yet the command went on: R events: %s; output: %s", bad, evLine(r.R[0].Evs), tail(r.R[0].all(), 500))
			case notFound:
				if sig, msg := anyOf(d2.judgeInstall(ref2, r.R[0], r.S[0], r.S[1]), all...); sig != "" {
					return "acted-on:" + sig, fmt.Sprintf("%v: %s", bad, msg)
				}
				return "", "" // the repository has no such list: it may be remembered so
			}
			if len(bad) == 0 {
				return "", ""
			}
			if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), all...); sig != "" {
				if notFound {
					// a list that does not exist may be remembered, whatever else failed
					for m := 1; m < 1<<len(d2.Repos); m++ {
						d3 := d2
						d3.Repos = append([]DRepo{}, f.d.Repos...)
						for x := range d3.Repos {
							if m>>x&1 != 0 {
								d3.Repos[x] = d2.Repos[x]
							}
						}
						if s2, _ := anyOf(d3.judgeInstall(d3.ref(), r.R[1], r.S[1], r.S[2]), all...); s2 == "" {
							return "", ""
						}
					}
				}
				return "remembered:" + sig, fmt.Sprintf("after %v a healthy install: %s", bad, msg)
			}
			return "", ""
		}
		return k
	})
	c.Bound("%s: every combination of the outcomes ok, %v of the %d package lists (%d), then a healthy install", f.name, modes[1:], len(lists), m)
}

// damagedDb truncates and replaces cached databases in every way.
func (c *Ctx) damagedDb(f *fbase, wd *World, sc *Scen) {
	ref := f.d.ref()
	r := c.runKase(c.W[0], &Kase{ID: f.name, World: wd, Scen: sc, Steps: []Step{{Opts: Opts{Args: []string{"plan"}}}}}, false)
	db := r.end().sub(dbDir + "/")
	type job struct {
		file string
		how  int // >=0 length kept
	}
	var jobs []job
	for _, p := range sortedKeys(db) {
		if p == "" || strings.HasSuffix(p, "/") {
			continue
		}
		for l := 0; l < len(db[p]); l += 1 {
			if c.quick() && l > 40 && l < len(db[p])-40 && l%3 != 0 {
				continue
			}
			jobs = append(jobs, job{p, l})
		}
		for h := -1; h >= -6; h-- {
			jobs = append(jobs, job{p, h})
		}
	}
	c.Cases(len(jobs), pick(c, 3, 12), func(i int) *Kase {
		j := jobs[i]
		w2 := wd.clone()
		for p, v := range db {
			if p != "" && !strings.HasSuffix(p, "/") {
				w2.Files[dbDir+"/"+p] = []byte(v)
			}
		}
		full, what := dbDir+"/"+j.file, fmt.Sprintf("cut to %d of %d bytes", j.how, len(db[j.file]))
		switch j.how {
		case -1:
			w2.Files[full], what = []byte("not a database"), "replaced by text"
		case -2:
			w2.Files[full], what = []byte(strings.Repeat("\x00", len(db[j.file]))), "zeroed"
		case -3:
			w2.Files[full], what = []byte(strings.Repeat("\xff", 100)), "garbage"
		case -4:
			b := []byte(db[j.file])
			for x := len(b) / 2; x < len(b); x++ {
				b[x] = 0
			}
			w2.Files[full], what = b, "half zeroed"
		case -5:
			delete(w2.Files, full)
			w2.Link[full] = "/nonexistent"
			what = "a dangling link"
		case -6:
			w2.Mode[full], what = 0, "unreadable"
		default:
			w2.Files[full] = w2.Files[full][:j.how]
		}
		k := &Kase{ID: fmt.Sprintf("%s-db-%s-%d", f.name, j.file, j.how), World: w2, Scen: sc, Desc: f.d.YAML()}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), "set", "source", "update", "content", "crash"); sig != "" {
				return "damaged:" + sig, fmt.Sprintf("cached database %s: %s", what, msg)
			}
			return "", ""
		}
		return k
	})
	// the place of the databases cannot be used at all: the command may give up, but not crash or act
	var blocks []string
	for p := range db {
		if p != "" && !strings.HasSuffix(p, "/") {
			blocks = append(blocks, dbDir+"/"+p+"/x/y")
		}
	}
	sort.Strings(blocks)
	blocks = append(blocks, dbDir, "xdg/pkgr", "0:"+dbDir, "0:xdg/pkgr", "0:xdg")
	c.Cases(len(blocks), 4, func(i int) *Kase {
		b := blocks[i]
		w2 := wd.clone()
		if p, ok := strings.CutPrefix(b, "0:"); ok {
			w2.Files[p+"/"] = nil
			w2.Mode[p+"/"] = 0
		} else {
			w2.Files[b] = []byte("in the way")
		}
		k := &Kase{ID: f.name + "-blocked-" + b, World: w2, Scen: sc, Desc: f.d.YAML()}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		k.Judge = func(r *Run) (string, string) {
			if crashed(r.R[0]) {
				return "crash:blocked", fmt.Sprintf("%s in the way: the command crashed: %s", b, tail(r.R[0].all(), 600))
			}
			if r.R[0].Code != 0 {
				if df := r.S[0].sub("proj/").diff(r.S[1].sub("proj/")); len(df) > 0 {
					return "changed:blocked", fmt.Sprintf("%s in the way: the command failed but changed %v", b, df)
				}
				return "", ""
			}
			if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), "set", "source", "update", "content", "crash"); sig != "" {
				return "blocked:" + sig, b + " in the way: " + msg
			}
			return "", ""
		}
		return k
	})
	c.Bound("%s: each of %d cached databases cut to every length (quick: every third in the middle), and replaced by text, zeros, garbage, half zeros, a dangling link, an unreadable file: %d start states", f.name, len(db)-1, len(jobs))
}

// expiry compares cached databases of every age with every limit, the repository having changed.
func (c *Ctx) expiry(f *fbase, wd *World, sc *Scen) {
	limits := []string{"", "0", "1", "30", "100", "3600", "100000", "-5", "abc", ""}
	ages := []time.Duration{-time.Hour, 0, 20 * time.Second, 50 * time.Second, 200 * time.Second, 3500 * time.Second, 3700 * time.Second, 100 * time.Hour}
	d2 := *f.d
	d2.bump("A")
	d2.bump("B")
	for i := range d2.Repos {
		bs := append([]Pkg{}, d2.Repos[i].Bin...)
		for j := range bs {
			bs[j].Ver = strings.Replace(bs[j].Ver, ".", "1.", 1)
			bs[j].Variant += "+"
		}
		d2.Repos[i].Bin = bs
		if len(bs) == 0 {
			d2.Repos[i].Bin = f.d.Repos[i].Bin
		}
	}
	w2, s2 := newWorld(), &Scen{}
	d2.addRepos(w2, s2, "www2")
	w3 := wd.clone()
	for p, b := range w2.Files {
		w3.Files[p] = b
	}
	ref, ref2 := f.d.ref(), d2.ref()
	c.Cases(len(limits)*len(ages), 6, func(i int) *Kase {
		lim, age := limits[i%len(limits)], ages[i/len(limits)]
		k := &Kase{ID: fmt.Sprintf("%s-expiry-%s-%v", f.name, lim, age), World: w3, Scen: sc, Desc: f.d.YAML()}
		var env []string
		secs := 3600
		if lim != "" {
			env = append(env, "R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE="+lim)
			if lim != "abc" {
				fmt.Sscan(lim, &secs)
			}
		}
		k.Steps = []Step{{Opts: Opts{Args: []string{"plan"}}}, {Opts: Opts{Args: []string{"install"}, Scen: s2, Env: env}, Pre: func(w *Worker) {
			l, _ := filepath.Glob(w.P(dbDir, "*"))
			for _, x := range l {
				t := time.Now().Add(-age)
				os.Chtimes(x, t, t)
			}
		}}}
		k.Judge = func(r *Run) (string, string) {
			sig2, msg2 := anyOf(d2.judgeInstall(ref2, r.R[1], r.B[1], r.S[2]), "set", "source", "update", "content", "crash")
			if sig2 == "" {
				return "", ""
			}
			if age < time.Duration(secs)*time.Second {
				// young enough to be used; then it must be used as it is
				if r.R[1].Code != 0 {
					return "", "" // an archive the old list names may be gone
				}
				if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[1], r.B[1], r.S[2]), "set", "source", "update", "content", "crash"); sig != "" {
					return "mixed:" + sig, msg
				}
				return "", ""
			}
			return "stale:" + sig2, fmt.Sprintf("a database cached %v ago was used although the limit is %d s: %s", age, secs, msg2)
		}
		return k
	})
	c.Bound("%s: ages %v of cached databases x limits %q, the repository having changed", f.name, ages, limits)
}

func init() {
	checks["C14"] = checkDef{title: "package databases", run: runC14}
}
