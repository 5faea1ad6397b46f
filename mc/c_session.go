package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

// ---- C31: the R sessions of `pkgr run` and `pkgr load` ----

type sessLib struct {
	name, yaml string
	args, env  []string
	want       string
}

type sessR struct {
	name, yaml, exe, rdir string
	env                   []string
}

// sessEnv judges the environment of a session: the caller's and what is customized.
func sessEnv(env, caller, cust map[string]string, rdir string, libs bool) (string, string) {
	names := map[string]bool{}
	for _, m := range []map[string]string{env, cust, caller} {
		for k := range m {
			names[k] = true
		}
	}
	var l []string
	for k := range names {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		got, has := env[k]
		cv, customized := cust[k]
		want, called := caller[k]
		switch {
		case k == "PWD" || strings.HasPrefix(k, "MC_S") || strings.HasPrefix(k, "MC_L") || strings.HasPrefix(k, "MC_G") || k == "GOMAXPROCS" || k == "GOGC":
		case libs && (k == "R_LIBS" || k == "R_LIBS_USER" || k == "R_LIBS_SITE"):
		case customized:
			if got != cv || !has && cv != "" {
				return "custom", fmt.Sprintf("the customized %s is %q (set: %v), want %q", k, got, has, cv)
			}
		case k == "PATH" && rdir != "":
			if got != want && got != rdir+":"+want || !strings.HasPrefix(got+":", rdir+":") {
				return "path", fmt.Sprintf("PATH is %q: want the directory %s of R before %q", got, rdir, want)
			}
		case called:
			if got != want {
				return "caller", fmt.Sprintf("the caller's %s is %q (set: %v), want %q", k, got, has, want)
			}
		default:
			return "extra", fmt.Sprintf("%s=%q comes neither from the caller nor from a customization", k, got)
		}
	}
	return "", ""
}

func runC31(c *Ctx) {
	vars := [][]string{nil,
		{"R_LIBS_USER=@ROOT@/other"}, {"R_LIBS_SITE=@ROOT@/other"}, {"R_LIBS=@ROOT@/other"}, {"R_LIBS=@ROOT@/other", "R_LIBS_SITE=@ROOT@/other2", "R_LIBS_USER=@ROOT@/other2:@ROOT@/other"},
		{"FOO=caller", "BAR=caller"}, {"FOO=a=b=c"}, {"FOO= spaced out "}, {"foo=lower", "FOO=upper"}, {"FOO=line1\nline2"}, {"FOO="},
		{"GITHUB_TOKEN=sekret", "AWS_SECRET_KEY=a=b"}, {"R_PROFILE_USER=~/p", "R_ENVIRON_USER=x", "R_HOME=/x"}, oddEnv}
	type cu map[string][]string
	custs := []cu{nil, {"A": {"FOO: a"}}, {"A": {"FOO: a", "BAR: \"x=y z\""}, "B": {"FOO: b"}}, {"T": {"FOO: t"}, "A": {"GITHUB_TOKEN: mine"}}, {"B": {"BAR: \"\"", "foo: low"}}, {"a": {"FOO: lower"}, "A": {"BAR: upper"}}, {"A#1": {"FOO: a", "BAR: a1"}, "A#2": {"BAR: a2", "foo: low"}, "B": {"FOO: b"}}}
	pkgs := []string{"", "A", "B", "T", "a", "Zed"}
	libs := []sessLib{
		{"config", "Library: lib", nil, nil, "proj/lib"},
		{"equals", "Library: lib=x", nil, nil, "proj/lib=x"},
		{"space", "Library: lib with space", nil, nil, "proj/lib with space"},
		{"absolute", "Library: \"@ROOT@/away/lib2\"", nil, nil, "away/lib2"},
		{"tilde", "Library: ~/hl", nil, nil, "home/hl"},
		{"cli", "Library: lib", []string{"--library", "@ROOT@/away/lib2"}, nil, "away/lib2"},
		{"cli-tilde", "Library: lib", []string{"--library=~/lib2"}, nil, "home/lib2"},
		{"env-only", "", nil, []string{"PKGR_LIBRARY=@ROOT@/away/lib3"}, "away/lib3"},
		{"renv", "Lockfile:\n  Type: renv", nil, nil, "proj/renv/library/R-4.3"},
		{"packrat", "Lockfile:\n  Type: packrat", nil, nil, "proj/packrat/lib/x86_64-pc-linux-gnu/4.3.1"},
	}
	rs := []sessR{
		{name: "path", exe: "bin/R"},
		{name: "absolute", yaml: "RPath: \"@ROOT@/bin2/R\"", exe: "bin2/R", rdir: "bin2"},
		{name: "bare", yaml: "RPath: R", exe: "bin/R"},
		{name: "tilde", yaml: "RPath: ~/r/R", exe: "home/r/R", rdir: "home/r"},
		{name: "variable", env: []string{"PKGR_RPATH=@ROOT@/bin2/R"}, exe: "bin2/R", rdir: "bin2"},
		{name: "prefix", yaml: "RPath: \"@ROOT@/bin2/R\"", exe: "bin2/R", rdir: "bin2", env: []string{"PATH=@ROOT@/bin2x:@ROOT@/bin:/usr/bin:/bin"}},
		{name: "second", env: []string{"PATH=@ROOT@/bin2:@ROOT@/bin:/usr/bin:/bin"}, exe: "bin2/R"},
	}
	wheres := pathWheres("proj", "pkgr.yml")
	states := []string{"none", "installed", "wrong", "broken", "installed, other settings"}
	size, dg := product(len(vars), len(custs), len(pkgs), len(libs), len(rs), len(wheres), len(states))
	keep := func(x []int) bool {
		n := 0
		for _, d := range x[3:] {
			if d > 0 {
				n++
			}
		}
		if c.quick() {
			return n == 0 || n == 1 && x[0] < 6 && (x[1] == 2 && x[2] < 3 || x[1]+x[2] == 0) || n == 2 && x[0]%4 == 0 && x[0] < 5 && x[1] == 2 && x[2] < 2
		}
		return n <= 1 || n == 2 && x[0] < 6 && x[2] < 4 || x[0]%4 == 0 && x[0] < 5 && x[1] < 3 && x[2] < 3
	}
	var idx []int
	for i := 0; i < size; i++ {
		if keep(dg(i)) {
			idx = append(idx, i)
		}
	}
	c.Bound("pkgr run: %d environments of the caller x %d sets of customized variables x %d values of --pkg x %d sources of the library x %d ways to name R x %d ways to run pkgr x %d states of the library (none, complete, foreign packages, files that are not packages, complete with every general setting set): %d of %d (all of the first three, the others one or two at a time)", len(vars), len(custs), len(pkgs), len(libs), len(rs), len(wheres), len(states), len(idx), size)
	c.Cases(len(idx), pick(c, 10, 60), func(i int) *Kase {
		x := dg(idx[i])
		cs, pk, lb, r, wh, st := custs[x[1]], pkgs[x[2]], libs[x[3]], rs[x[4]], wheres[x[5]], states[x[6]]
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{{Name: "R1", Src: envCustPkgs}}, Tarballs: []Pkg{{Name: "T", Ver: "1.0", Imports: "B"}}, Library: "LIBRARYLINE"}
		for _, p := range sortedKeys(cs) {
			// there may be several entries
			n, _, _ := strings.Cut(p, "#")
			d.Cust = append(d.Cust, PkgCust{Pkg: n, Env: cs[p]})
		}
		if r.yaml != "" {
			d.Extra = append(d.Extra, r.yaml)
		}
		if st == "installed, other settings" {
			d.bystanders()
		}
		wd, sc := d.build()
		wd.Add("proj/pkgr.yml", strings.Replace(string(wd.Files["proj/pkgr.yml"]), "Library: LIBRARYLINE", lb.yaml, 1))
		for _, b := range []string{"bin2", "bin2x", "home/r"} {
			wd.addR(b, "4.3.1")
		}
		wd.Add("other/place/", "")
		wd.Add("away/", "")
		wd.addInstalled("other", Pkg{Name: "B", Ver: "0.1"}, false)
		wd.addInstalled("other2", Pkg{Name: "A", Ver: "0.1"}, false)
		switch st {
		case "installed", "installed, other settings":
			for _, p := range append(append([]Pkg{}, envCustPkgs...), Pkg{Name: "T", Ver: "1.0"}) {
				wd.addInstalled(lb.want, p, true)
			}
		case "wrong":
			wd.addInstalled(lb.want, Pkg{Name: "A", Ver: "0.1"}, false)
			wd.addInstalled(lb.want, Pkg{Name: "Q", Ver: "0.1"}, false)
		case "broken":
			wd.Add(lb.want+"/A/DESCRIPTION", "not a description")
			wd.Add(lb.want+"/B", "a file")
		}
		sc.Renv = "<cwd>/renv/library/R-4.3"
		args := append([]string{"run"}, lb.args...)
		if pk != "" {
			if x[0]%2 == 0 {
				args = append(args, "--pkg", pk)
			} else {
				args = append(args, "--pkg="+pk)
			}
		}
		env := append(append(append([]string{}, vars[x[0]]...), r.env...), lb.env...)
		stdin := "x <- 1\nq()\n"
		o := Opts{Args: wh.args(args...), Dir: wh.dir, Env: env, Stdin: stdin}
		id := fmt.Sprintf("run %v: %v, caller %v, customized %v, library from %s, R %s, library %s, run %s", x, args, vars[x[0]], cs, lb.name, r.name, st, wh.name)
		return &Kase{ID: id, World: wd, Scen: sc, Desc: d, Steps: []Step{{Opts: o}},
			Judge: func(run *Run) (string, string) {
				res, w := run.last(), run.W
				if crashed(res) || res.Verdict != "" {
					return "run:crash", id + ": " + tail(res.all(), 400)
				}
				var se []Ev
				for _, e := range res.Evs {
					switch {
					case e.T == "rstart" && e.Kind == "session":
						se = append(se, e)
					case e.T == "rstart" && (e.Kind == "install" || e.Kind == "library"), e.T == "http":
						return "run:more", fmt.Sprintf("%s: more than a session: %s %s %s %s", id, e.T, e.Kind, e.Pkg, e.URL)
					}
				}
				if len(se) != 1 {
					return "run:sessions", fmt.Sprintf("%s: %d interactive sessions of R were started, exit %d: %s", id, len(se), res.Code, tail(res.all(), 300))
				}
				e := se[0]
				if exe, err := filepath.EvalSymlinks(e.Exe); err != nil || exe != w.P(r.exe) {
					return "run:r", fmt.Sprintf("%s: started %s, want %s", id, e.Exe, w.P(r.exe))
				}
				if e.Dir != w.P("proj") && e.Dir != w.P(wh.dir) {
					return "run:dir", fmt.Sprintf("%s: R runs in %s", id, e.Dir)
				}
				if e.In != stdin {
					return "run:stdin", fmt.Sprintf("%s: the session read %q, want %q", id, e.In, stdin)
				}
				if !strings.Contains(res.Out, "session read "+stdin) || !strings.Contains(res.Err, "session ends\n") {
					return "run:output", fmt.Sprintf("%s: the session's output did not reach the caller: %s", id, tail(res.all(), 300))
				}
				cust := map[string]string{}
				if pk != "" {
					for _, p := range sortedKeys(cs) {
						if n, _, _ := strings.Cut(p, "#"); n != pk {
							continue
						}
						for _, v := range cs[p] {
							key, val, _ := strings.Cut(v, ": ")
							cust[key] = strings.Trim(val, `"`)
						}
					}
				}
				rdir := ""
				if r.rdir != "" {
					rdir = w.P(r.rdir)
				}
				caller := w.callerEnv(o)
				em := envMap(e.Env)
				if sig, msg := sessEnv(em, caller, cust, rdir, true); sig != "" {
					return "run:" + sig, id + ": " + msg
				}
				if em["R_LIBS_USER"] == "" || em["R_LIBS_SITE"] == "" {
					return "run:default-library", fmt.Sprintf("%s: R_LIBS_USER %q, R_LIBS_SITE %q: what is not set R gives a default", id, em["R_LIBS_USER"], em["R_LIBS_SITE"])
				}
				seen := false
				for _, p := range strings.Split(strings.Join([]string{em["R_LIBS"], em["R_LIBS_USER"], em["R_LIBS_SITE"]}, ":"), ":") {
					if p == "" || strings.HasPrefix(p, w.P("tmp")+"/") && !run.end().has("/"+strings.TrimPrefix(p, w.Root+"/")+"/") {
						// R's own library only: nothing is in that directory
						continue
					}
					if !filepath.IsAbs(p) {
						p = filepath.Join(e.Dir, p)
					}
					if filepath.Clean(p) != w.P(lb.want) {
						return "run:foreign-library", fmt.Sprintf("%s: the search path has %s, want %s only", id, p, w.P(lb.want))
					}
					seen = true
				}
				if !seen {
					return "run:library", fmt.Sprintf("%s: the search path (R_LIBS_SITE %q) lacks %s", id, em["R_LIBS_SITE"], w.P(lb.want))
				}
				for _, df := range run.S[0].diff(run.end()) {
					if q := df[1:]; !strings.HasPrefix(q, "tmp/") && !strings.HasPrefix(q, "xdg/") && q != "xdg" {
						return "run:changes", id + ": " + df
					}
				}
				return "", ""
			}}
	})
	if !c.timeLeft() {
		return
	}
	// an R that cannot be started
	bad := []string{"@ROOT@/none/R", "@ROOT@/proj", "@ROOT@/notexec", "noSuchR", "@ROOT@/proj/pkgr.yml/R"}
	c.Bound("pkgr run with %d values of RPath at which there is no R to run: never a silent success", len(bad))
	c.Cases(len(bad)*2, 2, func(i int) *Kase {
		b := bad[i/2]
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "R1", Src: envCustPkgs}}, Extra: []string{"RPath: \"" + b + "\""}}
		wd, sc := d.build()
		wd.Add("notexec", "#!/bin/sh\n")
		args := []string{"run"}
		if i%2 == 1 {
			args = append(args, "--pkg=A")
		}
		id := fmt.Sprintf("%v with RPath %s", args, b)
		return &Kase{ID: id, World: wd, Scen: sc, Desc: d, Steps: []Step{{Opts: Opts{Args: args}}},
			Judge: func(run *Run) (string, string) {
				res := run.last()
				if res.Verdict != "" || crashed(res) {
					return "run:crash", id + ": " + tail(res.all(), 300)
				}
				for _, e := range res.Evs {
					if e.T == "rstart" && e.Kind == "session" {
						return "run:other-r", id + ": started " + e.Exe
					}
				}
				if res.Code == 0 {
					return "run:silent", fmt.Sprintf("%s: R could not be started, exit 0: %q", id, tail(res.all(), 300))
				}
				return "", ""
			}}
	})
	if !c.timeLeft() {
		return
	}
	// pkgr load: R as if it were called by hand where the configuration is
	lvars := append(append([][]string{}, vars...), []string{"R_LIBS_USER=@ROOT@/proj/lib", "R_LIBS=~/x", "R_PROFILE=@ROOT@/prof"})
	threads := []int{0, 1, 3}
	flags := [][]string{nil, {"--json"}, {"--all"}, {"--all", "--json"}}
	n, dg2 := product(len(lvars), len(rs), len(wheres), len(threads), len(flags))
	keep2 := func(x []int) bool {
		k := 0
		for _, d := range x {
			if d > 0 {
				k++
			}
		}
		return k <= pick(c, 2, 4)
	}
	var idx2 []int
	for i := 0; i < n; i++ {
		if keep2(dg2(i)) {
			idx2 = append(idx2, i)
		}
	}
	c.Bound("pkgr load: %d environments x %d ways to name R x %d ways to run pkgr x %d numbers of threads x %d switches, %d at a time: %d of %d", len(lvars), len(rs), len(wheres), len(threads), len(flags), pick(c, 2, 4), len(idx2), n)
	c.Cases(len(idx2), pick(c, 6, 30), func(i int) *Kase {
		x := dg2(idx2[i])
		r, wh := rs[x[1]], wheres[x[2]]
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{{Name: "R1", Src: envCustPkgs}}, Threads: threads[x[3]], Cust: []PkgCust{{Pkg: "A", Env: []string{"FOO: customized", "BAR: customized"}}}}
		if r.yaml != "" {
			d.Extra = append(d.Extra, r.yaml)
		}
		for _, p := range envCustPkgs {
			d.Installed = append(d.Installed, p)
		}
		wd, sc := d.build()
		for _, b := range []string{"bin2", "bin2x", "home/r"} {
			wd.addR(b, "4.3.1")
		}
		wd.Add("other/place/", "")
		sc.LibPaths = []string{"@ROOT@/proj/lib"}
		env := append(append([]string{}, lvars[x[0]]...), r.env...)
		args := append([]string{"load"}, flags[x[4]]...)
		o := Opts{Args: wh.args(args...), Dir: wh.dir, Env: env}
		id := fmt.Sprintf("load %v: %v, caller %v, R %s, run %s", x, args, lvars[x[0]], r.name, wh.name)
		return &Kase{ID: id, World: wd, Scen: sc, Desc: d, Steps: []Step{{Opts: o}},
			Judge: func(run *Run) (string, string) {
				res, w := run.last(), run.W
				if crashed(res) || res.Verdict != "" {
					return "load:crash", id + ": " + tail(res.all(), 400)
				}
				got := map[string]int{}
				for _, e := range res.Evs {
					if e.T != "rstart" || e.Kind == "version" {
						continue
					}
					if exe, err := filepath.EvalSymlinks(e.Exe); err != nil || exe != w.P(r.exe) && exe != w.P(r.exe)+"script" {
						return "load:r", fmt.Sprintf("%s: started %s, want %s", id, e.Exe, w.P(r.exe))
					}
					if e.Dir != w.P("proj") {
						return "load:dir", fmt.Sprintf("%s: R for %s runs in %s, not where the configuration is", id, e.Pkg, e.Dir)
					}
					if sig, msg := sessEnv(envMap(e.Env), w.callerEnv(o), nil, "", false); sig != "" {
						return "load:" + sig, id + ": " + msg
					}
					for _, a := range e.Argv {
						if a == "--vanilla" || a == "--no-init-file" || a == "--no-environ" || a == "--no-site-file" {
							return "load:startup", fmt.Sprintf("%s: R is told %s, so it does not read what configures its library paths", id, a)
						}
					}
					if e.Kind == "library" {
						got[e.Pkg]++
					}
				}
				want := []string{"A", "C"}
				if strings.Contains(strings.Join(args, " "), "--all") {
					want = []string{"A", "B", "C"}
				}
				if g := strings.Join(sortedKeys(got), " "); g != strings.Join(want, " ") {
					return "load:packages", fmt.Sprintf("%s: loaded %q, want %v: %s", id, g, want, tail(res.all(), 300))
				}
				return "", ""
			}}
	})
}

func init() {
	checks["C31"] = checkDef{title: "R sessions", run: runC31}
}

// bystanders sets every general setting.
func (d *Decl) bystanders() {
	d.Suggests, d.NoRec, d.NoUpdate, d.Threads = true, true, true, 2
	d.Extra = append(d.Extra, "Strict: true", "NoRollback: true", "NoSecure: true", "IgnorePackages:\n  - Zzz")
}
