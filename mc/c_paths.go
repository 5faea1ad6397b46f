package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- C21: paths and switches ----

// pathForm writes a place differently. dir is where the file named is, below
// the root; text what the configuration says.
type pathForm struct {
	name string
	of   func(x string) (place, text string) // x: base name
	env  []string
	pre  map[string]string // further files or (ending in /) directories
	link map[string]string
	dir  bool // directories only
}

func pathForms(c *Ctx, conf string) []pathForm {
	// conf: directory of the configuration below the root
	up := ""
	for range strings.Split(conf, "/") {
		up += "../"
	}
	l := []pathForm{
		{name: "relative", of: func(x string) (string, string) { return conf + "/" + x, x }},
		{name: "dot", of: func(x string) (string, string) { return conf + "/" + x, "./" + x }},
		{name: "deep", of: func(x string) (string, string) { return conf + "/in/one/" + x, "in/one/" + x }, pre: map[string]string{conf + "/in/one/": ""}},
		{name: "up", of: func(x string) (string, string) { return "away/" + x, up + "away/" + x }, pre: map[string]string{"away/": ""}},
		{name: "updown", of: func(x string) (string, string) { return conf + "/" + x, "in/../" + x }, pre: map[string]string{conf + "/in/": ""}},
		{name: "absolute", of: func(x string) (string, string) { return "away/" + x, "@ROOT@/away/" + x }, pre: map[string]string{"away/": ""}},
		{name: "tilde", of: func(x string) (string, string) { return "home/" + x, "~/" + x }},
		{name: "tilde-deep", of: func(x string) (string, string) { return "home/a b/" + x, "~/a b/" + x }, pre: map[string]string{"home/a b/": ""}},
		{name: "braces", of: func(x string) (string, string) { return "away/" + x, "${MC_PLACE}/" + x }, env: []string{"MC_PLACE=@ROOT@/away"}, pre: map[string]string{"away/": ""}},
		{name: "dollar", of: func(x string) (string, string) { return "away/v/" + x, "$MC_PLACE/" + x }, env: []string{"MC_PLACE=@ROOT@/away/v"}, pre: map[string]string{"away/v/": ""}},
		{name: "inner", of: func(x string) (string, string) { return conf + "/v-4.3/" + x, "v-${MC_V}/" + x }, env: []string{"MC_V=4.3"}, pre: map[string]string{conf + "/v-4.3/": ""}},
		{name: "undefined", of: func(x string) (string, string) { return conf + "/" + x, "./${MC_NOWHERE}" + x }},
		{name: "env-tilde", of: func(x string) (string, string) { return "home/" + x, "${MC_HOME}/" + x }, env: []string{"MC_HOME=~"}},
		{name: "space", of: func(x string) (string, string) { return conf + "/my dir/" + x, "my dir/" + x }, pre: map[string]string{conf + "/my dir/": ""}},
		{name: "glob", of: func(x string) (string, string) { return conf + "/d[ab]*?/" + x, "\"d[ab]*?/" + x + "\"" }, pre: map[string]string{conf + "/d[ab]*?/": ""}},
		{name: "odd", of: func(x string) (string, string) { return conf + "/a=b,c'd+%20é/" + x, "\"a=b,c'd+%20é/" + x + "\"" }, pre: map[string]string{conf + "/a=b,c'd+%20é/": ""}},
		{name: "link", of: func(x string) (string, string) { return "away/" + x, "ln/" + x }, pre: map[string]string{"away/": ""}, link: map[string]string{conf + "/ln": "@ROOT@/away"}},
		{name: "slash", of: func(x string) (string, string) { return conf + "/" + x, x + "/" }, dir: true},
		{name: "slashes", of: func(x string) (string, string) { return conf + "/in/" + x, "in//" + x }, pre: map[string]string{conf + "/in/": ""}},
	}
	return l
}

// pathSettings are the settings that are paths.
var pathSettings = []string{"Library", "Cache", "RPath", "Tarballs", "Descriptions", "all", "install"}

var pathDirs = map[string]bool{"Library": true, "Cache": true}

// pathWhere is a way to run a command.
type pathWhere struct {
	name, dir, arg string
	home           bool
}

func pathWheres(conf, file string) []pathWhere {
	f := conf + "/" + file
	l := []pathWhere{
		{name: "elsewhere", dir: "other/place", arg: "../../" + f},
		{name: "parent", dir: ".", arg: f},
		{name: "absolute", dir: "other/place", arg: "@ROOT@/" + f},
		{name: "named", dir: conf, arg: file},
		{name: "equals", dir: "other/place", arg: "=@ROOT@/" + f},
		{name: "tilde", dir: "other/place", arg: "~/../" + f},
	}
	if file == "pkgr.yml" {
		l = append([]pathWhere{{name: "here", dir: conf}}, l...)
	}
	return l
}

func (w pathWhere) args(cmd ...string) []string {
	switch {
	case w.arg == "":
		return cmd
	case w.arg[0] == '=':
		return append(cmd, "--config"+w.arg)
	}
	return append(cmd, "--config", w.arg)
}

// pathWorld is a project in the directory conf with every path setting; chosen
// settings use the form.
func pathWorld(conf, file string, forms map[string]*pathForm) (wd *World, sc *Scen, place map[string]string, env []string) {
	d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}, {Name: "E", Ver: "1.0"}, {Name: "F", Ver: "1.0"}}}}}
	wd, sc = d.build()
	delete(wd.Files, "proj/pkgr.yml")
	delete(wd.Files, "proj/pkgr.yml/")
	place = map[string]string{}
	text := map[string]string{}
	base := map[string]string{"Library": "lib", "Cache": "pcache", "RPath": "rhome/R", "Tarballs": "T_1.0.tar.gz", "Descriptions": "DESCRIPTION", "all": "all.log", "install": "inst.log"}
	for _, s := range pathSettings {
		f := forms[s]
		p, t := "std/"+base[s], "@ROOT@/std/"+base[s]
		if f != nil {
			p, t = f.of(base[s])
			env = append(env, f.env...)
			for k, v := range f.pre {
				wd.Add(k, v)
			}
			for k, v := range f.link {
				wd.Link[k] = v
			}
		}
		if s == "RPath" {
			dir := filepath.Dir(p)
			wd.addR(dir, "4.3.1")
		}
		place[s], text[s] = p, t
	}
	wd.Add("std/", "")
	wd.Add("other/place/", "")
	t := Pkg{Name: "T", Ver: "1.0", Imports: "E"}
	wd.Files[place["Tarballs"]] = t.Tgz()
	wd.Files[place["Descriptions"]] = []byte(Pkg{Name: "U", Ver: "1.0", Imports: "F"}.Desc())
	y := "Version: 1\nPackages:\n  - A\nRepos:\n  - CRAN: http://cran.example\n"
	for _, s := range []string{"Library", "Cache", "RPath"} {
		y += s + ": " + text[s] + "\n"
	}
	for _, s := range []string{"Tarballs", "Descriptions"} {
		y += s + ":\n  - " + text[s] + "\n"
	}
	y += "Logging:\n  all: " + text["all"] + "\n  install: " + text["install"] + "\n"
	wd.Add(conf+"/"+file, y)
	return
}

// pathOracle compares the effects of a command with the intended places.
func pathOracle(what string, cmd string, r *Result, root string, before, after Snap, place map[string]string) (string, string) {
	if crashed(r) || r.Verdict != "" {
		return "crash", what + ": " + r.Verdict + tail(r.all(), 400)
	}
	if r.Code != 0 {
		return "exit", fmt.Sprintf("%s: exit status %d: %s", what, r.Code, tail(r.all(), 400))
	}
	for _, e := range r.Evs {
		if e.T == "rstart" {
			if filepath.Clean(e.Exe) != filepath.Clean(root+"/"+place["RPath"]) {
				real, _ := filepath.EvalSymlinks(e.Exe)
				if real != root+"/"+place["RPath"] {
					return "RPath", fmt.Sprintf("%s: %s was run, the configured R is %s", what, e.Exe, root+"/"+place["RPath"])
				}
			}
		}
		if e.T == "baddir" {
			return "rdir", what + ": R was run in a directory that does not exist: " + e.Dir
		}
	}
	var allowed []string
	allow := func(p ...string) { allowed = append(allowed, p...) }
	allow("xdg/", "tmp/", place["Cache"]+"/")
	switch cmd {
	case "install":
		allow(place["Library"]+"/", place["install"])
		want := []string{"A", "B", "E", "F", "T"}
		var got []string
		for k := range after {
			if strings.HasPrefix(k, place["Library"]+"/") && strings.HasSuffix(k, "/DESCRIPTION") {
				got = append(got, strings.Split(k[len(place["Library"])+1:], "/")[0])
			}
		}
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return "Library", fmt.Sprintf("%s: the library %s has %v rather than %v: %s", what, place["Library"], got, want, tail(r.all(), 400))
		}
		ok := false
		for k := range after {
			if strings.HasPrefix(k, place["Cache"]+"/") && strings.HasSuffix(k, "/src/A_1.0.tar.gz") {
				ok = true
			}
		}
		if !ok {
			return "Cache", what + ": the archive of A is not in the cache " + place["Cache"]
		}
		if after[place["install"]] == "" {
			return "install", what + ": nothing was logged in " + place["install"]
		}
	case "clean":
		for k := range after {
			if strings.HasPrefix(k, place["Cache"]+"/") && strings.HasSuffix(k, "A_1.0.tar.gz") {
				return "Cache", what + ": " + k + " is still in the cache"
			}
		}
		allow(place["all"])
	case "add":
		allow(place["all"])
		for k := range after {
			if before[k] != after[k] && strings.Contains(after[k], "- Q") {
				allow(k)
			}
		}
	default:
		allow(place["all"])
	}
	for _, dline := range before.diff(after) {
		k := dline[1:]
		ok := false
		for _, a := range allowed {
			ok = ok || k == a || strings.HasSuffix(a, "/") && strings.HasPrefix(k, a) || strings.HasPrefix(a, k) && strings.HasSuffix(k, "/") || k == strings.TrimSuffix(a, "/")
		}
		if !ok {
			return "elsewhere", fmt.Sprintf("%s: %s", what, dline)
		}
	}
	return "", ""
}

func runC21(c *Ctx) {
	confs := [][2]string{{"proj", "pkgr.yml"}, {"proj/sub/my conf", "other.yaml"}}
	type one struct {
		conf  [2]string
		form  int
		set   string // setting, or "" for all of them
		where int
	}
	var l []one
	for ci, cf := range confs {
		nf, nw := len(pathForms(c, cf[0])), len(pathWheres(cf[0], cf[1]))
		for f := 0; f < nf; f++ {
			for s := 0; s <= len(pathSettings); s++ {
				for w := 0; w < nw; w++ {
					if c.quick() && (f+s+w+ci)%2 == 1 && w > 1 {
						continue
					}
					x := one{cf, f, "", w}
					if s < len(pathSettings) {
						x.set = pathSettings[s]
						if pathForms(c, cf[0])[f].dir && !pathDirs[x.set] {
							continue
						}
					} else if pathForms(c, cf[0])[f].dir {
						continue
					}
					l = append(l, x)
				}
			}
		}
	}
	c.Bound("%d ways to write a path x %d path settings alone or all at once x ways to name the configuration (from its directory, elsewhere, the parent; relative, absolute, tilde) x 2 places of the configuration; commands install, plan, inspect, load, add, clean cache one after another: %d", len(pathForms(c, "proj")), len(pathSettings), len(l))
	c.Cases(len(l), pick(c, 24, 96), func(i int) *Kase {
		x := l[i]
		f := pathForms(c, x.conf[0])[x.form]
		wh := pathWheres(x.conf[0], x.conf[1])[x.where]
		fm := map[string]*pathForm{}
		for _, s := range pathSettings {
			if x.set == "" || s == x.set {
				fm[s] = &f
			}
		}
		wd, sc, place, env := pathWorld(x.conf[0], x.conf[1], fm)
		cmds := [][]string{{"plan"}, {"install"}, {"inspect", "--deps"}, {"load"}, {"add", "Q"}, {"clean", "cache", "--src-only"}}
		k := &Kase{ID: fmt.Sprintf("path %s %s %s in %s", x.set, f.name, wh.name, x.conf[0]), World: wd, Scen: sc, Desc: string(wd.Files[x.conf[0]+"/"+x.conf[1]])}
		sc.LibPaths = []string{"@ROOT@/" + place["Library"]}
		for _, a := range cmds {
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: wh.args(a...), Dir: wh.dir, Env: env}})
		}
		k.Judge = func(r *Run) (string, string) {
			for i, a := range cmds {
				if a[0] == "clean" && r.R[i].Code == 0 && x.set == "" && false {
					continue
				}
				what := fmt.Sprintf("%v in %s with %s written as %q (%s)", r.K.Steps[i].Args, wh.dir, map[bool]string{true: "every path", false: x.set}[x.set == ""], f.name, trunc(r.K.Desc.(string), 400))
				sig, msg := pathOracle(what, a[0], r.R[i], r.W.Root, r.S[i], r.S[i+1], place)
				if sig != "" {
					return a[0] + ":" + sig + ":" + f.name, msg
				}
			}
			return "", ""
		}
		return k
	})
	runC21b(c)
	runC21c(c)
	runC21d(c)
}

// runC21d: lists of paths: repositories that are directories, tarballs,
// description files; each entry written in its own way.
func runC21d(c *Ctx) {
	lists := []string{"Repos", "Tarballs", "Descriptions"}
	var fs []pathForm
	for _, f := range pathForms(c, "proj") {
		if has([]string{"relative", "up", "absolute", "tilde", "braces", "env-tilde"}, f.name) {
			fs = append(fs, f)
		}
	}
	wheres := pathWheres("proj", "pkgr.yml")
	whs := []pathWhere{wheres[0], wheres[1]}
	n, dg := product(len(lists), len(fs), len(fs), len(fs), len(whs))
	c.Bound("lists of three repositories that are directories, tarballs or description files x 6 ways to write each entry x run here or elsewhere: %d", n)
	c.Cases(n, pick(c, 12, 48), func(i int) *Kase {
		g := dg(i)
		set, wh := lists[g[0]], whs[g[4]]
		var env []string
		wd := newWorld()
		wd.addR("bin", "4.3.1")
		sc := &Scen{WWW: map[string]string{}}
		d := &Decl{Repos: []DRepo{{Name: "CRAN", Src: []Pkg{{Name: "B0", Ver: "1.0"}, {Name: "B1", Ver: "1.0"}, {Name: "B2", Ver: "1.0"}}}}}
		y := "Version: 1\nPackages:\n"
		var want []string
		if set == "Repos" {
			for j := range 3 {
				y += fmt.Sprintf("  - A%d\n", j)
			}
			y += "Repos:\n"
		} else {
			d.addRepos(wd, sc, "www")
			y += "  - B0\nRepos:\n  - CRAN: http://cran.example\n" + set + ":\n"
			want = append(want, "B0")
		}
		var txt []string
		for j := range 3 {
			f := fs[g[1+j]]
			a := Pkg{Name: fmt.Sprintf("A%d", j), Ver: "1.0"}
			base := ""
			switch set {
			case "Repos":
				base = fmt.Sprintf("repo%d", j)
			case "Tarballs":
				base = a.Name + "_1.0.tar.gz"
				a.Imports = fmt.Sprintf("B%d", j)
			default:
				base = fmt.Sprintf("DESC%d", j)
				a.Imports = fmt.Sprintf("B%d", j)
			}
			place, t := f.of(base)
			txt = append(txt, t)
			env = append(env, f.env...)
			for k, v := range f.pre {
				wd.Add(k, v)
			}
			switch set {
			case "Repos":
				wd.Add(place+"/src/contrib/PACKAGES", packagesFile([]Pkg{a}))
				wd.Files[place+"/src/contrib/"+a.Name+"_1.0.tar.gz"] = a.Tgz()
				y += fmt.Sprintf("  - R%d: %s\n", j, t)
				want = append(want, a.Name)
			case "Tarballs":
				wd.Files[place] = a.Tgz()
				y += "  - " + t + "\n"
				want = append(want, a.Name, a.Imports)
			default:
				wd.Add(place+"/DESCRIPTION", a.Desc())
				y += "  - " + t + "/DESCRIPTION\n"
				want = append(want, a.Imports)
			}
		}
		y += "Library: lib\nCache: \"@ROOT@/cache\"\n"
		wd.Add("proj/pkgr.yml", y)
		wd.Add("other/place/", "")
		what := fmt.Sprintf("%s %v, run %s", set, txt, wh.name)
		return &Kase{ID: fmt.Sprintf("list %v %s", g, set), World: wd, Scen: sc, Desc: what, Steps: []Step{{Opts: Opts{Args: wh.args("install"), Dir: wh.dir, Env: env}}},
			Judge: func(k *Run) (string, string) {
				r := k.last()
				if crashed(r) || r.Verdict != "" {
					return "crash", what + ": " + tail(r.all(), 400)
				}
				for _, p := range want {
					if !k.end().has("proj/lib/" + p + "/DESCRIPTION") {
						return "list:" + set, fmt.Sprintf("%s: %s is not installed: %s", what, p, tail(r.all(), 400))
					}
				}
				for _, df := range k.S[0].diff(k.end()) {
					if q := df[1:]; !(strings.HasPrefix(q, "proj/lib") || strings.HasPrefix(q, "cache/") || strings.HasPrefix(q, "xdg/") || strings.HasPrefix(q, "tmp/") || q == "cache") {
						return "list:elsewhere", what + ": " + df
					}
				}
				return "", ""
			}}
	})
}

// runC21b: the library taken from a lockfile, from the command line, the environment.
func runC21b(c *Ctx) {
	libs := []struct {
		name, yaml string
		args, env  []string
		want       string
	}{
		{"config", "Library: lib", nil, nil, "proj/lib"},
		{"cli", "Library: lib", []string{"--library", "@ROOT@/away/lib2"}, nil, "away/lib2"},
		{"cli-equals", "Library: lib", []string{"--library=@ROOT@/away/lib2"}, nil, "away/lib2"},
		{"cli-tilde", "Library: lib", []string{"--library=~/lib2"}, nil, "home/lib2"},
		{"cli-only", "", []string{"--library=@ROOT@/away/lib2"}, nil, "away/lib2"},
		{"cli-lockfile", "Lockfile:\n  Type: renv", []string{"--library=@ROOT@/away/lib2"}, nil, "away/lib2"},
		{"cli-env", "Library: lib", []string{"--library=@ROOT@/away/lib2"}, []string{"PKGR_LIBRARY=@ROOT@/away/lib3"}, "away/lib2"},
		{"env-only", "", nil, []string{"PKGR_LIBRARY=@ROOT@/away/lib3"}, "away/lib3"},
		{"renv", "Lockfile:\n  Type: renv", nil, nil, "proj/renv/library/R-4.3"},
		{"renv-library", "Lockfile:\n  Type: renv\nLibrary: lib", nil, nil, "proj/lib"},
		{"packrat", "Lockfile:\n  Type: packrat", nil, nil, "proj/packrat/lib/x86_64-pc-linux-gnu/4.3.1"},
		{"packrat-major", "Lockfile:\n  Type: packrat", nil, nil, "proj/packrat/lib/x86_64-pc-linux-gnu/4.3.0"},
	}
	wheres := pathWheres("proj", "pkgr.yml")
	rpaths := []string{"", "RPath: @ROOT@/std/R", "RPath: ../std/R", "RPath: ~/../std/R", "RPath: \"${MC_R}\"", "env"}
	n, dg := product(len(libs), len(wheres), len(rpaths))
	c.Bound("%d sources of the library x %d ways to run x %d settings of R: %d", len(libs), len(wheres), len(rpaths), n)
	c.Cases(n, pick(c, 12, 48), func(i int) *Kase {
		g := dg(i)
		lb, wh := libs[g[0]], wheres[g[1]]
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}}}}}
		wd, sc := d.build()
		env := append([]string{"MC_R=@ROOT@/std/R"}, lb.env...)
		rp := rpaths[g[2]]
		exe := "bin/R"
		ver := "4.3.1"
		if strings.HasSuffix(lb.want, "/4.3.0") {
			ver = "4.3.0"
			wd.addR("bin", ver)
		}
		if rp == "env" {
			env = append(env, "PKGR_RPATH=@ROOT@/std/R")
			rp = ""
			exe = "std/R"
		} else if rp != "" {
			exe = "std/R"
			wd.addR("bin", "4.1.0")
		}
		if exe == "std/R" {
			wd.addR("std", ver)
		}
		wd.Add("other/place/", "")
		wd.Add("away/", "")
		wd.Add("proj/pkgr.yml", "Version: 1\nPackages:\n  - A\nRepos:\n  - CRAN: http://cran.example\nCache: \"@ROOT@/cache\"\n"+lb.yaml+"\n"+rp+"\n")
		sc.Renv = "<cwd>/renv/library/R-4.3"
		what := fmt.Sprintf("library from %s, R from %q, run %s", lb.name, rpaths[g[2]], wh.name)
		return &Kase{ID: fmt.Sprintf("lib %v %s", g, lb.name), World: wd, Scen: sc, Desc: what, Steps: []Step{{Opts: Opts{Args: wh.args(append([]string{"install"}, lb.args...)...), Dir: wh.dir, Env: env}}},
			Judge: func(k *Run) (string, string) {
				r := k.last()
				if crashed(r) || r.Verdict != "" {
					return "crash", what + ": " + tail(r.all(), 400)
				}
				for _, e := range r.Evs {
					if e.T == "rstart" && e.Kind != "renv" && filepath.Clean(e.Exe) != k.W.P(exe) {
						return "lib:RPath", fmt.Sprintf("%s: %s was run rather than %s", what, e.Exe, k.W.P(exe))
					}
					if e.T == "rstart" && e.Kind == "renv" && filepath.Clean(e.Exe) != k.W.P(filepath.Dir(exe), "Rscript") {
						return "lib:Rscript", fmt.Sprintf("%s: %s was asked for the library", what, e.Exe)
					}
				}
				for _, p := range []string{"A", "B"} {
					if !k.end().has(lb.want + "/" + p + "/DESCRIPTION") {
						return "lib:" + lb.name, fmt.Sprintf("%s: %s is not in %s: %s", what, p, lb.want, tail(r.all(), 300))
					}
				}
				for _, df := range k.S[0].diff(k.end()) {
					q := df[1:]
					if !(strings.HasPrefix(q, lb.want) || strings.HasPrefix(lb.want, q) || strings.HasPrefix(q, "cache/") || strings.HasPrefix(q, "xdg/") || strings.HasPrefix(q, "tmp/")) {
						return "lib:elsewhere", what + ": " + df
					}
				}
				return "", ""
			}}
	})
}

// runC21c: switches; the command line overrides the configuration.
func runC21c(c *Ctx) {
	conf := []string{"", "true", "false"}
	sw := []struct{ key, flag string }{{"NoUpdate", "no-update"}, {"NoRollback", "no-rollback"}, {"NoSecure", "no-secure"}, {"Strict", "strict"}}
	cli := []string{"", "=true", "=false", "bare"}
	n1, dg1 := product(len(sw), len(conf), len(cli), len(conf), len(sw)-1)
	eff := func(cf, cl string) bool {
		switch cl {
		case "=true", "bare":
			return true
		case "=false":
			return false
		}
		return cf == "true"
	}
	c.Bound("%d switches x unset / true / false in the configuration x not given / true / false / bare on the command line x another switch in the configuration: %d", len(sw), n1)
	c.Cases(n1, pick(c, 8, 32), func(i int) *Kase {
		g := dg1(i)
		val := map[string]string{sw[g[0]].key: conf[g[1]]}
		oth := sw[(g[0]+1+g[4])%len(sw)].key
		val[oth] = conf[g[3]]
		on := map[string]bool{}
		for _, s := range sw {
			on[s.key] = eff(val[s.key], "")
		}
		on[sw[g[0]].key] = eff(conf[g[1]], cli[g[2]])
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0"}}}}}
		for k, v := range val {
			if v != "" {
				d.Extra = append(d.Extra, k+": "+v)
			}
		}
		sort.Strings(d.Extra)
		args := []string{"install"}
		switch x := cli[g[2]]; x {
		case "":
		case "bare":
			args = append(args, "--"+sw[g[0]].flag)
		default:
			args = append(args, "--"+sw[g[0]].flag+x)
		}
		d.Installed = []Pkg{{Name: "A", Ver: "0.5", Imports: "B"}, {Name: "B", Ver: "1.0"}}
		wd, sc := d.build()
		sc.FailAlways = nil
		what := fmt.Sprintf("%v with %v in the configuration", args, d.Extra)
		rm := func(w *Worker) { os.RemoveAll(w.P("proj/lib")) }
		failC := *sc
		failC.FailAlways = []string{"C"}
		return &Kase{ID: fmt.Sprintf("switch %v", g), World: wd, Scen: sc, Desc: what,
			Steps: []Step{{Opts: Opts{Args: args, Scen: &failC}}, {Opts: Opts{Args: args}}, {Opts: Opts{Args: args}, Pre: rm}},
			Judge: func(k *Run) (string, string) {
				for _, r := range k.R {
					if crashed(r) || r.Verdict != "" {
						return "crash", what + ": " + tail(r.all(), 400)
					}
					for _, e := range r.Evs {
						if e.T == "http" && e.Insec != on["NoSecure"] {
							return "switch:NoSecure", fmt.Sprintf("%s: certificates are verified: %v", what, !e.Insec)
						}
					}
				}
				ver := func(s Snap, p string) string { return ParseDCF([]byte(s["proj/lib/"+p+"/DESCRIPTION"]))["Version"] }
				// the second install succeeds
				want := "1.0"
				if on["NoUpdate"] {
					want = "0.5"
				}
				if got := ver(k.S[2], "A"); got != want {
					return "switch:NoUpdate", fmt.Sprintf("%s: after an install of A 1.0 over 0.5 its version is %q", what, got)
				}
				// the first fails for C
				if !on["NoRollback"] {
					if got := ver(k.S[1], "A"); got != "0.5" {
						return "switch:NoRollback", fmt.Sprintf("%s: after a failed install A has version %q, it had 0.5", what, got)
					}
				} else if len(k.R[0].Evs) > 0 {
					// whatever R installed is kept
					for _, e := range k.R[0].Evs {
						if e.T == "rend" && e.Kind == "install" && e.Code == 0 && !e.Build {
							if got := ver(k.S[1], e.Pkg); got != e.Ver {
								return "switch:NoRollback", fmt.Sprintf("%s: R installed %s %s before the install failed; afterwards its version is %q", what, e.Pkg, e.Ver, got)
							}
						}
					}
				}
				// the library is missing
				exists := k.end().has("proj/lib/A/DESCRIPTION")
				if on["Strict"] == exists || on["Strict"] == (k.R[2].Code == 0) {
					return "switch:Strict", fmt.Sprintf("%s: the library is missing; afterwards A is installed: %v, exit status %d", what, exists, k.R[2].Code)
				}
				return "", ""
			}}
	})
}

func init() {
	checks["C21"] = checkDef{title: "paths and switches", run: runC21}
}
