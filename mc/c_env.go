package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- C18: what every R installation sees ----

// envSpec is what the R processes of a run are to be given.
type envSpec struct {
	lib    string                       // library, absolute
	exe    string                       // the R that is to be used, absolute
	rdir   string                       // its directory when the configuration names it
	caller map[string]string            // the environment of the caller
	cust   map[string]map[string]string // per package
}

func envMap(env []string) map[string]string {
	m := map[string]string{}
	for _, e := range env {
		if k, v, ok := strings.Cut(e, "="); ok {
			m[k] = v
		}
	}
	return m
}

// callerEnv is the environment Worker.Exec gives the program.
func (w *Worker) callerEnv(o Opts) map[string]string {
	l := []string{"PATH=" + w.P("bin") + ":/usr/bin:/bin", "HOME=" + w.P("home"), "XDG_CACHE_HOME=" + w.P("xdg"), "TMPDIR=" + w.P("tmp"), "LANG=C"}
	for _, e := range o.Env {
		l = append(l, w.Subst(e))
	}
	return envMap(l)
}

// envOracle judges the R installations of one execution.
func envOracle(w *Worker, sp envSpec, evs []Ev) (string, string) {
	for _, e := range evs {
		if e.T != "rstart" || e.Kind != "install" {
			continue
		}
		at := func(f string, a ...any) string {
			return fmt.Sprintf("R for %s (%s stage): ", e.Pkg, e.Stage()) + fmt.Sprintf(f, a...)
		}
		env, cust := envMap(e.Env), sp.cust[e.Pkg]
		exe := e.Exe
		if p, err := filepath.EvalSymlinks(exe); err == nil {
			exe = p
		}
		if exe != sp.exe {
			return "r", at("started %s, want %s", exe, sp.exe)
		}
		names := map[string]bool{}
		for _, m := range []map[string]string{env, cust, sp.caller} {
			for k := range m {
				names[k] = true
			}
		}
		var l []string
		for k := range names {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			got, has := env[k]
			cv, customized := cust[k]
			want, called := sp.caller[k]
			switch {
			case k == "R_LIBS" || k == "R_LIBS_USER" || k == "R_LIBS_SITE" || k == "PWD" || strings.HasPrefix(k, "MC_") || k == "GOMAXPROCS" || k == "GOGC":
			case customized:
				if got != cv || !has && cv != "" {
					return "custom", at("the customized %s is %q (set: %v), want %q", k, got, has, cv)
				}
			case k == "PATH" && sp.rdir != "":
				if got != want && got != sp.rdir+":"+want || !strings.HasPrefix(got+":", sp.rdir+":") {
					return "path", at("PATH is %q: want the directory %s of R before %q", got, sp.rdir, want)
				}
			case called:
				if got != want {
					return "caller", at("the caller's %s is %q (set: %v), want %q", k, got, has, want)
				}
			default:
				return "extra", at("%s=%q comes neither from the caller nor from a customization of the package", k, got)
			}
		}
		// the search path
		for _, k := range []string{"R_LIBS_USER", "R_LIBS_SITE"} {
			if env[k] == "" {
				return "default-library", at("%s is not set, so R adds its default", k)
			}
		}
		var libs []string
		for _, p := range strings.Split(strings.Join([]string{e.Lib, env["R_LIBS"], env["R_LIBS_USER"], env["R_LIBS_SITE"]}, ":"), ":") {
			if p != "" && !strings.HasPrefix(p, w.P("tmp")+"/") {
				libs = append(libs, p)
			}
		}
		if len(libs) == 0 || libs[0] != sp.lib {
			return "library", at("the library search path is %v, want %s first", libs, sp.lib)
		}
		for _, p := range libs {
			if p != sp.lib {
				return "foreign-library", at("the library search path is %v: it contains %s", libs, p)
			}
		}
		if e.Stage() == "final" && e.Lib != sp.lib {
			return "library", at("installs into %s, want %s", e.Lib, sp.lib)
		}
		if ents, _ := os.ReadDir(env["R_LIBS_USER"]); len(ents) > 0 {
			return "user-library", at("R_LIBS_USER is not empty")
		}
	}
	return "", ""
}

var envCustPkgs = []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0"}}

// oddEnv are variables that are easily mistaken for others, or for nothing.
var oddEnv = []string{"V0=0", "V1=false", "V2=FALSE", "V3=-", "V4=\t", "V5=é 漢", "V6=\"q\" 'p' \\ `x`", "V7=~", "V8=a:b:", "V9=%d%s", "V_A=NULL", "V_B=#c", "V_C=;", "V_D=*", "V_E=" + strings.Repeat("long ", 2000), "http_proxy=", "HTTPX=h", "_X=1", "x.y=1", "V-1=dash", "R_LIBS_=1", "r_libs=/low", "Path=/p", "R_LIBS_USERS=/z", "HOME2=~", "R_DEFAULT_PACKAGES=NULL", "CI=true", "DISPLAY=:0", "RENV_PROJECT=/r", "NOT_CRAN=0", "R_BATCHSAVE=--no-save", "R_ENVIRON_USER=/eu", "R_PROFILE=/rp", "PKG_LIBS=-lx", "CC=gcc", "TMP=/nowhere"}

func runC18(c *Ctx) {
	// variables of the caller
	vars := [][]string{nil,
		{"R_LIBS_USER=@ROOT@/other"}, {"R_LIBS_SITE=@ROOT@/other"}, {"R_LIBS=@ROOT@/other"}, {"R_LIBS=@ROOT@/other", "R_LIBS_SITE=@ROOT@/other2", "R_LIBS_USER=@ROOT@/other3:@ROOT@/other"},
		{"FOO=caller"}, {"FOO=a=b=c"}, {"FOO= spaced out "}, {"FOO="}, {"foo=lower", "FOO=upper"}, {"FOO=line1\nline2"},
		{"GITHUB_TOKEN=sekret", "FOO=x"}, {"github_pat=sekret"}, {"AWS_SECRET_KEY=a=b"},
		{"BAR=caller", "FOO=caller"}, {"R_MAKEVARS_USER=~/m"}, {"PKGR_FOO=x"}, {"MAKEFLAGS=-j 4"}, {"R_HOME=/x"}, {"FOO=$BAR", "BAR=${FOO}"},
		{"LC_ALL=C.UTF-8", "LANGUAGE=de", "TZ=UTC", "EDITOR=vi", "LD_LIBRARY_PATH=/opt/l", "R_PROFILE_USER=/p", "R_ENVIRON=/e", "PKG_CONFIG_PATH=/pc", "A=1", "R_LIBSX=/x", "XR_LIBS=/y", "PATHS=/q"},
		oddEnv}
	type cu map[string][]string
	custs := []cu{nil,
		{"A": {"FOO: a"}}, {"B": {"FOO: b"}}, {"A": {"FOO: a"}, "B": {"FOO: b", "BAR: b2"}}, {"A": {"BAR: \"x=y z\""}}, {"A": {"FOO: \"\""}}, {"A": {"FOO: \" padded \""}},
		{"C": {"foo: low", "FOO: up"}}, {"T": {"FOO: t"}}, {"T": {"BAR: t"}, "A": {"BAR: a"}, "C": {"BAR: c", "GITHUB_PAT: mine"}}, {"A": {"PATH: /usr/bin"}}, {"B": {"R_LIBS_USER: /nowhere"}}, {"a": {"FOO: wrong"}}, {"A": {"FOO: 1", "BAR: \"true\""}},
		{"A": {"FOO: a"}, "A#": {"BAR: b"}, "C": {"FOO: c"}}, {"A": {"FOO: a", "BAR: b"}, "A#": {}, "A##": {"BAR: b", "LC_ALL: C"}}}
	// where R is and what names it
	type rsel struct {
		yaml, exe, rdir string
		env             []string
	}
	rs := []rsel{
		{exe: "bin/R"},
		{yaml: "RPath: @ROOT@/bin2/R", exe: "bin2/R", rdir: "bin2"},
		{yaml: "RPath: R", exe: "bin/R"},
		{yaml: "RPath: @ROOT@/bin2/R", exe: "bin2/R", rdir: "bin2", env: []string{"PATH=@ROOT@/bin2x:@ROOT@/bin:/usr/bin:/bin"}},
		{yaml: "RPath: @ROOT@/bin2/R", exe: "bin2/R", rdir: "bin2", env: []string{"PATH=@ROOT@/bin2:@ROOT@/bin:/usr/bin:/bin"}},
		{yaml: "RPath: @ROOT@/bin2/R", exe: "bin2/R", rdir: "bin2", env: []string{"PATH=@ROOT@/bin:@ROOT@/bin2:/usr/bin:/bin"}},
		{yaml: "RPath: ~/r/R", exe: "home/r/R", rdir: "home/r"},
		{env: []string{"PKGR_RPATH=@ROOT@/bin2/R"}, exe: "bin2/R", rdir: "bin2"},
		{yaml: "RPath: ${MYR}", env: []string{"MYR=@ROOT@/bin2/R"}, exe: "bin2/R", rdir: "bin2"},
		{env: []string{"PATH=@ROOT@/bin2:@ROOT@/bin:/usr/bin:/bin"}, exe: "bin2/R"}}
	libs := []string{"lib", "lib=x", "lib with space", "@ROOT@/libs/abs", "~/hl"}
	histories := []string{"fresh", "cached", "update"}
	size, digits := product(len(vars), len(custs), len(rs), len(libs), len(histories))
	// quick: every pair of the first two, and every value of the others with two of each
	keep := func(x []int) bool {
		n := 0
		for _, d := range x[2:] {
			if d > 0 {
				n++
			}
		}
		if c.quick() {
			return n == 0 || n == 1 && (x[0] < 5 || x[0] == 11) && x[1] < 4 || n == 2 && x[0] < 2 && x[1] < 2
		}
		return n <= 1 || x[0] < 6 && x[1] < 4
	}
	var idx []int
	for i := 0; i < size; i++ {
		if keep(digits(i)) {
			idx = append(idx, i)
		}
	}
	c.Bound("%d environments of the caller x %d sets of customized variables x %d ways to name R x %d libraries x %d histories (fresh, from the cache, updates), a listed tarball in each: %d of %d combinations (every pair of environment and customization, the other dimensions one or two at a time)", len(vars), len(custs), len(rs), len(libs), len(histories), len(idx), size)
	c.Cases(len(idx), pick(c, 12, 60), func(i int) *Kase {
		x := digits(idx[i])
		v, cs, r, lib, h := vars[x[0]], custs[x[1]], rs[x[2]], libs[x[3]], histories[x[4]]
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{{Name: "R1", Src: envCustPkgs}}, Tarballs: []Pkg{{Name: "T", Ver: "1.0", Imports: "B"}}, Library: lib}
		for _, p := range sortedKeys(cs) {
			// a name with # stands for a further customization of the same package
			d.Cust = append(d.Cust, PkgCust{Pkg: strings.TrimRight(p, "#"), Env: cs[p]})
		}
		if r.yaml != "" {
			d.Extra = append(d.Extra, r.yaml)
		}
		if x[2]%2 == 1 {
			d.Threads = 2
		}
		wd, sc := d.build()
		wd.addR("bin2", "4.3.1")
		wd.addR("bin2x", "4.3.1")
		wd.addR("home/r", "4.3.1")
		for _, o := range []string{"other", "other2"} {
			wd.addInstalled(o, Pkg{Name: "B", Ver: "0.1"}, false)
		}
		absLib := "proj/" + lib
		if strings.HasPrefix(lib, "@ROOT@/") {
			absLib = lib[7:]
		} else if strings.HasPrefix(lib, "~/") {
			absLib = "home/" + lib[2:]
		}
		if h == "update" {
			wd.addInstalled(absLib, Pkg{Name: "B", Ver: "0.5"}, true)
			wd.addInstalled(absLib, Pkg{Name: "C", Ver: "1.0"}, true)
		}
		o := Opts{Args: []string{"install"}, Env: append(append([]string{}, v...), r.env...)}
		k := &Kase{ID: fmt.Sprintf("env-%v %v %v R %s%v lib %s %s", i, v, cs, r.yaml, r.env, lib, h), World: wd, Scen: sc, Desc: d}
		k.Steps = []Step{{Opts: o}}
		if h == "cached" {
			k.Steps = []Step{{Opts: Opts{Args: []string{"install"}, Env: r.env}}, {Opts: o, Pre: func(w *Worker) {
				os.RemoveAll(w.P(absLib))
			}}}
		}
		k.Judge = func(run *Run) (string, string) {
			w := run.W
			for s, res := range run.R {
				sp := envSpec{lib: w.P(absLib), exe: w.P(r.exe), caller: w.callerEnv(k.Steps[s].Opts), cust: map[string]map[string]string{}}
				if r.rdir != "" {
					sp.rdir = w.P(r.rdir)
				}
				for p, l := range cs {
					p = strings.TrimRight(p, "#")
					m := sp.cust[p]
					if m == nil {
						m = map[string]string{}
					}
					for _, e := range l {
						key, val, _ := strings.Cut(e, ": ")
						m[key] = strings.Trim(val, `"`)
					}
					sp.cust[p] = m
				}
				if crashed(res) {
					return "crash", k.ID + ": " + tail(res.all(), 400)
				}
				done := map[string]bool{}
				for _, e := range res.Evs {
					if e.T == "rend" && e.Kind == "install" && e.Stage() == "final" && e.Code == 0 || e.T == "rend" && e.Kind == "install" && e.Pkg == "T" && e.Code == 0 {
						done[e.Pkg] = true
					}
				}
				if sig, msg := envOracle(w, sp, res.Evs); sig != "" {
					return sig, k.ID + ": " + msg
				}
				want := "A B C T"
				if h == "update" {
					want = "A B T"
				}
				if got := strings.Join(sortedKeys(done), " "); got != want {
					return "incomplete", fmt.Sprintf("%s: R installed %q, want %q: %s", k.ID, got, want, tail(res.all(), 400))
				}
			}
			return "", ""
		}
		return k
	})
	if !c.timeLeft() {
		return
	}
	// concurrent installations, every schedule within the budget
	env := []string{"FOO=caller", "R_LIBS_SITE=@ROOT@/other", "BAR=keep"}
	var ex []string
	cust := map[string]map[string]string{}
	ex = append(ex, "Customizations:", "  Packages:")
	for _, p := range []string{"A", "B", "C", "D"} {
		if p != "D" {
			ex = append(ex, "    - "+p+":", "        Env:", "          FOO: "+p, "          ONLY_"+p+": x")
			cust[p] = map[string]string{"FOO": p, "ONLY_" + p: "x"}
		}
	}
	var l []*iscen
	for _, s := range []*iscen{
		{name: "flat", src: pFlat, user: []string{"A", "B", "C"}, threads: 3},
		{name: "fork", src: pFork, user: []string{"A", "B", "C"}, threads: 2, binCache: []string{"D", "C"}},
		{name: "two", src: pTwo, user: []string{"A", "C"}, threads: 3, installed: []Pkg{{Name: "D", Ver: "0.5"}}}} {
		s.extra, s.env = ex, env
		s.budget = Budget{Sched: 1, Env: 9, Out: 9, Total: 2}
		s.starve = Budget{Out: 1, Total: 1}
		if !c.quick() {
			s.budget = Budget{Sched: 2, Env: 9, Out: 9, Total: 4}
		}
		l = append(l, s)
	}
	exploreAll(c, l, func(s *iscen, w *Worker, r *Result) (string, string) {
		return envOracle(w, envSpec{lib: w.P("proj/lib"), exe: w.P("bin/R"), caller: w.callerEnv(s.opts(nil, 0)), cust: cust}, r.Evs)
	})
}

func init() {
	checks["C18"] = checkDef{title: "R environment", run: runC18}
}
