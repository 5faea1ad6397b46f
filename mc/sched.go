package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
)

// ---- install scenarios under every schedule ----

// iscen is one closed install scenario whose schedules are enumerated.
type iscen struct {
	name      string
	src       []Pkg // one source repository named CRAN
	user      []string
	threads   int
	installed []Pkg
	cold      bool // downloads happen inside the explored run
	binCache  []string
	tarballs  []Pkg
	extra     []string
	env       []string
	maxFail   int
	failOnly  []string
	partial   bool
	noBinary  []string
	failAlw   []string
	failExit  int
	budget    Budget
	quiet     bool
	horizon   int
	procs     int
	args      []string
	httpAsync bool
	mask      uint32
	max       int
	starve    Budget
	pairs     bool
	tweak     func(s *iscen, wd *World)
	custom    func(c *Ctx, s *iscen) error // replaces the preparation

	wd   *World
	sc   *Scen
	plan map[string][]string // planned package -> hard dependencies within the plan
	ver  map[string]string
	upd  map[string]bool // installed and outdated
}

func byName(ps []Pkg) map[string]Pkg {
	m := map[string]Pkg{}
	for _, p := range ps {
		m[p.Name] = p
	}
	return m
}

// hard lists the hard dependencies of a package which are in m.
func hard(p Pkg, m map[string]Pkg) []string {
	var r []string
	for _, f := range []string{p.Depends, p.Imports, p.LinkingTo} {
		for _, d := range DepNames(f) {
			if _, ok := m[d]; ok && !has(r, d) {
				r = append(r, d)
			}
		}
	}
	return r
}

func closure(start []string, m map[string]Pkg) map[string]bool {
	s := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if s[n] {
			return
		}
		p, ok := m[n]
		if !ok {
			return
		}
		s[n] = true
		for _, d := range hard(p, m) {
			add(d)
		}
	}
	for _, n := range start {
		add(n)
	}
	return s
}

func (s *iscen) prepare(c *Ctx) error {
	if s.custom != nil {
		return s.custom(c, s)
	}
	cfg := Cfg{Packages: s.user}
	if s.threads != 0 {
		cfg.Extra = append(cfg.Extra, fmt.Sprintf("Threads: %d", s.threads))
	}
	cfg.Extra = append(cfg.Extra, s.extra...)
	for _, t := range s.tarballs {
		cfg.Tarballs = append(cfg.Tarballs, "tb/"+t.Name+"_"+t.Ver+".tar.gz")
	}
	wd, sc := baseWorld(cfg, Repo{Name: "CRAN", Src: s.src})
	for _, t := range s.tarballs {
		wd.Files["proj/tb/"+t.Name+"_"+t.Ver+".tar.gz"] = t.Tgz()
	}
	w := c.W[0]
	if !s.cold {
		// download once; the source cache becomes part of the start state
		cfg2 := cfg
		cfg2.Tarballs = nil
		wd2 := wd.clone()
		for _, t := range s.tarballs {
			cfg2.Packages = append(append([]string{}, cfg2.Packages...), DepNames(t.Imports)...)
			cfg2.Packages = append(cfg2.Packages, DepNames(t.Depends)...)
		}
		cfg2.Repos = []string{"CRAN: http://cran.example"}
		cfg2.Library = "warmlib"
		wd2.Add("proj/pkgr.yml", cfg2.String())
		if err := w.Reset(wd2); err != nil {
			return err
		}
		r := w.Exec(Opts{Args: []string{"install"}, Scen: sc})
		if r.Verdict != "" || r.Code != 0 {
			c.Note("warming %s: verdict %q exit %d %s", s.name, r.Verdict, r.Code, trunc(r.Err, 300))
		}
		for _, top := range []string{"cache", "xdg"} {
			for k, v := range w.Snapshot(top) {
				if strings.Contains(k, "/binary/") && !strings.HasSuffix(k, "/") {
					keep := false
					for _, b := range s.binCache {
						keep = keep || strings.HasPrefix(filepath.Base(k), b+"_")
					}
					if !keep {
						continue
					}
				}
				if k != "./" {
					wd.Files[top+"/"+k] = []byte(v)
				}
			}
		}
	}
	for _, p := range s.installed {
		wd.addInstalled("proj/lib", p, true)
	}
	// the web tree is shared and read-only
	www := filepath.Join(c.S.Scratch, "www", s.name)
	for k, v := range wd.Files {
		if strings.HasPrefix(k, "www/") {
			p := filepath.Join(www, k[4:])
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, v, 0644)
			delete(wd.Files, k)
		}
	}
	for k, v := range sc.WWW {
		sc.WWW[k] = strings.Replace(v, "@ROOT@/www", www, 1)
	}
	sc.RAsync = true
	sc.HTTPAsync = s.httpAsync
	sc.MaxFail = s.maxFail
	sc.FailOnly = s.failOnly
	sc.FailPartial = s.partial
	sc.FailAlways = s.failAlw
	sc.FailExit = s.failExit
	sc.NoBinary = s.noBinary
	if s.tweak != nil {
		s.tweak(s, wd)
	}
	s.wd, s.sc = wd, sc
	m := byName(s.src)
	start := append([]string{}, s.user...)
	for _, t := range s.tarballs {
		start = append(start, hard(t, m)...)
	}
	cl := closure(start, m)
	s.plan = map[string][]string{}
	s.ver = map[string]string{}
	for n := range cl {
		s.plan[n] = hard(m[n], m)
		s.ver[n] = m[n].Ver
	}
	s.upd = map[string]bool{}
	for _, i := range s.installed {
		if p, ok := m[i.Name]; ok && p.Ver != i.Ver {
			s.upd[i.Name] = true
		}
	}
	return nil
}

func (s *iscen) opts(prefix []byte, starve uint64) Opts {
	mask := s.mask
	if mask == 0 {
		mask = pChan | pMutex | pWg
	}
	args := s.args
	if args == nil {
		args = []string{"install", "--loglevel", "info"}
	}
	return Opts{Args: args, Scen: s.sc, Prefix: prefix, KindMask: mask, Procs: s.procs, Horizon: s.horizon, Starve: starve, Env: s.env}
}

func (s *iscen) run(w *Worker, prefix []byte, starve uint64) *Result {
	w.Reset(s.wd)
	return w.Exec(s.opts(prefix, starve))
}

// present tells whether the package is usable in the start library and stays there.
func (s *iscen) present(n string) bool {
	for _, p := range s.installed {
		if p.Name == n {
			return !s.upd[n]
		}
	}
	return false
}

// failedSet returns the packages some R call failed for.
func failedSet(evs []Ev) map[string]bool {
	f := map[string]bool{}
	for _, e := range evs {
		if e.T == "rend" && e.Kind == "install" && e.Code != 0 {
			f[e.Pkg] = true
		}
	}
	return f
}

func evLine(evs []Ev) string {
	var b []string
	for _, e := range evs {
		st := e.Stage()
		if e.Kind == "library" {
			st = "load"
		} else if e.Kind != "install" {
			continue
		}
		if e.T == "rstart" {
			b = append(b, "+"+e.Pkg+"."+st)
		} else {
			x := "-" + e.Pkg + "." + st
			if e.Code != 0 {
				x += fmt.Sprintf("!%d", e.Code)
			}
			b = append(b, x)
		}
	}
	return strings.Join(b, " ")
}

func (s *iscen) isTarball(n string) bool {
	for _, t := range s.tarballs {
		if t.Name == n {
			return true
		}
	}
	return false
}

// orderOracle is C01: dependencies are in the library before an R process for the package starts.
func (s *iscen) orderOracle(r *Result) (string, string) {
	done := map[string]bool{}
	tm := byName(s.tarballs)
	m := byName(s.src)
	for _, e := range r.Evs {
		if e.Kind != "install" {
			continue
		}
		if e.T == "rend" && e.Code == 0 && !e.Build {
			done[e.Pkg] = true
		}
		if e.T != "rstart" || e.Pkg == "" {
			continue
		}
		deps := s.plan[e.Pkg]
		if t, ok := tm[e.Pkg]; ok {
			deps = hard(t, m)
		}
		for d := range closure(deps, m) {
			if !done[d] && !s.present(d) {
				return "order:" + e.Pkg + "<" + d, fmt.Sprintf("scenario %s: R was started for %s (%s) while its dependency %s was not installed; R events: %s", s.name, e.Pkg, e.Stage(), d, evLine(r.Evs))
			}
		}
		if len(e.Missing) > 0 {
			return "missing:" + e.Pkg, fmt.Sprintf("scenario %s: R was started for %s but cannot find %v; R events: %s", s.name, e.Pkg, e.Missing, evLine(r.Evs))
		}
	}
	return "", ""
}

// ended is the termination part of C02.
func (s *iscen) ended(r *Result) (string, string) {
	switch r.Verdict {
	case "deadlock", "horizon", "timeout":
		return "hang", fmt.Sprintf("scenario %s: the command never ends (%s) with nothing left to happen; R events: %s; tail: %s", s.name, r.Verdict, evLine(r.Evs), tail(r.all(), 400))
	}
	if strings.Contains(strings.ReplaceAll(r.Err, "panic: (*logrus.Entry)", ""), "panic:") || strings.Contains(r.Err, "fatal error:") {
		return "panic", fmt.Sprintf("scenario %s: the command crashed: %s", s.name, trunc(r.Err, 600))
	}
	return "", ""
}

// completeOracle is C02: ends, nothing twice, everything installed when nothing fails.
func (s *iscen) completeOracle(w *Worker, r *Result) (string, string) {
	if a, b := s.ended(r); a != "" {
		return a, b
	}
	n := map[string]int{}
	for _, e := range r.Evs {
		if e.T == "rstart" && e.Kind == "install" {
			k := e.Pkg + "." + e.Stage()
			n[k]++
			if n[k] > 1 {
				return "twice:" + k, fmt.Sprintf("scenario %s: %s was started more than once: %s", s.name, k, evLine(r.Evs))
			}
		}
	}
	f := failedSet(r.Evs)
	if len(f) == 0 {
		var miss []string
		for p := range s.plan {
			b, err := os.ReadFile(w.P("proj/lib", p, "DESCRIPTION"))
			if err != nil || ParseDCF(b)["Version"] != s.ver[p] {
				miss = append(miss, p)
			}
		}
		for _, t := range s.tarballs {
			b, err := os.ReadFile(w.P("proj/lib", t.Name, "DESCRIPTION"))
			if err != nil || ParseDCF(b)["Version"] != t.Ver {
				miss = append(miss, t.Name)
			}
		}
		if len(miss) > 0 {
			sort.Strings(miss)
			return "incomplete", fmt.Sprintf("scenario %s: no installation failed but %v are not installed at their planned version; R events: %s; %s", s.name, miss, evLine(r.Evs), tail(r.all(), 500))
		}
	}
	return "", ""
}

var logRe = regexp.MustCompile(`level=(\w+) msg="?((?:[^"\\]|\\.)*)"?(.*)`)

// logLine is one parsed log line.
type logLine struct{ level, msg, rest string }

func parseLog(s string) []logLine {
	var r []logLine
	for _, l := range strings.Split(s, "\n") {
		l = ansi.ReplaceAllString(l, "")
		if m := logRe.FindStringSubmatch(l); m != nil {
			r = append(r, logLine{m[1], m[2], m[3]})
			continue
		}
		for _, p := range [][2]string{{"TRAC", "trace"}, {"DEBU", "debug"}, {"INFO", "info"}, {"WARN", "warning"}, {"ERRO", "error"}, {"FATA", "fatal"}, {"PANI", "panic"}} {
			if strings.HasPrefix(l, p[0]) {
				x := strings.TrimPrefix(l, p[0])
				if i := strings.Index(x, "]"); i >= 0 {
					x = x[i+1:]
				}
				r = append(r, logLine{p[1], strings.TrimSpace(x), x})
			}
		}
	}
	return r
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func word(s, w string) bool {
	return regexp.MustCompile(`(^|[^\w.])` + regexp.QuoteMeta(w) + `($|[^\w.])`).MatchString(s)
}

// failOracle is C03: failures are contained and reported.
func (s *iscen) failOracle(w *Worker, r *Result) (string, string) {
	if a, b := s.ended(r); a != "" {
		return a, b
	}
	f := map[string]bool{}
	m := byName(s.src)
	tm := byName(s.tarballs)
	for _, e := range r.Evs {
		if e.Kind != "install" {
			continue
		}
		if e.T == "rend" && e.Code != 0 {
			f[e.Pkg] = true
		}
		if e.T == "rstart" {
			deps := s.plan[e.Pkg]
			if t, ok := tm[e.Pkg]; ok {
				deps = hard(t, m)
			}
			for d := range closure(deps, m) {
				if f[d] {
					return "dependent:" + e.Pkg + "<" + d, fmt.Sprintf("scenario %s: %s was attempted although its dependency %s had failed; R events: %s", s.name, e.Pkg, d, evLine(r.Evs))
				}
			}
			if f[e.Pkg] {
				return "retry:" + e.Pkg, fmt.Sprintf("scenario %s: %s was attempted again after it failed: %s", s.name, e.Pkg, evLine(r.Evs))
			}
		}
	}
	lines := parseLog(r.all())
	ok := map[string]bool{}
	for _, e := range r.Evs {
		if e.T == "rend" && e.Kind == "install" && e.Code == 0 && !e.Build {
			ok[e.Pkg] = true
		}
	}
	for p := range f {
		named := false
		for _, l := range lines {
			if (l.level == "error" || l.level == "fatal") && (word(l.msg, p) || word(l.rest, p)) {
				named = true
			}
			if strings.Contains(l.msg, "Successfully Installed") && regexp.MustCompile(`(package|pkg)=`+regexp.QuoteMeta(p)+`($|\s)`).MatchString(l.msg+" "+l.rest) {
				return "falsesuccess:" + p, fmt.Sprintf("scenario %s: %s failed but is reported as successfully installed: %s", s.name, p, l.msg+l.rest)
			}
		}
		if !named {
			return "unreported:" + p, fmt.Sprintf("scenario %s: the failure of %s is not reported at error level; R events: %s; log: %s", s.name, p, evLine(r.Evs), tail(r.all(), 600))
		}
	}
	if len(f) > 0 {
		// everything planned that is not installed is named at error level
		for p := range s.plan {
			if ok[p] || s.present(p) {
				continue
			}
			named := false
			for _, l := range lines {
				if (l.level == "error" || l.level == "fatal") && (word(l.msg, p) || word(l.rest, p)) {
					named = true
				}
			}
			if !named && !s.startingOnly(p) {
				return "silent:" + p, fmt.Sprintf("scenario %s: %s was not installed and no error names it; R events: %s; log: %s", s.name, p, evLine(r.Evs), tail(r.all(), 600))
			}
		}
	}
	for _, l := range lines {
		if strings.Contains(l.msg, "Successfully Installed") {
			for p := range s.plan {
				if regexp.MustCompile(`(package|pkg)=`+regexp.QuoteMeta(p)+`($|\s)`).MatchString(l.msg+" "+l.rest) && !ok[p] {
					return "falsesuccess:" + p, fmt.Sprintf("scenario %s: %s is reported as successfully installed but R never installed it; R events: %s", s.name, p, evLine(r.Evs))
				}
			}
		}
	}
	return "", ""
}

func (s *iscen) startingOnly(string) bool { return false }

// Note records a remark in the evidence.
func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	if len(c.notes) < 20 {
		c.notes = append(c.notes, trunc(fmt.Sprintf(f, a...), 600))
	}
	c.mu.Unlock()
}

// exploreAll runs the exploration of all scenarios with one oracle.
func exploreAll(c *Ctx, scens []*iscen, oracle func(s *iscen, w *Worker, r *Result) (string, string)) {
	for _, s := range scens {
		if !c.timeLeft() || c.nviol() >= 8 {
			return
		}
		if err := s.prepare(c); err != nil {
			c.Broken("prepare %s: %v", s.name, err)
			return
		}
		// replaying one schedule twice must give the same observations
		a, b := s.run(c.W[0], nil, 0), s.run(c.W[0], nil, 0)
		if evLine(a.Evs) != evLine(b.Evs) || len(a.Trace) != len(b.Trace) {
			c.Count("nondeterministic", 1)
			c.Note("scenario %s is not deterministic: %d/%d choices", s.name, len(a.Trace), len(b.Trace))
		}
		e := &Explorer{C: c, Name: s.name, Budget: s.budget, Run: s.run, Desc: s.describe(), Max: s.max,
			Check: func(w *Worker, r *Result) (string, string) {
				c.Outcome(s.name + " " + evLine(r.Evs) + r.Verdict)
				sig, msg := oracle(s, w, r)
				if sig != "" {
					sig = s.name + ":" + sig
				}
				return sig, msg
			}}
		e.StarveBudget = s.starve
		// base policies: every goroutine, and every pair of them, starved
		var ids []uint
		for i := uint(0); i < 64; i++ {
			if a.Seen&(1<<i) != 0 {
				ids = append(ids, i)
			}
		}
		for i, x := range ids {
			e.Starve = append(e.Starve, 1<<x)
			if s.pairs {
				for _, y := range ids[:i] {
					e.Starve = append(e.Starve, 1<<x|1<<y)
				}
			}
		}
		n, comp := e.Explore()
		c.Count("scenarios", 1)
		if s.quiet {
			if !comp {
				c.Note("%s: exploration not complete", s.name)
			}
			continue
		}
		c.Bound("%s: threads=%d, at most %d R failures, budget sched=%d env=%d: %d executions, complete=%v, %d choice points in the default run, %d starvation policies", s.name, s.threads, s.maxFail, s.budget.Sched, s.budget.Env, n, comp, len(a.Trace), len(e.Starve))
		c.Sample("%s default schedule: %s", s.name, evLine(a.Evs))
		// bind to the unmodified binary: replay environment traces
		s.validate(c, a)
	}
}

func (s *iscen) describe() any {
	return map[string]any{"packages": s.src, "user": s.user, "threads": s.threads, "installed": s.installed, "tarballs": s.tarballs, "maxFail": s.maxFail}
}

func (s *iscen) validate(c *Ctx, a *Result) {
	if !c.timeLeft() {
		return
	}
	w := c.W[0]
	r := s.run(w, nil, 0)
	snap := w.Snapshot("")
	c.conform(w, func(w *Worker) { w.Reset(s.wd) }, s.opts(nil, 0), r, snap)
}

// faultSweep repeats the default schedule of a scenario with the k-th mutating
// file operation failing, for every k and every mode.
func faultSweep(c *Ctx, s *iscen, kinds [][2]int, judge func(w *Worker, r *Result, op Op) (string, string)) {
	if err := s.prepare(c); err != nil {
		c.Broken("prepare %s: %v", s.name, err)
		return
	}
	base := s.run(c.W[0], nil, 0)
	n := base.OpCount
	type job struct{ k, m int }
	var jobs []job
	for k := 1; k <= n; k++ {
		for m := range kinds {
			jobs = append(jobs, job{k, m})
		}
	}
	run := func(w *Worker, j job) *Result {
		w.Reset(s.wd)
		o := s.opts(nil, 0)
		o.OpAt, o.OpMode, o.OpErrno = j.k, kinds[j.m][0], kinds[j.m][1]
		return w.Exec(o)
	}
	done := int64(0)
	c.Par(len(jobs), func(w *Worker, i int) {
		j := jobs[i]
		r := run(w, j)
		c.Count("executions", 1)
		op := Op{}
		if j.k <= len(r.Ops) {
			op = r.Ops[j.k-1]
		}
		op.Path = strings.Replace(op.Path, w.Root, "", 1)
		c.Edge(s.name, fmt.Sprintf("op %d %v", j.k, kinds[j.m]), s.name+fmt.Sprint(j.k, j.m)+evLine(r.Evs)+r.Verdict)
		c.Outcome(s.name + evLine(r.Evs) + r.Verdict)
		sig, msg := judge(w, r, op)
		if sig != "" {
			again := 0
			for t := 0; t < 3; t++ {
				r2 := run(w, j)
				if s2, _ := judge(w, r2, op); s2 == sig {
					again++
				}
			}
			if again >= 2 {
				c.Violate(s.name+":"+sig, msg, map[string]any{"scenario": s.name, "detail": s.describe(), "file_operation": j.k, "of": n, "fault": kinds[j.m], "path": op.Path})
			}
		}
		atomic.AddInt64(&done, 1)
	})
	c.Bound("%s: a fault %v at each of %d file operations: %d of %d executions", s.name, kinds, n, done, len(jobs))
}
