package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// ---- C26: how many R installations run at once ----

// workCase is one setting of the number of workers.
type workCase struct {
	src      []Pkg
	user     []string
	conf     string // Threads: in the configuration
	cli      string // --threads
	procs    int
	tarballs []Pkg
	have     []Pkg
	update   bool
}

// limit is the documented number of workers.
func (x *workCase) limit() int {
	n := 0
	if x.conf != "" {
		n, _ = strconv.Atoi(x.conf)
	}
	if x.cli != "" {
		n, _ = strconv.Atoi(x.cli)
	}
	if n > 0 {
		return n
	}
	return min(8, x.procs)
}

var launchRe = regexp.MustCompile(`would launch (\d+) workers`)

// workOracle checks the events of an installation: never more than the limit,
// and (settled) whenever nothing but R is left to happen, as many as possible.
func (x *workCase) workOracle(evs []Ev, what string, settled bool) (string, string) {
	m := byName(x.src)
	start := append([]string{}, x.user...)
	for _, t := range x.tarballs {
		start = append(start, hard(t, m)...)
	}
	cl := closure(start, m)
	done, running, fail := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, p := range x.have {
		if q, ok := m[p.Name]; ok && q.Ver == p.Ver {
			done[p.Name] = true
		}
	}
	lim := x.limit()
	tb := byName(x.tarballs)
	for _, e := range evs {
		if e.Kind != "install" {
			continue
		}
		key := fmt.Sprint(e.ID)
		if e.T == "rstart" {
			running[key] = true
			if len(running) > lim {
				return "exceeded", fmt.Sprintf("%s: %d R installations run at once, %d are allowed: %s", what, len(running), lim, evLine(evs))
			}
			continue
		}
		if _, isTar := tb[e.Pkg]; settled && !isTar && len(fail) == 0 {
			// a process ends only when nothing else can happen
			ready := 0
			for p := range cl {
				if done[p] {
					continue
				}
				ok := true
				for _, d := range hard(m[p], m) {
					ok = ok && done[d]
				}
				if ok {
					ready++
				}
			}
			if want := min(lim, ready); len(running) < want {
				return "idle", fmt.Sprintf("%s: only %d R installations run although %d workers are allowed and %d packages are ready: %s", what, len(running), lim, ready, evLine(evs))
			}
		}
		delete(running, key)
		if e.Code != 0 {
			fail[e.Pkg] = true
		} else if !e.Build {
			done[e.Pkg] = true
		}
	}
	return "", ""
}

func runC26(c *Ctx) {
	flat := func(n int) (ps []Pkg, user []string) {
		for i := 0; i < n; i++ {
			p := Pkg{Name: fmt.Sprintf("P%02d", i), Ver: "1.0"}
			ps, user = append(ps, p), append(user, p.Name)
		}
		return
	}
	shapes := []string{"flat", "star", "fan", "layers", "update", "tarballs"}
	conf := []string{"", "1", "2", "3", "8", "9", "12", "0", "-2"}
	cli := []string{"", "1", "2", "5", "10", "0"}
	procs := []int{1, 2, 3, 7, 8, 9, 16, 64}
	if c.quick() {
		conf = []string{"", "1", "2", "9", "12", "0"}
		cli = []string{"", "1", "2", "10", "0"}
		procs = []int{1, 2, 7, 8, 9, 16}
	}
	n, dg := product(len(shapes), len(conf), len(cli), len(procs))
	c.Bound("%d shapes of up to 18 packages x Threads in %v x --threads in %v x %v processors: %d, R processes ending only when nothing else can happen, oldest first", len(shapes), conf, cli, procs, n)
	c.Cases(n, pick(c, 12, 48), func(i int) *Kase {
		g := dg(i)
		x := &workCase{conf: conf[g[1]], cli: cli[g[2]], procs: procs[g[3]]}
		switch shapes[g[0]] {
		case "flat":
			x.src, x.user = flat(14)
		case "star":
			x.src, x.user = flat(13)
			for j := range x.src[:12] {
				x.src[j].Imports = "P12"
			}
		case "fan":
			x.src, x.user = flat(13)
			var all []string
			for _, p := range x.src[1:] {
				all = append(all, p.Name)
			}
			x.src[0].Imports = strings.Join(all, ", ")
			x.user = x.user[:1]
		case "layers":
			x.src, x.user = flat(18)
			for j := range x.src {
				if j+6 < len(x.src) {
					x.src[j].Imports = x.src[j+6].Name
				}
			}
		case "update":
			x.src, x.user = flat(12)
			for _, p := range x.src[:10] {
				if p.Name != "P03" {
					p.Ver = "0.5"
				}
				x.have = append(x.have, p)
			}
		case "tarballs":
			x.src, x.user = flat(4)
			for j := 0; j < 10; j++ {
				x.tarballs = append(x.tarballs, Pkg{Name: fmt.Sprintf("T%d", j), Ver: "1.0", Imports: "P01"})
			}
		}
		d := &Decl{Packages: x.user, Repos: []DRepo{{Name: "CRAN", Src: x.src}}, Tarballs: x.tarballs, Installed: x.have, Rolloff: true}
		if x.conf != "" {
			d.Extra = append(d.Extra, "Threads: "+x.conf)
		}
		args := []string{"install"}
		plan := []string{"plan"}
		if x.cli != "" {
			args, plan = append(args, "--threads="+x.cli), append(plan, "--threads", x.cli)
		}
		wd, sc := d.build()
		sc.RAsync = true
		what := fmt.Sprintf("%s, Threads: %q, --threads=%q, %d processors", shapes[g[0]], x.conf, x.cli, x.procs)
		return &Kase{ID: fmt.Sprintf("workers-%v", g), World: wd, Scen: sc, Desc: what, NoStock: x.procs < 2,
			Steps: []Step{{Opts: Opts{Args: plan, Procs: x.procs}}, {Opts: Opts{Args: args, Procs: x.procs}}},
			Judge: func(k *Run) (string, string) {
				for _, r := range k.R {
					if crashed(r) || r.Verdict != "" {
						return "crash", what + ": " + r.Verdict + tail(r.all(), 400)
					}
				}
				for _, l := range launchRe.FindAllStringSubmatch(k.R[0].all(), -1) {
					if l[1] != fmt.Sprint(x.limit()) {
						return "announced", fmt.Sprintf("%s: plan announces %s workers, %d are allowed", what, l[1], x.limit())
					}
				}
				return x.workOracle(k.R[1].Evs, what, true)
			}}
	})
	b := Budget{Sched: 1, Env: 9, Out: 9, Total: 2}
	st := Budget{Env: 1, Out: 1, Total: 1}
	if !c.quick() {
		b = Budget{Sched: 2, Env: 9, Out: 9, Total: 4}
		st = Budget{Sched: 1, Env: 2, Out: 1, Total: 3}
	}
	var scens []*iscen
	xs := map[string]*workCase{}
	add := func(name string, x *workCase, s *iscen) {
		x.procs = 2
		x.src, x.user, x.have, x.tarballs = s.src, s.user, s.installed, s.tarballs
		x.cli = fmt.Sprint(s.threads)
		s.name, s.budget, s.starve = name, b, st
		xs[name] = x
		scens = append(scens, s)
	}
	f5, u5 := flat(5)
	add("flat1", &workCase{}, &iscen{src: f5[:3], user: u5[:3], threads: 1})
	add("flat2", &workCase{}, &iscen{src: f5[:4], user: u5[:4], threads: 2})
	add("flat3", &workCase{}, &iscen{src: f5[:pick(c, 4, 5)], user: u5[:pick(c, 4, 5)], threads: 3})
	add("diamond1", &workCase{}, &iscen{src: pDiamond, user: []string{"A"}, threads: 1, maxFail: 1})
	add("fork2", &workCase{}, &iscen{src: pFork, user: []string{"A", "B", "C"}, threads: 2, maxFail: 1})
	add("join2", &workCase{}, &iscen{src: pJoin, user: []string{"A"}, threads: 2, maxFail: 1})
	add("two2", &workCase{}, &iscen{src: pTwo, user: []string{"A", "C"}, threads: 2, cold: true, httpAsync: true})
	add("cached1", &workCase{}, &iscen{src: pFork, user: []string{"A", "B", "C"}, threads: 1, binCache: []string{"D", "B"}})
	add("tar1", &workCase{}, &iscen{src: pTwo, user: []string{"A", "C"}, threads: 1, tarballs: []Pkg{{Name: "T", Ver: "1.0", Imports: "A"}, {Name: "U", Ver: "1.0"}}})
	add("update2", &workCase{}, &iscen{src: pFork, user: []string{"A", "B", "C"}, threads: 2, installed: []Pkg{{Name: "D", Ver: "0.5"}, {Name: "A", Ver: "0.9", Imports: "D"}, {Name: "B", Ver: "0.9", Imports: "D"}}})
	exploreAll(c, scens, func(s *iscen, w *Worker, r *Result) (string, string) {
		return xs[s.name].workOracle(r.Evs, s.name, false)
	})
}

func init() {
	checks["C26"] = checkDef{title: "worker limit", run: runC26}
}
