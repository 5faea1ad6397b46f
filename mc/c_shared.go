package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// ---- two instances at the same time, in different projects, sharing the caches (C29) ----

// project is one of two projects that share the caches.
type project struct {
	d    *Decl
	args []string
}

func (p *project) installs() bool { return p.args[0] == "install" }

type pairBase struct {
	name string
	a, b project
	warm string // "", "src": archives cached, "bin": builds too, "old": the databases have expired
}

func pairBases() []*pairBase {
	a, b, t := Pkg{Name: "A", Ver: "2.0", Imports: "B", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", Variant: "repo"}
	r1 := DRepo{Name: "R1", Src: []Pkg{a, b, t}}
	r2 := DRepo{Name: "R2", Src: []Pkg{{Name: "B", Ver: "9.0", Variant: "r2"}}}
	mk := func(f func(d *Decl), pkgs ...string) *Decl {
		d := &Decl{Packages: pkgs, Threads: 1, Repos: []DRepo{r1, r2}}
		if f != nil {
			f(d)
		}
		return d
	}
	in := []string{"install"}
	was := func(d *Decl) { d.Installed = []Pkg{{Name: "B", Ver: "1.0", Variant: "was"}} }
	bin := func(d *Decl) { d.Repos[0].RepoType, d.Repos[0].Bin = "MPN", []Pkg{a, b, t} }
	tar := func(d *Decl) { d.Tarballs = []Pkg{{Name: "T", Ver: "0.3", Imports: "C", Variant: "tar"}} }
	return []*pairBase{
		{"cold", project{mk(nil, "A"), in}, project{mk(nil, "A", "C"), in}, ""},
		{"update", project{mk(was, "A"), in}, project{mk(nil, "B"), in}, ""},
		{"binaries", project{mk(bin, "A"), in}, project{mk(bin, "A"), in}, ""},
		{"tarballs", project{mk(tar), in}, project{mk(tar, "B"), in}, ""},
		{"archives-cached", project{mk(nil, "A"), in}, project{mk(nil, "A"), in}, "src"},
		{"builds-cached", project{mk(nil, "A"), in}, project{mk(nil, "C"), in}, "bin"},
		{"databases-expired", project{mk(nil, "C"), in}, project{mk(nil, "A"), in}, "old"},
		{"plan-install", project{mk(nil, "A", "C"), []string{"plan", "--loglevel", "debug"}}, project{mk(nil, "A"), in}, ""},
		{"install-plan", project{mk(nil, "B"), in}, project{mk(nil, "A"), []string{"plan", "--loglevel", "debug"}}, ""},
		{"inspect-install", project{mk(nil, "A"), []string{"inspect", "--deps", "--json"}}, project{mk(nil, "A"), in}, ""},
		{"two-workers", project{mk(func(d *Decl) { d.Threads = 2 }, "A", "C"), in}, project{mk(func(d *Decl) { d.Threads = 2 }, "A", "C"), in}, ""},
	}
}

// second moves the project of a world aside.
func second(wd *World) *World {
	n := newWorld()
	mv := func(k string) string {
		if strings.HasPrefix(k, "proj/") {
			return "proj2/" + k[5:]
		}
		return k
	}
	for k, v := range wd.Files {
		n.Files[mv(k)] = v
	}
	for k, v := range wd.Mode {
		n.Mode[mv(k)] = v
	}
	for k, v := range wd.Link {
		n.Link[mv(k)] = v
	}
	for k, v := range wd.MTime {
		n.MTime[mv(k)] = v
	}
	return n
}

// view is a snapshot as the first or second project sees it.
func view(s Snap, second bool) Snap {
	n := Snap{}
	for k, v := range s {
		switch {
		case strings.HasPrefix(k, "proj2/"):
			if second {
				n["proj/"+k[6:]] = v
			}
		case strings.HasPrefix(k, "proj/"):
			if !second {
				n[k] = v
			}
		default:
			n[k] = v
		}
	}
	return n
}

// pairRun is one execution of both instances.
type pairRun struct {
	ra, rb        *Result
	before, after Snap
	blocked       bool
	next          *Result // the first project installed again, into an empty library
	nextEnd       Snap
}

// runPair runs the first instance up to its file access ka, the second one up to
// its file access kb (0: to its end), the first to its end, and the second to its end.
func (c *Ctx) runPair(w *Worker, p *pairBase, wd *World, sc *Scen, ka, kb int) *pairRun {
	if w.mate == nil {
		t, err := c.S.newTwin(w)
		if err != nil {
			c.Broken("twin: %v", err)
			return nil
		}
		w.mate = t
	}
	w.Reset(wd)
	if p.warm != "" {
		for _, d := range []string{"proj", "proj2"} {
			w.Exec(Opts{Args: []string{"install", "--library", "otherlib"}, Scen: sc, Dir: d})
		}
		switch p.warm {
		case "src":
			w.removeAll("cache/*/binary")
		case "old":
			w.age("xdg/pkgr/r_packagedb_caches/*", 100*time.Hour)
			w.removeAll("cache/*/binary")
		}
		w.removeAll("proj/otherlib")
		w.removeAll("proj2/otherlib")
	}
	keep := (&Kase{}).keep
	r := &pairRun{before: keep(w.Snapshot(""))}
	aDone, bDone, bPaused := make(chan bool), make(chan bool), make(chan bool)
	runB := func() {
		o := Opts{Args: p.b.args, Scen: sc, Dir: "proj2", PauseAt: kb}
		o.Pause = func() {
			close(bPaused)
			select {
			case <-aDone:
			case <-time.After(3 * time.Second):
				r.blocked = true // waits for what the other one holds
			}
		}
		r.rb = w.mate.Exec(o)
		close(bDone)
	}
	started := false
	oa := Opts{Args: p.a.args, Scen: sc, PauseAt: ka}
	oa.Pause = func() {
		started = true
		go runB()
		select {
		case <-bDone:
		case <-bPaused:
		case <-time.After(3 * time.Second):
			r.blocked = true
		}
	}
	r.ra = w.Exec(oa)
	close(aDone)
	if !started {
		go runB()
	}
	<-bDone
	r.after = keep(w.Snapshot(""))
	r.next = w.Exec(Opts{Args: []string{"install", "--library", "fresh"}, Scen: sc})
	r.nextEnd = keep(w.Snapshot(""))
	return r
}

func (c *Ctx) judgePair(p *pairBase, r *pairRun, ref [2]*Ref) (string, string) {
	// either may find what the other one has fetched
	known := Snap{}
	for k, v := range r.before {
		known[k] = v
	}
	for k, v := range r.after {
		if strings.HasPrefix(k, "cache/") && !known.has(k) {
			known[k] = v
		}
	}
	for i, q := range []project{p.a, p.b} {
		x, name := r.ra, "the first instance"
		if i == 1 {
			x, name = r.rb, "the second instance"
		}
		if crashed(x) {
			return "crash", fmt.Sprintf("%s crashed or hung (%s): %s", name, x.Verdict, tail(x.all(), 500))
		}
		if x.Code != 0 {
			return q.args[0] + "-failed", fmt.Sprintf("%s (%v) failed: %s", name, q.args, tail(x.all(), 700))
		}
		vb, va := view(known, i == 1), view(r.after, i == 1)
		if q.installs() {
			if s := badInput(x, q.d); s != "" {
				return "input", name + ": " + s
			}
			if fs := q.d.judgeInstall(ref[i], x, vb, va); len(fs) > 0 {
				return "install:" + fs[0].sig, name + ": " + fs[0].msg
			}
		} else if df := vb.sub("proj/").diff(va.sub("proj/")); len(df) > 0 {
			return "changed", fmt.Sprintf("%s (%v) changed its project: %v", name, q.args, df)
		}
	}
	switch p.a.args[0] {
	case "plan":
		if sig, msg := p.a.d.judgeSaid(ref[0], r.ra); sig != "" {
			return sig, "the first instance: " + msg
		}
	case "inspect":
		if r.ra.Out != c.aloneOut[p.name] {
			return "says", fmt.Sprintf("%v says %s; alone it says %s", p.a.args, trunc(r.ra.Out, 400), trunc(c.aloneOut[p.name], 400))
		}
	}
	if p.b.args[0] == "plan" {
		if sig, msg := p.b.d.judgeSaid(ref[1], r.rb); sig != "" {
			return sig, "the second instance: " + msg
		}
	}
	// what is left in the caches serves the next install
	d := *p.a.d
	d.Library, d.Installed, d.Foreign = "fresh", nil, nil
	x := r.next
	if x.Code != 0 || crashed(x) {
		return "next-failed", fmt.Sprintf("installing from the caches both leave fails: %s", tail(x.all(), 600))
	}
	if s := badInput(x, &d); s != "" {
		return "next-input", "installing from the caches both leave: " + s
	}
	if fs := d.judgeInstall(d.ref(), x, view(r.after, false), view(r.nextEnd, false)); len(fs) > 0 {
		return "next:" + fs[0].sig, "installing from the caches both leave: " + fs[0].msg
	}
	return "", ""
}

func runC29(c *Ctx) {
	c.aloneOut = map[string]string{}
	for _, p := range pairBases() {
		if !c.timeLeft() {
			return
		}
		wa, sa := p.a.d.build()
		wb, sb := p.b.d.build()
		wd := wa.clone()
		for k, v := range second(wb).Files {
			wd.Files[k] = v
		}
		for k, v := range second(wb).Mode {
			wd.Mode[k] = v
		}
		for k, v := range sb.WWW {
			sa.WWW[k] = v
		}
		c.shareWWW(wd, sa)
		ref := [2]*Ref{p.a.d.ref(), p.b.d.ref()}
		// one after the other
		r0 := c.runPair(c.W[0], p, wd, sa, 0, 0)
		if r0 == nil {
			return
		}
		c.aloneOut[p.name] = r0.ra.Out
		if sig, msg := c.judgePair(p, r0, ref); sig != "" {
			c.Violate(p.name+":one-after-the-other:"+sig, msg, nil)
			return
		}
		n := r0.ra.FsCount
		second := make([]int, n+1)
		c.pairs(p, wd, sa, ref, n, func(i int) (int, int) { return i + 1, 0 }, func(i int, r *pairRun) { second[i+1] = r.rb.FsCount })
		c.Bound("%s: the second instance runs before each of the %d file accesses of the first", p.name, n)
		if c.nviol() > 0 || !c.timeLeft() {
			continue
		}
		// and the first one goes on in the middle of the second
		var ks [][2]int
		for ka := 1; ka <= n; ka++ {
			for kb := 1; kb <= second[ka]; kb++ {
				if c.quick() && (kb+7*ka)%41 != 0 {
					continue
				}
				ks = append(ks, [2]int{ka, kb})
			}
		}
		c.pairs(p, wd, sa, ref, len(ks), func(i int) (int, int) { return ks[i][0], ks[i][1] }, nil)
		c.Bound("%s: %d of the schedules in which the first instance stops at a file access, the second one at one of its own, the first goes on to its end, then the second (%s)", p.name, len(ks), pick(c, "every 41st", "all"))
	}
}

func (c *Ctx) pairs(p *pairBase, wd *World, sc *Scen, ref [2]*Ref, n int, at func(i int) (int, int), seen func(i int, r *pairRun)) {
	c.Par(n, func(w *Worker, i int) {
		ka, kb := at(i)
		r := c.runPair(w, p, wd, sc, ka, kb)
		if r == nil {
			return
		}
		c.Count("schedules", 1)
		c.Count("executions", 3)
		if r.blocked {
			c.Count("blocked", 1)
		}
		if seen != nil {
			seen(i, r)
		}
		c.Edge(p.name, fmt.Sprint(ka, kb), r.after.without(volatileFile).hash())
		c.Outcome(r.after.without(volatileFile).hash())
		if sig, msg := c.judgePair(p, r, ref); sig != "" {
			again := 0
			for t := 0; t < 3; t++ {
				if r := c.runPair(w, p, wd, sc, ka, kb); r != nil {
					if s2, _ := c.judgePair(p, r, ref); s2 == sig {
						again++
					}
				}
			}
			what := fmt.Sprintf("%s: the first instance (%v) stops before its file access %d", p.name, p.a.args, ka)
			if kb > 0 {
				what += fmt.Sprintf(", the second (%v) before its file access %d, the first goes on to its end", p.b.args, kb)
			} else {
				what += fmt.Sprintf(", the second (%v) runs", p.b.args)
			}
			if again >= 2 {
				c.Violate(p.name+":"+sig, what+": "+msg, map[string]any{"first": p.a.d.YAML(), "second": p.b.d.YAML(), "args": [][]string{p.a.args, p.b.args}, "access": []int{ka, kb}})
			} else {
				c.Count("unconfirmed", 1)
				c.Note("unconfirmed %s: %s: %s", sig, what, msg)
			}
		}
	})
}

func (w *Worker) removeAll(glob string) {
	l, _ := filepath.Glob(w.P(glob))
	for _, x := range l {
		os.RemoveAll(x)
	}
}

// age sets the time stamps of files back.
func (w *Worker) age(glob string, by time.Duration) {
	l, _ := filepath.Glob(w.P(glob))
	t := time.Now().Add(-by)
	for _, x := range l {
		os.Chtimes(x, t, t)
	}
}

func init() {
	checks["C29"] = checkDef{title: "instances sharing caches", run: runC29}
}
