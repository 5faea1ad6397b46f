package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// ---- kills and faults at every file operation of an install (C12, C13, C14) ----

// fbase is a start state whose install is interrupted.
type fbase struct {
	name string
	d    *Decl
	warm string // "" cold, "src" archives cached, "bin" builds cached as well
	fail []string
	args []string
	part bool // a package that fails to install leaves something in the library
}

// oddLib is a library whose path has characters special to file name patterns, shells and URLs.
const oddLib = "l [i] *b? 100%"

func faultBases() []*fbase {
	a, b, t := Pkg{Name: "A", Ver: "2.0", Imports: "B", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", Variant: "repo"}
	z := Pkg{Name: "Z", Ver: "0.1"}
	r1 := DRepo{Name: "R1", Src: []Pkg{a, b, t}}
	mk := func(f func(d *Decl)) *Decl {
		d := &Decl{Packages: []string{"A", "C"}, Threads: 1, Repos: []DRepo{r1, {Name: "R2", Src: []Pkg{{Name: "A", Ver: "9.0", Variant: "r2"}}}}}
		if f != nil {
			f(d)
		}
		return d
	}
	old := func(n, v string) Pkg { return Pkg{Name: n, Ver: v, Variant: "was"} }
	return []*fbase{
		{name: "fresh", d: mk(nil)},
		{name: "update", d: mk(func(d *Decl) {
			d.Installed, d.Foreign = []Pkg{old("A", "1.0"), old("B", "1.0")}, []Pkg{z}
		})},
		{name: "adopted", d: mk(func(d *Decl) {
			d.Foreign = []Pkg{old("A", "1.0"), old("C", "0.5"), z}
		})},
		{name: "tarball", d: mk(func(d *Decl) {
			d.Installed, d.Foreign = []Pkg{old("T", "0.1"), old("A", "1.0"), old("C", "0.1")}, []Pkg{z}
			d.Tarballs = []Pkg{{Name: "T", Ver: "0.3", Imports: "A", Variant: "tar"}}
		})},
		{name: "binaries", d: mk(func(d *Decl) {
			d.Repos[0].RepoType, d.Repos[0].Bin = "MPN", []Pkg{a, b}
			d.Cust = []PkgCust{{Pkg: "C", Type: "source"}}
			d.Installed, d.Foreign = []Pkg{old("B", "1.0")}, []Pkg{z}
		})},
		{name: "cached-builds", warm: "bin", d: mk(func(d *Decl) { d.Installed = []Pkg{old("B", "1.0"), old("C", "0.5")} })},
		{name: "rolled-back", warm: "src", fail: []string{"A"}, d: mk(func(d *Decl) {
			d.Installed, d.Foreign = []Pkg{old("C", "0.5"), old("B", "1.0")}, []Pkg{z}
			d.Library = oddLib
		})},
		{name: "remains", warm: "src", fail: []string{"A"}, part: true, d: mk(func(d *Decl) { d.Installed = []Pkg{old("C", "0.5")} })},
		{name: "tarball-fails", warm: "src", fail: []string{"T"}, d: mk(func(d *Decl) {
			d.Packages = []string{"C"}
			d.Installed, d.Foreign = []Pkg{old("C", "0.5"), old("T", "0.1")}, []Pkg{z}
			d.Tarballs = []Pkg{{Name: "T", Ver: "0.3", Imports: "C", Variant: "tar"}}
		})},
		{name: "two-workers", d: mk(func(d *Decl) {
			d.Threads, d.Installed = 2, []Pkg{old("C", "0.5"), old("B", "1.0")}
		})},
		{name: "no-update", d: mk(func(d *Decl) {
			d.NoUpdate, d.Installed = true, []Pkg{old("C", "0.5")}
		})},
	}
}

// world makes the start state and, if warm, the step that fills the caches.
func (f *fbase) world() (*World, *Scen, []Step) {
	wd, sc := f.d.build()
	var pre []Step
	if f.warm != "" {
		pre = append(pre, Step{Opts: Opts{Args: []string{"install", "--library", "otherlib"}}})
		if f.warm == "src" {
			pre = append(pre, Step{Opts: Opts{Args: []string{"plan"}}, Pre: func(w *Worker) {
				l, _ := filepath.Glob(w.P("cache/*/binary"))
				for _, x := range l {
					os.RemoveAll(x)
				}
				os.RemoveAll(w.P("proj/otherlib"))
			}})
		}
	}
	return wd, sc, pre
}

var stamps = []string{"PkgrVersion:", "PkgrInstallType:", "PkgrRepositoryURL:", "Repository:", "OriginalRepository:"}

// unstamped removes provenance stamps from the DESCRIPTION files of a library.
func unstamped(s Snap) Snap {
	n := Snap{}
	for k, v := range s {
		if strings.HasSuffix(k, "/DESCRIPTION") {
			var l []string
			for _, x := range strings.Split(v, "\n") {
				drop := strings.TrimSpace(x) == ""
				for _, st := range stamps {
					drop = drop || strings.HasPrefix(x, st)
				}
				if !drop {
					l = append(l, x)
				}
			}
			v = strings.Join(l, "\n")
		}
		n[k] = v
	}
	return n
}

// within tells whether every entry of a is in b with the same contents.
func within(a, b Snap) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// recoverable names the packages of before that are not recoverable from after:
// neither they nor their completed replacement are there, under any name.
func recoverable(before, after, done Snap) []string {
	before, after, done = unstamped(before), unstamped(after), unstamped(done)
	var lost []string
	for _, p := range before.top() {
		old, ok := before.sub(p+"/"), false
		if len(old) == 0 {
			continue // a file
		}
		for _, q := range after.top() {
			now := after.sub(q + "/")
			ok = ok || within(old, now)
			if q == p && len(done.sub(p+"/")) > 0 {
				ok = ok || within(done.sub(p+"/"), now)
			}
		}
		if !ok {
			lost = append(lost, p)
		}
	}
	return lost
}

func runC12(c *Ctx) {
	for _, f := range faultBases() {
		if c.timeLeft() && !f.part {
			c.sweepKills(f)
		}
	}
}

// sweepKills kills the install of a base at, and in the middle of, every mutating
// file operation, and lets another install follow; and kills that one as well.
func (c *Ctx) sweepKills(f *fbase) {
	wd, sc, pre := f.world()
	lib := "proj/" + f.d.lib() + "/"
	bad := *sc
	if bad.FailAlways, bad.FailPartial = f.fail, f.part; f.part {
		bad.FailStage = "final"
	}
	args := []string{"install"}
	// the uninterrupted install, with nothing failing
	base := &Kase{ID: f.name, World: wd, Scen: sc, Steps: append(append([]Step{}, pre...), Step{Opts: Opts{Args: args}})}
	rb := c.runKase(c.W[0], base, false)
	if rb.last().Code != 0 || crashed(rb.last()) {
		c.Broken("%s: the uninterrupted install failed: %s", f.name, tail(rb.last().all(), 300))
		return
	}
	start, want := rb.S[len(pre)].sub(lib), rb.end().sub(lib)
	if sig, msg := anyOf(f.d.judgeInstall(f.d.ref(), rb.last(), rb.S[len(pre)], rb.end()), "set", "source", "update", "content"); sig != "" {
		c.Violate(f.name+":uninterrupted:"+sig, msg, map[string]any{"config": f.d.YAML()})
		return
	}
	// the one that gets killed
	kb := &Kase{ID: f.name, World: wd, Scen: sc, Steps: append(append([]Step{}, pre...), Step{Opts: Opts{Args: args, Scen: &bad}})}
	rk := c.runKase(c.W[0], kb, false)
	n := rk.last().OpCount
	type kill struct{ k, mode int }
	judge := func(r *Run, kills int) (string, string) {
		i := len(pre)
		for j := 0; j < kills; j++ {
			after := r.S[i+1].sub(lib)
			if lost := recoverable(start, after, want); len(lost) > 0 {
				return "lost", fmt.Sprintf("base %s: after a kill at %s the packages %v are not recoverable from the library, which holds %v", f.name, opName(r.R[i], r.W), lost, after.top())
			}
			i++
		}
		last := r.last()
		if crashed(last) || last.Code != 0 {
			return "rerun-failed", fmt.Sprintf("base %s: after a kill at %s installing again failed: %s", f.name, opName(r.R[len(pre)], r.W), tail(last.all(), 500))
		}
		if df := unstamped(want).diff(unstamped(r.end().sub(lib))); len(df) > 0 {
			s := classify(df)
			for _, x := range df {
				if strings.Contains(x, "partial") {
					s = "leftover"
				}
			}
			return "rerun-differs:" + s, fmt.Sprintf("base %s: after a kill at %s and installing again the library differs from an uninterrupted install: %v; R events of the second install: %s", f.name, opName(r.R[len(pre)], r.W), df, evLine(last.Evs))
		}
		if b := badInput(last, f.d); b != "" {
			return "rerun-input", fmt.Sprintf("base %s: after a kill at %s: %s", f.name, opName(r.R[len(pre)], r.W), b)
		}
		return "", ""
	}
	// the install that follows keeps what is there
	kept := func(r *Run) (string, string) {
		i, last := len(pre), r.last()
		at := fmt.Sprintf("base %s: after a kill at %s and an install without updates", f.name, opName(r.R[i], r.W))
		if lost := recoverable(start, r.S[i+1].sub(lib), want); len(lost) > 0 {
			return "lost", fmt.Sprintf("base %s: after a kill at %s the packages %v are not recoverable from the library", f.name, opName(r.R[i], r.W), lost)
		}
		if crashed(last) || last.Code != 0 {
			return "rerun-failed", fmt.Sprintf("%s: it failed: %s", at, tail(last.all(), 500))
		}
		was, done, end := unstamped(start), unstamped(want), unstamped(r.end().sub(lib))
		for _, p := range end.top() {
			if len(was.sub(p+"/")) == 0 && len(done.sub(p+"/")) == 0 {
				return "kept:extra", fmt.Sprintf("%s: the library holds %s", at, p)
			}
		}
		for _, p := range done.top() {
			now := end.sub(p + "/")
			same := func(o Snap) bool { return len(o) > 0 && within(o, now) && within(now, o) }
			if !same(was.sub(p+"/")) && !same(done.sub(p+"/")) {
				return "kept:incomplete", fmt.Sprintf("%s: %s is neither what was there before nor what an uninterrupted install makes of it: %v", at, p, done.sub(p+"/").diff(now))
			}
		}
		return "", ""
	}
	one := func(kk ...kill) *Kase {
		k := &Kase{ID: fmt.Sprintf("%s-kills-%v", f.name, kk), World: wd, Scen: sc, Desc: f.d.YAML(), NoStock: true}
		k.Steps = append(k.Steps, pre...)
		for i, x := range kk {
			o := Opts{Args: args, OpAt: x.k, OpMode: x.mode}
			if i == 0 {
				o.Scen = &bad
			}
			k.Steps = append(k.Steps, Step{Opts: o})
		}
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: args}})
		k.Judge = func(r *Run) (string, string) { return judge(r, len(kk)) }
		return k
	}
	var jobs []kill
	for k := 1; k <= n; k++ {
		jobs = append(jobs, kill{k, 1}, kill{k, 2})
	}
	// which operations the second install has
	nops := make([][]bool, len(jobs))
	libOp := make([]bool, len(jobs))
	c.Cases(len(jobs), 0, func(i int) *Kase {
		k := one(jobs[i])
		j := k.Judge
		k.Judge = func(r *Run) (string, string) {
			nops[i] = make([]bool, r.last().OpCount+1)
			for j, o := range r.last().Ops {
				if j+1 < len(nops[i]) {
					nops[i][j+1] = strings.Contains(o.Path, "/"+lib)
				}
			}
			x := r.R[len(pre)]
			libOp[i] = jobs[i].k <= len(x.Ops) && strings.Contains(x.Ops[jobs[i].k-1].Path, "/"+lib)
			return j(r)
		}
		return k
	})
	c.Bound("%s: killed before and in the middle of each of %d file operations, then run again", f.name, n)
	if !f.d.NoUpdate && len(start.top()) > 0 {
		c.Cases(len(jobs), 0, func(i int) *Kase {
			k := one(jobs[i])
			k.ID, k.Judge = fmt.Sprintf("%s-kept-%v", f.name, jobs[i]), kept
			k.Steps[len(k.Steps)-1].Opts.Args = append(append([]string{}, args...), "--no-update")
			return k
		})
		c.Bound("%s: the same kills, then an install without updates", f.name)
	}
	// the second install is killed too
	if !c.timeLeft() || c.nviol() > 6 {
		return
	}
	var pairs [][2]kill
	for i, x := range jobs {
		if x.mode != 1 || (c.quick() && !libOp[i]) {
			continue
		}
		for j := 1; j < len(nops[i]); j++ {
			if c.quick() && j > 8 && j%7 != x.k%7 && !nops[i][j] {
				continue
			}
			pairs = append(pairs, [2]kill{x, {j, 1}})
		}
	}
	full := "every pair"
	if c.quick() {
		full = "pairs whose first kill is at a library operation; of the second ones every library operation, the first 8 and every 7th of the others"
	}
	c.Cases(len(pairs), 0, func(i int) *Kase { return one(pairs[i][0], pairs[i][1]) })
	c.Bound("%s: killed twice: %d pairs (%s)", f.name, len(pairs), full)
}

func opName(r *Result, w *Worker) string {
	for i := range r.Ops {
		if i == len(r.Ops)-1 {
			return fmt.Sprintf("file operation %d (%d on %s)", r.OpCount, r.Ops[i].Trap, strings.Replace(r.Ops[i].Path, w.Root, "", 1))
		}
	}
	return fmt.Sprintf("file operation %d", r.OpCount)
}

// badInput describes an archive R was given that is not the planned one.
func badInput(r *Result, d *Decl) string {
	ref := d.ref()
	for _, e := range r.Evs {
		if e.T != "rstart" || e.Kind != "install" {
			continue
		}
		if e.Bad != "" {
			return fmt.Sprintf("R was given %s: %s", e.Src, e.Bad)
		}
		x, ok := ref.Plan[e.Pkg]
		if !ok {
			continue
		}
		if _, tar := ref.Tar[e.Pkg]; tar {
			continue
		}
		if (e.Build || x.Type == "binary") && e.Sum != x.Sum {
			return fmt.Sprintf("R was given %s, which is not the archive at %s", e.Src, x.URL)
		}
	}
	return ""
}

// ---- C13: downloads ----

// notOrdinary tells that an install under a fault neither did all it should nor
// stopped with a report, leaving the library alone.
func faultOutcome(d *Decl, ref *Ref, r *Result, before, after Snap, what string) (string, string) {
	if strings.Contains(r.Err, "panic: runtime error") || r.Verdict == "deadlock" || r.Verdict == "timeout" || r.Verdict == "horizon" {
		return "crash", fmt.Sprintf("%s: the command crashed or hung: %s", what, tail(r.all(), 400))
	}
	if b := badInput(r, d); b != "" {
		return "bad-input", fmt.Sprintf("%s: %s", what, b)
	}
	lib := "proj/" + d.lib() + "/"
	sig, msg := anyOf(d.judgeInstall(ref, r, before, after), "set", "source", "update", "content", "crash")
	if sig == "" {
		return "", "" // not affected
	}
	if r.Code == 0 {
		return "unreported", fmt.Sprintf("%s: the command reports success, but: %s", what, msg)
	}
	if df := before.sub(lib).diff(after.sub(lib)); len(df) > 0 {
		return "library:" + classify(df), fmt.Sprintf("%s: the command failed, but the library changed: %v", what, df)
	}
	said := false
	for _, l := range parseLog(r.all()) {
		said = said || l.level == "error" || l.level == "fatal" || l.level == "panic"
	}
	if !said {
		return "unreported", fmt.Sprintf("%s: the failure is not reported: %s", what, tail(r.all(), 300))
	}
	return "", ""
}

var httpModes = []string{"404", "500", "conn", "trunc", "202", "429", "204"}

func runC13(c *Ctx) {
	all := []string{"set", "source", "update", "content", "crash"}
	for _, f := range faultBases() {
		if f.fail != nil || f.warm == "bin" || !c.timeLeft() {
			continue
		}
		wd, sc, _ := f.world()
		ref := f.d.ref()
		var urls []string
		for _, p := range sortedKeys(ref.Plan) {
			urls = append(urls, ref.Plan[p].URL)
		}
		args := []string{"install"}
		// every set of one or two failing requests, twice in a row, then healthy
		var sets [][]HTTPFault
		for i, u := range urls {
			for _, m := range httpModes {
				sets = append(sets, []HTTPFault{{Suffix: u[7:], Mode: m}})
				for _, v := range urls[:i] {
					for _, m2 := range httpModes {
						sets = append(sets, []HTTPFault{{Suffix: u[7:], Mode: m}, {Suffix: v[7:], Mode: m2}})
					}
				}
			}
		}
		n2 := pick(c, 4, len(sets))
		c.Cases(len(sets)*n2, pick(c, 3, 12), func(i int) *Kase {
			a, b := sets[i/n2], sets[(i/n2+i%n2*5)%len(sets)]
			s1, s2 := *sc, *sc
			s1.Faults, s2.Faults = a, b
			k := &Kase{ID: fmt.Sprintf("%s-http-%v-%v", f.name, a, b), World: wd, Scen: sc, Desc: f.d.YAML()}
			k.Steps = []Step{{Opts: Opts{Args: args, Scen: &s1}}, {Opts: Opts{Args: args, Scen: &s2}}, {Opts: Opts{Args: args}}}
			k.Judge = func(r *Run) (string, string) {
				for j := 0; j < 2; j++ {
					if sig, msg := faultOutcome(f.d, ref, r.R[j], r.S[j], r.S[j+1], fmt.Sprintf("base %s, requests failing %v", f.name, [][]HTTPFault{a, b}[j])); sig != "" {
						return sig, msg
					}
					if sig, _ := anyOf(f.d.judgeInstall(ref, r.R[j], r.S[j], r.S[j+1]), all...); sig == "" {
						return "", "" // not affected: installed
					}
				}
				if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[2], r.S[2], r.S[3]), all...); sig != "" {
					return "retry:" + sig, fmt.Sprintf("base %s: after failing requests %v and then %v a healthy install: %s", f.name, a, b, msg)
				}
				if b := badInput(r.R[2], f.d); b != "" {
					return "retry:bad-input", fmt.Sprintf("base %s: after failing requests %v and then %v: %s", f.name, a, b, b)
				}
				return "", ""
			}
			return k
		})
		c.Bound("%s: every one and two of %d archive requests failing in each of the ways %v (%d sets), followed by %d other sets each, then a healthy install", f.name, len(urls), httpModes, len(sets), n2)
		// file operations on cached archives
		c.sweepOps(f, wd, sc, "/cache/", "archives")
	}
}

// sweepOps makes every file operation below a directory fail in every way.
func (c *Ctx) sweepOps(f *fbase, wd *World, sc *Scen, dir, what string) {
	ref := f.d.ref()
	args := []string{"install"}
	all := []string{"set", "source", "update", "content", "crash"}
	rb := c.runKase(c.W[0], &Kase{ID: f.name, World: wd, Scen: sc, Steps: []Step{{Opts: Opts{Args: args}}}}, false)
	first := rb.last().OpCount
	for _, e := range rb.last().Evs {
		if e.T == "rstart" && e.Kind == "install" && e.Ops > 0 {
			first = min(first, e.Ops)
		}
	}
	var ops []int
	for i, op := range rb.last().Ops {
		if i <= first && strings.Contains(op.Path, dir) {
			ops = append(ops, i+1)
		}
	}
	modes := [][2]int{{1, 0}, {2, 0}, {3, 28}, {3, 5}, {3, 13}, {5, 28}}
	c.Cases(len(ops)*len(modes), 0, func(i int) *Kase {
		op, m := ops[i/len(modes)], modes[i%len(modes)]
		k := &Kase{ID: fmt.Sprintf("%s-%s-op%d-%v", f.name, what, op, m), World: wd, Scen: sc, Desc: f.d.YAML(), NoStock: true}
		k.Steps = []Step{{Opts: Opts{Args: args, OpAt: op, OpMode: m[0], OpErrno: m[1]}}, {Opts: Opts{Args: args}}}
		k.Judge = func(r *Run) (string, string) {
			ds := fmt.Sprintf("base %s, fault %v at file operation %d on %s", f.name, m, op, strings.Replace(rb.last().Ops[op-1].Path, c.W[0].Root, "", 1))
			if m[0] > 2 {
				if sig, msg := faultOutcome(f.d, ref, r.R[0], r.S[0], r.S[1], ds); sig != "" {
					return sig, msg
				}
			} else if df := r.S[0].sub("proj/" + f.d.lib() + "/").diff(r.S[1].sub("proj/" + f.d.lib() + "/")); len(df) > 0 {
				return "library", fmt.Sprintf("%s: the library changed: %v", ds, df)
			}
			if b := badInput(r.R[0], f.d); b != "" {
				return "bad-input", ds + ": " + b
			}
			if sig, _ := anyOf(f.d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), all...); sig == "" {
				return "", "" // not affected: installed
			}
			if sig, msg := anyOf(f.d.judgeInstall(ref, r.R[1], r.S[1], r.S[2]), all...); sig != "" {
				return "retry:" + sig, fmt.Sprintf("%s, then a healthy install: %s", ds, msg)
			}
			if b := badInput(r.R[1], f.d); b != "" {
				return "retry:bad-input", fmt.Sprintf("%s, then a healthy install: %s", ds, b)
			}
			return "", ""
		}
		return k
	})
	c.Bound("%s: %d file operations on %s x %d faults (killed before, killed in the middle, no space, I/O error, permission denied, short write), then a healthy install", f.name, len(ops), what, len(modes))
}

func init() {
	checks["C12"] = checkDef{title: "kills", run: runC12}
	checks["C13"] = checkDef{title: "downloads", run: runC13}
}
