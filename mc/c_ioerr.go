package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// ---- errors of the file system during an install (C30) ----

// complaints are the messages of warning level or above.
func complaints(w *Worker, r *Result) map[string]int {
	m := map[string]int{}
	for _, l := range parseLog(r.all()) {
		switch l.level {
		case "warning", "error", "fatal", "panic":
			m[strings.ReplaceAll(l.msg, w.Root, "")]++
		}
	}
	return m
}

// rootless replaces the scratch directory in file contents.
func rootless(w *Worker, s Snap) Snap {
	n := Snap{}
	for k, v := range s {
		n[k] = strings.ReplaceAll(v, w.Root, "@ROOT@")
	}
	return n
}

func runC30(c *Ctx) {
	for _, f := range faultBases() {
		if c.timeLeft() {
			c.sweepErrors(f)
		}
	}
}

// sweepErrors makes every file operation of an install fail, and installs again.
func (c *Ctx) sweepErrors(f *fbase) {
	wd, sc, pre := f.world()
	lib := "proj/" + f.d.lib() + "/"
	bad := *sc
	if bad.FailAlways, bad.FailPartial = f.fail, f.part; f.part {
		bad.FailStage = "final"
	}
	args := []string{"install"}
	good := c.runKase(c.W[0], &Kase{ID: f.name, World: wd, Scen: sc, Steps: append(append([]Step{}, pre...), Step{Opts: Opts{Args: args}})}, false)
	base := c.runKase(c.W[0], &Kase{ID: f.name, World: wd, Scen: sc, Steps: append(append([]Step{}, pre...), Step{Opts: Opts{Args: args, Scen: &bad}})}, false)
	if good.last().Code != 0 || crashed(good.last()) {
		c.Broken("%s: the undisturbed install failed: %s", f.name, tail(good.last().all(), 300))
		return
	}
	reads := c.runKase(c.W[0], &Kase{ID: f.name, World: wd, Scen: sc, Steps: append(append([]Step{}, pre...), Step{Opts: Opts{Args: args, Scen: &bad, OpMode: 7, OpAt: 1 << 30}})}, false)
	start, want, done := good.S[len(pre)].sub(lib), rootless(base.W, base.end().sub(lib)), good.end().sub(lib)
	said := complaints(base.W, base.last())
	kinds := []struct {
		mode, errno int
		what        string
	}{{3, 28, "no space"}, {5, 5, "an I/O error halfway"}, {3, 13, "permission denied"}, {7, 5, "an I/O error"}, {8, 28, "a disk that is full from then on"}}
	type job struct{ op, kind int }
	var jobs []job
	for i, k := range kinds {
		n := base.last().OpCount
		if k.mode == 7 {
			n = reads.last().FsCount
		}
		for op := 1; op <= n; op++ {
			jobs = append(jobs, job{op, i})
		}
	}
	c.Cases(len(jobs), 0, func(i int) *Kase {
		j := jobs[i]
		kd := kinds[j.kind]
		k := &Kase{ID: fmt.Sprintf("%s-error-%d-%d", f.name, j.op, j.kind), World: wd, Scen: sc, Desc: f.d.YAML(), NoStock: true}
		k.Steps = append(append([]Step{}, pre...), Step{Opts: Opts{Args: args, Scen: &bad, OpAt: j.op, OpMode: kd.mode, OpErrno: kd.errno}}, Step{Opts: Opts{Args: args}})
		judge := func(r *Run) (string, string) {
			x := r.R[len(pre)]
			after := rootless(r.W, r.S[len(pre)+1].sub(lib))
			what := fmt.Sprintf("base %s: %s at file operation %d (%s)", f.name, kd.what, j.op, opName(x, r.W))
			if kd.mode != 7 && j.op <= len(x.Ops) {
				what = fmt.Sprintf("base %s: %s at file operation %d (%d on %s)", f.name, kd.what, j.op, x.Ops[j.op-1].Trap, strings.Replace(x.Ops[j.op-1].Path, r.W.Root, "", 1))
			}
			if x.ReadFailed != "" {
				what = fmt.Sprintf("base %s: %s at file access %d (%s)", f.name, kd.what, j.op, x.ReadFailed)
			}
			if crashed(x) {
				return "crash", fmt.Sprintf("%s: the command crashed or hung (%s): %s", what, x.Verdict, tail(x.all(), 500))
			}
			reported := false
			for m, n := range complaints(r.W, x) {
				reported = reported || n > said[m]
			}
			if strings.Contains(x.ReadFailed, "os-release") {
				return "", "" // not a matter of this file system
			}
			if b := badInput(x, f.d); b != "" && !reported {
				return "input", what + ": " + b
			}
			df := want.diff(after)
			if kd.mode == 7 {
				// another way to the same package is recorded differently
				df = unstamped(want).diff(unstamped(after))
			}
			if f.part && len(unstamped(rootless(good.W, done)).diff(unstamped(after))) == 0 {
				df = nil // another way was taken, on which nothing fails
			}
			if len(df) > 0 && !reported {
				return "silent:" + classify(df), fmt.Sprintf("%s: nothing is reported, but the library is not what it should be: %v; output: %s", what, df, tail(x.all(), 600))
			}
			if lost := recoverable(start, after, done); len(lost) > 0 {
				return "lost", fmt.Sprintf("%s: the packages %v are not recoverable from the library, which holds %v; output: %s", what, lost, after.top(), tail(x.all(), 600))
			}
			last := r.last()
			if crashed(last) || last.Code != 0 {
				return "again-failed", fmt.Sprintf("%s: installing again failed: %s", what, tail(last.all(), 500))
			}
			if df := unstamped(done).diff(unstamped(r.end().sub(lib))); len(df) > 0 {
				return "again-differs:" + classify(df), fmt.Sprintf("%s: after installing again the library differs from an undisturbed install: %v; first output: %s", what, df, tail(x.all(), 600))
			}
			if b := badInput(last, f.d); b != "" {
				return "again-input", what + ": installing again: " + b
			}
			return "", ""
		}
		k.Judge = func(r *Run) (string, string) {
			s, m := judge(r)
			if s != "" && os.Getenv("DBG") != "" {
				w := r.R[len(pre)].ReadFailed
				if w == "" {
					w = opName(r.R[len(pre)], r.W)
				}
				s += fmt.Sprint(kd.mode) + filepath.Base(w)
			}
			return s, m
		}
		return k
	})
	c.Bound("%s: each of %d file operations failing for lack of space, halfway with an I/O error, for lack of permission, the disk full from there on, and each of %d file accesses, reads included, with an I/O error; then a healthy install", f.name, base.last().OpCount, base.last().FsCount)
}

func init() {
	checks["C30"] = checkDef{title: "errors of the file system", run: runC30, quick: 105 * time.Second}
}
