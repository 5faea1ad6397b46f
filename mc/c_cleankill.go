package main

import (
	"crypto/md5"
	"fmt"
	"strings"
)

// ---- C33: cleaning that is interrupted or fails ----

// r1Key is the directory of repository R1 in the package cache.
var r1Key = fmt.Sprintf("R1-%x", md5.Sum([]byte("http://r1.example")))[:15]

func runC33(c *Ctx) {
	a, b, t := Pkg{Name: "A", Ver: "2.0", Imports: "B", Variant: "repo"}, Pkg{Name: "B", Ver: "1.5", Variant: "repo"}, Pkg{Name: "C", Ver: "1.0", Variant: "repo"}
	for _, v := range []struct {
		name string
		d    *Decl
	}{
		{"source", &Decl{Packages: []string{"A", "C"}, Threads: 1, Repos: []DRepo{{Name: "R1", Src: []Pkg{a, b, t}}}, Tarballs: []Pkg{{Name: "T", Ver: "0.3", Imports: "C", Variant: "tar"}}}},
		{"binaries", &Decl{Packages: []string{"A", "C"}, Threads: 1, Repos: []DRepo{{Name: "R1", RepoType: "MPN", Src: []Pkg{a, b, t}, Bin: []Pkg{a, b}}}, Cust: []PkgCust{{Pkg: "C", Type: "source"}}}},
	} {
		for _, args := range [][]string{{"clean", "--all"}, {"clean", "cache"}, {"clean", "cache", "--binaries-only"}, {"clean", "cache", "--src-only"}, {"clean", "pkgdbs"}, {"clean", "cache", "--repos=" + r1Key}, {"clean", "pkgdbs", "--repos=R1"}} {
			if c.timeLeft() {
				c.cleanKill(v.name, v.d, args)
			}
		}
	}
}

func (c *Ctx) cleanKill(name string, d *Decl, args []string) {
	wd, sc := d.build()
	// what is none of clean's business
	wd.Add("proj/src/code.c", "mine").Add("cache/note.txt", "mine")
	id := fmt.Sprintf("%v (%s)", args, name)
	pre := Step{Opts: Opts{Args: []string{"install", "--library", "@ROOT@/away/lib"}}}
	inst := Step{Opts: Opts{Args: []string{"install"}}}
	mk := func(o Opts, more ...Step) *Kase {
		o.Args = args
		return &Kase{ID: id, World: wd, Scen: sc, NoStock: true, Desc: d.YAML(), Steps: append([]Step{pre, {Opts: o}}, more...)}
	}
	wd.Add("away/", "")
	base := c.runKase(c.W[0], mk(Opts{}, inst), false)
	reads := c.runKase(c.W[0], mk(Opts{OpMode: 7, OpAt: 1 << 30}), false)
	for i, r := range base.R {
		if r.Code != 0 || crashed(r) {
			c.Broken("%s: step %d of the undisturbed history failed: %s", id, i, tail(r.all(), 300))
			return
		}
	}
	lib := "proj/" + d.lib() + "/"
	cleaned, done := rootless(base.W, base.S[2]), unstamped(base.end().sub(lib))
	said := complaints(base.W, base.R[1])
	kinds := []struct {
		mode, errno int
		what        string
	}{{1, 0, "killed before"}, {2, 0, "killed in the middle of"}, {3, 13, "permission denied at"}, {3, 5, "an I/O error at"}, {7, 5, "an I/O error at access"}, {7, 13, "permission denied at access"}}
	if c.quick() {
		kinds = kinds[:5]
	}
	type job struct{ op, kind int }
	var jobs []job
	for i, k := range kinds {
		n := base.R[1].OpCount
		if k.mode == 7 {
			n = reads.R[1].FsCount
		}
		for op := 1; op <= n; op++ {
			jobs = append(jobs, job{op, i})
		}
	}
	again := Step{Opts: Opts{Args: args}}
	c.Cases(len(jobs), 0, func(i int) *Kase {
		j := jobs[i]
		kd := kinds[j.kind]
		k := mk(Opts{OpAt: j.op, OpMode: kd.mode, OpErrno: kd.errno}, inst, again)
		k.ID = fmt.Sprintf("%s: %s %d", id, kd.what, j.op)
		k.Judge = func(r *Run) (string, string) {
			x := r.R[1]
			what := fmt.Sprintf("%s: %s file operation %d (%s)", id, kd.what, j.op, opName(x, r.W))
			if x.ReadFailed != "" {
				what = fmt.Sprintf("%s: %s %d (%s)", id, kd.what, j.op, x.ReadFailed)
			}
			if strings.HasSuffix(strings.TrimSuffix(x.ReadFailed, ")"), "/bin/R") || strings.HasSuffix(opName(x, r.W), "/bin/R)") {
				return "", "" // another R is the first on the path
			}
			killed := kd.mode < 3
			if !killed && crashed(x) {
				return "crash", what + ": " + tail(x.all(), 400)
			}
			now := rootless(r.W, r.S[2])
			// nothing else is removed
			for p, v := range cleaned {
				if w, ok := now[p]; (!ok || w != v) && !strings.HasPrefix(p, "tmp/") {
					return "more", fmt.Sprintf("%s: %s, which clean has no business with, is not what it was", what, p)
				}
			}
			left := ""
			for _, p := range sortedKeys(now) {
				if _, ok := cleaned[p]; !ok && !strings.HasSuffix(p, "/") && !strings.HasPrefix(p, "tmp/") {
					left = p
				}
			}
			if !killed && left != "" {
				told := x.Code != 0
				for m, n := range complaints(r.W, x) {
					told = told || n > said[m]
				}
				if !told {
					return "silent", fmt.Sprintf("%s: %s is still there, and nothing says so: %s", what, left, tail(x.all(), 300))
				}
			}
			y := r.R[2]
			if crashed(y) || y.Code != 0 {
				return "install-failed", fmt.Sprintf("%s: the next install failed: %s", what, tail(y.all(), 400))
			}
			if b := badInput(y, d); b != "" {
				return "install-input", fmt.Sprintf("%s: in the next install %s", what, b)
			}
			if df := done.diff(unstamped(r.S[3].sub(lib))); len(df) > 0 {
				return "install-differs:" + classify(df), fmt.Sprintf("%s: the library the next install makes differs from the one an install after an undisturbed clean makes: %v; R events: %s", what, df, evLine(y.Evs))
			}
			z := r.last()
			if crashed(z) || z.Code != 0 {
				return "again", fmt.Sprintf("%s: cleaning again failed: %s", what, tail(z.all(), 300))
			}
			if args[1] == "--all" {
				for _, p := range sortedKeys(r.end()) {
					if (strings.HasPrefix(p, "cache/") || strings.HasPrefix(p, dbDir+"/")) && !strings.HasSuffix(p, "/") && !cleaned.has(p) && !strings.Contains(p, "partial") {
						return "again-left", fmt.Sprintf("%s: after installing and cleaning again %s is still there", what, p)
					}
				}
			}
			return "", ""
		}
		return k
	})
	c.Bound("%s: killed before and in the middle of each of %d file operations, each failing (permission, I/O), and each of %d file accesses; then an install and the same clean again", id, base.R[1].OpCount, reads.R[1].FsCount)
}

func init() {
	checks["C33"] = checkDef{title: "interrupted cleaning", run: runC33}
}
