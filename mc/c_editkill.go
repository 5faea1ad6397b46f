package main

import (
	"fmt"
	"os"
	"strings"
)

// ---- C32: an edit of the configuration is all or nothing ----

type editBase struct {
	name, op string
	names    []string
	args     []string // of the command
	file     string   // the configuration, where its contents are
	mode     int
	link     bool
	readonly bool
	digits   []int
}

func (b *editBase) world() (*World, *Scen) {
	d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{{Name: "A", Ver: "1.0"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0", Imports: "B"}, {Name: "D", Ver: "1.0"}}}}}
	wd, sc := d.build()
	text := strings.Replace(string(wd.Files["proj/pkgr.yml"]), "Packages:\n", "# the packages\nPackages:\n  - D # needed\n", 1)
	for i := 0; i < 40; i++ {
		text += fmt.Sprintf("# comment %d: %s\n", i, strings.Repeat("x", 100))
	}
	delete(wd.Files, "proj/pkgr.yml")
	wd.Add(b.file, text)
	if b.mode != 0 {
		wd.Mode[b.file] = os.FileMode(b.mode)
	}
	if b.link {
		wd.Link["proj/pkgr.yml"] = "@ROOT@/" + b.file
	}
	return wd, sc
}

func runC32(c *Ctx) {
	var bases []*editBase
	for _, o := range []struct {
		op    string
		names []string
		args  []string
	}{
		{"add", []string{"B"}, []string{"add", "B"}},
		{"add", []string{"B", "C", "A"}, []string{"add", "B", "C", "A"}},
		{"remove", []string{"D"}, []string{"remove", "D"}},
		{"remove", []string{"A", "D"}, []string{"remove", "A", "D"}},
		{"add", []string{"C"}, []string{"add", "--install", "C"}},
	} {
		for _, v := range []*editBase{
			{name: "plain", file: "proj/pkgr.yml"},
			{name: "private", file: "proj/pkgr.yml", mode: 0600},
			{name: "shared", file: "proj/pkgr.yml", mode: 0666},
			{name: "linked", file: "shared/the config.yml", link: true, mode: 0640},
			{name: "readonly", file: "proj/pkgr.yml", mode: 0444, readonly: true},
		} {
			if len(o.args) == 3 && o.args[1] == "--install" && v.name != "plain" && v.name != "linked" {
				continue
			}
			b := *v
			b.op, b.names, b.args = o.op, o.names, o.args
			bases = append(bases, &b)
		}
	}
	for _, b := range bases {
		if c.timeLeft() {
			c.editKill(b)
		}
	}
}

func (c *Ctx) editKill(b *editBase) {
	wd, sc := b.world()
	id := fmt.Sprintf("%v of a %s configuration", b.args, b.name)
	base := c.runKase(c.W[0], &Kase{ID: id, World: wd, Scen: sc, Steps: []Step{{Opts: Opts{Args: b.args}}}}, false)
	reads := c.runKase(c.W[0], &Kase{ID: id, World: wd, Scen: sc, Steps: []Step{{Opts: Opts{Args: b.args, OpMode: 7, OpAt: 1 << 30}}}}, false)
	old, fresh := rootless(base.W, base.S[0])[b.file], rootless(base.W, base.end())[b.file]
	if b.readonly {
		// nothing may be written; pretending otherwise is wrong
		if fresh != old {
			c.Violate(b.op+":readonly", id+": a configuration the user must not write was changed", nil)
			return
		}
		if base.last().Code == 0 {
			c.Violate(b.op+":readonly-silent", id+": success is reported", nil)
		}
		c.Count("cases", 1)
		return
	}
	if base.last().Code != 0 || fresh == old {
		c.Broken("%s: the undisturbed edit failed: %s", id, tail(base.last().all(), 300))
		return
	}
	if m := edited(old, fresh, b.op, b.names, false); m != "" {
		return // C15 reports it
	}
	// removing several packages is one edit after the other
	legal := map[string]bool{old: true, fresh: true}
	if b.op == "remove" {
		for i := 1; i < len(b.names); i++ {
			s := ""
			_, entry, lines, _ := pkgList(old)
			for j, l := range lines {
				drop := false
				for _, n := range b.names[:i] {
					drop = drop || entry[j] == n
				}
				if !drop {
					s += l
				}
			}
			legal[s] = true
		}
	}
	kinds := []struct {
		mode, errno int
		what        string
	}{{1, 0, "killed before"}, {2, 0, "killed in the middle of"}, {4, 0, "killed after"}, {3, 28, "no space at"}, {3, 5, "an I/O error at"}, {3, 13, "permission denied at"}, {5, 5, "an I/O error halfway through"}, {8, 28, "the disk full from"}, {7, 5, "an I/O error at access"}, {7, 13, "permission denied at access"}}
	type job struct{ op, kind int }
	var jobs []job
	for i, k := range kinds {
		n := base.last().OpCount
		if k.mode == 7 {
			n = reads.last().FsCount
		}
		for op := 1; op <= n; op++ {
			jobs = append(jobs, job{op, i})
		}
	}
	inst := strings.Contains(strings.Join(b.args, " "), "--install")
	c.Cases(len(jobs), 0, func(i int) *Kase {
		j := jobs[i]
		kd := kinds[j.kind]
		k := &Kase{ID: fmt.Sprintf("%s: %s %d", id, kd.what, j.op), World: wd, Scen: sc, NoStock: true, Desc: old}
		k.Steps = []Step{{Opts: Opts{Args: b.args, OpAt: j.op, OpMode: kd.mode, OpErrno: kd.errno}}, {Opts: Opts{Args: b.args}}}
		k.Judge = func(r *Run) (string, string) {
			x := r.R[0]
			what := fmt.Sprintf("%s: %s file operation %d (%s)", id, kd.what, j.op, opName(x, r.W))
			killed := kd.mode == 1 || kd.mode == 2 || kd.mode == 4
			if !killed && crashed(x) {
				return b.op + ":crash", what + ": crashed: " + tail(x.all(), 400)
			}
			now, is := rootless(r.W, r.S[1])[b.file]
			then := rootless(r.W, r.end())[b.file]
			if !is {
				return b.op + ":gone", what + ": the configuration is gone"
			}
			if !legal[now] {
				return b.op + ":torn", fmt.Sprintf("%s: the configuration is neither what it was nor what it is to be: %d bytes %q", what, len(now), tail(now, 200))
			}
			if !killed && x.Code == 0 && now != fresh {
				return b.op + ":silent", fmt.Sprintf("%s: success is reported, but the configuration was not edited: %s", what, tail(x.all(), 300))
			}
			if l := r.S[0]["proj/pkgr.yml"]; b.link && (r.S[1]["proj/pkgr.yml"] != l || r.S[2]["proj/pkgr.yml"] != l) {
				return b.op + ":link", what + ": the configuration is a link no more"
			}
			if !killed && !inst {
				for _, df := range r.S[0].diff(r.S[1]) {
					if q := df[1:]; q != b.file && !strings.HasPrefix(q, "tmp") && !strings.HasPrefix(q, "xdg") && !(kd.mode == 8 || kd.mode == 3 && j.op < x.OpCount) {
						return b.op + ":debris", what + ": " + df
					}
				}
			}
			if kd.mode == 7 && j.op <= 2 && x.Code == 0 && now == fresh {
				c.Count("survived", 1)
			}
			last := r.last()
			// nothing is left to do for a package that is gone already
			if crashed(last) || last.Code != 0 && !(b.op == "remove" && now != old) || then != fresh {
				return b.op + ":again", fmt.Sprintf("%s: the same command afterwards exits %d and leaves %q: %s", what, last.Code, tail(then, 200), tail(last.all(), 300))
			}
			if fi, err := os.Stat(r.W.P(b.file)); err != nil || b.mode != 0 && int(fi.Mode().Perm()) != b.mode {
				return b.op + ":mode", fmt.Sprintf("%s: the permissions were %o, are %v", what, b.mode, fi.Mode())
			}
			if inst && !r.end().has("proj/lib/C/DESCRIPTION") {
				return b.op + ":not-installed", what + ": C is not installed by the same command afterwards: " + tail(last.all(), 300)
			}
			return "", ""
		}
		return k
	})
	c.Bound("%s: killed before, in the middle of, and after each of %d file operations; each failing (no space, I/O, permission, halfway), the disk full from there on; %d file accesses failing (I/O, permission); then the same command again", id, base.last().OpCount, reads.last().FsCount)
}

func init() {
	checks["C32"] = checkDef{title: "edits are all or nothing", run: runC32}
}
