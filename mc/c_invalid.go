package main

import (
	"fmt"
	"os"
	"strings"
)

// ---- strict mode and configurations that cannot be used (C25) ----

type badConf struct {
	name string
	// make changes the start state; y is the configuration
	make func(wd *World, sc *Scen, y string) string
	// pre is done to the directory before the command
	pre  func(w *Worker)
	args []string
	env  []string
	// only commands the class is an obstacle to
	only []string
	// some obstacles only prevent certain commands; others are always fatal
	dir string
}

func sub(old, new string) func(*World, *Scen, string) string {
	return func(_ *World, _ *Scen, y string) string {
		if !strings.Contains(y, old) {
			panic("no " + old + " in " + y)
		}
		return strings.Replace(y, old, new, 1)
	}
}

func more(s string) func(*World, *Scen, string) string {
	return func(_ *World, _ *Scen, y string) string { return y + s + "\n" }
}

func badConfs() []badConf {
	inst := []string{"install", "plan", "add"}
	return []badConf{
		// cannot be read
		{name: "missing", make: func(wd *World, _ *Scen, y string) string { return "" }},
		{name: "missing-named", args: []string{"--config", "nowhere/pkgr.yml"}, make: nil},
		{name: "directory", make: nil, pre: func(w *Worker) {
			os.Remove(w.P("proj/pkgr.yml"))
			os.Mkdir(w.P("proj/pkgr.yml"), 0755)
		}},
		{name: "named-directory", args: []string{"--config", "."}},
		{name: "unreadable", pre: func(w *Worker) { os.Chmod(w.P("proj/pkgr.yml"), 0) }},
		{name: "dangling-link", pre: func(w *Worker) {
			os.Remove(w.P("proj/pkgr.yml"))
			os.Symlink("gone.yml", w.P("proj/pkgr.yml"))
		}},
		{name: "loop-link", pre: func(w *Worker) {
			os.Remove(w.P("proj/pkgr.yml"))
			os.Symlink("pkgr.yml", w.P("proj/pkgr.yml"))
		}},
		{name: "unclosed", make: more("Suggests: [what")},
		{name: "tab", make: more("Suggests:\n\t- x")},
		{name: "bad-indent", make: sub("Packages:\n  - A\n", "Packages:\n  - A\n - C\n")},
		{name: "scalar", make: func(_ *World, _ *Scen, y string) string { return "just a sentence\n" }},
		{name: "sequence", make: func(_ *World, _ *Scen, y string) string { return "- A\n- B\n" }},
		{name: "binary", make: func(_ *World, _ *Scen, y string) string { return "\x00\x01\x02\xff" + y }},
		{name: "duplicate-anchor", make: more("Suggests: *nothing")},
		{name: "threads-word", make: more("Threads: many")},
		{name: "threads-list", make: more("Threads: [1, 2]")},
		{name: "packages-map", make: sub("Packages:\n  - A\n", "Packages:\n  A:\n    x: 1\n")},
		{name: "repos-scalar", make: sub("Repos:\n  - X: http://x.example\n", "Repos: http://x.example\n")},
		{name: "repos-list-of-text", make: sub("  - X: http://x.example\n", "  - http://x.example\n")},
		{name: "repos-nested", make: sub("  - X: http://x.example\n", "  - X:\n      URL: http://x.example\n")},
		{name: "flag-word", make: more("NoUpdate: perhaps")},
		{name: "strict-word", make: more("Strict: very")},
		{name: "customizations-scalar", make: more("Customizations: none")},
		{name: "customizations-map", make: more("Customizations:\n  Packages:\n    A: yes")},
		{name: "logging-scalar", make: more("Logging: all.log")},
		{name: "unclosed-variable", make: more("Suggests: \"${UNCLOSED")},
		// names no library
		{name: "no-library", make: sub("Library: lib\n", "")},
		{name: "empty-library", make: sub("Library: lib\n", "Library: \"\"\n")},
		{name: "undefined-library", make: sub("Library: lib\n", "Library: ${NOT_SET}\n")},
		{name: "lockfile-unknown", make: sub("Library: lib\n", "Lockfile:\n  Type: other\n")},
		{name: "lockfile-pkgr", make: sub("Library: lib\n", "Lockfile:\n  Type: pkgr\n")},
		{name: "lockfile-empty", make: sub("Library: lib\n", "Lockfile:\n")},
		{name: "renv-fails", make: sub("Library: lib\n", "Lockfile:\n  Type: renv\n")},
		{name: "empty", make: func(_ *World, _ *Scen, y string) string { return "" + "\n" }},
		// cannot be satisfied
		{name: "unknown-package", only: inst, make: sub("  - A\n", "  - A\n  - Nowhere\n")},
		{name: "two-unknown-packages", only: inst, make: sub("  - A\n", "  - A\n  - Nowhere\n  - NowhereElse\n")},
		{name: "only-unknown-package", only: inst, make: sub("  - A\n", "  - Nowhere\n")},
		{name: "case-of-package", only: inst, make: sub("  - A\n", "  - a\n")},
		{name: "empty-package", only: inst, make: sub("  - A\n", "  - A\n  - \"\"\n")},
		{name: "ignored-package", only: inst, make: more("IgnorePackages:\n  - A")},
		{name: "unknown-repository", only: inst, make: more("Customizations:\n  Packages:\n    - A:\n        Repo: Elsewhere")},
		{name: "not-in-repository", only: inst, make: func(wd *World, sc *Scen, y string) string {
			wd.Add("www/E/src/contrib/PACKAGES", "")
			sc.WWW["http://e.example"] = "@ROOT@/www/E"
			return strings.Replace(y, "  - X: http://x.example\n", "  - X: http://x.example\n  - E: http://e.example\n", 1) + "Customizations:\n  Packages:\n    - A:\n        Repo: E\n"
		}},
		{name: "type-unavailable", only: inst, make: more("Customizations:\n  Packages:\n    - A:\n        Type: binary")},
		{name: "circular", only: inst, make: func(wd *World, sc *Scen, y string) string {
			wd.Add("www/X/src/contrib/PACKAGES", packagesFile([]Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.1", Imports: "A"}}))
			return y
		}},
		{name: "repository-gone", only: inst, make: sub("http://x.example", "http://gone.example")},
		{name: "repository-404", only: inst, make: sub("http://x.example", "http://x.example/none")},
		{name: "repository-scheme", only: inst, make: sub("http://x.example", "gopher://x.example")},
		{name: "repository-no-scheme", only: inst, make: sub("http://x.example", "x.example")},
		{name: "repository-empty", only: inst, make: sub("http://x.example", "\"\"")},
		{name: "no-repositories", only: inst, make: sub("Repos:\n  - X: http://x.example\n", "")},
		{name: "empty-repositories", only: inst, make: sub("Repos:\n  - X: http://x.example\n", "Repos: []\n")},
		{name: "second-repository-gone", only: inst, make: sub("  - X: http://x.example\n", "  - X: http://x.example\n  - Y: http://gone.example\n")},
		{name: "no-tarball", only: inst, make: more("Tarballs:\n  - none_1.0.tar.gz")},
		{name: "tarball-not-one", only: inst, make: more("Tarballs:\n  - pkgr.yml")},
		{name: "tarball-directory", only: inst, make: more("Tarballs:\n  - lib")},
		{name: "tarball-needs-unknown", only: inst, make: func(wd *World, sc *Scen, y string) string {
			wd.Files["proj/tb/T_1.0.tar.gz"] = Pkg{Name: "T", Ver: "1.0", Imports: "Nowhere"}.Tgz()
			return y + "Tarballs:\n  - tb/T_1.0.tar.gz\n"
		}},
		{name: "no-description", only: inst, make: more("Descriptions:\n  - none/DESCRIPTION")},
		{name: "description-not-one", only: inst, make: more("Descriptions:\n  - tb/notes")},
		{name: "description-needs-unknown", only: inst, make: func(wd *World, sc *Scen, y string) string {
			wd.Add("proj/ds/DESCRIPTION", Pkg{Name: "D", Ver: "1.0", Imports: "Nowhere"}.Desc())
			return y + "Descriptions:\n  - ds/DESCRIPTION\n"
		}},
		{name: "no-R", only: append(inst, "load"), make: more("RPath: /nowhere/R")},
		{name: "no-R-in-path", only: append(inst, "load"), env: []string{"PATH=/nowhere"}, make: nil},
		{name: "R-fails", only: append(inst, "load"), make: func(wd *World, sc *Scen, y string) string {
			wd.Add("odd/R", "#!/bin/sh\nexit 1\n")
			wd.Mode["odd/R"] = 0755
			return y + "RPath: \"@ROOT@/odd/R\"\n"
		}},
	}
}

func runC25(c *Ctx) {
	runC25strict(c)
	if !c.timeLeft() {
		return
	}
	confs := badConfs()
	cmds := [][]string{{"install"}, {"plan"}, {"add", "C"}, {"add", "C", "--install"}, {"load"}, {"inspect", "--deps"}, {"clean", "--all"}, {"remove", "A"}, {"install", "--no-rollback"}, {"install", "--threads", "1", "--logjson"}}
	// what the library holds: nothing to do with it, packages that would be updated, the backups of an install that was killed
	libs := []string{"outdated", "absent", "empty", "tarball-there", "outdated-other-settings"}
	n, dg := product(len(confs), len(cmds), len(libs))
	c.Bound("%d configurations that cannot be read, name no library or cannot be satisfied x %d commands x %d states of the library: %d cases", len(confs), len(cmds), len(libs), n)
	c.Cases(n, 0, func(i int) *Kase {
		g := dg(i)
		b, cmd, lib := confs[g[0]], cmds[g[1]], libs[g[2]]
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "X", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.1"}, {Name: "C", Ver: "1.0"}}}}}
		switch lib {
		case "outdated", "outdated-other-settings":
			d.Installed, d.Foreign = []Pkg{{Name: "A", Ver: "0.5"}, {Name: "B", Ver: "0.1"}}, []Pkg{{Name: "Z", Ver: "1.0"}}
			if lib != "outdated" {
				d.bystanders()
			}
		case "tarball-there":
			d.Installed = []Pkg{{Name: "T", Ver: "0.5"}, {Name: "A", Ver: "0.5"}}
		}
		wd, sc := d.build()
		if lib == "empty" {
			wd.Add("proj/lib/", "")
		}
		wd.Add("proj/tb/notes", "this is no DESCRIPTION")
		wd.Add("proj/code.R", "library(A)\n")
		y := string(wd.Files["proj/pkgr.yml"])
		if b.make != nil {
			y = b.make(wd, sc, y)
		}
		delete(wd.Files, "proj/pkgr.yml")
		if y != "" {
			wd.Add("proj/pkgr.yml", y)
		}
		args := append(append([]string{}, cmd...), b.args...)
		if strings.HasPrefix(b.name, "threads") && has(cmd, "--threads") {
			return nil // which then does not count
		}
		stop := b.only == nil || has(b.only, cmd[0]) && (cmd[0] != "add" || has(cmd, "--install"))
		what := fmt.Sprintf("%v with the configuration %q, library %s", args, b.name, lib)
		return &Kase{ID: fmt.Sprintf("bad %s %v %s", b.name, cmd, lib), World: wd, Scen: sc, Desc: y, Steps: []Step{{Opts: Opts{Args: args, Env: b.env}, Pre: b.pre}},
			Judge: func(k *Run) (string, string) {
				r := k.last()
				if r.Verdict != "" || (crashed(r) && b.name != "circular") {
					return "crash:" + b.name, what + ": " + tail(r.all(), 500)
				}
				if !stop {
					return "", ""
				}
				if r.Code == 0 {
					return "accepted:" + b.name, fmt.Sprintf("%s: exit status 0: %s", what, tail(r.all(), 400))
				}
				for _, df := range k.B[0].diff(k.end()) {
					f := df[1:]
					if cmd[0] == "add" && b.only != nil && f == "proj/pkgr.yml" {
						continue // the package was added, its installation failed
					}
					if strings.HasPrefix(f, "proj/") && !strings.HasSuffix(f, ".log") {
						return "touched:" + b.name, fmt.Sprintf("%s: exit status %d, but: %s", what, r.Code, df)
					}
				}
				for _, e := range r.Evs {
					if e.T == "rstart" && e.Kind == "install" {
						return "installed:" + b.name, fmt.Sprintf("%s: R installed %s", what, e.Pkg)
					}
				}
				return "", ""
			}}
	})
}

// runC25strict: strict mode and the library.
func runC25strict(c *Ctx) {
	conf, cli := []string{"", "true", "false"}, []string{"", "=true", "=false", "bare"}
	// the library
	libs := []string{"absent", "parent-absent", "empty", "packages", "outdated", "other-files", "a-file", "dangling-link", "link-to-directory", "link-to-file", "unreadable"}
	cmds := [][]string{{"install"}, {"plan"}, {"add", "C", "--install"}, {"install", "--no-update"}, {"install", "--no-rollback"}}
	how := []string{"plain", "lockfile", "flag", "env", "tarballs"}
	n, dg := product(len(conf), len(cli), len(libs), len(cmds), len(how))
	c.Bound("strict unset / true / false in the configuration x not given / true / false / bare on the command line x %d states of the library %v x %d commands x the library from %v: %d cases", len(libs), libs, len(cmds), how, n)
	c.Cases(n, pick(c, 12, 60), func(i int) *Kase {
		g := dg(i)
		on := conf[g[0]] == "true"
		switch cli[g[1]] {
		case "=true", "bare":
			on = true
		case "=false":
			on = false
		}
		st, cmd, hw := libs[g[2]], cmds[g[3]], how[g[4]]
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "X", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.1"}, {Name: "C", Ver: "1.0"}}}}}
		lib := "deep/lib"
		d.Library = lib
		if conf[g[0]] != "" {
			d.Extra = append(d.Extra, "Strict: "+conf[g[0]])
		}
		args := append([]string{}, cmd...)
		switch cli[g[1]] {
		case "":
		case "bare":
			args = append(args, "--strict")
		default:
			args = append(args, "--strict"+cli[g[1]])
		}
		var env []string
		switch hw {
		case "tarballs":
			d.Tarballs = []Pkg{{Name: "T", Ver: "0.3", Imports: "B"}}
		case "flag":
			args = append(args, "--library", lib)
			d.Library = "elsewhere"
		case "env":
			env = append(env, "PKGR_LIBRARY="+lib)
			d.Library = "elsewhere"
		}
		wd, sc := d.build()
		if hw == "lockfile" {
			wd.Add("proj/pkgr.yml", strings.Replace(string(wd.Files["proj/pkgr.yml"]), "Library: deep/lib\n", "Lockfile:\n  Type: renv\n", 1))
			sc.Renv = "<cwd>/" + lib
		}
		exists, usable := false, true
		p := "proj/" + lib
		var pre func(w *Worker)
		if st != "parent-absent" {
			wd.Add("proj/deep/", "")
		}
		switch st {
		case "empty":
			exists = true
			wd.Add(p+"/", "")
		case "packages":
			exists = true
			wd.addInstalled(p, Pkg{Name: "A", Ver: "1.0"}, true)
		case "outdated":
			exists = true
			wd.addInstalled(p, Pkg{Name: "A", Ver: "0.1"}, true)
		case "other-files":
			exists = true
			wd.Add(p+"/notes/x.txt", "x")
		case "a-file":
			usable = false
			wd.Add(p, "not a directory")
		case "dangling-link":
			usable = false
			pre = func(w *Worker) { os.Symlink(w.P("proj/gone"), w.P(p)) }
		case "link-to-directory":
			exists = true
			wd.Add("other/place/", "")
			pre = func(w *Worker) { os.Symlink(w.P("other/place"), w.P(p)) }
		case "link-to-file":
			usable = false
			wd.Add("other/file", "")
			pre = func(w *Worker) { os.Symlink(w.P("other/file"), w.P(p)) }
		case "unreadable":
			exists, usable = true, false
			wd.Add(p+"/", "")
			pre = func(w *Worker) { os.Chmod(w.P(p), 0) }
		}
		what := fmt.Sprintf("%v, Strict %q in the configuration, the library (%s) is %s", args, conf[g[0]], hw, st)
		return &Kase{ID: fmt.Sprintf("strict %v", g), World: wd, Scen: sc, Desc: wd.Files["proj/pkgr.yml"], Steps: []Step{{Opts: Opts{Args: args, Env: env}, Pre: pre}},
			NoStock: st == "unreadable" || st == "dangling-link",
			Judge: func(k *Run) (string, string) {
				if st == "unreadable" {
					os.Chmod(k.W.P(p), 0755)
				}
				r := k.last()
				if crashed(r) {
					return "crash", what + ": " + tail(r.all(), 500)
				}
				changed := ""
				for _, df := range k.B[0].diff(k.end()) {
					f := df[1:]
					if cmd[0] == "add" && f == "proj/pkgr.yml" {
						continue
					}
					if strings.HasPrefix(f, "proj/") || strings.HasPrefix(f, "other/") {
						changed = df
						break
					}
				}
				if cmd[0] == "plan" {
					if changed != "" {
						return "strict:plan", fmt.Sprintf("%s: %s", what, changed)
					}
					return "", ""
				}
				if on && !exists {
					if r.Code == 0 {
						return "strict:accepted", fmt.Sprintf("%s: exit status 0: %s", what, tail(r.all(), 300))
					}
					if changed != "" {
						return "strict:changed", fmt.Sprintf("%s: exit status %d, but %s", what, r.Code, changed)
					}
					for _, e := range r.Evs {
						if e.T == "rstart" && e.Kind == "install" {
							return "strict:installed", fmt.Sprintf("%s: R installed %s", what, e.Pkg)
						}
					}
					return "", ""
				}
				if !usable {
					return "", "" // whether it can be used is another matter
				}
				at := p
				if st == "link-to-directory" {
					at = "other/place"
				}
				for _, q := range []string{"A", "B"} {
					if !k.end().has(at + "/" + q + "/DESCRIPTION") {
						return "strict:refused", fmt.Sprintf("%s: %s is not installed, exit status %d: %s", what, q, r.Code, tail(r.all(), 400))
					}
				}
				return "", ""
			}}
	})
}

func init() {
	checks["C25"] = checkDef{title: "strict mode and invalid input", run: runC25}
}
