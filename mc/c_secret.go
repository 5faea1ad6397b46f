package main

import (
	"fmt"
	"strings"
)

// ---- secrets (C23) ----

// sensitive are the names whose values are kept out of sight, in any case.
var sensitive = []string{"GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"}

func mixedCase(s string) string {
	b := []byte(strings.ToLower(s))
	for i := range b {
		if i == 0 || b[i-1] == '_' {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func runC23(c *Ctx) {
	var names []string
	for _, n := range sensitive {
		names = append(names, n, strings.ToLower(n), mixedCase(n))
	}
	// shapes of a value; the marker is what must not be seen
	shapes := []string{"%s", "a=%s=b", "x %s y", `q"%s'\z`, "%s\tline\nsecond"}
	const amb, cus, tmpl = "AMBI3NT-m4rker", "CUST0M-m4rker", "T3MPL-m4rker"
	// how the variable gets its value
	srcs := []string{"ambient", "package", "both", "template", "tarball"}
	type cmd struct {
		name  string
		args  []string
		setup func(d *Decl, sc *Scen)
	}
	cmds := []cmd{
		{"install", []string{"install"}, nil},
		{"R-fails", []string{"install"}, func(d *Decl, sc *Scen) { sc.FailAlways = []string{"A"} }},
		{"R-fails-partially", []string{"install"}, func(d *Decl, sc *Scen) { sc.FailAlways, sc.FailPartial = []string{"A"}, true }},
		{"download-fails", []string{"install"}, func(d *Decl, sc *Scen) { sc.Faults = []HTTPFault{{Suffix: "A_1.0.tar.gz", Mode: "404"}} }},
		{"lists-fail", []string{"install"}, func(d *Decl, sc *Scen) { sc.Faults = []HTTPFault{{Suffix: "PACKAGES", Mode: "500"}} }},
		{"missing-package", []string{"install"}, func(d *Decl, sc *Scen) { d.Packages = append(d.Packages, "Nowhere") }},
		{"circular", []string{"install"}, func(d *Decl, sc *Scen) { d.Repos[0].Src[1].Imports = "A" }},
		{"update", []string{"install"}, func(d *Decl, sc *Scen) { d.Installed = []Pkg{{Name: "A", Ver: "0.5"}} }},
		{"plan", []string{"plan"}, nil},
		{"plan-deps", []string{"plan", "--show-deps"}, nil},
		{"inspect", []string{"inspect", "--deps", "--tree"}, nil},
		{"inspect-json", []string{"inspect", "--deps", "--json"}, nil},
		{"installed-from", []string{"inspect", "--installed-from"}, nil},
		{"load", []string{"load", "--all"}, func(d *Decl, sc *Scen) { d.Installed = []Pkg{{Name: "A", Ver: "1.0"}} }},
		{"load-json", []string{"load", "--json"}, func(d *Decl, sc *Scen) {
			d.Installed = []Pkg{{Name: "A", Ver: "1.0"}}
			sc.LoadFail = []string{"A"}
		}},
		{"run", []string{"run", "--pkg", "A"}, nil},
		{"add-install", []string{"add", "C", "--install"}, nil},
		{"remove", []string{"remove", "A"}, nil},
		{"clean", []string{"clean", "--all"}, nil},
		{"renv", []string{"install"}, func(d *Decl, sc *Scen) { d.Extra = append(d.Extra, "Lockfile:\n  Type: renv"); d.Library = "NONE" }},
		{"strict", []string{"install", "--strict"}, nil},
		{"bad-yaml", []string{"install"}, func(d *Decl, sc *Scen) { d.Extra = append(d.Extra, "Suggests: [what") }},
	}
	levels := []string{"trace", "debug", "info", "", "warn", "error", "fatal", "panic"}
	outs := []string{"", "--logjson", "--debug"}
	logs := []bool{true, false}
	if c.quick() {
		levels, logs = []string{"trace", "debug", ""}, []bool{true}
	}
	n, dg := product(len(names), len(srcs), len(cmds), len(levels), len(outs), len(logs), pick(c, 1, len(shapes)))
	if c.quick() {
		// the level below trace do not depend on the name: trace with every name, the others with a third of them
		all := n
		var keep []int
		for i := 0; i < all; i++ {
			g := dg(i)
			if (g[3] == 0 && (g[4] == 0 || (g[0]+g[2])%6 == 0)) || (g[0]+g[1]+g[2]+g[3]+g[4])%18 == 0 {
				keep = append(keep, i)
			}
		}
		n = len(keep)
		d0 := dg
		dg = func(i int) []int { return d0(keep[i]) }
	}
	c.Bound("%d spellings of sensitive names x %d sources of the value %v x %d commands and outcomes x levels %v x output %v x log files %v x shapes of the value: %d cases", len(names), len(srcs), srcs, len(cmds), levels, outs, logs, n)
	c.Cases(n, pick(c, 12, 40), func(i int) *Kase {
		g := dg(i)
		name, src, cm, lv, out, lg := names[g[0]], srcs[g[1]], cmds[g[2]], levels[g[3]], outs[g[4]], logs[g[5]]
		shape := shapes[(g[6]+g[0]+g[1]+g[2])%len(shapes)]
		val := func(m string) string { return fmt.Sprintf(shape, m) }
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "X", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.1"}, {Name: "C", Ver: "1.0"}}}}}
		sc0 := &Scen{}
		if cm.setup != nil {
			cm.setup(d, sc0)
		}
		env := []string{"OPEN=openly"}
		ambient, custom := "", ""
		target := "A"
		if src == "ambient" || src == "both" || src == "tarball" {
			ambient = val(amb)
		}
		switch src {
		case "package", "both":
			custom = val(cus)
		case "tarball":
			custom, target = val(cus), "T"
			d.Tarballs = []Pkg{{Name: "T", Ver: "0.3"}}
		case "template":
			// the configuration hands an ambient value on, under the same name
			ambient = strings.NewReplacer("\"", "", "\\", "", "\n", "", "\t", "").Replace(val(tmpl))
			custom = ambient
		}
		if ambient != "" {
			env = append(env, name+"="+ambient)
		}
		cust := map[string]string{}
		if custom != "" {
			y := fmt.Sprintf("%q", custom)
			if src == "template" {
				y = "\"${" + name + "}\""
			}
			cust[name] = custom
			d.Cust = append(d.Cust, PkgCust{Pkg: target, Env: []string{name + ": " + y, "OPEN2: openly"}})
		}
		if lg {
			d.Extra = append(d.Extra, "Logging:\n  all: all.log\n  install: inst.log")
		}
		wd, sc := d.build()
		sc.FailAlways, sc.FailPartial, sc.Faults, sc.LoadFail = sc0.FailAlways, sc0.FailPartial, sc0.Faults, sc0.LoadFail
		if cm.name == "renv" {
			wd.Add("proj/pkgr.yml", strings.Replace(string(wd.Files["proj/pkgr.yml"]), "Library: NONE\n", "", 1))
			sc.Renv = "<cwd>/renv/library"
		}
		args := append([]string{}, cm.args...)
		if lv != "" {
			args = append(args, "--loglevel", lv)
		}
		if out != "" && !(out == "--debug" && cm.name == "add-install") { // which shows the configuration itself
			args = append(args, out)
		}
		what := fmt.Sprintf("%v (%s), %s set from %s, value %q", args, cm.name, name, src, shape)
		return &Kase{ID: fmt.Sprintf("secret %v", g), World: wd, Scen: sc, Desc: wd.Files["proj/pkgr.yml"], Steps: []Step{{Opts: Opts{Args: args, Env: env, Stdin: "q()\n"}}},
			Judge: func(k *Run) (string, string) {
				r := k.last()
				if crashed(r) && cm.name != "circular" {
					return "crash", what + ": " + tail(r.all(), 400)
				}
				look := func(where, text string) (string, string) {
					for _, m := range []string{amb, cus, tmpl} {
						if j := strings.Index(text, m); j >= 0 {
							return "shown:" + src + ":" + where, fmt.Sprintf("%s: its value is in the %s: ...%s", what, where, text[max(0, j-120):min(len(text), j+40)])
						}
					}
					return "", ""
				}
				if s, m := look("output", r.Out); s != "" {
					return s, m
				}
				if s, m := look("error output", r.Err); s != "" {
					return s, m
				}
				for _, df := range k.S[0].diff(k.end()) {
					f := df[1:]
					if f == "proj/pkgr.yml" || df[0] == '-' {
						continue
					}
					w := "files"
					if strings.HasSuffix(f, ".log") {
						w = "log file"
					}
					if s, m := look(w, k.end()[f]); s != "" {
						return s, m + " (" + f + ")"
					}
				}
				// R gets them
				for _, e := range r.Evs {
					if e.T != "rstart" {
						continue
					}
					want, ok := ambient, ambient != ""
					if (e.Kind == "install" && e.Pkg == target) || (cm.name == "run" && target == "A") {
						if custom != "" {
							want, ok = custom, true
						}
					}
					if got, is := envMap(e.Env)[name]; ok && (!is || got != want) && e.Kind != "version" {
						return "withheld", fmt.Sprintf("%s: R (%s %s) has %q rather than %q", what, e.Kind, e.Pkg, got, want)
					}
				}
				return "", ""
			}}
	})
}

func init() {
	checks["C23"] = checkDef{title: "secrets", run: runC23}
}
