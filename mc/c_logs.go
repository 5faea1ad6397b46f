package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
)

// ---- log files (C28) ----

type logCmd struct {
	name string
	args []string
	// the configuration cannot be satisfied: the command ends with a fatal message
	bad bool
	// nothing answers at the address of the repository
	down bool
}

func logCmds() []logCmd {
	return []logCmd{
		{name: "install", args: []string{"install"}}, {name: "install-fails", args: []string{"install"}, bad: true}, {name: "plan", args: []string{"plan"}}, {name: "plan-fails", args: []string{"plan"}, bad: true},
		{name: "install-down", args: []string{"install"}, down: true}, {name: "plan-without-repos", args: []string{"plan"}, down: true},
		{name: "add", args: []string{"add", "C"}}, {name: "add-install", args: []string{"add", "C", "--install"}}, {name: "remove", args: []string{"remove", "B"}},
		{name: "load", args: []string{"load", "--all"}}, {name: "load-json", args: []string{"load", "--json"}}, {name: "inspect", args: []string{"inspect", "--deps"}}, {name: "inspect-json", args: []string{"inspect", "--deps", "--json"}},
		{name: "inspect-from", args: []string{"inspect", "--installed-from"}},
		{name: "clean-all", args: []string{"clean", "--all"}}, {name: "clean-cache", args: []string{"clean", "cache"}}, {name: "clean-pkgdbs", args: []string{"clean", "pkgdbs"}}, {name: "add-known", args: []string{"add", "A"}}, {name: "remove-unknown", args: []string{"remove", "Nothing"}},
		{name: "run", args: []string{"run"}},
	}
}

type logRec struct{ level, msg, full string }

// jsonRecs reads JSON lines.
func jsonRecs(s string) (r []logRec, bad string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := map[string]any{}
		if json.Unmarshal([]byte(l), &m) != nil {
			if bad == "" {
				bad = l
			}
			continue
		}
		delete(m, "time")
		lv, _ := m["level"].(string)
		ms, _ := m["msg"].(string)
		if lv == "" {
			continue
		}
		b, _ := json.Marshal(m)
		r = append(r, logRec{lv, strings.TrimSpace(ms), string(b)})
	}
	return
}

var textRe = regexp.MustCompile(`level=(\w+) msg=("(?:[^"\\]|\\.)*"|[^ ]*)`)

// shownRecs are the messages a command emitted.
func shownRecs(out string, asJSON bool) (r []logRec) {
	if asJSON {
		r, _ = jsonRecs(out)
		return
	}
	for _, l := range strings.Split(out, "\n") {
		if m := textRe.FindStringSubmatch(l); m != nil {
			v := m[2]
			var u string
			if json.Unmarshal([]byte(v), &u) == nil {
				v = u
			}
			r = append(r, logRec{level: m[1], msg: strings.TrimSpace(v)})
		}
	}
	return
}

func (r logRec) key(asJSON bool) string {
	if asJSON {
		return r.full
	}
	return r.level + " " + r.msg
}

// before the configuration is known its log files are not either
func earlyRec(r logRec) bool {
	for _, s := range []string{"attempting to load config file", "setting directory to configuration file", "renv", "expanded path", "Package library will be set", "could not find a config file", "error parsing"} {
		if strings.Contains(r.msg, s) {
			return true
		}
	}
	return false
}

var levelRank = map[string]int{"panic": 0, "fatal": 1, "error": 2, "warning": 3, "warn": 3, "info": 4, "debug": 5, "trace": 6}

type logFileSpec struct{ all, install string }

// logCase is a sequence of commands.
type logCase struct {
	cmds      []logCmd
	spec      logFileSpec
	overwrite string // "", true, false
	level     string
	json      bool
	prior     string // contents the files have
	place     string // what stands where the general file should be
}

const priorText = "earlier line\n{\"level\":\"info\",\"msg\":\"from before\"}\n"

func (x *logCase) id() string {
	var n []string
	for _, c := range x.cmds {
		n = append(n, c.name)
	}
	return fmt.Sprintf("logs %s all=%q install=%q overwrite=%q level=%q json=%v prior=%q place=%q", strings.Join(n, "+"), x.spec.all, x.spec.install, x.overwrite, x.level, x.json, x.prior, x.place)
}

func (x *logCase) kase() *Kase {
	src := []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.1"}, {Name: "C", Ver: "1.0"}}
	d := &Decl{Packages: []string{"A", "B"}, Repos: []DRepo{{Name: "X", Src: src}}, Installed: []Pkg{{Name: "B", Ver: "0.5"}}}
	var lg []string
	if x.spec.all != "" {
		lg = append(lg, "  all: "+x.spec.all)
	}
	if x.spec.install != "" {
		lg = append(lg, "  install: "+x.spec.install)
	}
	if x.overwrite != "" {
		lg = append(lg, "  overwrite: "+x.overwrite)
	}
	if lg != nil {
		d.Extra = append(d.Extra, "Logging:\n"+strings.Join(lg, "\n"))
	}
	wd, sc := d.build()
	good := string(wd.Files["proj/pkgr.yml"])
	files := map[string]bool{}
	for _, f := range []string{x.spec.all, x.spec.install, "other.log"} {
		if f != "" {
			files[f] = true
			if x.prior != "" {
				wd.Add("proj/"+f, x.prior)
			}
		}
	}
	wd.Add("proj/logs/", "")
	switch x.place {
	case "directory":
		wd.Add("proj/all.log/", "")
	case "read-only":
		wd.Add("proj/all.log", priorText)
		wd.Mode["proj/all.log"] = 0400
	case "link":
		wd.Add("proj/real.log", priorText)
		wd.Link["proj/all.log"] = "real.log"
	}
	var steps []Step
	contents := make([]map[string]string, len(x.cmds))
	for i, c := range x.cmds {
		args := append([]string{}, c.args...)
		if x.level != "" {
			args = append(args, "--loglevel", x.level)
		}
		if x.json {
			args = append(args, "--logjson")
		}
		steps = append(steps, Step{Opts: Opts{Args: args}, Pre: func(w *Worker) {
			// each command finds the same configuration
			y := good
			if c.bad {
				y = strings.Replace(y, "  - A\n", "  - A\n  - Nowhere\n", 1)
			}
			if c.down {
				y = strings.Replace(y, "http://x.example", "http://down.example", 1)
				if strings.HasSuffix(c.name, "-repos") {
					y = regexp.MustCompile(`(?m)^Repos:\n(  .*\n)+`).ReplaceAllString(y, "")
				}
			}
			os.WriteFile(w.P("proj/pkgr.yml"), []byte(w.Subst(y)), 0644)
			contents[i] = map[string]string{}
			for f := range files {
				b, _ := os.ReadFile(w.P("proj", f))
				contents[i][f] = string(b)
			}
		}})
	}
	return &Kase{ID: x.id(), World: wd, Scen: sc, Desc: d, Steps: steps, Judge: func(k *Run) (string, string) {
		for i, c := range x.cmds {
			r := k.R[i]
			if r.Verdict != "" || crashed(r) {
				return "crash", fmt.Sprintf("%v: %s", r, tail(r.all(), 400))
			}
			after := map[string]string{}
			if i+1 < len(x.cmds) {
				after = contents[i+1]
			} else {
				for f := range files {
					b, _ := os.ReadFile(k.W.P("proj", f))
					after[f] = string(b)
				}
			}
			if s, m := x.judge(c, r, contents[i], after); s != "" {
				return s + ":" + c.name, fmt.Sprintf("%s, command %d (%v): %s\nmessages shown: %s", x.id(), i, c.args, m, tail(r.all(), 1500))
			}
		}
		return "", ""
	}}
}

func (x *logCase) judge(c logCmd, r *Result, before, after map[string]string) (string, string) {
	if x.place == "directory" || x.place == "read-only" || strings.Contains(x.spec.all, "/none/") {
		return "", "" // judged by what the command does
	}
	shown := shownRecs(r.all(), x.json)
	var lv []string
	for _, l := range shown {
		lv = append(lv, l.level)
	}
	// the level selected governs
	want := levelRank["info"]
	if x.level != "" {
		want = levelRank[x.level]
	}
	if want > levelRank["info"] && (c.args[0] == "plan" || c.args[0] == "install") && !has(lv, "debug") {
		return "lacking", "nothing below the level info is shown"
	}
	inst := c.args[0] == "install"
	both := c.name == "add-install"
	got := map[string][]logRec{}
	for f := range after {
		ow := x.overwrite == "true"
		target := f == x.spec.all && !(inst && x.spec.install != "") || f == x.spec.install && (inst || both)
		optional := f == x.spec.all && inst && x.spec.install != ""
		a := after[f]
		switch {
		case !target && !optional:
			if a != before[f] {
				return "wrong-file", fmt.Sprintf("%s was written to: %q", f, tail(a, 300))
			}
			continue
		case optional && a == before[f]:
			continue
		case ow:
		case !strings.HasPrefix(a, before[f]):
			return "lost", fmt.Sprintf("the earlier contents of %s are gone: before %q, now %q", f, tail(before[f], 300), tail(a, 300))
		default:
			a = a[len(before[f]):]
		}
		recs, bad := jsonRecs(a)
		if bad != "" {
			return "garbled", fmt.Sprintf("%s has the line %q", f, bad)
		}
		for _, l := range recs {
			if levelRank[l.level] > want {
				return "level", fmt.Sprintf("%s has a message of level %s: %q", f, l.level, l.msg)
			}
		}
		if target {
			got[f] = recs
		} else {
			continue
		}
	}
	for f, recs := range got {
		// at most once each, nothing that was not shown
		n := map[string]int{}
		for _, l := range shown {
			n[l.key(x.json)]++
		}
		for _, l := range recs {
			if n[l.key(x.json)]--; n[l.key(x.json)] < 0 {
				return "extra", fmt.Sprintf("%s records %q more often than it was shown", f, l.key(x.json))
			}
		}
		// with a single writer the order is that of the run
		if f == x.spec.install && both && f != x.spec.all {
			continue
		}
		_ = recs
	}
	// every message is in the file meant for the command
	if len(got) == 0 {
		return "", ""
	}
	n := map[string]int{}
	for f, recs := range got {
		if both && f == x.spec.install && x.spec.install != x.spec.all {
			for _, l := range recs {
				n[l.key(x.json)]++
			}
			continue
		}
		m := map[string]int{}
		for _, l := range recs {
			m[l.key(x.json)]++
		}
		for k, v := range m {
			n[k] = max(n[k], v)
		}
	}
	var miss []string
	for _, l := range shown {
		if earlyRec(l) {
			continue
		}
		if n[l.key(x.json)]--; n[l.key(x.json)] < 0 {
			miss = append(miss, l.key(x.json))
		}
	}
	if both && x.spec.all == "" {
		// only the install has a file: what add itself says is not recorded
		own := miss
		miss = nil
		for _, m := range own {
			if strings.Contains(m, "Package") && strings.Contains(m, "nstalled") || strings.Contains(m, "R Version") {
				miss = append(miss, m)
			}
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		fs := ""
		for f := range got {
			fs += " " + f
		}
		return "missing", fmt.Sprintf("%d messages are not in%s, among them %q", len(miss), fs, miss[0])
	}
	return "", ""
}

func runC28(c *Ctx) {
	specs := []logFileSpec{{"all.log", ""}, {"", "in.log"}, {"all.log", "in.log"}, {"all.log", "all.log"}, {"logs/all.log", "logs/in.log"}, {"", ""}}
	cmds := logCmds()
	levels := []string{"", "trace", "debug", "warn", "error", "fatal"}
	overs := []string{"", "true", "false"}
	priors := []string{"", priorText, "no line end"}
	n, dg := product(len(cmds), len(specs), len(levels), len(overs), len(priors), 2)
	if c.quick() {
		levels = []string{"", "trace", "warn", "fatal"}
		n, dg = product(len(cmds), len(specs), len(levels), len(overs), 2, 2)
	}
	c.Bound("%d commands x %d choices of log files x levels %v x overwriting %v x the file absent / present x text and JSON display: %d", len(cmds), len(specs), levels, overs, n)
	c.Cases(n, pick(c, 24, 96), func(i int) *Kase {
		g := dg(i)
		return (&logCase{cmds: cmds[g[0] : g[0]+1], spec: specs[g[1]], level: levels[g[2]], overwrite: overs[g[3]], prior: priors[g[4]], json: g[5] == 1}).kase()
	})
	// sequences
	var two []logCmd
	for _, x := range cmds {
		if !x.down || !c.quick() {
			two = append(two, x)
		}
	}
	depth := pick(c, 2, 3)
	dims := []int{len(specs) - 1, 2, 2}
	for range depth {
		dims = append(dims, len(two))
	}
	n, dg = product(dims...)
	c.Bound("all sequences of %d of the %d commands x %d choices of log files x overwriting or not x text and JSON: %d", depth, len(two), len(specs)-1, n)
	c.Cases(n, pick(c, 12, 48), func(i int) *Kase {
		g := dg(i)
		x := &logCase{spec: specs[g[0]], overwrite: []string{"", "true"}[g[1]], json: g[2] == 1, prior: priorText}
		for _, j := range g[3:] {
			x.cmds = append(x.cmds, two[j])
		}
		return x.kase()
	})
	// files that cannot be written do not keep a command from its work
	places := []string{"directory", "read-only", "link", "none/"}
	n, dg = product(len(cmds), len(places), len(overs))
	c.Bound("%d commands x a general log that is a directory, read-only, a link, in a directory that does not exist x overwriting: %d", len(cmds), n)
	c.Cases(n, 6, func(i int) *Kase {
		g := dg(i)
		x := &logCase{cmds: []logCmd{cmds[g[0]]}, spec: logFileSpec{all: "all.log"}, place: places[g[1]], overwrite: overs[g[2]]}
		if x.place == "none/" {
			x.spec.all = "logs/none/all.log"
		}
		k := x.kase()
		judge := k.Judge
		k.Judge = func(r *Run) (string, string) {
			if s, m := judge(r); s != "" {
				return s, m
			}
			cm := x.cmds[0]
			if fatal := (cm.bad || cm.down); fatal != (r.last().Code != 0) {
				return "log-place:" + cm.name, fmt.Sprintf("%s: exit status %d: %s", x.id(), r.last().Code, tail(r.last().all(), 400))
			}
			if cm.name == "install" && !r.end().has("proj/lib/A/DESCRIPTION") {
				return "log-place:" + cm.name, fmt.Sprintf("%s: nothing installed: %s", x.id(), tail(r.last().all(), 400))
			}
			return "", ""
		}
		return k
	})
}

func init() {
	checks["C28"] = checkDef{title: "log files", run: runC28}
}
