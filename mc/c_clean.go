package main

import (
	"fmt"
	"strings"
)

// ---- C16: cleaning caches ----

type cleanBase struct {
	d      *Decl
	wd     *World // with full caches
	bare   *World
	sc     *Scen
	cache  string            // path of the package cache
	dbs    map[string]string // label -> database file
	keys   map[string]string // repository -> its directory in the cache
	tarDir string
	tree   Snap
}

// cleanWorld fills caches by running the program.
func (c *Ctx) cleanWorld(deflt bool) *cleanBase {
	d := &Decl{Packages: []string{"A", "B"}, Repos: []DRepo{
		{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "C"}, {Name: "C", Ver: "1.0"}}},
		{Name: "R2", RepoType: "MPN", Bin: []Pkg{{Name: "B", Ver: "2.0"}}, Src: []Pkg{{Name: "B", Ver: "2.0"}}}},
		Tarballs: []Pkg{{Name: "T", Ver: "1.0"}}}
	b := &cleanBase{d: d, cache: "cache", dbs: map[string]string{}, keys: map[string]string{}}
	wd, sc := d.build()
	y := string(wd.Files["proj/pkgr.yml"])
	if deflt {
		b.cache = "xdg/pkgr"
		y = strings.Replace(y, "Cache: \"@ROOT@/cache\"\n", "", 1)
	}
	wd.Files["proj/pkgr.yml"] = []byte(y)
	wd.addR("bin42", "4.2.1")
	// databases of other configurations
	alt := func(name, from, to string) {
		wd.Files["other/"+name+"/pkgr.yml"] = []byte(strings.ReplaceAll(strings.ReplaceAll(y, from, to), "../", "../../"))
	}
	only := func(name, repos, cust string) {
		wd.Add("other/"+name+"/pkgr.yml", "Version: 1\nPackages:\n  - A\nRepos:\n"+repos+"Library: lib\nCache: \"@ROOT@/other/cache\"\n"+cust)
	}
	_ = alt
	only("R1", "  - R1: http://r1.example\n", "")
	only("R2", "  - R1: http://r1.example\n  - R2: http://r2.example\n", "Customizations:\n  Repos:\n    - R2:\n        RepoType: MPN\n")
	only("R3", "  - R3: http://r1.example\n", "")
	only("R1-elsewhere", "  - R1: http://r1.example/\n", "")
	order := []string{"R1", "R2", "R3", "R1-elsewhere", "R1-4.2"}
	k := &Kase{ID: "clean-base", World: wd, Scen: sc, NoStock: true}
	for _, o := range order {
		st := Step{Opts: Opts{Args: []string{"plan"}, Dir: "other/" + strings.TrimSuffix(o, "-4.2")}}
		if o == "R1-4.2" {
			st.Opts.Env = []string{"PKGR_RPATH=@ROOT@/bin42/R"}
		}
		k.Steps = append(k.Steps, st)
	}
	k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}})
	r := c.runKase(c.W[0], k, false)
	for i, o := range order {
		for _, f := range sortedKeys(r.S[i+1].sub(dbDir + "/")) {
			if f != "" && !r.S[i].has(dbDir+"/"+f) {
				b.dbs[o] = dbDir + "/" + f
			}
		}
	}
	end := r.end()
	for _, f := range sortedKeys(end.sub(b.cache + "/")) {
		top, _, _ := strings.Cut(f, "/")
		for _, n := range []string{"R1", "R2"} {
			if strings.HasPrefix(top, n+"-") {
				b.keys[n] = top
			}
		}
		if strings.HasPrefix(f, top+"/T/") {
			b.tarDir = top
		}
	}
	if len(b.dbs) != len(order) || len(b.keys) != 2 || b.tarDir == "" || r.last().Code != 0 {
		c.Violate("prepare", fmt.Sprintf("the caches could not be filled: databases %v, directories %v, tarball %q: %s", b.dbs, b.keys, b.tarDir, tail(r.last().all(), 800)), nil)
		return nil
	}
	b.bare = wd.clone()
	b.sc = sc
	b.wd = wd.clone()
	for p, v := range end {
		if !strings.HasSuffix(p, "/") && p != "./" && (strings.HasPrefix(p, b.cache+"/") || strings.HasPrefix(p, dbDir+"/") || strings.HasPrefix(p, "proj/lib/")) {
			b.wd.Files[p] = []byte(strings.ReplaceAll(v, c.W[0].Root, "@ROOT@"))
		}
	}
	for _, f := range []string{"R9-0123456789ab/src/x_1.tar.gz", "R9-0123456789ab/binary/4.3/x_1.tgz", b.keys["R1"] + "x/src/y", "R1/src/z", "R1/keep", "note.txt", "deadbeefdeadbeef/U/DESCRIPTION", "deadbeefdeadbeef/U/src/code.c", b.keys["R1"] + "/note", b.keys["R1"] + "/srcs/n", "src", "binary.txt"} {
		b.wd.Add(b.cache+"/"+f, f)
	}
	b.wd.Add("proj/"+b.keys["R1"]+"/src/mine", "mine").Add("proj/src/a.c", "mine").Add("proj/cache/src/a", "mine").Add("proj/"+b.tarDir+"/T/mine", "mine")
	b.wd.Add("home/.cache/pkgr/"+b.keys["R1"]+"/src/home", "home")
	return b
}

type cleanSel struct {
	arg   string
	repos []string // directories selected
	all   bool
}

func runC16(c *Ctx) {
	for _, deflt := range []bool{false, true} {
		b := c.cleanWorld(deflt)
		if b == nil {
			return
		}
		k1, k2 := b.keys["R1"], b.keys["R2"]
		sels := []cleanSel{{"", nil, true}, {"--repos=ALL", nil, true}, {"--repos=" + k1, []string{k1}, false}, {"--repos=" + k2, []string{k2}, false}, {"--repos=" + k1 + "," + k2, []string{k1, k2}, false},
			{"--repos=" + k1 + "," + k1, []string{k1}, false}, {"--repos=unknown", nil, false}, {"--repos=" + k2 + ",unknown", []string{k2}, false}, {"--repos=R1", []string{"R1"}, false}, {"--repos=R2", nil, false},
			{"--repos=../proj", nil, false}, {"--repos=" + k1 + "/..", nil, false}, {"--repos=.", nil, false}, {"--repos=*", nil, false}, {"--repos=" + strings.ToUpper(k1), nil, false}, {"--repos=" + k1[:len(k1)-1], nil, false}}
		flags := [][]string{nil, {"--src-only"}, {"--binaries-only"}, {"--src-only", "--binaries-only"}}
		states := []string{"full", "missing", "empty", "no-src", "no-binary", "file", "link", "no-repo", "read-only"}
		n, dig := product(len(states), len(sels), len(flags))
		c.Bound("cache at %s: %d selections of repositories x %d of types x %d states of the cache", b.cache, len(sels), len(flags), len(states))
		c.Cases(n, pick(c, 30, 120), func(i int) *Kase {
			x := dig(i)
			return b.cacheCase(states[x[0]], sels[x[1]], flags[x[2]], nil)
		})
		if !c.timeLeft() {
			return
		}
		// histories of cleaning
		hs := []int{0, 2, 3, 6}
		nh, hdig := product(len(hs), 3, len(hs), 3)
		c.Bound("cache at %s: every history of two selections out of %d x 3 types", b.cache, len(hs))
		c.Cases(nh, pick(c, 10, 40), func(i int) *Kase {
			x := hdig(i)
			return b.cacheCase("full", sels[hs[x[0]]], flags[x[1]], &cleanSecond{sels[hs[x[2]]], flags[x[3]]})
		})
		c.cleanDbs(b)
		if !c.timeLeft() {
			return
		}
	}
}

type cleanSecond struct {
	sel   cleanSel
	flags []string
}

// judgeCache compares the trees before and after `clean cache`.
func (b *cleanBase) judgeCache(res *Result, before, after Snap, sel cleanSel, flags []string, state string) (string, string) {
	ds := fmt.Sprintf("clean cache %s %v, cache %s (%s)", sel.arg, flags, state, b.cache)
	if crashed(res) {
		return "crash", ds + ": crashed: " + tail(res.all(), 500)
	}
	cache := b.cache
	if state == "link" {
		cache = "elsewhere/cache"
	}
	both := len(flags) == 2
	src, bin := has(flags, "--src-only") || len(flags) == 0, has(flags, "--binaries-only") || len(flags) == 0
	selected := func(p string) bool { // p may be deleted
		rel, ok := strings.CutPrefix(p, cache+"/")
		if !ok || rel == "" || both {
			return false
		}
		top, rest, deeper := strings.Cut(rel, "/")
		if top == b.tarDir && !both {
			return true // the unpacked copies of listed tarballs are of no repository
		}
		if !deeper || !sel.all && !has(sel.repos, top) {
			return false
		}
		kind, _, _ := strings.Cut(rest, "/")
		return rest == "" || kind == "src" && src && rest != "src" || kind == "binary" && bin && rest != "binary"
	}
	for _, p := range sortedKeys(before) {
		v, ok := after[p]
		switch {
		case ok && v == before[p]:
		case ok:
			return "changed", fmt.Sprintf("%s changed %s", ds, p)
		case !selected(p):
			return "deleted-other", fmt.Sprintf("%s deleted %s", ds, p)
		case strings.Count(strings.TrimPrefix(p, cache+"/"), "/") == 1 && strings.HasSuffix(p, "/"):
			// the directory of a repository may go once it is empty
		}
	}
	for _, p := range sortedKeys(after) {
		if !before.has(p) {
			return "created", fmt.Sprintf("%s created %s", ds, p)
		}
	}
	if both {
		if res.Code == 0 {
			return "contradiction", ds + ": contradictory options are not an error"
		}
		return "", ""
	}
	if res.Code != 0 {
		switch {
		case state == "file" || state == "read-only":
		case sel.all || len(sel.repos) > 0 && (state == "full" || state == "link") && !strings.Contains(sel.arg, "unknown"):
			return "refused", ds + " failed: " + tail(res.all(), 500)
		}
		return "", ""
	}
	for _, p := range sortedKeys(after) {
		rel, ok := strings.CutPrefix(p, cache+"/")
		if !ok || !selected(p) || strings.HasSuffix(p, "/") {
			continue
		}
		if top, _, _ := strings.Cut(rel, "/"); top == b.tarDir && (!sel.all || len(flags) > 0) {
			continue
		}
		if state == "read-only" {
			continue
		}
		return "left", fmt.Sprintf("%s left %s", ds, p)
	}
	return "", ""
}

func (b *cleanBase) cacheCase(state string, sel cleanSel, flags []string, second *cleanSecond) *Kase {
	wd := b.wd.clone()
	drop := func(f func(rel string) bool) {
		for p := range wd.Files {
			if rel, ok := strings.CutPrefix(p, b.cache+"/"); ok && !strings.HasPrefix(p, dbDir) && f(rel) {
				delete(wd.Files, p)
			}
		}
	}
	switch state {
	case "missing":
		if b.cache == "xdg/pkgr" {
			for p := range wd.Files {
				if strings.HasPrefix(p, dbDir) {
					delete(wd.Files, p)
				}
			}
		}
		drop(func(string) bool { return true })
	case "empty":
		drop(func(string) bool { return true })
		wd.Files[b.cache+"/"] = nil
	case "no-src":
		drop(func(r string) bool { return strings.Contains(r, "/src/") })
	case "no-binary":
		drop(func(r string) bool { return strings.Contains(r, "/binary/") })
	case "no-repo":
		drop(func(r string) bool { return strings.HasPrefix(r, b.keys["R1"]+"/") })
	case "file":
		drop(func(string) bool { return true })
		for p := range wd.Files {
			if strings.HasPrefix(p, b.cache+"/") {
				delete(wd.Files, p)
			}
		}
		wd.Add(b.cache, "a file")
	case "link":
		for p, v := range wd.Files {
			if rel, ok := strings.CutPrefix(p, b.cache+"/"); ok {
				wd.Files["elsewhere/cache/"+rel] = v
				delete(wd.Files, p)
			}
		}
		wd.Link[b.cache] = "@ROOT@/elsewhere/cache"
	case "read-only":
		wd.Mode[b.cache+"/"+b.keys["R1"]+"/src/"] = 0555
	}
	args := func(s cleanSel, fl []string) []string {
		a := []string{"clean", "cache"}
		if s.arg != "" {
			a = append(a, s.arg)
		}
		return append(a, fl...)
	}
	k := &Kase{ID: fmt.Sprintf("cache-%s-%s-%s-%v", b.cache, state, sel.arg, flags), World: wd, Scen: b.sc}
	k.Steps = []Step{{Opts: Opts{Args: args(sel, flags)}}}
	if second != nil {
		k.ID += fmt.Sprintf("-then-%s-%v", second.sel.arg, second.flags)
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: args(second.sel, second.flags)}})
	}
	heal := state != "file" && state != "read-only" && state != "link"
	if heal {
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--library", "lib2"}}})
	}
	k.Judge = func(r *Run) (string, string) {
		if sig, msg := b.judgeCache(r.R[0], r.S[0], r.S[1], sel, flags, state); sig != "" {
			return sig, msg
		}
		n := 1
		if second != nil {
			if sig, msg := b.judgeCache(r.R[1], r.S[1], r.S[2], second.sel, second.flags, "after another clean"); sig != "" {
				return sig, msg
			}
			n = 2
		}
		if heal {
			return b.healthy(r.R[n], r.S[n], r.S[n+1], k.ID)
		}
		return "", ""
	}
	return k
}

// healthy judges an install after cleaning.
func (b *cleanBase) healthy(res *Result, before, after Snap, ds string) (string, string) {
	d := *b.d
	d.Library = "lib2"
	if sig, msg := anyOf(d.judgeInstall(d.ref(), res, before, after), "set", "source", "update", "content", "crash"); sig != "" {
		return "install:" + sig, fmt.Sprintf("an install after %s: %s", ds, msg)
	}
	return "", ""
}

// cleanDbs cleans databases, and everything.
func (c *Ctx) cleanDbs(b *cleanBase) {
	type sel struct {
		args  []string
		repos []string
		must  bool
	}
	pk := func(s string, must bool, repos ...string) sel {
		a := []string{"clean", "pkgdbs"}
		if s != "" {
			a = append(a, s)
		}
		return sel{a, repos, must}
	}
	sels := []sel{pk("", true, "R1", "R2"), pk("--repos=ALL", true, "R1", "R2"), pk("--repos=R1", true, "R1"), pk("--repos=R2", true, "R2"), pk("--repos=R1,R2", true, "R1", "R2"), pk("--repos=R1,R1", false, "R1"),
		pk("--repos=unknown", false), pk("--repos=R2,unknown", false, "R2"), pk("--repos=r1", false), pk("--repos=R", false), pk("--repos=R3", false), pk("--repos=../R1", false),
		{[]string{"clean", "--all"}, []string{"R1", "R2"}, true}, {[]string{"clean"}, nil, true}}
	states := []string{"full", "stale", "missing", "no-R1", "damaged", "offline", "cache-missing", "moved-on"}
	n, dig := product(len(states), len(sels))
	c.Bound("package databases, cache at %s: %d selections x %d states", b.cache, len(sels), len(states))
	c.Cases(n, pick(c, 15, 60), func(i int) *Kase {
		x := dig(i)
		state, s := states[x[0]], sels[x[1]]
		wd, sc := b.wd.clone(), *b.sc
		switch state {
		case "stale":
			for _, f := range b.dbs {
				wd.MTime[f] = 10000e9
			}
		case "missing":
			for _, f := range b.dbs {
				delete(wd.Files, f)
			}
		case "no-R1":
			delete(wd.Files, b.dbs["R1"])
		case "damaged":
			wd.Files[b.dbs["R1"]] = []byte("garbage")
		case "offline":
			sc.Faults = []HTTPFault{{Suffix: "", Mode: "500"}}
		case "cache-missing":
			for p := range wd.Files {
				if strings.HasPrefix(p, b.cache+"/") && !strings.HasPrefix(p, dbDir) {
					delete(wd.Files, p)
				}
			}
		case "moved-on":
			// a requested package is in no database: databases are cleaned because of that
			wd.Files["proj/pkgr.yml"] = []byte(strings.Replace(string(wd.Files["proj/pkgr.yml"]), "  - A\n", "  - A\n  - Newcomer\n", 1))
		}
		k := &Kase{ID: fmt.Sprintf("pkgdbs-%s-%s-%v", b.cache, state, s.args), World: wd, Scen: &sc}
		k.Steps = []Step{{Opts: Opts{Args: s.args}}}
		if state != "moved-on" {
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--library", "lib2"}, Scen: b.sc}})
		}
		k.Judge = func(r *Run) (string, string) {
			res, before, after := r.R[0], r.S[0], r.S[1]
			ds := fmt.Sprintf("%v, databases %s", s.args, state)
			if crashed(res) {
				return "dbs:crash", ds + ": crashed: " + tail(res.all(), 600)
			}
			isAll := len(s.args) == 2 && s.args[1] == "--all"
			mayGo := map[string]bool{}
			for _, n := range s.repos {
				for l, f := range b.dbs {
					if strings.HasPrefix(l, n) {
						mayGo[f] = true
					}
				}
			}
			for _, p := range sortedKeys(before) {
				if after.has(p) && after[p] == before[p] || mayGo[p] {
					continue
				}
				in := strings.HasPrefix(p, dbDir+"/")
				if in && after.has(p) {
					continue // fetched again
				}
				if rel, ok := strings.CutPrefix(p, b.cache+"/"); ok && !in && isAll {
					top, rest, _ := strings.Cut(rel, "/")
					kind, _, deep := strings.Cut(rest, "/")
					if top == b.tarDir || rest == "" && strings.HasSuffix(p, "/") || deep && (kind == "src" || kind == "binary") {
						continue
					}
				}
				return "dbs:deleted-other", fmt.Sprintf("%s deleted or changed %s; output: %s", ds, p, tail(res.all(), 300))
			}
			for _, p := range sortedKeys(after) {
				if !before.has(p) && !strings.HasPrefix(p, "xdg/") && !strings.HasPrefix(p, "tmp/") && !strings.HasPrefix(p, b.cache+"/") && p != b.cache+"/" {
					return "dbs:created", fmt.Sprintf("%s created %s", ds, p)
				}
			}
			if res.Code == 0 && isAll {
				for _, p := range sortedKeys(after.sub(b.cache + "/")) {
					if strings.HasSuffix(p, "/") {
						continue
					}
					for _, q := range []string{b.tarDir, b.keys["R1"] + "/src", b.keys["R1"] + "/binary", b.keys["R2"] + "/src", b.keys["R2"] + "/binary"} {
						if strings.HasPrefix(p, q+"/") {
							return "dbs:all-left", fmt.Sprintf("%s reported success but left %s in the cache; output: %s", ds, p, tail(res.all(), 400))
						}
					}
				}
			}
			if res.Code == 0 {
				for _, n := range s.repos {
					if f := b.dbs[n]; after.has(f) {
						return "dbs:left", fmt.Sprintf("%s reported success but left the database of %s; output: %s", ds, n, tail(res.all(), 400))
					}
				}
			} else if s.must && state != "offline" && state != "damaged" && state != "moved-on" {
				return "dbs:refused", fmt.Sprintf("%s failed: %s", ds, tail(res.all(), 500))
			}
			if len(r.R) > 1 {
				return b.healthy(r.R[1], r.S[1], r.S[2], ds)
			}
			return "", ""
		}
		return k
	})
}

func init() {
	checks["C16"] = checkDef{title: "cleaning", run: runC16}
}
