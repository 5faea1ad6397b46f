package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---- C15: pkgr add and pkgr remove ----

// pkgList reads the package list of a configuration in the subset of YAML the cases use.
// entry tells, per line (with its line end), the package it lists, "" if none.
func pkgList(text string) (list []string, entry []string, lines []string, ok bool) {
	lines = strings.SplitAfter(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	entry = make([]string, len(lines))
	key := regexp.MustCompile(`^(?i:packages|"packages"|'packages')[ \t]*:[ \t]*(.*)$`)
	flow := regexp.MustCompile(`^\[(.*)\]$`)
	unquote := func(s string) string {
		s = strings.TrimSpace(s)
		if i := strings.Index(s, " #"); i >= 0 {
			s = strings.TrimSpace(s[:i])
		}
		if len(s) > 1 && (s[0] == '"' || s[0] == '\'') && s[len(s)-1] == s[0] {
			s = s[1 : len(s)-1]
		}
		return s
	}
	in, seen, indent := false, 0, -1
	for i, raw := range lines {
		l := strings.TrimRight(raw, "\r\n")
		t := strings.TrimSpace(l)
		if t == "" || t[0] == '#' {
			continue
		}
		if m := key.FindStringSubmatch(l); m != nil {
			if seen++; seen > 1 {
				return nil, nil, lines, false
			}
			v := strings.TrimSpace(m[1])
			if strings.HasPrefix(v, "#") {
				v = ""
			}
			if v == "" {
				in = true
				continue
			}
			m := flow.FindStringSubmatch(unquote(v))
			if m == nil {
				return nil, nil, lines, false
			}
			if strings.TrimSpace(m[1]) != "" {
				for _, x := range strings.Split(m[1], ",") {
					list = append(list, unquote(x))
				}
			}
			continue
		}
		if !in {
			continue
		}
		if l[0] != ' ' && l[0] != '-' || strings.HasPrefix(l, "---") {
			in = false
			continue
		}
		if t != "-" && !strings.HasPrefix(t, "- ") {
			return nil, nil, lines, false
		}
		n := len(l) - len(strings.TrimLeft(l, " "))
		if indent >= 0 && n != indent {
			return nil, nil, lines, false
		}
		indent = n
		entry[i] = unquote(t[1:])
		list = append(list, entry[i])
	}
	return list, entry, lines, true
}

// edited compares a configuration with what adding or removing the packages makes of it; "" if right.
func edited(before, after string, op string, names []string, flow bool) string {
	lb, eb, linesB, ok := pkgList(before)
	if !ok {
		return "?"
	}
	la, ea, linesA, ok := pkgList(after)
	if !ok {
		return "the result is not a valid configuration"
	}
	in := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	if op == "remove" {
		var want []string
		for _, x := range lb {
			if !in(names, x) {
				want = append(want, x)
			}
		}
		if strings.Join(la, "|") != strings.Join(want, "|") {
			return fmt.Sprintf("the list is %q, not %q", la, want)
		}
		if flow {
			return otherLines(linesB, linesA)
		}
		var keep strings.Builder
		for i, l := range linesB {
			if eb[i] == "" || !in(names, eb[i]) {
				keep.WriteString(l)
			}
		}
		if after != keep.String() && strings.TrimRight(after, "\r\n") != strings.TrimRight(keep.String(), "\r\n") {
			return fmt.Sprintf("something other than the entries changed: %q", after)
		}
		if after != keep.String() && strings.HasSuffix(before, "\n") {
			return fmt.Sprintf("the end of the file changed: %q", after)
		}
		return ""
	}
	var fresh, rest []string
	for _, x := range names {
		if !in(lb, x) && !in(fresh, x) {
			fresh = append(fresh, x)
		}
	}
	var got []string
	for _, x := range la {
		if in(fresh, x) {
			got = append(got, x)
		} else {
			rest = append(rest, x)
		}
	}
	a, b := append([]string{}, got...), append([]string{}, fresh...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(rest, "|") != strings.Join(lb, "|") || strings.Join(a, "|") != strings.Join(b, "|") {
		return fmt.Sprintf("the list is %q after adding %q to %q", la, fresh, lb)
	}
	if flow {
		return otherLines(linesB, linesA)
	}
	// without the new entries it is what it was
	has := regexp.MustCompile(`(?m)^Packages[ \t]*:`).MatchString(before)
	j := 0
	for i, l := range linesA {
		if j < len(linesB) && (l == linesB[j] || j == len(linesB)-1 && strings.TrimRight(l, "\r\n") == linesB[j]) {
			j++
			continue
		}
		t := strings.TrimSpace(l)
		if ea[i] != "" && in(fresh, ea[i]) || !has && len(fresh) > 0 && (t == "" || t == "Packages:") {
			continue
		}
		return fmt.Sprintf("line %d, %q, is neither new nor was there", i+1, l)
	}
	if j < len(linesB) {
		return fmt.Sprintf("line %q is gone", linesB[j])
	}
	if len(fresh) == 0 && after != before {
		return fmt.Sprintf("nothing was to be added but the file changed: %q", after)
	}
	return ""
}

// otherLines compares all lines but that of the package list.
func otherLines(b, a []string) string {
	f := func(l []string) string {
		var o []string
		for _, x := range l {
			if !strings.HasPrefix(x, "Packages:") && !strings.HasPrefix(strings.TrimSpace(x), "- ") {
				o = append(o, x)
			}
		}
		return strings.Join(o, "")
	}
	if f(a) != f(b) {
		return fmt.Sprintf("something other than the list changed: %q", strings.Join(a, ""))
	}
	return ""
}

type editShape struct{ name, head, pad string }

// editConfig writes one configuration; must tells whether the commands have to manage it.
func editConfig(d []int) (text string, flow, must bool) {
	shapes := []editShape{{"indent2", "Packages:", "  "}, {"indent0", "Packages:", ""}, {"space", "Packages: ", "    "}, {"comment", "Packages: # the - packages", " "}, {"flow", "", ""}, {"absent", "", ""}, {"lower", "packages:", "  "}, {"quoted", `"Packages":`, "  "}}
	lists := [][]string{{"A", "B"}, {"Ab", "A", "A.b"}, {"A"}, {}, {`"A"`, "'Ab'"}, {"A # keep", "Ab # A"}, {"  A", "B  "}, {"A", "B", "A"}, {"B", "Ab", "xA"}, {"data.table", "R6", "A"}}
	notes := []int{0, 1, 2, 3, 4, 5}
	others := []string{"", "repos", "ignore", "cust", "tarballs", "all"}
	sh, ls, nt, ot, eol, pos := shapes[d[0]], lists[d[1]], notes[d[2]], others[d[3]], d[4], d[5]
	must = true
	var p []string
	switch sh.name {
	case "flow":
		p = []string{"Packages: [" + strings.Join(ls, ", ") + "]"}
		for _, x := range ls {
			if strings.Contains(x, "#") {
				p = []string{"Packages: [A, Ab] # A"}
			}
		}
		flow, must = true, false
	case "absent":
	default:
		must = sh.name != "lower" && sh.name != "quoted"
		p = []string{sh.head}
		for i, x := range ls {
			switch {
			case i == 0 && nt == 1:
				p = append(p, sh.pad+"# first - comes", sh.pad+"#- A")
			case i == 1 && nt == 2:
				p = append(p, "", "# between", sh.pad+"# - New")
			case i == 0 && nt == 3:
				p = append(p, "")
			}
			p = append(p, sh.pad+"- "+x)
		}
		switch nt {
		case 4:
			p = append(p, "", "# - A", sh.pad+"# - New", "")
		case 5:
			p = append([]string{"# Packages:", "# - A"}, p...)
		}
	}
	o := []string{"Repos:", "  - A: http://a.example", "  - CRAN: http://cran.example"}
	add := func(kind string, l ...string) {
		if ot == kind || ot == "all" {
			o = append(o, l...)
		}
	}
	if ot == "repos" {
		o = []string{"Repos:", "- A: http://a.example", "- New: http://n.example"}
	}
	add("ignore", "IgnorePackages:", "  - A", "  - New", "  - Abc", "")
	add("cust", "Customizations:", "  Packages:", "    - A:", "        Env:", "          X: '- A'", "    - New:", "        Suggests: true", "  Repos:", "    - A:", "        Type: source")
	add("tarballs", "Tarballs:", "- A", "- A_1.0.tar.gz", "Descriptions:", "- A", "LibPaths:", "  -   A", "  - B")
	head := []string{"Version: 1", "# A comment about Packages:", "Library: lib", "Cache: cache"}
	var l []string
	switch pos {
	case 0:
		l = append(append(append(l, head...), p...), o...)
	case 1:
		l = append(append(append(l, p...), head...), o...)
	case 2:
		l = append(append(append(l, head...), o...), p...)
	case 3:
		l = append(append(append(append(l, "---"), head...), p...), o...)
	case 4:
		l = append(append(append(l, head...), o...), append(p, "", "")...)
	}
	e := "\n"
	if eol&1 != 0 {
		e = "\r\n"
	}
	text = strings.Join(l, e)
	if eol&2 == 0 {
		text += e
	}
	return
}

var editDims = []int{8, 10, 6, 6, 4, 5}

var editOps = []struct {
	op    string
	names []string
}{
	{"add", []string{"New"}}, {"remove", []string{"A"}}, {"add", []string{"A"}}, {"add", []string{"New", "Ab"}}, {"remove", []string{"Ab", "A"}},
	{"add", []string{"New", "New"}}, {"remove", []string{"New"}}, {"add", []string{"A", "New", "A.b", "data.table"}}, {"remove", []string{"A", "A"}}, {"remove", []string{"a"}},
	{"add", []string{"a"}}, {"remove", []string{"A", "B", "Ab", "A.b"}}, {"remove", []string{"A."}}, {"add", []string{"A."}}, {"remove", []string{"-"}},
}

func runC15(c *Ctx) {
	// all pairs of dimensions (quick) or triples (thorough), the others at their first value
	seen := map[string]bool{}
	var combos [][]int
	n := len(editDims)
	deg := pick(c, 3, 5)
	var rec func(d []int, i, left int)
	rec = func(d []int, i, left int) {
		if i == n {
			k := fmt.Sprint(d)
			if !seen[k] {
				seen[k] = true
				combos = append(combos, append([]int{}, d...))
			}
			return
		}
		d[i] = 0
		rec(d, i+1, left)
		if left > 0 {
			for v := 1; v < editDims[i]; v++ {
				d[i] = v
				rec(d, i+1, left-1)
			}
			d[i] = 0
		}
	}
	rec(make([]int, n), 0, deg)
	weight := func(d []int) int {
		w := 0
		for _, x := range d {
			if x != 0 {
				w++
			}
		}
		return w
	}
	sort.SliceStable(combos, func(i, j int) bool { return weight(combos[i]) < weight(combos[j]) })
	// quick: every operation for up to two deviations, the first five for three
	type job struct {
		d  []int
		op int
	}
	var jobs []job
	for _, d := range combos {
		m := len(editOps)
		switch w := weight(d); {
		case c.quick() && w > 2:
			m = 2
		case w > 3:
			m = 5
		}
		for o := 0; o < m; o++ {
			jobs = append(jobs, job{d, o})
		}
	}
	c.Bound("configurations: shape of the list %v x entries x comments x other sections x line ends x place of the section %v, every combination deviating from the plain one in at most %d of them; %d operations on those deviating in at most two; %d runs", editDims[0], editDims[1:], deg, len(editOps), len(jobs))
	c.Cases(len(jobs), pick(c, 60, 400), func(i int) *Kase {
		j := jobs[i]
		text, flow, must := editConfig(j.d)
		op := editOps[j.op]
		k := &Kase{ID: fmt.Sprintf("edit-%v-%s-%v", j.d, op.op, op.names), World: newWorld().Add("proj/pkgr.yml", text), Desc: text}
		k.Steps = []Step{{Opts: Opts{Args: append([]string{op.op}, op.names...)}}}
		k.Judge = func(r *Run) (string, string) { return judgeEdit(r, 0, "proj/pkgr.yml", op.op, op.names, flow, must) }
		return k
	})
	if !c.timeLeft() {
		return
	}
	// histories of edits
	deep := pick(c, 3, 4)
	size := 1
	hist := []int{0, 1, 3, 4, 6, 11}
	for i := 0; i < deep; i++ {
		size *= len(hist)
	}
	bases := [][]int{{0, 0, 0, 0, 0, 0}, {5, 0, 0, 5, 0, 0}, {1, 5, 2, 5, 3, 2}}
	c.Bound("every history of %d edits out of %d on %d configurations", deep, len(hist), len(bases))
	c.Cases(size*len(bases), pick(c, 10, 50), func(i int) *Kase {
		text, _, _ := editConfig(bases[i%len(bases)])
		k := &Kase{ID: fmt.Sprintf("edits-%d", i), World: newWorld().Add("proj/pkgr.yml", text)}
		x := i / len(bases)
		var ops []int
		for s := 0; s < deep; s++ {
			o := hist[x%len(hist)]
			x /= len(hist)
			ops = append(ops, o)
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: append([]string{editOps[o].op}, editOps[o].names...)}})
		}
		k.ID = fmt.Sprintf("edits-%v-%v", bases[i%len(bases)], ops)
		k.Judge = func(r *Run) (string, string) {
			for s, o := range ops {
				if sig, msg := judgeEdit(r, s, "proj/pkgr.yml", editOps[o].op, editOps[o].names, false, true); sig != "" {
					return sig, fmt.Sprintf("edit %d: %s", s+1, msg)
				}
			}
			return "", ""
		}
		return k
	})
	c.editPlaces()
	c.editFaults()
}

func judgeEdit(r *Run, s int, file, op string, names []string, flow, must bool) (string, string) {
	res, b, a := r.R[s], r.S[s], r.S[s+1]
	ds := fmt.Sprintf("%s %v on %q", op, names, b[file])
	if crashed(res) {
		return op + ":crash", ds + ": the command crashed: " + tail(res.all(), 500)
	}
	for _, d := range b.diff(a) {
		if !strings.Contains(d, file) {
			return op + ":elsewhere", fmt.Sprintf("%s: something else changed: %s", ds, d)
		}
	}
	bad := edited(b[file], a[file], op, names, flow)
	if bad == "?" {
		return "", ""
	}
	if res.Code == 0 {
		if bad != "" {
			return op + ":wrong", fmt.Sprintf("%s reported success but %s; result: %q", ds, bad, a[file])
		}
		return "", ""
	}
	if must {
		return op + ":refused", fmt.Sprintf("%s failed: %s", ds, tail(res.all(), 400))
	}
	if b[file] != a[file] && bad != "" {
		return op + ":failed-changed", fmt.Sprintf("%s failed and left %q", ds, a[file])
	}
	return "", ""
}

// editPlaces names the configuration in different ways, and installs straight after adding.
func (c *Ctx) editPlaces() {
	type place struct{ arg, dir, file string }
	places := []place{
		{"", "proj", "proj/pkgr.yml"}, {"pkgr.yml", "proj", "proj/pkgr.yml"}, {"sub/pkgr.yml", "proj", "proj/sub/pkgr.yml"}, {"./sub/other.yml", "proj", "proj/sub/other.yml"},
		{"../pkgr.yml", "proj/sub", "proj/pkgr.yml"}, {"@ROOT@/proj/sub/pkgr.yml", "home", "proj/sub/pkgr.yml"}, {"~/conf.yml", "proj", "home/conf.yml"}, {"proj/../proj/sub/pkgr.yml", "", "proj/sub/pkgr.yml"},
		{"sub/link.yml", "proj", "proj/sub/link.yml"},
	}
	ops := [][]string{{"add", "B"}, {"add", "B", "D"}, {"remove", "A"}, {"add", "--install", "B"}, {"add", "--install", "B", "D"}}
	nDecoy := 2
	c.Bound("%d ways to name the configuration x %v, with and without other configurations nearby", len(places), ops)
	c.Cases(len(places)*len(ops)*nDecoy, pick(c, 10, 90), func(i int) *Kase {
		p := places[i%len(places)]
		op := ops[i/len(places)%len(ops)]
		decoy := i/len(places)/len(ops) == 1
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0"}, {Name: "B", Ver: "1.0", Imports: "C"}, {Name: "C", Ver: "1.0"}, {Name: "D", Ver: "2.0"}}}}}
		wd, sc := d.build()
		text := strings.Replace(string(wd.Files["proj/pkgr.yml"]), "Library: lib", "Library: \"@ROOT@/proj/lib\"", 1)
		delete(wd.Files, "proj/pkgr.yml")
		files := []string{"proj/pkgr.yml", "proj/sub/pkgr.yml", "proj/sub/other.yml", "home/conf.yml", "proj/sub/sub/pkgr.yml", "proj/sub/sub/other.yml", "pkgr.yml", "home/pkgr.yml", "proj/sub/proj/sub/pkgr.yml"}
		for _, f := range files {
			if decoy || f == p.file {
				wd.Files[f] = []byte(text)
			}
		}
		if p.file == "proj/sub/link.yml" {
			wd.Files["proj/sub/target.yml"] = []byte(text)
			wd.Link["proj/sub/link.yml"] = "target.yml"
		}
		wd.Files["proj/sub/"] = nil
		k := &Kase{ID: fmt.Sprintf("place-%s-%v-%v", p.arg, op, decoy), World: wd, Scen: sc, Desc: text}
		args := append([]string{}, op...)
		if p.arg != "" {
			args = append(args, "--config", p.arg)
		}
		dir := p.dir
		if dir == "" {
			dir = "."
		}
		k.Steps = []Step{{Opts: Opts{Args: args, Dir: dir}}}
		k.Judge = func(r *Run) (string, string) {
			file := p.file
			if file == "proj/sub/link.yml" {
				file = "proj/sub/target.yml"
			}
			names := op[1:]
			inst := names[0] == "--install"
			if inst {
				names = names[1:]
			}
			sb, sa := r.S[0], r.S[1]
			ds := fmt.Sprintf("%v --config %q in %q", op, p.arg, p.dir)
			if crashed(r.R[0]) {
				return op[0] + ":crash", ds + ": crashed: " + tail(r.R[0].all(), 500)
			}
			if r.R[0].Code != 0 {
				return op[0] + ":refused", ds + " failed: " + tail(r.R[0].all(), 500)
			}
			if bad := edited(sb[file], sa[file], op[0], names, false); bad != "" {
				return op[0] + ":wrong", fmt.Sprintf("%s reported success but %s; result: %q", ds, bad, sa[file])
			}
			for f := range sb {
				if strings.HasSuffix(f, ".yml") && f != file && sb[f] != sa[f] {
					return op[0] + ":elsewhere", ds + " changed " + f
				}
			}
			if inst {
				d2 := *d
				d2.Packages = append([]string{"A"}, names...)
				if sig, msg := anyOf(d2.judgeInstall(d2.ref(), r.R[0], sb, sa), "set", "source", "update", "content", "crash"); sig != "" {
					return "install:" + sig, ds + ": " + msg
				}
			}
			return "", ""
		}
		return k
	})
}

// editFaults makes every file operation on the configuration fail.
func (c *Ctx) editFaults() {
	text, _, _ := editConfig([]int{0, 1, 1, 5, 0, 0})
	wd := newWorld().Add("proj/pkgr.yml", text)
	for _, o := range []int{0, 1, 3, 4} {
		op := editOps[o]
		args := append([]string{op.op}, op.names...)
		rb := c.runKase(c.W[0], &Kase{ID: "edit", World: wd, Steps: []Step{{Opts: Opts{Args: args}}}}, false)
		var ops []int
		for i, x := range rb.last().Ops {
			if strings.Contains(x.Path, "/proj") {
				ops = append(ops, i+1)
			}
		}
		modes := [][2]int{{3, 28}, {3, 5}, {3, 13}, {5, 28}}
		c.Bound("%s %v: %d file operations in the project x %d faults", op.op, op.names, len(ops), len(modes))
		c.Cases(len(ops)*len(modes), 0, func(i int) *Kase {
			at, m := ops[i/len(modes)], modes[i%len(modes)]
			k := &Kase{ID: fmt.Sprintf("edit-fault-%s-op%d-%v", op.op, at, m), World: wd, NoStock: true}
			k.Steps = []Step{{Opts: Opts{Args: args, OpAt: at, OpMode: m[0], OpErrno: m[1]}}}
			k.Judge = func(r *Run) (string, string) {
				if crashed(r.R[0]) {
					return op.op + ":crash", fmt.Sprintf("fault %v at operation %d: crashed: %s", m, at, tail(r.R[0].all(), 500))
				}
				if r.R[0].Code != 0 {
					return "", ""
				}
				if bad := edited(r.S[0]["proj/pkgr.yml"], r.S[1]["proj/pkgr.yml"], op.op, op.names, false); bad != "" {
					return op.op + ":fault", fmt.Sprintf("fault %v at operation %d (%s): %s %v reported success but %s", m, at, rb.last().Ops[at-1].Path, op.op, op.names, bad)
				}
				return "", ""
			}
			return k
		})
	}
}

func init() {
	checks["C15"] = checkDef{title: "add and remove", run: runC15}
}
