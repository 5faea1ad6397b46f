package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// ---- C24: pkgr inspect ----

// treeNode is a branch of a printed tree.
type treeNode struct {
	name string
	kids []*treeNode
}

// parseTree reads the drawing of a tree: four columns per level.
func parseTree(s string) *treeNode {
	root := &treeNode{}
	stack := []*treeNode{root}
	for _, l := range strings.Split(s, "\n") {
		pre, name, ok := strings.Cut(l, "── ")
		if !ok {
			continue
		}
		depth := len([]rune(pre))/4 + 1
		if depth > len(stack) {
			return nil
		}
		n := &treeNode{name: strings.TrimSpace(name)}
		stack = stack[:depth]
		p := stack[depth-1]
		p.kids = append(p.kids, n)
		stack = append(stack, n)
	}
	return root
}

func (n *treeNode) below(m map[string]bool) map[string]bool {
	for _, k := range n.kids {
		m[k.name] = true
		k.below(m)
	}
	return m
}

func setOf(m map[string]bool) []string {
	var r []string
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// relation is what inspection must report.
func (d *Decl) relation(reverse bool) map[string]map[string]bool {
	ref := d.ref()
	rel := map[string]map[string]bool{}
	for p := range ref.Plan {
		rel[p] = map[string]bool{}
	}
	for p, n := range ref.Needs {
		if _, ok := ref.Plan[p]; !ok {
			continue
		}
		for q, is := range n {
			if _, ok := ref.Plan[q]; !ok || !is || q == p {
				continue
			}
			if reverse {
				rel[q][p] = true
			} else {
				rel[p][q] = true
			}
		}
	}
	return rel
}

// judgeInspect compares one output with the relation. names restricts it.
func judgeInspect(out string, rel map[string]map[string]bool, tree bool, names []string, known func(string) bool) (string, string) {
	allowed := func(p string) bool { return len(names) == 0 || has(names, p) }
	seen := map[string]bool{}
	if tree {
		root := parseTree(out)
		if root == nil {
			return "tree-form", "the tree cannot be read: " + trunc(out, 300)
		}
		for _, n := range root.kids {
			if seen[n.name] {
				return "tree-twice", n.name + " is shown twice at the top"
			}
			seen[n.name] = true
			if !allowed(n.name) {
				return "tree-extra", n.name + " is shown though not asked for"
			}
		}
		var walk func(n *treeNode) (string, string)
		walk = func(n *treeNode) (string, string) {
			for _, k := range n.kids {
				want, ok := rel[k.name]
				if !ok && known(k.name) && !(n == root && len(k.kids) == 0 && has(names, k.name)) {
					return "tree-unknown", k.name + " is shown but not part of the plan"
				}
				if got := setOf(k.below(map[string]bool{})); ok && fmt.Sprint(got) != fmt.Sprint(setOf(want)) {
					return "tree", fmt.Sprintf("below %s the tree shows %v rather than %v", k.name, got, setOf(want))
				}
				if a, b := walk(k); a != "" {
					return a, b
				}
			}
			return "", ""
		}
		if a, b := walk(root); a != "" {
			return a, b
		}
	} else {
		i := strings.Index(out, "{")
		m := map[string][]string{}
		if i < 0 {
			return "json", "no JSON record: " + trunc(out, 300)
		}
		dec := json.NewDecoder(strings.NewReader(out[i:]))
		if err := dec.Decode(&m); err != nil {
			return "json", "not a JSON record of lists: " + err.Error()
		}
		for p, l := range m {
			seen[p] = true
			if !allowed(p) {
				return "extra", p + " is reported though not asked for"
			}
			want, ok := rel[p]
			got := append([]string{}, l...)
			sort.Strings(got)
			if !ok {
				if known(p) && len(got) > 0 {
					return "unknown", p + " is reported but not part of the plan"
				}
				continue
			}
			if strings.Join(got, " ") != strings.Join(setOf(want), " ") {
				return "list", fmt.Sprintf("%s is reported with %v rather than %v", p, got, setOf(want))
			}
		}
	}
	for p, want := range rel {
		if allowed(p) && len(want) > 0 && !seen[p] {
			return "absent", fmt.Sprintf("%s is not reported, it has %v", p, setOf(want))
		}
	}
	return "", ""
}

type inspectUse struct {
	reverse, tree bool
	names         []string
}

func (u inspectUse) args() []string {
	a := []string{"--loglevel=fatal", "inspect", "--deps"}
	if u.reverse {
		a = append(a, "--reverse")
	}
	if u.tree {
		a = append(a, "--tree")
	}
	return append(a, u.names...)
}

func inspectKase(id string, d *Decl, uses []inspectUse, tweak func(a []string) []string) *Kase {
	wd, sc := d.build()
	ref := d.ref()
	k := &Kase{ID: id, World: wd, Scen: sc, Desc: d.YAML()}
	for _, u := range uses {
		a := u.args()
		if tweak != nil {
			a = tweak(a)
		}
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: a}})
	}
	isTar := map[string]bool{}
	for _, t := range d.Tarballs {
		isTar[t.Name] = true
	}
	k.Judge = func(r *Run) (string, string) {
		for i, u := range uses {
			what := fmt.Sprintf("%v for %s", k.Steps[i].Args, strings.ReplaceAll(trunc(d.YAML(), 400), "\n", "; "))
			res := r.R[i]
			if crashed(res) && !ref.Circular {
				return "crash", what + ": " + tail(res.all(), 300)
			}
			for _, e := range res.Evs {
				if e.Kind == "install" {
					return "install", what + ": an R installation was started"
				}
			}
			keep := func(s Snap) Snap { return s.without(func(p string) bool { return !loadTree(p) }) }
			if df := keep(r.S[i]).diff(keep(r.S[i+1])); len(df) > 0 {
				return "changed", fmt.Sprintf("%s changed %v", what, df)
			}
			if ref.Circular {
				continue
			}
			if len(ref.Missing) > 0 || ref.BadCust {
				if res.Code == 0 {
					return "unsatisfied", what + ": exit status 0 though packages are missing"
				}
				continue
			}
			if res.Code != 0 {
				return "exit", what + fmt.Sprintf(": exit status %d: %s", res.Code, tail(res.all(), 300))
			}
			// a listed tarball may be shown or not
			rel := d.relation(u.reverse)
			sig, msg := judgeInspect(res.Out, rel, u.tree, u.names, func(p string) bool { return !isTar[p] })
			if sig != "" {
				return sig, what + ": " + msg
			}
		}
		return "", ""
	}
	return k
}

func runC24(c *Ctx) {
	all := []inspectUse{}
	for _, rev := range []bool{false, true} {
		for _, tr := range []bool{false, true} {
			all = append(all, inspectUse{rev, tr, nil}, inspectUse{rev, tr, []string{"P2", "P3"}})
			if !c.quick() {
				all = append(all, inspectUse{rev, tr, []string{"P1"}}, inspectUse{rev, tr, []string{"P3"}})
			}
		}
	}
	all = append(all, inspectUse{names: []string{"P1", "nowhere"}}, inspectUse{reverse: true, names: []string{"P2", "P2"}})
	kinds := edgeKinds
	n, dg := product(125, 3, 2)
	c.Bound("every graph on 3 packages with every kind of edge (125) x requests P1 / P2 P3 / all x suggests: %d configurations, %d uses of inspect each", n, len(all))
	c.Cases(n, pick(c, 6, 24), func(i int) *Kase {
		g := dg(i)
		ps := []Pkg{{Name: "P1", Ver: "1.0"}, {Name: "P2", Ver: "1.0"}, {Name: "P3", Ver: "1.0"}}
		ps[0].dep(kinds[g[0]%5], "P2")
		ps[0].dep(kinds[g[0]/5%5], "P3")
		ps[1].dep(kinds[g[0]/25], "P3")
		ps[1].dep("Imports", "stats")
		d := &Decl{Packages: [][]string{{"P1"}, {"P2", "P3"}, {"P3", "P1", "P2"}}[g[1]], Suggests: g[2] == 1, Repos: []DRepo{{Name: "CRAN", Src: ps}}}
		return inspectKase(fmt.Sprintf("inspect-%v", g), d, all, nil)
	})
	dk := deepCases(func(s deepShape, how int, d *Decl) *Kase {
		var uses []inspectUse
		mid := s.pkgs[len(s.pkgs)/2].Name
		for _, rev := range []bool{false, true} {
			for _, tr := range []bool{false, true} {
				uses = append(uses, inspectUse{rev, tr, nil}, inspectUse{rev, tr, []string{mid, s.top[0]}})
			}
		}
		return inspectKase(fmt.Sprintf("%s-%d", s.name, how), d, uses, nil)
	})
	c.Bound("deeper and wider graphs (a chain of 10, 7 layers of 2, everything on everything before it, one on 41, two arms of 5), requested in the list, through a tarball, as suggestions: %d configurations, 8 uses of inspect each", len(dk))
	c.Cases(len(dk), 3, func(i int) *Kase { return dk[i] })
	// graphs on 4 (and 5) packages
	m := pick(c, 4, 5)
	var pn []string
	for i := 0; i < m; i++ {
		pn = append(pn, fmt.Sprintf("P%d", i+1))
	}
	var uses []inspectUse
	for _, rev := range []bool{false, true} {
		for _, tr := range []bool{false, true} {
			uses = append(uses, inspectUse{rev, tr, nil}, inspectUse{rev, tr, []string{pn[m/2]}})
		}
	}
	ng := 1 << (m * (m - 1) / 2)
	c.Bound("every acyclic graph on %d packages (%d), %d uses each", m, ng, len(uses))
	c.Cases(ng, pick(c, 4, 16), func(i int) *Kase {
		s := dagScens1(m, i)
		d := &Decl{Packages: s.user[:1], Repos: []DRepo{{Name: "CRAN", Src: s.src}}}
		if i%2 == 1 {
			d.Packages = s.user
		}
		return inspectKase(fmt.Sprintf("inspect%d-%d", m, i), d, uses, nil)
	})
	// other inputs of the plan
	base := func() *Decl {
		return &Decl{Packages: []string{"A", "E"}, Repos: []DRepo{{Name: "CRAN", Src: []Pkg{
			{Name: "A", Ver: "1.0", Imports: "B (>= 0.5), MASS, stats", Suggests: "S"}, {Name: "B", Ver: "1.2", Depends: "R (>= 3.0), methods", LinkingTo: "C"},
			{Name: "C", Ver: "1.0"}, {Name: "E", Ver: "0.9", Depends: "C"}, {Name: "S", Ver: "1.0", Imports: "A, C"}, {Name: "MASS", Ver: "7.3", Imports: "lattice"}, {Name: "lattice", Ver: "0.2"}, {Name: "data.table", Ver: "1.0"}, {Name: "data", Ver: "1.0", Imports: "data.table"}}},
			{Name: "R2", Src: []Pkg{{Name: "C", Ver: "3.0", Imports: "E"}, {Name: "Z", Ver: "1.0", Imports: "A"}}}}}
	}
	forms := []struct {
		name string
		f    func(d *Decl)
	}{
		{"plain", func(d *Decl) {}},
		{"norec", func(d *Decl) { d.NoRec = true }},
		{"norec-requested", func(d *Decl) { d.NoRec = true; d.Packages = append(d.Packages, "MASS") }},
		{"suggests", func(d *Decl) { d.Suggests = true }},
		{"suggests-of-one", func(d *Decl) { d.Cust = []PkgCust{{Pkg: "A", Suggests: bp(true)}} }},
		{"ignore", func(d *Decl) { d.Ignore = []string{"B"} }},
		{"ignore-two", func(d *Decl) { d.Ignore = []string{"C", "MASS"} }},
		{"other-repo", func(d *Decl) { d.Packages = append(d.Packages, "Z") }},
		{"customized", func(d *Decl) {
			d.Cust = []PkgCust{{Pkg: "C", Repo: "R2"}}
			d.Packages = []string{"B"}
			d.Repos[1].Src[0].Imports = "S"
		}},
		{"tarball", func(d *Decl) { d.Tarballs = []Pkg{{Name: "T", Ver: "1.0", Imports: "B, Z"}} }},
		{"tarball-of-plan", func(d *Decl) { d.Tarballs = []Pkg{{Name: "B", Ver: "9.0", Imports: "Z"}} }},
		{"description", func(d *Decl) { d.Descs = []Pkg{{Name: "U", Ver: "1.0", Imports: "Z", Suggests: "data"}} }},
		{"installed", func(d *Decl) {
			d.Installed = []Pkg{{Name: "B", Ver: "1.2"}, {Name: "C", Ver: "0.1", Imports: "Q"}, {Name: "Q", Ver: "1"}}
		}},
		{"missing", func(d *Decl) { d.Packages = append(d.Packages, "Nowhere") }},
		{"nothing", func(d *Decl) { d.Packages = nil }},
		{"twice", func(d *Decl) { d.Packages = append(d.Packages, "A", "data") }},
		{"self", func(d *Decl) { d.Repos[0].Src[2].Suggests = "C, A" }},
	}
	var fu []inspectUse
	for _, rev := range []bool{false, true} {
		for _, tr := range []bool{false, true} {
			fu = append(fu, inspectUse{rev, tr, nil})
			for _, p := range []string{"A", "B", "C", "MASS", "Z", "T", "data.table", "stats"} {
				fu = append(fu, inspectUse{rev, tr, []string{p}})
			}
			fu = append(fu, inspectUse{rev, tr, []string{"S", "A", "E"}})
		}
	}
	tw := []func(a []string) []string{nil,
		func(a []string) []string { return append([]string{"--loglevel=error", "inspect", "--json"}, a[2:]...) },
		func(a []string) []string { return append([]string{"inspect"}, append(a[2:], "--loglevel", "fatal")...) }}
	c.Bound("%d forms of configuration x %d ways to silence the log, %d uses each", len(forms), len(tw), len(fu))
	c.Cases(len(forms)*len(tw), pick(c, 6, 24), func(i int) *Kase {
		d := base()
		forms[i/len(tw)].f(d)
		return inspectKase(fmt.Sprintf("inspect-%s-%d", forms[i/len(tw)].name, i%len(tw)), d, fu, tw[i%len(tw)])
	})
}

// dagScens1 is one of the graphs of dagScens.
func dagScens1(n, g int) *iscen {
	ps := make([]Pkg, n)
	s := &iscen{}
	kinds := []string{"Depends", "Imports", "LinkingTo"}
	for i := range ps {
		ps[i] = Pkg{Name: fmt.Sprintf("P%d", i+1), Ver: "1.0"}
		s.user = append(s.user, ps[i].Name)
	}
	e := 0
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if g>>e&1 != 0 {
				ps[i].dep(kinds[(e+g)%3], ps[j].Name)
			}
			e++
		}
	}
	s.src = ps
	return s
}

func init() {
	checks["C24"] = checkDef{title: "inspection", run: runC24}
}
