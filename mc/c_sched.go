package main

import (
	"fmt"
	"strings"
	"time"
)

var pDiamond = []Pkg{{Name: "A", Ver: "1.0", Imports: "B, C"}, {Name: "B", Ver: "1.0", Imports: "D"}, {Name: "C", Ver: "1.0", Depends: "R (>= 3.0), D"}, {Name: "D", Ver: "1.0"}}
var pChain = []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0", LinkingTo: "C"}, {Name: "C", Ver: "1.0"}}
var pFork = []Pkg{{Name: "A", Ver: "1.0", Imports: "D"}, {Name: "B", Ver: "1.0", Imports: "D"}, {Name: "C", Ver: "1.0", Depends: "R (>= 3.0), D"}, {Name: "D", Ver: "1.0"}}
var pJoin = []Pkg{{Name: "A", Ver: "1.0", Imports: "B, C, D"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0"}, {Name: "D", Ver: "1.0"}}
var pFlat = []Pkg{{Name: "A", Ver: "1.0"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0"}}
var pTwo = []Pkg{{Name: "A", Ver: "1.0", Imports: "B"}, {Name: "B", Ver: "1.0"}, {Name: "C", Ver: "1.0", Imports: "D"}, {Name: "D", Ver: "1.0"}}

// a deeper plan with every kind of dependency, version requirements, packages
// that no repository offers, base and recommended ones and suggestions
var pRich = []Pkg{
	{Name: "A", Ver: "2.1", Imports: "B (>= 1.0), stats, E", Suggests: "S"},
	{Name: "B", Ver: "1.2", LinkingTo: "C", Depends: "R (>= 3.5.0), methods, MASS"},
	{Name: "C", Ver: "1.0-3", Suggests: "notanywhere"},
	{Name: "E", Ver: "0.9", Depends: "F"},
	{Name: "F", Ver: "1.0", LinkingTo: "C, MASS"},
	{Name: "S", Ver: "1.0", Imports: "A"},
	{Name: "MASS", Ver: "7.3"}}

// dagScens are all dependency graphs on n packages P1..Pn with edges from
// lower to higher numbers, the kinds of the edges rotating.
func dagScens(n int, threads int) []*iscen {
	var r []*iscen
	ne := n * (n - 1) / 2
	for g := 0; g < 1<<ne; g++ {
		ps := make([]Pkg, n)
		for i := range ps {
			ps[i] = Pkg{Name: fmt.Sprintf("P%d", i+1), Ver: "1.0"}
		}
		e := 0
		for i := 0; i < n; i++ {
			var dep [3][]string
			for j := i + 1; j < n; j++ {
				if g>>e&1 != 0 {
					dep[(e+g)%3] = append(dep[(e+g)%3], ps[j].Name)
				}
				e++
			}
			ps[i].Depends = strings.Join(dep[0], ", ")
			ps[i].Imports = strings.Join(dep[1], ", ")
			ps[i].LinkingTo = strings.Join(dep[2], ", ")
		}
		var user []string
		for i := range ps {
			user = append(user, ps[i].Name)
		}
		r = append(r, &iscen{name: fmt.Sprintf("dag%d-%d", n, g), src: ps, user: user, threads: threads})
	}
	return r
}

// failExits: how an R that fails ends, a status or (negative) a signal.
var failExits = []int{1, -9, 2, -11, 255}

func schedScens(c *Ctx, fails int) []*iscen {
	b := Budget{Sched: 1, Env: 9, Out: 9, Total: 2}
	st := Budget{Env: 1, Out: 1, Total: 1}
	if !c.quick() {
		b = Budget{Sched: 2, Env: 9, Out: 9, Total: 4}
		st = Budget{Sched: 1, Env: 2, Out: 1, Total: 3}
	}
	l := []*iscen{
		{name: "chain", src: pChain, user: []string{"A"}, threads: 2},
		{name: "join", src: pJoin, user: []string{"A"}, threads: 2, pairs: true},
		{name: "flat", src: pFlat, user: []string{"A", "B", "C"}, threads: 3},
		{name: "two", src: pTwo, user: []string{"A", "C"}, threads: 3},
		{name: "diamond", src: pDiamond, user: []string{"A"}, threads: 2, pairs: true},
		{name: "fork", src: pFork, user: []string{"A", "B", "C"}, threads: 2},
		{name: "rich", src: pRich, user: []string{"A"}, threads: 4},
		{name: "update", src: pDiamond, user: []string{"A"}, threads: 2, installed: []Pkg{{Name: "D", Ver: "0.5"}, {Name: "A", Ver: "0.9", Imports: "D"}, {Name: "Z", Ver: "1"}}},
		{name: "cached", src: pDiamond, user: []string{"A"}, threads: 2, binCache: []string{"D", "C"}},
		{name: "have", src: pDiamond, user: []string{"A"}, threads: 2, installed: []Pkg{{Name: "D", Ver: "1.0"}, {Name: "B", Ver: "1.0", Imports: "D"}}},
		{name: "recommended", src: []Pkg{{Name: "A", Ver: "1.0", Imports: "MASS, B"}, {Name: "B", Ver: "1.0"}, {Name: "MASS", Ver: "7.3"}}, user: []string{"A", "MASS"}, threads: 2, extra: []string{"NoRecommended: true"}},
		{name: "tar", src: pTwo, user: []string{"C"}, threads: 2, tarballs: []Pkg{{Name: "T", Ver: "1.0", Imports: "A"}}},
	}
	for i, s := range l {
		s.budget, s.starve, s.maxFail = b, st, fails
		s.failExit = failExits[i%len(failExits)]
		if c.quick() && fails > 0 {
			s.pairs = false
			if s.name == "rich" || s.name == "join" {
				s.budget.Sched = 0
			}
			s.starve = Budget{Out: 1, Total: 1}
		}
	}
	return l
}

// dagFamily explores every small graph with every completion order.
func dagFamily(c *Ctx, fails int, oracle func(s *iscen, w *Worker, r *Result) (string, string)) {
	l := append(dagScens(3, 2), dagScens(4, pick(c, 2, 3))...)
	// and the graphs on 3 packages for every start state of the library
	states := pick(c, 2, 3)
	n := states * states * states
	var lu []*iscen
	for st := 1; st < n; st++ {
		for _, s := range dagScens(3, 2) {
			s.name += fmt.Sprintf("-have%d", st)
			x := st
			for _, p := range s.src {
				switch x % states {
				case 1:
					p.Ver = "0.5"
					s.installed = append(s.installed, p)
				case 2:
					s.installed = append(s.installed, p)
				}
				x /= states
			}
			lu = append(lu, s)
		}
	}
	l = append(l, lu...)
	for i, s := range l {
		s.maxFail = fails
		s.failExit = failExits[i%len(failExits)]
		s.budget = Budget{Env: 9, Out: 9, Total: pick(c, 1+min(fails, 1), 4)}
		s.starve = Budget{Out: 1, Total: min(fails, pick(c, 0, 1))}
		s.quiet = true
	}
	exploreAll(c, l, oracle)
	c.Bound("every dependency graph on 3 and on 4 packages (8 + 64), edge kinds rotating, the former also with every subset of the packages installed and outdated (thorough: or current): up to %d deviations in completion order and outcome, all single starvation policies", 1+fails)
}

func init() {
	checks["C01"] = checkDef{title: "dependency order", run: func(c *Ctx) {
		o := func(s *iscen, w *Worker, r *Result) (string, string) { return s.orderOracle(r) }
		tarballDeps(c)
		exploreAll(c, deepScens(c, 0), o)
		dagFamily(c, 0, o)
		exploreAll(c, schedScens(c, 0), o)
	}}
	checks["C02"] = checkDef{title: "termination and completeness", quick: 105 * time.Second, run: func(c *Ctx) {
		fs := &iscen{name: "io-errors", src: pTwo, user: []string{"A", "C"}, threads: 2, cold: true}
		faultSweep(c, fs, [][2]int{{3, 28}}, func(w *Worker, r *Result, op Op) (string, string) {
			sig, msg := fs.ended(r)
			return sig, msg + fmt.Sprintf(" (failed operation: %d on %s)", op.Trap, op.Path)
		})
		bigPlans(c)
		o := func(s *iscen, w *Worker, r *Result) (string, string) { return s.completeOracle(w, r) }
		dagFamily(c, 1, o)
		exploreAll(c, schedScens(c, 1), o)
	}}
	checks["C03"] = checkDef{title: "failure containment", quick: 105 * time.Second, run: func(c *Ctx) {
		o := func(s *iscen, w *Worker, r *Result) (string, string) { return s.failOracle(w, r) }
		exploreAll(c, deepScens(c, 1), o)
		dagFamily(c, 2, o)
		exploreAll(c, schedScens(c, 2), o)
	}}
}
