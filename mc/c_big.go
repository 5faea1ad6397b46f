package main

import "fmt"

// ---- plans that exceed the installer's queues (C02) ----

type bigShape struct {
	name string
	n    int
	dep  func(i int) string
}

var bigShapes = []bigShape{
	// everything needs the one package that is built first
	{"star", 2700, func(i int) string {
		if i == 0 {
			return ""
		}
		return "P00000"
	}},
	{"flat", 2700, func(i int) string { return "" }},
	// two layers
	{"halves", 3000, func(i int) string {
		if i < 300 {
			return ""
		}
		return fmt.Sprintf("P%05d", i%300)
	}},
	{"chain", 120, func(i int) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprintf("P%05d", i-1)
	}},
}

func bigPlans(c *Ctx) {
	shapes := bigShapes
	var ks []*Kase
	for _, s := range shapes {
		for _, th := range []int{1, 3, 8} {
			if c.quick() && th != 3 && s.name != "star" {
				continue
			}
			var ps []Pkg
			d := &Decl{Threads: th, Rolloff: true}
			for i := 0; i < s.n; i++ {
				p := Pkg{Name: fmt.Sprintf("P%05d", i), Ver: "1.0", Imports: s.dep(i)}
				ps = append(ps, p)
				d.Packages = append(d.Packages, p.Name)
			}
			d.Repos = []DRepo{{Name: "X", Src: ps}}
			wd, sc := d.build()
			sc.Lean = true
			id := fmt.Sprintf("%s of %d packages, %d workers", s.name, s.n, th)
			ks = append(ks, &Kase{ID: id, NoStock: true, World: wd, Scen: sc, Steps: []Step{{Opts: Opts{Args: []string{"install", "--loglevel", "error"}}}}, Keep: func(p string) bool { return false },
				Judge: func(k *Run) (string, string) {
					r := k.last()
					if r.Verdict != "" {
						return "big-hang:" + s.name, fmt.Sprintf("%s: the command never ends (%s); %d R events", id, r.Verdict, len(r.Evs))
					}
					n := map[string]int{}
					for _, e := range r.Evs {
						if e.T == "rend" && e.Kind == "install" && e.Code == 0 && !e.Build {
							n[e.Pkg]++
						}
					}
					for _, p := range ps {
						if n[p.Name] != 1 {
							return "big:" + s.name, fmt.Sprintf("%s: %s was installed %d times; %s", id, p.Name, n[p.Name], tail(r.all(), 400))
						}
					}
					return "", ""
				}})
		}
	}
	c.Cases(len(ks), 0, func(i int) *Kase { return ks[i] })
}
