package main

import (
	"fmt"
	"strings"
)

// ---- C07: where binaries come from on every Linux distribution ----

type distro struct{ id, ver, code string }

var distros = []distro{
	{"ubuntu", "22.04", "jammy"}, {"ubuntu", "24.04", "noble"}, {"ubuntu", "18.04", "bionic"},
	{"centos", "7", ""}, {"centos", "8", ""}, {"centos", "9", ""}, {"centos", "10", ""},
	{"rhel", "7.9", ""}, {"rhel", "8.10", ""}, {"rhel", "9.3", "Plow"}, {"rhel", "10.0", "Coughlan"},
	{"debian", "12", "bookworm"}, {"rocky", "9.3", ""}, {"fedora", "41", ""}, {"amzn", "2023", ""}, {"opensuse-leap", "15.5", ""},
}

// the same, written in the ways os-release(5) allows
var osForms = []func(x distro) string{
	func(x distro) string {
		return fmt.Sprintf("NAME=\"The %s\"\nVERSION=\"%s LTS (Some Name)\"\nID=%s\nID_LIKE=debian\nPRETTY_NAME=\"The %s %s\"\nVERSION_ID=\"%s\"\nHOME_URL=\"https://www.example/?a=b\"\nVERSION_CODENAME=%s\n", x.id, x.ver, x.id, x.id, x.ver, x.ver, or(x.code, "\"\""))
	},
	func(x distro) string {
		return fmt.Sprintf("ID=\"%s\"\nVERSION_ID=%s\nNAME=%s\nVERSION_CODENAME=\"%s\"\nANSI_COLOR=\"0;31\"\nCPE_NAME=\"cpe:/o:%s:%s\"", x.id, x.ver, x.id, x.code, x.id, x.ver)
	},
	func(x distro) string {
		return fmt.Sprintf("NAME='The %s'\nID='%s'\nVERSION_ID='%s'\nVERSION_CODENAME='%s'\n", x.id, x.id, x.ver, x.code)
	},
	func(x distro) string {
		return fmt.Sprintf("# a comment\nVARIANT=\nID=%s\n\nVERSION_ID=%s\nVERSION_CODENAME=%s\nSUPPORT_END=\n# ID=\"other\"\nBUILD_ID=\n", x.id, x.ver, x.code)
	},
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func osCases(c *Ctx) {
	n, dg := product(len(distros), len(osForms), 2, 3, 2)
	c.Bound("%d Linux distributions x %d ways of writing /etc/os-release x repository suffix or not x package offered as source, binary or both x binary asked for by the package or the repository: %d configurations, installed twice (the second time with an empty library)", len(distros), len(osForms), n)
	c.Cases(n, 0, func(i int) *Kase {
		g := dg(i)
		d := &Decl{Packages: []string{"A", "B"}, OS: osForms[g[1]](distros[g[0]])}
		r := DRepo{Name: "R1", RepoType: "MPN"}
		if g[2] == 1 {
			r.Suffix = []string{"sfx", "up/2024-05", "a.b"}[i%3]
		}
		if g[3] != 1 {
			r.Src = append(r.Src, Pkg{Name: "A", Ver: "1.1", Variant: "src"})
		}
		if g[3] != 0 {
			r.Bin = append(r.Bin, Pkg{Name: "A", Ver: "1.2", Variant: "bin"})
		}
		r.Bin = append(r.Bin, Pkg{Name: "B", Ver: "1.0", Variant: "bin"})
		if g[4] == 1 {
			r.Type = "source"
			d.Cust = []PkgCust{{Pkg: "A", Type: "binary"}, {Pkg: "B", Type: "binary"}}
		}
		d.Repos = []DRepo{r, {Name: "R2", Src: []Pkg{{Name: "A", Ver: "0.1", Variant: "other"}}}}
		k := declCase(fmt.Sprintf("os-%s-%s-%v", distros[g[0]].id, distros[g[0]].ver, g[1:]), d, nil)
		ref := d.ref()
		k.NoStock = true
		k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install", "--library", "lib2"}}})
		k.Judge = func(r *Run) (string, string) {
			sig, msg := anyOf(d.judgeInstall(ref, r.R[0], r.S[0], r.S[1]), "set", "source", "content", "crash")
			if sig != "" {
				return "os:" + sig, fmt.Sprintf("os-release:\n%s\n%s", d.OS, msg)
			}
			if len(ref.Missing) > 0 {
				return "", ""
			}
			d2 := *d
			d2.Library = "lib2"
			if fs := fetched(r.R[1].Evs); len(fs) > 0 {
				return "os:fetched-again", fmt.Sprintf("os-release:\n%s\n%v were fetched although they were fetched before", d.OS, fs)
			}
			for _, p := range []string{"A", "B"} {
				if r.S[2]["proj/lib/"+p+"/inst/variant"] != r.S[2]["proj/lib2/"+p+"/inst/variant"] {
					return "os:second", fmt.Sprintf("os-release:\n%s\n%s differs when it is installed a second time; %s", d.OS, p, tail(r.R[1].all(), 600))
				}
			}
			return "", ""
		}
		return k
	})
}

// ---- repositories that share their name ----

func sameNames(c *Ctx) {
	// three repositories, the second or the third named like the first
	n, dg := product(3, 4, 4, 4, 4, 2)
	c.Bound("three repositories of which two or all share their name x which of two packages each offers (4 each) x customization of the first package (none, either name, type) x the first package requested or a dependency: %d configurations, planned and installed", n)
	c.Cases(n, pick(c, 6, 30), func(i int) *Kase {
		g := dg(i)
		names := [][]string{{"R", "R", "S"}, {"R", "S", "R"}, {"R", "R", "R"}}[g[0]]
		d := &Decl{Packages: []string{"A", "B"}}
		for j, nm := range names {
			r := DRepo{Name: nm, Dir: fmt.Sprintf("-%d", j), Alias: fmt.Sprintf("h%d", j), Src: []Pkg{{Name: "Only" + fmt.Sprint(j), Ver: "1.0"}}}
			for x, p := range []string{"A", "B"} {
				if g[1+j]>>x&1 == 1 {
					q := Pkg{Name: p, Ver: "1.0", Variant: fmt.Sprintf("%d", j)}
					if p == "B" && g[5] == 1 {
						q.Imports = "A"
					}
					r.Src = append(r.Src, q)
				}
			}
			d.Repos = append(d.Repos, r)
		}
		if g[5] == 1 {
			d.Packages = []string{"B"}
		}
		switch g[4] {
		case 1:
			d.Cust = []PkgCust{{Pkg: "A", Repo: "R"}}
		case 2:
			if names[1] == "S" || names[2] == "S" {
				d.Cust = []PkgCust{{Pkg: "A", Repo: "S"}}
			}
		case 3:
			d.Cust = []PkgCust{{Pkg: "A", Type: "source"}}
		}
		k := planThenInstall(fmt.Sprintf("same-name-%v", g), d, "source", "set")
		j := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := j(r)
			if sig != "" {
				sig = "same-name:" + sig
			}
			return sig, msg
		}
		return k
	})
}

// ---- several customizations of one package ----

func manyCusts(c *Ctx) {
	// each of four settings absent, in the first, or in the second entry of A
	n, dg := product(3, 3, 3, 3, 2, 2)
	c.Bound("two customizations of one package: repository, type, suggests and environment each absent, in the first or in the second entry x suggests true or false x another package customized between them: %d configurations, planned and installed", n)
	c.Cases(n, pick(c, 6, 30), func(i int) *Kase {
		g := dg(i)
		e := [3]PkgCust{1: {Pkg: "A"}, 2: {Pkg: "A"}}
		e[g[0]].Repo = "R2"
		e[g[1]].Type = "binary"
		e[g[2]].Suggests = bp(g[4] == 0)
		e[g[3]].Env = []string{"SPEED: fast"}
		d := &Decl{Packages: []string{"A", "B"}, Suggests: g[4] == 1, Cust: []PkgCust{e[1], e[2]}}
		if g[5] == 1 {
			d.Cust = []PkgCust{e[1], {Pkg: "B", Suggests: bp(g[4] == 1), Env: []string{"SPEED: slow"}}, e[2]}
		}
		for j := 1; j <= 2; j++ {
			v := fmt.Sprint(j)
			d.Repos = append(d.Repos, DRepo{Name: "R" + v, RepoType: "MPN", Type: "source",
				Src: []Pkg{{Name: "A", Ver: "1." + v, Variant: v + "src", Suggests: "SA"}, {Name: "B", Ver: "1.0", Suggests: "SB"}, {Name: "SA", Ver: "1.0"}, {Name: "SB", Ver: "1.0"}},
				Bin: []Pkg{{Name: "A", Ver: "1." + v, Variant: v + "bin", Suggests: "SA"}}})
		}
		k := planThenInstall(fmt.Sprintf("two-customizations-%v", g), d, "source", "set")
		j := k.Judge
		k.Judge = func(r *Run) (string, string) {
			if sig, msg := j(r); sig != "" {
				return "two-customizations:" + sig, msg
			}
			for _, x := range r.last().Evs {
				if x.T != "rstart" || x.Kind != "install" || (x.Pkg != "A" && x.Pkg != "B") {
					continue
				}
				want := ""
				if cu := d.cust(x.Pkg); cu != nil && len(cu.Env) > 0 {
					want = strings.Replace(cu.Env[0], ": ", "=", 1)
				}
				got := ""
				for _, v := range x.Env {
					if strings.HasPrefix(v, "SPEED=") {
						got = v
					}
				}
				if got != want {
					return "two-customizations:env", fmt.Sprintf("%s is installed with %q in its environment instead of %q; config:\n%s", x.Pkg, got, want, d.YAML())
				}
			}
			return "", ""
		}
		return k
	})
}

// manyRepoCusts customizes a repository in two entries.
func manyRepoCusts(c *Ctx) {
	types, sfx := []string{"", "source", "binary"}, []string{"", "sfx"}
	n, dg := product(3, 2, 2, 2, 2, 2, 2)
	c.Bound("customizations of a repository - type, kind, suffix - each in its first or second entry x the other repository customized or not x position: %d configurations, planned and installed", n)
	c.Cases(n, pick(c, 6, 30), func(i int) *Kase {
		g := dg(i)
		r := DRepo{Name: "R1", RepoType: "MPN", Type: types[g[0]], Suffix: sfx[g[1]]}
		for j, s := range []string{"Type", "RepoType", "RepoSuffix"} {
			if g[2+j] == 1 {
				r.Second = append(r.Second, s)
			}
		}
		r.Src = []Pkg{{Name: "A", Ver: "1.0", Variant: "src", Imports: "B"}, {Name: "B", Ver: "1.0", Variant: "src"}}
		r.Bin = []Pkg{{Name: "A", Ver: "1.0", Variant: "bin", Imports: "B"}, {Name: "B", Ver: "1.0", Variant: "bin"}}
		o := DRepo{Name: "R2", Src: []Pkg{{Name: "A", Ver: "1.0", Variant: "other"}, {Name: "C", Ver: "1.0"}}}
		if g[5] == 1 {
			o.RepoType, o.Type = "MPN", "source"
		}
		d := &Decl{Packages: []string{"A", "C"}, Repos: []DRepo{r, o}}
		if g[6] == 1 {
			d.Repos = []DRepo{o, r}
			d.Cust = []PkgCust{{Pkg: "A", Repo: "R1"}}
		}
		k := planThenInstall(fmt.Sprintf("repo-customized-twice-%v", g), d, "source", "set", "content")
		j := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := j(r)
			if sig != "" {
				sig = "repo-customized-twice:" + sig
			}
			return sig, msg
		}
		return k
	})
}

// ---- C09: several versions of a package in one repository ----

func manyVersions(c *Ctx) {
	type ent struct{ ver, dep string }
	ents := []ent{{"1.0", ""}, {"1.9", ""}, {"1.10", ""}, {"1.10-1", ""}, {"2.0", "R (>= 99.0)"}, {"1.2", "R (>= 3.0)"}, {"0.9", "R (< 3.0)"}, {"1.9.0", "R (>= 4.0)"}, {"3.0", "R (>= 4.4)"}}
	// every sequence of up to three
	m := len(ents)
	n, dg := product(m+1, m+1, m, 3)
	c.Bound("a package listed in every sequence of one to three of %d versions with R requirements %v, in a source or binary repository, first or second x not installed or every one of them installed: %d configurations", m, ents, n)
	c.Cases(n, pick(c, 10, 50), func(i int) *Kase {
		g := dg(i)
		if g[0] < m && (g[1] == m) {
			return nil
		}
		var l []Pkg
		seen := map[string]bool{}
		for _, x := range g[:3] {
			if x == m {
				continue
			}
			if seen[ents[x].ver] {
				return nil
			}
			seen[ents[x].ver] = true
			l = append(l, Pkg{Name: "A", Ver: ents[x].ver, Depends: ents[x].dep, Variant: "v" + ents[x].ver})
		}
		d := &Decl{Packages: []string{"Z", "A"}}
		z := Pkg{Name: "Z", Ver: "1.0", Imports: "A"}
		r1, r2 := DRepo{Name: "R1", Src: []Pkg{z}}, DRepo{Name: "R2", Src: []Pkg{{Name: "A", Ver: "0.5"}}}
		switch g[3] {
		case 0:
			r1.Src = append(r1.Src, l...)
		case 1:
			r1.RepoType, r1.Bin = "MPN", append([]Pkg{z}, l...)
		case 2:
			r2.Src = append(l, r2.Src...)
			if len(l) > 1 {
				d.Installed = []Pkg{{Name: "A", Ver: l[0].Ver, Variant: "old"}}
			}
		}
		d.Repos = []DRepo{r1, r2}
		k := planThenInstall(fmt.Sprintf("versions-%v", g), d, "source", "set", "update")
		j := k.Judge
		k.Judge = func(r *Run) (string, string) {
			sig, msg := j(r)
			if sig != "" {
				sig = "versions:" + sig
			}
			return sig, msg
		}
		return k
	})
}
