package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg describes an R package of the virtual world.
type Pkg struct {
	Name, Ver                             string
	Depends, Imports, LinkingTo, Suggests string
	Extra                                 []string // further DESCRIPTION lines
	Variant                               string   // distinguishes contents
	Spell                                 int      `json:",omitempty"` // how its record is written, see spellings
}

// spellings are ways to write a record (fields without the final newline).
var spellings = []struct {
	name string
	f    func(l []string) string
}{
	{"plain", func(l []string) string { return strings.Join(l, "\n") + "\n" }},
	{"folded", spellDeps(func(k, v string) string { return k + ": " + strings.ReplaceAll(v, ", ", ",\n        ") })},
	{"folded-from-start", spellDeps(func(k, v string) string { return k + ":\n    " + strings.ReplaceAll(v, ", ", ",\n    ") })},
	{"comma-first", spellDeps(func(k, v string) string { return k + ":\n    " + strings.ReplaceAll(v, ", ", "\n  , ") })},
	{"tabs", spellDeps(func(k, v string) string { return k + ":\n\t" + strings.ReplaceAll(v, ", ", ",\n\t") })},
	{"crlf", func(l []string) string { return strings.Join(l, "\r\n") + "\r\n" }},
	{"crlf-folded", func(l []string) string {
		return strings.ReplaceAll(spellDeps(func(k, v string) string { return k + ":\n    " + strings.ReplaceAll(v, ", ", ",\n    ") })(l), "\n", "\r\n")
	}},
	{"trailing-blanks", func(l []string) string { return strings.Join(l, "  \n") + " \t\n" }},
	{"tight", spellDeps(func(k, v string) string {
		return k + ":" + strings.ReplaceAll(strings.ReplaceAll(v, " ", ""), ">=", ">= ")
	})},
	{"versions", spellDeps(func(k, v string) string {
		return k + ": " + strings.ReplaceAll(strings.ReplaceAll(v, ", ", " (>= 0.1), ")+" (>=0.1)", "R (>= 2.10) (>= 0.1)", "R (>= 2.10)")
	})},
	{"versions-folded", spellDeps(func(k, v string) string {
		return k + ": " + strings.ReplaceAll(strings.ReplaceAll(v, ", ", "\n  (>=\n  0.1),\n ")+"(>=\t0.1)", "R (>= 2.10)\n  (>=\n  0.1)", "R (>= 2.10)")
	})},
	{"twice", spellDeps(func(k, v string) string {
		return k + ": " + v + ", " + strings.ReplaceAll(v, ", ", " (< 99), ") + " (< 99)"
	})},
	{"trailing-comma", spellDeps(func(k, v string) string { return k + ":\n    " + strings.ReplaceAll(v, ", ", ",\n    ") + "," })},
	{"no-newline", func(l []string) string { return strings.Join(l, "\n") }},
	{"blank-end", func(l []string) string { return strings.Join(l, "\n") + "\n\n\n" }},
	{"blank-start", func(l []string) string { return "\n" + strings.Join(l, "\n") + "\n" }},
	{"reversed", func(l []string) string {
		s := ""
		for i := len(l) - 1; i >= 0; i-- {
			s += l[i] + "\n"
		}
		return s
	}},
	{"long", func(l []string) string {
		return "Authors@R: c(\n" + strings.Repeat("    person(\"A\", \"B\", role = \"ctb\"),\n", 3000) + "    person(\"Z\"))\nX-Long: " + strings.Repeat("x", 200000) + "\n" + strings.Join(l, "\n") + "\n"
	}},
	{"latin1", func(l []string) string {
		return "Author: Andr\xe9 M\xfcller\n" + strings.Join(l, "\n") + "\nEncoding: latin1\n"
	}},
	{"utf8", func(l []string) string {
		return "Author: Andr\u00e9 \u4e2d\u6587\n" + strings.Join(l, "\n") + "\nEncoding: UTF-8\n"
	}},
	{"more-fields", func(l []string) string {
		return "Enhances: Q1\nVignetteBuilder: Q2\nRemotes: owner/Q3\nSystemRequirements: Q4 (>= 2)\nConfig/Needs/website: Q5\nDepends-Extra: Q6\nURL: https://example.org/a: b\n" + strings.Join(l, "\n") + "\n"
	}},
	{"colons", func(l []string) string {
		return strings.Join(l, "\n") + "\nDescription: Uses\n    Depends: Q1, and\n    Imports: Q2.\n  .\n  Suggests: Q3\n"
	}},
	{"empty-fields", func(l []string) string {
		s := strings.Join(l, "\n") + "\n"
		for _, k := range []string{"Depends", "Imports", "LinkingTo", "Suggests", "Enhances"} {
			if !strings.Contains("\n"+s, "\n"+k+":") {
				s += k + ":\n"
			}
		}
		return s
	}},
}

func spellDeps(f func(k, v string) string) func(l []string) string {
	return func(l []string) string {
		s := ""
		for _, x := range l {
			k, v, _ := strings.Cut(x, ": ")
			if has([]string{"Depends", "Imports", "LinkingTo", "Suggests"}, k) {
				x = f(k, v)
			}
			s += x + "\n"
		}
		return s
	}
}

func (p Pkg) descLines() []string {
	l := []string{"Package: " + p.Name, "Version: " + p.Ver}
	add := func(k, v string) {
		if v != "" {
			l = append(l, k+": "+v)
		}
	}
	add("Depends", p.Depends)
	add("Imports", p.Imports)
	add("LinkingTo", p.LinkingTo)
	add("Suggests", p.Suggests)
	return append(l, p.Extra...)
}

// Desc is the DESCRIPTION of the package source.
func (p Pkg) Desc() string {
	l := p.descLines()
	l = append(l, "Title: The "+p.Name+" Package", "Author: A", "Maintainer: M <m@example.org>", "License: GPL-3", "Description: Does "+p.Name+".")
	if p.Spell != 0 {
		return spellings[p.Spell].f(l)
	}
	return strings.Join(l, "\n") + "\n"
}

func (p Pkg) files() map[string][]byte {
	return map[string][]byte{
		p.Name + "/DESCRIPTION":  []byte(p.Desc()),
		p.Name + "/NAMESPACE":    []byte("export(f_" + p.Name + ")\n"),
		p.Name + "/R/code.R":     []byte("f_" + strings.ReplaceAll(p.Name, ".", "_") + " <- function() \"" + p.Ver + p.Variant + "\"\n"),
		p.Name + "/inst/variant": []byte(p.Name + " " + p.Ver + " " + p.Variant + "\n"),
	}
}

// Tgz is the source archive.
func (p Pkg) Tgz() []byte { return MakeTgz(p.files()) }

// BinTgz is a binary archive.
func (p Pkg) BinTgz(rver string) []byte {
	f := p.files()
	f[p.Name+"/DESCRIPTION"] = []byte(p.Desc() + "Built: R " + rver + "; ; 2025-01-01 00:00:00 UTC; unix\n")
	return MakeTgz(f)
}

// Repo is a CRAN-like repository.
type Repo struct {
	Name    string
	Src     []Pkg
	Bin     []Pkg
	BinPath string // e.g. linux/ubuntu-22.04/contrib/4.3 below bin
	NoSrc   bool   // no src/contrib/PACKAGES at all
	RVer    string
}

func packagesFile(ps []Pkg) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteString("\n")
		}
		r := strings.Join(p.descLines(), "\n") + "\n"
		if p.Spell != 0 {
			if r = spellings[p.Spell].f(p.descLines()); !strings.HasSuffix(r, "\n") && i < len(ps)-1 {
				r += "\n"
			}
		}
		b.WriteString(r)
	}
	return b.String()
}

// Write writes the repository below dir.
func (r Repo) Write(dir string) error {
	put := func(p string, b []byte) error {
		p = filepath.Join(dir, p)
		os.MkdirAll(filepath.Dir(p), 0755)
		return os.WriteFile(p, b, 0644)
	}
	if !r.NoSrc {
		if err := put("src/contrib/PACKAGES", []byte(packagesFile(r.Src))); err != nil {
			return err
		}
	}
	for _, p := range r.Src {
		if err := put("src/contrib/"+p.Name+"_"+p.Ver+".tar.gz", p.Tgz()); err != nil {
			return err
		}
	}
	if r.BinPath != "" {
		if err := put("bin/"+r.BinPath+"/PACKAGES", []byte(packagesFile(r.Bin))); err != nil {
			return err
		}
		for _, p := range r.Bin {
			// the Linux binary naming of pkgr: name_version_R_platform.tar.gz is requested by pkgr's own scheme
			if err := put("bin/"+r.BinPath+"/"+binFile(p), p.BinTgz(r.RVer)); err != nil {
				return err
			}
		}
	}
	return nil
}

// addRepo puts the repository into the world below www/<name>.
func (wd *World) addRepo(r Repo, base string) {
	if !r.NoSrc {
		wd.Add(base+"/src/contrib/PACKAGES", packagesFile(r.Src))
	}
	for _, p := range r.Src {
		wd.Files[base+"/src/contrib/"+p.Name+"_"+p.Ver+".tar.gz"] = p.Tgz()
	}
	if r.BinPath != "" {
		wd.Add(base+"/bin/"+r.BinPath+"/PACKAGES", packagesFile(r.Bin))
		for _, p := range r.Bin {
			wd.Files[base+"/bin/"+r.BinPath+"/"+binFile(p)] = p.BinTgz(r.RVer)
		}
	}
}

func binFile(p Pkg) string { return p.Name + "_" + p.Ver + "_R_" + plat + ".tar.gz" }

const plat = "x86_64-pc-linux-gnu"

// addR adds a fake R installation.
func (wd *World) addR(dir, ver string) { wd.addRon(dir, ver, plat) }

// addRon adds a fake R for a platform.
func (wd *World) addRon(dir, ver, plat string) {
	s := "#!/bin/sh\n#mcR " + ver + " " + plat + "\nexec \"$MC_BIN\" fakeR \"$0\" \"$@\"\n"
	for _, n := range []string{"R", "Rscript"} {
		wd.Add(dir+"/"+n, s)
		wd.Mode[dir+"/"+n] = 0755
	}
}

// addInstalled puts an installed package in a library; origin "" means not by pkgr.
func (wd *World) addInstalled(lib string, p Pkg, pkgr bool) {
	d := p.Desc() + "Built: R 4.3.1; ; 2025-01-01 00:00:00 UTC; unix\n"
	if pkgr {
		d += "PkgrVersion: dev\nPkgrInstallType: source\nPkgrRepositoryURL: http://old.example\n"
	}
	wd.Add(lib+"/"+p.Name+"/DESCRIPTION", d)
	wd.Add(lib+"/"+p.Name+"/inst/variant", p.Name+" "+p.Ver+" OLD "+p.Variant+"\n")
	wd.Add(lib+"/"+p.Name+"/R/"+p.Name+".rdb", "compiled "+p.Name+" "+p.Ver+"\n")
}

// Cfg is a pkgr.yml.
type Cfg struct {
	Packages, Repos, Ignore, Tarballs, Descriptions []string // Repos: "NAME: url"
	Library                                         string
	Extra                                           []string
	NoCache                                         bool
	NoLibrary                                       bool
}

func (c Cfg) String() string {
	var b strings.Builder
	b.WriteString("Version: 1\n")
	list := func(k string, l []string) {
		if len(l) == 0 {
			return
		}
		b.WriteString(k + ":\n")
		for _, x := range l {
			b.WriteString("  - " + x + "\n")
		}
	}
	list("Packages", c.Packages)
	list("Repos", c.Repos)
	list("IgnorePackages", c.Ignore)
	list("Tarballs", c.Tarballs)
	list("Descriptions", c.Descriptions)
	if !c.NoLibrary {
		lib := c.Library
		if lib == "" {
			lib = "lib"
		}
		b.WriteString("Library: " + lib + "\n")
	}
	if !c.NoCache {
		b.WriteString("Cache: \"@ROOT@/cache\"\n")
	}
	for _, e := range c.Extra {
		b.WriteString(e + "\n")
	}
	return b.String()
}

// baseWorld has an R 4.3.1 and the given repositories under www/<name>, served
// as http://<name>.example.
func baseWorld(cfg Cfg, repos ...Repo) (*World, *Scen) {
	wd := newWorld()
	wd.addR("bin", "4.3.1")
	sc := &Scen{WWW: map[string]string{}}
	for _, r := range repos {
		wd.addRepo(r, "www/"+r.Name)
		sc.WWW["http://"+strings.ToLower(r.Name)+".example"] = "@ROOT@/www/" + r.Name
		sc.WWW["https://"+strings.ToLower(r.Name)+".example"] = "@ROOT@/www/" + r.Name
	}
	if cfg.Repos == nil {
		for _, r := range repos {
			cfg.Repos = append(cfg.Repos, r.Name+": http://"+strings.ToLower(r.Name)+".example")
		}
	}
	wd.Add("proj/pkgr.yml", cfg.String())
	return wd, sc
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = fmt.Sprint
