package main

import (
	"fmt"
	"os"
	"strings"
)

// ---- C19: provenance in DESCRIPTION ----

// dcfLines splits a DESCRIPTION; an entry holds a field with its continuation lines.
func dcfLines(s string) (fields []string, bad string) {
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		switch {
		case l == "" && s != "":
			return nil, fmt.Sprintf("line %d is empty, which ends the record", i+1)
		case l[0] == ' ' || l[0] == '\t':
			if len(fields) == 0 {
				return nil, "starts with a continuation line"
			}
			fields[len(fields)-1] += "\n" + l
		default:
			fields = append(fields, l)
		}
	}
	return fields, ""
}

func splitField(f string) (k, v string) {
	k, v, _ = strings.Cut(f, ":")
	return k, strings.TrimSpace(v)
}

// stampOracle compares a stamped DESCRIPTION with what R wrote.
func stampOracle(wrote, got, version, repo string, types []string, url func(string) bool) (string, string) {
	w, _ := dcfLines(wrote)
	g, bad := dcfLines(got)
	if bad != "" {
		return "format", bad
	}
	own := map[string]bool{"PkgrVersion": true, "PkgrInstallType": true, "PkgrRepositoryURL": true, "Repository": true, "OriginalRepository": true}
	first := func(l []string, k string) (v string, n int) {
		for _, f := range l {
			if fk, fv := splitField(f); fk == k {
				if n == 0 {
					v = fv
				}
				n++
			}
		}
		return
	}
	rest := func(l []string) (r []string) {
		for _, f := range l {
			if k, _ := splitField(f); !own[k] {
				r = append(r, f)
			}
		}
		return
	}
	for _, k := range []string{"PkgrVersion", "PkgrInstallType", "PkgrRepositoryURL"} {
		v, n := first(g, k)
		if n != 1 {
			return "stamp", fmt.Sprintf("%s is recorded %d times", k, n)
		}
		ok := false
		switch k {
		case "PkgrVersion":
			ok = v == version
		case "PkgrInstallType":
			ok = has(types, v)
		default:
			ok = url(v)
		}
		if !ok {
			return "stamp", fmt.Sprintf("%s is %q", k, v)
		}
	}
	wr, gr := rest(w), rest(g)
	for i := 0; i < len(wr) || i < len(gr); i++ {
		switch {
		case i >= len(wr):
			return "fields", fmt.Sprintf("the field %q was added", trunc(gr[i], 100))
		case i >= len(gr):
			return "fields", fmt.Sprintf("the field %q is lost", trunc(wr[i], 100))
		case wr[i] != gr[i]:
			return "fields", fmt.Sprintf("where R wrote the field %q there is %q", trunc(wr[i], 100), trunc(gr[i], 100))
		}
	}
	wv, wn := first(w, "Repository")
	gv, gn := first(g, "Repository")
	if wn > 0 && (gn != 1 || gv != repo) || gn > 1 || gn == 1 && gv != repo {
		return "repository", fmt.Sprintf("the field Repository is %q (%d times), want %q", gv, gn, repo)
	}
	wo, won := first(w, "OriginalRepository")
	g0, gon := first(g, "OriginalRepository")
	switch {
	case gon > 1:
		return "original", "OriginalRepository is recorded more than once"
	case wn > 0 && wv != repo:
		if gon == 0 || g0 != wv && (won == 0 || g0 != wo) {
			return "original", fmt.Sprintf("OriginalRepository is %q (%d times); R wrote Repository %q, OriginalRepository %q", g0, gon, wv, wo)
		}
	case gon != won || g0 != wo:
		return "original", fmt.Sprintf("OriginalRepository is %q (%d times); R wrote Repository %q, OriginalRepository %q (%d times)", g0, gon, wv, wo, won)
	}
	return "", ""
}

func runC19(c *Ctx) {
	repo := []string{"", "Repository: R1", "Repository: CRAN", "Repository: https://old.example/a:b?c=d", "Repository: R1 ", "Repository: R10", "Repository: A B"}
	orig := []string{"", "OriginalRepository: Z", "OriginalRepository: CRAN", "OriginalRepository: R1"}
	old := []string{"", "PkgrVersion: 0.0.1\nPkgrInstallType: binary\nPkgrRepositoryURL: http://elsewhere.example", "PkgrVersion: 0.0.1", "PkgrRepositoryURL: http://elsewhere.example"}
	long := "Note: " + strings.Repeat("0123456789 ", 7000)
	text := []string{"", "Note: the field PkgrVersion: is not for you", "Note: a\n    PkgrInstallType: source\n    Repository: foo\n    b", "Note: a\n  PkgrVersion: 1\n\tPkgrRepositoryURL: u\n OriginalRepository: o\n OriginalRepository : p", "PkgrVersionPolicy: x", "PkgrRepositoryURLs: x", "RepositoryX: y",
		"Config/PkgrRepositoryURL: y", "XPkgrInstallType: z", long, "Note: Zürich – ✓", "Note: trailing   ", "Note:\n    .\n    paragraph", "Note:\ttab: and: colons", "OriginalRepositoryX: q", "Note: PkgrRepositoryURL", "SystemRequirements: Repository: none"}
	order := 2
	size, digits := product(len(repo), len(orig), len(old), len(text), order)
	var descs [][]string
	for i := 0; i < size; i++ {
		x := digits(i)
		if c.quick() && x[1] > 1 && x[2] > 1 || x[4] == 1 && x[0] == 0 {
			continue
		}
		var l []string
		parts := []string{repo[x[0]], orig[x[1]], old[x[2]], text[x[3]]}
		if x[4] == 1 {
			parts = []string{parts[3], parts[2], parts[1], parts[0]}
		}
		for _, p := range parts {
			if p != "" {
				l = append(l, strings.Split(p, "\n")...)
			}
		}
		descs = append(descs, l)
	}
	w0 := c.W[0]
	w0.Reset(newWorld())
	version := ""
	if r := w0.Exec(Opts{Args: []string{"--version"}}); r.Code == 0 {
		f := strings.Fields(r.Out)
		if len(f) > 0 {
			version = f[len(f)-1]
		}
	}
	if version == "" {
		c.Broken("the program does not tell its version")
		return
	}
	const per = 16 // packages of one case
	modes := []string{"source", "binary", "cached", "update", "tarball", "alias", "twice", "reinstall"}
	ng := (len(descs) + per - 1) / per
	c.Bound("%d DESCRIPTION files (%d repository fields x %d original repositories x %d earlier stamps x %d further fields x 2 orders%s), %d per library; %d ways to install each: %v", len(descs), len(repo), len(orig), len(old), len(text), pick(c, ", not two unusual stamps at once", ""), per, len(modes), modes)
	c.Cases(ng*len(modes), pick(c, 16, 64), func(i int) *Kase {
		mode := modes[i%len(modes)]
		grp := descs[i/len(modes)*per : min(len(descs), i/len(modes)*per+per)]
		r := DRepo{Name: "R1"}
		d := &Decl{}
		var ps, old []Pkg
		for j, l := range grp {
			p := Pkg{Name: fmt.Sprintf("P%c", 'a'+j), Ver: "1.0", Extra: l}
			o := p
			o.Ver = "0.5"
			ps, old = append(ps, p), append(old, o)
			d.Packages = append(d.Packages, p.Name)
		}
		url := r.url()
		switch mode {
		case "binary":
			r.RepoType, r.Bin, r.Src = "MPN", ps, nil
		case "tarball":
			d.Tarballs, d.Packages = ps, []string{"Z"}
			r.Src = []Pkg{{Name: "Z", Ver: "1.0"}}
		case "alias":
			r.Alias, r.Src = "Host8080/Some/Path", ps
		case "update":
			d.Installed, r.Src = old, ps
		default:
			r.Src = ps
		}
		d.Repos = []DRepo{r}
		url = r.url()
		wd, sc := d.build()
		k := &Kase{ID: fmt.Sprintf("stamp-%d %s %d", i, mode, i/len(modes)), World: wd, Scen: sc, Desc: mode}
		k.Steps = []Step{{Opts: Opts{Args: []string{"install"}}}}
		switch mode {
		case "cached":
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}, Pre: func(w *Worker) { os.RemoveAll(w.P("proj/lib")) }})
		case "twice":
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}})
		case "reinstall":
			// removed one by one and installed again, three times
			for n := 0; n < 2; n++ {
				k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}, Pre: func(w *Worker) {
					for _, p := range ps[:len(ps)/2] {
						os.RemoveAll(w.P("proj/lib/" + p.Name))
					}
				}})
			}
		}
		k.Judge = func(run *Run) (string, string) {
			for s, res := range run.R {
				if crashed(res) {
					return "crash", k.ID + ": " + tail(res.all(), 400)
				}
				for _, p := range ps {
					got, ok := run.S[s+1]["proj/lib/"+p.Name+"/DESCRIPTION"]
					if !ok {
						return "missing", fmt.Sprintf("%s: %s is not installed: %s", k.ID, p.Name, tail(res.all(), 300))
					}
					wrote := p.Desc() + "Built: R 4.3.1; ; 2026-01-01 00:00:00 UTC; unix\n"
					types := []string{"source"}
					repo, isURL := "R1", func(v string) bool { return v == url }
					switch mode {
					case "binary":
						wrote = strings.Replace(wrote, "2026-01", "2025-01", 1)
						types = []string{"binary"}
					case "cached", "reinstall":
						if s > 0 {
							types = append(types, "binary")
						}
					case "tarball":
						repo = "IndividualPackage"
						isURL = func(v string) bool { return strings.HasPrefix(v, run.W.Root+"/") || strings.HasPrefix(v, "@ROOT@/") }
					}
					if sig, msg := stampOracle(wrote, got, version, repo, types, isURL); sig != "" {
						return mode2(mode) + sig, fmt.Sprintf("%s, install %d: DESCRIPTION of a package with %q: %s", mode, s+1, trunc(strings.Join(p.Extra, "|"), 300), msg)
					}
				}
			}
			return "", ""
		}
		return k
	})
}

func mode2(m string) string {
	if m == "tarball" {
		return "tarball:"
	}
	return ""
}

func init() {
	checks["C19"] = checkDef{title: "provenance", run: runC19}
}
