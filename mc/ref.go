package main

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- reference model of planning and installing, written from the documentation ----

// PkgCust customizes one package.
type PkgCust struct {
	Pkg, Repo, Type string
	Suggests        *bool
	Env             []string // "K: v"
}

// DRepo is a declared repository.
type DRepo struct {
	Name         string
	Src, Bin     []Pkg
	Type         string   // customization Type
	RepoType     string   // customization RepoType
	Second       []string // settings of the customization that stand in a second entry of their own
	Suffix       string
	NoSrc, NoBin bool   // the package list does not exist
	Dir          string // set where repositories share their name
	Alias        string // host[/path] instead of the name in the address
}

func (r *DRepo) mpn() bool { return strings.EqualFold(r.RepoType, "MPN") }

// deflt is the default type of the repository on Linux.
func (r *DRepo) deflt() string {
	switch strings.ToLower(r.Type) {
	case "binary":
		return "binary"
	case "source":
		return "source"
	}
	if r.mpn() {
		return "binary"
	}
	return "source"
}

func (r *DRepo) url() string {
	h, p, ok := strings.Cut(r.Alias, "/")
	if h == "" {
		h = strings.ToLower(r.Name)
	}
	if ok {
		p = "/" + p
	}
	return "http://" + h + ".example" + p
}

func osRel(text string) (id, code, ver string) {
	if text == "" {
		b, _ := os.ReadFile("/etc/os-release")
		text = string(b)
	}
	for _, l := range strings.Split(text, "\n") {
		k, v, _ := strings.Cut(l, "=")
		v = strings.Trim(v, "\"'")
		switch k {
		case "ID":
			id = v
		case "VERSION_CODENAME":
			code = v
		case "VERSION_ID":
			ver = v
		}
	}
	return
}

// binDir is the path of binary packages below the repository.
func binDir(osr, suffix, rver string) string {
	id, code, ver := osRel(osr)
	d := id + "/" + ver
	switch {
	case id == "ubuntu":
		d = id + "/" + code
	case id == "centos" || id == "rhel":
		d = "centos/" + strings.Split(ver, ".")[0]
	}
	if suffix != "" {
		d += "/" + suffix
	}
	return "linux/" + d + "/contrib/" + minor(rver)
}

// platform is how R names what it runs on.
func (d *Decl) platform() string {
	if id, _, _ := osRel(d.OS); id == "rhel" {
		return "x86_64-redhat-linux-gnu"
	}
	return plat
}

func (d *Decl) binFile(p Pkg) string {
	return p.Name + "_" + p.Ver + "_R_" + d.platform() + ".tar.gz"
}

func minor(v string) string {
	p := strings.Split(v, ".")
	return p[0] + "." + p[1]
}

// Decl is a declared installation.
type Decl struct {
	Packages, Ignore                   []string
	NoRec, Suggests, NoUpdate, Rolloff bool
	Cust                               []PkgCust
	Repos                              []DRepo
	Tarballs, Descs, Installed         []Pkg
	Foreign                            []Pkg // installed, not by pkgr
	RVer                               string
	Threads                            int
	Extra                              []string
	Library                            string
	OS                                 string // stands for the contents of /etc/os-release
}

func (d *Decl) rver() string {
	if d.RVer == "" {
		return "4.3.1"
	}
	return d.RVer
}

// YAML is the configuration.
func (d *Decl) YAML() string {
	c := Cfg{Packages: d.Packages, Ignore: d.Ignore, Library: d.Library}
	for _, r := range d.Repos {
		c.Repos = append(c.Repos, r.Name+": "+r.url())
	}
	for _, t := range d.Tarballs {
		c.Tarballs = append(c.Tarballs, "tb/"+t.Name+"_"+t.Ver+".tar.gz")
	}
	for _, t := range d.Descs {
		c.Descriptions = append(c.Descriptions, "ds/"+t.Name+"/DESCRIPTION")
	}
	b := func(k string, v bool) {
		if v {
			c.Extra = append(c.Extra, k+": true")
		}
	}
	b("NoRecommended", d.NoRec)
	b("Suggests", d.Suggests)
	b("NoUpdate", d.NoUpdate)
	b("NoRollback", d.Rolloff)
	if d.Threads != 0 {
		c.Extra = append(c.Extra, fmt.Sprintf("Threads: %d", d.Threads))
	}
	var cu []string
	if len(d.Cust) > 0 {
		cu = append(cu, "  Packages:")
		for _, p := range d.Cust {
			cu = append(cu, "    - "+p.Pkg+":")
			if p.Suggests != nil {
				cu = append(cu, fmt.Sprintf("        Suggests: %v", *p.Suggests))
			}
			if p.Repo != "" {
				cu = append(cu, "        Repo: "+p.Repo)
			}
			if p.Type != "" {
				cu = append(cu, "        Type: "+p.Type)
			}
			if len(p.Env) > 0 {
				cu = append(cu, "        Env:")
				for _, e := range p.Env {
					cu = append(cu, "          "+e)
				}
			}
		}
	}
	var rc []string
	var later []func()
	for _, r := range d.Repos {
		if r.Type == "" && r.RepoType == "" && r.Suffix == "" {
			continue
		}
		entry := func(second bool) {
			var l []string
			for _, kv := range [][2]string{{"Type", r.Type}, {"RepoType", r.RepoType}, {"RepoSuffix", r.Suffix}} {
				if kv[1] != "" && has(r.Second, kv[0]) == second {
					l = append(l, "        "+kv[0]+": "+kv[1])
				}
			}
			if len(l) > 0 {
				rc = append(append(rc, "    - "+r.Name+":"), l...)
			}
		}
		entry(false)
		if len(r.Second) > 0 {
			later = append(later, func() { entry(true) })
		}
	}
	for _, f := range later {
		f()
	}
	if len(rc) > 0 {
		cu = append(append(cu, "  Repos:"), rc...)
	}
	if len(cu) > 0 {
		c.Extra = append(c.Extra, "Customizations:")
		c.Extra = append(c.Extra, cu...)
	}
	c.Extra = append(c.Extra, d.Extra...)
	return c.String()
}

func (d *Decl) lib() string {
	if d.Library == "" {
		return "lib"
	}
	return d.Library
}

// build makes the start state.
func (d *Decl) build() (*World, *Scen) {
	wd := newWorld()
	wd.addRon("bin", d.rver(), d.platform())
	sc := &Scen{}
	if d.OS != "" {
		wd.Add("os-release", d.OS)
		sc.OSRelease = "@ROOT@/os-release"
	}
	d.addTo(wd, sc)
	return wd, sc
}

// addTo adds the configuration, its inputs, the repositories and the library.
func (d *Decl) addTo(wd *World, sc *Scen) {
	wd.Add("proj/pkgr.yml", d.YAML())
	for _, t := range d.Tarballs {
		wd.Files["proj/tb/"+t.Name+"_"+t.Ver+".tar.gz"] = t.Tgz()
	}
	for _, t := range d.Descs {
		wd.Add("proj/ds/"+t.Name+"/DESCRIPTION", t.Desc())
	}
	d.addRepos(wd, sc, "www")
	for _, p := range d.Installed {
		wd.addInstalled("proj/"+d.lib(), p, true)
	}
	for _, p := range d.Foreign {
		wd.addInstalled("proj/"+d.lib(), p, false)
	}
}

func (d *Decl) addRepos(wd *World, sc *Scen, base string) {
	if sc.WWW == nil {
		sc.WWW = map[string]string{}
	}
	for _, r := range d.Repos {
		b := base + "/" + r.Name + r.Dir
		if !r.NoSrc {
			wd.Add(b+"/src/contrib/PACKAGES", packagesFile(r.Src))
		}
		for _, p := range r.Src {
			wd.Files[b+"/src/contrib/"+p.Name+"_"+p.Ver+".tar.gz"] = p.Tgz()
		}
		if r.Bin != nil || (r.mpn() && !r.NoBin) {
			bd := b + "/bin/" + binDir(d.OS, r.Suffix, d.rver())
			wd.Add(bd+"/PACKAGES", packagesFile(r.Bin))
			for _, p := range r.Bin {
				wd.Files[bd+"/"+d.binFile(p)] = p.BinTgz(d.rver())
			}
		}
		sc.WWW[r.url()] = "@ROOT@/" + b
		sc.WWW["https"+r.url()[4:]] = "@ROOT@/" + b
	}
}

// RefPkg is one planned package.
type RefPkg struct {
	Pkg
	Repo, Type, URL, Sum string
}

// Ref is what the documentation says a declaration means.
type Ref struct {
	Missing  []string // requested packages nothing offers
	BadCust  bool     // a customization names an unknown repository or type
	Circular bool
	Plan     map[string]RefPkg
	Needs    map[string]map[string]bool // transitive dependencies within the plan
	Tar      map[string]Pkg
	Install  map[string]bool // what R has to install
	Update   map[string]bool // installed, replaced by a newer version
	Outdated map[string]bool // installed and planned at a newer version
}

func cut(l []string) []string {
	if l == nil {
		return []string{}
	}
	return l
}

func (d *Decl) cust(p string) *PkgCust {
	var m *PkgCust
	for _, c := range d.Cust {
		if c.Pkg != p {
			continue
		}
		if m == nil {
			m = &PkgCust{Pkg: p}
		}
		// no two of them contradict each other
		if c.Repo != "" {
			m.Repo = c.Repo
		}
		if c.Type != "" {
			m.Type = c.Type
		}
		if c.Suggests != nil {
			m.Suggests = c.Suggests
		}
		m.Env = append(m.Env, c.Env...)
	}
	return m
}

// entry is the package of that name in a list, nil if there is none usable.
func (d *Decl) entry(l []Pkg, name string) *Pkg {
	var r *Pkg
	for i := range l {
		p := &l[i]
		if p.Name != name || !rCompatible(p.Depends, d.rver()) {
			continue
		}
		path := false
		for _, x := range p.Extra {
			path = path || strings.HasPrefix(x, "Path:")
		}
		// of several versions the newest
		if !path && (r == nil || cmpVer(p.Ver, r.Ver) >= 0) {
			r = p
		}
	}
	return r
}

// selectPkg applies the selection rules.
func (d *Decl) selectPkg(name string) (RefPkg, bool) {
	if has(d.Ignore, name) {
		return RefPkg{}, false
	}
	cu := d.cust(name)
	for i := range d.Repos {
		r := &d.Repos[i]
		if cu != nil && cu.Repo != "" && cu.Repo != r.Name {
			continue
		}
		t := r.deflt()
		if cu != nil && cu.Type != "" {
			t = strings.ToLower(cu.Type)
		}
		l := r.Src
		if r.NoSrc {
			l = nil
		}
		if t == "binary" {
			l = r.Bin
			if !r.mpn() {
				l = nil
			}
		}
		p := d.entry(l, name)
		if p == nil {
			continue
		}
		x := RefPkg{Pkg: *p, Repo: r.Name, Type: t}
		if t == "binary" {
			x.URL = r.url() + "/bin/" + binDir(d.OS, r.Suffix, d.rver()) + "/" + d.binFile(*p)
			x.Sum = fmt.Sprintf("%x", md5.Sum(p.BinTgz(d.rver())))
		} else {
			x.URL = r.url() + "/src/contrib/" + p.Name + "_" + p.Ver + ".tar.gz"
			x.Sum = fmt.Sprintf("%x", md5.Sum(p.Tgz()))
		}
		return x, true
	}
	return RefPkg{}, false
}

func (d *Decl) excluded(p string) bool {
	return vrBase[p] || (d.NoRec && vrRec[p])
}

// tarOnlyDeps are the dependencies a listed tarball adds to the request.
func tarDeps(p Pkg, suggests bool) []string {
	l := append(append(DepNames(p.Depends), DepNames(p.Imports)...), DepNames(p.LinkingTo)...)
	if suggests {
		l = append(l, DepNames(p.Suggests)...)
	}
	return l
}

// ref computes the meaning of the declaration.
func (d *Decl) ref() *Ref {
	r := &Ref{Plan: map[string]RefPkg{}, Needs: map[string]map[string]bool{}, Tar: map[string]Pkg{}, Install: map[string]bool{}, Update: map[string]bool{}, Outdated: map[string]bool{}}
	for _, c := range d.Cust {
		ok := c.Repo == ""
		for _, x := range d.Repos {
			ok = ok || x.Name == c.Repo
		}
		if !ok || (c.Type != "" && !strings.EqualFold(c.Type, "source") && !strings.EqualFold(c.Type, "binary")) {
			r.BadCust = true
		}
	}
	req := append([]string{}, d.Packages...)
	for _, t := range d.Tarballs {
		r.Tar[t.Name] = t
		req = append(req, tarDeps(t, false)...)
	}
	for _, t := range d.Descs {
		req = append(req, tarDeps(t, true)...)
	}
	var todo []string
	for _, p := range req {
		if vrBase[p] {
			continue
		}
		if _, ok := d.selectPkg(p); !ok {
			if !has(r.Missing, p) {
				r.Missing = append(r.Missing, p)
			}
			continue
		}
		todo = append(todo, p)
	}
	direct := map[string][]string{}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if _, ok := r.Plan[p]; ok {
			continue
		}
		x, ok := d.selectPkg(p)
		if !ok {
			continue
		}
		r.Plan[p] = x
		for _, q := range append(append(DepNames(x.Depends), DepNames(x.Imports)...), DepNames(x.LinkingTo)...) {
			if _, ok := d.selectPkg(q); ok && !vrBase[q] && (!d.excluded(q) || has(req, q)) {
				direct[p] = append(direct[p], q)
				todo = append(todo, q)
			}
		}
		sug := d.Suggests && has(d.Packages, p)
		if c := d.cust(p); c != nil && c.Suggests != nil {
			sug = *c.Suggests
		}
		if sug {
			for _, q := range DepNames(x.Suggests) {
				if _, ok := d.selectPkg(q); ok && !vrBase[q] && (!d.excluded(q) || has(req, q)) {
					todo = append(todo, q)
				}
			}
		}
	}
	for p := range r.Plan {
		n := map[string]bool{}
		var add func(q string)
		add = func(q string) {
			for _, z := range direct[q] {
				if z == p {
					r.Circular = true
				}
				if !n[z] {
					n[z] = true
					add(z)
				}
			}
		}
		add(p)
		r.Needs[p] = n
	}
	inst := byName(append(append([]Pkg{}, d.Installed...), d.Foreign...))
	for p, x := range r.Plan {
		o, ok := inst[p]
		switch {
		case !ok:
			r.Install[p] = true
		case cmpVer(x.Ver, o.Ver) > 0:
			r.Outdated[p] = true
			if !d.NoUpdate {
				r.Update[p] = true
				r.Install[p] = true
			}
		}
	}
	return r
}

// verParts splits an R version into its numbers.
func verParts(v string) []int {
	var r []int
	for _, f := range strings.FieldsFunc(v, func(c rune) bool { return c == '.' || c == '-' }) {
		n := 0
		fmt.Sscan(f, &n)
		r = append(r, n)
	}
	return r
}

// cmpVer is R's package version order.
func cmpVer(a, b string) int {
	x, y := verParts(a), verParts(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		switch {
		case i >= len(x):
			return -1
		case i >= len(y):
			return 1
		case x[i] != y[i]:
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

// rCompatible reports whether every R requirement in a Depends field is met.
func rCompatible(depends, rver string) bool {
	for _, e := range strings.Split(depends, ",") {
		e = strings.TrimSpace(e)
		if e != "R" && !strings.HasPrefix(e, "R ") && !strings.HasPrefix(e, "R(") {
			continue
		}
		i := strings.Index(e, "(")
		if i < 0 {
			continue
		}
		q := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(e[i+1:]), ")"))
		op := strings.TrimRight(q[:2], " 0123456789")
		v := strings.TrimSpace(q[len(op):])
		c := cmpVer(rver, v)
		ok := true
		switch op {
		case ">=":
			ok = c >= 0
		case ">":
			ok = c > 0
		case "<=":
			ok = c <= 0
		case "<":
			ok = c < 0
		case "==":
			ok = c == 0
		case "!=":
			ok = c != 0
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---- judging an installation against the reference ----

// finding is one deviation, classified by what it concerns.
type finding struct{ aspect, sig, msg string }

// fetched lists the archives downloaded.
func fetched(evs []Ev) []string {
	var r []string
	for _, e := range evs {
		if e.T == "http" && !strings.HasSuffix(e.URL, "/PACKAGES") {
			r = append(r, e.URL)
		}
	}
	sort.Strings(r)
	return r
}

func anyOf(fs []finding, aspects ...string) (string, string) {
	for _, f := range fs {
		for _, a := range aspects {
			if f.aspect == a {
				return f.sig, f.msg
			}
		}
	}
	return "", ""
}

// judgeInstall compares an install step with the reference. No R failure is expected.
func (d *Decl) judgeInstall(ref *Ref, r *Result, before, after Snap) []finding {
	var out []finding
	bad := func(aspect, sig, f string, a ...any) {
		out = append(out, finding{aspect, sig, fmt.Sprintf(f, a...) + "; R events: " + evLine(r.Evs) + "; config:\n" + d.YAML() + "output: " + tail(r.all(), 700)})
	}
	lib := "proj/" + d.lib() + "/"
	if crashed(r) {
		bad("crash", "crash", "the command crashed or hung (%s)", r.Verdict)
		return out
	}
	if len(ref.Missing) > 0 || ref.BadCust {
		a := "set"
		if ref.BadCust {
			a = "source"
		}
		if r.Code == 0 {
			bad(a, "not-aborted", "the request cannot be satisfied (missing %v, bad customization %v) but the command succeeded", ref.Missing, ref.BadCust)
		}
		if len(ref.Missing) > 0 && !ref.BadCust {
			for _, m := range ref.Missing {
				if !word(r.all(), m) {
					bad("set", "missing-unnamed", "the missing package %s is not named", m)
				}
			}
		}
		if df := before.sub("proj/").diff(after.sub("proj/")); len(df) > 0 {
			bad(a, "changed-on-abort", "the request cannot be satisfied but the project changed: %v", df)
		}
		return out
	}
	if r.Code != 0 {
		bad("set", "failed", "the install failed with status %d", r.Code)
		return out
	}
	unsat := d.unsat(ref)
	// what was fetched
	urls := map[string]string{}
	for p, x := range ref.Plan {
		urls[x.URL] = p
	}
	for _, u := range fetched(r.Evs) {
		if urls[u] == "" {
			p := strings.SplitN(filepath.Base(u), "_", 2)[0]
			if _, ok := ref.Plan[p]; ok {
				bad("source", "fetched-elsewhere", "%s was fetched from %s instead of %s", p, u, ref.Plan[p].URL)
			} else {
				bad("set", "fetched-unplanned", "%s was fetched but is not in the plan %v", u, sortedKeys(ref.Plan))
			}
		}
	}
	fs := fetched(r.Evs)
	for _, p := range sortedKeys(ref.Install) {
		if x, ok := ref.Plan[p]; ok && !has(fs, x.URL) && !before.hasSuffix("/"+filepath.Base(x.URL)) {
			bad("set", "not-fetched", "%s is in the plan but %s was not fetched", p, x.URL)
		}
	}
	// what R was given
	got := map[string]bool{}
	for _, e := range r.Evs {
		if e.T != "rend" || e.Kind != "install" {
			continue
		}
		if e.Code != 0 && len(unsat) > 0 {
			continue
		}
		if e.Code != 0 {
			bad("set", "rfail", "R failed to install %s: nothing should fail here", e.Pkg)
			continue
		}
		x, planned := ref.Plan[e.Pkg]
		t, tar := ref.Tar[e.Pkg]
		if !planned && !tar {
			bad("set", "installed-unplanned", "%s was installed but is not in the plan %v", e.Pkg, sortedKeys(ref.Plan))
			continue
		}
		if tar && e.Ver == t.Ver && (!planned || strings.HasSuffix(filepath.Base(e.Src), e.Pkg)) {
			got[e.Pkg] = true
			continue
		}
		if !planned {
			bad("content", "wrong-version", "tarball %s was installed at version %s", e.Pkg, e.Ver)
			continue
		}
		if e.Ver != x.Ver {
			bad("source", "wrong-version", "%s was installed at version %s, planned is %s", e.Pkg, e.Ver, x.Ver)
		}
		if e.Build || x.Type == "binary" {
			if e.Sum != x.Sum {
				bad("source", "wrong-archive", "%s was installed from an archive that is not %s", e.Pkg, x.URL)
			}
			if e.Build && x.Type == "binary" {
				bad("source", "wrong-type", "%s was built although its binary was selected", e.Pkg)
			}
		}
		if !e.Build {
			got[e.Pkg] = true
		}
	}
	if len(unsat) > 0 {
		return out // R refuses packages whose dependencies nobody offers
	}
	inst := byName(append(append([]Pkg{}, d.Installed...), d.Foreign...))
	for _, p := range sortedKeys(ref.Plan) {
		if ref.Install[p] && !got[p] {
			a := "set"
			if ref.Update[p] {
				a = "update"
			}
			bad(a, "not-installed", "%s was not installed", p)
		}
		if _, tar := ref.Tar[p]; !ref.Install[p] && got[p] && !tar {
			bad("update", "installed-needlessly", "%s %s is installed and %s is selected, yet it was installed again", p, inst[p].Ver, ref.Plan[p].Ver)
		}
	}
	// what the library holds
	lb, la := before.sub(lib), after.sub(lib)
	want := map[string]bool{}
	for p := range inst {
		want[p] = true
	}
	for p := range ref.Plan {
		want[p] = true
	}
	for p := range ref.Tar {
		want[p] = true
	}
	for _, p := range la.top() {
		if !want[p] && !(lb.has(p) && lb[p] == la[p]) {
			a := "set"
			if _, err := fmt.Sscanf(p, "__OLD__%s", new(string)); err == nil || strings.HasPrefix(p, ".") || strings.Contains(p, "_") {
				a = "content"
			}
			bad(a, "extra-entry", "the library holds %s", p)
		}
	}
	for _, p := range sortedKeys(want) {
		vb, va := lb.sub(p+"/"), la.sub(p+"/")
		variant := ""
		if t, ok := ref.Tar[p]; ok {
			variant = fmt.Sprintf("%s %s %s\n", t.Name, t.Ver, t.Variant)
		} else if ref.Install[p] {
			x := ref.Plan[p]
			variant = fmt.Sprintf("%s %s %s\n", x.Name, x.Ver, x.Variant)
		} else {
			if df := vb.diff(va); len(df) > 0 {
				a := "content"
				if _, ok := ref.Plan[p]; ok {
					a = "update"
				}
				bad(a, "touched", "%s must stay untouched but changed: %v", p, df)
			}
			continue
		}
		if va["inst/variant"] != variant {
			a := "content"
			if ref.Update[p] {
				a = "update"
			}
			bad(a, "wrong-contents", "%s in the library has contents %q, not %q", p, va["inst/variant"], variant)
			continue
		}
		if va.has("R/"+p+".rdb") || va.has("PARTIAL") {
			bad("content", "mixed", "%s in the library mixes old and new files", p)
		}
	}
	return out
}

// unsat lists what R cannot install because a dependency is not available anywhere.
func (d *Decl) unsat(ref *Ref) []string {
	inst := byName(append(append([]Pkg{}, d.Installed...), d.Foreign...))
	var r []string
	chk := func(p Pkg) {
		for _, q := range append(append(DepNames(p.Depends), DepNames(p.Imports)...), DepNames(p.LinkingTo)...) {
			_, planned := ref.Plan[q]
			_, there := inst[q]
			if !planned && !there && !vrBase[q] && !vrRec[q] {
				r = append(r, p.Name)
			}
		}
	}
	for _, x := range ref.Plan {
		if x.Type == "source" {
			chk(x.Pkg)
		}
	}
	for _, t := range ref.Tar {
		chk(t)
	}
	return r
}

func (s Snap) hasSuffix(x string) bool {
	for k := range s {
		if strings.HasSuffix(k, x) {
			return true
		}
	}
	return false
}

func bp(b bool) *bool { return &b }

var _ = cut
