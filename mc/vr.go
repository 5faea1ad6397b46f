package main

// Virtual R and virtual HTTP semantics. This file is compiled twice: into the
// explorer (where "mc fakeR" is a stand-alone fake R for conformance runs
// against the unmodified binary) and, with its package clause replaced, into
// the injected package of the instrumented pkgr build.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// HTTPFault is a deterministic fault for requests whose URL ends in Suffix.
type HTTPFault struct {
	Suffix string
	Mode   string // a status, conn or trunc
	Nth    int    // 0 = every request, else only the nth (1-based)
}

// Scen is the scenario the environment plays.
type Scen struct {
	// Redirect: URL prefixes the TLS servers redirect (unmodified binary)
	Redirect    map[string]string `json:"redirect,omitempty"`
	WWW         map[string]string `json:",omitempty"` // scheme://host -> directory
	RAsync      bool              `json:",omitempty"`
	HTTPAsync   bool              `json:",omitempty"`
	MaxFail     int               `json:",omitempty"` // INSTALL failures the environment may choose
	FailOnly    []string          `json:",omitempty"`
	FailStage   string            `json:",omitempty"` // "", build, final
	FailPartial bool              `json:",omitempty"`
	FailAlways  []string          `json:",omitempty"`
	FailExit    int               `json:",omitempty"` // negative: the signal that ends R
	Faults      []HTTPFault       `json:",omitempty"`
	HTTPChoose  []string          `json:",omitempty"`
	MaxHTTPFail int               `json:",omitempty"`
	LibPaths    []string          `json:",omitempty"`
	Noise       string            `json:",omitempty"` // what the startup files of R print
	LoadFail    []string          `json:",omitempty"`
	OSRelease   string            `json:",omitempty"` // stands for /etc/os-release
	Lean        bool              `json:",omitempty"` // events without the environment and what is installed
	Banner      int               `json:",omitempty"` // how R announces its version
	NoRec       bool              `json:",omitempty"` // recommended packages absent from R's own library
	Renv        string            `json:",omitempty"`
	NoBinary    []string          `json:",omitempty"` // packages whose --build yields no binary
	SessionExit int               `json:",omitempty"` // status interactive sessions end with
}

// Ev is one environment event.
type Ev struct {
	T       string   `json:"t"` // rstart rend http exec
	ID      int      `json:"id,omitempty"`
	Kind    string   `json:"kind,omitempty"` // install version libpaths library pkginfo renv session other
	In      string   `json:"in,omitempty"`   // what a session was given on its standard input
	Argv    []string `json:"argv,omitempty"`
	Exe     string   `json:"exe,omitempty"`
	Dir     string   `json:"dir,omitempty"`
	Env     []string `json:"env,omitempty"`
	Pkg     string   `json:"pkg,omitempty"`
	Ver     string   `json:"ver,omitempty"`
	Src     string   `json:"src,omitempty"`
	Sum     string   `json:"sum,omitempty"`
	Lib     string   `json:"lib,omitempty"`
	Build   bool     `json:"build,omitempty"`
	Bin     bool     `json:"bin,omitempty"`
	Missing []string `json:"missing,omitempty"`
	Bad     string   `json:"bad,omitempty"`
	Code    int      `json:"code,omitempty"`
	Forced  bool     `json:"forced,omitempty"`
	Present []string `json:"present,omitempty"` // packages in the search path of an install
	URL     string   `json:"url,omitempty"`
	Mode    string   `json:"mode,omitempty"`
	Insec   bool     `json:"insec,omitempty"`
	Ops     int      `json:"ops,omitempty"`
}

var vrBase = map[string]bool{"R": true, "base": true, "compiler": true, "datasets": true, "graphics": true, "grDevices": true, "grid": true, "methods": true, "parallel": true, "splines": true, "stats": true, "stats4": true, "tcltk": true, "tools": true, "utils": true}
var vrRec = map[string]bool{"boot": true, "class": true, "cluster": true, "codetools": true, "foreign": true, "KernSmooth": true, "lattice": true, "MASS": true, "Matrix": true, "mgcv": true, "nlme": true, "nnet": true, "rpart": true, "spatial": true, "survival": true}

// RExe reads the version specification of a fake R executable.
func RExe(path string) (ver, plat string, ok bool) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	b := make([]byte, 512)
	n, _ := f.Read(b)
	for _, l := range strings.Split(string(b[:n]), "\n") {
		if strings.HasPrefix(l, "#mcR ") {
			fs := strings.Fields(l)
			if len(fs) >= 3 {
				return fs[1], fs[2], true
			}
		}
	}
	return
}

// RCall is one invocation of R.
type RCall struct {
	Exe       string
	Argv      []string // without argv[0]
	Dir       string
	Env       []string
	Ver, Plat string
	Ev        Ev
	desc      map[string]string
	files     map[string][]byte
	err       string
}

func getenv(env []string, k string) string {
	v := ""
	for _, e := range env {
		if strings.HasPrefix(e, k+"=") {
			v = e[len(k)+1:] // last one wins
		}
	}
	return v
}

// ParseDCF parses a DESCRIPTION file.
func ParseDCF(b []byte) map[string]string {
	m := map[string]string{}
	last := ""
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n") {
		if l == "" {
			continue
		}
		if (l[0] == ' ' || l[0] == '\t') && last != "" {
			m[last] += "\n" + strings.TrimSpace(l)
			continue
		}
		i := strings.Index(l, ":")
		if i <= 0 {
			last = ""
			continue
		}
		last = l[:i]
		m[last] = strings.TrimSpace(l[i+1:])
	}
	return m
}

// DepNames lists the package names of a dependency field.
func DepNames(f string) []string {
	var r []string
	for _, p := range strings.Split(f, ",") {
		p = strings.TrimSpace(p)
		if i := strings.IndexAny(p, " (\n\t"); i >= 0 {
			p = p[:i]
		}
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func readTgz(b []byte) (map[string][]byte, error) {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	tr := tar.NewReader(zr)
	m := map[string][]byte{}
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return m, nil
		}
		if err != nil {
			return nil, err
		}
		if h.Typeflag == tar.TypeReg {
			c, err := io.ReadAll(tr)
			if err != nil {
				return nil, err
			}
			m[filepath.ToSlash(filepath.Clean(h.Name))] = c
		}
	}
}

// MakeTgz builds a deterministic tar.gz.
func MakeTgz(files map[string][]byte) []byte {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	dirs := map[string]bool{}
	for _, n := range names {
		d := filepath.Dir(n)
		var ds []string
		for d != "." && d != "/" && !dirs[d] {
			ds = append(ds, d)
			dirs[d] = true
			d = filepath.Dir(d)
		}
		for i := len(ds) - 1; i >= 0; i-- {
			tw.WriteHeader(&tar.Header{Name: ds[i] + "/", Typeflag: tar.TypeDir, Mode: 0755})
		}
		tw.WriteHeader(&tar.Header{Name: n, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(files[n]))})
		tw.Write(files[n])
	}
	tw.Close()
	return storedGzip(buf.Bytes())
}

// storedGzip is a gzip stream of uncompressed blocks (cheap to make).
func storedGzip(b []byte) []byte {
	out := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff}
	crc, n := crc32.ChecksumIEEE(b), uint32(len(b))
	for {
		k := min(len(b), 65535)
		last := byte(0)
		if k == len(b) {
			last = 1
		}
		out = append(out, last, byte(k), byte(k>>8), byte(^k), byte(^k>>8))
		out = append(out, b[:k]...)
		b = b[k:]
		if last == 1 {
			break
		}
	}
	for _, v := range []uint32{crc, n} {
		out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return out
}

func (c *RCall) libs() []string {
	var r []string
	add := func(s string) {
		for _, p := range strings.Split(s, ":") {
			if p != "" {
				if !filepath.IsAbs(p) {
					p = filepath.Join(c.Dir, p)
				}
				r = append(r, p)
			}
		}
	}
	add(c.Ev.Lib)
	add(getenv(c.Env, "R_LIBS"))
	add(getenv(c.Env, "R_LIBS_USER"))
	add(getenv(c.Env, "R_LIBS_SITE"))
	return r
}

func hasPkg(libs []string, p string) string {
	for _, l := range libs {
		if _, err := os.Stat(filepath.Join(l, p, "DESCRIPTION")); err == nil {
			return filepath.Join(l, p)
		}
	}
	return ""
}

// HardDeps lists the packages a source package needs to install.
func HardDeps(d map[string]string) []string {
	var r []string
	for _, f := range []string{"Depends", "Imports", "LinkingTo"} {
		r = append(r, DepNames(d[f])...)
	}
	return r
}

func (c *RCall) missing(sc *Scen) []string {
	libs := c.libs()
	var miss []string
	for _, d := range HardDeps(c.desc) {
		if vrBase[d] || (vrRec[d] && !sc.NoRec) {
			continue
		}
		if hasPkg(libs, d) == "" {
			miss = append(miss, d)
		}
	}
	return miss
}

// Begin parses the call and checks its inputs.
func (c *RCall) Begin(sc *Scen) {
	e := &c.Ev
	e.T = "rstart"
	e.Argv = c.Argv
	e.Exe = c.Exe
	e.Dir = c.Dir
	e.Env = c.Env
	e.Kind = "other"
	a := c.Argv
	has := func(s string) bool {
		for _, x := range a {
			if x == s {
				return true
			}
		}
		return false
	}
	expr := ""
	for i, x := range a {
		if x == "-e" && i+1 < len(a) {
			expr = a[i+1]
		}
	}
	switch {
	case has("CMD") && has("INSTALL"):
		e.Kind = "install"
		i := 0
		for a[i] != "INSTALL" {
			i++
		}
		for _, x := range a[i+1:] {
			switch {
			case strings.HasPrefix(x, "--library="):
				e.Lib = x[len("--library="):]
			case x == "--build":
				e.Build = true
			case strings.HasPrefix(x, "-"):
			default:
				e.Src = x
			}
		}
		c.load(sc)
	case has("--version"):
		e.Kind = "version"
	case strings.Contains(expr, ".libPaths()"):
		e.Kind = "libpaths"
	case strings.Contains(expr, "renv::"):
		e.Kind = "renv"
	case strings.Contains(expr, "find.package("):
		e.Kind = "pkginfo"
		e.Pkg = between(expr, "find.package(")
	case strings.Contains(expr, "library("):
		e.Kind = "library"
		e.Pkg = between(expr, "library(")
	case expr == "":
		e.Kind = "session"
		for _, x := range a {
			if !strings.HasPrefix(x, "-") {
				e.Kind = "other"
			}
		}
	}
}

// rPaths is what R prints for an expression on .libPaths(): the vector as R
// 4.3 prints one (quoted, padded, lines of 80 columns), or one path at a time.
func rPaths(expr string, ps []string) string {
	var b strings.Builder
	one := strings.Contains(expr, "for") || strings.Contains(expr, "apply(")
	mark := ""
	if i := strings.Index(expr, "paste0('"); i >= 0 {
		mark, _, _ = strings.Cut(between(expr[i:], "paste0("), "'")
	}
	if strings.Contains(expr, "writeLines(") || strings.Contains(expr, "cat(") {
		return strings.Join(ps, "\n") + "\n"
	}
	w := 0
	var q []string
	for _, p := range ps {
		x := fmt.Sprintf("\"%s%s%s\"", mark, p, mark)
		q = append(q, x)
		w = max(w, len(x))
	}
	if one {
		for _, x := range q {
			b.WriteString("[1] " + x + "\n")
		}
		return b.String()
	}
	lab := len(fmt.Sprint(len(q))) + 2
	per := max(1, (80-lab)/(w+1))
	for i := 0; i < len(q); i += per {
		fmt.Fprintf(&b, "%*s", lab, fmt.Sprintf("[%d]", i+1))
		for _, x := range q[i:min(len(q), i+per)] {
			fmt.Fprintf(&b, " %-*s", w, x)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func between(s, p string) string {
	i := strings.Index(s, p)
	s = s[i+len(p):]
	if j := strings.Index(s, ")"); j >= 0 {
		s = s[:j]
	}
	return strings.Trim(s, "'\" ")
}

func (c *RCall) load(sc *Scen) {
	e := &c.Ev
	src := e.Src
	if !filepath.IsAbs(src) {
		src = filepath.Join(c.Dir, src)
	}
	fi, err := os.Stat(src)
	if err != nil {
		c.err = "cannot open " + e.Src
		e.Bad = c.err
		return
	}
	if fi.IsDir() {
		c.files = map[string][]byte{}
		b, err := os.ReadFile(filepath.Join(src, "DESCRIPTION"))
		if err != nil {
			c.err = "no DESCRIPTION in " + e.Src
			e.Bad = c.err
			return
		}
		h := md5.New()
		filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				r, _ := filepath.Rel(src, p)
				d, _ := os.ReadFile(p)
				c.files[r] = d
				fmt.Fprintf(h, "%s %d\n", r, len(d))
				h.Write(d)
			}
			return nil
		})
		e.Sum = fmt.Sprintf("%x", h.Sum(nil))
		c.desc = ParseDCF(b)
	} else {
		b, err := os.ReadFile(src)
		if err != nil {
			c.err = err.Error()
			e.Bad = c.err
			return
		}
		e.Sum = fmt.Sprintf("%x", md5.Sum(b))
		m, err := readTgz(b)
		if err != nil {
			c.err = "invalid package archive: " + err.Error()
			e.Bad = c.err
			return
		}
		c.files = map[string][]byte{}
		for n, d := range m {
			i := strings.Index(n, "/")
			if i < 0 {
				continue
			}
			c.files[n[i+1:]] = d
			if n[i+1:] == "DESCRIPTION" {
				c.desc = ParseDCF(d)
			}
		}
		if c.desc == nil {
			c.err = "invalid package (no DESCRIPTION)"
			e.Bad = c.err
			return
		}
	}
	e.Pkg = c.desc["Package"]
	e.Ver = c.desc["Version"]
	e.Bin = c.desc["Built"] != ""
	if !e.Bin {
		e.Missing = c.missing(sc)
	}
	for _, l := range c.libs() {
		ents, _ := os.ReadDir(l)
		for _, x := range ents {
			if !sc.Lean {
				e.Present = append(e.Present, x.Name())
			}
		}
	}
}

// Finish performs the call's effects. force makes an INSTALL fail.
func (c *RCall) Finish(sc *Scen, force bool) (code int, stdout, stderr string) {
	e := &c.Ev
	switch e.Kind {
	case "version":
		before, after := "", " (2023-06-16) -- "
		switch sc.Banner {
		case 1:
			after = " Patched (2023-07-01 r84618) -- "
		case 2:
			after = " RC (2023-06-10 r84528) -- "
		case 3:
			before = "WARNING: ignoring environment value of R_HOME\n"
		case 4:
			before = "\n/usr/lib/R/bin/R: line 5: warning: setlocale: LC_ALL: cannot change locale (R version of nowhere)\n\n"
		}
		return 0, before + "R version " + c.Ver + after + "\"Virtual\"\nCopyright (C) 2023 The R Foundation for Statistical Computing\nPlatform: " + c.Plat + " (64-bit)\n\nR is free software\n", ""
	case "libpaths":
		return 0, sc.Noise + rPaths(strings.Join(c.Argv, " "), append(append([]string{}, sc.LibPaths...), "/usr/lib/R/library")), ""
	case "renv":
		if sc.Renv == "" {
			return 1, "", "Error: there is no package called 'renv'\n"
		}
		return 0, "some startup noise\n_pkgr_" + strings.ReplaceAll(sc.Renv, "<cwd>", c.Dir) + "_pkgr_\n", ""
	case "library":
		if why := loadErr(sc, e.Pkg, map[string]bool{}); why != "" {
			code := 1
			if sc.FailExit != 0 {
				code = sc.FailExit
			}
			return code, "", "Error in library(\"" + e.Pkg + "\") : " + why + "\nExecution halted\n"
		}
		return 0, sc.Noise + "out-of-" + e.Pkg + "\n", "Loading required package: of-" + e.Pkg + "\n"
	case "pkginfo":
		p := hasPkg(sc.LibPaths, e.Pkg)
		if p == "" {
			return 1, "", "Error in find.package(\"" + e.Pkg + "\") : there is no package called ‘" + e.Pkg + "’\nExecution halted\n"
		}
		b, _ := os.ReadFile(filepath.Join(p, "DESCRIPTION"))
		return 0, sc.Noise + fmt.Sprintf("[1] \"%s\"\n[1] \"%s\"\n", p, ParseDCF(b)["Version"]), ""
	case "session":
		return sc.SessionExit, "session read " + e.In + "\n", "session ends\n"
	case "install":
		return c.finishInstall(sc, force)
	}
	return 2, "", "unsupported call\n"
}

func loadErr(sc *Scen, pkg string, seen map[string]bool) string {
	if vrBase[pkg] || vrRec[pkg] || seen[pkg] {
		return ""
	}
	seen[pkg] = true
	for _, f := range sc.LoadFail {
		if f == pkg {
			return "package or namespace load failed for ‘" + pkg + "’"
		}
	}
	p := hasPkg(sc.LibPaths, pkg)
	if p == "" {
		return "there is no package called ‘" + pkg + "’"
	}
	b, _ := os.ReadFile(filepath.Join(p, "DESCRIPTION"))
	d := ParseDCF(b)
	for _, x := range append(DepNames(d["Depends"]), DepNames(d["Imports"])...) {
		if why := loadErr(sc, x, seen); why != "" {
			return why
		}
	}
	return ""
}

func (c *RCall) finishInstall(sc *Scen, force bool) (int, string, string) {
	e := &c.Ev
	if c.err != "" {
		return 1, "", "ERROR: " + c.err + "\n"
	}
	lib := e.Lib
	if lib == "" {
		lib = "/nonexistent-default-library"
	}
	if !filepath.IsAbs(lib) {
		lib = filepath.Join(c.Dir, lib)
	}
	if fi, err := os.Stat(lib); err != nil || !fi.IsDir() {
		return 1, "", "ERROR: no permission to install to directory ‘" + lib + "’\n"
	}
	if len(e.Missing) > 0 {
		return 1, "", "ERROR: dependencies ‘" + strings.Join(e.Missing, "’, ‘") + "’ are not available for package ‘" + e.Pkg + "’\n"
	}
	if !e.Bin {
		if m := c.missing(sc); len(m) > 0 {
			return 1, "", "ERROR: lazy loading failed for package ‘" + e.Pkg + "’ (lost " + strings.Join(m, ",") + ")\n"
		}
	}
	dst := filepath.Join(lib, e.Pkg)
	if force {
		if sc.FailPartial {
			os.MkdirAll(dst, 0755)
			os.WriteFile(filepath.Join(dst, "DESCRIPTION"), []byte("Package: "+e.Pkg+"\nVersion: "+e.Ver+"\n"), 0644)
			os.WriteFile(filepath.Join(dst, "PARTIAL"), []byte("x"), 0644)
		}
		code := sc.FailExit
		if code == 0 {
			code = 1
		}
		return code, "", "ERROR: compilation failed for package ‘" + e.Pkg + "’\n"
	}
	os.RemoveAll(dst)
	on := c.Plat
	if on == "x86_64-pc-linux-gnu" {
		on = "" // as R does for packages without compiled code
	}
	built := "R " + c.Ver + "; " + on + "; 2026-01-01 00:00:00 UTC; unix"
	out := map[string][]byte{}
	for n, d := range c.files {
		if n == "DESCRIPTION" && !e.Bin {
			s := string(d)
			if !strings.HasSuffix(s, "\n") {
				s += "\n"
			}
			d = []byte(s + "Built: " + built + "\n")
		}
		out[n] = d
	}
	for n, d := range out {
		p := filepath.Join(dst, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, d, 0644)
	}
	if e.Build {
		no := false
		for _, p := range sc.NoBinary {
			no = no || p == e.Pkg
		}
		if !no {
			m := map[string][]byte{}
			for n, d := range out {
				m[e.Pkg+"/"+n] = d
			}
			os.WriteFile(filepath.Join(c.Dir, e.Pkg+"_"+e.Ver+"_R_"+c.Plat+".tar.gz"), MakeTgz(m), 0644)
		}
	}
	return 0, "", "* installing *source* package ‘" + e.Pkg + "’ ...\n* DONE (" + e.Pkg + ")\n"
}

// HTTPGet resolves a URL against the scenario; body and status, or an error.
func HTTPGet(sc *Scen, u, mode string) (status int, body []byte, declared int, err error) {
	if mode == "conn" {
		return 0, nil, 0, fmt.Errorf("dial tcp: connection refused")
	}
	if n, e := strconv.Atoi(mode); e == nil && n > 0 {
		b := []byte(map[bool]string{true: "being prepared, come back later", false: "no such thing here"}[n < 300])
		if n == 204 {
			b = nil
		}
		return n, b, len(b), nil
	}
	pre := ""
	for x := range sc.WWW {
		if strings.HasPrefix(u, x+"/") && len(x) > len(pre) {
			pre = x
		}
	}
	if dir, ok := sc.WWW[pre]; ok {
		if true {
			p := filepath.Join(dir, filepath.Clean("/"+strings.SplitN(u[len(pre)+1:], "?", 2)[0]))
			b, e := os.ReadFile(p)
			if e != nil {
				return 404, []byte("not found"), 9, nil
			}
			if mode == "trunc" {
				return 200, b[:len(b)/2], len(b), nil
			}
			return 200, b, len(b), nil
		}
	}
	return 0, nil, 0, fmt.Errorf("dial tcp: lookup failed: no such host")
}

// FakeRMain is the stand-alone fake R ("mc fakeR exe args...").
func FakeRMain(exe string, args []string) int {
	var sc Scen
	if b, err := os.ReadFile(os.Getenv("MC_SCENARIO")); err == nil {
		json.Unmarshal(b, &sc)
	}
	ver, plat, _ := RExe(exe)
	dir, _ := os.Getwd()
	c := &RCall{Exe: exe, Argv: args, Dir: dir, Env: os.Environ(), Ver: ver, Plat: plat}
	c.Begin(&sc)
	if c.Ev.Kind == "session" {
		b, _ := io.ReadAll(os.Stdin)
		c.Ev.In = string(b)
	}
	c.Ev.ID = os.Getpid()
	logStandalone(c.Ev)
	force := false
	if c.Ev.Kind == "install" {
		force = alwaysFails(&sc, &c.Ev)
		if d := os.Getenv("MC_GATE"); d != "" {
			// conformance replay: wait for permission "pkg.stage"
			force = gate(d, &c.Ev) || force
		}
	}
	code, out, errs := c.Finish(&sc, force)
	ev := c.Ev
	ev.T, ev.Code, ev.Forced, ev.Env, ev.Present = "rend", code, force, nil, nil
	logStandalone(ev)
	if d := os.Getenv("MC_GATE"); d != "" && ev.Kind == "install" {
		os.WriteFile(filepath.Join(d, "done."+ev.Pkg+"."+ev.Stage()), nil, 0644)
	}
	os.Stdout.WriteString(out)
	os.Stderr.WriteString(errs)
	if code < 0 {
		syscall.Kill(os.Getpid(), syscall.Signal(-code))
		select {}
	}
	return code
}

func logStandalone(e Ev) {
	p := os.Getenv("MC_LOG")
	if p == "" {
		return
	}
	b, _ := json.Marshal(e)
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
}

// Stage names the part of an installation a call performs.
func (e *Ev) Stage() string {
	if e.Build {
		return "build"
	}
	return "final"
}

func alwaysFails(sc *Scen, e *Ev) bool {
	if sc.FailStage != "" && sc.FailStage != e.Stage() {
		return false
	}
	for _, p := range sc.FailAlways {
		if p == e.Pkg {
			return true
		}
	}
	return false
}
