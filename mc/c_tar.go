package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
)

// ---- C17: unpacking listed tarballs ----

type tent struct {
	typ  byte
	name string // @ROOT@ is the root of the case
	body string
	link string
	mode int64
}

func (e tent) String() string {
	s := fmt.Sprintf("%c:%s", e.typ, e.name)
	if e.link != "" {
		s += "->" + e.link
	}
	if len(s) > 60 {
		s = s[:50] + "..."
	}
	return s
}

const tarDesc = "Package: T\nVersion: 1.0\nTitle: t\n"

// tarAlphabet are entries an archive may hold besides its DESCRIPTION; the first nDanger are not plain ones.
func tarAlphabet() (l []tent, nDanger int) {
	f := func(n, b string) tent { return tent{typ: '0', name: n, body: b} }
	l = []tent{
		f("../evil", "evil"), f("T/../../evil", "evil"), f("@ROOT@/outside/evil", "evil"), f("T/l/x", "through"), {typ: '2', name: "T/l", link: "@ROOT@/outside"}, {typ: '2', name: "T/l", link: "../../../outside"},
		{typ: '2', name: "T", link: "@ROOT@/outside"}, {typ: '1', name: "T/h", link: "T/DESCRIPTION"}, {typ: '1', name: "T/h2", link: "@ROOT@/outside/secret"}, {typ: '1', name: "T/h3", link: "../../outside/secret"},
		{typ: '5', name: "../outdir/"}, {typ: '5', name: "@ROOT@/outside/newdir/"}, f("T", "a file"), {typ: '2', name: "T/R", link: "DESCRIPTION"}, {typ: '2', name: "U", link: "T"},
		{typ: '5', name: "T/l/"}, {typ: '6', name: "T/fifo"}, f("../../outside/secret", "overwritten"), f("T/R", "a file"),
	}
	nDanger = len(l)
	l = append(l, f("T/R/a.R", "a <- 1\n"), tent{typ: '5', name: "T/R/"}, f("T/DESCRIPTION", tarDesc), tent{typ: '3', name: "T/chr"}, tent{typ: '4', name: "T/blk"},
		f("Z", "top"), f("U/x", "other package"), tent{typ: 'g', name: "pax_global_header"}, f("T/./b", "b"), f("T//b2", "b2"), f("./T/q", "q"), tent{typ: '5', name: "./"}, tent{typ: '5', name: "T/../T/R2/"},
		f("T/../T/c", "c"), f("T/"+strings.Repeat("long/", 30)+"x", "deep"), f("T/"+strings.Repeat("n", 200), "long"), f("T/"+strings.Repeat("m", 300), "too long"), f("T/empty", ""), f("T/big", strings.Repeat("0123456789abcdef", 6000)),
		tent{typ: '0', name: "T/setuid", body: "s", mode: 04755}, tent{typ: '0', name: "T/none", body: "n", mode: 01000}, tent{typ: '7', name: "T/cont", body: "c"}, tent{typ: 'Z', name: "T/unknown", body: "z"}, f("T/a b\n\\..\\c", "odd"), f("T/\xff\xfe", "bytes"), f("T/..x", "dots"), f("T/...", "dots"), f("T/x/../y", "y"), f("", "no name"))
	return
}

func tarBytes(es []tent, root string) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range es {
		h := &tar.Header{Typeflag: e.typ, Name: strings.ReplaceAll(e.name, "@ROOT@", root), Linkname: strings.ReplaceAll(e.link, "@ROOT@", root), Mode: 0644, Size: int64(len(e.body))}
		if e.typ == '5' {
			h.Mode = 0755
		}
		if e.mode != 0 {
			h.Mode = e.mode & 07777 &^ 01000
		}
		if e.typ == 'g' {
			h = &tar.Header{Typeflag: 'g', Name: e.name, PAXRecords: map[string]string{"comment": "abc"}}
		}
		if err := w.WriteHeader(h); err != nil {
			continue
		}
		w.Write([]byte(e.body))
	}
	w.Close()
	return b.Bytes()
}

func zipBytes(es []tent, root string) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, e := range es {
		h := &zip.FileHeader{Name: strings.ReplaceAll(e.name, "@ROOT@", root)}
		body := e.body
		switch e.typ {
		case '2':
			h.SetMode(os.ModeSymlink | 0777)
			body = strings.ReplaceAll(e.link, "@ROOT@", root)
		case '5':
			h.SetMode(os.ModeDir | 0755)
		case '6':
			h.SetMode(os.ModeNamedPipe | 0644)
		case '0':
			h.SetMode(0644)
		default:
			continue
		}
		if f, err := w.CreateHeader(h); err == nil {
			f.Write([]byte(body))
		}
	}
	w.Close()
	return b.Bytes()
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// tarExpect is what unpacking has to make of the entries: "yes" exactly these files, "no" rejected, "any" either.
func tarExpect(es []tent, format string) (verdict string, trees []map[string]string) {
	t := map[string]string{} // path -> content, "/" suffix directories
	verdict = "yes"
	no := func() { verdict = "no" }
	var mk func(p string) bool
	mk = func(p string) bool {
		if p == "." || p == "" {
			return true
		}
		if _, isFile := t[p]; isFile {
			return false
		}
		if !mk(path.Dir(p)) {
			return false
		}
		t[p+"/"] = ""
		return true
	}
	soft := false
	for _, e := range es {
		if format == "zip" && strings.IndexByte("02567", e.typ) < 0 || format == "zip" && e.typ == '7' {
			continue
		}
		if strings.HasPrefix(e.name, "@ROOT@") || !filepath.IsLocal(e.name) && e.typ != 'g' {
			if e.name == "./" {
				continue
			}
			no()
			return verdict, nil
		}
		if strings.Contains(e.name, "/../") {
			soft = true
		}
		n := path.Clean(e.name)
		long := len(path.Base(n)) > 255
		switch e.typ {
		case 'g':
		case '5':
			if !mk(n) {
				no()
				return verdict, nil
			}
		case '0', '7', 'Z':
			if e.typ != '0' || long {
				soft = true
			}
			_, isDir := t[n+"/"]
			if _, dup := t[n]; dup {
				soft = true
			}
			if isDir || !mk(path.Dir(n)) || long {
				if long {
					return "any", nil
				}
				no()
				return verdict, nil
			}
			t[n] = e.body
		case '1':
			src, ok := t[path.Clean(e.link)]
			_, dup := t[n]
			if !ok || dup || !mk(path.Dir(n)) {
				no()
				return verdict, nil
			}
			soft = true
			t[n] = src
		default:
			no()
			return verdict, nil
		}
	}
	if soft {
		verdict = "any"
		// the first of two entries may win
		f := map[string]string{}
		for k, v := range t {
			f[k] = v
		}
		for i := len(es) - 1; i >= 0; i-- {
			if n := path.Clean(es[i].name); es[i].typ == '0' {
				if _, ok := f[n]; ok {
					f[n] = es[i].body
				}
			}
		}
		trees = append(trees, f)
	}
	return verdict, append([]map[string]string{t}, trees...)
}

// tarCase unpacks one archive by planning or installing.
func tarCase(id string, es []tent, format string, mutate func(b []byte) []byte) *Kase {
	d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0"}}}}, Installed: nil}
	wd, sc := d.build()
	ext := map[string]string{"gz": ".tar.gz", "tgz": ".tgz", "tar": ".tar", "zip": ".zip"}[format]
	y := string(wd.Files["proj/pkgr.yml"])
	wd.Add("proj/pkgr.yml", y+"Tarballs:\n  - ../tars/T_1.0"+ext+"\n")
	wd.Add("outside/secret", "secret").Add("tars/keep", "k").Add("cache/keep/T/DESCRIPTION", "kept")
	k := &Kase{ID: id, World: wd, Scen: sc, Desc: fmt.Sprint(es)}
	k.Steps = []Step{{Opts: Opts{Args: []string{"plan"}}, Pre: func(w *Worker) {
		var b []byte
		switch format {
		case "zip":
			b = zipBytes(es, w.Root)
		case "tar":
			b = tarBytes(es, w.Root)
		default:
			b = gz(tarBytes(es, w.Root))
		}
		if mutate != nil {
			b = mutate(b)
		}
		os.MkdirAll(w.P("tars"), 0755)
		os.WriteFile(w.P("tars/T_1.0"+ext), b, 0644)
	}}}
	verdict, trees := tarExpect(es, format)
	if mutate != nil && verdict == "yes" && strings.HasPrefix(id, "tar cut") {
		// an archive that ends between two entries is a shorter archive
		var n, of int
		fmt.Sscanf(id, "tar cut to %d of %d", &n, &of)
		end, padded := 0, 0 // of the first i entries
		for i := 0; i <= len(es); i++ {
			if n >= end && n <= padded {
				_, ts := tarExpect(es[:i], format)
				trees = append(trees, ts...)
			}
			if i < len(es) {
				end = padded + 512 + len(es[i].body)
				padded = (end + 511) / 512 * 512
			}
		}
	}
	k.Judge = func(r *Run) (string, string) {
		res, b, a := r.R[0], r.B[0], r.S[1]
		ds := fmt.Sprintf("%s archive %v", format, es)
		if mutate != nil {
			ds += " (" + id + ")"
		}
		if crashed(res) {
			return "crash", ds + ": crashed: " + tail(res.all(), 500)
		}
		// the only new thing is one directory of the cache
		dir := ""
		for _, p := range sortedKeys(a) {
			if b.has(p) && b[p] == a[p] || strings.HasPrefix(p, "xdg/") || strings.HasPrefix(p, "tmp/") {
				continue
			}
			rel, ok := strings.CutPrefix(p, "cache/")
			top, _, _ := strings.Cut(rel, "/")
			if !ok || b.has(p) || dir != "" && dir != top {
				return "escape", fmt.Sprintf("%s: unpacking created or changed %s", ds, p)
			}
			dir = top
		}
		for _, p := range sortedKeys(b) {
			if !a.has(p) {
				return "escape", fmt.Sprintf("%s: unpacking deleted %s", ds, p)
			}
		}
		if mutate != nil && res.Code != 0 {
			return "", "" // rejected
		}
		switch {
		case dir == "" && res.Code == 0:
			return "not-unpacked", ds + ": the command succeeded without unpacking: " + tail(res.all(), 400)
		case dir == "" && verdict == "yes":
			return "refused", ds + ": a good archive was refused: " + tail(res.all(), 400)
		case dir == "":
			return "", ""
		case verdict == "no":
			return "accepted", fmt.Sprintf("%s: was not rejected: the cache has %v", ds, sortedKeys(a.sub("cache/"+dir+"/")))
		case trees == nil:
			return "", ""
		}
		got := a.sub("cache/" + dir + "/")
		delete(got, "")
		if mutate == nil && verdict == "yes" && res.Code != 0 && got["T/DESCRIPTION"] == trees[0]["T/DESCRIPTION"] {
			first := "T/"
			for p := range got {
				if t, _, sub := strings.Cut(p, "/"); sub && t+"/" < first {
					first = t + "/"
				}
			}
			if first == "T/" {
				return "unused", ds + ": the package of a good archive was not accepted: " + tail(res.all(), 400)
			}
		}
		var df []string
		for _, t := range trees {
			df = nil
			for p, v := range t {
				if g, ok := got[p]; !ok || g != v {
					df = append(df, fmt.Sprintf("%q is %q", p, trunc(g, 30)))
				}
			}
			for p := range got {
				if _, ok := t[p]; !ok {
					df = append(df, fmt.Sprintf("%q is extra", p))
				}
			}
			if df == nil {
				return "", ""
			}
		}
		return "contents", fmt.Sprintf("%s: the unpacked tree differs from the archive: %v", ds, df)
	}
	return k
}

func runC17(c *Ctx) {
	al, nd := tarAlphabet()
	good := tent{typ: '0', name: "T/DESCRIPTION", body: tarDesc}
	top := tent{typ: '5', name: "T/"}
	// DESCRIPTION at each place among up to two entries, or three
	type job struct {
		es     []tent
		format string
	}
	var jobs []job
	add := func(format string, es ...tent) { jobs = append(jobs, job{es, format}) }
	for _, f := range []string{"gz", "tar", "zip"} {
		add(f, top, good)
		add(f, good)
		for _, x := range al {
			add(f, good, x)
			add(f, x, good)
		}
	}
	pair := func(f string, l []tent, where int) {
		for _, x := range l {
			for _, y := range l {
				switch where {
				case 0:
					add(f, x, y, good)
				case 1:
					add(f, x, good, y)
				default:
					add(f, top, good, x, y)
				}
			}
		}
	}
	pair("gz", al, 2)
	pair("gz", al[:nd], 0)
	pair("zip", al[:nd], 0)
	if !c.quick() {
		pair("gz", al, 0)
		pair("gz", al, 1)
		pair("tar", al, 2)
		pair("zip", al, 2)
	}
	tri := al[:7]
	if !c.quick() {
		tri = al
	}
	for _, x := range tri {
		for _, y := range tri {
			for _, z := range tri {
				add("gz", good, x, y, z)
			}
		}
	}
	c.Bound("archives: DESCRIPTION with every sequence of up to two of %d entries (names that leave the directory, absolute names, symbolic and hard links, devices, clashes, duplicates, odd and long names, modes), before and after it, and of three of %d; tar, tar.gz, zip: %d archives", len(al), len(tri), len(jobs))
	c.Cases(len(jobs), pick(c, 60, 300), func(i int) *Kase {
		j := jobs[i]
		return tarCase(fmt.Sprintf("tar-%d-%s-%v", i, j.format, j.es), j.es, j.format, nil)
	})
	if !c.timeLeft() {
		return
	}
	// damage
	es := []tent{top, good, {typ: '5', name: "T/R/"}, {typ: '0', name: "T/R/a.R", body: "a <- function(x) {\n  x + 1\n}\n"}, {typ: '0', name: "T/NAMESPACE", body: "export(a)\n"}}
	plain := tarBytes(es, "")
	comp := gz(plain)
	zipped := zipBytes(es, "")
	type dmg struct {
		id, format string
		f          func(b []byte) []byte
	}
	var ds []dmg
	for n := 0; n < len(comp); n++ {
		n := n
		ds = append(ds, dmg{fmt.Sprintf("cut to %d of %d", n, len(comp)), "gz", func(b []byte) []byte { return b[:n] }})
		for _, x := range []byte{0x01, 0xff} {
			x := x
			ds = append(ds, dmg{fmt.Sprintf("byte %d xor %02x", n, x), "gz", func(b []byte) []byte { o := append([]byte{}, b...); o[n] ^= x; return o }})
		}
	}
	step := pick(c, 64, 8)
	for n := 0; n < len(plain); n += step {
		n := n
		ds = append(ds, dmg{fmt.Sprintf("tar cut to %d of %d", n, len(plain)), "tar", func(b []byte) []byte { return b[:n] }},
			dmg{fmt.Sprintf("tar cut to %d of %d, compressed", n, len(plain)), "gz", func([]byte) []byte { return gz(plain[:n]) }})
	}
	for n := 0; n < len(zipped); n += pick(c, 7, 1) {
		n := n
		ds = append(ds, dmg{fmt.Sprintf("zip cut to %d of %d", n, len(zipped)), "zip", func(b []byte) []byte { return b[:n] }})
	}
	// only the contents of files have a checksum in a zip
	if zr, err := zip.NewReader(bytes.NewReader(zipped), int64(len(zipped))); err != nil {
		c.Broken("zip: %v", err)
	} else {
		for _, f := range zr.File {
			off, _ := f.DataOffset()
			for n := off; n < off+int64(f.CompressedSize64); n++ {
				n := n
				ds = append(ds, dmg{fmt.Sprintf("zip byte %d xor ff", n), "zip", func(b []byte) []byte { o := append([]byte{}, b...); o[n] ^= 0xff; return o }})
			}
		}
	}
	c.Bound("damage: a tar.gz of %d bytes cut to every length and with every byte changed in two ways, the tar cut every %d bytes, a zip cut and changed: %d archives", len(comp), step, len(ds))
	c.Cases(len(ds), pick(c, 20, 100), func(i int) *Kase {
		k := tarCase(ds[i].id, es, ds[i].format, ds[i].f)
		k.ID = fmt.Sprintf("damaged-%d %s", i, ds[i].id)
		return k
	})
	c.tarChanges()
	c.tarLarge()
}

// tarLarge replaces a large tarball by one that differs in a single place.
func (c *Ctx) tarLarge() {
	size := pick(c, 300_000, 3_000_000)
	noise := make([]byte, size)
	x := uint32(1)
	for i := range noise {
		x = x*1664525 + 1013904223
		noise[i] = byte(x >> 24)
	}
	at := []int{0, 100, 5000, 40_000, 70_000, 140_000, 280_000, size - 1}
	if !c.quick() {
		at = append(at, 600_000, 1_100_000, 2_200_000)
	}
	d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0"}}}}, Tarballs: []Pkg{{Name: "T", Ver: "1.0"}}}
	tgz := func(at int, b byte) []byte {
		n := append([]byte{}, noise...)
		if at >= 0 {
			n[at] ^= b
		}
		return MakeTgz(map[string][]byte{"T/DESCRIPTION": []byte("Package: T\nVersion: 1.0\n"), "T/R/data.bin": n})
	}
	c.Bound("a listed tarball of %d bytes replaced by one that differs in one byte, at each of the places %v, and back", size, at)
	c.Cases(len(at)*2, 0, func(i int) *Kase {
		wd, sc := d.build()
		file := ""
		for _, p := range sortedKeys(wd.Files) {
			if strings.HasSuffix(p, "T_1.0.tar.gz") {
				file = p
			}
		}
		k := &Kase{ID: fmt.Sprintf("large-%d-%d", at[i/2], i%2), World: wd, Scen: sc, NoStock: true}
		bit := []byte{1, 0x80}[i%2]
		pos := []int{-1, at[i/2], -1}
		for s := range pos {
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}, Pre: func(w *Worker) {
				os.WriteFile(w.P(file), tgz(pos[s], bit), 0644)
			}})
		}
		k.Judge = func(r *Run) (string, string) {
			for s := range pos {
				if r.R[s].Code != 0 {
					return "large:rejected", fmt.Sprintf("install %d of a large tarball failed: %s", s+1, tail(r.R[s].all(), 300))
				}
				want := append([]byte{}, noise...)
				if pos[s] >= 0 {
					want[pos[s]] ^= bit
				}
				if r.S[s+1]["proj/lib/T/R/data.bin"] != string(want) {
					return "large:stale", fmt.Sprintf("a tarball was replaced by one that differs in byte %d of %d: install %d installed other contents", pos[s], size, s+1)
				}
			}
			return "", ""
		}
		return k
	})
}

// tarChanges replaces listed tarballs, good and bad ones, and installs each time.
func (c *Ctx) tarChanges() {
	d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "R1", Src: []Pkg{{Name: "A", Ver: "1.0"}, {Name: "B", Ver: "1.0"}}}}, Tarballs: []Pkg{{Name: "T", Ver: "1.0"}}}
	vs := []Pkg{{Name: "T", Ver: "1.0", Variant: "one"}, {Name: "T", Ver: "1.0", Variant: "two"}, {Name: "T", Ver: "2.0", Imports: "B"}, {Name: "T", Ver: "0.5"}}
	n := len(vs) + 2 // two more: damaged, missing
	deep := pick(c, 3, 4)
	size := 1
	for i := 0; i < deep; i++ {
		size *= n
	}
	c.Bound("every history of %d contents of a listed tarball out of %d (one damaged, one missing), an install after each", deep, n)
	c.Cases(size, pick(c, 8, 40), func(i int) *Kase {
		wd, sc := d.build()
		file := "" // where the tarball is
		for _, p := range sortedKeys(wd.Files) {
			if strings.HasSuffix(p, "T_1.0.tar.gz") {
				file = p
			}
		}
		k := &Kase{World: wd, Scen: sc}
		var ids []int
		for s := 0; s < deep; s++ {
			x := i % n
			i /= n
			ids = append(ids, x)
			k.Steps = append(k.Steps, Step{Opts: Opts{Args: []string{"install"}}, Pre: func(w *Worker) {
				os.Remove(w.P(file))
				switch {
				case x < len(vs):
					os.WriteFile(w.P(file), vs[x].Tgz(), 0644)
				case x == len(vs):
					b := vs[0].Tgz()
					os.WriteFile(w.P(file), b[:len(b)/2], 0644)
				}
			}})
		}
		k.ID = fmt.Sprintf("contents-%v", ids)
		k.Judge = func(r *Run) (string, string) {
			for s, x := range ids {
				if x >= len(vs) {
					if r.R[s].Code == 0 {
						return "changes:bad-accepted", fmt.Sprintf("contents %v: install %d succeeded though the tarball is damaged or missing", ids, s+1)
					}
					if df := r.B[s].sub("proj/lib/").diff(r.S[s+1].sub("proj/lib/")); len(df) > 0 {
						return "changes:library", fmt.Sprintf("contents %v: install %d failed but changed %v", ids, s+1, df)
					}
					continue
				}
				d2 := *d
				d2.Tarballs = []Pkg{vs[x]}
				for _, p := range []string{"A", "B"} {
					if r.B[s].has("proj/lib/" + p + "/DESCRIPTION") {
						d2.Installed = append(d2.Installed, Pkg{Name: p, Ver: "1.0"})
					}
				}
				if sig, msg := anyOf(d2.judgeInstall(d2.ref(), r.R[s], r.B[s], r.S[s+1]), "set", "content", "crash"); sig != "" {
					return "changes:" + sig, fmt.Sprintf("contents %v: install %d: %s", ids, s+1, msg)
				}
			}
			return "", ""
		}
		return k
	})
}

func init() {
	checks["C17"] = checkDef{title: "unpacking", run: runC17}
}
