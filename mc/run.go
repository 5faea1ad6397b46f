package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Layout of the shared file; keep in step with overlay/runtime_mc.go.txt.
const (
	hMagic = iota
	hNPrefix
	hNTrace
	hKindMask
	hMaxProcs
	hMapRot
	hOpAt
	hOpMode
	hOpErrno
	hOpCount
	hPoints
	hEvLen
	hHorizon
	hVerdict
	hStarted
	hSelMode
	hOpLogLen
	hOpFired
	hSteps
	hEndMark
	hMapPoints
	hPointLim
	hStarveLo
	hStarveHi
	hSeenLo
	hSeenHi
	hPauseAt
	hFsCount
	hPaused
	hResume
	hCount
)

const (
	prefixOff = 4096
	prefixCap = 1 << 18
	traceOff  = prefixOff + prefixCap
	traceCap  = 1 << 21
	evOff     = traceOff + traceCap*4
	evCap     = 64 << 20
	opOff     = evOff + evCap
	opCap     = 2 << 20
	memSize   = opOff + opCap
)

// choice kinds
const (
	kSched = 1
	kEnv   = 2
	kOut   = 3
	kMap   = 4
)

// point kinds
const (
	pChan  = 1
	pMutex = 2
	pWg    = 4
	pFs    = 8
	pMap   = 32
)

// Choice is one recorded decision.
type Choice struct {
	Kind, N, C uint8
}

// Op is one mutating file operation of the program under test.
type Op struct {
	Trap uint16
	Arg  uint32
	Path string
}

// Opts controls one execution.
type Opts struct {
	Args     []string
	Dir      string // relative to root; default proj
	Env      []string
	Scen     *Scen
	Prefix   []byte
	KindMask uint32
	Procs    int
	MapRot   int
	OpAt     int
	OpMode   int
	OpErrno  int
	Horizon  int
	Stock    bool // run the unmodified binary (stand-alone fake R)
	Timeout  time.Duration
	Stdin    string
	NoCfg    bool
	Starve   uint64 // bit set of goroutine ids
	PauseAt  int    // pause before this file access, 1-based, and call Pause
	Pause    func()
}

// Result of one execution.
type Result struct {
	Web        []string // requests, unmodified binary only
	Code       int
	Out, Err   string
	Verdict    string // "", deadlock, horizon, overflow, badprefix, timeout, crash(injected)
	Trace      []Choice
	Evs        []Ev
	Ops        []Op
	OpCount    int
	OpFired    bool
	Points     int
	Started    bool
	Wall       time.Duration
	Seen       uint64 // goroutine ids that competed for the processor
	FsCount    int    // file accesses
	Paused     bool
	ReadFailed string
}

func (r *Result) all() string { return r.Out + "\n" + r.Err }

// Worker owns a scratch root and a shared memory file.
type Worker struct {
	id   int
	Root string
	mem  []byte
	file string
	sess *Session
	px   *proxy
	mate *Worker
	twin bool // a second instance of the program in the same root
}

// newTwin is a worker that runs a second instance of the program in the root of w.
func (s *Session) newTwin(w *Worker) (*Worker, error) {
	t := &Worker{id: w.id, Root: w.Root, sess: s, twin: true, file: w.file + "+"}
	return t, t.mapFile()
}

func (w *Worker) mapFile() error {
	f, err := os.Create(w.file)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(memSize); err != nil {
		return err
	}
	w.mem, err = syscall.Mmap(int(f.Fd()), 0, memSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return err
}

// Session holds what is shared by all workers of a check.
type Session struct {
	Scratch string
	Bin     string // instrumented binary
	Stock   string // unmodified binary
	Self    string // this executable
	WWW     string
}

func (s *Session) newWorker(id int) (*Worker, error) {
	w := &Worker{id: id, sess: s}
	w.Root = filepath.Join(s.Scratch, fmt.Sprintf("w%02d", id))
	if err := os.MkdirAll(w.Root, 0755); err != nil {
		return nil, err
	}
	w.file = filepath.Join(s.Scratch, fmt.Sprintf("m%02d", id))
	return w, w.mapFile()
}

func (w *Worker) h(i int) uint32       { return binary.LittleEndian.Uint32(w.mem[i*4:]) }
func (w *Worker) setH(i int, v uint32) { binary.LittleEndian.PutUint32(w.mem[i*4:], v) }

func (w *Worker) word(i int) *uint32 { return (*uint32)(unsafe.Pointer(&w.mem[i*4])) }

// P is a path inside the worker's root.
func (w *Worker) P(rel ...string) string {
	return filepath.Join(append([]string{w.Root}, rel...)...)
}

// Exec runs the program once.
func (w *Worker) Exec(o Opts) *Result {
	for i := 0; i < hCount; i++ {
		w.setH(i, 0)
	}
	w.setH(hNPrefix, uint32(len(o.Prefix)))
	copy(w.mem[prefixOff:], o.Prefix)
	w.setH(hKindMask, o.KindMask)
	w.setH(hStarveLo, uint32(o.Starve))
	w.setH(hStarveHi, uint32(o.Starve>>32))
	if o.Procs == 0 {
		o.Procs = 2
	}
	w.setH(hMaxProcs, uint32(o.Procs))
	w.setH(hMapRot, uint32(o.MapRot))
	w.setH(hOpAt, uint32(o.OpAt))
	w.setH(hOpMode, uint32(o.OpMode))
	w.setH(hOpErrno, uint32(o.OpErrno))
	w.setH(hPauseAt, uint32(o.PauseAt))
	if o.Horizon == 0 {
		o.Horizon = 200000
	}
	w.setH(hHorizon, uint32(o.Horizon))
	if o.Timeout == 0 {
		o.Timeout = 30 * time.Second
	}
	sc := o.Scen
	if sc == nil {
		sc = &Scen{}
	}
	b, _ := json.Marshal(sc)
	b = []byte(w.Subst(string(b)))
	scf := w.P("scen.json")
	if w.twin {
		scf += "+"
	}
	os.WriteFile(scf, b, 0644)
	bin := w.sess.Bin
	env := []string{
		"PATH=" + w.P("bin") + ":/usr/bin:/bin",
		"HOME=" + w.P("home"),
		"XDG_CACHE_HOME=" + w.P("xdg"),
		"TMPDIR=" + w.P("tmp"),
		"LANG=C",
	}
	if o.Stock {
		bin = w.sess.Stock
		os.Remove(w.P("log.jsonl"))
		env = append(env, "MC_LOG="+w.P("log.jsonl"), "MC_SCENARIO="+scf, "MC_BIN="+w.sess.Self)
	} else {
		env = append(env, "GOMAXPROCS=1", "GOGC=off", "MC_FILE="+w.file, "MC_SCEN="+scf)
	}
	for _, e := range o.Env {
		env = append(env, w.Subst(e))
	}
	args := make([]string, len(o.Args))
	for i, a := range o.Args {
		args[i] = w.Subst(a)
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.Timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	dir := o.Dir
	if dir == "" {
		dir = "proj"
	}
	c.Dir = w.P(dir)
	c.Env = env
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	if o.Stdin != "" {
		c.Stdin = strings.NewReader(o.Stdin)
	}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	t0 := time.Now()
	if w.twin {
		c.Args[0] += "+"
	}
	var err error
	if o.PauseAt == 0 {
		err = c.Run()
	} else if err = c.Start(); err == nil {
		end, helped := make(chan bool), make(chan bool)
		go func() {
			defer close(helped)
			for atomic.LoadUint32(w.word(hPaused)) == 0 {
				select {
				case <-end:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
			o.Pause()
			atomic.StoreUint32(w.word(hResume), 1)
		}()
		err = c.Wait()
		close(end)
		<-helped
	}
	r := &Result{Out: so.String(), Err: se.String(), Wall: time.Since(t0)}
	if c.ProcessState != nil {
		r.Code = c.ProcessState.ExitCode()
	} else if err != nil {
		r.Code = -2
		r.Err += "\nexec: " + err.Error()
	}
	if ctx.Err() != nil {
		r.Verdict = "timeout"
	}
	if o.Stock {
		lb, _ := os.ReadFile(w.P("log.jsonl"))
		r.Evs = parseEvs(lb)
		return r
	}
	n := int(w.h(hNTrace))
	r.Trace = make([]Choice, n)
	for i := 0; i < n; i++ {
		p := traceOff + i*4
		r.Trace[i] = Choice{w.mem[p], w.mem[p+1], w.mem[p+2]}
	}
	r.Evs = parseEvs(w.mem[evOff : evOff+int(w.h(hEvLen))])
	r.OpCount = int(w.h(hOpCount))
	r.FsCount, r.Paused = int(w.h(hFsCount)), w.h(hPaused) != 0
	r.OpFired = w.h(hOpFired) != 0
	r.Points = int(w.h(hPoints))
	r.Seen = uint64(w.h(hSeenLo)) | uint64(w.h(hSeenHi))<<32
	r.Started = w.h(hStarted) != 0
	ol := int(w.h(hOpLogLen))
	for p := opOff; p+8 <= opOff+ol; {
		n := int(binary.LittleEndian.Uint16(w.mem[p+2:]))
		op := Op{Trap: binary.LittleEndian.Uint16(w.mem[p:]), Arg: binary.LittleEndian.Uint32(w.mem[p+4:])}
		if op.Trap == 1 || op.Trap == 18 || op.Trap == 77 || op.Trap == 326 {
			op.Path = fmt.Sprintf("fd%d", binary.LittleEndian.Uint32(w.mem[p+8:]))
		} else {
			op.Path = string(w.mem[p+8 : p+8+n])
		}
		if op.Trap&0x8000 != 0 { // a failed access that changes nothing
			r.ReadFailed = fmt.Sprintf("%d on %s", op.Trap&0x7fff, strings.Replace(op.Path, w.Root, "", 1))
		} else {
			r.Ops = append(r.Ops, op)
		}
		p += 8 + n
	}
	if r.Verdict == "" {
		switch w.h(hVerdict) {
		case 1:
			r.Verdict = "deadlock"
		case 2:
			r.Verdict = "horizon"
		case 3:
			r.Verdict = "overflow"
		case 4:
			r.Verdict = "badprefix"
		}
		if r.OpFired && r.Code == 98 {
			r.Verdict = "crash"
		}
	}
	return r
}

func parseEvs(b []byte) []Ev {
	var evs []Ev
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var e Ev
		if json.Unmarshal(l, &e) == nil {
			evs = append(evs, e)
		}
	}
	return evs
}

// Subst replaces @ROOT@ and @WWW@.
func (w *Worker) Subst(s string) string {
	if !strings.Contains(s, "@") {
		return s
	}
	s = strings.ReplaceAll(s, "@ROOT@", w.Root)
	return strings.ReplaceAll(s, "@WWW@", w.sess.WWW)
}

// World is a tree of files relative to the root; a path ending in / is a directory.
type World struct {
	Files map[string][]byte
	Mode  map[string]os.FileMode
	Link  map[string]string
	MTime map[string]time.Duration // age
}

func newWorld() *World {
	return &World{Files: map[string][]byte{}, Mode: map[string]os.FileMode{}, Link: map[string]string{}, MTime: map[string]time.Duration{}}
}

func (wd *World) clone() *World {
	n := newWorld()
	for k, v := range wd.Files {
		n.Files[k] = v
	}
	for k, v := range wd.Mode {
		n.Mode[k] = v
	}
	for k, v := range wd.Link {
		n.Link[k] = v
	}
	for k, v := range wd.MTime {
		n.MTime[k] = v
	}
	return n
}

// Add adds a file.
func (wd *World) Add(path string, content string) *World {
	wd.Files[path] = []byte(content)
	return wd
}

// Reset empties the root and materializes wd.
func (w *Worker) Reset(wd *World) error {
	ents, _ := os.ReadDir(w.Root)
	for _, e := range ents {
		p := filepath.Join(w.Root, e.Name())
		if err := os.RemoveAll(p); err == nil {
			continue
		}
		// directories of a case may deny access
		filepath.Walk(p, func(q string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(q, 0755)
			}
			return nil
		})
		if err := os.RemoveAll(p); err != nil {
			return err
		}
	}
	for _, d := range []string{"proj", "home", "xdg", "tmp", "bin"} {
		os.MkdirAll(filepath.Join(w.Root, d), 0755)
	}
	paths := make([]string, 0, len(wd.Files))
	for p := range wd.Files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	made := map[string]bool{}
	for _, p := range paths {
		full := filepath.Join(w.Root, p)
		if strings.HasSuffix(p, "/") {
			if err := os.MkdirAll(full, 0755); err != nil {
				return err
			}
			continue
		}
		d := filepath.Dir(full)
		if !made[d] {
			if err := os.MkdirAll(d, 0755); err != nil {
				return err
			}
			made[d] = true
		}
		mode := os.FileMode(0644)
		if m, ok := wd.Mode[p]; ok {
			mode = m
		}
		c := wd.Files[p]
		if bytes.IndexByte(c, '@') >= 0 && len(c) < 1<<16 && !bytes.HasPrefix(c, []byte{0x1f, 0x8b}) {
			c = []byte(w.Subst(string(c)))
		}
		if err := os.WriteFile(full, c, mode); err != nil {
			return err
		}
		if mode&^0755 != 0 {
			// not subject to the umask
			if err := os.Chmod(full, mode); err != nil {
				return err
			}
		}
	}
	for p, t := range wd.Link {
		if err := os.Symlink(w.Subst(t), filepath.Join(w.Root, p)); err != nil {
			return err
		}
	}
	for p, age := range wd.MTime {
		t := time.Now().Add(-age)
		os.Chtimes(filepath.Join(w.Root, p), t, t)
	}
	for p, m := range wd.Mode {
		if strings.HasSuffix(p, "/") {
			if err := os.Chmod(filepath.Join(w.Root, p), m); err != nil {
				return err
			}
		}
	}
	return nil
}

// Snap is a snapshot: path -> content ("/" suffix for directories).
type Snap map[string]string

// Snapshot reads the tree below rel.
func (w *Worker) Snapshot(rel string) Snap {
	s := Snap{}
	base := w.P(rel)
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(base, p)
		if r == "." {
			if fi.IsDir() {
				s["./"] = ""
			}
			return nil
		}
		switch {
		case fi.IsDir():
			s[r+"/"] = ""
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s[r] = "-> " + t
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s[r] = string(b)
		default:
			s[r] = "special"
		}
		return nil
	})
	return s
}

// diff describes how b differs from a.
func (a Snap) diff(b Snap) []string {
	var out []string
	for k, v := range a {
		if bv, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if bv != v {
			out = append(out, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	return out
}

// top returns the first-level entries of the snapshot.
func (a Snap) top() []string {
	m := map[string]bool{}
	for k := range a {
		if k == "./" || k == "" {
			continue
		}
		m[strings.SplitN(k, "/", 2)[0]] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
