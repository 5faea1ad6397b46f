package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed overlay/* vr.go
var overlayFS embed.FS

// patch describes textual insertions into a Go standard library file.
type patch struct {
	file string // relative to GOROOT/src
	subs [][2]string
}

const mcPointDecl = `
//go:linkname mcPoint runtime.mcPoint
func mcPoint(kind uint32)
`

var patches = []patch{
	{"runtime/proc.go", [][2]string{
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"\tfn := main_main //", "\tmcStart()\n\tfn := main_main //"},
		{"\t// If there's a runnext, it's the next G to run.\n\tnext := pp.runnext\n", "\tif mcOn {\n\t\treturn mcPick(pp)\n\t}\n\tnext := pp.runnext\n"},
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif mcOn {\n\t\tnext = false\n\t}\n"},
		{"\tif preempted && sched.gcwaiting.Load() {\n", "\tif mcOn {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n"},
	}},
	{"runtime/lock_futex.go", [][2]string{
		{"func beforeIdle(int64, int64) (*g, bool) {\n\treturn nil, false", "func beforeIdle(now int64, pollUntil int64) (*g, bool) {\n\treturn mcIdle(pollUntil), false"},
	}},
	{"runtime/rand.go", [][2]string{
		{"\tseed := &globalRand.seed\n", "\tstartupRand = nil\n\tseed := &globalRand.seed\n"},
		{"if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", "for i := range seed {\n\t\t\tseed[i] = byte(i*7+1) ^ mcSeed()\n\t\t}\n\t\tif false {"},
	}},
	{"runtime/debug.go", [][2]string{
		{"\tret := int(gomaxprocs)\n\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\treturn ret", "\tret := int(gomaxprocs)\n\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\tif k := mcProcs(); k > 0 {\n\t\t\treturn k\n\t\t}\n\t\treturn ret"},
		{"func NumCPU() int {\n", "func NumCPU() int {\n\tif k := mcProcs(); k > 0 {\n\t\treturn k + 3 // a machine with more processors than may be used\n\t}\n"},
	}},
	{"runtime/select.go", [][2]string{
		{"j := cheaprandn(uint32(norder + 1))", "j := cheaprandn(uint32(norder + 1))\n\t\tif mcOn {\n\t\t\tj = uint32(norder)\n\t\t}"},
		{"block bool) (int, bool) {\n\tgp := getg()\n\tif debugSelect {", "block bool) (int, bool) {\n\tif mcOn {\n\t\tmcPoint(mcPChan)\n\t}\n\tgp := getg()\n\tif debugSelect {"},
	}},
	{"runtime/chan.go", [][2]string{
		{"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif mcOn && block {\n\t\tmcPoint(mcPChan)\n\t}\n"},
		{"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif mcOn && block {\n\t\tmcPoint(mcPChan)\n\t}\n"},
		{"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tif mcOn {\n\t\tmcPoint(mcPChan)\n\t}\n"},
	}},
	{"internal/runtime/maps/table.go", [][2]string{
		{"\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", "\tif off, ok := mcMapOff(m.used); ok {\n\t\tit.entryOffset = off\n\t\tit.dirOffset = off\n\t} else {\n\t\tit.entryOffset = rand()\n\t\tit.dirOffset = rand()\n\t}\n"},
	}},
	{"internal/sync/mutex.go", [][2]string{
		{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tmcPoint(2)\n"},
		{"starvationThresholdNs = 1e6", "starvationThresholdNs = 1e15"},
	}},
	{"sync/waitgroup.go", [][2]string{
		{"func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n\tmcPoint(4)\n"},
		{"func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tmcPoint(4)\n"},
	}},
	{"sync/rwmutex.go", [][2]string{
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tmcPoint(2)\n"},
	}},
	{"syscall/syscall_linux.go", [][2]string{
		{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif e := mcSys(trap, a1, a2, a3, 0); e != 0 {\n\t\treturn ^uintptr(0), 0, Errno(e)\n\t}\n"},
		{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif e := mcSys(trap, a1, a2, a3, a4); e != 0 {\n\t\treturn ^uintptr(0), 0, Errno(e)\n\t}\n"},
	}},
	{"os/exec/exec.go", [][2]string{
		{"\tchildFiles := make([]*os.File, 0, 3+len(c.ExtraFiles))\n", `	if MCStart != nil {
		if h := MCStart(c); h != nil {
			c.mcWait = h
			c.Process = os.MCProcess(1 << 22)
			started = true
			return nil
		}
	}
	childFiles := make([]*os.File, 0, 3+len(c.ExtraFiles))
`},
		{"\tstate, err := c.Process.Wait()\n", "\tvar state *os.ProcessState\n\tvar err error\n\tif c.mcWait != nil {\n\t\tstate, err = c.mcWait()\n\t} else {\n\t\tstate, err = c.Process.Wait()\n\t}\n"},
		{"type Cmd struct {\n", "type Cmd struct {\n\tmcWait func() (*os.ProcessState, error)\n"},
		{"// Wait waits for the command to exit", "// MCStart is the model checker's hook.\nvar MCStart func(c *Cmd) func() (*os.ProcessState, error)\n\n// Wait waits for the command to exit"},
	}},
	{"os/file.go", [][2]string{
		{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tif MCOSRelease != \"\" && name == \"/etc/os-release\" {\n\t\tname = MCOSRelease\n\t}\n"},
	}},
	{"os/exec_posix.go", [][2]string{
		{"// Pid returns the process id of the exited process.", `// MCProcess makes a placeholder process (model checker).
func MCProcess(pid int) *Process { return &Process{Pid: pid} }

// MCState makes a process state (model checker).
func MCState(pid int, ws syscall.WaitStatus) *ProcessState {
	return &ProcessState{pid: pid, status: ws, rusage: &syscall.Rusage{}}
}

// Pid returns the process id of the exited process.`},
	}},
	{"net/http/client.go", [][2]string{
		{"\treq := ireq // req is either the original request, or a modified fork\n", `	req := ireq // req is either the original request, or a modified fork
	if MCSend != nil {
		insecure := false
		if t, ok := rt.(*Transport); ok && t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify {
			insecure = true
		}
		resp, err := MCSend(ireq, insecure)
		return resp, alwaysFalse, err
	}
`},
		{"func send(ireq", "// MCSend is the model checker's hook.\nvar MCSend func(req *Request, insecure bool) (*Response, error)\n\nfunc send(ireq"},
	}},
}

// linkname declarations added as new files
var extraStd = map[string]string{
	"os/mc.go": `package os

import "unsafe"

// MCOSRelease stands for /etc/os-release (model checker).
var MCOSRelease string

//go:linkname MCAttach runtime.mcAttach
func MCAttach(p unsafe.Pointer)

//go:linkname MCChoose runtime.mcChoose
func MCChoose(kind int, n int) int

//go:linkname MCSetPending runtime.mcSetPending
func MCSetPending(n int)

//go:linkname MCEnvEnter runtime.mcEnvEnter
func MCEnvEnter(on bool)

//go:linkname MCIdleWait runtime.mcIdleWait
func MCIdleWait()

//go:linkname MCDeadlock runtime.mcDeadlock
func MCDeadlock()

//go:linkname MCOps runtime.mcOps
func MCOps() int

//go:linkname MCEvPut runtime.mcEvPut
func MCEvPut(p unsafe.Pointer, n int)
`,
	"internal/sync/mc.go": "package sync\n\nimport _ \"unsafe\"\n" + mcPointDecl,
	"sync/mc.go":          "package sync\n\nimport _ \"unsafe\"\n" + mcPointDecl,
	"internal/runtime/maps/mc.go": `package maps

import _ "unsafe"

//go:linkname mcMapOff runtime.mcMapOff
func mcMapOff(used uint64) (uint64, bool)
`,
	"syscall/mc.go": `package syscall

import _ "unsafe"

//go:linkname mcSys runtime.mcSys
//go:nosplit
//go:uintptrkeepalive
func mcSys(trap, a1, a2, a3, a4 uintptr) uintptr
`,
}

// writeOverlay generates the overlay files below dir and returns the path of
// the overlay JSON for building repo's cmd/pkgr.
func writeOverlay(dir, goroot, repo string) (string, error) {
	rep := map[string]string{}
	put := func(target, name, content string) error {
		p := filepath.Join(dir, strings.ReplaceAll(name, "/", "__"))
		if err := os.WriteFile(p, []byte(content), 0644); err != nil {
			return err
		}
		rep[target] = p
		return nil
	}
	for _, pt := range patches {
		b, err := os.ReadFile(filepath.Join(goroot, "src", pt.file))
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, sub := range pt.subs {
			if strings.Count(s, sub[0]) != 1 {
				return "", fmt.Errorf("overlay: %s: pattern occurs %d times: %q", pt.file, strings.Count(s, sub[0]), sub[0])
			}
			s = strings.Replace(s, sub[0], sub[1], 1)
		}
		if err := put(filepath.Join(goroot, "src", pt.file), pt.file, s); err != nil {
			return "", err
		}
	}
	for f, c := range extraStd {
		if err := put(filepath.Join(goroot, "src", f), f, c); err != nil {
			return "", err
		}
	}
	rt, err := overlayFS.ReadFile("overlay/runtime_mc.go.txt")
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(goroot, "src/runtime/mc.go"), "runtime/mc.go", string(rt)); err != nil {
		return "", err
	}
	zz, err := overlayFS.ReadFile("overlay/zzmc.go.txt")
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(repo, "internal/zzmc/zzmc.go"), "zzmc.go", string(zz)); err != nil {
		return "", err
	}
	vr, err := overlayFS.ReadFile("vr.go")
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(repo, "internal/zzmc/vr.go"), "vr.go", strings.Replace(string(vr), "package main", "package zzmc", 1)); err != nil {
		return "", err
	}
	if err := put(filepath.Join(repo, "cmd/pkgr/zzmc_import.go"), "zzmc_import.go",
		"package main\n\nimport _ \"github.com/metrumresearchgroup/pkgr/internal/zzmc\"\n"); err != nil {
		return "", err
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, js, 0644)
}
