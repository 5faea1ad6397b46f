package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// proxy serves the virtual web of the current scenario to the unmodified
// binary over the loopback network (as an HTTP proxy).
type proxy struct {
	mu   sync.Mutex
	sc   *Scen
	w    *Worker
	seen map[string]int
	addr string
	log  []string
}

func (w *Worker) startProxy() (*proxy, error) {
	if w.px != nil {
		return w.px, nil
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p := &proxy{w: w, addr: "http://" + l.Addr().String()}
	w.px = p
	go http.Serve(l, p)
	return p, nil
}

func (p *proxy) set(sc *Scen) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.sc = sc
	p.seen = map[string]int{}
	p.log = nil
}

// requests are those made since set.
func (p *proxy) requests() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.log...)
}

func (p *proxy) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	if r.Method == "CONNECT" {
		p.connect(rw, r)
		return
	}
	u := r.URL.String()
	p.mu.Lock()
	sc := p.sc
	p.seen[u]++
	n := p.seen[u]
	p.log = append(p.log, u)
	p.mu.Unlock()
	mode := ""
	for _, f := range sc.Faults {
		if strings.HasSuffix(u, f.Suffix) && (f.Nth == 0 || f.Nth == n) {
			mode = f.Mode
		}
	}
	hj := func() {
		if h, ok := rw.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
			}
		}
	}
	st, b, decl, err := HTTPGet(sc, u, mode)
	if err != nil {
		hj()
		return
	}
	rw.Header().Set("Content-Length", fmt.Sprint(decl))
	rw.WriteHeader(st)
	rw.Write(b)
	if len(b) < decl {
		if f, ok := rw.(http.Flusher); ok {
			f.Flush()
		}
		hj()
	}
}

// gateStep is one completion of an R job in a replayed environment trace.
type gateStep struct {
	Name string // pkg.stage
	Fail bool
}

// driveGate lets stand-alone fake R jobs finish in the given order; the
// returned function stops it and tells how many steps were played. If the
// real scheduler took another path (the wanted job is not the one waiting) it
// opens the gate.
func driveGate(dir string, order []gateStep) (stop func() int) {
	quit := make(chan struct{})
	done := make(chan int, 1)
	go func() {
		n := 0
		defer func() { done <- n }()
		exists := func(f string) bool { _, err := os.Stat(filepath.Join(dir, f)); return err == nil }
		abort := func() { os.WriteFile(filepath.Join(dir, "abort"), []byte("x"), 0644) }
		wait := func(f string) bool {
			t0 := time.Now()
			for !exists(f) {
				lim := 8 * time.Second
				wants, _ := filepath.Glob(filepath.Join(dir, "want.*"))
				if len(wants) > n {
					lim = 400 * time.Millisecond
				}
				if time.Since(t0) > lim {
					abort()
					return false
				}
				select {
				case <-quit:
					return false
				case <-time.After(time.Millisecond):
				}
			}
			return true
		}
		for _, s := range order {
			if !wait("want." + s.Name) {
				return
			}
			c := "G"
			if s.Fail {
				c = "F"
			}
			os.WriteFile(filepath.Join(dir, "tmp."+s.Name), []byte(c), 0644)
			os.Rename(filepath.Join(dir, "tmp."+s.Name), filepath.Join(dir, "go."+s.Name))
			for i := 0; !exists("done." + s.Name); i++ {
				if i > 8000 {
					abort()
					return
				}
				time.Sleep(time.Millisecond)
			}
			n++
		}
		abort()
	}()
	return func() int { close(quit); return <-done }
}

// completions extracts the order in which the R installations of an execution finished.
func completions(evs []Ev) []gateStep {
	var r []gateStep
	for _, e := range evs {
		if e.T == "rend" && e.Kind == "install" {
			r = append(r, gateStep{e.Pkg + "." + e.Stage(), e.Forced})
		}
	}
	return r
}

// installSet is the multiset of R installations of an execution.
func installSet(evs []Ev) []string {
	var r []string
	for _, e := range evs {
		if e.T == "rend" && e.Kind == "install" {
			r = append(r, fmt.Sprintf("%s %s %s bin=%v code=%d", e.Pkg, e.Ver, e.Stage(), e.Bin, e.Code))
		}
	}
	sort.Strings(r)
	return r
}

func (s Snap) without(f func(k string) bool) Snap {
	n := Snap{}
	for k, v := range s {
		if !f(k) {
			n[k] = v
		}
	}
	return n
}

// volatile files hold times or are encoded from maps.
func volatileFile(k string) bool {
	return strings.HasPrefix(k, "www/") || strings.HasPrefix(k, "bin/") || k == "scen.json" || k == "log.jsonl" || strings.HasPrefix(k, "gate/") || strings.Contains(k, "r_packagedb") || strings.HasSuffix(k, ".log") || strings.HasPrefix(k, "tmp/")
}

// conform replays an execution of the instrumented program on the unmodified
// binary with the same environment trace and compares what is observable.
// world prepares the start state; r is the instrumented run, after its result
// state (snap).
func (c *Ctx) conform(w *Worker, world func(w *Worker), o Opts, r *Result, snap Snap) bool {
	px, err := w.startProxy()
	if err != nil {
		c.Count("conformance_skipped", 1)
		return false
	}
	world(w)
	sc := Scen{}
	if o.Scen != nil {
		sc = *o.Scen
	}
	scs := sc
	scs.WWW = map[string]string{}
	for k, v := range sc.WWW {
		scs.WWW[k] = w.Subst(v)
	}
	px.set(&scs)
	o.Stock = true
	o.Env = append(append([]string{}, o.Env...), "HTTP_PROXY="+px.addr, "http_proxy="+px.addr, fmt.Sprintf("GOMAXPROCS=%d", max(o.Procs, 2)))
	order := completions(r.Evs)
	o.Timeout = 20 * time.Second
	var r2 *Result
	if sc.RAsync {
		o.Env = append(o.Env, "MC_GATE="+w.P("gate"))
		n := -1
		for try := 0; try < 12 && n != len(order); try++ {
			world(w)
			px.set(&scs)
			os.MkdirAll(w.P("gate"), 0755)
			stop := driveGate(w.P("gate"), order)
			r2 = w.Exec(o)
			n = stop()
		}
		if n != len(order) {
			// the scheduler of the real binary never took this path
			c.Count("replays_not_reached", 1)
			return false
		}
	} else {
		r2 = w.Exec(o)
	}
	s2 := w.Snapshot("").without(volatileFile)
	s1 := snap.without(volatileFile)
	if r.Code != r2.Code {
		c.mismatch("%v: exit %d vs %d on the unmodified binary: %s", o.Args, r.Code, r2.Code, trunc(r2.all(), 300))
		return false
	}
	if a, b := installSet(r.Evs), installSet(r2.Evs); strings.Join(a, "|") != strings.Join(b, "|") {
		c.mismatch("%v: installations %v vs %v", o.Args, a, b)
		return false
	}
	if d := s1.diff(s2); len(d) > 0 {
		c.mismatch("%v: states differ: %v", o.Args, d)
		return false
	}
	c.Count("validated", 1)
	return true
}

func (c *Ctx) mismatch(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cnt["conformance_mismatches"]++
	if len(c.notes) < 10 {
		c.notes = append(c.notes, "conformance: "+trunc(fmt.Sprintf(f, a...), 800))
	}
}
