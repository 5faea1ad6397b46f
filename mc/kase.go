package main

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---- enumerated cases: a start state and a sequence of commands ----

// Step is one command of a case.
type Step struct {
	Opts
	// Pre changes the world before the command (edits, clock, repository updates).
	Pre func(w *Worker)
}

// Kase is one enumerated case.
type Kase struct {
	ID    string // unique label
	World *World
	Scen  *Scen // default scenario of the steps
	Steps []Step
	// Judge returns a violation signature (stable per defect, not per case) and a message.
	Judge  func(k *Run) (sig, msg string)
	Desc   any
	Shared bool
	// NoStock excludes the case from replay on the unmodified binary.
	NoStock bool
	// Keep selects what the snapshots hold; nil = everything but the R installations.
	Keep func(path string) bool
}

// Run is one execution of a case.
type Run struct {
	K *Kase
	W *Worker
	R []*Result
	S []Snap // S[0] before, S[i+1] after step i
	B []Snap // B[i] right before the command of step i (after its Pre)
}

func (k *Run) last() *Result { return k.R[len(k.R)-1] }
func (k *Run) end() Snap     { return k.S[len(k.S)-1] }

func (s Snap) sub(prefix string) Snap {
	n := Snap{}
	for k, v := range s {
		if strings.HasPrefix(k, prefix) {
			n[k[len(prefix):]] = v
		}
	}
	return n
}

func (s Snap) has(k string) bool { _, ok := s[k]; return ok }

func (s Snap) hash() string {
	h := md5.New()
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(h, "%s %d\n%s", k, len(s[k]), s[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// shareWWW moves the web tree of the world to a content-addressed directory outside it.
func (c *Ctx) shareWWW(wd *World, scs ...*Scen) {
	h := md5.New()
	var ks []string
	for k := range wd.Files {
		if strings.HasPrefix(k, "www/") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(h, "%s %d\n", k, len(wd.Files[k]))
		h.Write(wd.Files[k])
	}
	dir := filepath.Join(c.S.Scratch, "www", fmt.Sprintf("%x", h.Sum(nil)))
	c.wwwMu.Lock()
	if !c.www[dir] {
		for _, k := range ks {
			p := filepath.Join(dir, k[4:])
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, wd.Files[k], 0644)
		}
		os.MkdirAll(dir, 0755)
		c.www[dir] = true
	}
	c.wwwMu.Unlock()
	for _, k := range ks {
		delete(wd.Files, k)
	}
	for _, sc := range scs {
		n := map[string]string{}
		for k, v := range sc.WWW {
			n[k] = strings.Replace(v, "@ROOT@/www", dir, 1)
		}
		sc.WWW = n
	}
}

func (k *Kase) keep(s Snap) Snap {
	return s.without(func(p string) bool {
		if k.Keep != nil {
			return !k.Keep(p)
		}
		return strings.HasPrefix(p, "bin/") || strings.HasPrefix(p, "scen.json") || p == "log.jsonl" || strings.HasPrefix(p, "www/")
	})
}

func (c *Ctx) runKase(w *Worker, k *Kase, stock bool) *Run {
	t0 := time.Now()
	w.Reset(k.World)
	tReset.Add(int64(time.Since(t0)))
	r := &Run{K: k, W: w}
	r.S = append(r.S, k.keep(w.Snapshot("")))
	for i := range k.Steps {
		st := &k.Steps[i]
		o := st.Opts
		if o.Scen == nil {
			o.Scen = k.Scen
		}
		if st.Pre != nil {
			st.Pre(w)
			r.B = append(r.B, k.keep(w.Snapshot("")))
		} else {
			r.B = append(r.B, r.S[i])
		}
		if stock {
			px, err := w.startProxy()
			if err != nil {
				return nil
			}
			scs := Scen{}
			if o.Scen != nil {
				scs = *o.Scen
			}
			n := map[string]string{}
			for a, b := range scs.WWW {
				n[a] = w.Subst(b)
			}
			scs.WWW = n
			px.set(&scs)
			o.Stock = true
			o.Env = append(append([]string{}, o.Env...), "HTTP_PROXY="+px.addr, "http_proxy="+px.addr, "HTTPS_PROXY="+px.addr, fmt.Sprintf("GOMAXPROCS=%d", max(o.Procs, 2)))
			o.Timeout = 20 * time.Second
		}
		t0 = time.Now()
		r.R = append(r.R, w.Exec(o))
		if stock {
			r.last().Web = w.px.requests()
		}
		tExec.Add(int64(time.Since(t0)))
		r.S = append(r.S, k.keep(w.Snapshot("")))
	}
	return r
}

// Cases runs cases gen(0..n-1) and judges them. nstock of them, evenly spaced,
// are replayed on the unmodified binary.
func (c *Ctx) Cases(n int, nstock int, gen func(i int) *Kase) {
	var stock []int
	for i := 0; i < nstock && i < n; i++ {
		stock = append(stock, i*n/min(nstock, n))
	}
	isStock := map[int]bool{}
	for _, i := range stock {
		isStock[i] = true
	}
	done := make([]bool, n)
	c.Par(n, func(w *Worker, i int) {
		k := gen(i)
		if k == nil {
			done[i] = true
			return
		}
		r := c.runKase(w, k, false)
		done[i] = true
		c.Count("cases", 1)
		c.Count("executions", len(r.R))
		for j := range r.R {
			c.Edge(r.S[j].hash(), fmt.Sprint(k.Steps[j].Args, k.Steps[j].Env, k.Steps[j].Dir), r.S[j+1].hash()+fmt.Sprint(r.R[j].Code))
			c.Outcome(r.S[j+1].hash() + fmt.Sprint(r.R[j].Code) + evLine(r.R[j].Evs))
		}
		bad := ""
		for j, x := range r.R {
			if !x.Started && x.Verdict == "" {
				bad = fmt.Sprintf("case %s step %d did not start: %s", k.ID, j, trunc(x.all(), 300))
			}
		}
		if bad != "" {
			c.Broken("%s", bad)
			return
		}
		if i < 3 {
			c.Sample("%s: %v -> exit %d; %s", k.ID, k.Steps[len(k.Steps)-1].Args, r.last().Code, trunc(evLine(r.last().Evs), 200))
		}
		sig, msg := c.judge(r)
		if sig != "" {
			again := 0
			for t := 0; t < 3; t++ {
				if s2, _ := c.judge(c.runKase(w, k, false)); s2 == sig {
					again++
				}
			}
			if again >= 2 {
				c.Violate(sig, "case "+k.ID+": "+msg, map[string]any{"case": k.ID, "detail": k.Desc, "world": k.World.describe(), "steps": k.stepArgs()})
			} else {
				c.Count("unconfirmed", 1)
				c.Note("unconfirmed %s in %s: %s", sig, k.ID, msg)
			}
			return
		}
		if isStock[i] && !k.NoStock {
			c.stockKase(w, k, r)
		}
	})
	all := true
	for _, d := range done {
		all = all && d
	}
	if !all && c.nviol() == 0 {
		c.mu.Lock()
		c.trunc = true
		c.mu.Unlock()
	}
}

// judge adds what every case must satisfy: commands end and do not crash.
func (c *Ctx) judge(r *Run) (string, string) {
	return r.K.Judge(r)
}

func (k *Kase) stepArgs() any {
	var l []any
	for _, s := range k.Steps {
		l = append(l, map[string]any{"args": s.Args, "env": s.Env, "dir": s.Dir, "scenario": s.Scen})
	}
	return l
}

func (wd *World) describe() any {
	m := map[string]string{}
	for k, v := range wd.Files {
		if strings.HasPrefix(k, "bin/") || strings.HasSuffix(k, ".tar.gz") {
			continue
		}
		if len(m) < 60 {
			m[k] = trunc(string(v), 1500)
		}
	}
	return m
}

// stockKase replays a case on the unmodified binary and compares what is observable.
func (c *Ctx) stockKase(w *Worker, k *Kase, r *Run) {
	r2 := c.runKase(w, k, true)
	if r2 == nil {
		c.Count("conformance_skipped", 1)
		return
	}
	c.Count("stock_executions", len(r2.R))
	failed := false
	for i := range r.R {
		a, b := r.R[i], r2.R[i]
		failed = failed || len(failedSet(a.Evs)) > 0 || len(failedSet(b.Evs)) > 0
		if a.Code != b.Code {
			c.mismatch("%s step %d: exit %d vs %d on the unmodified binary: %s", k.ID, i, a.Code, b.Code, tail(b.all(), 300))
			return
		}
		if x, y := installSet(a.Evs), installSet(b.Evs); !failed && strings.Join(x, "|") != strings.Join(y, "|") {
			c.mismatch("%s step %d: installations %v vs %v", k.ID, i, x, y)
			return
		}
	}
	f := func(p string) bool { return volatileFile(p) || (failed && !strings.HasPrefix(p, "proj/")) }
	if d := r.end().without(f).diff(r2.end().without(f)); len(d) > 0 {
		c.mismatch("%s: states differ: %v", k.ID, d)
		return
	}
	c.Count("validated", 1)
}

// product enumerates a mixed-radix space: digits(i) for i in [0,size).
func product(dims ...int) (size int, digits func(i int) []int) {
	size = 1
	for _, d := range dims {
		size *= d
	}
	return size, func(i int) []int {
		r := make([]int, len(dims))
		for j := range dims {
			r[j] = i % dims[j]
			i /= dims[j]
		}
		return r
	}
}

// crashed reports a runtime panic or fatal error (not a deliberate log.Panic).
func crashed(r *Result) bool {
	e := strings.ReplaceAll(r.Err, "panic: (*logrus.Entry)", "")
	return strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || r.Verdict == "deadlock" || r.Verdict == "timeout" || r.Verdict == "horizon"
}

var tReset, tExec atomic.Int64
