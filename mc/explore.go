package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ctx is one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	S        *Session
	W        []*Worker
	Deadline time.Time
	Start    time.Time

	mu       sync.Mutex
	viol     map[string]*Violation
	known    map[string]string // signature -> what fails
	knownHit map[string]bool
	cnt      map[string]int64
	outcomes map[string]bool
	bounds   []string
	notes    []string
	fails    []string // machinery failures
	trunc    bool
	samples  []string
	states   map[[16]byte]bool
	edges    map[[16]byte]bool

	aloneOut map[string]string

	wwwMu sync.Mutex
	www   map[string]bool
}

// Edge records one transition of the explored system (canonical states).
func (c *Ctx) Edge(from, label, to string) {
	a, b := md5.Sum([]byte(from)), md5.Sum([]byte(to))
	e := md5.Sum([]byte(string(a[:]) + label + string(b[:])))
	c.mu.Lock()
	c.states[a] = true
	c.states[b] = true
	c.edges[e] = true
	c.mu.Unlock()
}

// Walk records the states an execution passed: after every environment event
// the set of R jobs waiting, running, done and failed.
func (c *Ctx) Walk(scenario string, evs []Ev) {
	st := map[string]string{}
	cur := scenario
	for _, e := range evs {
		var l string
		switch {
		case e.T == "rstart" && e.Kind != "version":
			l = "start " + e.Kind + " " + e.Pkg + "." + e.Stage()
			st[e.Kind+e.Pkg+"."+e.Stage()] = "run"
		case e.T == "rend" && e.Kind != "version":
			l = fmt.Sprintf("end %s %s.%s %d", e.Kind, e.Pkg, e.Stage(), e.Code)
			st[e.Kind+e.Pkg+"."+e.Stage()] = fmt.Sprint("end", e.Code)
		case e.T == "http":
			l = fmt.Sprintf("http %s %d", e.URL, e.Code)
			st[e.URL] = fmt.Sprint(e.Code)
		default:
			continue
		}
		var b strings.Builder
		b.WriteString(scenario)
		for _, k := range sortedKeys(st) {
			b.WriteString("|" + k + "=" + st[k])
		}
		c.Edge(cur, l, b.String())
		cur = b.String()
	}
}

// Violation is one confirmed breach of the property.
type Violation struct {
	Sig    string
	Msg    string
	Replay any
}

func (c *Ctx) quick() bool { return c.Tier != "thorough" }

// pick returns q in the quick tier and t in the thorough one.
func pick[T any](c *Ctx, q, t T) T {
	if c.quick() {
		return q
	}
	return t
}

func (c *Ctx) timeLeft() bool {
	if time.Now().After(c.Deadline) {
		c.mu.Lock()
		c.trunc = true
		c.mu.Unlock()
		return false
	}
	return true
}

// Count adds to a named counter.
func (c *Ctx) Count(k string, n int) {
	c.mu.Lock()
	c.cnt[k] += int64(n)
	c.mu.Unlock()
}

// Outcome records a distinct observed outcome.
func (c *Ctx) Outcome(s string) {
	h := fmt.Sprintf("%x", md5.Sum([]byte(s)))
	c.mu.Lock()
	c.outcomes[h] = true
	c.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (c *Ctx) Sample(f string, a ...any) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Bound states one bound of the exploration.
func (c *Ctx) Bound(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	if !has(c.bounds, s) {
		c.bounds = append(c.bounds, s)
	}
}

// Broken reports a failure of the machinery itself (never a violation).
func (c *Ctx) Broken(f string, a ...any) {
	c.mu.Lock()
	if len(c.fails) < 20 {
		c.fails = append(c.fails, trunc(fmt.Sprintf(f, a...), 600))
	}
	c.mu.Unlock()
}

// Violate records a violation (first per signature).
func (c *Ctx) Violate(sig, msg string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[sig]; ok {
		c.knownHit[sig] = true
		return
	}
	if _, ok := c.viol[sig]; ok {
		return
	}
	if len(c.viol) < 50 {
		c.viol[sig] = &Violation{sig, msg, replay}
	}
}

func (c *Ctx) nviol() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

// Par runs f for i in [0,n) on all workers, in order of i.
func (c *Ctx) Par(n int, f func(w *Worker, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for _, w := range c.W {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || !c.timeLeft() || c.nviol() >= 8 {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// Budget bounds the deviations from the default choices, per kind.
type Budget struct {
	Sched, Env, Out, Map int
	Total                int // 0 = sum
}

func (b Budget) of(k uint8) int {
	switch k {
	case kSched:
		return b.Sched
	case kEnv:
		return b.Env
	case kOut:
		return b.Out
	case kMap:
		return b.Map
	}
	return 0
}

type node struct {
	prefix []byte
	expect []Choice // parent's trace up to the deviation
	used   [5]int
	total  int
	starve uint64
}

// Explorer enumerates every choice sequence within the budget.
type Explorer struct {
	C      *Ctx
	Name   string
	Budget Budget
	// Run executes one schedule from a fresh world.
	Run func(w *Worker, prefix []byte, starve uint64) *Result
	// Check judges one execution; it returns a signature and a message when violated.
	Check        func(w *Worker, r *Result) (sig, msg string)
	Desc         any      // replay description
	Max          int      // maximum number of executions (0 = none)
	Starve       []uint64 // additional base policies: these goroutines run only when nothing else can
	StarveBudget Budget
	// From, if set, tells that scheduling deviations before this trace index are not explored.
	From func(r *Result) int
}

// Explore runs the enumeration; complete reports whether it was exhaustive.
func (e *Explorer) Explore() (execs int, complete bool) {
	c := e.C
	levels := map[int][]node{0: {{}}}
	for _, s := range e.Starve {
		levels[0] = append(levels[0], node{starve: s})
	}
	var mu sync.Mutex
	active := 0
	cond := sync.NewCond(&mu)
	complete = true
	stop := false
	pop := func() (node, bool) {
		ks := make([]int, 0, len(levels))
		for k, v := range levels {
			if len(v) > 0 {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return node{}, false
		}
		sort.Ints(ks)
		l := levels[ks[0]]
		n := l[0]
		levels[ks[0]] = l[1:]
		return n, true
	}
	var wg sync.WaitGroup
	for _, w := range c.W {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				mu.Lock()
				var n node
				for {
					if stop {
						mu.Unlock()
						return
					}
					var ok bool
					n, ok = pop()
					if ok {
						break
					}
					if active == 0 {
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
					cond.Wait()
				}
				if !c.timeLeft() || (e.Max > 0 && execs >= e.Max) || c.nviol() >= 8 {
					complete = false
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				active++
				execs++
				mu.Unlock()

				kids := e.one(w, n)

				mu.Lock()
				for _, k := range kids {
					levels[k.total] = append(levels[k.total], k)
				}
				active--
				cond.Broadcast()
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	c.Count("executions", execs)
	if !complete {
		c.mu.Lock()
		c.trunc = true
		c.mu.Unlock()
	}
	return
}

func (e *Explorer) one(w *Worker, n node) []node {
	c := e.C
	r := e.Run(w, n.prefix, n.starve)
	if r.Verdict == "overflow" || r.Verdict == "badprefix" || !matches(r.Trace, n.expect) {
		// not the behaviour the prefix was taken from: retry once, then give the subtree up
		r = e.Run(w, n.prefix, n.starve)
		if r.Verdict == "overflow" || r.Verdict == "badprefix" || !matches(r.Trace, n.expect) {
			c.Count("divergences", 1)
			return nil
		}
	}
	if len(r.Trace) < len(n.prefix) {
		c.Count("divergences", 1)
		return nil
	}
	c.Count("choice_points", len(r.Trace)-len(n.prefix))
	c.Walk(e.Name, r.Evs)
	if sig, msg := e.Check(w, r); sig != "" {
		again := 0
		for i := 0; i < 3; i++ {
			r2 := e.Run(w, n.prefix, n.starve)
			if s2, _ := e.Check(w, r2); s2 == sig {
				again++
			}
		}
		if again >= 2 {
			c.Violate(sig, msg, map[string]any{"scenario": e.Name, "choices": n.prefix, "starved": n.starve, "detail": e.Desc, "message": msg})
		} else {
			c.Count("unconfirmed", 1)
			c.mu.Lock()
			c.notes = append(c.notes, "unconfirmed "+sig+": "+trunc(msg, 300))
			c.mu.Unlock()
		}
		return nil
	}
	from := len(n.prefix)
	sf := from
	if e.From != nil {
		if f := e.From(r); f > sf {
			sf = f
		}
	}
	var kids []node
	bud := e.Budget
	if n.starve != 0 {
		bud = e.StarveBudget
	}
	for i := from; i < len(r.Trace); i++ {
		ch := r.Trace[i]
		if ch.Kind == kSched && i < sf {
			continue
		}
		if n.used[ch.Kind]+1 > bud.of(ch.Kind) {
			continue
		}
		if bud.Total > 0 && n.total+1 > bud.Total {
			continue
		}
		for a := 0; a < int(ch.N); a++ {
			if a == int(ch.C) {
				continue
			}
			p := make([]byte, i+1)
			for j := 0; j < i; j++ {
				p[j] = r.Trace[j].C
			}
			p[i] = byte(a)
			k := node{prefix: p, expect: r.Trace[:i], used: n.used, total: n.total + 1, starve: n.starve}
			k.used[ch.Kind]++
			kids = append(kids, k)
		}
	}
	return kids
}

func matches(t, exp []Choice) bool {
	if len(t) < len(exp) {
		return false
	}
	for i, x := range exp {
		if t[i].Kind != x.Kind || t[i].N != x.N {
			return false
		}
	}
	return true
}

// ---- evidence ----

type checkDef struct {
	title  string
	note   string // level note
	tech   string // deciding technique
	level  string // default model_checking
	rule   string
	assume []string
	run    func(c *Ctx)
	quick  time.Duration
	thor   time.Duration
}

var checks = map[string]checkDef{}

func verifDir() string {
	for _, k := range []string{"MC_VERIF", "VERIF_DIR"} {
		if d := os.Getenv(k); d != "" {
			return d
		}
	}
	return "/verif"
}

// scratchUID owns the scratch directory; the program under test and the
// explorer run as this user so that an escaped call can reach nothing real.
const scratchUID = 20777

// supervise builds, then runs the exploration as an unprivileged user and
// copies its evidence.
func supervise(id, tier string) int {
	if _, ok := checks[id]; !ok {
		fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
		return 2
	}
	t0 := time.Now()
	s, err := newSession()
	if s != nil {
		defer s.close()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot build:", err)
		return 2
	}
	self := filepath.Join(s.Scratch, "mc")
	b, err := os.ReadFile(s.Self)
	if err == nil {
		err = os.WriteFile(self, b, 0755)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl")); err == nil {
		os.WriteFile(filepath.Join(s.Scratch, "known.jsonl"), b, 0644)
	}
	os.Chmod(s.Scratch, 0755)
	os.RemoveAll(filepath.Join(s.Scratch, "ov"))
	user := os.Geteuid() == 0
	if user {
		filepath.Walk(s.Scratch, func(p string, _ os.FileInfo, err error) error {
			os.Lchown(p, scratchUID, scratchUID)
			return nil
		})
	}
	c := exec.Command(self, "explore", id, tier, s.Scratch)
	c.Dir = s.Scratch
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "PATH=/usr/bin:/bin", "HOME="+s.Scratch, "MC_STOCK="+s.Stock, "MC_BINARY="+s.Bin, "MC_T0="+fmt.Sprint(t0.UnixNano()), "MC_VERIF="+verifDir())
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if user {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: scratchUID, Gid: scratchUID}
	}
	err = c.Run()
	out := filepath.Join(s.Scratch, "out")
	filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			r, _ := filepath.Rel(out, p)
			d := filepath.Join(verifDir(), "evidence", r)
			os.MkdirAll(filepath.Dir(d), 0755)
			if b, err := os.ReadFile(p); err == nil {
				os.WriteFile(d, b, 0644)
			}
		}
		return nil
	})
	if err == nil {
		return 0
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() >= 0 {
		return x.ExitCode()
	}
	fmt.Fprintln(os.Stderr, "explorer:", err)
	return 2
}

// exploreMain is the unprivileged half of a check.
func exploreMain(id, tier, scratch string) int {
	d := checks[id]
	syscall.Umask(022)
	t0 := time.Now()
	var ns int64
	if fmt.Sscan(os.Getenv("MC_T0"), &ns); ns != 0 {
		t0 = time.Unix(0, ns)
	}
	s := &Session{Scratch: scratch, Bin: os.Getenv("MC_BINARY"), Stock: os.Getenv("MC_STOCK"), WWW: filepath.Join(scratch, "www")}
	s.Self, _ = os.Executable()
	c := &Ctx{ID: id, Tier: tier, S: s, Start: t0, viol: map[string]*Violation{}, known: map[string]string{}, knownHit: map[string]bool{}, cnt: map[string]int64{}, outcomes: map[string]bool{}, states: map[[16]byte]bool{}, edges: map[[16]byte]bool{}, www: map[string]bool{}}
	loadKnown(c)
	for i := 0; i < 8; i++ {
		w, err := s.newWorker(i)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			return 2
		}
		c.W = append(c.W, w)
	}
	built := time.Since(t0)
	lim := d.quick
	if lim == 0 {
		lim = 75 * time.Second
	}
	if !c.quick() {
		lim = d.thor
		if lim == 0 {
			lim = 20 * time.Minute
		}
	}
	c.Deadline = time.Now().Add(lim)
	d.run(c)
	code := 0
	var sigs []string
	for k := range c.viol {
		sigs = append(sigs, k)
	}
	sort.Strings(sigs)
	rdir := filepath.Join(s.Scratch, "out", "replays")
	for i, k := range sigs {
		v := c.viol[k]
		os.MkdirAll(rdir, 0755)
		n := fmt.Sprintf("%s-%d.json", id, i)
		p := filepath.Join(rdir, n)
		b, _ := json.MarshalIndent(map[string]any{"property": id, "signature": v.Sig, "message": v.Msg, "replay": v.Replay}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(verifDir(), "evidence", "replays", n))
		fmt.Printf("  [%s] %s\n", v.Sig, trunc(v.Msg, 1500))
		code = 1
	}
	for _, k := range sortedKeys(c.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, c.known[k])
	}
	for _, f := range c.fails {
		fmt.Println("machinery:", f)
	}
	for _, n := range c.notes {
		fmt.Println("note:", n)
	}
	c.evidence(d, code)
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d violations=%d known=%d trunc=%v build=%.1fs wall=%.1fs counters=%v\n", id, tier, c.cnt["executions"], len(c.states), len(c.edges), len(c.viol), len(c.knownHit), c.trunc, built.Seconds(), time.Since(t0).Seconds(), c.cnt)
	if os.Getenv("MCDEV_BIN") != "" {
		fmt.Printf("reset %.1fs exec %.1fs\n", float64(tReset.Load())/1e9, float64(tExec.Load())/1e9)
	}
	if len(c.fails) > 0 && code == 0 {
		// the machinery could not judge: no verdict
		return 2
	}
	return code
}

func loadKnown(c *Ctx) {
	b, err := os.ReadFile(filepath.Join(c.S.Scratch, "known.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k struct{ Property, Signature, What, Status string }
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == c.ID && k.Status != "fixed" && k.Signature != "" {
			c.known[k.Signature] = k.What
		}
	}
}

func (c *Ctx) evidence(d checkDef, code int) {
	level := d.level
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]any{
		"states": len(c.states), "transitions": len(c.edges),
		"traces_validated_against_impl": c.cnt["validated"],
		"evaluations":                   c.cnt["executions"],
		"distinct_nontrivial":           len(c.outcomes),
		"rule":                          d.rule,
		"samples":                       c.samples,
		"exhaustive":                    !c.trunc,
		"bounds":                        c.bounds,
		"explanation":                   "states and transitions are distinct canonical states and steps of the explored system observed while the real program ran; evaluations counts executions of the program built from the working tree; traces_validated_against_impl counts executions replayed with the same environment trace on the unmodified binary and compared",
	}
	cn := map[string]int64{}
	for k, v := range c.cnt {
		cn[k] = v
	}
	cov["counters"] = cn
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(c.fails) > 0 {
		cov["machinery"] = c.fails
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := c.Tier
	if tier != "thorough" {
		tier = "quick"
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.viol)}
	if len(d.assume) > 0 {
		ev["assumptions"] = d.assume
	}
	out := filepath.Join(c.S.Scratch, "out")
	os.MkdirAll(out, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, c.ID+".json"), append(b, '\n'), 0644)
}
