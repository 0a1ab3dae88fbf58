// Command verifpbt decides the properties of go-latex/latex by generated-input
// search. See ../DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a decided case exercised.
type Obs struct {
	nontrivial bool
	labels     []string
	known      map[string]bool
}

// NonTrivial marks the case as non-trivial, by the rule of the check.
func (o *Obs) NonTrivial(ok bool) {
	if ok {
		o.nontrivial = true
	}
}

// Label counts the case in a class.
func (o *Obs) Label(format string, args ...any) {
	o.labels = append(o.labels, fmt.Sprintf(format, args...))
}

// Known reports whether the finding is listed in the known-findings file.
func (o *Obs) Known(id string) bool { return o.known[id] }

// check is a registered property check.
type check struct {
	id       string
	rule     string // rule for a non-trivial case
	quick    int    // number of cases, all workers together
	thorough int
	procs    int // number of GOMAXPROCS of a worker (default 2)
	workers  int // number of worker processes (default 4)
	race     bool

	draw  func(t *rapid.T) any
	dec   func([]byte) (any, error)
	run   func(c any, o *Obs) error
	known map[string]func() (string, bool) // finding id -> probe (description, still fails)
	enum  func() []any                     // fixed cases, decided once before the random search
}

var checks = map[string]*check{}

type opt func(*check)

func withEnum[C any](f func() []C) opt {
	return func(c *check) {
		c.enum = func() []any {
			var out []any
			for _, v := range f() {
				out = append(out, v)
			}
			return out
		}
	}
}

func withKnown(id string, probe func() (string, bool)) opt {
	return func(c *check) {
		if c.known == nil {
			c.known = map[string]func() (string, bool){}
		}
		c.known[id] = probe
	}
}

func withProcs(workers, procs int) opt {
	return func(c *check) { c.workers = workers; c.procs = procs }
}

func register[C any](id, rule string, quick, thorough int, draw func(t *rapid.T) C, run func(c C, o *Obs) error, opts ...opt) {
	c := &check{
		id: id, rule: rule, quick: quick, thorough: thorough,
		procs: 2, workers: 8,
		draw: func(t *rapid.T) any { return draw(t) },
		dec: func(raw []byte) (any, error) {
			var c C
			dec := json.NewDecoder(bytes.NewReader(raw))
			dec.DisallowUnknownFields()
			err := dec.Decode(&c)
			return c, err
		},
		run: func(c any, o *Obs) error { return run(c.(C), o) },
	}
	for _, o := range opts {
		o(c)
	}
	if checks[id] != nil {
		panic("duplicate check " + id)
	}
	checks[id] = c
}

// decide runs a case; a panic of the code under test is a failure.
func (c *check) decide(v any, o *Obs) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if strings.HasPrefix(fmt.Sprint(e), "harness:") {
				panic(e) // not a failure of the code under test
			}
			err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	return c.run(v, o)
}

// guard runs f and turns a panic into an error.
func guard(what string, f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%s: panic: %v", what, e)
		}
	}()
	f()
	return nil
}

type failure struct {
	Case json.RawMessage `json:"case"`
	Msg  string          `json:"msg"`
}

type result struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *failure          `json:"failure,omitempty"`
	Stopped     bool              `json:"stopped,omitempty"` // time budget reached
}

// tb is the test handle given to rapid.
type tb struct {
	rapid.TB
	failed bool
	out    strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tb) Skip(a ...any)             { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; fmt.Fprintf(&t.out, f+"\n", a...) }
func (t *tb) Error(a ...any)            { t.failed = true; fmt.Fprintln(&t.out, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

const chunk = 250 // cases per rapid run

// caseFile holds the case being decided, in a shared mapping which outlives the worker.
type caseFile struct{ mem []byte }

const caseFileSize = 1 << 20

func newCaseFile(path string) *caseFile {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err == nil {
		err = f.Truncate(caseFileSize)
	}
	if err != nil {
		log.Fatalf("case file: %v", err)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, caseFileSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		log.Fatalf("case file: %v", err)
	}
	f.Close()
	return &caseFile{mem}
}

func (c *caseFile) set(raw []byte) {
	n := len(raw)
	if n > caseFileSize-8 {
		n = 0
	}
	for i := 0; i < 8; i++ {
		c.mem[i] = 0
	}
	copy(c.mem[8:], raw[:n])
	for i := 0; i < 8; i++ {
		c.mem[i] = byte(n >> (8 * i))
	}
}

func readCaseFile(path string) []byte {
	raw, err := os.ReadFile(path)
	if err != nil || len(raw) < 8 {
		return nil
	}
	n := 0
	for i := 0; i < 8; i++ {
		n |= int(raw[i]) << (8 * i)
	}
	if n <= 0 || n > len(raw)-8 {
		return nil
	}
	return raw[8 : 8+n]
}

const (
	exitHang = 42 // a case didn't terminate
	cpuLimit = 60 * time.Second
	memLimit = 6 << 30
)

// watchdog ends the worker when the current case uses an absurd amount of CPU
// time or memory, or when it is blocked without using the CPU at all.
type watchdog struct {
	mu    sync.Mutex
	cpu   time.Duration // at the start of the case
	ticks int           // since the start of the case
	live  bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	raw, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(raw), &size, &res)
	return res * int64(os.Getpagesize())
}

func (w *watchdog) start() {
	w.mu.Lock()
	w.cpu, w.ticks, w.live = cpuTime(), 0, true
	w.mu.Unlock()
}

func (w *watchdog) stop() {
	w.mu.Lock()
	w.live = false
	w.mu.Unlock()
}

func (w *watchdog) loop() {
	const period = 100 * time.Millisecond
	for {
		time.Sleep(period)
		w.mu.Lock()
		w.ticks++
		var (
			live  = w.live
			used  = cpuTime() - w.cpu
			ticks = w.ticks
		)
		w.mu.Unlock()
		if !live {
			continue
		}
		switch {
		case used > cpuLimit:
			fmt.Fprintf(os.Stderr, "watchdog: case used more than %v of CPU time\n", cpuLimit)
			os.Exit(exitHang)
		case ticks > 1500 && used < time.Duration(ticks)*time.Millisecond:
			fmt.Fprintf(os.Stderr, "watchdog: case is blocked\n")
			os.Exit(exitHang)
		case rss() > memLimit:
			fmt.Fprintf(os.Stderr, "watchdog: case uses more than %d bytes\n", memLimit)
			os.Exit(exitHang)
		}
	}
}

func worker(c *check, seed uint64, n, index int, budget time.Duration, known map[string]bool, casePath string) *result {
	var (
		res   = &result{Labels: map[string]int{}}
		cur   = newCaseFile(casePath)
		wd    = new(watchdog)
		seen  = map[uint64]bool{}
		start = time.Now()
		last  *failure
	)
	go wd.loop()
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")

	one := func(v any) error {
		raw, err := json.Marshal(v)
		if err != nil {
			panic(fmt.Errorf("harness: could not marshal case: %w", err))
		}
		// decide the decoded case, so that a replay decides the same thing.
		v, err = c.dec(raw)
		if err != nil {
			panic(fmt.Errorf("harness: could not unmarshal case %s: %w", raw, err))
		}
		cur.set(raw)
		o := &Obs{known: known}
		wd.start()
		err = c.decide(v, o)
		wd.stop()
		if err != nil {
			last = &failure{Case: raw, Msg: err.Error()}
			return err
		}
		res.Evaluations++
		for _, l := range o.labels {
			res.Labels[l]++
		}
		if o.nontrivial {
			res.NonTrivial++
			h := fnv.New64a()
			h.Write(raw)
			if k := h.Sum64(); !seen[k] {
				seen[k] = true
				if k := len(seen); len(raw) < 4000 && (k == 1 || k == 10 || k == 100 || k == 1000) {
					res.Samples = append(res.Samples, raw)
				}
			}
		}
		return nil
	}

	if c.enum != nil && index == 0 {
		for _, v := range c.enum() {
			if err := one(v); err != nil {
				res.Failure = last
				return res
			}
		}
	}

	for i := 0; n > 0; i++ {
		k := min(n, chunk)
		n -= k
		_ = flag.Set("rapid.checks", fmt.Sprint(k))
		s := splitmix(splitmix(seed+uint64(index)<<32) + uint64(i)<<20)
		if s == 0 {
			s = 1
		}
		_ = flag.Set("rapid.seed", fmt.Sprint(s))
		t := new(tb)
		done := make(chan bool)
		go func() {
			defer close(done)
			rapid.Check(t, func(rt *rapid.T) {
				dictLarge = 0
				if err := one(c.draw(rt)); err != nil {
					rt.Fatalf("property does not hold")
				}
			})
		}()
		<-done
		if t.failed {
			if last == nil {
				fmt.Fprintf(os.Stderr, "generator failed: %s\n", t.out.String())
				os.Exit(2)
			}
			// the last failure recorded is the minimal one.
			res.Failure = last
			break
		}
		if time.Since(start) > budget {
			res.Stopped = true
			break
		}
	}
	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}
	return res
}

func main() {
	log.SetFlags(0)
	testing.Init()
	var (
		id       = flag.String("check", "", "property to decide")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		root     = flag.String("root", "/verif", "directory of the framework")
		replay   = flag.String("replay", "", "decide the case of a replay file")
		isWorker = flag.Bool("worker", false, "internal")
		n        = flag.Int("n", 0, "internal: number of cases")
		index    = flag.Int("index", 0, "internal: worker index")
		casePath = flag.String("case-file", "", "internal")
		outPath  = flag.String("out", "", "internal")
		budget   = flag.Duration("budget", 0, "time after which no new cases are generated")
		list     = flag.Bool("list", false, "list the checks")
		isRace   = flag.Bool("race-built", false, "internal: built with the race detector")
		fresh    = flag.String("fresh", "", "internal: perform the calls read from standard input")
	)
	flag.Parse()
	debug.SetMaxStack(256 << 20)

	if *fresh != "" {
		freshMain(*fresh)
		return
	}

	if *listConstants {
		writeConstants()
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	c := checks[*id]
	if c == nil {
		log.Fatalf("unknown check %q", *id)
	}
	known, entries := readKnown(filepath.Join(*root, "known_findings.jsonl"), *id)

	switch {
	case *isWorker:
		// the code under test may log: keep the pipes quiet.
		stderr := log.Writer()
		log.SetOutput(io.Discard)
		res := worker(c, *seed, *n, *index, *budget, known, *casePath)
		log.SetOutput(stderr)
		raw, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(*outPath, raw, 0o600)
		}
		if err != nil {
			log.Fatalf("could not write result: %v", err)
		}

	case *replay != "":
		raw, err := os.ReadFile(*replay)
		if err != nil {
			log.Fatal(err)
		}
		var rep struct {
			Property string
			Case     json.RawMessage
		}
		if err := json.Unmarshal(raw, &rep); err != nil {
			log.Fatal(err)
		}
		v, err := c.dec(rep.Case)
		if err != nil {
			log.Fatal(err)
		}
		log.SetOutput(io.Discard)
		go new(watchdogReplay).loop()
		if err := c.decide(v, &Obs{known: known}); err != nil {
			fmt.Printf("%v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, *replay)
			os.Exit(1)
		}
		fmt.Println("the property holds on this case")

	default:
		os.Exit(parent(c, *tier, *seed, *root, *budget, *isRace, known, entries))
	}
}

type watchdogReplay struct{}

func (watchdogReplay) loop() {
	wd := new(watchdog)
	wd.start()
	wd.loop()
}

type knownEntry struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // "finding" or "fixed"
	ID       string `json:"id,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func readKnown(path, id string) (map[string]bool, []knownEntry) {
	raw, err := os.ReadFile(path)
	if err != nil {
		log.Fatalf("known findings: %v", err)
	}
	var (
		set     = map[string]bool{}
		entries []knownEntry
	)
	for _, line := range strings.Split(string(raw), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue // comments and "fixed:" lines
		}
		var e knownEntry
		if err := json.Unmarshal([]byte(line), &e); err != nil {
			log.Fatalf("known findings: %q: %v", line, err)
		}
		if e.Property != id || e.Kind != "finding" {
			continue
		}
		set[e.ID] = true
		entries = append(entries, e)
	}
	return set, entries
}

func parent(c *check, tier string, seed uint64, root string, budget time.Duration, isRace bool, known map[string]bool, entries []knownEntry) int {
	start := time.Now()
	total := c.quick
	if tier == "thorough" {
		total = c.thorough
	}
	if budget == 0 {
		budget = 300 * time.Second
		if tier == "thorough" {
			budget = 700 * time.Second
		}
	}

	for _, e := range entries {
		probe := c.known[e.ID]
		if probe == nil {
			log.Printf("known finding %q has no probe", e.ID)
			return 2
		}
		w := log.Writer()
		log.SetOutput(io.Discard)
		desc := guardedProbe(probe)
		log.SetOutput(w)
		if desc != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, desc)
		}
	}

	dir, err := os.MkdirTemp("", "verifpbt-"+c.id+"-")
	if err != nil {
		log.Print(err)
		return 2
	}
	defer os.RemoveAll(dir)

	exe, err := os.Executable()
	if err != nil {
		log.Print(err)
		return 2
	}

	type outcome struct {
		res    *result
		fail   *failure
		err    error
		stderr string
	}
	var (
		outs = make([]outcome, c.workers)
		wg   sync.WaitGroup
	)
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var (
				out   = filepath.Join(dir, fmt.Sprintf("out-%d", i))
				cpath = filepath.Join(dir, fmt.Sprintf("case-%d", i))
				se    tail
				n     = total / c.workers
			)
			if i < total%c.workers {
				n++
			}
			cmd := exec.Command(exe,
				"-worker", "-check", c.id, "-tier", tier, "-root", root,
				"-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n), "-index", fmt.Sprint(i),
				"-case-file", cpath, "-out", out, "-budget", budget.String(),
			)
			cmd.Env = append(os.Environ(),
				fmt.Sprintf("GOMAXPROCS=%d", c.procs),
				"GOTRACEBACK=single", "VERIF_SCRATCH="+dir,
				"GORACE=halt_on_error=1 exitcode=66",
			)
			cmd.Stderr = &se
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			runtime.LockOSThread() // for Pdeathsig
			defer runtime.UnlockOSThread()
			err := cmd.Run()
			msg := se.String()
			if err != nil {
				raw := readCaseFile(cpath)
				code := cmd.ProcessState.ExitCode()
				switch {
				case raw == nil:
					outs[i].err = err
				case code == exitHang:
					outs[i].fail = &failure{raw, "the case doesn't terminate: " + msg}
				case code == 66 && strings.Contains(msg, "DATA RACE"):
					outs[i].fail = &failure{raw, msg}
				case code == 2 && (strings.Contains(msg, "stack exceeds") || strings.Contains(msg, "stack overflow")):
					outs[i].fail = &failure{raw, "unbounded recursion: " + msg}
				case code == 2 && strings.Contains(msg, "fatal error: concurrent map"):
					outs[i].fail = &failure{raw, msg}
				case code == 2 && strings.Contains(msg, "fatal error: all goroutines are asleep"):
					outs[i].fail = &failure{raw, msg}
				case code == 2 && strings.HasPrefix(strings.TrimSpace(msg), "panic:") && !strings.Contains(msg, "harness:"):
					// a panic in a goroutine started by the code under test or the check.
					outs[i].fail = &failure{raw, msg}
				default:
					outs[i].err = err
				}
				outs[i].stderr = msg
				return
			}
			raw, err := os.ReadFile(out)
			if err == nil {
				outs[i].res = new(result)
				err = json.Unmarshal(raw, outs[i].res)
			}
			outs[i].err = err
		}(i)
	}
	wg.Wait()

	var (
		fails   []*failure
		evals   int
		nontriv = map[uint64]bool{}
		labels  = map[string]int{}
		samples []json.RawMessage
		stopped bool
		errs    []string
	)
	for _, o := range outs {
		if o.err != nil {
			errs = append(errs, fmt.Sprintf("worker: %v\n%s", o.err, o.stderr))
			continue
		}
		if o.fail != nil {
			fails = append(fails, o.fail)
			continue
		}
		r := o.res
		evals += r.Evaluations
		for _, h := range r.Hashes {
			nontriv[h] = true
		}
		for k, v := range r.Labels {
			labels[k] += v
		}
		samples = append(samples, r.Samples...)
		stopped = stopped || r.Stopped
		if r.Failure != nil {
			fails = append(fails, r.Failure)
		}
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })

	var viols []map[string]any
	code := 0
	for i, f := range fails {
		if i > 0 {
			break // the smallest one
		}
		h := fnv.New64a()
		h.Write(f.Case)
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", c.id, h.Sum64()))
		raw, _ := json.MarshalIndent(map[string]any{
			"property": c.id, "case": f.Case, "message": clip(f.Msg, 4000), "seed": seed, "tier": tier,
		}, "", " ")
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		if err := os.WriteFile(path, raw, 0o644); err != nil {
			log.Print(err)
			return 2
		}
		fmt.Printf("case: %s\n%s\n", clip(string(f.Case), 2000), clip(f.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		viols = append(viols, map[string]any{"replay": path, "message": clip(f.Msg, 500)})
		code = 1
	}

	// evidence.
	var smpl []any
	for _, s := range samples {
		smpl = append(smpl, s)
	}
	var lbl []string
	for k, v := range labels {
		lbl = append(lbl, fmt.Sprintf("%s: %d", k, v))
	}
	sort.Strings(lbl)
	note := "all generated cases were decided"
	if stopped {
		note = "the time budget was reached before the planned number of cases"
	}
	ev := map[string]any{
		"property": c.id,
		"tier":     tier,
		"seed":     seed,
		"level":    levelOf(c.id),
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(nontriv),
			"rule":                c.rule,
			"samples":             smpl,
			"labels":              lbl,
			"note":                note,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viols),
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", c.id+".json"), raw, 0o644)
	}
	if err != nil {
		log.Printf("could not write evidence: %v", err)
		return 2
	}
	if code == 0 && len(errs) > 0 {
		log.Printf("%s", strings.Join(errs, "\n"))
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n",
		c.id, tier, evals, len(nontriv), len(viols), time.Since(start).Seconds())
	if code == 0 && len(nontriv) == 0 {
		log.Printf("no non-trivial case was generated")
		return 2
	}
	return code
}

// guardedProbe returns the description of a known finding, when it still
// fails. A probe that panics or hangs finds nothing: it's up to the cases.
func guardedProbe(probe func() (string, bool)) string {
	done := make(chan string, 1)
	go func() {
		s := ""
		defer func() {
			recover()
			done <- s
		}()
		if desc, fails := probe(); fails {
			s = desc
		}
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(60 * time.Second):
		return ""
	}
}

func levelOf(id string) string { return "exploration" }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if len(t.head) < 8000 {
		k := min(len(p), 8000-len(t.head))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 16000 {
		t.last = t.last[len(t.last)-8000:]
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.last) }
