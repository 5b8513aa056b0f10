// Package harness contains the workloads, monitors and oracles that decide the
// properties in /verif/properties.jsonl by observing executions of /repo.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is one refutation of a property with everything needed to see it
// and to run it again.
type Violation struct {
	Sig    string `json:"sig"`
	Phase  string `json:"phase"`
	Index  int    `json:"index"`
	Detail any    `json:"detail"`
}

// Run is one execution of one check.
type Run struct {
	Prop string
	Tier string
	Seed uint64

	mu         sync.Mutex
	counters   map[string]int64
	distinct   map[uint64]struct{}
	samples    []any
	violations []Violation
	errors     []string
	notes      []string
	floors     map[string]int64
	evals      atomic.Int64
	progress   atomic.Int64
	stopped    atomic.Bool
	only       string
	rule       string
}

const maxViolations = 4

// quiet drops what HTTP servers log.
var quiet = log.New(io.Discard, "", 0)

func newRun(prop, tier string, seed uint64) *Run {
	return &Run{
		Prop: prop, Tier: tier, Seed: seed,
		counters: map[string]int64{}, distinct: map[uint64]struct{}{}, floors: map[string]int64{},
		only: os.Getenv("VERIF_ONLY"),
	}
}

// N returns the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Tier == "thorough" {
		n = thorough
	}
	if d, _ := strconv.Atoi(os.Getenv("VERIF_DIV")); d > 1 { // a development aid
		n = max(1, n/d)
	}
	return n
}

// Count adds to a named counter of observed events.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Floor demands that a counter reached a minimum, otherwise the run is
// inconclusive.
func (r *Run) Floor(name string, min int64) {
	r.mu.Lock()
	r.floors[name] = min
	r.mu.Unlock()
}

// Rule describes how cases are made and what makes one non-trivial.
func (r *Run) Rule(s string) { r.rule = s }

// Eval notes one evaluated case and its identity; an empty key marks a trivial
// case.
func (r *Run) Eval(key string) {
	r.evals.Add(1)
	r.progress.Add(1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	r.mu.Lock()
	r.distinct[s] = struct{}{}
	r.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Run) wantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 6
}

func (r *Run) note(format string, args ...any) {
	r.mu.Lock()
	if len(r.notes) < 20 {
		r.notes = append(r.notes, fmt.Sprintf(format, args...))
	}
	r.mu.Unlock()
}

func (r *Run) harnessError(format string, args ...any) {
	r.mu.Lock()
	r.errors = append(r.errors, fmt.Sprintf(format, args...))
	r.mu.Unlock()
	r.stopped.Store(true)
}

func (r *Run) violate(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, o := range r.violations {
		if o.Sig == v.Sig {
			return
		}
	}
	r.violations = append(r.violations, v)
	if len(r.violations) >= maxViolations {
		r.stopped.Store(true)
	}
}

// Case is one generated case. Its random numbers depend only on the seed, the
// property, the phase and the index.
type Case struct {
	*Run
	Phase string
	Index int
	R     *rand.Rand
	T     *testing.T
}

func (r *Run) newCase(phase string, i int) *Case {
	h := fnv.New64a()
	h.Write([]byte(r.Prop + "/" + phase + "/" + strconv.Itoa(i)))
	return &Case{Run: r, Phase: phase, Index: i, R: rand.New(rand.NewPCG(r.Seed, h.Sum64()))}
}

// Violate reports a violation; sig identifies the kind of violation.
func (c *Case) Violate(sig string, detail any) {
	c.violate(Violation{Sig: sig, Phase: c.Phase, Index: c.Index, Detail: detail})
}

// Failf is Violate with a formatted detail.
func (c *Case) Failf(sig, format string, args ...any) {
	c.Violate(sig, fmt.Sprintf(format, args...))
}

// guard turns panics of the code under test into violations and panics of the
// harness into harness errors.
func (c *Case) guard(f func()) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if panicInRepo(st) {
				c.Violate("panic", map[string]string{"panic": fmt.Sprint(p), "stack": st})
			} else {
				c.harnessError("harness panic in %s/%d: %v\n%s", c.Phase, c.Index, p, st)
			}
		}
	}()
	f()
}

// panicInRepo decides whether the innermost frame outside of the standard
// library belongs to the code under test.
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	a := strings.Index(stack, "github.com/256dpi/oauth2/v2")
	b := strings.Index(stack, "verif/harness.")
	return a >= 0 && (b < 0 || a < b)
}

func (r *Run) skip(phase string, i int) bool {
	return r.stopped.Load() || (r.only != "" && r.only != phase+":"+strconv.Itoa(i))
}

// Cases runs n cases on all processors.
func (r *Run) Cases(phase string, n int, f func(c *Case)) {
	r.cases(phase, n, runtime.GOMAXPROCS(0), f)
}

// Serial runs n cases one after another.
func (r *Run) Serial(phase string, n int, f func(c *Case)) {
	r.cases(phase, n, 1, f)
}

func (r *Run) cases(phase string, n, workers int, f func(c *Case)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if r.skip(phase, i) {
					continue
				}
				c := r.newCase(phase, i)
				c.guard(func() { f(c) })
				r.progress.Add(1)
			}
		}()
	}
	wg.Wait()
}

// Virtual runs n cases, each under its own virtual clock.
func (r *Run) Virtual(t *testing.T, phase string, n int, f func(c *Case)) {
	var next atomic.Int64
	t.Run(phase, func(t *testing.T) {
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			t.Run(strconv.Itoa(w), func(t *testing.T) {
				t.Parallel()
				for {
					i := int(next.Add(1)) - 1
					if i >= n {
						return
					}
					if r.skip(phase, i) {
						continue
					}
					r.bubble(t, func(t *testing.T) {
						c := r.newCase(phase, i)
						c.T = t
						c.guard(func() { f(c) })
					})
					r.progress.Add(1)
				}
			})
		}
	})
}

// bubble runs f under a virtual clock. What the code under test leaves running
// gets time to end and is abandoned if it does not.
func (r *Run) bubble(t *testing.T, f func(t *testing.T)) {
	defer func() {
		if v := recover(); v != nil {
			if !strings.Contains(fmt.Sprint(v), "blocked goroutines remain") {
				panic(v)
			}
			r.Count("cases that left goroutines behind", 1)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer time.Sleep(time.Second)
		f(t)
	})
}

// Result is what the driver reads.
type Result struct {
	Prop         string           `json:"property"`
	Verdict      string           `json:"verdict"`
	Violations   []Violation      `json:"violations"`
	Errors       []string         `json:"errors"`
	Inconclusive []string         `json:"inconclusive"`
	Notes        []string         `json:"notes"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct_nontrivial"`
	Rule         string           `json:"rule"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []any            `json:"samples"`
	Wall         float64          `json:"wall_s"`
}

func (r *Run) result(wall time.Duration) *Result {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := &Result{
		Prop: r.Prop, Violations: r.violations, Errors: r.errors, Notes: r.notes,
		Evaluations: r.evals.Load(), Distinct: int64(len(r.distinct)), Rule: r.rule,
		Counters: r.counters, Samples: r.samples, Wall: wall.Seconds(),
	}
	if r.only == "" {
		names := make([]string, 0, len(r.floors))
		for k := range r.floors {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if r.counters[k] < r.floors[k] {
				res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("%s: observed %d, needed %d", k, r.counters[k], r.floors[k]))
			}
		}
		if res.Evaluations == 0 {
			res.Inconclusive = append(res.Inconclusive, "nothing was observed")
		}
	}
	switch {
	case len(res.Violations) > 0:
		res.Verdict = "violated"
	case len(res.Errors) > 0:
		res.Verdict = "error"
	case len(res.Inconclusive) > 0:
		res.Verdict = "inconclusive"
	default:
		res.Verdict = "held"
	}
	return res
}

func (r *Run) write(path string, wall time.Duration) {
	buf, err := json.MarshalIndent(r.result(wall), "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, buf, 0o644); err != nil {
		panic(err)
	}
}

// watch aborts a run that makes no progress. If the reason is that requests
// wait for a lock of the server that nobody can release, this is a violation of
// the properties that promise an answer, otherwise the run is inconclusive.
func (r *Run) watch(out string, started time.Time, stall time.Duration) {
	last, since := r.progress.Load(), time.Now()
	for {
		time.Sleep(time.Second)
		if now := r.progress.Load(); now != last {
			last, since = now, time.Now()
			continue
		}
		if time.Since(since) < stall {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		stuck, running := 0, 0
		for _, g := range strings.Split(string(buf), "\n\n") {
			if !strings.Contains(g, "256dpi/oauth2/v2.") {
				continue
			}
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "semacquire") {
				stuck++
			} else {
				running++
			}
		}
		if stuck > 0 && running == 0 {
			r.violate(Violation{Sig: "deadlock", Phase: "watchdog", Detail: map[string]any{
				"what":  fmt.Sprintf("%d requests wait for a lock of the server and no request is running", stuck),
				"stack": string(buf[:min(len(buf), 20000)]),
			}})
		} else {
			r.mu.Lock()
			r.floors["watchdog: the run made no progress"] = 1
			r.notes = append(r.notes, string(buf[:min(len(buf), 20000)]))
			r.mu.Unlock()
		}
		r.write(out, time.Since(started))
		os.Exit(0)
	}
}

// checks maps property ids to their checks.
var checks = map[string]func(t *testing.T, r *Run){}

// Execute runs the check selected by the environment.
func Execute(t *testing.T) {
	prop, out := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_OUT")
	if prop == "" {
		t.Skip("VERIF_PROP is not set")
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	f, ok := checks[prop]
	if !ok {
		t.Fatalf("no check for %s", prop)
	}
	r := newRun(prop, os.Getenv("VERIF_TIER"), seed)
	start := time.Now()
	go r.watch(out, start, 60*time.Second)
	f(t, r)
	r.write(out, time.Since(start))
}
