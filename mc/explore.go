// Package mc is a small stateless model checker for real code: a harness body
// asks it for every nondeterministic choice (input field, operation,
// environment answer, thread to run next) and the explorer enumerates all
// choice sequences exhaustively, optionally bounding the number of deviations
// from the default answer.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	n     int
	taken int
	dev   bool
}

// Violation is what Ctx.Fail panics with.
type Violation struct {
	Key string
	Msg string
}

type diverged struct{ msg string }
type pruned struct{}

// Ctx is one execution of a harness body.
type Ctx struct {
	prefix  []int
	pts     []point
	cost    int
	bound   int
	w       *worker
	ex      *Exploration
	trace   []string
	Tracing bool
	Tier    string
	nontriv bool
}

func (c *Ctx) choose(n int, dev bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	i := len(c.pts)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(diverged{fmt.Sprintf("choice %d out of range %d at point %d", v, n, i)})
		}
	}
	c.pts = append(c.pts, point{n, v, dev})
	if dev && v != 0 {
		c.cost++
	}
	if c.w != nil {
		c.w.slot.put(i, v)
	}
	return v
}

// Choose returns a value in [0,n), all of which are explored.
func (c *Ctx) Choose(n int) int {
	if n == 1 {
		return 0
	}
	return c.choose(n, false)
}

// Dev is Choose where every non-zero answer counts as one deviation against the exploration's bound.
func (c *Ctx) Dev(n int) int {
	if n == 1 {
		return 0
	}
	return c.choose(n, true)
}

func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Prune ends this execution silently (a redundant or illegal combination).
func (c *Ctx) Prune() { panic(pruned{}) }

// Fail reports a violation of the property by this execution.
func (c *Ctx) Fail(format string, a ...interface{}) { c.FailK("", format, a...) }

// FailK reports a violation with a stable key naming the specific failing
// input or site; keys listed in the known-findings file do not count as alarms.
func (c *Ctx) FailK(key, format string, a ...interface{}) {
	panic(Violation{key, fmt.Sprintf(format, a...)})
}

// Logf records a line for the counterexample (only while replaying).
func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.Tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// Step counts n model/implementation transitions.
func (c *Ctx) Step(n int) {
	if c.w != nil {
		c.w.steps += int64(n)
	}
}

// State records a visited state (by canonical description).
func (c *Ctx) State(parts ...interface{}) {
	if c.w == nil {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.w.addState(h.Sum64())
}

func (c *Ctx) StateHash(h uint64) {
	if c.w != nil {
		c.w.addState(h)
	}
}

// Outcome records the observable outcome of this execution.
func (c *Ctx) Outcome(parts ...interface{}) {
	if c.w == nil {
		return
	}
	h := fnv.New64a()
	s := fmt.Sprint(parts...)
	h.Write([]byte(s))
	c.w.addOutcome(h.Sum64())
}

func (c *Ctx) OutcomeHash(h uint64) {
	if c.w != nil {
		c.w.addOutcome(h)
	}
}

// Validated counts one execution whose model prediction was compared with the implementation.
func (c *Ctx) Validated(n int) {
	if c.w != nil {
		c.w.validated += int64(n)
	}
}

// Sample offers a description of this case as an evidence sample.
func (c *Ctx) Sample(f func() string) {
	if c.w == nil {
		return
	}
	c.w.maybeSample(f)
}

// Exploration is one exhaustively enumerated space of executions.
type Exploration struct {
	Name  string
	Rule  string
	Bound int // maximal number of deviations (Dev choices taking a non-default answer); 0 = no deviation
	Run   func(c *Ctx)
	// AllocLimit, when non-zero, is the number of bytes one execution may allocate.
	AllocLimit uint64
	Serial     bool
	// PanicsAreViolations is always on; panics listed here by substring are ignored.
	Weight int
}

type worker struct {
	id        int
	slot      *slot
	steps     int64
	validated int64
	runs      int64
	pruned    int64
	nontriv   int64
	states    map[uint64]struct{}
	outcomes  map[uint64]struct{}
	samples   []string
	nextSamp  int64
	caseStart int64 // unix nano, atomic
}

const setCap = 1 << 21

func (w *worker) addState(h uint64) {
	if len(w.states) < setCap {
		w.states[h] = struct{}{}
	}
}
func (w *worker) addOutcome(h uint64) {
	if len(w.outcomes) < setCap {
		w.outcomes[h] = struct{}{}
	}
}
func (w *worker) maybeSample(f func() string) {
	if w.runs >= w.nextSamp {
		text := f()
		if len(text) > 600 {
			text = fmt.Sprintf("%s... (%d bytes)", text[:600], len(text))
		}
		w.samples = append(w.samples, text)
		if len(w.samples) > 12 {
			w.samples = w.samples[1:]
		}
		if w.nextSamp == 0 {
			w.nextSamp = 1
		}
		w.nextSamp = w.nextSamp*3 + 1
	}
}

// Failure is a found counterexample.
type Failure struct {
	Exploration string
	Choices     []int
	Key         string
	Msg         string
	Trace       []string
	Kind        string // violation, panic, alloc, crash, hang
}

// Stats is what one exploration covered.
type Stats struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Bound       int            `json:"deviation_bound"`
	Executions  int64          `json:"executions"`
	Pruned      int64          `json:"pruned"`
	Transitions int64          `json:"transitions"`
	Choices     int64          `json:"choice_points"`
	States      int            `json:"distinct_states"`
	Outcomes    int            `json:"distinct_outcomes"`
	Validated   int64          `json:"validated"`
	Diverged    int64          `json:"diverged"`
	Unrepro     int64          `json:"unreproduced"`
	Exhaustive  bool           `json:"exhaustive"`
	WallS       float64        `json:"wall_s"`
	Known       map[string]int `json:"known_findings,omitempty"`
	Samples     []string       `json:"samples"`
}

type workItem struct {
	prefix []int // choices up to and including alternative start
	n      int   // alternatives [prefix[last], n) remain
	cost   int   // cost of prefix without last
	dev    bool
}

type engine struct {
	ex       *Exploration
	tier     string
	known    map[string]bool
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	idle     int
	nw       int
	stop     bool
	capped   bool
	fail     *Failure
	deadline time.Time
	knownHit map[string]int
	diverge  int64
	unrepro  int64
	choices  int64
	allocMu  sync.RWMutex
}

// runOnce executes one choice sequence; it returns the failure, if any.
func runOnce(ex *Exploration, tier string, prefix []int, w *worker, tracing bool) (c *Ctx, f *Failure, div string, prn bool) {
	c = &Ctx{prefix: prefix, bound: ex.Bound, w: w, ex: ex, Tracing: tracing, Tier: tier}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case Violation:
					f = &Failure{Key: v.Key, Msg: v.Msg, Kind: "violation"}
				case diverged:
					div = v.msg
				case pruned:
					prn = true
				default:
					st := string(debug.Stack())
					f = &Failure{Key: panicKey(r, st), Msg: fmt.Sprintf("panic: %v\n%s", r, st), Kind: "panic"}
				}
			}
		}()
		ex.Run(c)
	}()
	if f != nil {
		f.Exploration = ex.Name
		f.Choices = make([]int, len(c.pts))
		for i, p := range c.pts {
			f.Choices[i] = p.taken
		}
		f.Trace = c.trace
	}
	return
}

// panicKey names a panic by the innermost function of the code under test.
func panicKey(r interface{}, st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "github.com/nareix/joy5") && strings.Contains(l, "(") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return "panic@" + strings.TrimPrefix(l, "github.com/nareix/joy5/")
		}
	}
	return "panic"
}

func (e *engine) take(w *worker) ([]int, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil, false
		}
		if n := len(e.stack); n > 0 {
			it := &e.stack[n-1]
			p := append([]int(nil), it.prefix...)
			it.prefix[len(it.prefix)-1]++
			if it.prefix[len(it.prefix)-1] >= it.n {
				e.stack = e.stack[:n-1]
			}
			return p, true
		}
		e.idle++
		if e.idle == e.nw {
			e.stop = true
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
		e.idle--
	}
}

func (e *engine) push(items []workItem) {
	if len(items) == 0 {
		return
	}
	e.mu.Lock()
	e.stack = append(e.stack, items...)
	if e.idle > 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// subtree explores the whole subtree below prefix depth-first inside the worker,
// sharing work only when other workers are idle.
func (e *engine) worker(w *worker) {
	for {
		prefix, ok := e.take(w)
		if !ok {
			return
		}
		local := []workItem{}
		cur := prefix
		for {
			if e.stopped() {
				return
			}
			c, f, div, prn := e.exec(w, cur)
			w.runs++
			if prn {
				w.pruned++
			}
			atomic.AddInt64(&e.choices, int64(len(c.pts)-min(len(cur), len(c.pts))))
			if div != "" {
				atomic.AddInt64(&e.diverge, 1)
			}
			if f != nil && !e.handleFail(w, f) {
				return
			}
			// new alternatives
			cost := 0
			for i := 0; i < len(c.pts); i++ {
				p := c.pts[i]
				if i >= len(cur) && p.n > 1 {
					nc := cost
					if p.dev {
						nc++
					}
					if !p.dev || nc <= e.ex.Bound {
						pf := make([]int, i+1)
						for j := 0; j < i; j++ {
							pf[j] = c.pts[j].taken
						}
						pf[i] = 1
						local = append(local, workItem{prefix: pf, n: p.n})
					}
				}
				if p.dev && p.taken != 0 {
					cost++
				}
			}
			// share when others are idle
			if len(local) > 1 && e.someIdle() {
				half := len(local) / 2
				if half == 0 {
					half = 1
				}
				e.push(append([]workItem(nil), local[:half]...))
				local = append([]workItem(nil), local[half:]...)
			}
			if len(local) == 0 {
				break
			}
			it := &local[len(local)-1]
			cur = append([]int(nil), it.prefix...)
			it.prefix[len(it.prefix)-1]++
			if it.prefix[len(it.prefix)-1] >= it.n {
				local = local[:len(local)-1]
			}
			if w.runs&15 == 0 && time.Now().After(e.deadline) {
				e.mu.Lock()
				e.capped = true
				e.stop = true
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
		}
	}
}

func (e *engine) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.stop
}

func (e *engine) someIdle() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.idle > 0
}

func (e *engine) exec(w *worker, prefix []int) (c *Ctx, f *Failure, div string, prn bool) {
	w.slot.begin(e.ex.Name)
	atomic.StoreInt64(&w.caseStart, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&w.caseStart, 0)
		w.slot.end()
	}()
	if e.ex.AllocLimit == 0 {
		return runOnce(e.ex, e.tier, prefix, w, false)
	}
	e.allocMu.RLock()
	a0 := allocBytes()
	c, f, div, prn = runOnce(e.ex, e.tier, prefix, w, false)
	a1 := allocBytes()
	e.allocMu.RUnlock()
	if f == nil && a1-a0 > e.ex.AllocLimit {
		// measure alone
		e.allocMu.Lock()
		b0 := allocBytes()
		c, f, div, prn = runOnce(e.ex, e.tier, prefix, nil, true)
		b1 := allocBytes()
		e.allocMu.Unlock()
		if f == nil && b1-b0 > e.ex.AllocLimit {
			f = &Failure{Key: "alloc", Kind: "alloc", Exploration: e.ex.Name, Trace: c.trace,
				Msg: fmt.Sprintf("one execution allocated %d bytes (limit %d)", b1-b0, e.ex.AllocLimit)}
			for _, p := range c.pts {
				f.Choices = append(f.Choices, p.taken)
			}
		}
	}
	return
}

// handleFail returns true when exploration goes on (known finding or unreproducible).
func (e *engine) handleFail(w *worker, f *Failure) bool {
	if f.Key != "" && e.known[f.Key] {
		e.mu.Lock()
		e.knownHit[f.Key]++
		e.mu.Unlock()
		return true
	}
	if f.Kind == "alloc" {
		e.mu.Lock()
		if e.fail == nil {
			e.fail = f
		}
		e.stop = true
		e.cond.Broadcast()
		e.mu.Unlock()
		return false
	}
	// reproduce
	rep := 0
	var last *Failure
	for i := 0; i < 5; i++ {
		_, g, _, _ := runOnce(e.ex, e.tier, f.Choices, nil, true)
		if g != nil {
			if g.Key != "" && e.known[g.Key] {
				continue
			}
			rep++
			last = g
		}
	}
	if rep == 0 {
		atomic.AddInt64(&e.unrepro, 1)
		return true
	}
	last.Msg = fmt.Sprintf("%s\n(reproduced %d/5)", last.Msg, rep)
	e.mu.Lock()
	if e.fail == nil {
		e.fail = last
	}
	e.stop = true
	e.cond.Broadcast()
	e.mu.Unlock()
	return false
}

func explore(ex *Exploration, tier string, nw int, slots []*slot, deadline time.Time, known map[string]bool, onWorkers func([]*worker)) (Stats, *Failure) {
	t0 := time.Now()
	if ex.Serial {
		nw = 1
	}
	e := &engine{ex: ex, tier: tier, known: known, nw: nw, deadline: deadline, knownHit: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = &worker{id: i, slot: slots[i], states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
	}
	onWorkers(ws)
	// root item: an empty prefix, represented by running it in worker 0
	var wg sync.WaitGroup
	e.stack = nil
	e.mu.Lock()
	e.mu.Unlock()
	rootDone := make(chan struct{})
	for i := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			if w.id == 0 {
				e.root(w)
				close(rootDone)
			} else {
				<-rootDone
			}
			e.worker(w)
		}(ws[i])
	}
	wg.Wait()
	st := Stats{Name: ex.Name, Rule: ex.Rule, Bound: ex.Bound, Exhaustive: !e.capped && e.fail == nil && e.diverge == 0,
		Diverged: e.diverge, Unrepro: e.unrepro, Choices: e.choices, Known: e.knownHit}
	states := map[uint64]struct{}{}
	outs := map[uint64]struct{}{}
	for _, w := range ws {
		st.Executions += w.runs
		st.Pruned += w.pruned
		st.Transitions += w.steps
		st.Validated += w.validated
		for h := range w.states {
			states[h] = struct{}{}
		}
		for h := range w.outcomes {
			outs[h] = struct{}{}
		}
		st.Samples = append(st.Samples, w.samples...)
	}
	if len(st.Samples) > 6 {
		step := len(st.Samples) / 6
		var s []string
		for i := 0; i < 6; i++ {
			s = append(s, st.Samples[i*step])
		}
		st.Samples = s
	}
	st.States = len(states)
	st.Outcomes = len(outs)
	st.WallS = time.Since(t0).Seconds()
	onWorkers(nil)
	return st, e.fail
}

// root runs the all-default execution and seeds the stack.
func (e *engine) root(w *worker) {
	c, f, div, prn := e.exec(w, nil)
	w.runs++
	if prn {
		w.pruned++
	}
	atomic.AddInt64(&e.choices, int64(len(c.pts)))
	if div != "" {
		atomic.AddInt64(&e.diverge, 1)
	}
	if f != nil && !e.handleFail(w, f) {
		return
	}
	var items []workItem
	for i, p := range c.pts {
		if p.n > 1 && (!p.dev || e.ex.Bound >= 1) {
			pf := make([]int, i+1)
			pf[i] = 1
			items = append(items, workItem{prefix: pf, n: p.n})
		}
	}
	e.push(items)
}

// Internal tells whether a recovered value is one of the explorer's own.
func Internal(r interface{}) bool {
	switch r.(type) {
	case Violation, diverged, pruned:
		return true
	}
	return false
}
