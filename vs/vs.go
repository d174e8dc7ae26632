// Package vs runs instrumented code under a controlled scheduler. Code
// rewritten by tools/instr calls Gate before every statement that matters;
// inside Run every such call parks its goroutine until the explorer picks it,
// so one thread runs at a time and every interleaving of the gates can be
// enumerated. Blocking on channels, selects and timers is the real thing and
// is noticed through a synctest bubble. Outside Run all of this does nothing.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"

	"joyverif/mc"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// Gate levels.
const (
	LAll  = 0 // every statement touching memory that could be shared
	LSync = 1 // synchronisation operations
	LEnv  = 2 // calls into the environment of the harness
)

// Thread is one controlled goroutine. Its first field is an empty profiler
// label set, so that the pointer can be the goroutine's label.
type Thread struct {
	labels []struct{ k, v string }
	s      *Sched
	ID     int
	Name   string
	ch     chan int
	// at a gate
	waiting bool
	loc     int
	pick    int // number of alternatives asked for, 0 for a plain gate
	// Done is set when the body returned, Panic when it panicked.
	Done  bool
	Panic string
	Steps int
	done  chan struct{}
}

// Sched controls one execution.
type Sched struct {
	C *mc.Ctx
	// Level is the lowest gate level that is a scheduling point.
	Level int
	// Free makes a switch away from a thread that cannot go on cost nothing
	// (always the case); Paid makes every non-default choice cost one.
	Paid    bool
	mu      sync.Mutex
	threads []*Thread
	last    *Thread
	free    bool
	kill    bool
	clock   int
	// Local is the harness's own.
	Local interface{}
	Steps int
	Limit int
	// Nap, when set, is how long Explore lets time pass whenever nothing can
	// go on, until Until says that it is over.
	Nap   time.Duration
	Until func() bool
	// Fingerprint, when set, adds the harness's view to the state hash.
	Fingerprint func() uint64
}

//go:norace
func cur() *Thread { return (*Thread)(getLabel()) }

// Controlled tells whether the calling goroutine is under a scheduler.
func Controlled() bool { return cur() != nil }

// Gate is a scheduling point.
//
//go:norace
func Gate(level, loc int) {
	t := cur()
	if t != nil && t.s.kill {
		runtime.Goexit()
	}
	if t == nil || t.s.free || level < t.s.Level {
		return
	}
	t.wait(loc, 0)
}

// Pick resolves an n-way nondeterministic choice of the running code.
//
//go:norace
func Pick(loc, n int) int {
	t := cur()
	if t == nil || t.s.free {
		return 0
	}
	return t.wait(loc, n)
}

//go:norace
func (t *Thread) wait(loc, pick int) int {
	raceOff()
	t.s.mu.Lock()
	t.loc, t.pick, t.waiting = loc, pick, true
	t.s.mu.Unlock()
	v := <-t.ch
	raceOn()
	return v
}

// Enter makes the calling goroutine a controlled thread of its own; rewritten
// go statements call it first.
//
//go:norace
func Enter(loc int) {
	t := cur()
	if t == nil || t.s.free {
		return
	}
	n := t.s.newThread(fmt.Sprintf("%s/%d", t.Name, loc))
	setLabel(unsafe.Pointer(n))
	n.wait(loc, 0)
}

// Exit ends a thread begun with Enter.
//
//go:norace
func Exit() {
	t := cur()
	if t != nil {
		raceOff()
		t.s.mu.Lock()
		t.Done = true
		t.s.mu.Unlock()
		raceOn()
	}
}

//go:norace
func (s *Sched) newThread(name string) *Thread {
	raceOff()
	s.mu.Lock()
	t := &Thread{s: s, ID: len(s.threads), Name: name, ch: make(chan int, 1), done: make(chan struct{})}
	s.threads = append(s.threads, t)
	s.mu.Unlock()
	raceOn()
	return t
}

// Go starts a controlled thread; it runs up to its first gate only when picked.
//
//go:norace
func (s *Sched) Go(name string, f func()) *Thread {
	t := s.newThread(name)
	go func() {
		defer close(t.done)
		setLabel(unsafe.Pointer(t))
		defer t.finish()
		t.wait(0, 0)
		f()
	}()
	return t
}

//go:norace
func (t *Thread) finish() {
	if r := recover(); r != nil {
		t.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
	}
	raceOff()
	t.s.mu.Lock()
	t.Done = true
	t.s.mu.Unlock()
	raceOn()
}

// Tick is the logical time of the execution; it grows with every call.
//
//go:norace
func (s *Sched) Tick() int {
	s.clock++
	return s.clock
}

// Tick returns the next logical time of the calling thread's execution.
//
//go:norace
func Tick() int {
	if t := cur(); t != nil {
		return t.s.Tick()
	}
	return 0
}

//go:norace
func (s *Sched) pending() []*Thread {
	var p []*Thread
	s.mu.Lock()
	for _, t := range s.threads {
		if t.waiting {
			p = append(p, t)
		}
	}
	s.mu.Unlock()
	return p
}

// Explore schedules threads until none can go on.
//
//go:norace
func (s *Sched) Explore() {
	idle := 0
	for {
		raceOff()
		synctestWait()
		p := s.pending()
		raceOn()
		if len(p) == 0 {
			// let sleepers and timers go on
			if s.Nap > 0 {
				if s.Until() {
					return
				}
				raceOff()
				time.Sleep(s.Nap)
				raceOn()
				continue
			}
			if idle == 2 {
				return
			}
			idle++
			raceOff()
			time.Sleep(time.Minute)
			raceOn()
			continue
		}
		if s.Steps++; s.Limit > 0 && s.Steps > s.Limit {
			s.C.FailK("livelock", "the sessions do not come to rest within %d steps", s.Limit)
		}
		// default: go on with the last thread, else the next one in order
		def, cont := -1, false
		for i, t := range p {
			if t == s.last {
				def, cont = i, true
			}
		}
		if def < 0 {
			def = 0
			if s.last != nil {
				for i, t := range p {
					if t.ID > s.last.ID {
						def = i
						break
					}
				}
			}
		}
		k := 0
		if len(p) > 1 {
			if cont || s.Paid {
				k = s.C.Dev(len(p))
			} else {
				k = s.C.Choose(len(p))
			}
		}
		t := p[(def+k)%len(p)]
		v := 0
		if t.pick > 1 {
			v = s.C.Dev(t.pick)
		}
		s.C.Step(1)
		h := uint64(14695981039346656037)
		for _, x := range s.threads {
			w := x.loc
			if !x.waiting {
				w = -1
			}
			if x.Done {
				w = -2
			}
			h = (h ^ uint64(w+7)) * 1099511628211
		}
		if s.Fingerprint != nil {
			h = (h ^ s.Fingerprint()) * 1099511628211
		}
		s.C.StateHash(h)
		if s.C.Tracing {
			s.C.Logf("run %s from line %d", t.Name, t.loc)
		}
		s.last = t
		t.Steps++
		t.waiting = false
		raceOff()
		t.ch <- v
		raceOn()
	}
}

// Wait lets the bubble settle without controlling it (for histories).
func Wait() {
	raceOff()
	synctestWait()
	raceOn()
}

// Join makes everything the finished threads did visible to the caller.
func (s *Sched) Join() {
	for _, t := range s.threads {
		if t.Done {
			select {
			case <-t.done:
			default:
			}
		}
	}
}

// Panics returns the first panic of a thread.
func (s *Sched) Panics() string {
	for _, t := range s.threads {
		if t.Panic != "" {
			return t.Name + ": " + t.Panic
		}
	}
	return ""
}

// Stop lets all threads run freely.
//
//go:norace
func (s *Sched) Stop() {
	raceOff()
	s.mu.Lock()
	s.free = true
	for _, t := range s.threads {
		if t.waiting {
			t.waiting = false
			t.ch <- 0
		}
	}
	s.mu.Unlock()
	raceOn()
}

// Threads lists the threads.
func (s *Sched) Threads() []*Thread { return s.threads }

// Run executes body in a bubble of its own. cleanup runs last in any case and
// has to make all threads end.
func Run(c *mc.Ctx, level int, body func(s *Sched), cleanup func()) {
	var thrown interface{}
	s := &Sched{C: c, Level: level, Limit: 20000}
	func() {
		defer func() {
			if r := recover(); r != nil && thrown == nil {
				thrown = fmt.Sprintf("%v", r) // sessions that never end
				if mc.Internal(r) {
					thrown = r
				}
			}
		}()
		synctestRun(func() {
			func() {
				defer func() { thrown = recover() }()
				body(s)
			}()
			func() {
				defer func() {
					if r := recover(); r != nil && thrown == nil {
						thrown = r
					}
				}()
				s.Stop()
				if cleanup != nil {
					cleanup()
				}
			}()
		})
	}()
	if thrown != nil {
		if str, ok := thrown.(string); ok {
			c.FailK("stuck", "goroutines remain that never end: %s", str)
		}
		panic(thrown)
	}
	if p := s.Panics(); p != "" {
		c.FailK("panic", "a session panicked: %s", p)
	}
	runtime.KeepAlive(s)
}

// Local is what the harness attached to the calling goroutine's execution.
//
//go:norace
func Local() interface{} {
	if t := cur(); t != nil {
		return t.s.Local
	}
	return nil
}

// Free executes body in a bubble of its own without controlling goroutines.
// Afterwards cleanup runs and rewritten code that is still running, or wakes
// up within a day of virtual time, ends at its next gate.
func Free(c *mc.Ctx, local interface{}, body func(), cleanup func()) {
	Bound(c, 0, local, func(s *Sched) {
		s.free = true
		setLabel(unsafe.Pointer(&Thread{s: s, ch: make(chan int, 1), done: make(chan struct{})}))
		body()
		setLabel(nil)
	}, cleanup)
}

// Bound is Run for an execution with local, which ends all rewritten code.
func Bound(c *mc.Ctx, level int, local interface{}, body func(s *Sched), cleanup func()) {
	var sched *Sched
	Run(c, level, func(s *Sched) {
		sched = s
		s.Local = local
		body(s)
	}, func() {
		setLabel(nil)
		sched.kill = true
		cleanup()
		time.Sleep(24 * time.Hour)
	})
}
