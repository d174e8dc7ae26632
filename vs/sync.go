package vs

import (
	"net"
	"sync"
)

// Mutex, RWMutex and Once take the place of the ones in package sync in
// rewritten code: they park at gates instead of inside the runtime, then use
// the real thing, which is free at that point.
type Mutex struct {
	rw RWMutex
}

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type RWMutex struct {
	real    sync.RWMutex
	mu      sync.Mutex
	writer  bool
	readers int
	wait    []chan struct{}
	pendW   int
}

//go:norace
func (m *RWMutex) try(write bool) bool {
	raceOff()
	m.mu.Lock()
	ok := !m.writer && (!write || m.readers == 0)
	if ok && write {
		m.writer = true
	}
	if ok && !write {
		m.readers++
	}
	m.mu.Unlock()
	raceOn()
	return ok
}

//go:norace
func (m *RWMutex) acquire(write bool) {
	for !m.try(write) {
		raceOff()
		m.mu.Lock()
		ch := make(chan struct{})
		m.wait = append(m.wait, ch)
		m.mu.Unlock()
		<-ch
		raceOn()
		Gate(LSync, -3)
	}
}

//go:norace
func (m *RWMutex) release(write bool) {
	raceOff()
	m.mu.Lock()
	if write {
		m.writer = false
	} else {
		m.readers--
	}
	for _, ch := range m.wait {
		close(ch)
	}
	m.wait = nil
	m.mu.Unlock()
	raceOn()
}

func (m *RWMutex) Lock() {
	if Controlled() {
		m.acquire(true)
	}
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	if Controlled() && !m.try(true) {
		return false
	}
	if !Controlled() {
		return m.real.TryLock()
	}
	m.real.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	m.real.Unlock()
	if Controlled() {
		m.release(true)
	}
}

func (m *RWMutex) RLock() {
	if Controlled() {
		m.acquire(false)
	}
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	if Controlled() {
		m.release(false)
	}
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// ListenHook replaces net.Listen in rewritten code.
var ListenHook func(network, addr string) (net.Listener, error)

func Listen(network, addr string) (net.Listener, error) {
	if ListenHook != nil {
		return ListenHook(network, addr)
	}
	return net.Listen(network, addr)
}
