package rtmpmodel

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// ErrStall is what an endpoint reads when it waits for a peer that itself
// waits for the endpoint.
var ErrStall = errors.New("endpoint and peer wait for each other")

// Peer is a net.Conn whose other end is a scripted party. When the endpoint
// under test reads and has consumed everything, Step gets all it wrote so far
// and returns more bytes. Nothing more and no error means a stall.
type Peer struct {
	Step func(out []byte) (in []byte, err error)
	// Max limits the size of one read (0: as much as asked for).
	Max int
	// OnWrite is called with the size of everything written after each write.
	OnWrite func(total int)

	mu      sync.Mutex
	pend    []byte
	out     []byte
	err     error
	stalled bool
	closed  bool
	cond    *sync.Cond
	// Idle, set by Step, says that the endpoint owes nothing: a read with
	// nothing to deliver waits for further writes instead of being a stall.
	Idle bool
}

func (p *Peer) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.pend) == 0 {
		if p.closed {
			return 0, io.ErrClosedPipe
		}
		if p.err != nil {
			return 0, p.err
		}
		in, err := p.Step(p.out)
		if err == nil && len(in) == 0 {
			if p.Idle {
				if p.cond == nil {
					p.cond = sync.NewCond(&p.mu)
				}
				p.cond.Wait()
				continue
			}
			p.stalled = true
			err = ErrStall
		}
		p.pend, p.err = in, err
		if len(in) == 0 {
			return 0, err
		}
	}
	n := len(b)
	if p.Max > 0 && n > p.Max {
		n = p.Max
	}
	n = copy(b[:n], p.pend)
	p.pend = p.pend[n:]
	return n, nil
}

func (p *Peer) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	p.out = append(p.out, b...)
	p.wake()
	if p.OnWrite != nil {
		p.OnWrite(len(p.out))
	}
	return len(b), nil
}
func (p *Peer) wake() {
	if p.cond != nil {
		p.cond.Broadcast()
	}
}
func (p *Peer) Close() error {
	p.mu.Lock()
	p.closed = true
	p.wake()
	p.mu.Unlock()
	return nil
}
func (p *Peer) LocalAddr() net.Addr                { return addr{} }
func (p *Peer) RemoteAddr() net.Addr               { return addr{} }
func (p *Peer) SetDeadline(t time.Time) error      { return nil }
func (p *Peer) SetReadDeadline(t time.Time) error  { return nil }
func (p *Peer) SetWriteDeadline(t time.Time) error { return nil }
func (p *Peer) Out() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), p.out...)
}
func (p *Peer) Stalled() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.stalled }
func (p *Peer) Closed() bool  { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }

// Do runs f while the endpoint can neither read nor write.
func (p *Peer) Do(f func(out []byte)) {
	p.mu.Lock()
	defer p.mu.Unlock()
	f(p.out)
	p.wake()
}

// Unread tells how many bytes the peer sent that were never read.
func (p *Peer) Unread() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.pend) }

// Parts is a step function that sends each part in turn, whatever is written.
func Parts(end error, parts ...[]byte) func([]byte) ([]byte, error) {
	return func([]byte) ([]byte, error) {
		for len(parts) > 0 {
			b := parts[0]
			parts = parts[1:]
			if len(b) > 0 {
				return b, nil
			}
		}
		return nil, end
	}
}

type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	all    []byte
	wend   bool
	rend   bool
	max    int
	record bool
}

// PipeEnd is one end of an in-memory connection with unlimited buffering.
type PipeEnd struct {
	in, out *half
	once    sync.Once
	done    chan struct{}
}

// Pipe makes a connection; a read returns at most max bytes (0: no limit).
func Pipe(max int) (a, b *PipeEnd) {
	mk := func() *half { h := &half{max: max, record: true}; h.cond = sync.NewCond(&h.mu); return h }
	x, y := mk(), mk()
	return &PipeEnd{in: x, out: y, done: make(chan struct{})}, &PipeEnd{in: y, out: x, done: make(chan struct{})}
}

func (p *PipeEnd) Read(b []byte) (int, error) {
	h := p.in
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(h.buf) == 0 {
		if h.rend {
			return 0, io.ErrClosedPipe
		}
		if h.wend {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
	n := len(b)
	if h.max > 0 && n > h.max {
		n = h.max
	}
	n = copy(b[:n], h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (p *PipeEnd) Write(b []byte) (int, error) {
	h := p.out
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.wend {
		return 0, io.ErrClosedPipe
	}
	if h.rend {
		// the other end is gone: what is sent is lost
		return len(b), nil
	}
	h.buf = append(h.buf, b...)
	if h.record {
		h.all = append(h.all, b...)
	}
	h.cond.Broadcast()
	return len(b), nil
}

func (p *PipeEnd) Close() error {
	p.once.Do(func() {
		p.in.mu.Lock()
		p.in.rend = true
		p.in.cond.Broadcast()
		p.in.mu.Unlock()
		p.out.mu.Lock()
		p.out.wend = true
		p.out.cond.Broadcast()
		p.out.mu.Unlock()
		close(p.done)
	})
	return nil
}

// Closed is closed when this end was closed.
func (p *PipeEnd) Closed() <-chan struct{} { return p.done }

// Sent is everything written at this end.
func (p *PipeEnd) Sent() []byte {
	p.out.mu.Lock()
	defer p.out.mu.Unlock()
	return append([]byte(nil), p.out.all...)
}

func (p *PipeEnd) LocalAddr() net.Addr                { return addr{} }
func (p *PipeEnd) RemoteAddr() net.Addr               { return addr{} }
func (p *PipeEnd) SetDeadline(t time.Time) error      { return nil }
func (p *PipeEnd) SetReadDeadline(t time.Time) error  { return nil }
func (p *PipeEnd) SetWriteDeadline(t time.Time) error { return nil }
