package memio

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of a Pair: unbounded, in order.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool // no more data will come
	dead   bool // the reading side is gone
	log    []byte
	failed int
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// Conn is one end of a Pair.
type Conn struct {
	Name    string
	in, out *half
	once    sync.Once
	Closed  chan struct{}
	Max     int // greatest number of bytes of one read, if positive
}

// Pair is a connection with unbounded buffers in both directions.
func Pair() (a, b *Conn) {
	x, y := newHalf(), newHalf()
	return &Conn{Name: "a", in: x, out: y, Closed: make(chan struct{})},
		&Conn{Name: "b", in: y, out: x, Closed: make(chan struct{})}
}

func (c *Conn) Read(p []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.dead {
			return 0, os.ErrClosed
		}
		if len(h.buf) > 0 {
			if c.Max > 0 && len(p) > c.Max {
				p = p[:c.Max]
			}
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			return n, nil
		}
		if h.closed {
			return 0, io.EOF
		}
		if len(p) == 0 {
			return 0, nil
		}
		h.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed || h.dead {
		if !h.closed {
			h.failed++
		}
		return 0, io.ErrClosedPipe
	}
	h.buf = append(h.buf, p...)
	h.log = append(h.log, p...)
	h.cond.Broadcast()
	return len(p), nil
}

// Written is everything this end wrote so far.
func (c *Conn) Written() []byte {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return append([]byte(nil), c.out.log...)
}

// Close ends both directions: the peer still reads what was written before.
func (c *Conn) Close() error {
	c.once.Do(func() {
		c.out.mu.Lock()
		c.out.closed = true
		c.out.cond.Broadcast()
		c.out.mu.Unlock()
		c.in.mu.Lock()
		c.in.dead = true
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
		close(c.Closed)
	})
	return nil
}

// IsClosed says whether this end was closed.
func (c *Conn) IsClosed() bool {
	select {
	case <-c.Closed:
		return true
	default:
		return false
	}
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr              { return addr(c.Name) }
func (c *Conn) RemoteAddr() net.Addr             { return addr(c.Name + "-peer") }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

// PeerClosed says whether the other end was closed.
func (c *Conn) PeerClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.closed
}

// Taken is the number of bytes this end has read.
func (c *Conn) Taken() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.log) - len(c.in.buf)
}

// Failed is the number of writes which failed since the other end is gone.
func (c *Conn) Failed() int {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.failed
}
