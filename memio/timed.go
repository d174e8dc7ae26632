package memio

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// thalf is one direction of a timed pair.
type thalf struct {
	buf    []byte
	total  int
	hold   int // bytes that may be read so far, -1 for all
	window int // unread bytes at which writing blocks, 0 for never
	closed bool
	dead   bool
	fail   error // what reading ends with, once the buffer is empty
}

// TConn is one end of a pair that honours deadlines.
type TConn struct {
	Name     string
	mu       *sync.Mutex
	cond     *sync.Cond
	in, out  *thalf
	rdl, wdl time.Time
	closes   int
	reads    int
	writes   int
}

// TimedPair is a connection whose ends honour deadlines.
func TimedPair() (a, b *TConn) {
	mu := &sync.Mutex{}
	cond := sync.NewCond(mu)
	x, y := &thalf{hold: -1}, &thalf{hold: -1}
	return &TConn{Name: "a", mu: mu, cond: cond, in: x, out: y}, &TConn{Name: "b", mu: mu, cond: cond, in: y, out: x}
}

// Hold lets this end read no more than n bytes in all (n < 0: no limit).
func (c *TConn) Hold(n int) {
	c.mu.Lock()
	c.in.hold = n
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Window makes writing block while n bytes are unread (0: never).
func (c *TConn) Window(n int) {
	c.mu.Lock()
	c.out.window = n
	c.cond.Broadcast()
	c.mu.Unlock()
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *TConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	h := c.in
	for {
		if h.dead {
			return 0, os.ErrClosed
		}
		if past(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		n := len(h.buf)
		if h.hold >= 0 && n > h.hold-h.total {
			n = h.hold - h.total
		}
		if n > 0 {
			n = copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			h.total += n
			c.reads += n
			c.cond.Broadcast()
			return n, nil
		}
		if h.fail != nil && len(h.buf) == 0 {
			return 0, h.fail
		}
		if h.closed && len(h.buf) == 0 {
			return 0, io.EOF
		}
		if len(p) == 0 {
			return 0, nil
		}
		c.cond.Wait()
	}
}

func (c *TConn) Write(p []byte) (n int, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	h := c.out
	for {
		if h.closed || h.dead {
			return n, io.ErrClosedPipe
		}
		if past(c.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		k := len(p) - n
		if h.window > 0 && k > h.window-len(h.buf) {
			k = h.window - len(h.buf)
		}
		if k > 0 {
			h.buf = append(h.buf, p[n:n+k]...)
			n += k
			c.writes += k
			c.cond.Broadcast()
		}
		if n == len(p) {
			return n, nil
		}
		c.cond.Wait()
	}
}

// Break makes this end's reads fail after what has arrived.
func (c *TConn) Break(err error) {
	c.mu.Lock()
	c.in.fail = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Count is the number of bytes this end has read and written.
func (c *TConn) Count() (r, w int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.reads, c.writes
}

// Close ends both directions: the peer still reads what was written before.
func (c *TConn) Close() error {
	c.mu.Lock()
	c.closes++
	c.out.closed, c.in.dead = true, true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

// IsClosed says whether this end was closed.
func (c *TConn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes > 0
}

func (c *TConn) wake(t time.Time) {
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
}

func (c *TConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl, c.wdl = t, t
	c.wake(t)
	c.mu.Unlock()
	return nil
}
func (c *TConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.wake(t)
	c.mu.Unlock()
	return nil
}
func (c *TConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.wake(t)
	c.mu.Unlock()
	return nil
}
func (c *TConn) LocalAddr() net.Addr  { return addr(c.Name) }
func (c *TConn) RemoteAddr() net.Addr { return addr(c.Name + "-peer") }
