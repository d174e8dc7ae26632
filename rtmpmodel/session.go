package rtmpmodel

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// NetConn is an in-memory net.Conn: reads come from In, writes go to Out.
type NetConn struct {
	In io.Reader
	// FailWriteAt makes that Write call (1-based) and all later ones fail.
	FailWriteAt int
	// FailOnce makes only that call fail.
	FailOnce bool

	mu     sync.Mutex
	out    []byte
	calls  int
	failed bool
	closed bool
	waited chan struct{}
}

var ErrWrite = errors.New("injected write failure")

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

func (c *NetConn) Read(p []byte) (int, error) { return c.In.Read(p) }
func (c *NetConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls++
	if c.FailWriteAt > 0 && (c.calls == c.FailWriteAt || c.calls > c.FailWriteAt && !c.FailOnce) {
		c.failed = true
		return 0, ErrWrite
	}
	c.out = append(c.out, p...)
	return len(p), nil
}
func (c *NetConn) Close() error                       { c.mu.Lock(); c.closed = true; c.mu.Unlock(); return nil }
func (c *NetConn) LocalAddr() net.Addr                { return addr{} }
func (c *NetConn) RemoteAddr() net.Addr               { return addr{} }
func (c *NetConn) SetDeadline(t time.Time) error      { return nil }
func (c *NetConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *NetConn) SetWriteDeadline(t time.Time) error { return nil }

func (c *NetConn) Out() []byte  { c.mu.Lock(); defer c.mu.Unlock(); return c.out }
func (c *NetConn) Calls() int   { c.mu.Lock(); defer c.mu.Unlock(); return c.calls }
func (c *NetConn) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.failed }
func (c *NetConn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// PlainBlock is a handshake block without a valid digest.
func PlainBlock(seed byte) []byte {
	b := make([]byte, 1536)
	for i := 8; i < len(b); i++ {
		b[i] = byte(i*7) ^ seed
	}
	return b
}

// PlainClientHello is C0 C1 C2 of a client that does not use digests (C2 does
// not echo the server's block, which servers do not verify).
func PlainClientHello() []byte {
	b := append([]byte{3}, PlainBlock(0x11)...)
	return append(b, PlainBlock(0x22)...)
}

// PlainServerHello is S0 S1 S2 of a server that does not use digests.
func PlainServerHello() []byte {
	b := append([]byte{3}, PlainBlock(0x33)...)
	return append(b, PlainBlock(0x44)...)
}

const HelloLen = 1 + 2*1536

func (e *Enc) Cmd(csid, sid uint32, vals ...interface{}) {
	e.Send(Msg{CSID: csid, Type: CmdAMF0, SID: sid, Data: AMF0(vals...)})
}

func (e *Enc) Ctl(typ byte, data []byte) {
	e.Send(Msg{CSID: 2, Type: typ, Data: data})
}

// ClientScript is what a client publishing or playing sends to a server.
func ClientScript(publish bool, app, tcurl, stream string) *Enc {
	e := NewEnc()
	e.Out = PlainClientHello()
	e.Cmd(3, 0, "connect", 1, Obj{{"app", app}, {"tcUrl", tcurl}, {"flashVer", "model"}, {"pageUrl", "http://page/"}})
	e.Ctl(SetChunkSize, U32(65536))
	if publish {
		e.Cmd(3, 0, "releaseStream", 2, nil, stream)
		e.Cmd(3, 0, "FCPublish", 3, nil, stream)
	}
	if publish {
		e.Cmd(3, 0, "createStream", 4, nil)
	} else {
		e.Cmd(3, 0, "createStream", 2, nil)
	}
	if publish {
		e.Cmd(4, 1, "publish", 5, nil, stream, app)
	} else {
		e.Cmd(4, 1, "play", 5, nil, stream)
	}
	return e
}

// ServerScript is what a server accepting a publisher or player sends.
func ServerScript(publish bool, sid int) *Enc {
	e := NewEnc()
	e.Out = PlainServerHello()
	e.Ctl(WindowAckSize, U32(2500000))
	e.Ctl(PeerBandwidth, append(U32(2500000), 2))
	e.Ctl(SetChunkSize, U32(65536))
	e.Cmd(3, 0, "_result", 1, Obj{{"fmsVer", "model"}}, Obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}})
	tr, code := 2, "NetStream.Play.Start"
	if publish {
		tr, code = 4, "NetStream.Publish.Start"
	}
	e.Cmd(3, 0, "_result", tr, nil, sid)
	e.Cmd(5, uint32(sid), "onStatus", 0, nil, Obj{{"level", "status"}, {"code", code}})
	return e
}
