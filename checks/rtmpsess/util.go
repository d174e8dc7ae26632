package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/url"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31+i/256*17+i/65536*5) ^ seed
	}
	return b
}

func cut(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// cmd is a decoded command message.
type cmd struct {
	msg   rm.Msg
	name  string
	trans float64
	obj   interface{}
	args  []interface{}
}

func (x cmd) String() string {
	return fmt.Sprintf("%s(%v sid=%d obj=%v %v)", x.name, x.trans, x.msg.SID, x.obj, x.args)
}

func parseCmd(m rm.Msg) (x cmd, ok bool, err error) {
	if m.Type != rm.CmdAMF0 {
		return
	}
	vals, err := rm.ParseAMF0(m.Data)
	if err != nil {
		return x, false, err
	}
	if len(vals) < 2 {
		return x, false, fmt.Errorf("command of %d values", len(vals))
	}
	x.msg = m
	x.name, _ = vals[0].(string)
	x.trans, _ = vals[1].(float64)
	if len(vals) > 2 {
		x.obj = vals[2]
		x.args = vals[3:]
	}
	return x, true, nil
}

func get(v interface{}, k string) interface{} {
	switch o := v.(type) {
	case rm.Obj:
		return o.Get(k)
	case rm.ECMA:
		return rm.Obj(o).Get(k)
	}
	return nil
}

func arg(x cmd, i int) interface{} {
	if i < len(x.args) {
		return x.args[i]
	}
	return nil
}

// party is the modelled other end of a session: steps done in order, each as
// soon as what it waits for was written by the endpoint under test.
type party struct {
	*rm.Peer
	c    *mc.Ctx
	hs   int // handshake bytes of the endpoint under test
	fed  int
	d    *rm.Dec
	e    *rm.Enc
	sent int
	acts []act
	// batch sends everything that is ready at once, otherwise one step a time
	batch bool
	end   error
	raw   []byte
	cmds  []cmd
	bad   string
	over  bool
}

type act struct {
	when func(p *party) bool
	do   func(p *party)
}

func newParty(c *mc.Ctx, max int, end error) *party {
	p := &party{c: c, hs: rm.HelloLen, d: rm.NewDec(), e: rm.NewEnc(), end: end}
	p.Peer = &rm.Peer{Max: max, Step: p.step}
	return p
}

func (p *party) add(when func(p *party) bool, do func(p *party)) {
	p.acts = append(p.acts, act{when, do})
}

func (p *party) see(out []byte) {
	p.raw = out
	if len(out) > p.hs {
		if p.fed < p.hs {
			p.fed = p.hs
		}
		p.d.Feed(out[p.fed:])
		p.fed = len(out)
	}
	for _, m := range p.d.Msgs[len(p.cmds):] {
		x, _, err := parseCmd(m)
		if err != nil && p.bad == "" {
			p.bad = fmt.Sprintf("malformed command %v: %v", m, err)
		}
		x.msg = m
		p.cmds = append(p.cmds, x)
	}
	if p.d.Err != nil && p.bad == "" {
		p.bad = fmt.Sprint("malformed chunk stream: ", p.d.Err)
	}
}

func (p *party) step(out []byte) ([]byte, error) {
	if p.over {
		return nil, io.EOF
	}
	p.see(out)
	for len(p.acts) > 0 && p.acts[0].when(p) {
		a := p.acts[0]
		p.acts = p.acts[1:]
		a.do(p)
		if !p.batch && len(p.e.Out) > p.sent {
			break
		}
	}
	in := p.e.Out[p.sent:]
	p.sent = len(p.e.Out)
	if len(in) == 0 && len(p.acts) == 0 {
		return nil, p.end
	}
	return append([]byte(nil), in...), nil
}

// done takes in everything written and reports protocol errors.
func (p *party) done(what string) {
	p.Do(func(out []byte) {
		p.over = true
		p.see(append([]byte(nil), out...))
		p.c.Step(len(p.d.Msgs) + 1)
	})
	if p.bad != "" {
		p.c.Fail("%s: endpoint wrote %s", what, p.bad)
	}
	if p.Stalled() {
		p.c.Fail("%s: endpoint waits while it owes the peer an answer; it wrote %d handshake bytes and %v", what, len(cut(p.raw, p.hs)), p.list())
	}
}

func (p *party) list() (s []string) {
	for i, x := range p.cmds {
		if x.name != "" {
			s = append(s, x.String())
		} else {
			s = append(s, p.d.Msgs[i].String())
		}
	}
	return
}

// find returns the commands with this name.
func (p *party) find(name string) (out []cmd) {
	for _, x := range p.cmds {
		if x.name == name {
			out = append(out, x)
		}
	}
	return
}

func (p *party) result(trans int) *cmd {
	for i, x := range p.cmds {
		if x.name == "_result" && x.trans == float64(trans) {
			return &p.cmds[i]
		}
	}
	return nil
}

func always(*party) bool { return true }
func wrote(n int) func(*party) bool {
	return func(p *party) bool { return len(p.raw) >= n }
}
func saw(name string) func(*party) bool {
	return func(p *party) bool { return len(p.find(name)) > 0 }
}
func (p *party) cmd(csid, sid uint32, vals ...interface{}) { p.e.Cmd(csid, sid, vals...) }

// plainHello makes the modelled peer do the handshake without digests.
func (p *party) plainClient() {
	c1 := rm.PlainBlock(0x11)
	p.add(always, func(p *party) { p.e.Out = append(append(p.e.Out, 3), c1...) })
	p.add(wrote(rm.HelloLen), func(p *party) { p.e.Out = append(p.e.Out, p.raw[1:1537]...) })
}

func (p *party) plainServer() {
	p.add(wrote(1537), func(p *party) {
		p.e.Out = append(append(append(p.e.Out, 3), rm.PlainBlock(0x33)...), p.raw[1:1537]...)
	})
	p.add(wrote(rm.HelloLen), func(p *party) {})
}

func serve(nc net.Conn, f func(*rtmp.Conn, net.Conn)) (handled bool) {
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		handled = true
		f(c, nc)
	}
	s.HandleNetConn(nc)
	return
}

const stdURL = "rtmp://host.example/app/inst/stream"

func dial(nc net.Conn, u string, flags int) (*rtmp.Conn, error) {
	pu, err := url.Parse(u)
	if err != nil {
		panic(err)
	}
	return rtmp.NewClient().FromNetConn(nc, pu, flags)
}

func flags(publish bool) int {
	if publish {
		return rtmp.PrepareWriting
	}
	return rtmp.PrepareReading
}

func ms(t int64) time.Duration { return time.Duration(t) * time.Millisecond }

func norm(p av.Packet) av.Packet {
	p.Time = p.Time / time.Millisecond * time.Millisecond
	p.CTime = p.CTime / time.Millisecond * time.Millisecond
	if p.Type == av.H264DecoderConfig || p.Type == av.AACDecoderConfig {
		p.Time = 0
	}
	return p
}

func eqPkt(a, b av.Packet) bool {
	return a.Type == b.Type && a.IsKeyFrame == b.IsKeyFrame && a.Time == b.Time && a.CTime == b.CTime && bytes.Equal(a.Data, b.Data) &&
		len(a.ASeqHdr)+len(a.VSeqHdr)+len(a.Metadata) == len(b.ASeqHdr)+len(b.VSeqHdr)+len(b.Metadata)
}

func sp(p av.Packet) string {
	d, s := p.Data, ""
	if len(d) > 24 {
		s = fmt.Sprintf("..(%d)", len(d))
		d = d[:24]
	}
	return fmt.Sprintf("{%s key=%v t=%v ct=%v %x%s}", av.PacketTypeString[p.Type], p.IsKeyFrame, p.Time, p.CTime, d, s)
}

func spl(ps []av.Packet) (s string) {
	for _, p := range ps {
		s += sp(p)
	}
	return
}
