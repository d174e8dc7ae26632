//go:build relaygen

package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
	"joyverif/vs"
)

// vhMconn is the server's end of an in-memory connection.
type vhMconn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	ended  bool // the remote end closed
	closed bool // the server closed
	out    []byte
	block  bool // the remote end does not read
}

func vhNewConn() *vhMconn {
	c := &vhMconn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *vhMconn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && !c.ended && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}

var vhErrReset = errors.New("connection reset")

func (c *vhMconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.block && !c.ended && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.ended {
		return 0, vhErrReset
	}
	c.out = append(c.out, b...)
	return len(b), nil
}
func (c *vhMconn) set(f func()) {
	c.mu.Lock()
	f()
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *vhMconn) Close() error                     { c.set(func() { c.closed = true }); return nil }
func (c *vhMconn) LocalAddr() net.Addr              { return vhMaddr{} }
func (c *vhMconn) RemoteAddr() net.Addr             { return vhMaddr{} }
func (c *vhMconn) SetDeadline(time.Time) error      { return nil }
func (c *vhMconn) SetReadDeadline(time.Time) error  { return nil }
func (c *vhMconn) SetWriteDeadline(time.Time) error { return nil }

type vhMaddr struct{}

func (vhMaddr) Network() string { return "mem" }
func (vhMaddr) String() string  { return "mem" }

type vhMlis struct {
	ch  chan net.Conn
	end chan bool
}

func (l *vhMlis) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.end:
		runtime.Goexit()
	}
	return nil, nil
}
func (l *vhMlis) Close() error   { return nil }
func (l *vhMlis) Addr() net.Addr { return vhMaddr{} }

// vhParty is one client of the relay as the model sees it.
type vhParty struct {
	id      int
	pub     bool
	path    int
	conn    *vhMconn
	enc     *rm.Enc
	dec     *rm.Dec
	sent    int // bytes of enc.Out handed to the server
	seen    int // bytes of conn.out decoded
	left    bool
	slow    bool
	started bool // told that play starts
	got     []string
	n       int // packets sent
	// model
	expect   []string
	replaced bool // another publisher took over
	over     bool // must have been disconnected
	strm     *vhMstream
	m, v, a  byte // configuration in force for a publisher, last sent to a player
}

type vhMpkt struct {
	name    string
	key     bool
	kind    byte
	m, v, a byte
	by      *vhParty
}

// vhMstream is the model's stream.
type vhMstream struct {
	n     int
	cur   *vhParty
	cache []vhMpkt
	subs  []*vhParty
	dead  bool
}

type vhRelay struct {
	c       *mc.Ctx
	lis     *vhMlis
	parties []*vhParty
	streams map[int]*vhMstream
	owner   map[string]*vhMstream
	curof   map[string]*vhParty
	ops     []string
}

var vhHookMu sync.Mutex
var vhHooks = map[string]*vhMlis{}

func init() {
	vs.ListenHook = func(network, addr string) (net.Listener, error) {
		vhHookMu.Lock()
		defer vhHookMu.Unlock()
		l := vhHooks[addr]
		if l == nil {
			return nil, errors.New("no such listener")
		}
		return l, nil
	}
}

var vhPaths = [][2]string{{"live", "a"}, {"live", "b"}, {"live/a", "a"}, {"live", "a?token=1"}, {"live", "a?token=2&x=/b"}}

// canon: what follows the question mark is no part of the path.
func vhCanon(path int) int {
	if path >= 3 {
		return 0
	}
	return path
}

func (r *vhRelay) join(pub bool, path int, slow bool) {
	p := &vhParty{id: len(r.parties), pub: pub, path: path, conn: vhNewConn(), dec: rm.NewDec(), slow: slow}
	r.parties = append(r.parties, p)
	app, name := vhPaths[path][0], vhPaths[path][1]
	p.enc = rm.ClientScript(pub, app, "rtmp://h/"+app, name)
	r.lis.ch <- p.conn
	r.push(p)
	// model
	st := r.streams[vhCanon(path)]
	if st == nil {
		st = &vhMstream{}
		r.streams[vhCanon(path)] = st
	}
	st.n++
	p.strm = st
	if pub {
		if st.cur != nil {
			st.cur.replaced = true
		}
		st.cur, st.cache = p, nil
	} else {
		st.subs = append(st.subs, p)
		for _, k := range st.cache {
			r.deliver(p, k)
		}
	}
	if slow {
		p.conn.set(func() { p.conn.block = true })
	}
}

func (r *vhRelay) push(p *vhParty) {
	b := p.enc.Out[p.sent:]
	p.sent = len(p.enc.Out)
	p.conn.set(func() { p.conn.in = append(p.conn.in, b...) })
	vs.Wait()
}

func (r *vhRelay) deliver(s *vhParty, k vhMpkt) {
	if s.left {
		return
	}
	if k.m != 0 && k.m != s.m {
		s.expect = append(s.expect, string([]byte{'c', k.m}))
		s.m = k.m
	}
	if k.kind == 'K' && k.v != 0 && k.v != s.v {
		s.expect = append(s.expect, string([]byte{'c', k.v}))
		s.v = k.v
	}
	if k.kind == 'A' && k.a != 0 && k.a != s.a {
		s.expect = append(s.expect, string([]byte{'c', k.a}))
		s.a = k.a
	}
	s.expect = append(s.expect, k.name)
}

// send makes a publisher send one packet of the kind.
func (r *vhRelay) send(p *vhParty, kind byte) {
	p.n++
	name := fmt.Sprintf("p%d.%d%c", p.id, p.n, kind)
	t := uint32(p.n) * 10
	video := func(flags, typ byte, data string) {
		p.enc.Send(rm.Msg{CSID: 6, Time: t, Type: rm.Video, SID: 1, Data: append([]byte{flags, typ, 0, 0, 0}, data...)})
	}
	audio := func(typ byte, data string) {
		p.enc.Send(rm.Msg{CSID: 7, Time: t, Type: rm.Audio, SID: 1, Data: append([]byte{0xaf, typ}, data...)})
	}
	media := false
	switch kind {
	case 'K':
		video(0x17, 1, name)
		media = true
	case 'I':
		video(0x27, 1, name)
		media = true
	case 'L': // a large inter frame
		video(0x27, 1, name+strings.Repeat("x", 9000))
		media = true
	case 'A':
		audio(1, name)
		media = true
	case 'v', 'w':
		video(0x17, 0, string(kind))
		p.v = kind
	case 'a', 'b':
		audio(0, string(kind))
		p.a = kind
	case 'm', 'n':
		p.enc.Send(rm.Msg{CSID: 5, Time: t, Type: rm.DataAMF0, SID: 1, Data: rm.AMF0("@setDataFrame", "onMetaData", rm.Obj{{"k", string(kind)}})})
		p.m = kind
	}
	r.push(p)
	if p.over {
		return
	}
	if p.replaced {
		p.over = true
		r.drop(p)
		return
	}
	if media {
		k := vhMpkt{name, kind == 'K', kind, p.m, p.v, p.a, p}
		st := p.strm
		if k.key {
			st.cache = nil
		}
		st.cache = append(st.cache, k)
		for _, s := range st.subs {
			r.deliver(s, k)
		}
	}
}

func (r *vhRelay) leave(p *vhParty) {
	p.left = true
	p.conn.set(func() { p.conn.ended = true })
	vs.Wait()
	if !p.over {
		p.over = true
		r.drop(p)
	}
}

// drop is the end of a session in the model.
func (r *vhRelay) drop(p *vhParty) {
	st := p.strm
	st.n--
	for i, s := range st.subs {
		if s == p {
			st.subs = append(st.subs[:i:i], st.subs[i+1:]...)
		}
	}
	if st.n == 0 {
		st.dead = true
		delete(r.streams, vhCanon(p.path))
	}
}

// collect decodes what a player was sent so far.
func (r *vhRelay) collect(p *vhParty) error {
	p.conn.mu.Lock()
	out := p.conn.out
	p.conn.mu.Unlock()
	if p.seen == 0 {
		if len(out) < rm.HelloLen {
			return nil
		}
		p.seen = rm.HelloLen
	}
	n := len(p.dec.Msgs)
	p.dec.Feed(out[p.seen:])
	p.seen = len(out)
	if p.dec.Err != nil {
		return p.dec.Err
	}
	for _, m := range p.dec.Msgs[n:] {
		switch m.Type {
		case rm.Video:
			if len(m.Data) < 5 {
				return fmt.Errorf("empty video message")
			}
			d := string(m.Data[5:])
			if i := strings.IndexByte(d, 'x'); i >= 0 {
				d = d[:i]
			}
			if m.Data[1] == 0 {
				d = "c" + d
			}
			p.got = append(p.got, d)
		case rm.Audio:
			if len(m.Data) < 2 {
				return fmt.Errorf("empty audio message")
			}
			d := string(m.Data[2:])
			if m.Data[1] == 0 {
				d = "c" + d
			}
			p.got = append(p.got, d)
		case rm.DataAMF0, rm.CmdAMF0:
			v, err := rm.ParseAMF0(m.Data)
			if err != nil || len(v) == 0 {
				return fmt.Errorf("undecodable message %x", m.Data)
			}
			last := v[len(v)-1]
			get := func(k string) interface{} {
				switch o := last.(type) {
				case rm.Obj:
					return o.Get(k)
				case rm.ECMA:
					return rm.Obj(o).Get(k)
				}
				return nil
			}
			if m.Type == rm.CmdAMF0 {
				if get("code") == "NetStream.Play.Start" || get("code") == "NetStream.Publish.Start" {
					p.started = true
				}
			} else if v[0] == "onMetaData" {
				p.got = append(p.got, fmt.Sprint("c", get("k")))
			}
		}
	}
	return nil
}

func (r *vhRelay) fail(prop, f string, a ...interface{}) {
	if prop == vhWantS {
		r.c.Fail("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(r.ops, " "))
	}
}

var vhWantS string

func vhSplit(l []string) (media, all []string) {
	for _, x := range l {
		if x[0] != 'c' {
			media = append(media, x)
		}
	}
	return media, l
}

func vhPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *vhRelay) judge() {
	for _, p := range r.parties {
		if err := r.collect(p); err != nil {
			r.fail("S01", "client %d cannot decode what it is sent: %v", p.id, err)
			continue
		}
		p.conn.mu.Lock()
		closed := p.conn.closed
		p.conn.mu.Unlock()
		if p.over != closed && !(p.slow && !p.left) {
			prop := "S02"
			if p.replaced && !p.left {
				prop = "S03"
			}
			if p.over {
				r.fail(prop, "the relay keeps the connection of client %d open although its session is over", p.id)
			} else {
				r.fail(prop, "the relay closes the connection of client %d", p.id)
			}
		}
		if p.slow {
			continue
		}
		if !p.left && !p.over && !p.started && (!p.pub || p.n > 0) {
			r.fail("S02", "client %d never learns that its request succeeded", p.id)
		}
		if p.pub {
			continue
		}
		gm, ga := vhSplit(p.got)
		em, ea := vhSplit(p.expect)
		gs, es := strings.Join(gm, " "), strings.Join(em, " ")
		multi := false
		for _, x := range gm {
			var id, n int
			var k byte
			if _, err := fmt.Sscanf(x, "p%d.%d%c", &id, &n, &k); err != nil || id >= len(r.parties) {
				r.fail("S01", "player %d is sent %q, which nobody published", p.id, x)
				continue
			}
			if r.parties[id].strm != p.strm {
				r.fail("S04", "player %d on %v is sent %q of a different stream", p.id, vhPaths[p.path], x)
			}
		}
		for _, q := range r.parties {
			if q.pub && q.strm == p.strm && (q.replaced || q != p.strm.cur || q.left) {
				multi = true
			}
		}
		if gs != es {
			if len(gm) == 0 {
				r.fail("S04", "player %d on %v gets nothing of %q", p.id, vhPaths[p.path], es)
			}
			if vhPrefix(gm, em) {
				r.fail("S02", "player %d got %q, %q is stranded", p.id, gs, es[len(gs):])
			}
			if multi {
				r.fail("S03", "player %d got %q, not %q", p.id, gs, es)
			} else {
				r.fail("S01", "player %d got %q, not %q", p.id, gs, es)
			}
		} else if strings.Join(ga, " ") != strings.Join(ea, " ") {
			r.fail("S06", "player %d got %q, not %q", p.id, ga, ea)
		}
	}
}

type vhSessConf struct {
	name           string
	depth          int
	kinds          string
	pubs, subs, np int
	slow           bool
	leave          bool
	paths          []int
}

var vhLisN int64

// vhSessionHistory runs the whole relay and explores histories of client actions.
func vhSessionHistory(cf vhSessConf) mc.Exploration {
	rule := fmt.Sprintf("all histories of %d client actions (join as publisher or player on %d paths, send one of %q, leave) with up to %d publishers and %d players against the whole relay over in-memory connections, each action followed to rest", cf.depth, cf.np, cf.kinds, cf.pubs, cf.subs)
	return mc.Exploration{Name: cf.name, Rule: rule, Run: func(c *mc.Ctx) {
		r := &vhRelay{c: c, streams: map[int]*vhMstream{}}
		vhHookMu.Lock()
		vhLisN++
		addr := fmt.Sprint("verif", vhLisN)
		vhHookMu.Unlock()
		vs.Run(c, vs.LEnv, func(s *vs.Sched) {
			r.lis = &vhMlis{ch: make(chan net.Conn), end: make(chan bool)}
			vhHookMu.Lock()
			vhHooks[addr] = r.lis
			vhHookMu.Unlock()
			go doPubsubRtmp(addr)
			vs.Wait()
			for d := 0; d < cf.depth; d++ {
				r.op(cf)
				c.Step(1)
				r.judge()
				out := ""
				for _, p := range r.parties {
					out += strings.Join(p.got, " ") + "|"
				}
				c.State(out)
				if d == cf.depth-1 {
					c.Outcome(out)
					c.Validated(1)
					c.Sample(func() string { return strings.Join(r.ops, " ") })
				}
			}
			for _, p := range r.parties {
				if !p.left {
					r.ops = append(r.ops, fmt.Sprint("leave", p.id))
					r.leave(p)
					r.judge()
				}
			}
			for i, p := range r.parties {
				if !p.conn.closed {
					r.fail("S02", "the session of client %d goes on after its connection closed", i)
				}
			}
		}, func() {
			if r.lis != nil {
				close(r.lis.end)
			}
			for _, p := range r.parties {
				p.conn.set(func() { p.conn.ended, p.conn.closed = true, true })
			}
			vhHookMu.Lock()
			delete(vhHooks, addr)
			vhHookMu.Unlock()
		})
	}}
}

// op lets the explorer choose one client action.
func (r *vhRelay) op(cf vhSessConf) {
	type act struct {
		name string
		f    func()
	}
	var acts []act
	pubs, subs := 0, 0
	for _, p := range r.parties {
		if p.pub {
			pubs++
		} else {
			subs++
		}
	}
	for k := 0; k < cf.np; k++ {
		k := k
		if cf.paths != nil {
			k = cf.paths[k]
		}
		if pubs < cf.pubs {
			acts = append(acts, act{fmt.Sprintf("pub%d@%d", len(r.parties), k), func() { r.join(true, k, false) }})
		}
		if subs < cf.subs {
			acts = append(acts, act{fmt.Sprintf("play%d@%d", len(r.parties), k), func() { r.join(false, k, false) }})
			if cf.slow {
				acts = append(acts, act{fmt.Sprintf("slowplay%d@%d", len(r.parties), k), func() { r.join(false, k, true) }})
			}
		}
	}
	for _, p := range r.parties {
		p := p
		if p.left {
			continue
		}
		if cf.leave {
			acts = append(acts, act{fmt.Sprint("leave", p.id), func() { r.leave(p) }})
		}
		if p.pub && !p.over {
			for i := range cf.kinds {
				k := cf.kinds[i]
				acts = append(acts, act{fmt.Sprintf("%d:%c", p.id, k), func() { r.send(p, k) }})
			}
		}
	}
	if len(acts) == 0 {
		r.c.Prune()
	}
	a := acts[r.c.Choose(len(acts))]
	r.ops = append(r.ops, a.name)
	r.c.Logf("%s", a.name)
	a.f()
}

func vhSessions(id, tier string) []mc.Exploration {
	vhWantS = id
	d := func(q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	switch id {
	case "S01":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(7, 9), kinds: "KIA", pubs: 1, subs: 2, np: 1, leave: true})}
	case "S02":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(6, 8), kinds: "KL", pubs: 1, subs: 2, np: 1, slow: true, leave: true})}
	case "S03":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(7, 9), kinds: "KI", pubs: 2, subs: 1, np: 1, leave: true})}
	case "S04":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(5, 7), kinds: "K", pubs: 2, subs: 2, np: 3, leave: true}),
			vhSessionHistory(vhSessConf{name: "sessions, one path", depth: d(6, 8), kinds: "K", pubs: 2, subs: 2, np: 1, leave: true}),
			vhSessionHistory(vhSessConf{name: "sessions, queries", depth: d(4, 6), kinds: "K", pubs: 1, subs: 2, np: 3, paths: []int{0, 3, 4}, leave: true})}
	case "S05":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(4, 6), kinds: "KA", pubs: 2, subs: 2, np: 1, leave: true})}
	case "S06":
		return []mc.Exploration{vhSessionHistory(vhSessConf{name: "sessions", depth: d(5, 7), kinds: "mnvwaKA", pubs: 2, subs: 1, np: 1})}
	}
	return nil
}
