package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	"joyverif/memio"
	"joyverif/vs"
)

// wrapped counts what passes through a replaced connection.
type wrapped struct {
	net.Conn
	r, w, closes int
	rb, wb       []byte
}

func (x *wrapped) Read(b []byte) (n int, err error) {
	n, err = x.Conn.Read(b)
	x.r += n
	x.rb = append(x.rb, b[:n]...)
	return
}
func (x *wrapped) Write(b []byte) (n int, err error) {
	n, err = x.Conn.Write(b)
	x.w += n
	x.wb = append(x.wb, b[:n]...)
	return
}
func (x *wrapped) Close() error { x.closes++; return x.Conn.Close() }

// one setup between the real endpoints over a connection that can be disturbed.
type setup struct {
	c          *mc.Ctx
	a, b       *memio.TConn // client's and server's end
	cw, sw     *wrapped
	begin      time.Time
	limit      time.Duration // of the server
	wrap       bool
	srv        *rtmp.Conn
	srvAt      time.Duration // HandleConn called
	handled    int
	handedConn net.Conn
	events     []int
	news       int
	dirty      bool // bytes were read before OnNewConn
	cevents    []int
	cli        *rtmp.Conn
	cliConn    net.Conn
	cliErr     error
	cliAt      time.Duration
	cliDone    bool
	srvDone    bool
	srvEnd     time.Duration // HandleNetConn returned
	got        []av.Packet
	readErr    error
	release    chan bool // ends HandleConn
	onNew      func(*rtmp.Conn)
	onCli      func(*rtmp.Conn)
}

func (s *setup) since() time.Duration { return time.Since(s.begin) }

const never = time.Duration(1 << 62)

func newSetup(c *mc.Ctx, limit time.Duration, wrap bool) *setup {
	s := &setup{c: c, begin: time.Now(), limit: limit, wrap: wrap, srvAt: never, release: make(chan bool)}
	s.a, s.b = memio.TimedPair()
	return s
}

func (s *setup) start(publish bool) {
	v := rtmp.NewServer()
	if s.limit < 0 { // none set
		v.HandshakeTimeout = 0
		s.limit = 15 * time.Second
	} else if s.limit > 0 {
		v.HandshakeTimeout = s.limit
	} else {
		s.limit = v.HandshakeTimeout
	}
	if s.wrap {
		v.ReplaceRawConn = func(nc net.Conn) net.Conn {
			s.sw = &wrapped{Conn: nc}
			return s.sw
		}
	}
	v.OnNewConn = func(c *rtmp.Conn) {
		s.news++
		if n, _ := s.b.Count(); n > 0 {
			s.dirty = true
		}
		if s.onNew != nil {
			s.onNew(c)
		}
	}
	v.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) { s.events = append(s.events, e) }
	v.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		s.handled++
		s.srv, s.srvAt, s.handedConn = c, s.since(), nc
		if c.Publishing {
			for {
				p, err := c.ReadPacket()
				if err != nil {
					s.readErr = err
					break
				}
				s.got = append(s.got, p)
			}
		} else if err := c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); err != nil {
			s.readErr = err
		}
		<-s.release
		nc.Close()
	}
	go func() { v.HandleNetConn(s.b); s.srvDone, s.srvEnd = true, s.since() }()
	k := rtmp.NewClient()
	k.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) { s.cevents = append(s.cevents, e) }
	if s.wrap {
		k.ReplaceRawConn = func(nc net.Conn) net.Conn {
			s.cw = &wrapped{Conn: nc}
			return s.cw
		}
	}
	k.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
		return func(ctx context.Context, network, address string) (net.Conn, error) {
			if network != "tcp" || address != "host.example:1935" {
				return nil, fmt.Errorf("dials %s %s", network, address)
			}
			return s.a, nil
		}
	}
	go func() {
		s.cli, s.cliConn, s.cliErr = k.Dial(stdURL, flags(publish))
		s.cliAt, s.cliDone = s.since(), true
		if s.cliErr == nil && s.onCli != nil {
			s.onCli(s.cli)
		}
		if s.cliErr == nil && !publish {
			for {
				p, err := s.cli.ReadPacket()
				if err != nil {
					s.readErr = err
					return
				}
				s.got = append(s.got, p)
			}
		}
	}()
	vs.Wait()
}

// end lets everything finish.
func (s *setup) end() {
	s.a.Hold(-1)
	s.b.Hold(-1)
	s.a.Window(0)
	s.b.Window(0)
	s.a.Close()
	s.b.Close()
	close(s.release)
	vs.Wait()
	time.Sleep(time.Minute) // timers
}

// setupBytes is how many bytes pass in each direction until both sides are done.
var setupBytes = func() (n [2][2]int) {
	for p := 0; p < 2; p++ {
		if r := vs.Bubble(func() {
			s := newSetup(nil, 0, false)
			s.start(p == 1)
			n[p][0], _ = s.b.Count()
			n[p][1], _ = s.a.Count()
			s.end()
		}); r != nil {
			panic(r)
		}
	}
	return
}

var setupN [2][2]int

func life(c *mc.Ctx, stride int, limits []time.Duration) {
	publish, dir := c.Choose(2), c.Choose(2)
	limit := limits[c.Choose(len(limits))]
	total := setupN[publish][dir]
	// the position of the disturbance
	n := (total + stride - 1) / stride
	k := c.Choose(n+1) * stride
	if k > total {
		k = total
	}
	kind := c.Choose(5)
	wrap := (k/stride+kind)%2 == 0
	eff := limit
	switch {
	case eff == 0:
		eff = 10 * time.Second
	case eff < 0:
		eff = 15 * time.Second
	}
	first := eff
	if first > 15*time.Second {
		first = 15 * time.Second
	}
	if r := vs.Bubble(func() {
		s := newSetup(c, limit, wrap)
		end := []*memio.TConn{s.b, s.a}[dir]
		var pause time.Duration
		trickle := false
		switch kind {
		case 0:
			pause = never
		case 1:
			pause = first - time.Second
		case 2:
			pause = eff + 16*time.Second
		case 3:
			trickle = true
		case 4: // and little room
			pause = never
			s.a.Window(700)
			s.b.Window(700)
		}
		c.Logf("publish %v, limit %v, direction %d held after %d of %d bytes, %s", publish == 1, limit, dir, k, total, []string{"for ever", "shortly", "too long", "then a byte each second", "for ever, nobody reads"}[kind])
		end.Hold(k)
		s.start(publish == 1)
		switch {
		case trickle:
			for i := 1; s.since() < 60*time.Second; i++ {
				time.Sleep(time.Second)
				end.Hold(k + i)
				vs.Wait()
			}
			end.Hold(-1)
		case pause == never:
			time.Sleep(60 * time.Second)
		default:
			time.Sleep(pause)
			end.Hold(-1)
			vs.Wait()
			time.Sleep(60*time.Second - pause)
		}
		vs.Wait()
		c.Step(1)
		// both know by now
		if !s.cliDone {
			c.FailK("client", "the client still waits after a minute")
		}
		if s.handled > 1 {
			c.FailK("handled", "handed over %d times", s.handled)
		}
		slack := time.Second
		if s.cliAt > 15*time.Second+slack {
			c.FailK("client", "the client gave up or went on after %v", s.cliAt)
		}
		srvOK := s.handled == 1
		if srvOK && s.srvAt > s.limit+slack {
			c.FailK("server", "the server went on after %v with a limit of %v", s.srvAt, s.limit)
		}
		if !srvOK && !s.b.IsClosed() {
			c.FailK("server", "the server still keeps the connection after a minute, its limit is %v", s.limit)
		}
		if !srvOK && !s.srvDone {
			c.FailK("server", "the server is still busy after a minute")
		}
		if !srvOK && s.srvEnd > s.limit+slack {
			c.FailK("server", "the server gave up after %v, its limit is %v", s.srvEnd, s.limit)
		}
		if s.cliErr != nil {
			if !s.a.IsClosed() {
				c.FailK("client", "the connection of a failed setup is left open")
			}
			if s.cli != nil {
				c.FailK("client", "a connection and an error (%v)", s.cliErr)
			}
		} else if s.cli == nil || s.cliConn == nil {
			c.FailK("client", "no connection and no error")
		}
		// what must have worked
		timely := kind == 1 || k == total && kind != 4
		if timely && (s.cliErr != nil || !srvOK) {
			c.FailK("early", "setup failed although nothing took longer than allowed: client %v, server handed over: %v", s.cliErr, srvOK)
		}
		// events and hooks
		want := []int{rtmp.EventConnConnected}
		if !srvOK {
			want = append(want, rtmp.EventHandshakeFailed)
		}
		if fmt.Sprint(s.events) != fmt.Sprint(want) {
			c.FailK("events", "the server's events are %v, not %v", s.events, want)
		}
		want = nil
		if s.cliErr != nil {
			want = []int{rtmp.EventHandshakeFailed}
		}
		if fmt.Sprint(s.cevents) != fmt.Sprint(want) {
			c.FailK("events", "the client's events are %v, not %v", s.cevents, want)
		}
		if s.news != 1 || s.dirty {
			c.FailK("hook", "the hook for new connections ran %d times (after bytes were read: %v)", s.news, s.dirty)
		}
		if wrap {
			for i, x := range []*wrapped{s.cw, s.sw} {
				end := []*memio.TConn{s.a, s.b}[i]
				r, w := end.Count()
				if x == nil {
					c.FailK("hook", "no connection was replaced")
				}
				if x.r != r || x.w != w {
					c.FailK("hook", "%d and %d bytes passed the replaced connection, of %d and %d", x.r, x.w, r, w)
				}
				if end.IsClosed() && x.closes == 0 {
					c.FailK("hook", "the replaced connection was not closed")
				}
			}
			if srvOK && s.handedConn != net.Conn(s.sw) || s.cliErr == nil && s.cliConn != net.Conn(s.cw) {
				c.FailK("hook", "another connection than the replaced one is handed over")
			}
		}
		c.Outcome(s.cliErr == nil, srvOK, len(s.events))
		if s.cliErr == nil && srvOK && kind != 4 && (kind != 0 || k == total) {
			idle(c, s, publish == 1)
		}
		s.end()
		c.Validated(1)
	}); r != nil {
		panic(r)
	}
}

// idle lets an established session rest, and checks that it still works.
func idle(c *mc.Ctx, s *setup, publish bool) {
	s.a.Hold(-1)
	s.b.Hold(-1)
	w, r := s.cli, s.b
	if !publish {
		w, r = s.srv, s.a
	}
	vs.Wait()
	for i, rest := range []time.Duration{30 * time.Second, 2 * time.Hour, 0} {
		time.Sleep(rest)
		n, _ := r.Count()
		r.Hold(n + 3) // the packet stops for a while on its way
		p := av.Packet{Type: av.AAC, Time: ms(int64(i) * 40), Data: fill(20, byte(i))}
		err := w.WritePacket(p)
		if err == nil {
			err = w.Flush()
		}
		if err != nil {
			c.FailK("idle", "writing after %v: %v", rest, err)
		}
		time.Sleep(time.Hour)
		if len(s.got) > i {
			c.FailK("model", "a packet was read before it arrived")
		}
		r.Hold(-1)
		vs.Wait()
		if len(s.got) != i+1 || !eqPkt(norm(s.got[i]), norm(p)) {
			c.FailK("idle", "packet %d after %v: got %s (reading ended with %v)", i, rest, spl(s.got), s.readErr)
		}
		c.Step(1)
	}
	if s.readErr != nil {
		c.FailK("idle", "reading ended with %v", s.readErr)
	}
}

// dialling that fails or never ends
func dials(c *mc.Ctx) {
	mode, replace := c.Choose(3), c.Bool()
	after := []time.Duration{0, time.Second, 14 * time.Second}[c.Choose(3)]
	scheme := []string{"rtmp", "rtmps"}[c.Choose(2)]
	host := []string{"h.test", "h.test:99", "[::1]", "10.0.0.1:1"}[c.Choose(4)]
	want := map[string]string{"h.test": "h.test:1935", "h.test:99": "h.test:99", "[::1]": "[::1]:1935", "10.0.0.1:1": "10.0.0.1:1"}[host]
	if scheme == "rtmps" {
		want = map[string]string{"h.test": "h.test:443", "h.test:99": "h.test:99", "[::1]": "[::1]:443", "10.0.0.1:1": "10.0.0.1:1"}[host]
	}
	if r := vs.Bubble(func() {
		boom := errors.New("boom")
		k := rtmp.NewClient()
		replaced := false
		if replace {
			k.ReplaceRawConn = func(nc net.Conn) net.Conn { replaced = true; return nc }
		}
		a, b := memio.TimedPair()
		k.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
			return func(ctx context.Context, network, address string) (net.Conn, error) {
				if address != want || network != "tcp" {
					c.FailK("dial", "dials %s %s for %s", network, address, host)
				}
				switch mode {
				case 0:
					<-ctx.Done()
					return nil, ctx.Err()
				case 1:
					time.Sleep(after)
					return nil, boom
				}
				select {
				case <-ctx.Done():
					return nil, ctx.Err()
				case <-time.After(after):
				}
				return a, nil
			}
		}
		c.Logf("dialling %s (%d, after %v)", host, mode, after)
		t0 := time.Now()
		var err error
		var cn *rtmp.Conn
		var nc net.Conn
		done := false
		go func() { cn, nc, err = k.Dial(scheme+"://"+host+"/app/s", rtmp.PrepareReading); done = true }()
		time.Sleep(16 * time.Second)
		if mode != 2 && !done {
			c.FailK("dial", "still dialling after 16 s")
		}
		time.Sleep(16 * time.Second)
		if !done {
			c.FailK("dial", "still at it after %v", time.Since(t0))
		}
		if err == nil || cn != nil || nc != nil {
			c.FailK("dial", "no error")
		}
		if mode == 1 && err != boom {
			c.FailK("dial", "the error is %v", err)
		}
		if replaced != (replace && mode == 2) {
			c.FailK("hook", "connection replaced: %v", replaced)
		}
		if mode == 2 && !a.IsClosed() {
			c.FailK("dial", "the connection is left open")
		}
		b.Close()
		time.Sleep(time.Minute)
		c.Outcome(mode)
		c.Step(1)
		c.Validated(1)
	}); r != nil {
		panic(r)
	}
}

func r10(tier string) []mc.Exploration {
	stride, limits := 2, []time.Duration{0, 3 * time.Second, 40 * time.Second, -1}
	if tier == "thorough" {
		stride = 1
	}
	setupN = setupBytes()
	return []mc.Exploration{
		{Name: "setup", Rule: fmt.Sprintf("publish and play sessions between the real endpoints; either direction stops at every %d. byte of the setup for ever, for less or more than the limits, goes on with a byte each second, or stops with little room for what is written; four limits of the server; established sessions rest for hours and packets stop on their way", stride), Run: func(c *mc.Ctx) { life(c, stride, limits) }},
		{Name: "dialling", Rule: "dialling that fails, never ends or leads to a silent peer, for all spellings of the host", Run: dials},
	}
}
