//go:build relaygen && relayinner

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"joyverif/mc"
	"joyverif/vs"
)

// One letter per packet: K key frame, I inter frame, A audio, and
// configuration packets v w (video), a b (audio), m n (metadata).
//
// form shapes the configuration packets: 0 short, else long ones whose two
// values differ in the first, a middle or the last byte, or in length.
func vhPacket(pub, idx int, k byte, form int) av.Packet {
	config := func(name, kind byte, second bool) []byte {
		if form == 0 {
			return []byte{name, kind}
		}
		b := []byte{1, 0x64, 0, 0x1f, 0xff, 0xe1, 0, 12, 0x67, 0x64, 0, 0x1f, name, 7, 7, 7, 7, 7, 7, 7, 0, 3, 0x68, 1, 2, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9}
		if second {
			switch form {
			case 1:
				b[0]++
			case 2:
				b[16]++
			case 3:
				b[len(b)-1]++
			case 4:
				b = b[:len(b)-1]
			}
		}
		return b
	}
	id := []byte{byte('0' + pub), k, byte(idx)}
	t := time.Duration(idx) * time.Millisecond
	switch k {
	case 'K':
		return av.Packet{Type: av.H264, IsKeyFrame: true, Time: t, CTime: 3, Data: id}
	case 'I':
		return av.Packet{Type: av.H264, Time: t, Data: id}
	case 'A':
		return av.Packet{Type: av.AAC, Time: t, Data: id}
	case 'v', 'w':
		return av.Packet{Type: av.H264DecoderConfig, Time: t, Data: config('V', k, k == 'w')}
	case 'a', 'b':
		return av.Packet{Type: av.AACDecoderConfig, Time: t, Data: config('S', k, k == 'b')}
	case 'm', 'n':
		return av.Packet{Type: av.Metadata, Time: t, Data: config('M', k, k == 'n')}
	}
	panic("packet kind")
}

func vhMedia(t int) bool { return t == av.H264 || t == av.AAC }

type vhEv struct {
	b, e int // begin and end time
	pkt  av.Packet
	err  bool
}

// vhPubEnv is what a publisher session reads from.
type vhPubEnv struct {
	id     int
	script string
	form   int
	hold   bool // stays connected without sending after the script
	free   chan struct{}
	// log
	next    int
	holding int // time it began to wait for its connection
	reads   []vhEv
	end     int
	errSeen bool
	th      *vs.Thread
}

var vhErrGone = errors.New("connection gone")

//go:norace
func (p *vhPubEnv) ReadPacket() (av.Packet, error) {
	vs.Gate(vs.LEnv, 10000+p.id)
	b := vs.Tick()
	if p.next == len(p.script) && p.hold {
		// after the pause one more packet arrives, then the connection ends
		p.holding = b
		<-p.free
		pkt := vhPacket(p.id, p.next, 'K', p.form)
		p.next++
		p.reads = append(p.reads, vhEv{b: b, e: vs.Tick(), pkt: pkt})
		return vhFresh(pkt), nil
	}
	if p.next >= len(p.script) {
		p.reads = append(p.reads, vhEv{b: b, err: true})
		p.errSeen = true
		return av.Packet{}, io.EOF
	}
	pkt := vhPacket(p.id, p.next, p.script[p.next], p.form)
	p.next++
	p.reads = append(p.reads, vhEv{b: b, e: vs.Tick(), pkt: pkt})
	return vhFresh(pkt), nil
}

func vhFresh(p av.Packet) av.Packet {
	p.Data = append([]byte(nil), p.Data...)
	return p
}

// vhSubEnv is what a subscriber session writes to.
type vhSubEnv struct {
	id      int
	close   chan bool
	failAt  int // that write fails, -1 never
	blockAt int // that write blocks until the end
	free    chan struct{}
	log     []vhEv
	kept    []av.Packet // as handed over, to notice later modification
	join    int
	end     int
	blocked bool
	closed  int // time the connection closed
	flushes []vhFlush
	noFlush int // that flush fails, -1 never
	th      *vs.Thread
}

func (s *vhSubEnv) WritePacket(p av.Packet) error {
	vs.Gate(vs.LEnv, 20000+s.id)
	n := len(s.log)
	e := vhEv{b: vs.Tick(), pkt: vhDeep(p)}
	s.kept = append(s.kept, p)
	if n == s.blockAt {
		s.blocked = true
		e.err = true
		s.log = append(s.log, e)
		<-s.free
		return vhErrGone
	}
	e.err = n == s.failAt
	e.e = vs.Tick()
	s.log = append(s.log, e)
	if e.err {
		return vhErrGone
	}
	return nil
}

type vhFlush struct {
	at, n int // when, after how many writes
	err   bool
}

// Flush hands over what was written so far.
func (s *vhSubEnv) Flush() error {
	f := vhFlush{vs.Tick(), len(s.log), len(s.flushes) == s.noFlush}
	s.flushes = append(s.flushes, f)
	if f.err {
		return vhErrGone
	}
	return nil
}

func vhDeep(p av.Packet) av.Packet {
	c := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	p.Data, p.Metadata, p.VSeqHdr, p.ASeqHdr = c(p.Data), c(p.Metadata), c(p.VSeqHdr), c(p.ASeqHdr)
	return p
}

func vhSame(a, b av.Packet) bool {
	return a.Type == b.Type && a.IsKeyFrame == b.IsKeyFrame && a.Time == b.Time && a.CTime == b.CTime && bytes.Equal(a.Data, b.Data)
}

type vhWorld struct {
	c    *mc.Ctx
	s    *vs.Sched
	st   *stream
	pubs []*vhPubEnv
	subs []*vhSubEnv
	rest int // time everything came to rest
}

func (w *vhWorld) pub(script string, hold bool) *vhPubEnv {
	p := &vhPubEnv{id: len(w.pubs), script: script, hold: hold, free: make(chan struct{})}
	w.pubs = append(w.pubs, p)
	p.th = w.s.Go(fmt.Sprintf("pub%d", p.id), func() {
		w.st.setPub(p)
		p.end = vs.Tick()
	})
	return p
}

func (w *vhWorld) sub() *vhSubEnv {
	s := &vhSubEnv{id: len(w.subs), close: make(chan bool, 1), failAt: -1, blockAt: -1, noFlush: -1, free: make(chan struct{})}
	w.subs = append(w.subs, s)
	s.th = w.s.Go(fmt.Sprintf("sub%d", s.id), func() {
		s.join = vs.Tick()
		w.st.addSub(s.close, s)
		s.end = vs.Tick()
	})
	return s
}

func (w *vhWorld) closer(s *vhSubEnv) {
	w.s.Go(fmt.Sprintf("close%d", s.id), func() {
		vs.Gate(vs.LEnv, 30000)
		s.close <- true
		s.closed = vs.Tick()
	})
}

// vhRun explores one set-up: setup creates the sessions, then the schedule is
// enumerated until everything rests, the connections are taken away one after
// the other and the histories are judged.
func vhRun(c *mc.Ctx, level int, setup func(w *vhWorld), judge func(w *vhWorld)) {
	w := &vhWorld{c: c, st: &stream{}}
	vs.Run(c, level, func(s *vs.Sched) {
		w.s = s
		s.Fingerprint = w.fingerprint
		setup(w)
		s.Explore()
		w.rest = s.Tick()
		for _, t := range s.Threads() {
			if t.Panic != "" {
				c.FailK("panic", "%s panicked: %s", t.Name, t.Panic)
			}
		}
		atrest := map[*vs.Thread]bool{}
		for _, t := range s.Threads() {
			atrest[t] = t.Done
		}
		// the connections go away
		for _, p := range w.pubs {
			close(p.free)
		}
		s.Explore()
		for _, sub := range w.subs {
			close(sub.free)
			select {
			case sub.close <- true:
			default:
			}
		}
		s.Explore()
		s.Join()
		for _, p := range w.pubs {
			if !p.th.Done {
				w.fail("S02", "publisher session %d does not end after its connection closed", p.id)
			}
		}
		for _, sub := range w.subs {
			if !sub.th.Done {
				w.fail("S02", "subscriber session %d does not end after its connection closed", sub.id)
			}
		}
		w.trace()
		judge(w)
		var b strings.Builder
		for _, sub := range w.subs {
			for _, e := range sub.log {
				b.Write(e.pkt.Data)
			}
			b.WriteByte('|')
		}
		c.Outcome(b.String())
		c.Validated(1)
		c.Sample(func() string { return w.describe() })
	}, func() {
		for _, p := range w.pubs {
			vhShut(p.free)
		}
		for _, sub := range w.subs {
			vhShut(sub.free)
			for i := 0; i < 2; i++ {
				select {
				case sub.close <- true:
				default:
				}
			}
		}
	})
}

// fingerprint is the harness's part of the state: what was read and sent so far.
//
//go:norace
func (w *vhWorld) fingerprint() uint64 {
	h := uint64(1)
	for _, p := range w.pubs {
		h = h*1000003 + uint64(len(p.reads))
	}
	for _, s := range w.subs {
		h = h*1000003 + uint64(len(s.log)*16+len(s.flushes))
		if n := len(s.log); n > 0 {
			for _, b := range s.log[n-1].pkt.Data {
				h = h*31 + uint64(b)
			}
		}
	}
	return h
}

func vhShut(ch chan struct{}) {
	defer func() { recover() }()
	close(ch)
}

func (w *vhWorld) describe() string {
	var b strings.Builder
	for _, p := range w.pubs {
		fmt.Fprintf(&b, "pub%d=%s ", p.id, p.script)
	}
	for _, s := range w.subs {
		fmt.Fprintf(&b, "sub%d got ", s.id)
		for _, e := range s.log {
			fmt.Fprintf(&b, "%s ", e.pkt.Data)
		}
	}
	fmt.Fprintf(&b, "in %d steps", w.s.Steps)
	return b.String()
}

func (w *vhWorld) trace() {
	if !w.c.Tracing {
		return
	}
	for _, p := range w.pubs {
		for _, e := range p.reads {
			w.c.Logf("pub%d reads %q at %d..%d err=%v", p.id, e.pkt.Data, e.b, e.e, e.err)
		}
		w.c.Logf("pub%d ended at %d", p.id, p.end)
	}
	for _, s := range w.subs {
		w.c.Logf("sub%d joined at %d", s.id, s.join)
		for _, e := range s.log {
			w.c.Logf("sub%d is sent type %d %q at %d..%d fail=%v", s.id, e.pkt.Type, e.pkt.Data, e.b, e.e, e.err)
		}
		w.c.Logf("sub%d ended at %d (closed at %d, rest at %d)", s.id, s.end, s.closed, w.rest)
	}
}

// vhWant is the property being checked; only its violations are reported.
var vhWant string

func (w *vhWorld) fail(prop, f string, a ...interface{}) {
	if prop == vhWant {
		w.c.Fail(f, a...)
	}
}

// vhItem is one published media packet.
type vhItem struct {
	pkt     av.Packet
	from    int // time it was read
	done    int // time it certainly was published
	gop     bool
	m, v, a []byte // configuration in force
}

func (p *vhPubEnv) items() []vhItem {
	var out []vhItem
	var m, v, a []byte
	for i, e := range p.reads {
		if e.err {
			break
		}
		switch e.pkt.Type {
		case av.Metadata:
			m = e.pkt.Data
		case av.H264DecoderConfig:
			v = e.pkt.Data
		case av.AACDecoderConfig:
			a = e.pkt.Data
		default:
			done := 1 << 30
			if i+1 < len(p.reads) {
				done = p.reads[i+1].b
			} else if p.end > 0 {
				done = p.end
			}
			out = append(out, vhItem{e.pkt, e.e, done, len(out) == 0 || e.pkt.IsKeyFrame, m, v, a})
		}
	}
	return out
}

// current is the publisher in charge when everything rests, nil if none.
func (w *vhWorld) current() *vhPubEnv {
	var c *vhPubEnv
	for _, p := range w.pubs {
		if p.first() == 0 {
			continue
		}
		if c == nil {
			c = p
			continue
		}
		late, early := p, c
		if late.first() < early.first() {
			late, early = early, late
		}
		if late.stopped(w) { // it was told to stop
			late = early
		}
		c = late
	}
	return c
}

// first is the time of its first read, 0 if none.
func (p *vhPubEnv) first() int {
	if len(p.reads) > 0 {
		return p.reads[0].b
	}
	return p.holding
}

// stopped tells that at rest it had ended though its connection had not.
func (p *vhPubEnv) stopped(w *vhWorld) bool {
	return p.end > 0 && p.end < w.rest && !p.errSeen
}

// vhJudgeAll checks every clause on the recorded history.
func vhJudgeAll(w *vhWorld) {
	items := make([][]vhItem, len(w.pubs))
	for i, p := range w.pubs {
		items[i] = p.items()
	}
	cur := w.current()
	// S03: replaced publishers end at their next packet
	for _, p := range w.pubs {
		for _, q := range w.pubs {
			if p == q || p.first() == 0 || q.first() == 0 || p.first() > q.first() {
				continue
			}
			// q's takeover is complete when it first reads, unless q began before
			// p and only read later; then it reads no second time
			if len(q.reads) < 2 {
				continue
			}
			n := 0
			for _, e := range p.reads {
				if e.b > q.first() {
					n++
				}
			}
			if n > 1 {
				w.fail("S03", "publisher %d still reads %d packets after publisher %d took over", p.id, n, q.id)
			}
		}
		// one that waited for its connection while it was replaced
		if p != cur && p.holding > 0 && p.errSeen {
			w.fail("S03", "publisher %d was replaced by %d and goes on after its next packet", p.id, cur.id)
		}
	}
	for _, s := range w.subs {
		for i, e := range s.log {
			if !vhSame(e.pkt, s.kept[i]) || !bytes.Equal(e.pkt.Data, s.kept[i].Data) {
				w.fail("S01", "packet %q handed to subscriber %d was modified afterwards to %q", e.pkt.Data, s.id, s.kept[i].Data)
				w.fail("S05", "packet %q handed to subscriber %d was modified afterwards to %q", e.pkt.Data, s.id, s.kept[i].Data)
			}
		}
		w.judgeFeed(s, items, cur)
		w.judgeConfig(s, items)
		w.judgeEnd(s, items, cur)
	}
	for _, p := range w.pubs {
		rested := p.end != 0 && p.end < w.rest
		inHold := p.holding > 0
		if !rested && !inHold {
			w.fail("S02", "publisher %d is stuck: it neither ended nor waits for its connection", p.id)
		}
		replaced := false
		for _, q := range w.pubs {
			replaced = replaced || q != p && q.first() > 0
		}
		if p.stopped(w) && !replaced {
			w.fail("S02", "publisher %d ended although it was connected and never replaced", p.id)
		}
	}
}

func (w *vhWorld) judgeFeed(s *vhSubEnv, items [][]vhItem, cur *vhPubEnv) {
	pub, idx := -1, -1
	since := s.join
	for n, e := range s.log {
		if !vhMedia(e.pkt.Type) {
			switch e.pkt.Type {
			case av.Metadata, av.H264DecoderConfig, av.AACDecoderConfig:
			default:
				w.fail("S01", "subscriber %d is sent an invented packet of type %d", s.id, e.pkt.Type)
			}
			// configuration precedes the media of its batch, so the window stays open
			continue
		}
		if len(e.pkt.Data) != 3 {
			w.fail("S01", "subscriber %d is sent an invented packet %q", s.id, e.pkt.Data)
			return
		}
		p := int(e.pkt.Data[0] - '0')
		i := -1
		if p < len(items) {
			for k, it := range items[p] {
				if vhSame(it.pkt, e.pkt) {
					i = k
				}
			}
		}
		if i < 0 {
			w.fail("S01", "subscriber %d is sent a packet %+v that was not published", s.id, e.pkt)
			return
		}
		it := items[p][i]
		if it.from > e.b {
			w.fail("S01", "packet %q is sent before it was published", e.pkt.Data)
		}
		// group of pictures certainly current when the window opened
		g := 0
		for k, x := range items[p] {
			if x.gop && x.done <= since {
				g = k
			}
		}
		switch {
		case p == pub && i == idx+1:
		case p == pub && i <= idx:
			w.fail("S01", "subscriber %d is sent media %d after media %d of publisher %d", s.id, i, idx, p)
		case p == pub:
			if !it.gop {
				w.fail("S01", "subscriber %d skips from media %d to %d, not the start of a group of pictures", s.id, idx, i)
			} else if i < g {
				w.fail("S01", "subscriber %d skips from media %d to %d although the group at %d was current", s.id, idx, i, g)
			}
		default:
			prop := "S01"
			if pub >= 0 {
				prop = "S03"
			}
			if !it.gop {
				w.fail(prop, "subscriber %d (write %d) starts on publisher %d at media %d, not the start of a group of pictures", s.id, n, p, i)
			} else if i < g {
				w.fail(prop, "subscriber %d starts on publisher %d at media %d, before the group at %d that was current", s.id, p, i, g)
			}
			if pub >= 0 && w.older(p, pub) {
				w.fail("S03", "subscriber %d is sent media of publisher %d after media of publisher %d, which replaced it", s.id, p, pub)
			}
		}
		pub, idx = p, i
		since = e.e
	}
}

// older tells that publisher a was certainly replaced by b.
func (w *vhWorld) older(a, b int) bool {
	p, q := w.pubs[a], w.pubs[b]
	if p.first() == 0 || q.first() == 0 {
		return false
	}
	if p.first() < q.first() && !q.stopped(w) {
		return true
	}
	return p.stopped(w) && !q.stopped(w)
}

func (w *vhWorld) judgeConfig(s *vhSubEnv, items [][]vhItem) {
	var m, v, a []byte
	find := func(pkt av.Packet) *vhItem {
		for _, l := range items {
			for k := range l {
				if vhSame(l[k].pkt, pkt) {
					return &l[k]
				}
			}
		}
		return nil
	}
	for i, e := range s.log {
		var next *vhItem
		for _, x := range s.log[i:] {
			if vhMedia(x.pkt.Type) {
				next = find(x.pkt)
				break
			}
		}
		cfg := func(name string, last *[]byte, inForce func(*vhItem) []byte) {
			if len(e.pkt.Data) == 0 {
				w.fail("S06", "subscriber %d is sent empty %s", s.id, name)
			}
			if bytes.Equal(*last, e.pkt.Data) {
				w.fail("S06", "subscriber %d is sent %s %q again although it did not change", s.id, name, e.pkt.Data)
			}
			if next != nil && !bytes.Equal(inForce(next), e.pkt.Data) {
				w.fail("S06", "subscriber %d is sent %s %q before media %q, for which %q is in force", s.id, name, e.pkt.Data, next.pkt.Data, inForce(next))
			}
			*last = e.pkt.Data
		}
		switch e.pkt.Type {
		case av.Metadata:
			cfg("metadata", &m, func(x *vhItem) []byte { return x.m })
		case av.H264DecoderConfig:
			cfg("video configuration", &v, func(x *vhItem) []byte { return x.v })
		case av.AACDecoderConfig:
			cfg("audio configuration", &a, func(x *vhItem) []byte { return x.a })
		default:
			if next == nil {
				continue
			}
			if next.m != nil && !bytes.Equal(next.m, m) {
				w.fail("S06", "subscriber %d is sent media %q while it has metadata %q; in force is %q", s.id, e.pkt.Data, m, next.m)
			}
			if e.pkt.IsKeyFrame && next.v != nil && !bytes.Equal(next.v, v) {
				w.fail("S06", "subscriber %d is sent key frame %q while it has video configuration %q; in force is %q", s.id, e.pkt.Data, v, next.v)
			}
			if e.pkt.Type == av.AAC && next.a != nil && !bytes.Equal(next.a, a) {
				w.fail("S06", "subscriber %d is sent audio %q while it has configuration %q; in force is %q", s.id, e.pkt.Data, a, next.a)
			}
		}
	}
}

func (w *vhWorld) judgeEnd(s *vhSubEnv, items [][]vhItem, cur *vhPubEnv) {
	for _, f := range s.flushes {
		if !f.err || f.at > w.rest {
			continue
		}
		if len(s.log) > f.n || s.flushes[len(s.flushes)-1] != f {
			w.fail("S02", "subscriber %d is written to after its connection failed when flushed", s.id)
		}
		if s.end == 0 || s.end > w.rest {
			w.fail("S02", "subscriber %d does not end after its connection failed when flushed", s.id)
		}
		return
	}
	failed := -1
	for i, e := range s.log {
		if e.err && failed < 0 && e.b < w.rest {
			failed = i
		}
	}
	ended := s.end > 0 && s.end < w.rest
	if failed >= 0 {
		if len(s.log) > failed+1 {
			w.fail("S02", "subscriber %d is written to after its write %d failed", s.id, failed)
		}
		if !ended && !s.blocked {
			w.fail("S02", "subscriber %d does not end after its write %d failed", s.id, failed)
		}
		return
	}
	if s.closed > 0 && s.closed < w.rest {
		if !ended && !s.blocked {
			w.fail("S02", "subscriber %d does not end although its connection closed", s.id)
		}
		first := 0
		for _, e := range s.log {
			if e.b < s.closed || !vhMedia(e.pkt.Type) {
				continue
			}
			if first == 0 {
				first = e.b
			}
			for _, l := range items {
				for _, it := range l {
					if vhSame(it.pkt, e.pkt) && it.from > first {
						w.fail("S02", "subscriber %d whose connection closed at %d is sent %q, published after that", s.id, s.closed, e.pkt.Data)
					}
				}
			}
		}
		return
	}
	if ended {
		w.fail("S02", "subscriber %d ended although it is connected", s.id)
		return
	}
	if cur == nil || s.blocked {
		return
	}
	var l []vhItem
	for _, it := range items[cur.id] {
		if it.from < w.rest {
			l = append(l, it)
		}
	}
	if len(l) == 0 {
		return
	}
	last := -1
	for i, e := range s.log {
		if vhMedia(e.pkt.Type) && e.b < w.rest {
			flushed := false
			for _, f := range s.flushes {
				flushed = flushed || f.n > i && f.at < w.rest
			}
			if !flushed {
				w.fail("S02", "packet %q for subscriber %d is never flushed although everything is at rest", e.pkt.Data, s.id)
			}
			last = -1
			if vhSame(e.pkt, l[len(l)-1].pkt) {
				last = len(l) - 1
			}
		}
	}
	if last < 0 {
		prop := "S02"
		w.fail(prop, "subscriber %d is not sent the last published packet %q although everything is at rest", s.id, l[len(l)-1].pkt.Data)
		if len(w.pubs) > 1 {
			w.fail("S03", "subscriber %d does not follow publisher %d: its last packet %q is never sent", s.id, cur.id, l[len(l)-1].pkt.Data)
		}
	}
}

// vhScript lets the explorer choose a word over alphabet up to length n.
func vhScript(c *mc.Ctx, alphabet string, min, n int) string {
	l := min + c.Choose(n-min+1)
	b := make([]byte, l)
	for i := range b {
		b[i] = alphabet[c.Choose(len(alphabet))]
	}
	return string(b)
}

func vhPick(c *mc.Ctx, l ...string) string { return l[c.Choose(len(l))] }

func vhExp(name, rule string, bound, level int, setup func(c *mc.Ctx) func(w *vhWorld)) mc.Exploration {
	return mc.Exploration{Name: name, Rule: rule, Bound: bound, Run: func(c *mc.Ctx) {
		vhRun(c, level, setup(c), vhJudgeAll)
	}}
}

func vhOnePub(n, subs int, alphabet string) func(c *mc.Ctx) func(w *vhWorld) {
	return func(c *mc.Ctx) func(w *vhWorld) {
		sc := vhScript(c, alphabet, 1, n)
		return func(w *vhWorld) {
			w.pub(sc, true)
			for i := 0; i < subs; i++ {
				w.sub()
			}
		}
	}
}

func vhFaults(c *mc.Ctx) func(w *vhWorld) {
	sc := vhPick(c, "KIK", "vKaAI", "KIIK")
	f := c.Choose(4)
	k := c.Choose(3)
	return func(w *vhWorld) {
		w.pub(sc, true)
		a := w.sub()
		switch f {
		case 0:
			w.closer(a)
			if k > 0 {
				c.Prune()
			}
		case 1:
			a.failAt = k
		case 2:
			a.blockAt = k
		case 3:
			a.noFlush = k
		}
		w.sub()
	}
}

func vhTakeover(all bool) func(c *mc.Ctx) func(w *vhWorld) {
	return func(c *mc.Ctx) func(w *vhWorld) {
		a := []string{"KI", "mvKI", "KIK", "I"}
		b := []string{"KI", "vKwK", "IK", "nKI"}
		if !all {
			a, b = a[:1], b[:2]
		}
		x, y := vhPick(c, a...), vhPick(c, b...)
		hold := c.Bool()
		return func(w *vhWorld) {
			w.pub(x, hold)
			w.pub(y, true)
			w.sub()
		}
	}
}

// joins: longer publications with every join position and lag.
func vhJoins(c *mc.Ctx) func(w *vhWorld) {
	sc := vhPick(c, "mvaKAKAKA", "maAKAIKAI", "vaKAwKAbKA", "vwvKIwKvK", "abaKAbKA", "mnmKInKmA", "aKAKKA", "mKKIKI")
	form := c.Choose(5)
	return func(w *vhWorld) {
		w.pub(sc, true).form = form
		w.sub()
	}
}

// same: the next publisher has the same configuration, or changes one part.
func vhSameConfig(c *mc.Ctx) func(w *vhWorld) {
	x := vhPick(c, "mvaKA", "aA", "mvK", "mwbKA")
	y := vhPick(c, "mvaKA", "mvbAK", "mwaKA", "nvaKA", "aAmvK", "mvKK", "vaKA")
	form := c.Choose(5)
	return func(w *vhWorld) {
		w.pub(x, false).form = form
		w.pub(y, true).form = form
		w.sub()
	}
}

func vhConfigs(c *mc.Ctx) func(w *vhWorld) {
	sc := vhPick(c, "mvKI", "vKwK", "vKwIK", "aAbA", "mAnA", "mvKnI", "vaKAwbKA")
	return func(w *vhWorld) {
		w.pub(sc, true)
		w.sub()
	}
}

// histories: coarse steps only, so all scripts and all positions fit.
func vhHistory(min, max int, alphabet string, two bool) func(c *mc.Ctx) func(w *vhWorld) {
	return func(c *mc.Ctx) func(w *vhWorld) {
		sc := vhScript(c, alphabet, min, max)
		if !strings.ContainsAny(sc, "KIA") {
			c.Prune()
		}
		return func(w *vhWorld) {
			w.pub(sc, true)
			w.sub()
		}
	}
}

// long: groups of pictures and subscriber lags beyond any fixed size.
func vhLong(n int) func(c *mc.Ctx) func(w *vhWorld) {
	return func(c *mc.Ctx) func(w *vhWorld) {
		k := []int{n, n / 2, n / 10, 1}[c.Choose(4)]
		l := 1
		if k > 1 && k < n/2 {
			l = []int{1, k / 2, k}[c.Choose(3)]
		}
		b := make([]byte, n)
		for i := range b {
			switch {
			case i%k == 0:
				b[i] = 'K'
			case i%3 == 1:
				b[i] = 'A'
			default:
				b[i] = 'I'
			}
		}
		b = b[:n-l+1]
		return func(w *vhWorld) {
			w.pub(string(b), true)
			w.sub()
		}
	}
}

// churn: sessions that came and went leave nothing behind.
func vhChurn(n int) mc.Exploration {
	return mc.Exploration{Name: "churn", Rule: fmt.Sprintf("%d subscriber sessions one after the other, ended by their connection or by a failing write, with and without a publisher; live memory afterwards", n), Serial: true, Run: func(c *mc.Ctx) {
		how := c.Choose(3)
		st := &stream{}
		if how > 0 {
			p := &vhPubEnv{script: "KI", free: make(chan struct{})}
			st.setPub(p)
		}
		live := func() int64 {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		one := func() {
			s := &vhSubEnv{close: make(chan bool, 1), failAt: -1, blockAt: -1, noFlush: -1}
			if how == 1 {
				s.failAt = 0
			} else {
				s.close <- true
			}
			st.addSub(s.close, s)
		}
		for i := 0; i < 500; i++ {
			one()
		}
		a := live()
		for i := 0; i < n; i++ {
			one()
			c.Step(1)
		}
		b := live()
		runtime.KeepAlive(st)
		c.Outcome(how)
		if b-a > 40*int64(n) {
			w := &vhWorld{c: c}
			w.fail("S02", "%d ended subscriber sessions keep %d bytes alive", n, b-a)
		}
	}}
}

func init() {
	build := func(id string, f func(tier string) []mc.Exploration) {
		vhInner[id] = func(tier string) []mc.Exploration {
			vhWant = id
			return f(tier)
		}
	}
	deep := func(tier string, q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	rule := "all scripts and all interleavings at synchronisation operations within the preemption bound"
	one := func(tier string) mc.Exploration {
		return vhExp("one publisher, one subscriber", "scripts of K and I, "+rule, deep(tier, 2, 4), vs.LSync, vhOnePub(deep(tier, 3, 4), 1, "KI"))
	}
	two := func(tier string) mc.Exploration {
		return vhExp("one publisher, two subscribers", "scripts of K and I, "+rule, deep(tier, 1, 2), vs.LSync, vhOnePub(deep(tier, 2, 3), 2, "KI"))
	}
	fine := func(tier string) mc.Exploration {
		return vhExp("every statement, one publisher, one subscriber", "scripts of K and I, all interleavings of all statements that touch memory within the preemption bound", deep(tier, 2, 3), vs.LAll, vhOnePub(deep(tier, 2, 3), 1, "KI"))
	}
	flt := func(tier string) mc.Exploration {
		return vhExp("faults", "close, failing and blocking writes and failing flushes at every position, "+rule, deep(tier, 1, 2), vs.LSync, vhFaults)
	}
	tko := func(tier string, b int) mc.Exploration {
		name := "takeover"
		if b > 1 {
			name = "takeover, deeper"
		}
		return vhExp(name, "two publishers and a subscriber, "+rule, deep(tier, b, b+1), vs.LSync, vhTakeover(b == 1 || tier == "thorough"))
	}
	cfg := func(tier string) mc.Exploration {
		return vhExp("configuration changes", "fixed scripts, "+rule, deep(tier, 2, 3), vs.LSync, vhConfigs)
	}
	his := func(tier string) mc.Exploration {
		return vhExp("histories", "all scripts of configuration and media packets with every join position and lag (scheduling points at environment calls)", deep(tier, 2, 3), vs.LEnv, vhHistory(1, deep(tier, 3, 5), "mnvwabKIA", false))
	}
	his4 := func(tier string) mc.Exploration {
		return vhExp("histories, longer", "all longer scripts of configuration and media packets with every join position and one lag (scheduling points at environment calls)", 1, vs.LEnv, vhHistory(4, deep(tier, 4, 5), "mnvwabKIA", false))
	}
	lng := func(tier string) mc.Exploration {
		n := deep(tier, 300, 3000)
		return vhExp("long", fmt.Sprintf("publications of about %d packets of one, two or ten groups of pictures or of key frames only, every join position and lag up to one deviation (scheduling points at environment calls)", n), 1, vs.LEnv, vhLong(n))
	}
	jns := func(tier string) mc.Exploration {
		return vhExp("joins", "longer publications in which configuration repeats, changes and changes back, short and long values that differ in the first, a middle or the last byte or in length, with every join position and lag (scheduling points at environment calls)", deep(tier, 2, 3), vs.LEnv, vhJoins)
	}
	smc := func(tier string) mc.Exploration {
		return vhExp("same configuration", "a second publisher whose configuration equals the first one's or differs in one part (scheduling points at environment calls)", deep(tier, 1, 3), vs.LEnv, vhSameConfig)
	}
	build("S01", func(t string) []mc.Exploration {
		return []mc.Exploration{one(t), two(t), fine(t), flt(t), tko(t, 1), lng(t)}
	})
	build("S02", func(t string) []mc.Exploration {
		return []mc.Exploration{one(t), two(t), flt(t), tko(t, 1), fine(t), vhChurn(deep(t, 10000, 30000))}
	})
	build("S03", func(t string) []mc.Exploration { return []mc.Exploration{tko(t, 1), tko(t, 2)} })
	build("S05", func(t string) []mc.Exploration { return []mc.Exploration{one(t), two(t), tko(t, 1), cfg(t)} })
	build("S06", func(t string) []mc.Exploration {
		return []mc.Exploration{jns(t), smc(t), cfg(t), tko(t, 1), his(t), his4(t)}
	})
}
