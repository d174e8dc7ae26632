package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	"joyverif/memio"
	rm "joyverif/rtmpmodel"
)

// replies is the model of what a connection answers: it follows the input
// chunk by chunk.
type replies struct {
	window, last uint32
	base         int // bytes before the counted stream
	out          []rm.Msg
}

// chunk is called with the end offset of each chunk and the message it completes.
func (r *replies) chunk(end int, m *rm.Msg) {
	n := uint32(end - r.base)
	if r.window != 0 && n-r.last > r.window {
		r.out = append(r.out, rm.Msg{Type: rm.Ack, Data: rm.U32(n)})
		r.last = n
	}
	if m == nil {
		return
	}
	switch m.Type {
	case rm.WindowAckSize:
		r.window = binary.BigEndian.Uint32(m.Data)
	case rm.UserControl:
		if len(m.Data) >= 6 && m.Data[0] == 0 && m.Data[1] == 6 {
			r.out = append(r.out, rm.Msg{Type: rm.UserControl, Data: append(rm.U16(7), m.Data[2:6]...)})
		}
	}
}

// watch is the transport: it never lets a read cross the end of a chunk and
// checks, each time the reader asks for more, that every due reply was flushed.
type watch struct {
	c       *mc.Ctx
	in      []byte
	ends    []int
	msgs    map[int]*rm.Msg
	off     int
	next    int
	model   replies
	pending []byte
	dec     *rm.Dec
	max     int
	what    string
}

func newWatch(c *mc.Ctx, in []byte, base int) *watch {
	w := &watch{c: c, in: in, dec: rm.NewDec(), msgs: map[int]*rm.Msg{}}
	w.model = replies{window: 2500000, base: base}
	d := rm.NewDec()
	d.Feed(in[base:])
	if d.Err != nil {
		panic(fmt.Sprint("model stream: ", d.Err))
	}
	for _, e := range d.Chunks {
		w.ends = append(w.ends, e+base)
	}
	for i := range d.Msgs {
		w.msgs[d.Msgs[i].End+base] = &d.Msgs[i]
	}
	return w
}

func (w *watch) Write(p []byte) (int, error) { w.pending = append(w.pending, p...); return len(p), nil }
func (w *watch) Flush() error {
	w.dec.Feed(w.pending)
	w.pending = nil
	if w.dec.Err != nil {
		w.c.Fail("replies are not a well-formed chunk stream: %v", w.dec.Err)
	}
	return nil
}

func (w *watch) check() {
	for w.next < len(w.ends) && w.ends[w.next] <= w.off {
		w.model.chunk(w.ends[w.next], w.msgs[w.ends[w.next]])
		w.next++
		w.c.Step(1)
	}
	got, want := w.dec.Msgs, w.model.out
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			w.c.Fail("after %d bytes: reply %v was not sent; sent so far %s; input %s", w.off, want[i], sprint(got), w.what)
		}
		if i >= len(want) {
			w.c.Fail("after %d bytes: unexpected reply %v; input %s", w.off, got[i], w.what)
		}
		if got[i].Type != want[i].Type || !bytes.Equal(got[i].Data, want[i].Data) {
			w.c.Fail("after %d bytes: reply %d is %v, want %v; input %s", w.off, i, got[i], want[i], w.what)
		}
	}
	w.c.Validated(1)
}

func (w *watch) Read(p []byte) (int, error) {
	w.check()
	if w.off == len(w.in) {
		return 0, io.EOF
	}
	n := len(w.in) - w.off
	if w.next < len(w.ends) && w.off+n > w.ends[w.next] {
		n = w.ends[w.next] - w.off
	}
	if n > len(p) {
		n = len(p)
	}
	if w.max > 0 && n > w.max {
		n = w.max
	}
	copy(p, w.in[w.off:w.off+n])
	w.off += n
	return n, nil
}

func ping(t uint32) []byte { return append(rm.U16(6), rm.U32(t)...) }

func r05(tier string) []mc.Exploration {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	type op struct {
		name string
		do   func(e *rm.Enc)
	}
	send := func(csid uint32, typ byte, n int) func(e *rm.Enc) {
		return func(e *rm.Enc) {
			if !e.Pending(csid) {
				e.Send(rm.Msg{CSID: csid, Type: typ, Data: fill(n, 3)})
			}
		}
	}
	ctl := func(typ byte, d []byte) func(e *rm.Enc) { return func(e *rm.Enc) { e.Ctl(typ, d) } }
	ops := []op{
		{"audio10", send(4, 8, 10)}, {"audio130", send(4, 8, 130)}, {"data0", send(5, 18, 0)}, {"video500", send(6, 9, 500)},
		{"window0", ctl(rm.WindowAckSize, rm.U32(0))}, {"window1", ctl(rm.WindowAckSize, rm.U32(1))}, {"window22", ctl(rm.WindowAckSize, rm.U32(22))}, {"window150", ctl(rm.WindowAckSize, rm.U32(150))},
		{"ping1", ctl(rm.UserControl, ping(1))}, {"pingmax", ctl(rm.UserControl, ping(0xfffffffe))}, {"streambegin", ctl(rm.UserControl, append(rm.U16(0), rm.U32(1)...))}, {"ack", ctl(rm.Ack, rm.U32(77))}, {"chunk40", ctl(rm.SetChunkSize, rm.U32(40))}, {"peerbw", ctl(rm.PeerBandwidth, append(rm.U32(10), 2))},
		{"partial", func(e *rm.Enc) {
			if e.Pending(9) {
				e.Cont(9, 0)
			} else {
				e.Start(rm.Msg{CSID: 9, Time: 0xffffff, Type: 9, Data: fill(300, 4)}, 0, 0)
			}
		}},
	}
	run := func(c *mc.Ctx, e *rm.Enc, what string, max int, want []rm.Msg) {
		w := newWatch(c, e.Out, 0)
		w.what = what
		w.max = max
		conn := rtmp.NewConn(w)
		conn.BypassMsgtypeid = allIDs
		err := expectRead(c, conn, visible(want), what)
		if !isEOF(err) {
			c.Fail("%s: ended with %v", what, err)
		}
		w.check()
		if w.next != len(w.ends) {
			c.Fail("%s: not everything was read", what)
		}
		c.Outcome(sprint(w.dec.Msgs))
	}
	return []mc.Exploration{
		{Name: "control-sequences", Rule: fmt.Sprintf("all sequences of 1-%d of 15 operations (media of four sizes, four acknowledgement windows, two pings, other control, chunk size, chunks of a partial message) x 3 fragment sizes: every acknowledgement, ping response and the chunk size in force compared with the model each time the reader asks for more bytes", depth),
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(depth)
				e := rm.NewEnc()
				what := ""
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					o.do(e)
					what += o.name + " "
				}
				for e.Pending(9) {
					e.Cont(9, 0)
				}
				d := rm.NewDec()
				d.Feed(e.Out)
				run(c, e, what, []int{0, 1, 3}[c.Choose(3)], d.Msgs)
				c.State(what)
				c.Sample(func() string { return what })
			}},
		{Name: "ack-window-boundaries", Rule: "every window 0-400 x message sizes 0-300 step 1 around the window, two messages: an acknowledgement after exactly the chunk that exceeds the window",
			Run: func(c *mc.Ctx) {
				win := c.Choose(401)
				n := c.Choose(61) * 5
				e := rm.NewEnc()
				e.Ctl(rm.WindowAckSize, rm.U32(uint32(win)))
				e.Send(rm.Msg{CSID: 4, Type: 8, Data: fill(n, 1)})
				e.Send(rm.Msg{CSID: 4, Type: 8, Data: fill(140, 1)})
				d := rm.NewDec()
				d.Feed(e.Out)
				run(c, e, fmt.Sprintf("window %d size %d", win, n), 0, d.Msgs)
				c.State(win, n)
			}},
		{Name: "default-window", Rule: "no window announced: 2499990-2500010 bytes received in messages of 1 MB (chunk size 65536), then small messages", AllocLimit: 512 << 20,
			Run: func(c *mc.Ctx) {
				e := rm.NewEnc()
				e.Ctl(rm.SetChunkSize, rm.U32(65536))
				e.Send(rm.Msg{CSID: 4, Type: 9, Data: fill(1000000, 1)})
				e.Send(rm.Msg{CSID: 4, Type: 9, Data: fill(1000000, 1)})
				target := 2500000 - 10 + c.Choose(21)
				n := target - len(e.Out) - 12
				n -= (n - 1) / 65536
				e.Send(rm.Msg{CSID: 4, Type: 9, Data: fill(n, 1)})
				if len(e.Out) != target {
					panic(fmt.Sprint("length ", len(e.Out)-target))
				}
				e.Send(rm.Msg{CSID: 4, Type: 9, Data: fill(3, 1)})
				d := rm.NewDec()
				d.Feed(e.Out)
				run(c, e, fmt.Sprint(target), 0, d.Msgs)
				c.State(target)
			}},
		{Name: "session-acks", Rule: "a publishing session to a server: acknowledgements counted from the first byte after the handshake, with client windows 200 and 3000 and media of 3 sizes", AllocLimit: 64 << 20,
			Run: func(c *mc.Ctx) {
				e := rm.ClientScript(true, "app", tcurl, "s")
				win := []uint32{200, 3000, 0}[c.Choose(3)]
				e.Ctl(rm.WindowAckSize, rm.U32(win))
				for i := 0; i < 4; i++ {
					e.Send(rm.Msg{CSID: 4, Type: 8, SID: 1, Data: append([]byte{0xaf, 1}, fill([]int{10, 190, 1500}[c.Choose(3)], 1)...)})
					if c.Bool() {
						e.Ctl(rm.UserControl, ping(uint32(i)))
					}
				}
				nc := &rm.NetConn{In: bytes.NewReader(e.Out)}
				serverRun(nc, func(conn *rtmp.Conn) {
					conn.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading)
					for {
						if _, err := conn.ReadTag(); err != nil {
							return
						}
					}
				})
				d := rm.NewDec()
				d.Feed(e.Out[rm.HelloLen:])
				m := replies{window: 2500000}
				j := 0
				for _, end := range d.Chunks {
					var mm *rm.Msg
					if j < len(d.Msgs) && d.Msgs[j].End == end {
						mm = &d.Msgs[j]
						j++
					}
					m.chunk(end, mm)
				}
				o := rm.NewDec()
				o.Feed(nc.Out()[rm.HelloLen:])
				var got []rm.Msg
				for _, x := range o.Msgs {
					if x.Type == rm.Ack || x.Type == rm.UserControl && x.Data[1] == 7 {
						got = append(got, x)
					}
				}
				if o.Err != nil || len(got) != len(m.out) {
					c.Fail("replies %s err %v, want %s", sprint(got), o.Err, sprint(m.out))
				}
				for i := range got {
					if got[i].Type != m.out[i].Type || !bytes.Equal(got[i].Data, m.out[i].Data) {
						c.Fail("replies %s, want %s", sprint(got), sprint(m.out))
					}
				}
				c.State(sprint(got), win)
				c.Outcome(sprint(got))
				c.Step(len(d.Msgs))
				c.Validated(1)
			}},
		{Name: "hook", Rule: "every message type 0-255 x 5 payloads x hook answers (pass, consume, fail), followed by a media message: the hook sees exactly the messages other than chunk size, abort, window size and user control, with their payloads, and decides",
			Run: func(c *mc.Ctx) {
				typ := byte(c.Choose(256))
				data := [][]byte{nil, {9}, fill(6, 8), append(fill(4, 9), fill(296, 1)...), {0, 9, 0, 0, 0, 1}}[c.Choose(5)]
				if typ == rm.SetChunkSize || typ == rm.Aggregate {
					data = rm.U32(200)
				}
				ans := c.Choose(3)
				e := rm.NewEnc()
				e.Send(rm.Msg{CSID: 7, Time: 3, Type: typ, SID: 1, Data: data})
				e.Send(rm.Msg{CSID: 4, Type: 18, Data: []byte("tail")})
				conn := reader(bytes.NewReader(e.Out))
				type call struct {
					t uint8
					d []byte
				}
				var calls []call
				boom := errors.New("hook")
				conn.HandleEvent = func(t uint8, d []byte) (bool, error) {
					calls = append(calls, call{t, append([]byte(nil), d...)})
					if t == 18 && string(d) == "tail" {
						return false, nil
					}
					switch ans {
					case 1:
						return true, nil
					case 2:
						return false, boom
					}
					return false, nil
				}
				hidden := false
				short := false
				switch typ {
				case rm.SetChunkSize, rm.WindowAckSize, rm.Abort:
					hidden = true
					short = len(data) < 4
				case rm.UserControl:
					hidden = true
					short = len(data) < 2
				case rm.Aggregate:
					hidden = true
				}
				var got []string
				var end error
				for {
					t, err := conn.ReadTag()
					if err != nil {
						end = err
						break
					}
					got = append(got, fmt.Sprint(t.Type, string(t.Data)))
				}
				var want []string
				wantCalls := 0
				switch {
				case short:
				case hidden:
					if typ == rm.UserControl {
						want = append(want, fmt.Sprint(typ, string(data)))
					}
					want = append(want, fmt.Sprint(18, "tail"))
					wantCalls = 1
				case ans == 0:
					want = []string{fmt.Sprint(typ, string(data)), fmt.Sprint(18, "tail")}
					wantCalls = 2
				case ans == 1:
					want = []string{fmt.Sprint(18, "tail")}
					wantCalls = 2
				case ans == 2:
					wantCalls = 1
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fail("type %d payload %x hook answer %d: delivered %q, want %q (end %v)", typ, data, ans, got, want, end)
				}
				if len(calls) != wantCalls {
					c.Fail("type %d payload %x: hook called %d times, want %d", typ, data, len(calls), wantCalls)
				}
				if !hidden && (calls[0].t != typ || !bytes.Equal(calls[0].d, data)) {
					c.Fail("type %d payload %x: hook saw type %d %x", typ, data, calls[0].t, calls[0].d)
				}
				if !hidden && ans == 2 && !errors.Is(end, boom) {
					c.Fail("type %d: hook error reported as %v", typ, end)
				}
				if short && isEOF(end) && len(data) > 0 {
					c.Fail("type %d payload %x: malformed control message ended with %v", typ, data, end)
				}
				c.State(typ, data, ans)
				c.Outcome(got, end)
				c.Step(2)
				c.Validated(1)
			}},
		{Name: "never-media", Rule: "every message type 0-255 x 6 payloads without any type let through: only audio, video and data messages come out as tags",
			Run: func(c *mc.Ctx) {
				typ := byte(c.Choose(256))
				data := [][]byte{rm.U32(200), {0xaf, 1, 5, 6}, {0x17, 1, 0, 0, 5, 9, 9}, ping(4), fill(200, 1), {0, 3, 0, 0, 0, 1, 0, 0, 0, 9}}[c.Choose(6)]
				if typ == rm.SetChunkSize {
					data = rm.U32(200)
				}
				hook := c.Bool()
				e := rm.NewEnc()
				e.Send(rm.Msg{CSID: 7, Time: 3, Type: typ, SID: 1, Data: data})
				e.Send(rm.Msg{CSID: 4, Type: 18, Data: []byte("tail")})
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(e.Out), Writer: nowhere{}})
				if hook {
					conn.HandleEvent = func(t uint8, d []byte) (bool, error) { return false, nil }
				}
				var got []byte
				for {
					t, err := conn.ReadTag()
					if err != nil {
						break
					}
					got = append(got, t.Type)
				}
				want := []byte{18}
				if typ == 8 || typ == 9 || typ == 15 || typ == 18 {
					want = []byte{typ, 18}
				}
				if !bytes.Equal(got, want) {
					c.Fail("type %d payload %x: delivered types %v, want %v", typ, data, got, want)
				}
				c.State(typ, data)
				c.Outcome(got)
				c.Step(2)
				c.Validated(1)
			}},
	}
}

func r06(tier string) []mc.Exploration {
	type part struct {
		typ byte
		tm  uint32
		n   int
	}
	tail := func(b []byte, p part, back bool) []byte {
		b = append(b, p.typ, byte(p.n>>16), byte(p.n>>8), byte(p.n), byte(p.tm>>16), byte(p.tm>>8), byte(p.tm), byte(p.tm>>24), 0, 0, 1)
		b = append(b, fill(p.n, byte(p.n)+p.typ)...)
		if back {
			b = append(b, rm.U32(uint32(p.n+11))...)
		}
		return b
	}
	types := []byte{9, 8, 18, 15}
	offs := []uint32{0, 40, 0xffffff, 0x1000000, 0xfffffff6}
	firsts := []uint32{0, 5000, 0xfffffff0, 0xffffff}
	aggt := []uint32{0, 100, 0xfffffff0, 0xffffff}
	sizes := []int{5, 0, 1, 130}
	np := 3
	if tier == "thorough" {
		np = 4
	}
	return []mc.Exploration{
		{Name: "parts", Rule: fmt.Sprintf("1-%d parts of 4 types x 4 sizes x offsets (incl. 24-bit boundary and backwards by wrap) x 4 first-part times x 4 aggregate times, message before and after", np),
			Run: func(c *mc.Ctx) {
				T := aggt[c.Choose(4)]
				f := firsts[c.Choose(4)]
				n := 1 + c.Choose(np)
				var b []byte
				var want []rm.Msg
				pre := rm.Msg{CSID: 4, Time: 1, Type: 8, Data: fill(3, 1)}
				post := rm.Msg{CSID: 4, Time: 2, Type: 8, Data: fill(140, 2)}
				want = append(want, pre)
				d := ""
				for i := 0; i < n; i++ {
					p := part{types[c.Choose(4-2*(i&1))], f, sizes[c.Choose(len(sizes)-i%2)]}
					off := uint32(0)
					if i > 0 {
						off = offs[c.Choose(len(offs))]
						if i > 2 && off > 40 {
							c.Prune()
						}
						p.tm = f + off
					}
					b = tail(b, p, true)
					want = append(want, rm.Msg{Type: p.typ, Time: T + off, Data: fill(p.n, byte(p.n)+p.typ)})
					d += fmt.Sprint(p)
				}
				want = append(want, post)
				e := rm.NewEnc()
				e.Send(pre)
				e.Send(rm.Msg{CSID: 6, Time: T, Type: rm.Aggregate, SID: 1, Data: b})
				e.Send(post)
				err := expectRead(c, reader(bytes.NewReader(e.Out)), want, "aggregate "+d)
				if !isEOF(err) {
					c.Fail("ended with %v", err)
				}
				c.State(T, f, d)
				c.OutcomeHash(hash([]byte(sprint(want))))
				c.Validated(1)
				c.Sample(func() string { return fmt.Sprintf("aggregate at %d: %s", T, d) })
			}},
		{Name: "compressed-headers", Rule: "up to 4 messages on one chunk stream, each an aggregate of 1-2 parts or a media message, its header of any type (0-3) that can express it, time steps equal or not: every message has the time its header says",
			Run: func(c *mc.Ctx) {
				id := []uint32{6, 4, 70}[c.Choose(3)]
				tm := []uint32{50, 0xfffffff0, 0xffffff}[c.Choose(3)]
				e := rm.NewEnc()
				var want []rm.Msg
				ag := tail(tail(nil, part{9, 10, 12}, true), part{8, 30, 3}, true)
				d := ""
				for i := 0; i < 4; i++ {
					var m rm.Msg
					switch c.Choose(3) {
					case 0:
						m = rm.Msg{CSID: id, Time: tm, Type: rm.Aggregate, Data: ag}
						want = append(want, rm.Msg{Type: 9, Time: tm, Data: fill(12, 12+9)}, rm.Msg{Type: 8, Time: tm + 20, Data: fill(3, 3+8)})
					case 1:
						m = rm.Msg{CSID: id, Time: tm, Type: rm.Aggregate, Data: ag[:11+12+4]}
						want = append(want, rm.Msg{Type: 9, Time: tm, Data: fill(12, 12+9)})
					case 2:
						m = rm.Msg{CSID: id, Time: tm, Type: 9, Data: fill(len(ag), byte(i))}
						want = append(want, m)
					}
					h := c.Choose(4)
					if !e.Legal(m, h) {
						c.Prune()
					}
					e.Start(m, h, 0)
					for e.Pending(id) {
						e.Cont(id, 0)
					}
					d += fmt.Sprintf(" type %d at %d header %d", m.Type, m.Time, h)
					tm += []uint32{40, 7}[c.Choose(2)]
				}
				err := expectRead(c, reader(bytes.NewReader(e.Out)), want, d)
				if !isEOF(err) {
					c.Fail("ended with %v", err)
				}
				c.State(id, d)
				c.OutcomeHash(hash([]byte(sprint(want))))
				c.Validated(1)
			}},
		{Name: "truncated", Rule: "aggregates of 3 parts cut at every byte, two in a row, in whole or interleaved with another stream's chunks: complete parts only, later messages intact",
			Run: func(c *mc.Ctx) {
				var b []byte
				ps := []part{{9, 10, 20}, {8, 30, 0}, {18, 40, 140}}
				var ends []int
				for _, p := range ps {
					b = tail(b, p, true)
					ends = append(ends, len(b))
				}
				cut := c.Choose(len(b) + 1)
				il := c.Choose(3)
				rd := []int{0, 1, 7}[c.Choose(3)]
				var parts []rm.Msg
				for i, p := range ps {
					if ends[i] <= cut {
						parts = append(parts, rm.Msg{Type: p.typ, Time: 0xfffffff8 + p.tm - 10, Data: fill(p.n, byte(p.n)+p.typ)})
					}
				}
				ag := rm.Msg{CSID: 6, Time: 0xfffffff8, Type: rm.Aggregate, SID: 1, Data: b[:cut]}
				other := rm.Msg{CSID: 4, Time: 2, Type: 8, Data: fill(200, 2)}
				e := rm.NewEnc()
				var want []rm.Msg
				switch il {
				case 0:
					e.Send(ag)
					e.Send(ag)
					e.Send(other)
					want = append(append(append(want, parts...), parts...), other)
				case 1:
					e.Start(other, 0, 0)
					e.Send(ag)
					e.Cont(4, 0)
					e.Send(ag)
					want = append(append(append(want, parts...), other), parts...)
				case 2:
					e.Start(ag, 0, 0)
					e.Send(other)
					for e.Pending(6) {
						e.Cont(6, 0)
					}
					if cut <= 128 {
						want = append(append(want, parts...), other)
					} else {
						want = append(append(want, other), parts...)
					}
				}
				err := expectRead(c, reader(&memio.FragReader{Data: e.Out, Max: rd}), want, fmt.Sprintf("aggregate cut at %d of %d", cut, len(b)))
				if !isEOF(err) {
					c.Fail("ended with %v", err)
				}
				c.State(cut, il)
				c.Outcome(cut, len(parts), il)
				c.Validated(1)
			}},
		{Name: "hook-and-control-parts", Rule: "aggregates whose parts are media, commands, pings, set-chunk-size or unknown types, with and without a consuming hook, read as tags and as raw messages: same treatment as unaggregated messages",
			Run: func(c *mc.Ctx) {
				var b []byte
				kinds := []struct {
					typ byte
					d   []byte
				}{{9, []byte{0x17, 1, 0, 0, 0, 1, 2}}, {8, []byte{0xaf, 1, 3}}, {20, rm.AMF0("x", 1)}, {4, ping(9)}, {1, rm.U32(50)}, {99, []byte{1}}, {18, rm.AMF0("onMetaData")}}
				raw := c.Bool()
				hook := c.Choose(3)
				e := rm.NewEnc()
				flat := rm.NewEnc()
				n := 1 + c.Choose(3)
				tms := []uint32{7, 7, 27}
				for i := 0; i < n; i++ {
					k := kinds[c.Choose(len(kinds))]
					b = append(b, k.typ, 0, 0, byte(len(k.d)), 0, 0, byte(tms[i]), 0, 0, 0, 0)
					b = append(b, k.d...)
					b = append(b, rm.U32(uint32(len(k.d)+11))...)
					flat.Send(rm.Msg{CSID: 5, Time: 100 + tms[i] - tms[0], Type: k.typ, Data: k.d})
				}
				e.Send(rm.Msg{CSID: 5, Time: 100, Type: rm.Aggregate, Data: b})
				run := func(in []byte, after func(*rm.Enc)) (out []string) {
					x := rm.NewEnc()
					x.Out = in
					var buf bytes.Buffer
					conn := rtmp.NewConn(rw{Reader: bytes.NewReader(in), Writer: &buf})
					if raw {
						conn.BypassMsgtypeid = allIDs
					}
					if hook > 0 {
						conn.HandleEvent = func(t uint8, d []byte) (bool, error) {
							out = append(out, fmt.Sprint("hook", t, d))
							return hook == 2 && t == 20, nil
						}
					}
					for {
						t, err := conn.ReadTag()
						if err != nil {
							out = append(out, fmt.Sprint("end", isEOF(err)))
							break
						}
						out = append(out, st(t))
					}
					return append(out, fmt.Sprintf("%x size %d", buf.Bytes(), conn.ReadMaxChunkSize))
				}
				a, f := fmt.Sprint(run(e.Out, nil)), fmt.Sprint(run(flat.Out, nil))
				if a != f {
					c.Fail("aggregated: %s\nseparately: %s", a, f)
				}
				c.State(b, raw, hook)
				c.Outcome(a)
				c.Step(2 * n)
				c.Validated(1)
			}},
	}
}
