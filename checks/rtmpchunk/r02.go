package main

import (
	"bytes"
	"fmt"

	"github.com/nareix/joy5/format/rtmp"
	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

func readBack(c *mc.Ctx, e *rm.Enc, want []rm.Msg) {
	d := rm.NewDec()
	if !e.OmitExt {
		// the stream the model produced is legal by the model decoder, too
		d.Feed(e.Out)
		if d.Err != nil {
			panic(fmt.Sprintf("model encoder/decoder disagree: %v", d.Err))
		}
	}
	conn := reader(bytes.NewReader(e.Out))
	err := expectRead(c, conn, visible(want), "legal chunk stream")
	if !isEOF(err) {
		c.Fail("after the last message: %v", err)
	}
	c.StateHash(hash(e.Out))
	c.OutcomeHash(hash([]byte(sprint(want))))
	c.Validated(len(want))
	c.Sample(func() string { return fmt.Sprintf("%s as %x", sprint(want), cut(e.Out, 120)) })
}

func cut(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (p plan) run(c *mc.Ctx, e *rm.Enc) (done []rm.Msg) {
	// interleave the messages of the streams chunk by chunk
	next := make([]int, len(p.streams))
	cur := make([]rm.Msg, len(p.streams))
	for {
		var can []int
		for i, s := range p.streams {
			if next[i] < len(s) || e.Pending(p.csid[i]) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			return
		}
		i := can[c.Choose(len(can))]
		id := p.csid[i]
		if e.Pending(id) {
			e.Cont(id, p.form[i])
		} else {
			m := p.streams[i][next[i]]
			m.CSID = id
			next[i]++
			cur[i] = m
			var hs []int
			for h := 0; h < 4; h++ {
				if e.Legal(m, h) {
					hs = append(hs, h)
				}
			}
			// the most compressed header first
			h := hs[len(hs)-1-c.Choose(len(hs))]
			e.Start(m, h, p.form[i])
		}
		if !e.Pending(id) {
			done = append(done, cur[i])
		}
		c.Step(1)
	}
}

type plan struct {
	csid    []uint32
	form    []int
	streams [][]rm.Msg
}

func r02(tier string) []mc.Exploration {
	thorough := tier == "thorough"
	msg := func(tm uint32, typ byte, n int, seed byte) rm.Msg {
		return rm.Msg{Time: tm, Type: typ, SID: 1, Data: fill(n, seed)}
	}
	deltas := []uint32{40, 0, 0xfffffe, 0xffffff, 0x1000000}
	starts := []uint32{0, 0xffffff, 0xffffffc0, 1000}
	lens := []int{10, 0, 128, 129, 300}
	nm := 3
	if thorough {
		nm = 4
	}
	return []mc.Exploration{
		{Name: "header-compression", Rule: fmt.Sprintf("%d messages on one chunk stream: 4 start times x 5 timestamp deltas (with 32-bit wrap) x same or changed length and type x stream id x every legal header type", nm),
			Run: func(c *mc.Ctx) {
				e := rm.NewEnc()
				tm := starts[c.Choose(len(starts))]
				n := lens[c.Choose(len(lens))]
				m := msg(tm, 8, n, 1)
				m.CSID = 5
				ms := []rm.Msg{m}
				send := func(m rm.Msg, h int) {
					e.Start(m, h, 0)
					for e.Pending(5) {
						e.Cont(5, 0)
					}
				}
				send(m, 0)
				d := uint32(0)
				for i := 1; i < nm; i++ {
					prev := m
					switch j := c.Choose(len(deltas) + 1); {
					case j < len(deltas):
						d = deltas[j]
						m.Time = prev.Time + d
					default:
						// the same delta again
						if i == 1 {
							c.Prune()
						}
						m.Time = prev.Time + d
					}
					switch c.Choose(4) {
					case 1:
						m.Type = 9
					case 2:
						n = lens[(c.Choose(len(lens)-1)+i)%len(lens)]
					case 3:
						m.SID++
					}
					m.Data = fill(n, byte(i*16))
					h := c.Choose(4)
					if !e.Legal(m, h) {
						c.Prune()
					}
					send(m, h)
					ms = append(ms, m)
					c.Step(1)
				}
				readBack(c, e, ms)
			}},
		{Name: "interleaving", Rule: "2-3 chunk streams with messages of 1-3 chunks (chunk size 128, normal and extended timestamps), every interleaving at chunk boundaries and every legal header type for each message start",
			Run: func(c *mc.Ctx) {
				e := rm.NewEnc()
				var p plan
				switch k := c.Choose(4); k {
				case 0:
					p = plan{[]uint32{4, 6}, []int{0, 0}, [][]rm.Msg{{msg(0, 8, 10, 1), msg(40, 8, 10, 2)}, {msg(10, 9, 300, 3), msg(50, 9, 300, 4)}}}
				case 1:
					p = plan{[]uint32{4, 70, 400}, []int{0, 0, 0}, [][]rm.Msg{{msg(0, 8, 129, 1)}, {msg(0xffffff, 9, 300, 2)}, {msg(0x1000000, 18, 256, 3)}}}
				case 2:
					p = plan{[]uint32{3, 4}, []int{0, 0}, [][]rm.Msg{{msg(0xfffffff0, 8, 256, 1), msg(0x10, 8, 256, 2)}, {msg(0x1000000, 9, 257, 3), msg(0x1000000, 9, 1, 4)}}}
				case 3:
					p = plan{[]uint32{2, 5, 6}, []int{0, 0, 0}, [][]rm.Msg{{msg(0, 3, 4, 1)}, {msg(7, 9, 385, 2)}, {msg(8, 8, 0, 3), msg(8, 8, 130, 5)}}}
				}
				e.OmitExt = c.Bool()
				ms := p.run(c, e)
				if e.OmitExt {
					// so that the reader can look ahead
					t := msg(1, 18, 8, 9)
					t.CSID = 7
					e.Send(t)
					ms = append(ms, t)
				}
				readBack(c, e, ms)
			}},
		{Name: "csid-forms", Rule: "pairs of 14 chunk stream ids in every basic header form (also switching form for continuation chunks), two 2-chunk messages interleaved in every order",
			Run: func(c *mc.Ctx) {
				ids := []uint32{2, 3, 63, 64, 65, 66, 319, 320, 321, 575, 576, 16448, 16704, 65599}
				a := ids[c.Choose(len(ids))]
				b := ids[c.Choose(len(ids))]
				if a == b {
					c.Prune()
				}
				form := func(id uint32) int {
					switch {
					case id < 64:
						return 1
					case id < 320:
						return 2 + c.Choose(2)
					}
					return 3
				}
				e := rm.NewEnc()
				p := plan{[]uint32{a, b}, []int{form(a), form(b)}, [][]rm.Msg{{msg(1, 8, 130, 1), msg(2, 8, 130, 2)}, {msg(5, 9, 129, 3)}}}
				ms := p.run(c, e)
				readBack(c, e, ms)
			}},
		{Name: "chunk-size-changes", Rule: "two streams with messages of 0-700 bytes; set-chunk-size (12 sizes from 1 to 2^31-1) inserted at up to two of all chunk boundaries, between messages and between the chunks of one",
			Run: func(c *mc.Ctx) {
				sizes := []int{1, 2, 127, 128, 129, 200, 255, 256, 4096, 65536, 0xffffff, 0x7fffffff}
				e := rm.NewEnc()
				var ms []rm.Msg
				n := []int{0, 130, 700}[c.Choose(3)]
				tm := []uint32{0, 0xffffff}[c.Choose(2)]
				cand := []rm.Msg{msg(tm, 9, n, 1), msg(tm+1, 8, 260, 2)}
				cand[0].CSID, cand[1].CSID = 6, 4
				left := 2
				change := func() {
					if left > 0 && c.Bool() {
						left--
						k := c.Choose(len(sizes))
						if !thorough && left == 0 && k%2 == 1 {
							c.Prune()
						}
						s := rm.Msg{CSID: 2, Type: rm.SetChunkSize, Data: rm.U32(uint32(sizes[k]))}
						e.Send(s)
						ms = append(ms, s)
					}
				}
				i := 0
				for k := 0; i < 2 || e.Pending(6) || e.Pending(4); k++ {
					change()
					switch {
					case i < 2:
						e.Start(cand[i], 0, 0)
						if !e.Pending(cand[i].CSID) {
							ms = append(ms, cand[i])
						}
						i++
					case e.Pending(6):
						e.Cont(6, 0)
						if !e.Pending(6) {
							ms = append(ms, cand[0])
						}
					default:
						e.Cont(4, 0)
						if !e.Pending(4) {
							ms = append(ms, cand[1])
						}
					}
					if k > 8 {
						// after the interesting prefix just finish
						left = 0
					}
					c.Step(1)
				}
				readBack(c, e, ms)
			}},
		{Name: "extended-timestamps", Rule: "one message with extended timestamp or delta x 6 values x every length 0-400 x chunk sizes 128, 1, 5 x repeated or omitted on continuation chunks x payload patterns, followed by compressed and full messages or by nothing",
			Run: func(c *mc.Ctx) {
				tms := []uint32{0xffffff, 0x1000000, 0x80000000, 0xffffffff, 0x01020304}
				tm := tms[c.Choose(len(tms))]
				n := c.Choose(401)
				e := rm.NewEnc()
				e.OmitExt = c.Bool()
				sz := []int{128, 5, 1}[c.Choose(3)]
				if sz < 5 && (n > 40 || e.OmitExt) {
					c.Prune()
				}
				var ms []rm.Msg
				if sz != 128 {
					s := rm.Msg{CSID: 2, Type: rm.SetChunkSize, Data: rm.U32(uint32(sz))}
					e.Send(s)
					ms = append(ms, s)
				}
				delta := c.Bool()
				a := msg(3, 9, n, 1)
				a.CSID = 6
				if delta {
					e.Send(a)
					ms = append(ms, a)
				}
				b := msg(tm, 9, n, byte(c.Choose(2)*0xaa))
				b.CSID = 6
				if delta {
					b.Time = a.Time + tm
				}
				h := 0
				if delta {
					h = 1 + c.Choose(2)
				}
				e.Start(b, h, 0)
				for e.Pending(6) {
					e.Cont(6, 0)
				}
				ms = append(ms, b)
				if delta && !e.OmitExt && c.Bool() {
					b2 := b
					b2.Time += tm
					e.Start(b2, 3, 0)
					for e.Pending(6) {
						e.Cont(6, 0)
					}
					ms = append(ms, b2)
				}
				if c.Bool() {
					// nothing follows: the end of the last chunk is all there is
					// to tell an omitted timestamp from a repeated one
					if last := ms[len(ms)-1].Data; e.OmitExt && len(last) > sz {
						last = last[(len(last)-1)/sz*sz:]
						if len(last) < 4 && bytes.HasPrefix(rm.U32(tm), last) {
							c.Prune()
						}
					}
					readBack(c, e, ms)
					return
				}
				t := b
				t.Time += 5
				t.Data = fill(12, 7)
				e.Start(t, 1, 0)
				for e.Pending(6) {
					e.Cont(6, 0)
				}
				ms = append(ms, t)
				// omitted timestamps must not be mistaken for payload that repeats them
				readBack(c, e, ms)
			}},
		{Name: "abort", Rule: "an abort message at any chunk boundary of a message on either stream (also for idle and unknown streams), the stream then reused with a full header, or with 1-2 messages whose headers leave out fields the aborted message set",
			Run: func(c *mc.Ctx) {
				e := rm.NewEnc()
				var ms []rm.Msg
				a, b := msg(1, 9, 300, 1), msg(2, 8, 300, 2)
				a.CSID, b.CSID = 6, 4
				ord := c.Choose(2)
				k := c.Choose(4)
				start := []rm.Msg{a, b}
				if ord == 1 {
					start = []rm.Msg{b, a}
				}
				e.Start(start[0], 0, 0)
				e.Start(start[1], 0, 0)
				for i := 0; i < k; i++ {
					id := start[c.Choose(2)].CSID
					if e.Pending(id) {
						e.Cont(id, 0)
						if !e.Pending(id) {
							ms = append(ms, map[uint32]rm.Msg{6: a, 4: b}[id])
						}
					} else {
						c.Prune()
					}
				}
				ab := []uint32{6, 4, 9, 2}[c.Choose(4)]
				e.Ctl(rm.Abort, rm.U32(ab))
				e.Drop(ab)
				x := msg(9, 18, 140, 3)
				x.CSID = ab
				if ab == 2 {
					x.CSID = 9
				}
				switch k := c.Choose(5); k {
				case 1:
					e.Send(x)
					ms = append(ms, x)
				case 2, 3, 4:
					// a header that leaves out what the aborted message's said
					y := map[uint32]rm.Msg{6: a, 4: b}[ab]
					if y.CSID == 0 {
						c.Prune()
					}
					y.Time += 30
					y.Data = fill(300, 9)
					if k != 3 {
						y.Data = fill(290, 9)
					}
					h := 1
					if k == 3 {
						h = 2
					}
					if !e.Legal(y, h) {
						c.Prune()
					}
					for n := 0; n < 1+(k-2)%2+(k-2)/2; n++ {
						e.Start(y, h, 0)
						for e.Pending(ab) {
							e.Cont(ab, 0)
						}
						ms = append(ms, y)
						y.Time += 30
						if h = 3; !e.Legal(y, h) {
							h = 2
						}
					}
				}
				for _, m := range start {
					if e.Pending(m.CSID) && m.CSID != ab {
						for e.Pending(m.CSID) {
							e.Cont(m.CSID, 0)
						}
						ms = append(ms, m)
					}
				}
				e.Send(x)
				ms = append(ms, x)
				readBack(c, e, ms)
			}},
		{Name: "many-streams", Rule: "1-16 chunk streams, all with a partial message at once, completed in 5 orders with 2 chunk sizes",
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(16)
				form := c.Choose(3)
				e := rm.NewEnc()
				var ms, all []rm.Msg
				for i := 0; i < n; i++ {
					m := msg([]uint32{5, 0xffffff}[i%2], 9, 100+i*60, byte(i))
					m.CSID = []uint32{uint32(2 + i), uint32(64 + i*8), uint32(320 + i*256)}[form]
					all = append(all, m)
					e.Start(m, 0, 0)
					if !e.Pending(m.CSID) {
						ms = append(ms, m)
					}
				}
				step := []int{1, 3, 5, 7, n - 1}[c.Choose(5)]
				if step < 1 {
					step = 1
				}
				pend := func() (k int) {
					for _, m := range all {
						if e.Pending(m.CSID) {
							k++
						}
					}
					return
				}
				for i := 0; pend() > 0; i += step {
					m := all[i%n]
					for j := 1; !e.Pending(m.CSID); j++ {
						m = all[(i+j)%n]
					}
					e.Cont(m.CSID, 0)
					if !e.Pending(m.CSID) {
						ms = append(ms, m)
					}
					c.Step(1)
				}
				readBack(c, e, ms)
			}},
		{Name: "short-media", Rule: "all sequences of 4 of 10 audio and video messages, complete ones and ones cut anywhere in the media header, without any type let through, x hook set or not: the complete ones come out, the others are passed over",
			Run: func(c *mc.Ctx) {
				alphabet := []struct {
					typ  byte
					data []byte
					n    int // length of the media header
				}{
					{8, []byte{0xaf, 1, 5, 6}, 2}, {9, []byte{0x17, 1, 0, 0, 5, 9, 9}, 5}, {8, []byte{0x2f}, 1}, {9, []byte{0x17, 2, 0, 0, 0}, 5},
					{8, nil, 2}, {9, nil, 5}, {8, []byte{0xaf}, 2}, {9, []byte{0x27}, 5}, {9, []byte{0x27, 1}, 5}, {9, []byte{0x17, 1, 0, 0}, 5},
				}
				hook := c.Bool()
				e := rm.NewEnc()
				var want []string
				d := ""
				for i := 0; i < 4; i++ {
					k := c.Choose(len(alphabet))
					a := alphabet[k]
					e.Send(rm.Msg{CSID: uint32(4 + a.typ), Time: uint32(i), Type: a.typ, SID: 1, Data: a.data})
					if len(a.data) >= a.n {
						want = append(want, fmt.Sprintf("%d@%d %x", a.typ, i, a.data[a.n:]))
					}
					d += fmt.Sprintf(" %d:%x", a.typ, a.data)
					c.Step(1)
				}
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(e.Out), Writer: nowhere{}})
				if hook {
					conn.HandleEvent = func(t uint8, d []byte) (bool, error) { return false, nil }
				}
				var got []string
				for {
					t, err := conn.ReadTag()
					if err != nil {
						if !isEOF(err) {
							c.Fail("messages%s: the stream ends with %v, after %v", d, err, got)
						}
						break
					}
					got = append(got, fmt.Sprintf("%d@%d %x", t.Type, t.Time, t.Data))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fail("messages%s: delivered %v, want %v", d, got, want)
				}
				c.State(d)
				c.Outcome(got)
				c.Validated(4)
			}},
	}
}
