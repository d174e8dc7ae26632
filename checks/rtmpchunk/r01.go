package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

const nkind = 8

// kind makes a tag of one of the kinds; variant picks header field values.
func kind(k, size int, tm uint32, ct int32) flvio.Tag {
	t := flvio.Tag{Time: tm, Data: fill(size, byte(k*37+size))}
	switch k {
	case 0:
		t.Type, t.VideoFormat, t.FrameType, t.AVCPacketType, t.CTime = rm.Video, 7, 1, 1, ct
	case 1:
		t.Type, t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType, t.AACPacketType = rm.Audio, 10, 3, 1, 1, 1
	case 2:
		t.Type = rm.DataAMF0
	case 3:
		t.Type, t.VideoFormat, t.FrameType, t.AVCPacketType, t.CTime = rm.Video, 12, 2, 0, ct
	case 4:
		t.Type, t.SoundFormat, t.SoundRate = rm.Audio, 2, 2
	case 5:
		t.Type, t.VideoFormat, t.FrameType = rm.Video, 2, 3
	case 6:
		t.Type = rm.DataAMF3
	case 7:
		t.Type, t.SoundFormat, t.SoundType, t.AACPacketType = rm.Audio, 10, 1, 0
	}
	return t
}

var times = []uint32{0, 0xffffff, 0xfffffe, 0x1000000, 0xffffffff, 0x80000000, 40}

func hdrlen(t flvio.Tag) int { return len(body(t)) - len(t.Data) }

func r01(tier string) []mc.Exploration {
	maxSize := 520
	depth := 3
	nalpha := 22
	if tier == "thorough" {
		maxSize = 1100
		depth = 4
		nalpha = 27
	}
	var alpha []flvio.Tag
	for _, x := range []struct {
		k, size int
		tm      uint32
		ct      int32
	}{{0, 10, 0, 0}, {1, 5, 0, 0}, {2, 7, 0, 0}, {0, 123, 40, -1}, {1, 126, 0xffffff, 0}, {2, 128, 0xfffffe, 0}, {0, 0, 0x1000000, 0x7fffff},
		{1, 0, 0xffffffff, 0}, {2, 0, 0xffffffff, 0}, {0, 300, 0xffffff, -0x800000}, {1, 254, 0x1000000, 0}, {2, 256, 5, 0}, {3, 124, 0xfffffe, 1}, {4, 127, 7, 0}, {5, 127, 0xffffff, 0}, {6, 129, 0x7fffffff, 0}, {7, 2, 3, 0}, {0, 251, 0x80000000, 0}, {5, 0, 0, 0}, {4, 0, 1, 0}, {3, 1, 0xffffffff, -2}, {6, 1, 0, 0},
		{0, 700, 0xffffff, 0}, {1, 382, 0x1000001, 0}, {2, 384, 0xffffff, 0}, {7, 127, 0xfffffffe, 0}, {3, 379, 9, 9}} {
		alpha = append(alpha, kind(x.k, x.size, x.tm, x.ct))
	}
	alpha = alpha[:nalpha]
	big := []int{}
	for _, m := range []int{65536, 131072, 196608} {
		for d := -7; d <= 2; d++ {
			big = append(big, m+d)
		}
	}
	small := []int{0, 1, 122, 123, 127, 128, 129, 4090, 4096, 8192}
	return []mc.Exploration{
		{Name: "size-sweep", Rule: fmt.Sprintf("8 tag kinds x every payload length 0-%d x 5 timestamps, each followed by another kind: written, decoded independently, read back", maxSize),
			Run: func(c *mc.Ctx) {
				k := c.Choose(nkind)
				tm := times[c.Choose(5)]
				n := c.Choose(maxSize + 1)
				checkTags(c, []flvio.Tag{kind(k, n, tm, 77), kind((k+1)%3, 9, 1, -77)})
				c.State(k, tm, n)
				c.Sample(func() string { return st(kind(k, n, tm, 77)) })
			}},
		{Name: "sequences", Rule: fmt.Sprintf("all sequences of 1-%d tags over %d tags of all kinds with boundary lengths, timestamps and composition times", depth, nalpha),
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(depth)
				var tags []flvio.Tag
				for i := 0; i < n; i++ {
					k := c.Choose(nalpha)
					tags = append(tags, alpha[k])
				}
				checkTags(c, tags)
				c.State(stl(tags))
				c.Sample(func() string { return stl(tags) })
			}},
		{Name: "header-fields", Rule: "every audio header byte x packet type, and every frame type x codec x packet type x 9 composition times",
			Run: func(c *mc.Ctx) {
				t := flvio.Tag{Data: []byte{1, 2, 3}, Time: 9}
				if c.Bool() {
					f := c.Choose(256)
					t.Type, t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType = rm.Audio, uint8(f>>4), uint8(f>>2)&3, uint8(f>>1)&1, uint8(f)&1
					if t.SoundFormat == 10 {
						t.AACPacketType = []uint8{0, 1, 2, 255}[c.Choose(4)]
					}
				} else {
					f := c.Choose(256)
					t.Type, t.FrameType, t.VideoFormat = rm.Video, uint8(f>>4), uint8(f&15)
					if t.VideoFormat == 7 || t.VideoFormat == 12 {
						t.AVCPacketType = []uint8{0, 1, 2, 3, 255}[c.Choose(5)]
						t.CTime = []int32{0, 1, -1, 0x7fffff, -0x800000, 255, 256, 65536, -65537}[c.Choose(9)]
					}
				}
				checkTags(c, []flvio.Tag{t, kind(2, 3, 0, 0)})
				c.State(st(t))
			}},
		{Name: "session-chunk-size", Rule: fmt.Sprintf("the chunk size negotiated by a session (65536) in all four roles: 3 tag kinds x lengths around 1-3 chunk boundaries and %d small ones x 4 timestamps x following tag; server and client write (decoded independently, chunk size checked) and read back by the other end", len(small)), AllocLimit: 1 << 30,
			Run: func(c *mc.Ctx) {
				// publish: the client writes; else the server writes
				publish := c.Bool()
				k := c.Choose(3)
				tm := times[c.Choose(4)]
				i := c.Choose(len(small) + len(big))
				n := 0
				if i < len(small) {
					n = small[i]
				} else {
					n = big[i-len(small)]
				}
				tags := []flvio.Tag{kind(k, n, tm, 5), kind((k+1+c.Choose(2))%3, 300, 0xffffff, -5)}
				var out []byte
				write := func(conn *rtmp.Conn) {
					if err := conn.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
						c.Fail("prepare: %v", err)
					}
					for _, t := range tags {
						if err := conn.WriteTag(t); err != nil {
							c.Fail("write: %v", err)
						}
					}
					// fill the output buffer so that everything before is out
					conn.WriteTag(kind(2, 5000, 0, 0))
				}
				nc := &rm.NetConn{}
				if publish {
					nc.In = bytes.NewReader(rm.ServerScript(true, 1).Out)
					conn, err := clientRun(nc, rtmp.PrepareWriting)
					if err != nil {
						c.Fail("client setup: %v", err)
					}
					write(conn)
				} else {
					nc.In = bytes.NewReader(rm.ClientScript(false, "app", tcurl, "s").Out)
					if !serverRun(nc, write) {
						c.Fail("server setup failed")
					}
				}
				out = nc.Out()
				d := rm.NewDec()
				d.Feed(out[rm.HelloLen:])
				if d.Err != nil {
					c.Fail("bytes written are not a well-formed chunk stream: %v", d.Err)
				}
				if d.Size != 65536 {
					c.Fail("chunk size %d", d.Size)
				}
				var ms []rm.Msg
				for _, m := range d.Msgs {
					if m.Type != rm.CmdAMF0 && m.Type > 6 {
						ms = append(ms, m)
					}
				}
				if len(ms) < 2 {
					c.Fail("only %d media messages", len(ms))
				}
				ms = ms[:2]
				for i, m := range ms {
					t := tags[i]
					if m.Type != t.Type || m.Time != t.Time || !bytes.Equal(m.Data, body(t)) {
						c.Fail("an independent decoder reads message %d as %v, tag was %s", i, m, st(t))
					}
				}
				c.Validated(2)
				back := &rm.NetConn{In: bytes.NewReader(out)}
				got := func(conn *rtmp.Conn) {
					for i, t := range tags {
						g, err := conn.ReadTag()
						if err != nil || !sameTag(g, t) {
							c.Fail("tag %d read back as %s (%v), written %s", i, st(g), err, st(t))
						}
						c.Step(1)
					}
				}
				if publish {
					if !serverRun(back, got) {
						c.Fail("server did not accept the client's bytes")
					}
				} else {
					conn, err := clientRun(back, rtmp.PrepareReading)
					if err != nil {
						// the script of a player is independent of its commands' ids
						c.Fail("client did not accept the server's bytes: %v", err)
					}
					got(conn)
				}
				c.State(publish, k, tm, n)
				c.Outcome(publish, n, len(d.Chunks))
			}},
		{Name: "large", Rule: "messages at the 4 MiB limit (delivered) and beyond the 24-bit length field (refused without output), 3 kinds", AllocLimit: 1 << 30,
			Run: func(c *mc.Ctx) {
				k := c.Choose(3)
				hl := hdrlen(kind(k, 0, 0, 0))
				switch i := c.Choose(5); i {
				case 0, 1:
					checkTags(c, []flvio.Tag{kind(k, 4<<20-hl-i, 0xffffff, 0), kind(k, 3, 1, 0)})
				default:
					var buf bytes.Buffer
					w := rtmp.NewConn(rw{Reader: bytes.NewReader(nil), Writer: &buf})
					n := 0xffffff - hl + i - 2
					err := w.WriteTag(kind(k, n, 0, 0))
					if i > 2 {
						if err == nil {
							c.Fail("a message of %d bytes was accepted for writing although its length cannot be expressed", n+hl)
						}
						if buf.Len() != 0 {
							c.Fail("%d bytes of a refused message were written", buf.Len())
						}
					} else {
						if err != nil {
							c.Fail("message of %d bytes: %v", n+hl, err)
						}
						d := rm.NewDec()
						d.Feed(buf.Bytes())
						decodedTags(c, d, d.Msgs, []flvio.Tag{kind(k, n, 0, 0)})
					}
				}
				c.State(c)
			}},
		{Name: "interleaved-use", Rule: "one connection written and read alternately: all orders of 2 written tags, 2 control events and 2 reads", Run: func(c *mc.Ctx) {
			e := rm.NewEnc()
			in := []flvio.Tag{kind(0, 200, 0xffffff, 3), kind(1, 130, 0x1000000, 0)}
			for i, t := range in {
				e.Send(rm.Msg{CSID: uint32(4 + i), Time: t.Time, Type: t.Type, SID: 1, Data: body(t)})
				e.Ctl(rm.UserControl, append(rm.U16(6), rm.U32(uint32(i))...))
			}
			tail := kind(2, 2, 0, 0)
			e.Send(rm.Msg{CSID: 8, Type: tail.Type, Data: tail.Data})
			var buf bytes.Buffer
			conn := rtmp.NewConn(rw{Reader: io.MultiReader(bytes.NewReader(e.Out)), Writer: &buf})
			outT := []flvio.Tag{kind(0, 129, 0x1000000, -3), kind(2, 257, 3, 0)}
			var want []rm.Msg
			w, r, v := 0, 0, 0
			for w+r+v < 6 {
				switch c.Choose(3) {
				case 0:
					if w == 2 {
						c.Prune()
					}
					if err := conn.WriteTag(outT[w]); err != nil {
						c.Fail("write: %v", err)
					}
					want = append(want, rm.Msg{Time: outT[w].Time, Type: outT[w].Type, Data: body(outT[w])})
					w++
				case 1:
					if r == 2 {
						c.Prune()
					}
					g, err := conn.ReadTag()
					if err != nil || !sameTag(g, in[r]) {
						c.Fail("read %s err %v want %s", st(g), err, st(in[r]))
					}
					if r == 1 {
						want = append(want, rm.Msg{Type: rm.UserControl, Data: append(rm.U16(7), rm.U32(0)...)})
					}
					r++
				case 2:
					if v == 2 {
						c.Prune()
					}
					d := fill(3+v*130, 9)
					if err := conn.WriteEvent(20, d); err != nil {
						c.Fail("event: %v", err)
					}
					want = append(want, rm.Msg{Type: 20, Data: d})
					v++
				}
				c.Step(1)
			}
			d := rm.NewDec()
			d.Feed(buf.Bytes())
			if d.Err != nil || d.Partial() || len(d.Msgs) != len(want) {
				c.Fail("output %s err %v, want %s", sprint(d.Msgs), d.Err, sprint(want))
			}
			for i, m := range d.Msgs {
				if m.Type != want[i].Type || m.Time != want[i].Time || !bytes.Equal(m.Data, want[i].Data) {
					c.Fail("output %v, want %v", m, want[i])
				}
			}
			c.Validated(len(want))
			c.Outcome(sprint(want))
			c.State(sprint(want), w, r, v)
		}},
	}
}
