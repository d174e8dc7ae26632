package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

// Histories far longer than what can be enumerated: what counts messages,
// bytes or milliseconds goes over the ends of its range.

func r01long() mc.Exploration {
	return mc.Exploration{Name: "long", Rule: "70000 tags on one connection, 3 rules for kinds, lengths and timestamps (around the extended form, and through the 32-bit wrap)", AllocLimit: 1 << 30, Run: func(c *mc.Ctx) {
		rule := c.Choose(3)
		var tags []flvio.Tag
		tm := []uint32{0, 0xffffff - 20000, 0xffffffff - 500000}[rule]
		for i := 0; i < 70000; i++ {
			tags = append(tags, kind((i*(rule+1)+i/7)%nkind, (i*5+i/256)%(23+rule*40), tm, int32(i%900)-450))
			tm += []uint32{40, 1, 33}[rule]
		}
		checkTags(c, tags)
		c.State(rule)
		c.Outcome(rule, len(tags))
	}}
}

func r02long() mc.Exploration {
	return mc.Exploration{Name: "long", Rule: "70000 messages on 1 or 16 chunk streams, with the most compressed legal header or each legal header in turn, constant or changing deltas, through the 32-bit wrap", AllocLimit: 1 << 30, Run: func(c *mc.Ctx) {
		ns := []int{1, 16}[c.Choose(2)]
		turn := c.Bool()
		delta := []uint32{40, 0x11111, 0x1000001}[c.Choose(3)]
		vary := c.Bool()
		e := rm.NewEnc()
		var ms []rm.Msg
		tm := make([]uint32, ns)
		for i := 0; i < 70000; i++ {
			k := i % ns
			n := 9
			if vary {
				n = (i / 100) % 260
			}
			m := rm.Msg{CSID: uint32(3 + k*11), Time: tm[k], Type: 8 + byte(k&1), SID: 1, Data: fill(n, byte(i))}
			h := 3
			if turn {
				h = i / 3 % 4
			}
			for !e.Legal(m, h) {
				h--
			}
			e.Start(m, h, 0)
			for e.Pending(m.CSID) {
				e.Cont(m.CSID, 0)
			}
			ms = append(ms, m)
			tm[k] += delta
			if vary {
				tm[k] += uint32(i / 50 % 3)
			}
		}
		c.Logf("%d streams, headers in turn %v, delta %d, varying %v", ns, turn, delta, vary)
		err := expectReadShort(c, reader(bytes.NewReader(e.Out)), ms)
		if !isEOF(err) {
			c.Fail("after the last message: %v", err)
		}
		c.State(ns, turn, delta, vary)
		c.Outcome(len(e.Out))
		c.Validated(len(ms))
	}}
}

// expectReadShort is expectRead for many messages: it does not print them all.
func expectReadShort(c *mc.Ctx, conn *rtmp.Conn, want []rm.Msg) error {
	for i := 0; ; i++ {
		tag, err := conn.ReadTag()
		c.Step(1)
		if err != nil {
			if i != len(want) {
				c.Fail("error %v after %d of %d messages", err, i, len(want))
			}
			return err
		}
		if i >= len(want) {
			c.Fail("a message more than the %d sent", len(want))
		}
		w := want[i]
		if tag.Type != w.Type || tag.Time != w.Time || !bytes.Equal(tag.Data, w.Data) {
			c.Fail("message %d is %v, sent %v", i, rm.Msg{Time: tag.Time, Type: tag.Type, Data: tag.Data}, w)
		}
	}
}

// endless is a transport that repeats one message; it follows the
// acknowledgements it is sent.
type endless struct {
	c        *mc.Ctx
	head     []byte
	msg      []byte // one message in chunks
	ends     []int  // ends of the chunks in it
	left     int    // messages still to send
	off, end int    // in msg
	next     int
	total    uint64
	window   uint64
	last     uint64
	want     []uint32
	acks     int
	out      []byte
}

func (t *endless) Read(p []byte) (int, error) {
	if len(t.head) > 0 {
		n := copy(p, t.head)
		t.head = t.head[n:]
		t.total += uint64(n)
		return n, nil
	}
	if t.off == 0 && t.next == 0 || t.off == t.end {
		if t.off != 0 && t.total-t.last > t.window {
			t.last = t.total
			t.want = append(t.want, uint32(t.total))
		}
		if len(t.want) > 0 {
			t.c.Fail("after %d bytes: the acknowledgement of %d was not sent", t.total, t.want[0])
		}
		if t.off == len(t.msg) {
			t.off, t.next = 0, 0
		}
		if t.off == 0 {
			if t.left == 0 {
				return 0, io.EOF
			}
			t.left--
		}
		t.end = t.ends[t.next]
		t.next++
	}
	n := copy(p, t.msg[t.off:t.end])
	t.off += n
	t.total += uint64(n)
	return n, nil
}

func (t *endless) Write(p []byte) (int, error) {
	t.out = append(t.out, p...)
	return len(p), nil
}

func (t *endless) Flush() error {
	d := rm.NewDec()
	d.Feed(t.out)
	t.out = nil
	if t.total-t.last > t.window {
		t.last = t.total
		t.want = append(t.want, uint32(t.total))
	}
	for _, m := range d.Msgs {
		if m.Type != rm.Ack {
			continue
		}
		if len(t.want) == 0 || len(m.Data) != 4 || binary.BigEndian.Uint32(m.Data) != t.want[0] {
			t.c.Fail("after %d bytes: unexpected acknowledgement %x, want %d", t.total, m.Data, t.want)
		}
		t.want = t.want[1:]
		t.acks++
	}
	return nil
}

func r05long(tier string) mc.Exploration {
	return mc.Exploration{Name: "long", Serial: true, Rule: "4.3 GB received in messages of 4 MiB with windows of the default, 3 MB and 2^31 bytes: every acknowledgement in place, its number modulo 2^32", AllocLimit: 40 << 30, Run: func(c *mc.Ctx) {
		win := []uint32{0, 3000000, 1 << 31}[c.Choose(3)]
		if tier != "thorough" && win == 1<<31 {
			c.Prune()
		}
		e := rm.NewEnc()
		if win != 0 {
			e.Ctl(rm.WindowAckSize, rm.U32(win))
		}
		e.Ctl(rm.SetChunkSize, rm.U32(1<<20))
		e.Size = 1 << 20
		t := &endless{c: c, head: e.Out, window: 2500000, left: 1030}
		if win != 0 {
			t.window = uint64(win)
		}
		m := rm.NewEnc()
		m.Size = 1 << 20
		m.Start(rm.Msg{CSID: 4, Type: 18, Data: fill(4<<20, 1)}, 0, 0)
		t.ends = append(t.ends, len(m.Out))
		for m.Pending(4) {
			m.Cont(4, 0)
			t.ends = append(t.ends, len(m.Out))
		}
		t.msg = m.Out
		conn := rtmp.NewConn(t)
		n := 0
		for ; ; n++ {
			tag, err := conn.ReadTag()
			if err != nil {
				if err != io.EOF {
					c.Fail("after %d messages: %v", n, err)
				}
				break
			}
			if len(tag.Data) != 4<<20 {
				c.Fail("message %d has %d bytes", n, len(tag.Data))
			}
			c.Step(1)
		}
		if n != 1030 || t.acks == 0 {
			c.Fail("%d messages, %d acknowledgements", n, t.acks)
		}
		c.State(win)
		c.Outcome(win, t.acks)
		c.Validated(t.acks)
	}}
}

func r05many() mc.Exploration {
	return mc.Exploration{Name: "many", Rule: "70000 pings with media in between, and 70000 changes of the chunk size: every one is answered, or honoured", AllocLimit: 1 << 30, Run: func(c *mc.Ctx) {
		e := rm.NewEnc()
		var want []rm.Msg
		sizes := c.Bool()
		for i := 0; i < 70000; i++ {
			if sizes {
				e.Ctl(rm.SetChunkSize, rm.U32(uint32(40+i%50)))
			} else {
				e.Ctl(rm.UserControl, ping(uint32(i*77777)))
			}
			if i%8 == 0 {
				m := rm.Msg{CSID: 4, Time: uint32(i), Type: 18, Data: fill(100, byte(i))}
				e.Send(m)
				want = append(want, m)
			}
		}
		var out bytes.Buffer
		conn := rtmp.NewConn(rw{Reader: bytes.NewReader(e.Out), Writer: &out})
		if err := expectReadShort(c, conn, want); !isEOF(err) {
			c.Fail("after the last message: %v", err)
		}
		d := rm.NewDec()
		d.Feed(out.Bytes())
		n := 0
		for _, m := range d.Msgs {
			if m.Type != rm.UserControl {
				continue
			}
			if w := append(rm.U16(7), rm.U32(uint32(n*77777))...); !bytes.Equal(m.Data, w) {
				c.Fail("answer %d is %x, want %x", n, m.Data, w)
			}
			n++
		}
		if d.Err != nil || !sizes && n != 70000 || sizes && n != 0 {
			c.Fail("%d pings answered (%v)", n, d.Err)
		}
		c.State(sizes)
		c.Outcome(n)
		c.Validated(70000)
	}}
}

func r06long() mc.Exploration {
	return mc.Exploration{Name: "many parts", Rule: "aggregates of 254-258, 1000, 65534-65538 and 264000 parts, and 300 aggregates in a row", AllocLimit: 1 << 30, Run: func(c *mc.Ctx) {
		counts := []int{254, 255, 256, 257, 258, 1000, 65534, 65535, 65536, 65537, 65538, 264000, -300}
		n := counts[c.Choose(len(counts))]
		rep := 1
		if n < 0 {
			rep, n = -n, 3
		}
		e := rm.NewEnc()
		e.Ctl(rm.SetChunkSize, rm.U32(65536))
		e.Size = 65536
		var want []rm.Msg
		for r := 0; r < rep; r++ {
			T := uint32(r * 1000)
			var b []byte
			for i := 0; i < n; i++ {
				tm := uint32(500 + i*3)
				d := []byte{byte(i), byte(r)}[:i%3%2+i%2]
				b = append(b, 18, 0, 0, byte(len(d)), byte(tm>>16), byte(tm>>8), byte(tm), byte(tm>>24), 0, 0, 1)
				b = append(append(b, d...), rm.U32(uint32(len(d)+11))...)
				want = append(want, rm.Msg{Type: 18, Time: T + uint32(i*3), Data: d})
			}
			e.Send(rm.Msg{CSID: 6, Time: T, Type: rm.Aggregate, SID: 1, Data: b})
		}
		post := rm.Msg{CSID: 6, Time: 9, Type: 8, Data: fill(140, 2)}
		e.Send(post)
		want = append(want, post)
		c.Logf("%d aggregates of %d parts", rep, n)
		if err := expectReadShort(c, reader(bytes.NewReader(e.Out)), want); !isEOF(err) {
			c.Fail("ended with %v", err)
		}
		c.State(n, rep)
		c.Outcome(fmt.Sprint(len(want)))
		c.Validated(len(want))
	}}
}
