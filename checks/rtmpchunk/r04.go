package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime/metrics"

	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// counting counts what was consumed from the transport.
type counting struct {
	io.Reader
	n int
}

func (r *counting) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	r.n += n
	return n, err
}

// drain reads until an error; every delivered tag must have consumed input.
func drain(c *mc.Ctx, conn *rtmp.Conn, in int, what func() string) (n int, err error) {
	for {
		_, err = conn.ReadTag()
		c.Step(1)
		if err != nil {
			return
		}
		n++
		if n > in+1 {
			c.Fail("%d tags delivered from %d bytes: %s", n, in, what())
		}
	}
}

func items() (out [][]byte) {
	hdr0 := func(csid byte, tm, n uint32, typ byte) []byte {
		b := []byte{csid, byte(tm >> 16), byte(tm >> 8), byte(tm), byte(n >> 16), byte(n >> 8), byte(n), typ, 1, 0, 0, 0}
		if tm == 0xffffff {
			b = append(b, 1, 2, 3, 4)
		}
		return b
	}
	msg := func(typ byte, d []byte) []byte {
		return append(hdr0(3, 0, uint32(len(d)), typ), d...)
	}
	agg := func(n uint32, d ...byte) []byte {
		return append([]byte{9, byte(n >> 16), byte(n >> 8), byte(n), 0, 0, 1, 0, 0, 0, 0}, d...)
	}
	return [][]byte{
		hdr0(4, 0, 0, 8), hdr0(4, 0, 2, 8), hdr0(4, 0xffffff, 5, 9), hdr0(4, 0, 4<<20, 9), hdr0(5, 0, 4<<20+1, 9), hdr0(5, 0, 0xffffff, 9),
		{0x44, 0, 0, 1, 0, 0, 3, 9}, {0x44, 0xff, 0xff, 0xff, 0, 0x40, 0, 20, 1, 0, 0, 0}, {0x84, 0, 0, 1}, {0x84, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xc4}, {0xc4, 0xff, 0xff},
		{0xc0, 5}, {0x00, 5, 0, 0, 0, 0, 0, 1, 20, 0, 0, 0, 0, 9}, {0x01, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 0}, {0xc1, 0xff, 0xff}, {0x42}, {0x83},
		msg(1, rm.U32(0)), msg(1, rm.U32(1)), msg(1, rm.U32(0x80000000)), msg(1, rm.U32(0xffffffff)), msg(1, []byte{1}), msg(2, rm.U32(4)), msg(2, nil), msg(5, rm.U32(1)), msg(5, []byte{0, 0}), msg(4, []byte{0}), msg(4, rm.U16(6)), msg(4, ping(1)), msg(3, nil),
		msg(22, agg(0)), msg(22, agg(3, 1, 2, 3, 0, 0, 0, 0)), msg(22, agg(0xffffff, 1)), msg(22, agg(0, 0, 0, 0, 0)), msg(22, nil),
		msg(22, append([]byte{22, 0, 0, 15, 0, 0, 0, 0, 0, 0, 0}, append(agg(0, 0, 0, 0, 0), 0, 0, 0, 0)...)),
		msg(8, nil), msg(8, []byte{0xaf}), msg(9, []byte{0x17, 1, 0}), msg(20, []byte{2, 0xff, 0xff}), msg(20, rm.AMF0("x")), msg(17, []byte{0, 2, 0, 1}), msg(18, nil), msg(0, []byte{0}),
		bytes.Repeat([]byte{1}, 20), bytes.Repeat([]byte{0xff}, 20), bytes.Repeat([]byte{0}, 20),
	}
}

func r04(tier string) []mc.Exploration {
	thorough := tier == "thorough"
	its := items()
	depth := 3
	vals := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 20, 22, 0x40, 0x43, 0x7f, 0x80, 0x83, 0xc0, 0xc3, 0xc4, 0xfe, 0xff}
	if thorough {
		depth = 4
		vals = nil
		for i := 0; i < 256; i++ {
			vals = append(vals, byte(i))
		}
	}
	_, raws := streams3()
	// command sequences for the server
	obj := rm.Obj{{"app", "a"}, {"tcUrl", "rtmp://h/a"}}
	cmds := [][]interface{}{
		{"connect", 1, obj}, {"connect", 1, rm.Obj{{"app", 5}}}, {"connect", 1}, {"connect", 1, nil}, {"connect", "x", obj}, {"connect"}, {5, 5, obj}, {"connect", 1, rm.ECMA{{"app", "%zz"}, {"tcUrl", ":"}}},
		{"connect", 1, rm.Obj{{"app", "a"}, {"tcUrl", 3}, {"tcurl", rm.Arr{1}}, {"pageUrl", nil}, {"objectEncoding", "x"}}},
		{"createStream", 2, nil}, {"createStream", rm.Undef{}}, {"publish", 3, nil, "s"}, {"publish", 3}, {"publish", 3, nil}, {"publish", 3, nil, 5}, {"publish", 3, nil, "%"}, {"play", 3, nil, "s"}, {"play", 3, nil, rm.Obj{}}, {"play", 3, nil, "\x00 \n"}, {"_result", 1, nil}, {"deleteStream", 9, nil, 1},
	}
	replies := [][]interface{}{
		{"_result", 1, obj, rm.Obj{{"level", "status"}}}, {"_result", 1, nil, rm.Obj{{"level", 5}}}, {"_result", 1}, {"_result", 1, nil}, {"_result", 2, nil, 1}, {"_result", 4, nil, 1}, {"_result", 4, nil, "x"}, {"_result", 4, nil, -1e300}, {"_result", 2, nil}, {"_error", 1, nil, rm.Obj{{"level", "error"}}}, {"_error", 4, nil}, {"_error", 2, nil}, {"onStatus", 0, nil}, {"onStatus", 0, nil, 5}, {"onStatus", 0, nil, rm.Obj{{"level", "status"}}}, {"onStatus", 0, nil, rm.ECMA{{"level", "error"}, {"code", rm.Arr{}}}}, {"onStatus"}, {"onBWDone", 0, nil},
	}
	runServer := func(c *mc.Ctx, in []byte, what func() string) {
		nc := &rm.NetConn{In: bytes.NewReader(in)}
		h := serverRun(nc, func(conn *rtmp.Conn) {
			if conn.Publishing {
				if conn.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading) == nil {
					drain(c, conn, len(in), what)
					conn.ReadPacket()
				}
			} else {
				conn.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting)
				<-conn.CloseNotify()
			}
		})
		if !h && !nc.Closed() {
			c.Fail("failed setup does not close the connection: %s", what())
		}
		c.Outcome(h, hash(nc.Out()))
	}
	runClient := func(c *mc.Ctx, in []byte, flags int, what func() string) {
		nc := &rm.NetConn{In: bytes.NewReader(in)}
		conn, err := clientRun(nc, flags)
		if err == nil {
			if flags == rtmp.PrepareReading {
				drain(c, conn, len(in), what)
			} else {
				conn.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting)
				<-conn.CloseNotify()
			}
		}
		c.Outcome(err, hash(nc.Out()))
	}
	encode := func(list [][]interface{}, n int, c *mc.Ctx, first []byte) ([]byte, string) {
		e := rm.NewEnc()
		e.Out = append([]byte(nil), first...)
		d := ""
		for i := 0; i < n; i++ {
			v := list[c.Choose(len(list))]
			typ := byte(rm.CmdAMF0)
			b := rm.AMF0(v...)
			if i == 1 && c.Bool() {
				typ = rm.CmdAMF3
				b = append([]byte{0}, b...)
			}
			e.Send(rm.Msg{CSID: 3, Type: typ, Data: b})
			d += fmt.Sprint(v, " ")
		}
		e.Send(rm.Msg{CSID: 4, Type: 8, Data: []byte{0xaf, 1, 2}})
		return e.Out, d
	}
	ex := []mc.Exploration{
		{Name: "chunk-items", Rule: fmt.Sprintf("all sequences of 1-%d of %d chunk fragments (headers of every type and csid form, lengths up to 2^24-1, malformed and extreme control messages, aggregates, commands, media) read as tags, raw or with a hook: no panic, hang or allocation beyond the announced messages", depth, len(its)), AllocLimit: uint64(depth+1) * (5 << 20),
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(depth)
				var b []byte
				var idx []int
				for i := 0; i < n; i++ {
					k := c.Choose(len(its))
					idx = append(idx, k)
					b = append(b, its[k]...)
				}
				mode := c.Choose(2)
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(b), Writer: nowhere{}})
				if mode == 1 {
					conn.BypassMsgtypeid = allIDs
				}
				k, err := drain(c, conn, len(b), func() string { return fmt.Sprint(idx) })
				c.State(idx, mode)
				c.Outcome(k, err)
			}},
		{Name: "altered-streams", Rule: fmt.Sprintf("3 chunk streams with every byte replaced by each of %d values, then delivered whole", len(vals)), AllocLimit: 24 << 20,
			Run: func(c *mc.Ctx) {
				i := c.Choose(len(raws))
				b := append([]byte(nil), raws[i]...)
				o := c.Choose(len(b))
				b[o] = vals[c.Choose(len(vals))]
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(b), Writer: nowhere{}})
				k, err := drain(c, conn, len(b), func() string { return fmt.Sprint(i, o, b[o]) })
				c.State(i, o, b[o])
				c.Outcome(k, err)
			}},
		{Name: "short-strings", Rule: "all byte strings up to length 4 (thorough 6) over 12 structural bytes", AllocLimit: 24 << 20,
			Run: func(c *mc.Ctx) {
				al := []byte{0, 1, 2, 3, 4, 0x40, 0x42, 0x82, 0xc0, 0xc2, 0xff, 8}
				n := 4
				if thorough {
					n = 6
				}
				// reach the interesting fields: a header first or not
				b := [][]byte{nil, {2, 0, 0, 0}, {3, 0, 0, 0, 0, 0}, {4, 0, 0, 0, 0, 0, 1, 9, 0, 0, 0, 0, 7}}[c.Choose(4)]
				b = append([]byte(nil), b...)
				for i := 0; i < n; i++ {
					k := c.Choose(len(al) + 1)
					if k == len(al) {
						break
					}
					b = append(b, al[k])
				}
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(b), Writer: nowhere{}})
				k, err := drain(c, conn, len(b), func() string { return fmt.Sprintf("%x", b) })
				c.StateHash(hash(b))
				c.Outcome(k, err)
			}},
		{Name: "allocation-limits", Rule: "one header on each of 1-20 chunk streams announcing 9 lengths around 4 MiB and 2^24, as each of 10 message types, in each header type and csid form: longer than 4 MiB or a 17th stream is refused, without the memory being allocated", AllocLimit: 512 << 20, Serial: true,
			Run: func(c *mc.Ctx) {
				lim := 4 << 20
				L := []int{1, 1 << 16, lim - 1, lim, lim + 1, lim + 100, 8 << 20, 0xfffffe, 0xffffff}[c.Choose(9)]
				n := []int{1, 2, 15, 16, 17, 20}[c.Choose(6)]
				h := c.Choose(2)
				form := c.Choose(3)
				typ := []byte{9, 22, 8, 18, 20, 15, 17, 1, 4, 99}[c.Choose(10)]
				if typ != 9 && n != 1 && n != 17 {
					c.Prune()
				}
				e := rm.NewEnc()
				for i := 0; i < n; i++ {
					id := []int{2 + i, 64 + i, 320 + i*300}[form]
					if h == 1 {
						e.Send(rm.Msg{CSID: uint32(id), Type: 8})
					}
					var bh []byte
					switch form {
					case 0:
						bh = []byte{byte(h<<6 | id)}
					case 1:
						bh = []byte{byte(h << 6), byte(id - 64)}
					case 2:
						bh = []byte{byte(h<<6 | 1), byte(id - 64), byte((id - 64) >> 8)}
					}
					e.Out = append(e.Out, bh...)
					e.Out = append(e.Out, 0, 0, 0, byte(L>>16), byte(L>>8), byte(L), typ)
					if h == 0 {
						e.Out = append(e.Out, 1, 0, 0, 0)
					}
					// the first chunk completely, unless it is the last one
					k := L
					if k > 128 {
						k = 128
					}
					e.Out = append(e.Out, make([]byte, k)...)
				}
				conn := reader(bytes.NewReader(e.Out))
				a0 := allocated()
				got := 0
				var err error
				for {
					if _, err = conn.ReadTag(); err != nil {
						break
					}
					got++
				}
				used := allocated() - a0
				maxN := n
				if maxN > 16 {
					maxN = 16
				}
				refuse := L > lim || n > 16
				if refuse == isEOF(err) && (refuse || typ != 1 && typ != 4 && typ != 20 && typ != 17) {
					c.Fail("%d streams announcing %d bytes each: ended with %v", n, L, err)
				}
				bound := uint64(maxN)*uint64(L+L/4+8192) + 1<<20
				if L > lim {
					bound = 2 << 20
				}
				if used > bound {
					c.Fail("%d streams announcing %d bytes each: %d bytes allocated", n, L, used)
				}
				c.State(L, n, h, form, typ)
				c.Outcome(L, n, err)
				c.Step(n)
				c.Validated(1)
			}},
		{Name: "aggregates", Rule: "aggregate messages of 1-2 parts (thorough 3), each announcing one of 12 lengths and followed by 0-11 bytes (the next part starts anywhere), parts of media, control and aggregate types", AllocLimit: 24 << 20,
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(map[bool]int{false: 2, true: 3}[thorough])
				var d []byte
				desc := ""
				for i := 0; i < n; i++ {
					L := []int{0, 1, 4, 11, 2, 3, 5, 6, 0xff, 0xffff, 0x3ffff0, 0xffffff}[c.Choose(12)]
					if i == 2 && L > 4 {
						c.Prune()
					}
					k := c.Choose(12)
					typ := []byte{9, 1, 22, 20}[c.Choose(4-i)]
					d = append(d, typ, byte(L>>16), byte(L>>8), byte(L), 0, 0, 1, 0, 0, 0, 0)
					d = append(d, []byte{0, 0, 0, 30, 0, 0, 0, 0, 0, 0, 0, 0}[:k]...)
					desc += fmt.Sprint(L, "/", k, "/", typ, " ")
				}
				e := rm.NewEnc()
				e.Send(rm.Msg{CSID: 4, Type: 22, Data: d})
				e.Send(rm.Msg{CSID: 4, Type: 8, Data: []byte{0xaf, 1}})
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(e.Out), Writer: nowhere{}})
				if c.Bool() {
					conn.BypassMsgtypeid = allIDs
				}
				k, err := drain(c, conn, len(e.Out), func() string { return desc })
				c.State(desc)
				c.Outcome(k, err)
			}},
		{Name: "server-commands", Rule: "all sequences of 1-3 of 21 commands (missing, mistyped and extreme parameters, AMF0 or AMF3) sent to a server after a handshake, then media and end of stream", AllocLimit: 32 << 20,
			Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(3)
				b, d := encode(cmds, n, c, rm.PlainClientHello())
				runServer(c, b, func() string { return d })
				c.State(d)
				c.Step(n)
			}},
		{Name: "client-replies", Rule: "all sequences of 1-3 of 18 replies (missing, mistyped and extreme parameters) sent to a publishing or playing client after a handshake, then media and end of stream", AllocLimit: 32 << 20,
			Run: func(c *mc.Ctx) {
				flags := rtmp.PrepareReading + c.Choose(2)
				n := 1 + c.Choose(3)
				b, d := encode(replies, n, c, rm.PlainServerHello())
				runClient(c, b, flags, func() string { return d })
				c.State(d, flags)
				c.Step(n)
			}},
		{Name: "altered-sessions", Rule: fmt.Sprintf("publish and play sessions, server and client side: every byte after the handshake replaced by each of %d values; also every handshake byte at stride 7 flipped", len(vals)), AllocLimit: 48 << 20,
			Run: func(c *mc.Ctx) {
				role := c.Choose(4)
				var b []byte
				switch role {
				case 0, 1:
					e := rm.ClientScript(role == 0, "app", tcurl, "s")
					e.Send(rm.Msg{CSID: 4, Type: 8, Data: []byte{0xaf, 1, 2}})
					b = e.Out
				default:
					e := rm.ServerScript(role == 2, 1)
					e.Send(rm.Msg{CSID: 4, Type: 8, Data: []byte{0xaf, 1, 2}})
					b = e.Out
				}
				b = append([]byte(nil), b...)
				o, v := 0, byte(0)
				if c.Bool() {
					o = c.Choose(rm.HelloLen/7) * 7
					v = b[o] ^ 0xff
				} else {
					o = rm.HelloLen + c.Choose(len(b)-rm.HelloLen)
					v = vals[c.Choose(len(vals))]
				}
				b[o] = v
				what := func() string { return fmt.Sprintf("role %d byte %d = %x", role, o, v) }
				switch role {
				case 0, 1:
					runServer(c, b, what)
				case 2:
					runClient(c, b, rtmp.PrepareWriting, what)
				case 3:
					runClient(c, b, rtmp.PrepareReading, what)
				}
				c.State(role, o, v)
				c.Step(1)
			}},
	}
	return ex
}
