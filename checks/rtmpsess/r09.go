package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

func meta(vals ...interface{}) av.Packet {
	return av.Packet{Type: av.Metadata, Data: rm.AMF0(vals...)}
}

func at(p av.Packet, t int64) av.Packet { p.Time = ms(t); return p }

var alphabet = []av.Packet{
	{Type: av.H264DecoderConfig, Data: fill(40, 1)},
	{Type: av.AACDecoderConfig, Data: []byte{0x12, 0x10}},
	meta(rm.Obj{{"width", 1280}, {"codec", "avc1"}, {"x", rm.Obj{{"y", nil}}}}),
	{Type: av.H264, IsKeyFrame: true, Data: fill(90, 2), CTime: ms(40)},
	{Type: av.H264, Data: fill(150, 3), Time: ms(0xffffff), CTime: ms(-1)},
	{Type: av.AAC, Data: fill(7, 4), Time: ms(20)},
	{Type: av.AAC, Data: fill(140, 5), Time: ms(0x1000001)},
	{Type: av.H264, IsKeyFrame: true, Data: fill(1, 6), Time: ms(0xffffffff), CTime: ms(0x7fffff)},
	{Type: av.H264DecoderConfig, Data: fill(20, 7)},
	at(meta(rm.Obj{{"a", 1}}, 2, nil), 77),
	{Type: av.H264, Data: fill(33, 8), Time: ms(40) + 999999},
	{Type: av.AAC},
}

// session sends the packets from a real endpoint to a real endpoint.
// via: 0 connection, Flush and close; 1 URL opener's writer or reader.
func session(c *mc.Ctx, what string, pkts []av.Packet, publish bool, max, via int) {
	a, b := rm.Pipe(max)
	df := func() func(ctx context.Context, network, address string) (net.Conn, error) {
		return func(ctx context.Context, network, address string) (net.Conn, error) { return a, nil }
	}
	o := &format.URLOpener{NewDialFunc: df}
	var rd []av.Packet
	var end error
	read := func(r av.PacketReader) {
		for {
			var p av.Packet
			if p, end = r.ReadPacket(); end != nil {
				return
			}
			rd = append(rd, p)
			c.Step(1)
			if len(rd) > len(pkts)+3 {
				return
			}
		}
	}
	var werr error
	write := func(w av.PacketWriter) {
		for i, p := range pkts {
			if werr = w.WritePacket(p); werr != nil {
				werr = fmt.Errorf("packet %d: %v", i, werr)
				return
			}
		}
	}
	panics := make(chan interface{}, 1)
	done := make(chan bool, 1)
	go func() {
		h := false
		defer func() {
			panics <- recover()
			b.Close()
			done <- h
		}()
		h = serve(b, func(conn *rtmp.Conn, nc net.Conn) {
			if publish {
				read(conn)
				return
			}
			write(conn)
			if werr == nil && len(pkts) == 0 {
				werr = conn.Prepare(rtmp.StageDataStart, 0)
			}
			if werr == nil {
				werr = conn.Flush()
			}
			nc.Close()
		})
	}()
	var err error
	switch {
	case publish && via == 0:
		var conn *rtmp.Conn
		if conn, err = dial(a, stdURL, flags(true)); err == nil {
			write(conn)
			if werr == nil {
				werr = conn.Flush()
			}
			a.Close()
		}
	case publish:
		var w *format.Writer
		if w, err = o.Create(stdURL, nil); err == nil {
			write(w)
			if werr == nil {
				werr = w.Close()
			}
		}
	case via == 0:
		var conn *rtmp.Conn
		if conn, err = dial(a, stdURL, flags(false)); err == nil {
			read(conn)
			a.Close()
		}
	default:
		var r *format.Reader
		if r, err = o.Open(stdURL); err == nil {
			read(r)
			r.Close()
		}
	}
	a.Close()
	if p := <-panics; p != nil {
		panic(p)
	}
	h := <-done
	if err != nil || !h {
		c.Fail("%s: session not set up: %v", what, err)
	}
	if werr != nil {
		c.Fail("%s: writing: %v", what, werr)
	}
	for i, p := range pkts {
		if i >= len(rd) {
			c.Fail("%s: %d of %d packets arrived, then %v: wrote %s", what, len(rd), len(pkts), end, spl(pkts))
		}
		if !eqPkt(rd[i], norm(p)) {
			c.Fail("%s: packet %d %s arrived as %s", what, i, sp(norm(p)), sp(rd[i]))
		}
	}
	// the bytes on the wire say the same to an independent decoder
	wire := b.Sent()
	if publish {
		wire = a.Sent()
	}
	d := rm.NewDec()
	d.Feed(wire[rm.HelloLen:])
	if d.Err != nil || d.Partial() {
		c.Fail("%s: bytes sent are not a complete chunk stream: %v", what, d.Err)
	}
	i := 0
	for _, m := range d.Msgs {
		if m.Type != rm.Audio && m.Type != rm.Video && m.Type != rm.DataAMF0 {
			continue
		}
		if m.Type == rm.DataAMF0 && (i >= len(pkts) || pkts[i].Type != av.Metadata) {
			continue // other data messages are the endpoint's business
		}
		if i >= len(pkts) {
			c.Fail("%s: media message %v nobody wrote", what, m)
		}
		typ, body := wantTag(pkts[i], publish)
		if m.Type != typ || m.Time != uint32(pkts[i].Time/time.Millisecond) && norm(pkts[i]).Time != 0 || !bytes.Equal(m.Data, body) {
			c.Fail("%s: packet %d %s sent as %v", what, i, sp(pkts[i]), m)
		}
		i++
	}
	if i != len(pkts) {
		c.Fail("%s: %d of %d packets on the wire", what, i, len(pkts))
	}
	c.Validated(1)
	if len(rd) > len(pkts) {
		c.Fail("%s: invented packet %s after %s", what, sp(rd[len(pkts)]), spl(pkts))
	}
}

// wantTag is the message the specifications prescribe for a packet.
func wantTag(p av.Packet, publishing bool) (typ byte, body []byte) {
	ct := int32(p.CTime / time.Millisecond)
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	switch p.Type {
	case av.H264:
		f := byte(0x27)
		if p.IsKeyFrame {
			f = 0x17
		}
		return 9, cat([]byte{f, 1, byte(ct >> 16), byte(ct >> 8), byte(ct)}, p.Data)
	case av.H264DecoderConfig:
		return 9, cat([]byte{0x17, 0, 0, 0, 0}, p.Data)
	case av.AAC:
		return 8, cat([]byte{0xae, 1}, p.Data)
	case av.AACDecoderConfig:
		return 8, cat([]byte{0xae, 0}, p.Data)
	}
	if publishing {
		return 18, cat(rm.AMF0("@setDataFrame", "onMetaData"), p.Data)
	}
	return 18, cat(rm.AMF0("onMetaData"), p.Data)
}

func r09(tier string) []mc.Exploration {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	frags := []int{0, 1, 5}
	sizes := []int{0, 1, 120, 122, 123, 124, 126, 127, 128, 250, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 131060, 131066, 131067, 131070, 131072, 200000}
	if tier == "thorough" {
		for n := 2; n < 600; n++ {
			sizes = append(sizes, n)
		}
		for n := 65400; n < 65700; n++ {
			sizes = append(sizes, n)
		}
	}
	return []mc.Exploration{
		{Name: "sequences", Rule: fmt.Sprintf("real client and server, publish or play, all sequences of up to %d packets out of %d (configurations, metadata, key and inter video, audio; boundary times and offsets) x transport fragments (0, 1, 5) x plain connection with Flush and close or URL opener: equal packets arrive, nothing more", depth, len(alphabet)),
			Run: func(c *mc.Ctx) {
				publish := c.Bool()
				n := c.Choose(depth + 1)
				var ps []av.Packet
				id := ""
				for i := 0; i < n; i++ {
					k := c.Choose(len(alphabet))
					ps = append(ps, alphabet[k])
					id += fmt.Sprint(" ", k)
				}
				max, via := 0, 0
				if n == depth {
					// the longest sequences take one combination each
					k := len(id) + n
					max, via = frags[(k+int(id[len(id)-1]))%3], (k/2)&1
				} else {
					max, via = frags[c.Choose(3)], c.Choose(2)
				}
				what := fmt.Sprintf("publish=%v fragments=%d via=%d packets%s", publish, max, via, id)
				c.State(publish, id)
				session(c, what, ps, publish, max, via)
				c.Outcome(publish, id)
			}},
		{Name: "sizes", Rule: fmt.Sprintf("real client and server, publish or play, %d payload sizes around chunk boundaries x 4 packet kinds x 3 fragment sizes between two small packets", len(sizes)),
			Run: func(c *mc.Ctx) {
				publish := c.Bool()
				n := sizes[c.Choose(len(sizes))]
				var p av.Packet
				switch c.Choose(4) {
				case 0:
					p = av.Packet{Type: av.H264, IsKeyFrame: true, Time: ms(40), CTime: ms(3)}
				case 1:
					p = av.Packet{Type: av.AAC, Time: ms(0xffffff)}
				case 2:
					p = av.Packet{Type: av.H264, Time: ms(0x80000000)}
				case 3:
					p = av.Packet{Type: av.H264DecoderConfig}
				}
				p.Data = fill(n, byte(n))
				max := []int{0, 1000, 4096}[c.Choose(3)]
				c.State(publish, n, p.Type, p.IsKeyFrame)
				session(c, fmt.Sprintf("publish=%v size %d fragments %d", publish, n, max), []av.Packet{alphabet[5], p, alphabet[3]}, publish, max, 0)
				c.Outcome(n)
			}},
		{Name: "long", AllocLimit: 256 << 20, Rule: "publish or play of 1 to 4 packets of 1.5 MB (past the acknowledgement window) and of 3000 small packets, plain connection or URL opener",
			Run: func(c *mc.Ctx) {
				publish := c.Bool()
				via := c.Choose(2)
				var ps []av.Packet
				n := 1 + c.Choose(5)
				if n == 5 {
					for i := 0; i < 3000; i++ {
						p := alphabet[i*7%len(alphabet)]
						ps = append(ps, p)
					}
				} else {
					for i := 0; i < n; i++ {
						ps = append(ps, av.Packet{Type: av.H264, Time: ms(int64(i) * 40), Data: fill(1500000+i, byte(i))}, alphabet[5])
					}
				}
				c.State(publish, via, n)
				session(c, fmt.Sprintf("publish=%v via=%d long %d", publish, via, n), ps, publish, []int{0, 1460}[via], via)
				c.Outcome(n)
			}},
	}
}
