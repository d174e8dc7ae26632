package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"net"

	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

// checkServerHello verifies S0 S1 S2 against the client's C1.
func checkServerHello(c *mc.Ctx, what string, c1, out []byte) (sdig []byte) {
	if len(out) < rm.HelloLen {
		c.Fail("%s: server answered %d of %d handshake bytes", what, len(out), rm.HelloLen)
	}
	if out[0] != 3 {
		c.Fail("%s: S0 is %d", what, out[0])
	}
	s1, s2 := out[1:1537], out[1537:rm.HelloLen]
	_, cdig, digest := rm.Verify(c1, true)
	if digest {
		_, sdig, ok := rm.Verify(s1, false)
		if !ok {
			c.Fail("%s: S1 carries no valid digest for a digest client", what)
		}
		if !rm.ResponseOK(s2, false, cdig) {
			c.Fail("%s: S2 is not a valid response to the client's digest", what)
		}
		return sdig
	}
	if !bytes.Equal(s2, c1) {
		c.Fail("%s: S2 does not echo the block of a client without a valid digest", what)
	}
	return nil
}

func checkClientResponse(c *mc.Ctx, what string, s1, c2 []byte) {
	if _, dig, ok := rm.Verify(s1, false); ok {
		if !rm.ResponseOK(c2, true, dig) {
			c.Fail("%s: C2 is not a valid response to the server's digest", what)
		}
	} else if !bytes.Equal(c2, s1) {
		c.Fail("%s: C2 does not echo the block of a server without a valid digest", what)
	}
}

// clientScript are the steps of a modelled publisher after the handshake.
func clientScript(p *party) {
	p.add(always, func(p *party) {
		p.cmd(3, 0, "connect", 1, rm.Obj{{"app", "app"}, {"tcUrl", "rtmp://host.example/app"}})
	})
	p.add(func(p *party) bool { return p.result(1) != nil }, func(p *party) { p.cmd(3, 0, "createStream", 2, nil) })
	p.add(func(p *party) bool { return p.result(2) != nil }, func(p *party) { p.cmd(4, 1, "publish", 3, nil, "stream", "live") })
	p.add(always, func(p *party) {
		p.e.Send(rm.Msg{CSID: 4, Time: 7, Type: rm.Audio, SID: 1, Data: []byte{0xae, 1, 2, 3}})
	})
}

// serverDo runs a whole session of a modelled client with the given C1.
func serverDo(c *mc.Ctx, what string, c1 []byte, max int, batch bool) {
	p := newParty(c, max, io.EOF)
	p.batch = batch
	p.add(always, func(p *party) { p.e.Out = append([]byte{3}, c1...) })
	p.add(wrote(rm.HelloLen), func(p *party) {
		if sdig := checkServerHello(c, what, c1, p.raw); sdig != nil {
			p.e.Out = append(p.e.Out, rm.Response(true, sdig, 7)...)
		} else {
			p.e.Out = append(p.e.Out, p.raw[1:1537]...)
		}
	})
	clientScript(p)
	handled := serve(p, func(conn *rtmp.Conn, nc net.Conn) {
		tag, err := conn.ReadTag()
		if err != nil || tag.Time != 7 || !bytes.Equal(tag.Data, []byte{2, 3}) {
			p.done(what)
			c.Fail("%s: first media after the handshake read as %v %v", what, tag, err)
		}
	})
	p.done(what)
	if !handled {
		c.Fail("%s: session was not set up, server wrote %v", what, p.list())
	}
	c.Validated(1)
}

func serverScript(p *party, publish bool) {
	p.add(saw("connect"), func(p *party) {
		p.e.Ctl(rm.WindowAckSize, rm.U32(2500000))
		p.cmd(3, 0, "_result", 1, rm.Obj{{"fmsVer", "m"}}, rm.Obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}})
	})
	p.add(saw("createStream"), func(p *party) {
		p.cmd(3, 0, "_result", p.find("createStream")[0].trans, nil, 1)
	})
	w := "play"
	if publish {
		w = "publish"
	}
	p.add(saw(w), func(p *party) {
		p.cmd(5, 1, "onStatus", 0, nil, rm.Obj{{"level", "status"}, {"code", "ok"}})
	})
	if !publish {
		p.add(always, func(p *party) {
			p.e.Send(rm.Msg{CSID: 4, Time: 7, Type: rm.Audio, SID: 1, Data: []byte{0xae, 1, 2, 3}})
		})
	}
}

func clientDo(c *mc.Ctx, what string, s1 []byte, digest bool, max int, batch bool, publish bool) {
	p := newParty(c, max, io.EOF)
	p.batch = batch
	p.add(wrote(1537), func(p *party) {
		if p.raw[0] != 3 {
			c.Fail("%s: C0 is %d", what, p.raw[0])
		}
		c1 := p.raw[1:1537]
		_, cdig, ok := rm.Verify(c1, true)
		if !ok {
			c.Fail("%s: C1 carries no valid digest", what)
		}
		p.e.Out = append([]byte{3}, s1...)
		if digest {
			p.e.Out = append(p.e.Out, rm.Response(false, cdig, 3)...)
		} else {
			p.e.Out = append(p.e.Out, c1...)
		}
	})
	serverScript(p, publish)
	conn, err := dial(p, stdURL, flags(publish))
	if err != nil {
		p.done(what)
		c.Fail("%s: setup failed: %v", what, err)
	}
	if !publish {
		tag, err := conn.ReadTag()
		if err != nil || tag.Time != 7 || !bytes.Equal(tag.Data, []byte{2, 3}) {
			c.Fail("%s: first media read as %v %v", what, tag, err)
		}
	}
	p.done(what)
	checkClientResponse(c, what, s1, p.raw[1537:rm.HelloLen])
	c.Validated(1)
}

// shortServer runs only the handshake.
func shortServer(c *mc.Ctx, what string, c1 []byte) {
	p := newParty(c, 0, io.EOF)
	p.add(always, func(p *party) { p.e.Out = append([]byte{3}, c1...) })
	serve(p, func(*rtmp.Conn, net.Conn) { c.Fail("%s: session without commands", what) })
	p.done(what)
	checkServerHello(c, what, c1, p.raw)
	if len(p.raw) != rm.HelloLen {
		c.Fail("%s: %d bytes written before the client's commands", what, len(p.raw))
	}
	c.Validated(1)
}

func shortClient(c *mc.Ctx, what string, s1 []byte) {
	p := newParty(c, 0, io.EOF)
	p.add(wrote(1537), func(p *party) {
		p.e.Out = append(append([]byte{3}, s1...), rm.PlainBlock(9)...)
	})
	if _, err := dial(p, stdURL, rtmp.PrepareReading); err == nil {
		c.Fail("%s: setup succeeded without replies", what)
	}
	p.done(what)
	if len(p.raw) < rm.HelloLen {
		c.Fail("%s: client did not finish the handshake", what)
	}
	checkClientResponse(c, what, s1, p.raw[1537:rm.HelloLen])
	c.Validated(1)
}

// cycle yields a stream in which any four bytes in a row have the same sum.
type cycle struct {
	b [4]byte
	i int
}

func (r *cycle) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b[r.i&3]
		r.i++
	}
	return len(p), nil
}

func newCycle(sum int) *cycle {
	r := &cycle{}
	for i := range r.b {
		v := sum
		if v > 255 {
			v = 255
		}
		r.b[i] = byte(v)
		sum -= v
	}
	return r
}

func r07(tier string) []mc.Exploration {
	offs := []int{0, 1, 255, 256, 364, 511, 512, 726, 727}
	flips := []byte{0x01, 0x10, 0x80}
	if tier == "thorough" {
		flips = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x55, 0xaa}
		offs = nil
		for o := 0; o < 728; o += 13 {
			offs = append(offs, o)
		}
		offs = append(offs, 1, 255, 256, 511, 512, 726)
	}
	frags := []int{0, 1, 7, 128, 1536, 1537}
	var exs []mc.Exploration
	add := func(e mc.Exploration) { exs = append(exs, e) }

	add(mc.Exploration{Name: "server-offsets", Rule: "every sum of the digest offset bytes (0..1020) x both digest positions: a modelled client verifies S1 and S2, answers and completes a publishing session",
		Run: func(c *mc.Ctx) {
			scheme, off := c.Choose(2), c.Choose(1021)
			what := fmt.Sprintf("C1 with digest at position %d offset %d", scheme, off)
			c.State("so", scheme, off)
			serverDo(c, what, rm.Block(true, scheme, off, byte(off), 0x80000702), 0, false)
			c.Outcome("digest", scheme)
		}})
	add(mc.Exploration{Name: "client-offsets", Rule: "every sum of the digest offset bytes (0..1020) x both digest positions of a modelled server x play or publish: C1 and C2 verify and the session is set up",
		Run: func(c *mc.Ctx) {
			scheme, off := c.Choose(2), c.Choose(1021)
			publish := c.Bool()
			what := fmt.Sprintf("S1 with digest at position %d offset %d publish=%v", scheme, off, publish)
			c.State("co", scheme, off, publish)
			clientDo(c, what, rm.Block(false, scheme, off, byte(off), 0x04050001), true, 0, false, publish)
			c.Outcome("digest", scheme)
		}})
	blocks := func(client bool) (out [][]byte, names []string) {
		for scheme := 0; scheme < 2; scheme++ {
			for _, o := range offs {
				out = append(out, rm.Block(client, scheme, o, byte(o), 0x0a000b00))
				names = append(names, fmt.Sprintf("position %d offset %d", scheme, o))
			}
		}
		return
	}
	for _, side := range []string{"server", "client"} {
		side := side
		bs, names := blocks(side == "server")
		add(mc.Exploration{Name: side + "-altered", Rule: fmt.Sprintf("%d digest blocks x every byte (1536) x %d alterations, and the block unaltered: the answer is the one the model's verification of the received block calls for", len(bs), len(flips)),
			Run: func(c *mc.Ctx) {
				k := c.Choose(len(bs))
				pos := c.Choose(1537)
				b := append([]byte(nil), bs[k]...)
				what := "peer block " + names[k]
				if pos < 1536 {
					f := flips[c.Choose(len(flips))]
					b[pos] ^= f
					what += fmt.Sprintf(" with byte %d altered by %#x", pos, f)
				}
				_, _, ok := rm.Verify(b, side == "server")
				c.State(side, k, pos, b[pos%1536])
				if side == "server" {
					shortServer(c, what, b)
				} else {
					shortClient(c, what, b)
				}
				c.Outcome(side, ok)
			}})
	}
	// blocks of the endpoint's own
	add(mc.Exploration{Name: "own-digests", Serial: true, Rule: "random source forced so that the endpoint's own digest takes every offset sum 0..1020: C1 and S1 carry digests a peer can verify",
		Run: func(c *mc.Ctx) {
			sum := c.Choose(1021)
			old := rand.Reader
			rand.Reader = newCycle(sum)
			defer func() { rand.Reader = old }()
			c.State("own", sum)
			serverDo(c, fmt.Sprintf("server's own digest offset sum %d", sum), rm.Block(true, sum&1, sum%728, 1, 0x80000702), 0, false)
			clientDo(c, fmt.Sprintf("client's own digest offset sum %d", sum), rm.Block(false, sum&1, sum%728, 1, 0x04050001), true, 0, false, true)
			c.Outcome("own", sum)
		}})
	add(mc.Exploration{Name: "consumption", Rule: "server and client x digest (both positions) or plain peer x fragment sizes 0,1,7,128,1536,1537 x peer data one message at a time or as much as is ready at once x play or publish: the first message after the handshake is read intact and the session completes",
		Run: func(c *mc.Ctx) {
			srv := c.Bool()
			kind := c.Choose(3)
			max := frags[c.Choose(len(frags))]
			batch := c.Bool()
			what := fmt.Sprintf("server=%v peer %s fragments %d batch %v", srv, []string{"digest at 8", "digest at 772", "plain"}[kind], max, batch)
			c.State(srv, kind, max, batch)
			if srv {
				b := rm.PlainBlock(1)
				if kind < 2 {
					b = rm.Block(true, kind, 300, 1, 0x80000702)
				}
				serverDo(c, what, b, max, batch)
			} else {
				publish := c.Bool()
				b := rm.PlainBlock(1)
				if kind < 2 {
					b = rm.Block(false, kind, 300, 1, 0x04050001)
				}
				clientDo(c, what, b, kind < 2, max, batch, publish)
			}
			c.Outcome(srv, kind)
		}})
	add(mc.Exploration{Name: "coalesced", Rule: "a client that sends its opening block, a C2, connect, createStream, publish and media at once (plain), cut into two reads at every byte of the first 3200: same session",
		Run: func(c *mc.Ctx) {
			e := rm.ClientScript(true, "app", "rtmp://host.example/app", "stream")
			e.Send(rm.Msg{CSID: 4, Time: 7, Type: rm.Audio, SID: 1, Data: []byte{0xae, 1, 2, 3}})
			at := c.Choose(3201)
			p := &rm.Peer{Step: rm.Parts(io.EOF, e.Out[:at], e.Out[at:])}
			c.State("coal", at)
			if !serve(p, func(conn *rtmp.Conn, nc net.Conn) {
				tag, err := conn.ReadTag()
				if err != nil || tag.Time != 7 || !bytes.Equal(tag.Data, []byte{2, 3}) {
					c.Fail("cut at %d: first media read as %v %v", at, tag, err)
				}
				if conn.URL.String() != "rtmp://host.example/app/stream" {
					c.Fail("cut at %d: url %v", at, conn.URL)
				}
			}) {
				c.Fail("cut at %d: session not set up", at)
			}
			checkServerHello(c, "coalesced", e.Out[1:1537], p.Out())
			c.Outcome(at < 3073)
		}})
	add(mc.Exploration{Name: "truncated", Rule: "the peer's handshake ends after any number of bytes (0..3073), digest or plain, on either side: setup fails with an error, the connection is closed by the server, nothing is handed to the application; every version byte other than 3 is refused by the server",
		Run: func(c *mc.Ctx) {
			kind := c.Choose(3)
			if kind == 2 {
				v := c.Choose(256)
				p := newParty(c, 0, io.EOF)
				p.batch = true
				p.add(always, func(p *party) { p.e.Out = append([]byte{byte(v)}, rm.PlainBlock(1)...) })
				p.add(always, func(p *party) { p.e.Out = append(p.e.Out, rm.PlainBlock(2)...) })
				clientScript(p)
				h := serve(p, func(conn *rtmp.Conn, nc net.Conn) {})
				if h != (v == 3) || p.Closed() != (v != 3) || v != 3 && len(p.Out()) > 0 {
					c.Fail("version %d: accepted %v, closed %v, %d bytes answered", v, h, p.Closed(), len(p.Out()))
				}
				c.State("v", v)
				c.Outcome("v", h)
				return
			}
			srv := c.Bool()
			n := c.Choose(rm.HelloLen + 1)
			c.State(srv, kind, n)
			b := rm.PlainBlock(1)
			if kind == 0 {
				b = rm.Block(srv, 0, 100, 1, 0x80000702)
			}
			hello := append(append([]byte{3}, b...), rm.PlainBlock(2)...)[:n]
			p := &rm.Peer{Step: rm.Parts(io.EOF, hello)}
			if srv {
				if serve(p, func(*rtmp.Conn, net.Conn) {}) {
					c.Fail("session of a client that sent %d handshake bytes was accepted", n)
				}
				if !p.Closed() {
					c.Fail("connection of a client that sent %d handshake bytes was left open", n)
				}
			} else {
				conn, err := dial(p, stdURL, rtmp.PrepareReading)
				if err == nil || conn != nil {
					c.Fail("setup with a server that sent %d handshake bytes succeeded", n)
				}
			}
			c.Outcome(srv, kind, n < rm.HelloLen)
		}})
	return exs
}
