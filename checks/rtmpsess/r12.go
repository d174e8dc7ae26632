package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
	"joyverif/vs"
)

// observed is what the hooks of a connection reported.
type observed struct {
	rd, wr   []byte
	tags     [2][]flvio.Tag // written, read
	stages   []string
	at       int // bytes which had passed when the hooks were set
	chunkOn  bool
	tagsOn   bool
	stagesOn bool
}

func (o *observed) hook(c *rtmp.Conn) {
	if o.chunkOn {
		c.LogChunkDataEvent = func(isRead bool, b []byte) {
			if isRead {
				o.rd = append(o.rd, b...)
			} else {
				o.wr = append(o.wr, b...)
			}
		}
	}
	if o.tagsOn {
		c.LogTagEvent = func(isRead bool, t flvio.Tag) {
			i := 0
			if isRead {
				i = 1
			}
			t.Data = append([]byte(nil), t.Data...)
			o.tags[i] = append(o.tags[i], t)
		}
	}
	if o.stagesOn {
		c.LogStageEvent = func(event string, url string) {
			o.stages = append(o.stages, event+" "+url)
		}
	}
}

// run sends the packets in a session and returns what was received and both
// directions of the wire as each end saw it.
func observe(c *mc.Ctx, what string, publish bool, pkts []av.Packet, so, co *observed, access bool) (got []av.Packet, sw, cw *wrapped) {
	s := newSetup(c, 0, true)
	s.onNew = func(x *rtmp.Conn) {
		x.SendSampleAccess = access
		if so != nil {
			so.hook(x)
		}
	}
	s.onCli = func(x *rtmp.Conn) {
		if co != nil {
			co.at = len(s.cw.wb)
			co.hook(x)
		}
	}
	s.start(publish)
	if s.cliErr != nil || s.handled != 1 {
		c.FailK("setup", "%s: setup failed: %v", what, s.cliErr)
	}
	w := s.srv
	if publish {
		w = s.cli
	}
	for _, p := range pkts {
		if err := w.WritePacket(p); err != nil {
			c.FailK("media", "%s: writing: %v", what, err)
		}
	}
	if err := w.Flush(); err != nil {
		c.FailK("media", "%s: flush: %v", what, err)
	}
	vs.Wait()
	got = append(got, s.got...)
	sw, cw = s.sw, s.cw
	s.end()
	return
}

func observers(c *mc.Ctx, depth int) {
	publish, access := c.Bool(), c.Bool()
	set := 1 + c.Choose(7)
	n := 1
	if depth > 0 {
		n += c.Choose(depth)
	}
	var pkts []av.Packet
	if depth == 0 { // past the acknowledgement window
		n = 3
		for i := 0; i < n; i++ {
			pkts = append(pkts, av.Packet{Type: av.H264, IsKeyFrame: true, Data: bytes.Repeat([]byte{byte(i), 7}, 700000)})
		}
	}
	for i := len(pkts); i < n; i++ {
		pkts = append(pkts, alphabet[c.Choose(len(alphabet))])
	}
	what := fmt.Sprintf("publish=%v hooks=%03b sample access=%v %s", publish, set, access, spl(pkts))
	c.State(what)
	if r := vs.Bubble(func() {
		mk := func() *observed {
			return &observed{chunkOn: set&1 != 0, tagsOn: set&2 != 0, stagesOn: set&4 != 0}
		}
		so, co := mk(), mk()
		plain, psw, pcw := observe(c, what, publish, pkts, nil, nil, access)
		got, sw, cw := observe(c, what, publish, pkts, so, co, access)
		// the hooks change nothing
		if len(plain) != len(pkts) || len(got) != len(pkts) {
			c.FailK("media", "%s: %d packets arrived without and %d with hooks", what, len(plain), len(got))
		}
		for i := range got {
			if !eqPkt(norm(got[i]), norm(plain[i])) {
				c.FailK("media", "%s: packet %d differs with hooks", what, i)
			}
		}
		const hs = rm.HelloLen
		if !bytes.Equal(psw.wb[hs:], sw.wb[hs:]) || !bytes.Equal(pcw.wb[hs:], cw.wb[hs:]) {
			c.FailK("wire", "%s: other bytes are sent with hooks set", what)
		}
		// the server's hooks are there from the start, the client's once it is connected
		if so.chunkOn {
			if !bytes.Equal(so.wr, sw.wb[hs:]) && !bytes.Equal(so.wr, sw.wb) {
				c.FailK("data", "%s: the server reports %d bytes written, %d were after the handshake", what, len(so.wr), len(sw.wb)-hs)
			}
			// a sending connection drops what it gets after the setup
			if !bytes.Equal(so.rd, sw.rb[hs:]) && !bytes.Equal(so.rd, sw.rb) && (publish || !bytes.HasPrefix(sw.rb[hs:], so.rd)) {
				c.FailK("data", "%s: the server reports %d bytes read, %d were after the handshake", what, len(so.rd), len(sw.rb)-hs)
			}
			if !bytes.Equal(co.wr, cw.wb[co.at:]) {
				c.FailK("data", "%s: the client reports %d bytes written, %d were since the hook was set", what, len(co.wr), len(cw.wb)-co.at)
			}
			if publish && len(co.rd) != 0 || !publish && (len(co.rd) == 0 || !bytes.HasSuffix(cw.rb, co.rd)) {
				c.FailK("data", "%s: the client reports %d bytes read since the hook was set", what, len(co.rd))
			}
			if !publish {
				// all of the media: everything from the first message on
				d := rm.NewDec()
				d.Feed(cw.rb[hs:])
				bodies := 0
				for _, m := range d.Msgs[len(d.Msgs)-n:] {
					bodies += len(m.Data)
				}
				if len(co.rd) < bodies {
					c.FailK("data", "%s: the client reports %d bytes read, the media had %d", what, len(co.rd), bodies)
				}
			}
		}
		if so.tagsOn {
			w, r := so, co
			if publish {
				w, r = co, so
			}
			if len(w.tags[1]) != 0 || len(r.tags[0]) != 0 {
				c.FailK("tags", "%s: %d tags reported as read by the sender, %d as written by the receiver", what, len(w.tags[1]), len(r.tags[0]))
			}
			rt := r.tags[1]
			if access && !publish {
				// the notice is a data message of its own
				if len(rt) == 0 {
					c.FailK("tags", "%s: no tags", what)
				}
				if v, err := rm.ParseAMF0(rt[0].Data); err != nil || len(v) != 3 || v[0] != "|RtmpSampleAccess" {
					if len(rt) != n {
						c.FailK("tags", "%s: first tag %v", what, v)
					}
				} else {
					rt = rt[1:]
				}
			}
			if len(w.tags[0]) != n || len(rt) != n {
				c.FailK("tags", "%s: %d tags reported written, %d read, of %d", what, len(w.tags[0]), len(rt), n)
			}
			for i := range rt {
				a, b := w.tags[0][i], rt[i]
				if a.Type != b.Type || a.Time != b.Time || !bytes.Equal(a.Data, b.Data) || a.FrameType != b.FrameType || a.AVCPacketType != b.AVCPacketType || a.AACPacketType != b.AACPacketType || a.CTime != b.CTime {
					c.FailK("tags", "%s: tag %d reported as %+v written and %+v read", what, i, a, b)
				}
				if p := pkts[i]; a.Time != uint32(p.Time.Milliseconds()) || p.Type != av.Metadata && !bytes.Equal(a.Data, p.Data) {
					c.FailK("tags", "%s: tag %d reported as %+v", what, i, a)
				}
			}
		} else if len(so.tags[0])+len(so.tags[1]) > 0 {
			c.FailK("model", "tags without a hook")
		}
		if so.stagesOn {
			want := []string{"RtmpStageHandshakeDone ", "RtmpServerPlay " + stdURL, "RtmpStageCommandDone ", "RtmpStageDataStart "}
			if publish {
				want = []string{"RtmpStageHandshakeDone ", "RtmpServerPublish " + stdURL, "RtmpStageCommandDone ", "RtmpStageDataStart "}
			}
			if !reflect.DeepEqual(so.stages, want) && !(publish && reflect.DeepEqual(so.stages, want[:3])) { // starting to send is not for receivers
				c.FailK("stages", "%s: the server reports the stages %q", what, so.stages)
			}
			if want = []string{"RtmpStageDataStart "}; !reflect.DeepEqual(co.stages, want) && (publish || len(co.stages) > 0) {
				c.FailK("stages", "%s: the client reports the stages %q", what, co.stages)
			}
		}
		c.Step(2 * n)
		c.Outcome(publish, set, access, len(so.stages))
		c.Validated(1)
	}); r != nil {
		panic(r)
	}
}

func r12(tier string) []mc.Exploration {
	depth := 2
	if tier == "thorough" {
		depth = 4
	}
	return []mc.Exploration{
		{Name: "hooks", Rule: fmt.Sprintf("publish and play sessions between the real endpoints x every set of the hooks for chunk data, tags and stages at both ends x the sample access notice on or off x all sequences of up to %d packets over %d kinds: what the hooks report against the transport and the packets, and the same session without hooks", depth, len(alphabet)), Run: func(c *mc.Ctx) { observers(c, depth) }},
		{Name: "acknowledged", AllocLimit: 1 << 30, Rule: "the same for three packets of 1.4 MB, past the acknowledgement window", Run: func(c *mc.Ctx) { observers(c, 0) }},
	}
}
