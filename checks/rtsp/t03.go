package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/nareix/joy5/format/rtsp"

	"joyverif/h264model"
	"joyverif/mc"
)

// consume uses the client as long as there is anything to read.
func consume(c *mc.Ctx, s *srv, cl *rtsp.Client) {
	errs, pkts := 0, 0
	for n := 0; ; n++ {
		had := len(s.out)
		reads := s.reads
		pkt, err := cl.ReadPacket()
		c.Step(1)
		if err == rtsp.ErrCodecChange {
			if cl, err = cl.HandleCodecChange(); err != nil {
				c.FailK("change", "HandleCodecChange: %v", err)
			}
			continue
		}
		if s.stalled {
			c.FailK("stall", "reads on after the end of the connection")
		}
		if err == nil {
			pkts++
			if len(pkt.Data) > 1<<20 {
				c.FailK("media", "packet of %d bytes", len(pkt.Data))
			}
		} else {
			errs++
			if len(s.out) == 0 && s.reads > reads {
				break // the end was reported
			}
		}
		if n > 20000 {
			c.FailK("loop", "%d packets and %d errors from %d bytes (%d left)", pkts, errs, s.read, had)
		}
	}
	cl.Close()
	c.Outcome(pkts, errs > 1)
}

// fixed is a client on a server that says what it says whatever it is asked.
func fixed(c *mc.Ctx, out []byte, skip bool, creds string) {
	s := &srv{c: c, out: append([]byte(nil), out...), eof: true}
	host, done := register(s)
	defer done()
	cl, err := rtsp.Dial("rtsp://" + creds + host + "/s")
	if err != nil {
		c.FailK("dial", "%v", err)
	}
	cl.SkipErrRtpBlock = skip
	consume(c, s, cl)
}

var rec struct {
	once sync.Once
	all  []byte
	pre  []byte // up to the first medium
}

// recorded is everything a server sends in a session.
func recorded() ([]byte, []byte) {
	rec.once.Do(func() {
		sc := scenario{path: "/s", session: "S1;timeout=60", errAt: -1, eol: "\r\n", reason: "OK", creds: "user:pass@"}
		sc.auth = auths[2]
		sc.auth.user, sc.auth.pass = "user", "pass"
		sc.tracks = []track{vtrack("t1"), atrack("t2")}
		sc.only = []int{0, 1}
		s, addr, done := startServer(nil, sc)
		defer done()
		s.media = func() []byte { return nil }
		base := s.onReq
		s.onReq = func(r *request) {
			n := len(s.out)
			base(r)
			rec.pre = append(rec.pre, s.out[n:]...)
		}
		cl, err := rtsp.Dial(addr)
		if err == nil {
			if err = cl.SetupAll(); err == nil {
				err = cl.Play()
			}
		}
		if err != nil || s.bad != "" {
			panic(fmt.Sprint("recording: ", err, s.bad))
		}
		all := append([]byte(nil), rec.pre...)
		pv := &packer{t: sc.tracks[0], seq: 65534, ts0: 0xffffff00}
		pa := &packer{t: sc.tracks[1], seq: 1, ts0: 5}
		us := []unit{{video: true, data: nal(5, 9, 1)}, {video: true, data: nal(1, 12, 2), ts: 900}, {video: true, data: spsA, ts: 1800}, {video: true, data: ppsA, ts: 1800}, {video: true, data: nal(1, 4, 3), ts: 1800}}
		us[0].pkts = append(us[0].pkts, pv.add(0, us[0].data, true))
		pv.fu(&us[1], []int{4, 8, 11})
		pv.stap([]*unit{&us[2], &us[3], &us[4]})
		pv.pkts[0].csrc, pv.pkts[0].ext, pv.pkts[0].pad = 1, 1, 3
		pa.add(0, append(auHeader([]int{3, 2}, pa.t), 1, 2, 3, 4, 5), true)
		pa.add(2048, append(auHeader([]int{6}, pa.t), 1, 2, 3), false)
		pa.add(2048, append(auHeader([]int{6}, pa.t), 4, 5, 6), true)
		for i := range pv.pkts {
			all = append(all, block(0, pv.pkts[i].bytes())...)
			if i < len(pa.pkts) {
				all = append(all, block(2, pa.pkts[i].bytes())...)
			}
			if i == 1 {
				all = append(all, block(1, rtcp())...)
			}
		}
		rec.all = all
	})
	return rec.all, rec.pre
}

var t03bytes = []byte{0, 0xff, '$', 'R', '\r', '\n', ' ', '9', '-', ':', '"', ',', ';', '='}

func alterRun(c *mc.Ctx, pairs bool) {
	all, pre := recorded()
	b := append([]byte(nil), all...)
	skip := c.Bool()
	from := 0
	if pairs {
		from = len(pre) // the media only
	}
	alter := func(lo, hi int, values []byte) int {
		i := lo + c.Choose(hi-lo)
		k := c.Choose(len(values) + 7)
		switch {
		case k < len(values):
			b[i] = values[k]
		case k == len(values):
			b[i] ^= 1
		case k == len(values)+1:
			b[i] ^= 0x80
		case k == len(values)+2:
			b[i]++
		case k == len(values)+3:
			b[i]--
		case k == len(values)+4:
			b = append(b[:i], b[i+1:]...)
		case k == len(values)+5:
			b = append(b[:i], append([]byte{'$'}, b[i:]...)...)
		default:
			b = b[:i]
		}
		c.Logf("alteration %d at %d", k, i)
		return i
	}
	if !pairs {
		alter(from, len(b), t03bytes)
	} else {
		i := alter(from, len(b), []byte{0, 0xff})
		if i+1 >= len(b) {
			c.Prune()
		}
		alter(i+1, min(len(b), i+17), []byte{0, 0xff})
	}
	fixed(c, b, skip, "user:pass@")
}

// payloadRun: whole RTP payloads over an alphabet, as one packet or several.
func payloadRun(c *mc.Ctx, n, packets int, alpha []byte) {
	t := vtrack("t1")
	pl := newPlayer(c, []track{t})
	defer pl.done()
	pl.cl.SkipErrRtpBlock = c.Bool()
	p := &packer{c: c, t: t, seq: 9, ts0: 1}
	for i := 0; i < packets; i++ {
		l := c.Choose(n + 1)
		var b []byte
		for j := 0; j < l; j++ {
			b = append(b, alpha[c.Choose(len(alpha))])
		}
		p.add(int64(i), b, true)
		pl.s.out = append(pl.s.out, block(0, p.pkts[i].bytes())...)
		c.Logf("payload %x", b)
	}
	pl.s.eof = true
	consume(c, pl.s.srv, pl.cl)
}

// aggregateRun: nested and truncated aggregates, start codes and fragments.
func aggregateRun(c *mc.Ctx, n int) {
	t := vtrack("t1")
	parts := [][]byte{
		{0x78}, {0x7c, 0x98}, {0x7c, 0x9c}, {0x7c, 0xdc}, {0x7c, 0x5c}, {0x7c, 0xd8}, {0x7c, 0x45}, {0x7c},
		{0, 0, 0, 1}, {0, 0, 1}, {0, 1}, {0, 2}, {0, 3}, {0, 0}, {0xff, 0xff}, {0, 5, 0x78, 0, 2, 0x65, 1}, {0x65, 0x88}, {0x67, 0x42, 0, 0x1e}, {0x68}, {0x67}, {0x7d}, {0x79, 0, 0}, {0x7f},
		spsA, ppsA, h264model.Basic(0, 8, 6).NAL(), append(h264model.PPS(0, 0), 0x80),
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	pl.cl.SkipErrRtpBlock = c.Bool()
	p := &packer{c: c, t: t, seq: 9, ts0: 1}
	var b []byte
	for i := 0; i < n; i++ {
		k := c.Choose(len(parts) + 1)
		if k == len(parts) {
			break
		}
		b = append(b, parts[k]...)
		if i < n-1 && c.Choose(2) == 1 {
			p.add(0, b, false)
			c.Logf("payload %x", b)
			b = nil
		}
	}
	p.add(0, b, true)
	c.Logf("payload %x", b)
	for i := range p.pkts {
		pl.s.out = append(pl.s.out, block(0, p.pkts[i].bytes())...)
	}
	pl.s.eof = true
	consume(c, pl.s.srv, pl.cl)
}

// headerRun: RTP and block headers of any form and any length.
func headerRun(c *mc.Ctx, blocks int) {
	tracks := []track{vtrack("t1"), atrack("t2")}
	pl := newPlayer(c, tracks)
	defer pl.done()
	pl.cl.SkipErrRtpBlock = c.Bool()
	for i := 0; i < blocks; i++ {
		h := []byte{[]byte{0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb1, 0, 0xff}[c.Choose(9)], []byte{96, 97, 96 | 0x80, 0}[c.Choose(4)], 0, byte(i), 0, 0, 0, 9, 1, 2, 3, 4}
		tail := [][]byte{{}, {0x65, 1}, {0, 0, 0, 0, 0x65}, {0, 0, 0, 1, 0, 0, 0, 0}, {0, 0, 0xff, 0xff}, {0x7c, 0x85, 0xff}, {0x41, 1, 9}, {1, 0, 0}, {0, 16, 0, 8, 1}}[c.Choose(9)]
		b := append(h, tail...)
		cut := len(b)
		if k := c.Choose(len(b) + 1); k > 0 {
			cut = k - 1
		}
		b = b[:cut]
		ch := []int{0, 2, 1, 3, 4, 255}[c.Choose(6)]
		blk := block(ch, b)
		if i == 0 {
			switch c.Choose(3) {
			case 1: // longer than it is
				blk[3] += 5
			case 2:
				blk[2] = 0xff
			}
		}
		c.Logf("block %x", blk)
		pl.s.out = append(pl.s.out, blk...)
	}
	// something sound afterwards
	p := rtpPkt{pt: 96, seq: 77, ts: 100, ext: -1, marker: true, payload: nal(1, 4, 1)}
	pl.s.out = append(pl.s.out, block(0, p.bytes())...)
	pl.s.eof = true
	consume(c, pl.s.srv, pl.cl)
}

// aacBytesRun: AAC payloads of any form under any declared header lengths.
func aacBytesRun(c *mc.Ctx, n, packets int) {
	t := atrack("t1")
	t.sizes = []string{
		"sizelength=13;indexlength=3;indexdeltalength=3;", "", "sizelength=0;indexlength=0;", "sizelength=0;indexlength=5;", "sizelength=1;indexlength=0;",
		"sizelength=32;indexlength=32;", "sizelength=33;indexlength=3;", "sizelength=-1;indexlength=3;", "sizelength=6;indexlength=-6;", "sizelength=64;indexlength=0;",
		"sizelength=99999999999999999999;indexlength=1;", "sizelength=8;indexlength=0;",
	}[c.Choose(12)]
	pl := newPlayer(c, []track{t})
	defer pl.done()
	pl.cl.SkipErrRtpBlock = c.Bool()
	p := &packer{c: c, t: t, seq: 9, ts0: 1}
	for i := 0; i < packets; i++ {
		var b []byte
		switch k := c.Choose(10); k {
		case 0:
		case 1:
			b = []byte{0}
		default:
			bits := []int{0, 1, 8, 16, 17, 32, 64, 65535}[k-2]
			b = []byte{byte(bits >> 8), byte(bits)}
			l := c.Choose(n + 1)
			for j := 0; j < l; j++ {
				b = append(b, []byte{0, 8, 0x10, 0xff}[c.Choose(4)])
			}
		}
		p.add(int64(i/2)*1024, b, true)
		pl.s.out = append(pl.s.out, block(0, p.pkts[i].bytes())...)
		c.Logf("payload %x", b)
	}
	pl.s.eof = true
	consume(c, pl.s.srv, pl.cl)
}

// replyRun: replies put together from odd pieces at every stage.
func replyRun(c *mc.Ctx, n int) {
	lines := []string{
		"RTSP/1.0 200 OK", "RTSP/1.0 401 Unauthorized", "RTSP/1.0 100 Continue", "RTSP/1.0", "RTSP/1.0 -1", "RTSP/1.0 99999999999999999999", "RTSP", "RTSP ", "XRTSP/1.0 200 OK", "RTSP/1.0  200",
	}
	heads := []string{
		"", "CSeq: 1", "Session: ", "Session: ;", "Session:;;;", "Content-Length: -5", "Content-Length: 5", "Content-Length: 4000000000", "Content-Length: 99999999999999999999", "content-length: 3\r\nContent-Length: 2",
		"WWW-Authenticate: ", "WWW-Authenticate: Digest", "WWW-Authenticate: Digest realm", "WWW-Authenticate: Digest realm=", `WWW-Authenticate: Digest realm="`, `WWW-Authenticate: Digest realm="a", nonce="`, "WWW-Authenticate: Basic realm=x,,,=,=,", "WWW-Authenticate: X realm=\x00\"\"\"=,",
		": x", "NoColon", " folded", "\x00: \xff", "Transport: RTP/AVP/TCP;interleaved=9-8", "Transport: ;;;",
	}
	bodies := []string{"", "v=0\r\n", "\r\n\r\n", "$\x00\x00\x0c", "RTSP/1.0 200 OK\r\n\r\n"}
	_, pre := recorded()
	replies := strings.SplitAfter(string(pre), "\r\n\r\n")
	stage := c.Choose(5)
	out := strings.Join(replies[:min(stage, len(replies))], "")
	l := lines[c.Choose(len(lines))]
	e := []string{"\r\n", "\n", "\r", "\n\r"}[c.Choose(4)]
	out += l + e
	for i := 0; i < n; i++ {
		if h := heads[c.Choose(len(heads))]; h != "" {
			out += h + e
		}
	}
	out += e + bodies[c.Choose(len(bodies))]
	rest := c.Bool()
	if rest {
		out += strings.Join(replies[min(stage+1, len(replies)):], "")
	}
	c.Logf("stage %d: %q", stage, out)
	fixed(c, []byte(out), true, []string{"user:pass@", ""}[c.Choose(2)])
}

// linesRun: descriptions of odd lines, followed by media for what they declare.
func linesRun(c *mc.Ctx, n int) {
	lines := []string{
		"m=video 0 RTP/AVP 96", "m=audio 0 RTP/AVP 97", "m=audio 0 RTP/AVP 0", "m=video 0 RTP/AVP 35", "m=video", "m=video 0 RTP/AVP -5", "m=video 0 RTP/AVP 99999999999999999999", "m=video  ", "m=", "m=audio 0 RTP/AVP ",
		"a=rtpmap:96 H264/90000", "a=rtpmap:35 H264/90000", "a=rtpmap:0 H264/90000", "a=rtpmap:97 mpeg4-generic/44100", "a=rtpmap:96 H264/0", "a=rtpmap:96 H264/-90000", "a=rtpmap:96 H264/", "a=rtpmap:96 H264", "a=rtpmap:", "a=rtpmap", "a=rtpmap:96", "a=rtpmap:96 ", "a=rtpmap:0 mpeg4-generic/0",
		"a=rtpmap:97 mpeg4-generic/9223372036854775807", "a=rtpmap:96 H264/1",
		"a=fmtp:97 config=1210;sizelength=13;indexlength=3", "a=fmtp:97 config=", "a=fmtp:97 config=zz", "a=fmtp:97 config=12", "a=fmtp:97 config=ff", "a=fmtp:97 config=f80000", "a=fmtp:96 config=0000000167", "a=fmtp:96 config=00000001", "a=fmtp:96 config=0000000167420000000168",
		"a=fmtp:96 sprop-parameter-sets=", "a=fmtp:96 sprop-parameter-sets=,,,", "a=fmtp:96 sprop-parameter-sets=Zw==,aA==", "a=fmtp:96 sprop-parameter-sets=AAAAAQ==", "a=fmtp:96 sprop-parameter-sets=eA==,fA==,fNw=,fIU=", "a=fmtp:96 sprop-parameter-sets=AA==", "a=fmtp:96 sprop-parameter-sets=eAACZ0I=",
		"a=fmtp:96 ", "a=fmtp:96 ;;;=;=", "a=fmtp:", "a=control:", "a=control", "a=control:*", "a=control:rtsp://", "a=", "=", "x", "", "u=", "u=http://x",
	}
	var out []string
	for i := 0; i < n; i++ {
		k := c.Choose(len(lines) + 1)
		if k == len(lines) {
			break
		}
		out = append(out, lines[k])
	}
	eol := "\r\n"
	body := strings.Join(out, eol)
	if c.Bool() {
		body += eol
	}
	var b []byte
	b = append(b, fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: %d\r\n\r\n%s", len(body), body)...)
	for i := 0; i < 4; i++ {
		b = append(b, "RTSP/1.0 200 OK\r\nSession: 1\r\n\r\n"...)
	}
	for ch := 0; ch < 3; ch++ {
		for _, pt := range []int{96, 97, 0, 35, 123} {
			for k, pay := range [][]byte{nal(5, 4, 1), {0, 16, 0, 8, 1}, spsA, ppsA} {
				p := rtpPkt{pt: pt, seq: k, ts: uint32(k * 100), ext: -1, payload: pay}
				b = append(b, block(2*ch, p.bytes())...)
			}
		}
	}
	c.Logf("%q", body)
	fixed(c, b, c.Bool(), "")
}

func t03(tier string) []mc.Exploration {
	alpha := []byte{0, 1, 0x65, 0x67, 0x78, 0x7c, 0xc5, 0x85}
	n, n2, agg, lines, aacN, blocks, heads := 5, 2, 3, 2, 3, 1, 1
	if tier == "thorough" {
		n, n2, agg, lines, aacN, blocks, heads = 6, 3, 4, 3, 4, 2, 2
	}
	const lim = 8 << 20
	ex := []mc.Exploration{
		{Name: "alterations", Rule: "every byte of a session replaced, removed, doubled or the last", AllocLimit: lim, Run: func(c *mc.Ctx) { alterRun(c, false) }},
		{Name: "payloads", Rule: "H.264 payloads over an alphabet", AllocLimit: lim, Run: func(c *mc.Ctx) { payloadRun(c, n, 1, alpha) }},
		{Name: "payload pairs", Rule: "pairs of short H.264 payloads", AllocLimit: lim, Run: func(c *mc.Ctx) { payloadRun(c, n2, 2, append([]byte{0x68, 0xdc, 0x5c}, alpha...)) }},
		{Name: "aggregates", Rule: "aggregates, fragments and start codes in one another", AllocLimit: lim, Run: func(c *mc.Ctx) { aggregateRun(c, agg) }},
		{Name: "headers", Rule: "block and RTP headers cut at every place", AllocLimit: lim, Run: func(c *mc.Ctx) { headerRun(c, blocks) }},
		{Name: "aac payloads", Rule: "AAC payloads x declared header lengths", AllocLimit: lim, Run: func(c *mc.Ctx) { aacBytesRun(c, aacN, 1) }},
		{Name: "aac pairs", Rule: "pairs of AAC payloads x declared header lengths", AllocLimit: lim, Run: func(c *mc.Ctx) { aacBytesRun(c, aacN-2, 2) }},
		{Name: "replies", Rule: "odd replies at every stage", AllocLimit: lim, Run: func(c *mc.Ctx) { replyRun(c, heads) }},
		{Name: "descriptions", Rule: "descriptions of odd lines, then media", AllocLimit: lim, Run: func(c *mc.Ctx) { linesRun(c, lines) }},
	}
	if tier == "thorough" {
		ex = append(ex, mc.Exploration{Name: "alteration pairs", Rule: "two nearby bytes of the media altered", AllocLimit: lim, Run: func(c *mc.Ctx) { alterRun(c, true) }})
	}
	return ex
}
