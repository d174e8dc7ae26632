package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/rtsp"

	"joyverif/h264model"
	"joyverif/mc"
)

// unit is one media unit as it was before packetisation.
type unit struct {
	video bool
	data  []byte // NAL unit or AAC access unit
	ts    int64  // on the media clock
	// packets it travels in, by index
	pkts []int
}

// one is a delivered media unit.
type one struct {
	stream int
	data   []byte
	time   time.Duration
	key    bool
}

// player is a client in a running session with nothing sent yet.
type player struct {
	s    *server
	cl   *rtsp.Client
	done func()
}

func newPlayer(c *mc.Ctx, tracks []track) *player {
	sc := scenario{path: "/s", session: "S1", errAt: -1, eol: "\r\n", reason: "OK", tracks: tracks}
	for i := range tracks {
		sc.only = append(sc.only, i)
	}
	s, addr, done := startServer(c, sc)
	s.media = func() []byte { return nil }
	cl, err := rtsp.Dial(addr)
	if err != nil {
		c.FailK("dial", "%v", err)
	}
	if err := cl.Describe(); err != nil {
		c.FailK("session", "describe: %v", err)
	}
	if err := cl.SetupAll(); err != nil {
		c.FailK("session", "setup: %v", err)
	}
	if err := cl.Play(); err != nil {
		c.FailK("session", "play: %v", err)
	}
	if s.bad != "" {
		c.FailK("session", "%s", s.bad)
	}
	return &player{s, cl, done}
}

// drain reads to the end; change tells how to go on after a codec change.
func (p *player) drain(c *mc.Ctx, tracks []track) (out []one, changes int) {
	p.s.eof = true
	for n := 0; ; n++ {
		pkt, err := p.cl.ReadPacket()
		if err == rtsp.ErrCodecChange && changes < 20 {
			changes++
			cl, err := p.cl.HandleCodecChange()
			if err != nil {
				c.FailK("change", "HandleCodecChange: %v", err)
			}
			p.cl = cl
			continue
		}
		if err != nil {
			if err.Error() != "EOF" && err.Error() != "unexpected EOF" {
				c.FailK("error", "after %d packets: %v", n, err)
			}
			return
		}
		c.Step(1)
		st := -1
		for i, t := range tracks {
			if t.kind == "V" && pkt.Type == av.H264 || t.kind == "A" && pkt.Type == av.AAC {
				st = i
			}
		}
		if st < 0 {
			c.FailK("type", "packet %v", pkt)
		}
		if pkt.Type == av.AAC {
			out = append(out, one{st, pkt.Data, pkt.Time, pkt.IsKeyFrame})
			continue
		}
		// every unit of the packet, length-prefixed
		b, key := pkt.Data, false
		first := len(out)
		for len(b) > 0 {
			if len(b) < 4 {
				c.FailK("framing", "packet data %x", pkt.Data)
			}
			l := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
			if l > len(b)-4 || l == 0 {
				c.FailK("framing", "packet data %x", pkt.Data)
			}
			out = append(out, one{st, b[4 : 4+l], pkt.Time, false})
			if b[4]&0x1f == 5 {
				key = true
			}
			b = b[4+l:]
		}
		if first == len(out) {
			c.FailK("framing", "empty packet %v", pkt)
		}
		if key != pkt.IsKeyFrame {
			c.FailK("key", "packet %x has key flag %v", pkt.Data, pkt.IsKeyFrame)
		}
	}
}

func slice(u unit) bool { t := u.data[0] & 0x1f; return t >= 1 && t <= 5 }

// expect is what a stream of units has to come out as; got says which of the
// RTP packets arrived.
func expect(units []unit, rate int, got func(int) bool) (out []one) {
	var base int64
	have := false
	for _, u := range units {
		if u.video && !slice(u) {
			continue
		}
		all := true
		for _, k := range u.pkts {
			all = all && got(k)
		}
		if !all {
			continue
		}
		if !have {
			base, have = u.ts, true
		}
		d := u.ts - base
		sec, rem := d/int64(rate), d%int64(rate)
		out = append(out, one{0, u.data, time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/time.Duration(rate), false})
	}
	return
}

func compare(c *mc.Ctx, got, want []one) {
	for i := 0; i < len(got) && i < len(want); i++ {
		if !bytes.Equal(got[i].data, want[i].data) {
			c.FailK("media", "unit %d is %.80x, want %.80x", i, got[i].data, want[i].data)
		}
		if got[i].time != want[i].time {
			c.FailK("time", "unit %d has time %v, want %v", i, got[i].time, want[i].time)
		}
	}
	if len(got) != len(want) {
		c.FailK("count", "%d units came out, %d were sent", len(got), len(want))
	}
}

// packer turns units into RTP packets.
type packer struct {
	c    *mc.Ctx
	t    track
	seq  int
	ts0  uint32
	pkts []rtpPkt
}

func (p *packer) add(ts int64, payload []byte, marker bool) int {
	p.pkts = append(p.pkts, rtpPkt{pt: p.t.pt, seq: p.seq & 0xffff, ts: p.ts0 + uint32(ts), ext: -1, marker: marker, payload: payload})
	p.seq++
	return len(p.pkts) - 1
}

// cuts chooses where to cut n bytes into at least min pieces.
func cutPlaces(c *mc.Ctx, n, min, max int) []int {
	k := min + c.Choose(max-min+1)
	var out []int
	last := 0
	for i := 0; i < k-1; i++ {
		room := n - (k - 1 - i) - last
		if room < 1 {
			c.Prune()
		}
		last += 1 + c.Choose(room)
		out = append(out, last)
	}
	return append(out, n)
}

func (p *packer) fu(u *unit, ends []int) {
	body := u.data[1:]
	last := 0
	for i, e := range ends {
		h := u.data[0] & 0x1f
		if i == 0 {
			h |= 0x80
		}
		if i == len(ends)-1 {
			h |= 0x40
		}
		b := append([]byte{u.data[0]&0xe0 | 28, h}, body[last:e]...)
		last = e
		u.pkts = append(u.pkts, p.add(u.ts, b, i == len(ends)-1))
	}
}

func (p *packer) stap(us []*unit) {
	b := []byte{0x60 | 24}
	for _, u := range us {
		b = append(b, byte(len(u.data)>>8), byte(len(u.data)))
		b = append(b, u.data...)
	}
	k := p.add(us[0].ts, b, true)
	for _, u := range us {
		u.pkts = append(u.pkts, k)
	}
}

// video packs the units in every way: alone, with the following ones of the
// same time, or in fragments.
func (p *packer) video(units []unit, maxFrag int) {
	for i := 0; i < len(units); {
		run := 1
		for i+run < len(units) && units[i+run].ts == units[i].ts {
			run++
		}
		kinds := 1 + run // alone, aggregates of 1..run
		fu := len(units[i].data) >= 3
		if fu {
			kinds++
		}
		k := p.c.Choose(kinds)
		switch {
		case k == 0:
			units[i].pkts = append(units[i].pkts, p.add(units[i].ts, units[i].data, run == 1))
			i++
		case k <= run:
			var us []*unit
			for j := 0; j < k; j++ {
				us = append(us, &units[i+j])
			}
			p.stap(us)
			i += k
		default:
			p.fu(&units[i], cutPlaces(p.c, len(units[i].data)-1, 2, min(maxFrag, len(units[i].data)-1)))
			i++
		}
	}
}

func auHeader(sizes []int, track track) []byte {
	sl, il := 13, 3
	fmt.Sscanf(track.sizes, "sizelength=%d;indexlength=%d;", &sl, &il)
	var w h264model.Bits
	for _, s := range sizes {
		w.U(uint64(s), sl)
		w.U(0, il)
	}
	n := w.Len()
	return append([]byte{byte(n >> 8), byte(n)}, w.Pad()...)
}

// audio packs access units: aggregates of up to max, or fragments.
func (p *packer) audio(units []unit, max int) {
	for i := 0; i < len(units); {
		run := min(max, len(units)-i)
		kinds := run
		if len(units[i].data) >= 2 {
			kinds++
		}
		k := p.c.Choose(kinds)
		if k < run {
			var sizes []int
			var data []byte
			for j := 0; j <= k; j++ {
				sizes = append(sizes, len(units[i+j].data))
				data = append(data, units[i+j].data...)
			}
			n := p.add(units[i].ts, append(auHeader(sizes, p.t), data...), true)
			for j := 0; j <= k; j++ {
				units[i+j].pkts = append(units[i+j].pkts, n)
			}
			i += k + 1
			continue
		}
		d := units[i].data
		last := 0
		for _, e := range cutPlaces(p.c, len(d), 2, min(4, len(d))) {
			units[i].pkts = append(units[i].pkts, p.add(units[i].ts, append(auHeader([]int{len(d)}, p.t), d[last:e]...), e == len(d)))
			last = e
		}
		i++
	}
}

var nalKinds = []struct{ typ, n int }{{5, 6}, {1, 4}, {6, 3}, {7, 0}, {8, 0}, {9, 2}, {1, 2}, {10, 1}, {2, 3}, {12, 5}, {1, 3}, {3, 4}, {4, 3}}

func mkNAL(k, seed int) []byte {
	switch nalKinds[k].typ {
	case 7:
		return spsA
	case 8:
		return ppsA
	}
	return nal(nalKinds[k].typ, nalKinds[k].n, seed)
}

// packetsRun: NAL unit sequences in access units, in every packetisation.
func packetsRun(c *mc.Ctx, n int, kinds []int, maxFrag int) {
	t := vtrack("t1")
	var units []unit
	ts := int64(0)
	for i := 0; i < n; i++ {
		k := c.Choose(len(kinds) + 1)
		if k == len(kinds) {
			break
		}
		if i > 0 && c.Choose(2) == 1 {
			ts += 3600
		}
		units = append(units, unit{video: true, data: mkNAL(kinds[k], i+1), ts: ts})
	}
	p := &packer{c: c, t: t, seq: 65534, ts0: 0xfffffff0}
	p.video(units, maxFrag)
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("units %s", show(units))
	for i, k := range p.pkts {
		c.Logf("packet %d: %x", i, k.payload)
	}
	got, changes := pl.drain(c, []track{t})
	if changes > 0 {
		c.FailK("change", "a codec change without one")
	}
	compare(c, got, expect(units, t.rate, func(int) bool { return true }))
	c.State(show(units), len(p.pkts))
	c.Outcome(len(got))
}

func show(us []unit) string {
	s := ""
	if len(us) > 300 {
		us = us[:300]
	}
	for _, u := range us {
		s += fmt.Sprintf("%x@%d in %v; ", u.data, u.ts, u.pkts)
	}
	return s
}

// aacRun: AAC access units, aggregated and fragmented.
func aacRun(c *mc.Ctx, n int) {
	t := atrack("t1")
	sizes := []int{1, 5, 2, 8}
	switch c.Choose(8) {
	case 1:
		t.sizes = "sizelength=6;indexlength=2;indexdeltalength=2;"
	case 3: // headers that do not end with a byte
		t.sizes = "sizelength=10;indexlength=2;indexdeltalength=2;"
	case 4:
		t.sizes = "sizelength=7;indexlength=0;indexdeltalength=0;"
	case 5:
		t.sizes = "sizelength=16;indexlength=0;indexdeltalength=0;"
		sizes = []int{1, 300, 20000}
	case 6:
		t.sizes = "sizelength=20;indexlength=9;indexdeltalength=9;"
	case 7: // nothing declared: as in AAC-hbr
		t.sizes = ""
	case 2:
		t.sizes = "SizeLength=13; IndexLength=3; IndexDeltaLength=3; "
		sizes = []int{1, 300, 8191}
	}
	var units []unit
	for i := 0; i < n; i++ {
		k := c.Choose(len(sizes) + 1)
		if k == len(sizes) {
			break
		}
		d := make([]byte, sizes[k])
		for j := range d {
			d[j] = byte(16*(i+1) + j)
		}
		units = append(units, unit{data: d, ts: int64(i) * 1024})
	}
	p := &packer{c: c, t: t, seq: 65530, ts0: 0xffffff00}
	big := false
	for _, u := range units {
		big = big || len(u.data) > 100
	}
	if big {
		for i := range units {
			d := units[i].data
			if c.Choose(2) == 0 || len(d) < 2 {
				units[i].pkts = append(units[i].pkts, p.add(units[i].ts, append(auHeader([]int{len(d)}, t), d...), true))
				continue
			}
			h := len(d) / 2
			units[i].pkts = append(units[i].pkts, p.add(units[i].ts, append(auHeader([]int{len(d)}, t), d[:h]...), false))
			units[i].pkts = append(units[i].pkts, p.add(units[i].ts, append(auHeader([]int{len(d)}, t), d[h:]...), true))
		}
	} else {
		p.audio(units, 3)
	}
	lost := -1
	if k := c.Choose(len(p.pkts) + 1); k > 0 {
		lost = k - 1
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for i, k := range p.pkts {
		if i != lost {
			pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
		}
	}
	c.Logf("units %.300s lost %d", show(units), lost)
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(i int) bool { return i != lost }))
	c.Outcome(len(got), lost >= 0)
}

// lossRun: any set of packets of a fragmented stream is missing.
func lossRun(c *mc.Ctx, n int) {
	t := vtrack("t1")
	var units []unit
	p := &packer{c: c, t: t, seq: 65533, ts0: 5}
	sameTime := c.Bool()
	for i := 0; i < n; i++ {
		u := unit{video: true, ts: int64(i) * 3600}
		if sameTime {
			u.ts = 0
		}
		switch k := c.Choose(5); k {
		case 0:
			u.data = nal(1, 3, i+1)
			u.pkts = append(u.pkts, p.add(u.ts, u.data, true))
		case 4:
			u.data = nal(1, 3, i+1)
			us := []*unit{&u}
			p.stap(us)
		default: // 2..4 fragments
			u.data = nal([]int{5, 1, 1}[k-1], k+4, i+1)
			var ends []int
			for j := 0; j < k; j++ {
				ends = append(ends, j+1)
			}
			p.fu(&u, append(ends, len(u.data)-1))
		}
		units = append(units, u)
	}
	lost := make([]bool, len(p.pkts))
	for i := range lost {
		lost[i] = c.Dev(2) == 1
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for i, k := range p.pkts {
		if !lost[i] {
			pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
		}
	}
	c.Logf("units %s lost %v", show(units), lost)
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(i int) bool { return !lost[i] }))
	c.State(show(units), lost)
	c.Outcome(len(got))
}

// brokenRun: units whose first or last fragments were never sent.
func brokenRun(c *mc.Ctx, n int) {
	t := vtrack("t1")
	p := &packer{c: c, t: t, seq: 65533, ts0: 5}
	var units []unit
	open := false
	desc := ""
	for i := 0; i < n; i++ {
		u := unit{video: true, ts: int64(i) * 3600, data: nal([]int{1, 5}[i%2], 3+3*c.Choose(3), i+1)}
		if c.Choose(3) == 0 {
			u.pkts = append(u.pkts, p.add(u.ts, u.data, true))
			units = append(units, u)
			desc += "s"
			continue
		}
		body := u.data[1:]
		k := 2 + c.Choose(2)
		if k > len(body) {
			c.Prune()
		}
		from, to := 0, k
		switch c.Choose(3) {
		case 1:
			from = 1 + c.Choose(k-1)
		case 2:
			to = 1 + c.Choose(k-1)
		}
		if open && from > 0 {
			c.Prune() // cannot be told from a whole unit
		}
		for j := from; j < to; j++ {
			h := u.data[0] & 0x1f
			if j == 0 {
				h |= 0x80
			}
			if j == k-1 {
				h |= 0x40
			}
			e := len(body)
			if j < k-1 {
				e = j + 1
			}
			u.pkts = append(u.pkts, p.add(u.ts, append([]byte{u.data[0]&0xe0 | 28, h}, body[j:e]...), j == k-1))
		}
		open = to < k
		desc += fmt.Sprintf("(%d-%d/%d)", from, to, k)
		if from == 0 && to == k {
			units = append(units, u)
		}
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("units %s", desc)
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(int) bool { return true }))
	c.State(desc)
	c.Outcome(len(got))
}

// formRun: every form of RTP header around known payloads.
func formRun(c *mc.Ctx) {
	t := vtrack("t1")
	p := &packer{c: c, t: t, seq: 1, ts0: 77}
	us := []unit{{video: true, data: nal(5, 6, 1), ts: 0}, {video: true, data: nal(1, 7, 2), ts: 3600}, {video: true, data: nal(1, 3, 3), ts: 7200}}
	us[0].pkts = append(us[0].pkts, p.add(0, us[0].data, true))
	p.fu(&us[1], []int{3, 6})
	us[2].pkts = append(us[2].pkts, p.add(7200, us[2].data, false))
	k := c.Choose(len(p.pkts))
	for i := range p.pkts {
		if i == k || c.Choose(2) == 1 {
			x := &p.pkts[i]
			x.csrc = []int{0, 1, 15, 2}[c.Choose(4)]
			x.ext = []int{-1, 0, 1, 3, 300}[c.Choose(5)]
			x.pad = []int{0, 1, 4, 255}[c.Choose(4)]
			if i == k {
				x.marker = c.Bool()
			}
			if i != k {
				break
			}
		}
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("packets %+v", p.pkts)
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(us, t.rate, func(int) bool { return true }))
	c.Outcome(len(got))
}

// lengthRun: blocks of every length, and headers whose bytes look like other things.
func lengthRun(c *mc.Ctx, max int) {
	t := vtrack("t1")
	k := c.Choose(max + 5)
	n := k + 1
	if k >= max {
		n = []int{1400, 0x2424 - 12, 0x5254 - 12, 65523, 65522}[k-max]
	}
	p := &packer{c: c, t: t, seq: []int{5, 0x2424, 0x2452, 0x5254}[c.Choose(4)], ts0: []uint32{9, 0x24242424, 0x52545350, 0x24}[c.Choose(4)]}
	fill := []byte{'$', 'R', 0, 0xff}[c.Choose(4)]
	var units []unit
	for i := 0; i < 2; i++ {
		d := bytes.Repeat([]byte{fill}, n)
		d[0] = 0x61
		u := unit{video: true, data: d, ts: int64(i) * 3600}
		u.pkts = append(u.pkts, p.add(u.ts, d, true))
		units = append(units, u)
		n = 7
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("%d bytes of %x, seq %x ts %x", len(units[0].data), fill, p.seq-2, p.ts0)
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(int) bool { return true }))
	c.Outcome(len(got))
}

// mixRun: two streams, control packets and replies in every order.
func mixRun(c *mc.Ctx, nv, na int) {
	tracks := []track{vtrack("t1"), atrack("t2")}
	if c.Bool() {
		tracks[0], tracks[1] = tracks[1], tracks[0]
	}
	vi := 0
	if tracks[0].kind == "A" {
		vi = 1
	}
	pv := &packer{c: c, t: tracks[vi], seq: 10, ts0: 0}
	pa := &packer{c: c, t: tracks[1-vi], seq: 20, ts0: 0xffffffff - 1500}
	var uv, ua []unit
	for i := 0; i < nv; i++ {
		u := unit{video: true, data: append(nal([]int{5, 1, 1, 1}[i], 5, i), '$', 0, 0, 9, 'R', 'T', 'S', 'P'), ts: int64(i) * 1800}
		uv = append(uv, u)
	}
	uv[0].pkts = append(uv[0].pkts, pv.add(0, uv[0].data, true))
	if nv > 1 {
		pv.fu(&uv[1], []int{4, len(uv[1].data) - 1})
	}
	for i := 2; i < nv; i++ {
		uv[i].pkts = append(uv[i].pkts, pv.add(uv[i].ts, uv[i].data, true))
	}
	for i := 0; i < na; i++ {
		ua = append(ua, unit{data: []byte{byte(i), '$', 'R', 0, 0}, ts: int64(i) * 1024})
	}
	pa.t.sizes = tracks[1-vi].sizes
	for i := range ua {
		ua[i].pkts = append(ua[i].pkts, pa.add(ua[i].ts, append(auHeader([]int{5}, pa.t), ua[i].data...), true))
	}
	pl := newPlayer(c, tracks)
	defer pl.done()
	var others [][]byte
	others = append(others,
		block(pl.s.channels[0]+1, rtcp()),
		block(pl.s.channels[1]+1, rtcp()[:8]),
		[]byte("RTSP/1.0 200 OK\r\nCSeq: 99\r\nServer: $RTSP\r\nContent-Length: 6\r\n\r\n$RTSP\n"),
		[]byte("RTSP/1.0 454 Session Not Found\r\nCSeq: 98\r\n\r\n"),
		[]byte("OPTIONS rtsp://h/s RTSP/1.0\r\nCSeq: 1\r\n\r\n"),
	)
	a, b := pv.pkts, pa.pkts
	order := ""
	extra := 0
	for len(a)+len(b) > 0 {
		if extra < 2 {
			if k := c.Dev(len(others) + 1); k > 0 {
				pl.s.out = append(pl.s.out, others[k-1]...)
				order += fmt.Sprint(k)
				extra++
			}
		}
		if len(b) == 0 || (len(a) > 0 && c.Choose(2) == 0) {
			pl.s.out = append(pl.s.out, block(pl.s.channels[vi], a[0].bytes())...)
			a = a[1:]
			order += "v"
		} else {
			pl.s.out = append(pl.s.out, block(pl.s.channels[1-vi], b[0].bytes())...)
			b = b[1:]
			order += "a"
		}
	}
	if f := c.Choose(3); f > 0 {
		pl.s.frag = func(int) int { return []int{0, 1, 5}[f] }
	}
	c.Logf("order %s, video is stream %d", order, vi)
	got, _ := pl.drain(c, tracks)
	var gv, ga []one
	for _, g := range got {
		if g.stream == vi {
			gv = append(gv, g)
		} else {
			ga = append(ga, g)
		}
	}
	all := func(int) bool { return true }
	compare(c, gv, expect(uv, 90000, all))
	compare(c, ga, expect(ua, 44100, all))
	c.State(order)
	c.Outcome(len(got))
}

// clockRun: starts and steps of the RTP clock.
func clockRun(c *mc.Ctx, n int) {
	t := vtrack("t1")
	t.rate = []int{90000, 8000, 44100, 1000}[c.Choose(4)]
	start := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffc00}[c.Choose(6)]
	p := &packer{c: c, t: t, seq: 65535, ts0: start}
	var units []unit
	ts := int64(0)
	for i := 0; i < n; i++ {
		if i > 0 {
			ts += []int64{0, 1, 3003, int64(t.rate) * 60 * 29}[c.Choose(4)]
		}
		u := unit{video: true, data: nal(1, 4, i), ts: ts}
		u.pkts = append(u.pkts, p.add(ts, u.data, true))
		units = append(units, u)
	}
	clockPlay(c, t, p, units)
}

// longRun: a session that outlives the RTP clock several times.
func longRun(c *mc.Ctx, n int) {
	t := vtrack("t1")
	t.rate = []int{90000, 44100, 1000000}[c.Choose(3)]
	step := int64(t.rate) * []int64{1, 600, 1740}[c.Choose(3)]
	p := &packer{c: c, t: t, seq: 65535, ts0: []uint32{0, 0xfffffff0}[c.Choose(2)]}
	var units []unit
	for i := 0; i < n; i++ {
		u := unit{video: true, data: nal(1, 4, i), ts: int64(i) * step}
		u.pkts = append(u.pkts, p.add(u.ts, u.data, true))
		units = append(units, u)
	}
	clockPlay(c, t, p, units)
}

func clockPlay(c *mc.Ctx, t track, p *packer, units []unit) {
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("rate %d start %d units %.400s", t.rate, p.ts0, show(units))
	got, _ := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(int) bool { return true }))
	c.Outcome(len(got))
}

// twin is another parameter set of the same length.
func twin(b []byte) []byte {
	b = append([]byte(nil), b...)
	b[len(b)-1] ^= 0x20
	return b
}

// paramRun: parameter sets in the description and in the stream.
func paramRun(c *mc.Ctx, n int) {
	sets := [][]byte{
		h264model.Basic(0, 4, 3).NAL(), h264model.Basic(0, 8, 6).NAL(), h264model.Basic(1, 4, 3).NAL(),
		h264model.PPS(0, 0), h264model.PPS(1, 0), append(h264model.PPS(0, 0), 0x80),
		// others of the same length
		h264model.Basic(0, 5, 3).NAL(), twin(h264model.PPS(0, 0)),
	}
	initial := [][]int{{}, {0, 3}, {0, 3, 4}, {0, 2, 3, 4}, {3, 0}, {0}}[c.Choose(6)]
	t := vtrack("t1")
	t.sprop = nil
	state := map[string][]byte{} // kind and id -> set
	put := func(k int) (replaced bool) {
		key := []string{"s0", "s0", "s1", "p0", "p1", "p0", "s0", "p0"}[k]
		old, was := state[key]
		state[key] = sets[k]
		return was && !bytes.Equal(old, sets[k])
	}
	for _, k := range initial {
		t.sprop = append(t.sprop, sets[k])
		put(k)
	}
	p := &packer{c: c, t: t, seq: 3, ts0: 0}
	var units []unit
	order := ""
	spsCh, ppsCh := false, false
	wantChanges := 0
	pack := c.Choose(3)
	stap := pack == 1
	for i := 0; i < n; i++ {
		k := c.Choose(len(sets) + 1)
		var us []unit
		typ := 1
		if k < len(sets) {
			us = append(us, unit{video: true, data: sets[k], ts: int64(i) * 3600})
			typ = 5
			order += fmt.Sprint(k)
		}
		order += "x"
		us = append(us, unit{video: true, data: nal(typ, 5, i), ts: int64(i) * 3600})
		if stap && len(us) == 2 {
			p.stap([]*unit{&us[0], &us[1]})
		} else if pack == 2 { // everything in two fragments
			for j := range us {
				p.fu(&us[j], []int{1, len(us[j].data) - 1})
			}
		} else {
			for j := range us {
				us[j].pkts = append(us[j].pkts, p.add(us[j].ts, us[j].data, true))
			}
		}
		units = append(units, us...)
		if k < len(sets) && put(k) {
			if sets[k][0]&0x1f == 7 {
				spsCh = true
			} else {
				ppsCh = true
			}
		}
		if spsCh && ppsCh {
			// reported with the next packet, if there is one
			if i < n-1 || !stap {
				wantChanges++
			}
			spsCh, ppsCh = false, false
		}
	}
	pl := newPlayer(c, []track{t})
	defer pl.done()
	for _, k := range p.pkts {
		pl.s.out = append(pl.s.out, block(pl.s.channels[0], k.bytes())...)
	}
	c.Logf("description %v stream %s stap %v", initial, order, stap)
	got, changes := pl.drain(c, []track{t})
	compare(c, got, expect(units, t.rate, func(int) bool { return true }))
	if changes != wantChanges {
		c.FailK("change", "%d codec changes reported, want %d", changes, wantChanges)
	}
	st, err := pl.cl.Streams()
	if err != nil || len(st) != 1 {
		c.FailK("streams", "%v %v", st, err)
	}
	codec, _ := st[0].(*h264.Codec)
	if codec == nil {
		c.FailK("streams", "codec %T", st[0])
	}
	for key, want := range state {
		var have []byte
		id := int(key[1] - '0')
		if key[0] == 's' {
			have = codec.SPS[id]
		} else {
			have = codec.PPS[id]
		}
		if !bytes.Equal(have, want) {
			c.FailK("sets", "set %s is %x, want %x", key, have, want)
		}
	}
	if len(codec.SPS)+len(codec.PPS) != len(state) {
		c.FailK("sets", "%d sets, want %d", len(codec.SPS)+len(codec.PPS), len(state))
	}
	if len(codec.SPS) > 0 && len(codec.PPS) > 0 {
		back, err := h264.FromDecoderConfig(codec.ConfigBytes)
		if err != nil || len(back.SPS) != len(codec.SPS) || len(back.PPS) != len(codec.PPS) {
			c.FailK("config", "configuration %x: %v", codec.ConfigBytes, err)
		}
		for id, s := range codec.SPS {
			if !bytes.Equal(back.SPS[id], s) {
				c.FailK("config", "configuration %x lacks %x", codec.ConfigBytes, s)
			}
		}
	}
	c.State(initial, order)
	c.Outcome(changes)
}

func t01(tier string) []mc.Exploration {
	n, kinds, frag := 3, []int{0, 1, 7, 11}, 3
	aac, loss, lossB, nv, na, clk, par, lens, broken := 2, 3, 3, 3, 2, 4, 3, 300, 3
	if tier == "thorough" {
		n, kinds, frag = 4, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}, 5
		aac, loss, lossB, nv, na, clk, par, lens, broken = 4, 4, 4, 4, 3, 6, 4, 2000, 4
	}
	return []mc.Exploration{
		{Name: "packetisations", Rule: "NAL unit sequences x access unit borders x packetisations", Run: func(c *mc.Ctx) { packetsRun(c, n, kinds, frag) }},
		{Name: "aac", Rule: "access unit sequences x aggregations and fragmentations x one packet lost", Run: func(c *mc.Ctx) { aacRun(c, aac) }},
		{Name: "losses", Rule: "packets of fragmented streams missing", Bound: lossB, Run: func(c *mc.Ctx) { lossRun(c, loss) }},
		{Name: "broken units", Rule: "units whose first or last fragments were never sent", Run: func(c *mc.Ctx) { brokenRun(c, broken) }},
		{Name: "headers", Rule: "contributing sources, extensions, padding, markers", Run: formRun},
		{Name: "lengths", Rule: "blocks of every length x header and payload bytes that look like other things", Run: func(c *mc.Ctx) { lengthRun(c, lens) }},
		{Name: "interleavings", Rule: "all orders of two streams' packets with up to two other messages", Bound: 2, Run: func(c *mc.Ctx) { mixRun(c, nv, na) }},
		{Name: "clocks", Rule: "clock rates, starts and steps", Run: func(c *mc.Ctx) { clockRun(c, clk) }},
		{Name: "many packets", AllocLimit: 1 << 30, Rule: "70000 units each in its own packet: the sequence numbers wrap twice, the clock of the stream once or never", Run: func(c *mc.Ctx) { longRun(c, 70000) }},
		{Name: "long sessions", Rule: "sessions past the range of the RTP clock", Run: func(c *mc.Ctx) { longRun(c, 200) }},
		{Name: "parameter sets", Rule: "sets in the description x sets in the stream", Run: func(c *mc.Ctx) { paramRun(c, par) }},
	}
}
