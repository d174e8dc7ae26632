package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/mp4"

	hm "joyverif/h264model"
	"joyverif/mc"
)

const (
	ms      = time.Millisecond
	trackTS = 90000
)

func video(id, w, h uint64) *h264.Codec {
	c := h264.NewCodec()
	c.AddSPSPPS(hm.Basic(id, w, h).NAL())
	c.AddSPSPPS(hm.PPS(id, id))
	c.ToConfig()
	return c
}

func audio(conf ...byte) *aac.Codec {
	c, err := aac.FromMPEG4AudioConfigBytes(conf)
	if err != nil {
		panic(err)
	}
	return c
}

// src tells the streams and takes the file.
type src struct {
	memFile
	streams []interface{}
	err     error

	ops, failAt int // fails at this operation, never for 0
	stay, part  bool
}

var errDisk = errors.New("disk full")

func (s *src) fails() bool {
	s.ops++
	return s.failAt > 0 && (s.ops == s.failAt || s.stay && s.ops > s.failAt)
}

func (s *src) Write(p []byte) (n int, err error) {
	if s.fails() {
		if s.part {
			n, _ = s.memFile.Write(p[:len(p)/2])
		}
		return n, errDisk
	}
	return s.memFile.Write(p)
}

func (s *src) Seek(off int64, whence int) (int64, error) {
	if s.fails() {
		return 0, errDisk
	}
	return s.memFile.Seek(off, whence)
}

func (s *src) Streams() ([]interface{}, error) { return s.streams, s.err }

// near compares times: exact times must be kept, others to the units of the
// track (and the movie for a delay).
func near(got, want time.Duration, exact bool, delayed bool) bool {
	d := got - want
	if d < 0 {
		d = -d
	}
	if exact {
		return d == 0
	}
	tol := time.Second/trackTS + 1
	if delayed {
		tol += time.Second/10000 + 1
	}
	return d <= tol
}

func exactTime(t time.Duration) bool { return t%ms == 0 }

type written struct {
	pkts  map[int][]av.Packet
	exact bool
}

func (w *written) origin() (o time.Duration) {
	first := true
	for _, l := range w.pkts {
		if len(l) > 0 && (first || l[0].Time < o) {
			o, first = l[0].Time, false
		}
	}
	return
}

// checkFile compares the file with what was written, with the model's reader
// and with joy5's.
func checkFile(c *mc.Ctx, file []byte, streams []interface{}, w *written) {
	origin := w.origin()
	f, err := modelRead(file)
	if err != nil {
		c.FailK("file", "the file is not valid: %v", err)
	}
	if len(f.tracks) != len(streams) {
		c.FailK("tracks", "%d tracks for %d streams", len(f.tracks), len(streams))
	}
	if !f.normal {
		c.FailK("header", "the rate, volume or matrix of the movie changes the presentation")
	}
	ids := map[uint32]bool{}
	total := 0
	longest := int64(0)
	off := func(a, b int64) bool { return a-b > 1 || b-a > 1 }
	for i, t := range f.tracks {
		shown := int64(0)
		if t.duration > 0 {
			shown = t.duration * f.timescale / t.timescale
		}
		if off(t.tkhddur, t.delay+shown) || t.editdur >= 0 && off(t.editdur, shown) {
			c.FailK("duration", "track %d is said to last %d/%d s, of which %d are shown; it has samples for %d and a delay of %d", i, t.tkhddur, f.timescale, t.editdur, shown, t.delay)
		}
		if t.tkhddur > longest {
			longest = t.tkhddur
		}
	}
	if f.duration != longest {
		c.FailK("duration", "the movie lasts %d, its longest track %d", f.duration, longest)
	}
	for i, t := range f.tracks {
		if t.id == 0 || ids[t.id] || t.id >= f.nextid {
			c.FailK("id", "track id %d of %v, next %d", t.id, ids, f.nextid)
		}
		ids[t.id] = true
		typ, kind := av.H264, "video"
		var config []byte
		switch cd := streams[i].(type) {
		case *h264.Codec:
			config = cd.ConfigBytes
		case *aac.Codec:
			typ, kind = av.AAC, "audio"
			config = cd.ConfigBytes
		}
		if t.kind != kind || !bytes.Equal(t.config, config) {
			c.FailK("config", "track %d is %s with configuration %x, expected %s with %x", i, t.kind, t.config, kind, config)
		}
		show, entry := [6]uint64{3, 0, 0, 0, 1, 1}, []uint64{1}
		switch cd := streams[i].(type) {
		case *h264.Codec:
			show[2], show[3] = uint64(cd.W)<<16, uint64(cd.H)<<16
			entry = append(entry, uint64(cd.W), uint64(cd.H), 72<<16, 72<<16, 1, 24)
		case *aac.Codec:
			show[1] = 0x100
			entry = append(entry, uint64(cd.Config.ChannelLayout.Count()), uint64(cd.Config.SampleRate)<<16)
			if len(t.entry) == 3 && cd.Config.SampleRate >= 1<<16 {
				entry[2] = t.entry[2] // does not fit
			}
		}
		if t.show != show {
			c.FailK("header", "%s track: flags, volume, width, height, matrix and place of the data are %x, expected %x", kind, t.show, show)
		}
		if fmt.Sprint(t.entry) != fmt.Sprint(entry) {
			c.FailK("entry", "%s track: sample description %x, expected %x", kind, t.entry, entry)
		}
		want := w.pkts[typ]
		total += len(want)
		if len(t.samples) != len(want) {
			c.FailK("samples", "%s track has %d samples, %d packets were written", kind, len(t.samples), len(want))
		}
		for j, s := range t.samples {
			p := want[j]
			delayed := t.delay != 0
			at := time.Duration(t.delay)*(time.Second/time.Duration(f.timescale)) + time.Duration(s.dts)*time.Second/time.Duration(t.timescale)
			if !bytes.Equal(s.data, p.Data) {
				c.FailK("data", "%s sample %d is %x, the packet was %x", kind, j, s.data, p.Data)
			}
			if !near(at, p.Time-origin, w.exact, delayed || want[0].Time != origin) {
				c.FailK("time", "%s sample %d is at %v, the packet was at %v from the start", kind, j, at, p.Time-origin)
			}
			if typ == av.H264 {
				if s.key != p.IsKeyFrame {
					c.FailK("key", "video sample %d: key frame %v", j, s.key)
				}
				if ct := time.Duration(s.cts) * time.Second / time.Duration(t.timescale); !near(ct, p.CTime, w.exact, false) {
					c.FailK("ctime", "video sample %d has composition offset %v, the packet %v", j, ct, p.CTime)
				}
			}
		}
	}
	c.Validated(1)

	d := mp4.NewDemuxer(&memFile{b: file})
	got, err := d.Streams()
	if err != nil {
		c.FailK("streams", "Streams: %v", err)
	}
	if len(got) != len(streams) {
		c.FailK("streams", "%d streams of %d", len(got), len(streams))
	}
	for i := range got {
		switch cd := streams[i].(type) {
		case *h264.Codec:
			x, ok := got[i].(*h264.Codec)
			if !ok || !bytes.Equal(x.ConfigBytes, cd.ConfigBytes) || x.W != cd.W || x.H != cd.H || fmt.Sprint(x.SPS, x.PPS) != fmt.Sprint(cd.SPS, cd.PPS) {
				c.FailK("codec", "stream %d: codec %+v, expected %+v", i, got[i], cd)
			}
		case *aac.Codec:
			x, ok := got[i].(*aac.Codec)
			if !ok || !bytes.Equal(x.ConfigBytes, cd.ConfigBytes) || x.Config != cd.Config {
				c.FailK("codec", "stream %d: codec %+v, expected %+v", i, got[i], cd)
			}
		}
	}
	next := map[int]int{}
	last := time.Duration(-1)
	for n := 0; ; n++ {
		c.Step(1)
		p, err := d.ReadPacket()
		if err == io.EOF {
			if n != total {
				c.FailK("end", "the end after %d of %d packets", n, total)
			}
			break
		}
		if err != nil {
			c.FailK("read", "packet %d: %v", n, err)
		}
		if n >= total {
			c.FailK("end", "more than the %d packets written", total)
		}
		k := next[p.Type]
		next[p.Type]++
		l := w.pkts[p.Type]
		if k >= len(l) {
			c.FailK("type", "packet %d: %v, %d were written", n, p, len(l))
		}
		x := l[k]
		if !bytes.Equal(p.Data, x.Data) || p.Type == av.H264 && p.IsKeyFrame != x.IsKeyFrame ||
			!near(p.Time, x.Time-origin, w.exact, l[0].Time != origin) || p.Type == av.H264 && !near(p.CTime, x.CTime, w.exact, false) {
			c.FailK("packet", "packet %d is %v %x, written was %v %x (start %v)", n, p, p.Data, x, x.Data, origin)
		}
		if p.Time < last {
			c.FailK("order", "packet %d at %v comes after %v", n, p.Time, last)
		}
		last = p.Time
	}
	if _, err := d.ReadPacket(); err != io.EOF {
		c.FailK("end", "after the end: %v", err)
	}
	c.Outcome(total, len(streams), len(next))
}

// payload is different for every packet.
func payload(n, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(n*16 + i + 1)
	}
	return b
}

var vCodec, aCodec = video(0, 64, 48), audio(0x12, 0x10)

func m01(tier string) []mc.Exploration {
	sets := [][]interface{}{{vCodec, aCodec}, {aCodec, vCodec}, {vCodec}, {aCodec}, {}}
	types := func(set []interface{}) (l []int) {
		for _, s := range set {
			if s == interface{}(vCodec) {
				l = append(l, av.H264)
			} else {
				l = append(l, av.AAC)
			}
		}
		return
	}

	seq := func(name, rule string, n, bound int, steps, ctimes, bases []time.Duration, sizes []int, wrong bool) mc.Exploration {
		return mc.Exploration{Name: name, Bound: bound, Rule: rule, Run: func(c *mc.Ctx) {
			set := sets[c.Choose(len(sets))]
			tl := types(set)
			s := &src{streams: set}
			m, err := mp4.NewMuxer(s)
			if err != nil {
				c.FailK("new", "NewMuxer: %v", err)
			}
			w := &written{pkts: map[int][]av.Packet{}, exact: true}
			now := map[int]time.Duration{}
			k := 0
			if len(tl) > 0 {
				k = c.Choose(n + 1)
			}
			for i := 0; i < k; i++ {
				p := av.Packet{Type: tl[c.Choose(len(tl))]}
				if t, ok := now[p.Type]; ok {
					p.Time = t + steps[c.Choose(len(steps))]
				} else {
					p.Time = bases[c.Choose(len(bases))]
				}
				if p.Type == av.H264 {
					p.IsKeyFrame = c.Bool()
					p.CTime = ctimes[c.Dev(len(ctimes))]
				}
				p.Data = payload(i, sizes[c.Dev(len(sizes))])
				if wrong && c.Dev(2) == 1 {
					c.Step(1)
					bad := p
					if t, ok := now[p.Type]; ok && c.Bool() {
						bad.Time = t - ms
					} else {
						bad.Type = av.Metadata
						for _, t := range []int{av.H264, av.AAC} {
							if len(tl) == 1 && tl[0] != t {
								bad.Type = t
							}
						}
					}
					if err := m.WritePacket(bad); err == nil {
						c.FailK("wrong", "packet %v is accepted", bad)
					}
				}
				now[p.Type] = p.Time
				if !exactTime(p.Time) || !exactTime(p.CTime) {
					w.exact = false
				}
				// the muxer gets a copy of the packet's own
				if err := m.WritePacket(p); err != nil {
					c.FailK("write", "packet %v: %v", p, err)
				}
				w.pkts[p.Type] = append(w.pkts[p.Type], p)
				c.Step(1)
			}
			if err := m.WriteTrailer(); err != nil {
				c.FailK("trailer", "%v", err)
			}
			c.Sample(func() string { return fmt.Sprintf("%v: %v", tl, w.pkts) })
			checkFile(c, s.b, set, w)
		}}
	}
	n, nl, nd := 4, 3, 2
	if tier == "thorough" {
		n, nl, nd = 6, 4, 3
	}
	odd := 33333333 * time.Nanosecond
	return []mc.Exploration{
		seq("sequences", fmt.Sprintf("all sequences of up to %d packets over no, one or both streams in either order, key frames anywhere, next times 0 or 40 ms later, streams starting 0 or 100 ms into the recording, one packet with a composition offset of 40, 80 or -40 ms or of another size, or a refused packet before it", n),
			n, 1, []time.Duration{40 * ms, 0}, []time.Duration{0, 40 * ms, 80 * ms, -40 * ms}, []time.Duration{0, 100 * ms}, []int{3, 0, 1, 255, 256, 257, 600}, true),
		seq("times", fmt.Sprintf("all sequences of up to %d packets, streams starting at 0, 1 ns, 100 ms, 1/3 s, a day and -1 s, next times 0, 1 ns, 11 us, 33.333333 ms or an hour later, up to %d odd composition offsets or sizes", nl, nd),
			nl, nd, []time.Duration{odd, 0, 1, 11 * time.Microsecond, time.Hour}, []time.Duration{0, odd, -odd, 2 * time.Second}, []time.Duration{0, 1, 100 * ms, time.Second / 3, 24 * time.Hour, -time.Second}, []int{3, 0}, false),
		{Name: "long recordings", Rule: "recordings of 300, 3000 and (one pair of intervals; thorough: all) 70000 packets per stream at nine pairs of packet intervals, starting together or apart, packets of 1-700 bytes: times do not drift", Run: func(c *mc.Ctx) {
			iv := []time.Duration{time.Second / 30, 33 * ms, 1001 * time.Second / 30000}
			ia := []time.Duration{1024 * time.Second / 44100, 1024 * time.Second / 48000, 23 * ms}
			dv, da := iv[c.Choose(3)], ia[c.Choose(3)]
			start := []time.Duration{0, 777 * ms}[c.Choose(2)]
			count := 70000
			if dv == iv[0] && da == ia[0] && start == 0 || tier == "thorough" {
				count = []int{300, 3000, 70000}[c.Choose(3)]
			} else {
				count = []int{300, 3000}[c.Choose(2)]
			}
			set := []interface{}{vCodec, aCodec}
			s := &src{streams: set}
			m, err := mp4.NewMuxer(s)
			if err != nil {
				c.FailK("new", "NewMuxer: %v", err)
			}
			w := &written{pkts: map[int][]av.Packet{}}
			i, j := 0, 0
			for i < count || j < count {
				var p av.Packet
				tv, ta := start+time.Duration(i)*dv, time.Duration(j)*da
				if j >= count || i < count && tv <= ta {
					p = av.Packet{Type: av.H264, Time: tv, IsKeyFrame: i%7 == 0, CTime: time.Duration(i%3) * dv, Data: payload(i, 1+i*37%700)}
					i++
				} else {
					p = av.Packet{Type: av.AAC, Time: ta, Data: payload(j, 1+j*11%100)}
					j++
				}
				if err := m.WritePacket(p); err != nil {
					c.FailK("write", "packet %v: %v", p, err)
				}
				w.pkts[p.Type] = append(w.pkts[p.Type], p)
			}
			if err := m.WriteTrailer(); err != nil {
				c.FailK("trailer", "%v", err)
			}
			checkFile(c, s.b, set, w)
		}},
		{Name: "streams found later", Rule: "the source knows one, the other or no stream at first and all of them before packet 1-3 of 5: earlier packets of the others are refused, everything accepted is in the file", Run: func(c *mc.Ctx) {
			all := [][]interface{}{{vCodec, aCodec}, {aCodec, vCodec}}[c.Choose(2)]
			first := c.Choose(3)
			at := 1 + c.Choose(3)
			s := &src{}
			if first < 2 {
				s.streams = all[first : first+1 : first+1]
			}
			failing := c.Bool()
			m, err := mp4.NewMuxer(s)
			if err != nil {
				c.FailK("new", "NewMuxer: %v", err)
			}
			// order of the tracks: the known stream first
			w := &written{pkts: map[int][]av.Packet{}, exact: true}
			known := types(s.streams)
			order := append([]interface{}(nil), s.streams...)
			for i := 0; i < 5; i++ {
				if i == at {
					s.streams = all
					s.err = nil
				} else if i < at && failing {
					s.err = errors.New("no streams yet")
				}
				p := av.Packet{Type: []int{av.H264, av.AAC}[c.Choose(2)], Time: time.Duration(i) * 40 * ms, Data: payload(i, 4)}
				p.IsKeyFrame = p.Type == av.H264
				ok := false
				for _, t := range known {
					ok = ok || t == p.Type
				}
				if !ok && i >= at {
					ok = true
					for k, t := range types(all) {
						has := false
						for _, kt := range known {
							has = has || kt == t
						}
						if !has {
							known = append(known, t)
							order = append(order, all[k])
						}
					}
				}
				err := m.WritePacket(p)
				if ok != (err == nil) {
					c.FailK("late", "packet %d of type %d: %v", i, p.Type, err)
				}
				if ok {
					w.pkts[p.Type] = append(w.pkts[p.Type], p)
				}
				c.Step(1)
			}
			if err := m.WriteTrailer(); err != nil {
				c.FailK("trailer", "%v", err)
			}
			checkFile(c, s.b, order, w)
		}},
		{Name: "failing writes", Rule: "sessions of up to four small or large packets, the n-th write or seek of the output fails, once or from then on, having written nothing or a part: for every n", Run: func(c *mc.Ctx) {
			set := sets[c.Choose(len(sets)-1)]
			tl := types(set)
			s := &src{streams: set}
			s.failAt = c.Choose(60) + 1
			s.stay, s.part = c.Bool(), c.Bool()
			m, err := mp4.NewMuxer(s)
			if err != nil {
				c.FailK("new", "NewMuxer: %v", err)
			}
			w := &written{pkts: map[int][]av.Packet{}, exact: true}
			var errs []error
			for i, k := 0, c.Choose(5); i < k && len(errs) == 0; i++ {
				p := av.Packet{Type: tl[i%len(tl)], Time: time.Duration(i) * 40 * ms, Data: payload(i, []int{5, 700}[c.Choose(2)])}
				p.IsKeyFrame = p.Type == av.H264
				if err := m.WritePacket(p); err != nil {
					errs = append(errs, err)
				} else {
					w.pkts[p.Type] = append(w.pkts[p.Type], p)
				}
			}
			if len(errs) == 0 {
				if err := m.WriteTrailer(); err != nil {
					errs = append(errs, err)
				}
			}
			c.Step(1)
			if s.ops < s.failAt {
				if s.failAt > s.ops+1 {
					c.Prune()
				}
				if len(errs) > 0 {
					c.FailK("failing", "nothing failed, and %v", errs)
				}
				checkFile(c, s.b, set, w)
				return
			}
			if len(errs) == 0 {
				c.FailK("failing", "operation %d on the output failed and nobody was told", s.failAt)
			}
			if errs[0] != errDisk {
				c.FailK("failing", "operation %d on the output failed and the error is %v", s.failAt, errs[0])
			}
			c.Outcome(s.failAt)
		}},
		{Name: "codecs", Rule: "H.264 of three sizes with one or two parameter sets, AAC configurations of all rates, channel counts and lengths, codecs without a serialised configuration", Run: func(c *mc.Ctx) {
			var v *h264.Codec
			if k := c.Choose(5); k < 3 {
				v = video(0, []uint64{16, 64, 1920}[k], 48)
			} else {
				// 4:4:4: cut to odd sizes
				sps := &hm.SPS{Profile: 244, Level: 30, Chroma: 3, W: 4, H: 3, Crop: true, R: 1, B: 1}
				if k == 4 {
					sps.R, sps.T = 5, 2
				}
				v = h264.NewCodec()
				v.AddSPSPPS(sps.NAL())
				v.AddSPSPPS(hm.PPS(0, 0))
				v.ToConfig()
			}
			switch c.Choose(5) {
			case 3, 4: // as it came: NAL lengths of two bytes, more after the sets
				sps, pps := hm.Basic(0, 64, 48).NAL(), hm.PPS(0, 0)
				conf := cat([]byte{1, sps[1], sps[2], sps[3], 0xfd, 0xe1}, u16(len(sps)), sps, []byte{1}, u16(len(pps)), pps)
				if c.Bool() {
					conf = cat(conf, []byte{0xfd, 0xf8, 0xf8, 0})
				}
				var err error
				if v, err = h264.FromDecoderConfig(conf); err != nil {
					c.FailK("config", "%v", err)
				}
			case 1:
				v.AddSPSPPS(hm.Basic(1, 32, 32).NAL())
				v.AddSPSPPS(hm.PPS(1, 1))
				v.ToConfig()
			case 2:
				v.ConfigBytes = nil
			}
			idx, ch := c.Choose(13), 1+c.Choose(7)
			conf := []byte{0x10 | byte(idx>>1), byte(idx<<7) | byte(ch<<3)}
			for k := c.Choose(4); k > 0; k-- {
				conf = append(conf, 0x56, 0xe5, byte(k))
			}
			if c.Bool() {
				for len(conf) < 130 {
					conf = append(conf, 0)
				}
			}
			a := audio(conf...)
			if c.Bool() {
				a.ConfigBytes = nil
			}
			set := []interface{}{v, a}
			vconf, aconf := append([]byte(nil), v.ConfigBytes...), append([]byte(nil), a.ConfigBytes...)
			s := &src{streams: set}
			m, err := mp4.NewMuxer(s)
			if err != nil {
				c.FailK("new", "NewMuxer: %v", err)
			}
			w := &written{pkts: map[int][]av.Packet{}, exact: true}
			for i := 0; i < 4; i++ {
				p := av.Packet{Type: []int{av.H264, av.AAC}[i%2], IsKeyFrame: i == 0, Time: time.Duration(i/2) * 40 * ms, Data: payload(i, 5)}
				if err := m.WritePacket(p); err != nil {
					c.FailK("write", "packet %v: %v", p, err)
				}
				w.pkts[p.Type] = append(w.pkts[p.Type], p)
			}
			if err := m.WriteTrailer(); err != nil {
				c.FailK("trailer", "%v", err)
			}
			if len(vconf) > 0 && !bytes.Equal(v.ConfigBytes, vconf) || len(aconf) > 0 && !bytes.Equal(a.ConfigBytes, aconf) {
				c.FailK("config", "the configurations %x and %x have become %x and %x", vconf, aconf, v.ConfigBytes, a.ConfigBytes)
			}
			if v.ConfigBytes == nil {
				v.ToConfig()
			}
			if a.ConfigBytes == nil {
				a.ConfigBytes = conf[:2]
			}
			checkFile(c, s.b, set, w)
		}},
	}
}
