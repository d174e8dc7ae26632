package main

import (
	"bytes"
	"fmt"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/mp4"

	"joyverif/mc"
)

// ---- files built from sample tables

type sm struct {
	data []byte
	dur  int64
	cts  int64
	key  bool
}

// tb is a track and how its tables are coded.
type tb struct {
	video     bool
	timescale int64
	delay     int64 // in movie units of 1 ms
	samples   []sm
	chunks    []int // samples per chunk, adding up to all of them
	order     []int // of the chunks in the file, nil: as they are
	gap       int   // bytes between them
	everyStsc bool  // a row for every chunk
	runs      int   // 0 merged, 1 a row per sample, 2 merged with empty rows around, 3 pairs of equals split
	ctts      bool
	sync      bool
	constSize bool
	edits     int  // form of the edit list
	foreign   bool // of a kind joy5 does not know
}

func (t *tb) rle(val func(sm) int64) (n int, rows []byte) {
	add := func(count int, v int64) {
		rows = append(rows, cat(u32(uint32(count)), u32(uint32(v)))...)
		n++
	}
	if t.runs == 2 {
		add(0, 77)
	}
	for i := 0; i < len(t.samples); {
		j := i + 1
		for j < len(t.samples) && val(t.samples[j]) == val(t.samples[i]) && t.runs != 1 && !(t.runs == 3 && j-i == 2) {
			j++
		}
		add(j-i, val(t.samples[i]))
		if t.runs == 2 {
			add(0, 3)
			add(0, 0)
		}
		i = j
	}
	return
}

func (t *tb) trak(id int, offsets []int64) []byte {
	var entry []byte
	if t.foreign {
		entry = box("tx3g", zeros(6), u16(1), zeros(4))
	} else if t.video {
		entry = box("avc1", zeros(6), u16(1), zeros(16), u16(64), u16(48), u32(0x480000), u32(0x480000), zeros(4), u16(1), zeros(32), u16(24), u16(0xffff), box("avcC", video(0, 64, 48).ConfigBytes))
	} else {
		entry = box("mp4a", zeros(6), u16(1), zeros(8), u16(2), u16(16), zeros(4), u32(44100<<16), full("esds", 0, 0,
			desc(3, 1, u16(id), []byte{0}, desc(4, 1, []byte{0x40, 0x15}, zeros(11), desc(5, 1, []byte{0x12, 0x10})), desc(6, 1, []byte{2}))))
	}
	var total int64
	for _, s := range t.samples {
		total += s.dur
	}
	nts, stts := t.rle(func(s sm) int64 { return s.dur })
	tables := [][]byte{full("stsd", 0, 0, u32(1), entry), full("stts", 0, 0, u32(uint32(nts)), stts)}
	if t.ctts {
		version := byte(0)
		for _, s := range t.samples {
			if s.cts < 0 {
				version = 1
			}
		}
		n, ctts := t.rle(func(s sm) int64 { return s.cts })
		tables = append(tables, full("ctts", version, 0, u32(uint32(n)), ctts))
	}
	var stsc []byte
	rows := 0
	for i, n := range t.chunks {
		if t.everyStsc || i == 0 || n != t.chunks[i-1] {
			stsc = append(stsc, cat(u32(uint32(i+1)), u32(uint32(n)), u32(1))...)
			rows++
		}
	}
	tables = append(tables, full("stsc", 0, 0, u32(uint32(rows)), stsc))
	if t.sync {
		var l []byte
		n := 0
		for i, s := range t.samples {
			if s.key {
				l = append(l, u32(uint32(i+1))...)
				n++
			}
		}
		tables = append(tables, full("stss", 0, 0, u32(uint32(n)), l))
	}
	if t.constSize && len(t.samples) > 0 {
		tables = append(tables, full("stsz", 0, 0, u32(uint32(len(t.samples[0].data))), u32(uint32(len(t.samples)))))
	} else {
		var l []byte
		for _, s := range t.samples {
			l = append(l, u32(uint32(len(s.data)))...)
		}
		tables = append(tables, full("stsz", 0, 0, u32(0), u32(uint32(len(t.samples))), l))
	}
	var co []byte
	for _, o := range offsets {
		co = append(co, u32(uint32(o))...)
	}
	tables = append(tables, full("stco", 0, 0, u32(uint32(len(offsets))), co))
	kind, mh := "soun", full("smhd", 0, 0, zeros(4))
	if t.video {
		kind, mh = "vide", full("vmhd", 0, 1, zeros(8))
	}
	var edts []byte
	if t.delay > 0 {
		d := uint32(t.delay)
		switch t.edits {
		case 0:
			edts = box("edts", full("elst", 0, 0, u32(2), u32(d), u32(0xffffffff), u32(0x10000), u32(uint32(total)), u32(0), u32(0x10000)))
		case 1: // 64-bit, the delay in two parts
			edts = box("edts", full("elst", 1, 0, u32(3), u64(uint64(d-1)), u64(0xffffffffffffffff), u32(0x10000), u64(1), u64(0xffffffffffffffff), u32(0x10000), u64(uint64(total)), u64(0), u32(0x10000)))
		}
	} else if t.edits == 2 { // no delay
		edts = box("edts", full("elst", 0, 0, u32(1), u32(uint32(total)), u32(0), u32(0x10000)))
	}
	return box("trak",
		full("tkhd", 0, 3, zeros(8), u32(uint32(id)), zeros(4), u32(uint32(total)), zeros(16), matrix, zeros(8)),
		edts,
		box("mdia",
			full("mdhd", 0, 0, zeros(8), u32(uint32(t.timescale)), u32(uint32(total)), u16(0x55c4), u16(0)),
			full("hdlr", 0, 0, zeros(4), []byte(kind), zeros(13)),
			box("minf", mh, box("dinf", full("dref", 0, 0, u32(1), full("url ", 0, 1))), box("stbl", tables...))))
}

func buildMP4(tracks []*tb, moovFirst bool) []byte {
	file, _ := buildMP4Far(tracks, moovFirst, 0, false)
	return file
}

// buildMP4Far is a file with a part of so many bytes, which are not there,
// between its first box and the others.
func buildMP4Far(tracks []*tb, moovFirst bool, far int64, wide bool) (file []byte, at int64) {
	head := box("ftyp", []byte("isom"), u32(0), []byte("isomavc1"))
	if far > 0 {
		if wide {
			head = cat(head, u32(1), []byte("free"), u64(uint64(far+16)))
		} else {
			head = cat(head, u32(uint32(far+8)), []byte("free"))
		}
	}
	at = int64(len(head))
	make1 := func(base int64) (moov, data []byte) {
		offs := make([][]int64, len(tracks))
		var traks [][]byte
		traks = append(traks, full("mvhd", 0, 0, zeros(8), u32(1000), u32(0), u32(0x10000), u16(0x100), zeros(10), matrix, zeros(24), u32(uint32(len(tracks)+1))))
		for k, t := range tracks {
			offs[k] = make([]int64, len(t.chunks))
			order := t.order
			if order == nil {
				for i := range t.chunks {
					order = append(order, i)
				}
			}
			for _, ci := range order {
				first := 0
				for _, n := range t.chunks[:ci] {
					first += n
				}
				data = append(data, bytes.Repeat([]byte{0xdd}, t.gap)...)
				offs[k][ci] = base + int64(len(data))
				for _, s := range t.samples[first : first+t.chunks[ci]] {
					data = append(data, s.data...)
				}
			}
		}
		for k, t := range tracks {
			traks = append(traks, t.trak(k+1, offs[k]))
		}
		return box("moov", traks...), data
	}
	base := at + far + 8
	moov, data := make1(base)
	if moovFirst {
		moov, data = make1(base + int64(len(moov)))
		return cat(head, moov, box("mdat", data)), at
	}
	return cat(head, box("mdat", data), moov), at
}

// ---- the flat reference

type cursor struct {
	t   *tb
	pos int
	pre []time.Duration // times of all samples and the end
	typ int
}

func (cu *cursor) prefix() []time.Duration {
	if cu.pre == nil {
		d := int64(0)
		for _, s := range cu.t.samples {
			cu.pre = append(cu.pre, cu.at(d))
			d += s.dur
		}
		cu.pre = append(cu.pre, cu.at(d))
	}
	return cu.pre
}

func (cu *cursor) time() time.Duration { return cu.prefix()[cu.pos] }

func (cu *cursor) at(dts int64) time.Duration {
	// floor(dts*1e9/timescale), small values
	return time.Duration(cu.t.delay)*ms + time.Duration(dts/cu.t.timescale)*time.Second + time.Duration(dts%cu.t.timescale*int64(time.Second)/cu.t.timescale)
}

// seek gives the sample a seek goes to, -1 if that is not specified.
func (cu *cursor) seek(tm time.Duration) int {
	target := 0
	for i := range cu.t.samples {
		if cu.prefix()[i] <= tm {
			target = i
		}
	}
	if cu.t.sync {
		for ; target >= 0 && !cu.t.samples[target].key; target-- {
		}
	}
	return target
}

type refDemuxer []*cursor

func newRef(tracks []*tb) (r refDemuxer) {
	for _, t := range tracks {
		if t.foreign {
			continue
		}
		typ := av.AAC
		if t.video {
			typ = av.H264
		}
		r = append(r, &cursor{t: t, typ: typ})
	}
	return
}

func (r refDemuxer) read() (p av.Packet, ok bool) {
	var best *cursor
	for _, cu := range r {
		if cu.pos < len(cu.t.samples) && (best == nil || cu.time() < best.time()) {
			best = cu
		}
	}
	if best == nil {
		return p, false
	}
	s := best.t.samples[best.pos]
	p = av.Packet{Type: best.typ, Time: best.time(), Data: s.data}
	if best.t.ctts {
		n := s.cts * int64(time.Second)
		p.CTime = time.Duration(n / best.t.timescale)
	}
	p.IsKeyFrame = best.t.video && !best.t.sync || best.t.sync && s.key
	best.pos++
	return p, true
}

// seek is false if the position is not specified.
func (r refDemuxer) seek(tm time.Duration) bool {
	var first *cursor
	for _, cu := range r {
		if cu.t.video && len(cu.t.samples) > 0 {
			k := cu.seek(tm)
			if k < 0 {
				return false
			}
			cu.pos = k
			tm = cu.time()
			first = cu
			break
		}
	}
	for _, cu := range r {
		if cu != first && len(cu.t.samples) > 0 {
			k := cu.seek(tm)
			if k < 0 {
				return false
			}
			cu.pos = k
		}
	}
	return true
}

// times worth seeking to.
func seekTimes(tracks []*tb) (l []time.Duration) {
	seen := map[time.Duration]bool{}
	add := func(t time.Duration) {
		if t >= 0 && !seen[t] {
			seen[t] = true
			l = append(l, t)
		}
	}
	l = append(l, -time.Second)
	for _, cu := range newRef(tracks) {
		for cu.pos = 0; cu.pos <= len(cu.t.samples); cu.pos++ {
			t := cu.time()
			add(t)
			add(t - 1)
			add(t + 1)
		}
	}
	add(time.Hour)
	return
}

func checkRead(c *mc.Ctx, d *mp4.Demuxer, r refDemuxer, how string) bool {
	c.Step(1)
	want, ok := r.read()
	p, err := d.ReadPacket()
	if !ok {
		if err != io.EOF {
			c.FailK("end", "%s: expected the end, got %v %v", how, p, err)
		}
		return false
	}
	if err != nil {
		c.FailK("read", "%s: %v instead of a packet at %v", how, err, want.Time)
	}
	if p.Type != want.Type || !bytes.Equal(p.Data, want.Data) || p.Time != want.Time || p.CTime != want.CTime || p.IsKeyFrame != want.IsKeyFrame {
		c.FailK("packet", "%s: packet type %d key %v time %v+%v data %x, expected type %d key %v time %v+%v data %x", how, p.Type, p.IsKeyFrame, p.Time, p.CTime, p.Data, want.Type, want.IsKeyFrame, want.Time, want.CTime, want.Data)
	}
	return true
}

// readAll reads up to the end, which stays the end.
func readAll(c *mc.Ctx, d *mp4.Demuxer, r refDemuxer, how string) {
	for checkRead(c, d, r, how) {
	}
	checkRead(c, d, r, how+" (again)")
	c.Validated(1)
}

func open(c *mc.Ctx, file []byte) *mp4.Demuxer {
	return mp4.NewDemuxer(&memFile{b: file})
}

func compositions(c *mc.Ctx, n int) (l []int) {
	for n > 0 {
		k := 1 + c.Choose(n)
		l = append(l, k)
		n -= k
	}
	return
}

// usualTrack has n samples of a simple coding.
func usualTrack(video bool, n int) *tb {
	t := &tb{video: video, timescale: 1000, sync: video}
	for i := 0; i < n; i++ {
		t.samples = append(t.samples, sm{data: payload(i+10*len(t.samples), 3+i), dur: 40, key: i%2 == 0})
	}
	if n > 0 {
		t.chunks = []int{n}
	}
	return t
}

// oneSeek tries every seek from the current position of a fresh reader.
func oneSeek(c *mc.Ctx, file []byte, tracks []*tb, after int) {
	times := seekTimes(tracks)
	tm := times[c.Choose(len(times))]
	d, r := open(c, file), newRef(tracks)
	for i := 0; i < after; i++ {
		checkRead(c, d, r, "before the seek")
	}
	if !r.seek(tm) {
		if err := d.SeekToTime(tm); err != nil {
			c.FailK("seek", "seek to %v: %v", tm, err)
		}
		return
	}
	if err := d.SeekToTime(tm); err != nil {
		c.FailK("seek", "seek to %v: %v", tm, err)
	}
	readAll(c, d, r, fmt.Sprintf("after a seek to %v", tm))
}

func codingDevs(c *mc.Ctx, t *tb) {
	// coding of the tables
	t.runs = c.Dev(4)
	t.everyStsc = c.Dev(2) == 1
	t.gap = 3 * c.Dev(2)
	t.timescale = []int64{1000, 90000, 44100, 3, 1, 10000000, 1000000000}[c.Dev(7)]
	if c.Dev(2) == 1 {
		t.delay = []int64{1, 2000}[c.Choose(2)]
		t.edits = c.Choose(2)
	} else {
		t.edits = 2 * c.Dev(2)
	}
	if c.Dev(2) == 1 {
		t.constSize = true
		for i := range t.samples {
			t.samples[i].data = payload(i, 7)
		}
	}
}

func m03(tier string) []mc.Exploration {
	deep := tier == "thorough"
	n, dur3, bound, scales := 4, 2, 1, 4
	if deep {
		n, dur3, bound, scales = 5, 3, 2, 7
	}
	dev := codingDevs
	ops := 3
	if deep {
		ops = 4
	}
	return []mc.Exploration{
		{Name: "chunks", Bound: bound, Rule: fmt.Sprintf("all groupings of up to %d samples into chunks, chunk table merged or not, sample sizes 0-2 or constant, the chunks in file order, reversed or rotated with gaps, movie box first or last; up to one deviation (two in the thorough tier) of the other tables' coding; read to the end after every seek", n), Run: func(c *mc.Ctx) {
			t := usualTrack(c.Bool(), c.Choose(n+1))
			t.chunks = compositions(c, len(t.samples))
			t.everyStsc = c.Bool()
			switch c.Choose(3) {
			case 1:
				t.constSize = true
				for i := range t.samples {
					t.samples[i].data = payload(i, 2)
				}
			case 2:
				for i := range t.samples {
					t.samples[i].data = payload(i, (i+1)%3)
				}
			}
			switch m := len(t.chunks); c.Choose(3) {
			case 1:
				for i := range t.chunks {
					t.order = append(t.order, m-1-i)
				}
				t.gap = 2
			case 2:
				for i := range t.chunks {
					t.order = append(t.order, (i+1)%m)
				}
			}
			dev(c, t)
			file := buildMP4([]*tb{t}, c.Dev(2) == 1)
			d, r := open(c, file), newRef([]*tb{t})
			if s, err := d.Streams(); err != nil || len(s) != 1 {
				c.FailK("streams", "%d streams, %v", len(s), err)
			}
			readAll(c, d, r, "from the start")
			if len(t.samples) > 0 {
				oneSeek(c, file, []*tb{t}, 0)
			} else if err := d.SeekToTime(ms); err != nil {
				c.FailK("seek", "seek in an empty track: %v", err)
			}
			c.Outcome(len(t.samples), t.chunks)
		}},
		{Name: "times", Bound: 1, Rule: fmt.Sprintf("all durations from {0, 1} (and 3 in the thorough tier) and composition offsets from {none, 0, 2, -1} of up to %d samples, run-length coding merged, split, per sample and with empty rows, time scales 1000, 90000, 44100, 3 and 1, with and without a start delay; read to the end from the start and after every seek", n-1), Run: func(c *mc.Ctx) {
			t := usualTrack(c.Bool(), 1+c.Choose(n-1))
			t.runs = c.Choose(4)
			t.timescale = []int64{1000, 90000, 44100, 3, 1, 10000000, 1000000000}[c.Choose(scales)]
			t.ctts = c.Bool()
			for i := range t.samples {
				s := &t.samples[i]
				s.dur = []int64{1, 0, 3}[c.Choose(dur3)]
				if t.ctts {
					s.cts = []int64{0, 2, -1}[c.Choose(3)]
				}
			}
			if c.Dev(2) == 1 {
				t.delay = 7
				t.edits = c.Choose(2)
			} else {
				t.edits = 2 * c.Dev(2)
			}
			if c.Dev(2) == 1 {
				for range t.samples {
					t.chunks = append([]int{1}, t.chunks[:len(t.chunks)-1]...)
				}
				t.chunks = nil
				for range t.samples {
					t.chunks = append(t.chunks, 1)
				}
			}
			file := buildMP4([]*tb{t}, false)
			readAll(c, open(c, file), newRef([]*tb{t}), "from the start")
			oneSeek(c, file, []*tb{t}, c.Dev(3))
			c.Outcome(len(t.samples), t.runs, t.ctts)
		}},
		{Name: "key frames", Bound: bound, Rule: "all sets of key frames of up to 5 samples (6 in the thorough tier), sync table left out or empty too, one or two deviations of the coding; read 0-2 packets, then every seek and read to the end", Run: func(c *mc.Ctx) {
			t := usualTrack(c.Dev(2) == 0, 1+c.Choose(n+1))
			if c.Choose(2) == 0 {
				t.sync = false
				t.samples[0].key = false
				t.samples[len(t.samples)/2].key = true
			} else {
				t.sync = true
				for i := range t.samples {
					t.samples[i].key = c.Bool()
				}
			}
			after := c.Choose(3)
			switch c.Dev(3) {
			case 1:
				t.chunks = nil
				for range t.samples {
					t.chunks = append(t.chunks, 1)
				}
			case 2:
				if m := len(t.samples); m > 1 {
					t.chunks = []int{1, m - 1}
				}
			}
			dev(c, t)
			file := buildMP4([]*tb{t}, true)
			oneSeek(c, file, []*tb{t}, after)
			c.Outcome(len(t.samples), t.sync)
		}},
		histories("histories", ops, 0),
		histories("histories, other codings", ops-1, bound),
		{Name: "long tracks", Rule: "tracks of 40, 300 and 5000 samples, alone and two at a time, in chunks of 1 to all of them, sizes and times constant or not, key frames everywhere to nowhere: read to the end from the start and after a seek to each of 40 times", Run: longTracks},
		{Name: "far offsets", Rule: "files of 1, 2, 3 and nearly 4 GB of which only the ends are real, media data before or after the movie box: read to the end and after every seek", Run: farOffsets},
	}
}

func histories(name string, ops, bound int) mc.Exploration {
	return mc.Exploration{Name: name, Bound: bound, Rule: fmt.Sprintf("files of video and audio, audio first, two video tracks, audio alone or with an empty track, tracks of an unknown kind between, up to %d deviations of their coding: all histories of %d operations of reading one packet, reading to the end and seeking to 11 times, then read to the end", bound, ops), Run: func(c *mc.Ctx) {
		v := usualTrack(true, 4)
		a := usualTrack(false, 4)
		for i := range a.samples {
			a.samples[i].dur = 30
			a.samples[i].data = payload(100+i, 4)
		}
		a.chunks = []int{1, 2, 1}
		v.chunks = []int{3, 1}
		var tracks []*tb
		foreign := usualTrack(false, 2)
		foreign.foreign = true
		v2 := usualTrack(true, 4)
		for i := range v2.samples {
			v2.samples[i].dur = 25
			v2.samples[i].key = i%2 == 0
			v2.samples[i].data = payload(200+i, 6)
		}
		switch c.Choose(10) {
		case 8:
			tracks = []*tb{v, v2}
		case 9:
			tracks = []*tb{a, v2, v}
		case 6:
			tracks = []*tb{foreign, v, a}
		case 7:
			tracks = []*tb{a, foreign, v, foreign}
		case 0:
			tracks = []*tb{v, a}
		case 1:
			tracks = []*tb{a, v}
		case 2:
			tracks = []*tb{v}
		case 3:
			tracks = []*tb{a}
		case 4:
			tracks = []*tb{usualTrack(true, 0), a}
		case 5:
			tracks = []*tb{v, usualTrack(false, 0), a}
		}
		codingDevs(c, v)
		codingDevs(c, a)
		if c.Dev(2) == 1 {
			v.ctts = true
			v.samples[1].cts = 80
			v.samples[2].cts = -40
		}
		file := buildMP4(tracks, c.Dev(2) == 1)
		d, r := open(c, file), newRef(tracks)
		all := seekTimes(tracks)
		var times []time.Duration
		for i := 0; i < 11; i++ {
			times = append(times, all[i*(len(all)-1)/10])
		}
		how := ""
		for n := ops; n > 0; n-- {
			switch k := c.Choose(2 + len(times)); k {
			case 0:
				checkRead(c, d, r, how+" read")
				how += " read"
			case 1:
				readAll(c, d, r, how+" all")
				how += " all"
			default:
				tm := times[k-2]
				ok := r.seek(tm)
				if err := d.SeekToTime(tm); err != nil {
					c.FailK("seek", "%s: seek to %v: %v", how, tm, err)
				}
				if !ok {
					return
				}
				how += fmt.Sprintf(" seek(%v)", tm)
				if len(tracks) > 0 {
					if got := d.CurrentTime(); got != r[0].time() {
						c.FailK("current", "%s: current time %v, the first stream is at %v", how, got, r[0].time())
					}
				}
			}
		}
		readAll(c, d, r, how)
		c.Outcome(how)
	}}
}

// longTracks are files of many samples.
func longTracks(c *mc.Ctx) {
	n := []int{40, 300, 5000}[c.Choose(3)]
	mk := func(video bool, salt int) *tb {
		t := &tb{video: video, timescale: []int64{90000, 44100}[salt%2], sync: video}
		switch c.Choose(3) {
		case 1:
			t.sync = true
		case 2:
			t.sync = false
		}
		vary := c.Choose(2)
		for i := 0; i < n; i++ {
			s := sm{data: payload(i*7+salt, 1+vary*(i*37%11)), dur: 3000, key: i%29 == 0}
			copy(s.data, []byte{byte(i), byte(i >> 8)})
			if vary == 1 {
				s.dur = int64(2900 + i*13%200)
				if i > 200 && i%2 == 0 {
					s.dur = 3000
				}
				s.cts = int64(i%3) * 3000
			}
			t.samples = append(t.samples, s)
		}
		t.ctts = video && vary == 1
		switch c.Choose(4) {
		case 0:
			t.chunks = []int{n}
		case 1:
			for range t.samples {
				t.chunks = append(t.chunks, 1)
			}
		case 2: // as recorders do: so many in each, a rest
			for left := n; left > 0; left -= 13 {
				k := 13
				if left < k {
					k = left
				}
				t.chunks = append(t.chunks, k)
			}
		case 3:
			for left, k := n, 1; left > 0; k = k%9 + 1 {
				if left < k {
					k = left
				}
				t.chunks = append(t.chunks, k)
				left -= k
			}
		}
		if vary == 0 {
			t.constSize = true
		}
		return t
	}
	var tracks []*tb
	switch c.Choose(3) {
	case 0:
		tracks = []*tb{mk(true, 0)}
	case 1:
		tracks = []*tb{mk(false, 1)}
	case 2:
		if n > 300 {
			c.Prune()
		}
		v := mk(true, 2)
		a := usualTrack(false, 0)
		a.timescale = 44100
		for i := 0; i < n; i++ {
			a.samples = append(a.samples, sm{data: payload(i*5, 1+i%4), dur: 1024})
		}
		a.chunks = []int{n / 2, n - n/2}
		tracks = []*tb{v, a}
	}
	file := buildMP4(tracks, false)
	if k := c.Choose(41); k > 0 {
		r := newRef(tracks)
		pre := r[0].prefix()
		tm := pre[(k-1)*(len(pre)-1)/39] + time.Duration(k%3-1)
		d := open(c, file)
		if err := d.SeekToTime(tm); err != nil {
			c.FailK("seek", "seek to %v: %v", tm, err)
		}
		if r.seek(tm) {
			// the rest was read from the start
			for i := 0; i < 50 && checkRead(c, d, r, fmt.Sprintf("after a seek to %v", tm)); i++ {
			}
		}
	} else {
		readAll(c, open(c, file), newRef(tracks), "from the start")
	}
	c.Outcome(n, len(tracks))
}

// hole is a file of which a part in the middle is not there.
type hole struct {
	memFile
	from, size int64 // the part
}

func (h *hole) Read(p []byte) (int, error) {
	switch {
	case h.pos < h.from:
		if n := h.from - h.pos; int64(len(p)) > n {
			p = p[:n]
		}
		n := copy(p, h.b[h.pos:])
		h.pos += int64(n)
		return n, nil
	case h.pos < h.from+h.size:
		if n := h.from + h.size - h.pos; int64(len(p)) > n {
			p = p[:n]
		}
		for i := range p {
			p[i] = 0
		}
		h.pos += int64(len(p))
		return len(p), nil
	case h.pos >= h.size+int64(len(h.b)):
		return 0, io.EOF
	}
	n := copy(p, h.b[h.pos-h.size:])
	h.pos += int64(n)
	return n, nil
}

func (h *hole) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.b)) + h.size
	}
	if off < 0 {
		return 0, fmt.Errorf("seek before the start")
	}
	h.pos = off
	return off, nil
}

// farOffsets are files with samples beyond 2 GB.
func farOffsets(c *mc.Ctx) {
	size := []int64{1 << 30, 1<<31 - 40, 1<<31 - 10, 1 << 31, 3 << 30, 1<<32 - 2000}[c.Choose(6)]
	v, a := usualTrack(true, 3), usualTrack(false, 3)
	v.chunks, a.chunks = []int{2, 1}, []int{1, 2}
	tracks := [][]*tb{{v}, {a, v}}[c.Choose(2)]
	first := c.Bool()
	wide := c.Bool() // a 64-bit size of the part in the middle
	file, at := buildMP4Far(tracks, first, size, wide)
	d, r := mp4.NewDemuxer(&hole{memFile: memFile{b: file}, from: at, size: size}), newRef(tracks)
	times := seekTimes(tracks)
	if k := c.Choose(len(times) + 1); k < len(times) {
		if err := d.SeekToTime(times[k]); err != nil {
			c.FailK("seek", "seek to %v: %v", times[k], err)
		}
		if !r.seek(times[k]) {
			return
		}
	}
	readAll(c, d, r, "far")
	c.Outcome(size, first, wide)
}
