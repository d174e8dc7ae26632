package main

import (
	"fmt"
	"io/ioutil"
	"time"

	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/mp4/mp4io"

	"joyverif/mc"
)

// feed gives the file to every reader. What matters is that all of them come
// back: the explorer watches for panics, hangs and allocations.
func feed(c *mc.Ctx, file []byte) {
	c.Step(1)
	if atoms, err := mp4io.ReadFileAtoms(&memFile{b: file}); err == nil {
		for _, a := range atoms {
			mp4io.FprintAtom(ioutil.Discard, a)
			if d, ok := a.(*mp4io.Dummy); ok && d.Data == nil {
				continue // its contents were not read
			}
			if n := a.Len(); n > 64*len(file)+(1<<20) {
				c.FailK("len", "a box of %d bytes from a file of %d", n, len(file))
			}
		}
	}
	max := 16*len(file) + 16
	read := func(d *mp4.Demuxer, how string) (n int, data int) {
		for {
			p, err := d.ReadPacket()
			if err != nil {
				// the reader is still usable
				d.ReadPacket()
				return
			}
			if len(p.Data) > len(file) {
				c.FailK("size", "a packet of %d bytes from a file of %d", len(p.Data), len(file))
			}
			data += len(p.Data)
			if n++; n > max {
				c.FailK("endless", "%s: more than %d packets from a file of %d bytes", how, max, len(file))
			}
		}
	}
	d := mp4.NewDemuxer(&memFile{b: file})
	d.CurrentTime()
	s, err := d.Streams()
	n, _ := read(d, "from the start")
	if err == nil && len(s) > 0 {
		for _, tm := range []time.Duration{-time.Second, 0, 50 * ms, 1000 * time.Hour, 1 << 62} {
			if d.SeekToTime(tm) == nil {
				d.CurrentTime()
				read(d, fmt.Sprintf("after a seek to %v", tm))
			}
		}
	}
	// a seek before anything is read
	d = mp4.NewDemuxer(&memFile{b: file})
	if d.SeekToTime(60*ms) == nil {
		d.ReadPacket()
	}
	c.Validated(1)
	c.Outcome(err == nil, len(s), n)
}

// validFiles have every kind of box.
func validFiles() (l [][]byte) {
	v, a := usualTrack(true, 3), usualTrack(false, 3)
	v.ctts = true
	v.samples[1].cts = 40
	v.chunks = []int{2, 1}
	a.delay = 5
	a.constSize = true
	for i := range a.samples {
		a.samples[i].data = payload(i, 4)
	}
	l = append(l, buildMP4([]*tb{v, a}, false))
	// fragments
	moov := box("moov", full("mvhd", 0, 0, zeros(8), u32(1000), u32(0), zeros(80)), usualTrack(true, 0).trak(1, nil),
		box("mvex", full("trex", 0, 0, u32(1), u32(1), u32(40), u32(4), u32(0))))
	moof := box("moof", full("mfhd", 0, 0, u32(1)),
		box("traf", full("tfhd", 0, 0x3b, u32(1), u64(0), u32(1), u32(40), u32(4), u32(0)), full("tfdt", 1, 0, u64(7)), full("trun", 0, 0xf05, u32(2), u32(8), u32(0), zeros(16), zeros(16)), box("free")),
		box("traf", full("tfhd", 0, 0, u32(1)), full("tfdt", 0, 0, u32(7)), full("trun", 0, 0, u32(3))))
	l = append(l, cat(moov, moof, box("mdat", payload(1, 24))))
	return
}

var edge32 = []uint32{0, 1, 2, 7, 8, 9, 12, 16, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}

const memLimit = 8 << 20

func m04(tier string) []mc.Exploration {
	deep := tier == "thorough"
	files := validFiles()
	alters := 1
	if deep {
		alters = 2
	}
	ex := []mc.Exploration{
		{Name: "truncations", AllocLimit: memLimit, Rule: "a file with every kind of box for video and audio and a fragmented one, cut at every byte, at every byte of the movie box with the sizes around it adjusted or not", Run: func(c *mc.Ctx) {
			f := files[c.Choose(len(files))]
			f = append([]byte(nil), f...)
			at := c.Choose(len(f) + 1)
			switch c.Choose(3) {
			case 0:
				f = f[:at]
			case 1: // bytes left out
				k := 1 + c.Choose(8)
				if at+k > len(f) {
					c.Prune()
				}
				f = append(f[:at], f[at+k:]...)
			case 2: // the rest in a box of its own, sizes kept
				f = cat(f[:at], zeros(1+c.Choose(8)), f[at:])
			}
			feed(c, f)
		}},
		{Name: "bytes", AllocLimit: memLimit, Rule: "the files with every byte replaced by {0, 1, 0x7f, 0x80, 0xff, its neighbours and its complement}", Run: func(c *mc.Ctx) {
			f := files[c.Choose(len(files))]
			f = append([]byte(nil), f...)
			at := c.Choose(len(f))
			x := f[at]
			f[at] = []byte{0, 1, 0x7f, 0x80, 0xff, x + 1, x - 1, ^x, x ^ 0x10}[c.Choose(9)]
			feed(c, f)
		}},
		{Name: "words", AllocLimit: memLimit, Rule: "the files with any 32-bit word, at every offset, replaced by a boundary value", Run: func(c *mc.Ctx) {
			f := files[c.Choose(len(files))]
			f = append([]byte(nil), f...)
			at := c.Choose(len(f) - 3)
			copy(f[at:], u32(edge32[c.Choose(len(edge32))]))
			feed(c, f)
		}},
		{Name: "tables", Bound: 2, AllocLimit: memLimit, Rule: "the entry counts, sizes and values of all sample tables of a track, up to two of them (three in the thorough tier) at boundary values", Run: func(c *mc.Ctx) {
			t := usualTrack(true, 3)
			video := c.Bool()
			t.video, t.sync = video, true
			t.ctts = true
			t.chunks = []int{2, 1}
			f := buildMP4([]*tb{t}, true)
			// the tables' words
			from := indexOf(f, "stts")
			to := indexOf(f, "mdat") - 8
			for at := from - 4; at+4 <= to; at += 4 {
				if k := c.Dev(7); k > 0 {
					copy(f[at:], u32([]uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff}[k-1]))
				}
			}
			feed(c, f)
		}},
		{Name: "boxes", AllocLimit: memLimit, Rule: "every box kind with every body of up to 120 zero, 0xff or counting bytes, alone where it belongs and inside every container kind", Run: func(c *mc.Ctx) {
			all := append(append([]string{"free", "edts", "moov"}, leaves...), containers...)
			tag := all[c.Choose(len(all))]
			n := c.Choose(121)
			var body []byte
			switch c.Choose(4) {
			case 0:
				body = zeros(n)
			case 1:
				for i := 0; i < n; i++ {
					body = append(body, 0xff)
				}
			case 2:
				body = payload(1, n)
			case 3: // the size of a box where children may be
				for i := 0; i < n; i++ {
					body = append(body, []byte{0, 0, 0, 8}[i%4])
				}
			}
			b := box(tag, body)
			b = wrap(containers[c.Choose(len(containers))], b)
			feed(c, b)
		}},
		{Name: "descriptors", AllocLimit: memLimit, Rule: "every esds box of up to 5 bytes (6 in the thorough tier) over tags, lengths and continuation bytes, and nested descriptors with every length altered; lengths of up to 12 bytes; up to two descriptors (three in the thorough tier) in one another of any kinds and sizes", Run: func(c *mc.Ctx) {
			var body []byte
			switch c.Choose(4) {
			case 2:
				// a length of many bytes
				body = []byte{byte(3 + c.Choose(4))}
				more := []byte{0x80, 0xff, 0x81}[c.Choose(3)]
				for k := c.Choose(12); k > 0; k-- {
					body = append(body, more)
				}
				body = append(body, []byte{0, 1, 0x7f}[c.Choose(3)])
				body = append(body, zeros(c.Choose(20))...)
			case 3:
				// descriptors in one another, of every size, with right and
				// wrong lengths
				inner, depth := zeros(c.Choose(4)), 2
				if deep {
					depth = 3
				}
				for tag, k := byte(5), 0; k < depth; k++ {
					if t := byte(3 + c.Choose(4)); t < 6 {
						tag = t
					} else if tag > 3 && k > 0 {
						tag--
					}
					inner = append(zeros([]int{0, 1, 2, 3, 4, 11, 12, 13, 14}[c.Choose(9)]), inner...)
					l := len(inner) + c.Choose(3) - 1
					if l < 0 {
						l = 0
					}
					inner = append([]byte{tag, byte(l)}, inner...)
					if c.Bool() {
						break
					}
				}
				body = inner
			case 1:
				n := 5
				if deep {
					n = 6
				}
				al := []byte{0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xff}
				for k := c.Choose(n + 1); k > 0; k-- {
					body = append(body, al[c.Choose(len(al))])
				}
			case 0:
				body = desc(3, 4, u16(1), []byte{0}, desc(4, 4, []byte{0x40, 0x15}, zeros(11), desc(5, 4, []byte{0x12, 0x10})), desc(6, 4, []byte{2}))
				body = body[:c.Choose(len(body)+1)]
				for k := 0; k < alters; k++ {
					if len(body) > 0 && c.Bool() {
						body[c.Choose(len(body))] = []byte{0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x84, 0xff}[c.Choose(10)]
					}
				}
			}
			esds := full("esds", 0, 0, body)
			var e mp4io.ElemStreamDesc
			b := append([]byte(nil), esds...)
			if _, err := e.Unmarshal(b, 0); err == nil && len(e.DecConfig) > len(body) {
				c.FailK("config", "%d bytes from %d", len(e.DecConfig), len(body))
			}
			t := usualTrack(false, 1)
			trak := t.trak(1, []int64{0})
			at := indexOf(trak, "esds") - 8
			old := int(be32(trak[at:]))
			nw := cat(trak[:at], esds, trak[at+old:])
			fixSizes(nw, 0, len(trak), at, len(esds)-old)
			feed(c, box("moov", full("mvhd", 0, 0, zeros(96)), nw))
		}},
	}
	if deep {
		ex[3].Bound = 3
		ex = append(ex, mc.Exploration{Name: "pairs", AllocLimit: memLimit, Rule: "any two aligned 32-bit words of the files' movie boxes replaced by boundary values", Run: func(c *mc.Ctx) {
			f := files[c.Choose(len(files))]
			f = append([]byte(nil), f...)
			at := indexOf(f, "moov") % 4
			n := (len(f) - at) / 4
			i := c.Choose(n)
			j := c.Choose(n)
			if j <= i {
				c.Prune()
			}
			vals := []uint32{0, 1, 8, 0x7fffffff, 0x80000000, 0xffffffff}
			copy(f[at+4*i:], u32(vals[c.Choose(len(vals))]))
			copy(f[at+4*j:], u32(vals[c.Choose(len(vals))]))
			feed(c, f)
		}})
	}
	return ex
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// indexOf is the place of the contents of the first box of that kind.
func indexOf(b []byte, tag string) int {
	for i := 0; i+4 <= len(b); i++ {
		if string(b[i:i+4]) == tag {
			return i + 4
		}
	}
	panic(tag)
}

// wrap puts a box into a container and that into what it belongs into.
func wrap(tag string, b []byte) []byte {
	head := map[string]int{"stsd": 8, "dref": 8, "mp4a": 28, "avc1": 78}
	for {
		b = box(tag, zeros(head[tag]), b)
		up := map[string]string{"trak": "moov", "mdia": "trak", "minf": "mdia", "dinf": "minf", "dref": "dinf", "stbl": "minf", "stsd": "stbl", "mp4a": "stsd", "avc1": "stsd", "traf": "moof", "mvex": "moov"}[tag]
		if up == "" {
			return b
		}
		tag = up
	}
}

// fixSizes adds d to the sizes of all boxes around at: b was size bytes long.
func fixSizes(b []byte, from, size, at, d int) {
	head := map[string]int{"trak": 0, "mdia": 0, "minf": 0, "stbl": 0, "stsd": 8, "mp4a": 28}
	for from < at {
		tag := string(b[from+4 : from+8])
		old := int(be32(b[from:]))
		if at >= from+old {
			from += old
			continue
		}
		copy(b[from:], u32(uint32(old+d)))
		h, ok := head[tag]
		if !ok {
			panic(tag)
		}
		from += 8 + h
	}
}
