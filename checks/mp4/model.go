package main

// An independent reader and writer of the boxes of ISO/IEC 14496-12 and
// -14/-15 which the checks use as their oracle.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
)

func u16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }
func u32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func u64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

func cat(parts ...[]byte) (b []byte) {
	for _, p := range parts {
		b = append(b, p...)
	}
	return
}

func box(tag string, parts ...[]byte) []byte {
	body := cat(parts...)
	return cat(u32(uint32(8+len(body))), []byte(tag), body)
}

func full(tag string, version byte, flags uint32, parts ...[]byte) []byte {
	return box(tag, append([][]byte{{version, byte(flags >> 16), byte(flags >> 8), byte(flags)}}, parts...)...)
}

func zeros(n int) []byte { return make([]byte, n) }

var matrix = cat(u32(0x10000), zeros(12), u32(0x10000), zeros(12), u32(0x40000000))

// desc is a descriptor of ISO/IEC 14496-1; lenlen is the length of its length.
func desc(tag byte, lenlen int, parts ...[]byte) []byte {
	body := cat(parts...)
	b := []byte{tag}
	for i := lenlen - 1; i >= 0; i-- {
		x := byte(len(body) >> uint(7*i) & 0x7f)
		if i > 0 {
			x |= 0x80
		}
		b = append(b, x)
	}
	return append(b, body...)
}

// ---- reading

type mbox struct {
	tag  string
	body []byte
}

func boxes(b []byte) (out []mbox, err error) {
	for len(b) > 0 {
		if len(b) < 8 {
			return nil, fmt.Errorf("%d stray bytes", len(b))
		}
		n := int(binary.BigEndian.Uint32(b))
		if n < 8 || n > len(b) {
			return nil, fmt.Errorf("box %q of %d bytes in %d", b[4:8], n, len(b))
		}
		out = append(out, mbox{string(b[4:8]), b[8:n]})
		b = b[n:]
	}
	return
}

func child(b []byte, path ...string) ([]byte, error) {
	for _, tag := range path {
		l, err := boxes(b)
		if err != nil {
			return nil, err
		}
		found := 0
		for _, x := range l {
			if x.tag == tag {
				b = x.body
				found++
			}
		}
		if found != 1 {
			return nil, fmt.Errorf("%d boxes %s", found, tag)
		}
	}
	return b, nil
}

type msample struct {
	data     []byte
	dts, cts int64
	key      bool
}

type mtrack struct {
	id        uint32
	kind      string
	config    []byte
	timescale int64
	delay     int64 // in the movie's time scale
	duration  int64
	tkhddur   int64
	editdur   int64 // of what is shown, -1: no edits
	samples   []msample
	show      [6]uint64 // flags, volume, width and height of the track; matrix ok, self-contained
	entry     []uint64  // of the sample description
}

type mfile struct {
	timescale, duration int64
	nextid              uint32
	normal              bool // rate, volume and matrix
	tracks              []mtrack
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) u(n int) (v uint64) {
	if len(r.b) < n {
		r.err = io.ErrUnexpectedEOF
		return 0
	}
	for _, x := range r.b[:n] {
		v = v<<8 | uint64(x)
	}
	r.b = r.b[n:]
	return
}

func readDesc(b []byte) (tag byte, body, rest []byte, err error) {
	if len(b) < 2 {
		return 0, nil, nil, io.ErrUnexpectedEOF
	}
	tag = b[0]
	b = b[1:]
	n := 0
	for i := 0; ; i++ {
		if i == 4 || len(b) == 0 {
			return 0, nil, nil, errors.New("descriptor length")
		}
		x := b[0]
		b = b[1:]
		n = n<<7 | int(x&0x7f)
		if x&0x80 == 0 {
			break
		}
	}
	if n > len(b) {
		return 0, nil, nil, fmt.Errorf("descriptor %d of %d bytes in %d", tag, n, len(b))
	}
	return tag, b[:n], b[n:], nil
}

// esdsConfig checks the nesting of the descriptors and returns the decoder's
// specific information.
func esdsConfig(b []byte) (conf []byte, err error) {
	if len(b) < 4 {
		return nil, io.ErrUnexpectedEOF
	}
	tag, es, rest, err := readDesc(b[4:])
	if err != nil {
		return nil, err
	}
	if tag != 3 || len(rest) != 0 || len(es) < 3 || es[2] != 0 {
		return nil, fmt.Errorf("ES descriptor: tag %d, %d bytes after it", tag, len(rest))
	}
	tag, dc, rest, err := readDesc(es[3:])
	if err != nil {
		return nil, err
	}
	if tag != 4 || len(dc) < 13 || dc[0] != 0x40 {
		return nil, fmt.Errorf("decoder config descriptor: tag %d", tag)
	}
	tag, conf, dcrest, err := readDesc(dc[13:])
	if err != nil {
		return nil, err
	}
	if tag != 5 || len(dcrest) != 0 {
		return nil, fmt.Errorf("decoder specific descriptor: tag %d, %d bytes after it", tag, len(dcrest))
	}
	tag, sl, rest, err := readDesc(rest)
	if err != nil {
		return nil, err
	}
	if tag != 6 || len(sl) != 1 || sl[0] != 2 || len(rest) != 0 {
		return nil, fmt.Errorf("SL descriptor: tag %d, %x, %d bytes after it", tag, sl, len(rest))
	}
	return conf, nil
}

// modelRead reads a file with one moov box.
func modelRead(file []byte) (f mfile, err error) {
	top, err := boxes(file)
	if err != nil {
		return f, err
	}
	var mdat [][2]int
	pos := 0
	for _, x := range top {
		if x.tag == "mdat" {
			mdat = append(mdat, [2]int{pos + 8, pos + 8 + len(x.body)})
		}
		pos += 8 + len(x.body)
	}
	moov, err := child(file, "moov")
	if err != nil {
		return f, err
	}
	mvhd, err := child(moov, "mvhd")
	if err != nil {
		return f, err
	}
	if len(mvhd) != 100 {
		return f, fmt.Errorf("mvhd of %d bytes", len(mvhd))
	}
	f.timescale = int64(binary.BigEndian.Uint32(mvhd[12:]))
	f.duration = int64(binary.BigEndian.Uint32(mvhd[16:]))
	f.nextid = binary.BigEndian.Uint32(mvhd[96:])
	f.normal = bytes.Equal(mvhd[20:26], []byte{0, 1, 0, 0, 1, 0}) && bytes.Equal(mvhd[36:72], matrix)
	l, _ := boxes(moov)
	for _, x := range l {
		if x.tag != "trak" {
			continue
		}
		t, err := modelTrack(file, mdat, x.body)
		if err != nil {
			return f, fmt.Errorf("track %d: %v", len(f.tracks), err)
		}
		f.tracks = append(f.tracks, t)
	}
	return f, nil
}

func modelTrack(file []byte, mdat [][2]int, trak []byte) (t mtrack, err error) {
	tkhd, err := child(trak, "tkhd")
	if err != nil {
		return t, err
	}
	if len(tkhd) != 84 {
		return t, fmt.Errorf("tkhd of %d bytes", len(tkhd))
	}
	t.id = binary.BigEndian.Uint32(tkhd[12:])
	t.tkhddur = int64(binary.BigEndian.Uint32(tkhd[20:]))
	be := binary.BigEndian
	t.show = [6]uint64{uint64(be.Uint32(tkhd) & 0xffffff), uint64(be.Uint16(tkhd[36:])), uint64(be.Uint32(tkhd[76:])), uint64(be.Uint32(tkhd[80:]))}
	if bytes.Equal(tkhd[40:76], matrix) {
		t.show[4] = 1
	}
	t.editdur = -1
	if elst, e := child(trak, "edts", "elst"); e == nil {
		r := &rd{b: elst}
		r.u(4)
		n := r.u(4)
		sawMedia := false
		for ; n > 0; n-- {
			dur, at := int64(r.u(4)), int32(r.u(4))
			rate := r.u(4)
			if rate != 0x10000 {
				return t, fmt.Errorf("edit rate %x", rate)
			}
			if at == -1 && !sawMedia {
				t.delay += dur
			} else if at != 0 {
				return t, fmt.Errorf("edit at %d", at)
			} else {
				sawMedia = true
				t.editdur = dur
			}
		}
		if r.err != nil || len(r.b) != 0 || !sawMedia {
			return t, fmt.Errorf("edit list: %v", r.err)
		}
	}
	mdhd, err := child(trak, "mdia", "mdhd")
	if err != nil {
		return t, err
	}
	if len(mdhd) != 24 {
		return t, fmt.Errorf("mdhd of %d bytes", len(mdhd))
	}
	t.timescale = int64(binary.BigEndian.Uint32(mdhd[12:]))
	t.duration = int64(binary.BigEndian.Uint32(mdhd[16:]))
	hdlr, err := child(trak, "mdia", "hdlr")
	if err != nil {
		return t, err
	}
	if len(hdlr) < 12 {
		return t, fmt.Errorf("hdlr of %d bytes", len(hdlr))
	}
	kind := string(hdlr[8:12])
	minf, err := child(trak, "mdia", "minf")
	if err != nil {
		return t, err
	}
	dref, err := child(minf, "dinf", "dref")
	if err != nil {
		return t, err
	}
	if bytes.Equal(dref, cat(zeros(4), u32(1), full("url ", 0, 1))) {
		t.show[5] = 1
	}
	stbl, err := child(minf, "stbl")
	if err != nil {
		return t, err
	}
	stsd, err := child(stbl, "stsd")
	if err != nil {
		return t, err
	}
	if len(stsd) < 8 || binary.BigEndian.Uint32(stsd[4:]) != 1 {
		return t, fmt.Errorf("stsd %x", stsd)
	}
	switch kind {
	case "vide":
		t.kind = "video"
		e, err := child(stsd[8:], "avc1")
		if err != nil {
			return t, err
		}
		if len(e) < 78 {
			return t, fmt.Errorf("avc1 of %d bytes", len(e))
		}
		// data reference, width, height, resolutions, frames in a sample, depth
		t.entry = []uint64{uint64(be.Uint16(e[6:])), uint64(be.Uint16(e[24:])), uint64(be.Uint16(e[26:])), uint64(be.Uint32(e[28:])), uint64(be.Uint32(e[32:])), uint64(be.Uint16(e[40:])), uint64(be.Uint16(e[74:]))}
		if t.config, err = child(e[78:], "avcC"); err != nil {
			return t, err
		}
		if _, err = child(minf, "vmhd"); err != nil {
			return t, err
		}
	case "soun":
		t.kind = "audio"
		e, err := child(stsd[8:], "mp4a")
		if err != nil {
			return t, err
		}
		if len(e) < 28 {
			return t, fmt.Errorf("mp4a of %d bytes", len(e))
		}
		// data reference, channels, rate
		t.entry = []uint64{uint64(be.Uint16(e[6:])), uint64(be.Uint16(e[16:])), uint64(be.Uint32(e[24:]))}
		esds, err := child(e[28:], "esds")
		if err != nil {
			return t, err
		}
		if t.config, err = esdsConfig(esds); err != nil {
			return t, err
		}
		if _, err = child(minf, "smhd"); err != nil {
			return t, err
		}
	default:
		return t, fmt.Errorf("handler %q", kind)
	}

	table := func(tag string, width int) (rows [][]uint64, version byte, there bool, err error) {
		b, e := child(stbl, tag)
		if e != nil {
			return nil, 0, false, nil
		}
		r := &rd{b: b}
		version = byte(r.u(1))
		r.u(3)
		n := r.u(4)
		for ; n > 0 && r.err == nil; n-- {
			var row []uint64
			for i := 0; i < width; i++ {
				row = append(row, r.u(4))
			}
			rows = append(rows, row)
		}
		if r.err != nil || len(r.b) != 0 {
			return nil, 0, true, fmt.Errorf("%s: %v, %d bytes left", tag, r.err, len(r.b))
		}
		return rows, version, true, nil
	}
	// sizes
	b, err := child(stbl, "stsz")
	if err != nil {
		return t, err
	}
	r := &rd{b: b}
	r.u(4)
	one, n := r.u(4), r.u(4)
	var sizes []int
	for ; n > 0 && r.err == nil; n-- {
		if one != 0 {
			sizes = append(sizes, int(one))
		} else {
			sizes = append(sizes, int(r.u(4)))
		}
	}
	if r.err != nil || len(r.b) != 0 {
		return t, fmt.Errorf("stsz: %v, %d left", r.err, len(r.b))
	}
	t.samples = make([]msample, len(sizes))
	// places
	stco, _, there, err := table("stco", 1)
	if err != nil || !there {
		return t, fmt.Errorf("stco: %v", err)
	}
	stsc, _, there, err := table("stsc", 3)
	if err != nil || !there {
		return t, fmt.Errorf("stsc: %v", err)
	}
	k := 0
	for i, c := range stco {
		per := -1
		for _, e := range stsc {
			if e[0] <= uint64(i+1) {
				per = int(e[1])
				if e[2] != 1 {
					return t, fmt.Errorf("sample description %d", e[2])
				}
			}
		}
		if per < 0 {
			return t, fmt.Errorf("chunk %d has no group", i)
		}
		at := int(c[0])
		for ; per > 0; per-- {
			if k >= len(sizes) {
				return t, fmt.Errorf("chunk %d has too many samples", i)
			}
			end := at + sizes[k]
			inside := false
			for _, m := range mdat {
				inside = inside || at >= m[0] && end <= m[1]
			}
			if !inside {
				return t, fmt.Errorf("sample %d at %d-%d outside of mdat %v", k, at, end, mdat)
			}
			t.samples[k].data = file[at:end]
			at = end
			k++
		}
	}
	if k != len(sizes) {
		return t, fmt.Errorf("%d of %d samples in chunks", k, len(sizes))
	}
	// times
	stts, _, there, err := table("stts", 2)
	if err != nil || !there {
		return t, fmt.Errorf("stts: %v", err)
	}
	k = 0
	dts := int64(0)
	for _, e := range stts {
		for i := uint64(0); i < e[0]; i++ {
			if k >= len(sizes) {
				return t, errors.New("stts has too many samples")
			}
			t.samples[k].dts = dts
			dts += int64(e[1])
			k++
		}
	}
	if k != len(sizes) {
		return t, fmt.Errorf("stts has %d of %d samples", k, len(sizes))
	}
	if dts != t.duration {
		return t, fmt.Errorf("durations add up to %d, not %d", dts, t.duration)
	}
	ctts, version, there, err := table("ctts", 2)
	if err != nil {
		return t, err
	}
	if there {
		k = 0
		for _, e := range ctts {
			for i := uint64(0); i < e[0]; i++ {
				if k >= len(sizes) {
					return t, errors.New("ctts has too many samples")
				}
				if version == 0 {
					t.samples[k].cts = int64(e[1])
				} else {
					t.samples[k].cts = int64(int32(e[1]))
				}
				k++
			}
		}
		if k != len(sizes) {
			return t, fmt.Errorf("ctts has %d of %d samples", k, len(sizes))
		}
	}
	stss, _, there, err := table("stss", 1)
	if err != nil {
		return t, err
	}
	if !there {
		for i := range t.samples {
			t.samples[i].key = true
		}
	}
	last := uint64(0)
	for _, e := range stss {
		if e[0] <= last || e[0] > uint64(len(sizes)) {
			return t, fmt.Errorf("sync sample %d of %d after %d", e[0], len(sizes), last)
		}
		last = e[0]
		t.samples[e[0]-1].key = true
	}
	return t, nil
}

// ---- files in memory

// memFile is a file in memory.
type memFile struct {
	b   []byte
	pos int64
}

func (f *memFile) Read(p []byte) (int, error) {
	if f.pos >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := copy(p, f.b[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *memFile) Write(p []byte) (int, error) {
	if end := f.pos + int64(len(p)); end > int64(len(f.b)) {
		f.b = append(f.b, make([]byte, end-int64(len(f.b)))...)
	}
	copy(f.b[f.pos:], p)
	f.pos += int64(len(p))
	return len(p), nil
}

func (f *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	if off < 0 {
		return 0, errors.New("seek before the start")
	}
	f.pos = off
	return off, nil
}
