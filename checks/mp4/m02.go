package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"reflect"
	"time"

	"github.com/nareix/joy5/format/mp4/mp4io"

	"joyverif/mc"
)

// ---- the layout of the boxes, from ISO/IEC 14496-12, -14, -15 and QuickTime

type field struct {
	kind string // u8 u16 u24 u32 u64 i16 i32 t32 t64 fx16 fx32 skip bytes rest array table count atom atoms unknowns
	name string
	sub  string // element kind of arrays, field kinds of table rows, box of children
	n    int
	when func(vals map[string]uint64) bool
}

type spec struct {
	tag    string
	proto  interface{}
	fields []field
}

func kinds(s string) (l []string) {
	for _, x := range bytes.Fields([]byte(s)) {
		l = append(l, string(x))
	}
	return
}

var vf = []field{{kind: "u8", name: "Version"}, {kind: "u24", name: "Flags"}}

func mk(tag string, proto interface{}, fs ...[]field) *spec {
	s := &spec{tag: tag, proto: proto}
	for _, l := range fs {
		s.fields = append(s.fields, l...)
	}
	return s
}

// f lists fields of "kind Name" pairs.
func f(s string) (l []field) {
	k := kinds(s)
	for i := 0; i < len(k); i += 2 {
		x := field{kind: k[i], name: k[i+1]}
		if k[i] == "skip" {
			fmt.Sscan(k[i+1], &x.n)
		}
		l = append(l, x)
	}
	return
}

func one(kind, name, sub string, n int) []field {
	return []field{{kind: kind, name: name, sub: sub, n: n}}
}

func flagged(mask uint64, l []field) []field {
	for i := range l {
		l[i].when = func(v map[string]uint64) bool { return v["Flags"]&mask != 0 }
	}
	return l
}

var unknowns = one("unknowns", "Unknowns", "", 0)

var specs map[string]*spec
var leaves, containers []string

func init() {
	table := func(tag string, proto interface{}, row string) *spec {
		return mk(tag, proto, vf, one("table", "Entries", row, 0))
	}
	list := []*spec{
		mk("mvhd", mp4io.MovieHeader{}, vf, f("t32 CreateTime t32 ModifyTime i32 TimeScale i32 Duration fx32 PreferredRate fx16 PreferredVolume skip 10"), one("array", "Matrix", "i32", 9), f("t32 PreviewTime t32 PreviewDuration t32 PosterTime t32 SelectionTime t32 SelectionDuration t32 CurrentTime i32 NextTrackId")),
		mk("tkhd", mp4io.TrackHeader{}, vf, f("t32 CreateTime t32 ModifyTime i32 TrackId skip 4 i32 Duration skip 8 i16 Layer i16 AlternateGroup fx16 Volume skip 2"), one("array", "Matrix", "i32", 9), f("fx32 TrackWidth fx32 TrackHeight")),
		mk("hdlr", mp4io.HandlerRefer{}, vf, one("bytes", "Type", "", 4), one("bytes", "SubType", "", 4), one("rest", "Name", "", 0)),
		mk("mdhd", mp4io.MediaHeader{}, vf, f("t32 CreateTime t32 ModifyTime i32 TimeScale i32 Duration i16 Language i16 Quality")),
		mk("url ", mp4io.DataReferUrl{}, vf),
		mk("smhd", mp4io.SoundMediaInfo{}, vf, f("i16 Balance skip 2")),
		mk("vmhd", mp4io.VideoMediaInfo{}, vf, f("i16 GraphicsMode"), one("array", "Opcolor", "i16", 3)),
		mk("avcC", mp4io.AVC1Conf{}, one("rest", "Data", "", 0)),
		mk("esds", mp4io.ElemStreamDesc{}, one("esds", "", "", 0)),
		table("stts", mp4io.TimeToSample{}, "Count Duration"),
		table("stsc", mp4io.SampleToChunk{}, "FirstChunk SamplesPerChunk SampleDescId"),
		table("ctts", mp4io.CompositionOffset{}, "Count Offset"),
		table("stss", mp4io.SyncSample{}, ""),
		table("stco", mp4io.ChunkOffset{}, ""),
		mk("stsz", mp4io.SampleSize{}, vf, one("sizes", "", "", 0)),
		mk("mfhd", mp4io.MovieFragHeader{}, vf, f("u32 Seqnum")),
		mk("tfhd", mp4io.TrackFragHeader{}, vf, f("u32 TrackId"), flagged(1, f("u64 BaseDataOffset")), flagged(2, f("u32 StsdId")), flagged(8, f("u32 DefaultDuration")), flagged(16, f("u32 DefaultSize")), flagged(32, f("u32 DefaultFlags"))),
		mk("tfdt", mp4io.TrackFragDecodeTime{}, vf, []field{
			{kind: "t64", name: "Time", when: func(v map[string]uint64) bool { return v["Version"] != 0 }},
			{kind: "t32", name: "Time", when: func(v map[string]uint64) bool { return v["Version"] == 0 }}}),
		mk("trun", mp4io.TrackFragRun{}, vf, one("run", "", "", 0)),
		mk("trex", mp4io.TrackExtend{}, vf, f("u32 TrackId u32 DefaultSampleDescIdx u32 DefaultSampleDuration u32 DefaultSampleSize u32 DefaultSampleFlags")),

		mk("moov", mp4io.Movie{}, one("atom", "Header", "mvhd", 0), one("atom", "MovieExtend", "mvex", 0), one("atoms", "Tracks", "trak", 0), unknowns),
		mk("trak", mp4io.Track{}, one("atom", "Header", "tkhd", 0), one("atom", "Media", "mdia", 0), unknowns),
		mk("mdia", mp4io.Media{}, one("atom", "Header", "mdhd", 0), one("atom", "Handler", "hdlr", 0), one("atom", "Info", "minf", 0), unknowns),
		mk("minf", mp4io.MediaInfo{}, one("atom", "Sound", "smhd", 0), one("atom", "Video", "vmhd", 0), one("atom", "Data", "dinf", 0), one("atom", "Sample", "stbl", 0), unknowns),
		mk("dinf", mp4io.DataInfo{}, one("atom", "Refer", "dref", 0), unknowns),
		mk("dref", mp4io.DataRefer{}, vf, one("count", "", "", 0), one("atom", "Url", "url ", 0)),
		mk("stbl", mp4io.SampleTable{}, one("atom", "SampleDesc", "stsd", 0), one("atom", "TimeToSample", "stts", 0), one("atom", "CompositionOffset", "ctts", 0), one("atom", "SampleToChunk", "stsc", 0), one("atom", "SyncSample", "stss", 0), one("atom", "ChunkOffset", "stco", 0), one("atom", "SampleSize", "stsz", 0)),
		mk("stsd", mp4io.SampleDesc{}, f("u8 Version skip 3"), one("count", "", "", 0), one("atom", "AVC1Desc", "avc1", 0), one("atom", "MP4ADesc", "mp4a", 0), unknowns),
		mk("mp4a", mp4io.MP4ADesc{}, f("skip 6 i16 DataRefIdx i16 Version i16 RevisionLevel i32 Vendor i16 NumberOfChannels i16 SampleSize i16 CompressionId skip 2 fx32 SampleRate"), one("atom", "Conf", "esds", 0), unknowns),
		mk("avc1", mp4io.AVC1Desc{}, f("skip 6 i16 DataRefIdx i16 Version i16 Revision i32 Vendor i32 TemporalQuality i32 SpatialQuality i16 Width i16 Height fx32 HorizontalResolution fx32 VorizontalResolution skip 4 i16 FrameCount"), one("bytes", "CompressorName", "", 32), f("i16 Depth i16 ColorTableId"), one("atom", "Conf", "avcC", 0), unknowns),
		mk("moof", mp4io.MovieFrag{}, one("atom", "Header", "mfhd", 0), one("atoms", "Tracks", "traf", 0), unknowns),
		mk("traf", mp4io.TrackFrag{}, one("atom", "Header", "tfhd", 0), one("atom", "DecodeTime", "tfdt", 0), one("atom", "Run", "trun", 0), unknowns),
		mk("mvex", mp4io.MovieExtend{}, one("atoms", "Tracks", "trex", 0), unknowns),
	}
	specs = map[string]*spec{}
	for _, s := range list {
		specs[s.tag] = s
		leaf := true
		for _, x := range s.fields {
			if x.kind == "atom" || x.kind == "atoms" {
				leaf = false
			}
		}
		if leaf {
			leaves = append(leaves, s.tag)
		} else {
			containers = append(containers, s.tag)
		}
	}
}

var width = map[string]int{"u8": 1, "u16": 2, "u24": 3, "u32": 4, "u64": 8, "i16": 2, "i32": 4, "t32": 4, "t64": 8, "fx16": 2, "fx32": 4}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// setRaw gives the field the meaning of the raw value.
func setRaw(v reflect.Value, kind string, raw uint64) {
	switch kind {
	case "u8", "u16", "u24", "u32", "u64":
		v.SetUint(raw)
	case "i16":
		v.SetInt(int64(int16(raw)))
	case "i32":
		v.SetInt(int64(int32(raw)))
	case "t32", "t64":
		v.Set(reflect.ValueOf(time.Unix(time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix()+int64(raw), 0).UTC()))
	case "fx16":
		v.SetFloat(float64(raw) / 256)
	case "fx32":
		v.SetFloat(float64(raw) / 65536)
	}
}

// raws are the values a field takes: the first is the usual one.
func raws(kind string, salt int) []uint64 {
	n := width[kind]
	usual := uint64(0)
	for i := 0; i < n; i++ {
		usual = usual<<8 | uint64((salt*7+i*13+17)&0x7f)
	}
	max := ^uint64(0) >> uint(64-8*n)
	if kind == "t64" {
		usual &= 0xffffffffff
		return []uint64{usual, 0, 1, 1 << 32, 9300000000, 1 << 40}
	}
	return []uint64{usual, 0, 1, 0x80 << uint(8*n-8), max, max - 1, max>>1 + 2, 0xff}
}

type node struct {
	ptr  reflect.Value // to the box's struct
	tag  string
	wire []byte // as it is written
	alt  []byte // another legal form of it
}

type shape struct {
	c     *mc.Ctx
	depth int // fields of boxes deeper than this have their usual values
	salt  int
	only  string // deviate only in boxes of this kind of content
}

func (s *shape) next() int { s.salt++; return s.salt }

func (s *shape) build(tag string, depth int) node {
	sp := specs[tag]
	n := node{ptr: reflect.New(reflect.TypeOf(sp.proto)), tag: tag}
	v := n.ptr.Elem()
	c := s.c
	vals := map[string]uint64{}
	var w, w2 []byte
	type kid struct {
		node
		field string
	}
	var kids []kid
	countAt := -1
	deep := depth > s.depth
	for _, x := range sp.fields {
		if x.when != nil && !x.when(vals) {
			continue
		}
		switch x.kind {
		case "skip":
			w = append(w, zeros(x.n)...)
		case "bytes":
			b := payload(s.next(), x.n)
			if !deep {
				edges(c, b)
			}
			reflect.Copy(v.FieldByName(x.name), reflect.ValueOf(b))
			w = append(w, b...)
		case "rest":
			l := 5
			if !deep {
				l = []int{5, 0, 1, 8, 200}[c.Dev(5)]
			}
			b := payload(s.next(), l)
			if !deep {
				edges(c, b)
			}
			v.FieldByName(x.name).SetBytes(b)
			w = append(w, b...)
		case "array":
			a := v.FieldByName(x.name)
			r := raws(x.sub, s.next())
			for i := 0; i < x.n; i++ {
				raw := r[0] + uint64(i)
				if !deep {
					if k := c.Dev(len(r)); k > 0 {
						raw = r[k]
					}
				}
				setRaw(a.Index(i), x.sub, raw)
				w = append(w, be(raw, width[x.sub])...)
			}
		case "table":
			names := kinds(x.sub)
			rows := 2
			if !deep {
				rows = []int{2, 0, 1, 3}[c.Dev(4)]
			}
			w = append(w, u32(uint32(rows))...)
			t := v.FieldByName(x.name)
			t.Set(reflect.MakeSlice(t.Type(), rows, rows))
			for i := 0; i < rows; i++ {
				cols := len(names)
				if cols == 0 {
					cols = 1
				}
				for k := 0; k < cols; k++ {
					r := raws("u32", s.next())
					raw := r[0]
					if !deep {
						raw = r[c.Dev(len(r))]
					}
					e := t.Index(i)
					if len(names) > 0 {
						e = e.FieldByName(names[k])
					}
					e.SetUint(raw)
					w = append(w, be(raw, 4)...)
				}
			}
		case "sizes":
			z := v.Addr().Interface().(*mp4io.SampleSize)
			form := 0
			if !deep {
				form = c.Dev(8)
			}
			if form >= 4 {
				z.SampleSize = []uint32{1, 0x80000000, 0xffffffff, 7}[form-4]
				z.SampleCount = []uint32{0, 1, 0xffffffff, 9}[c.Dev(4)]
				w = append(w, cat(u32(z.SampleSize), u32(z.SampleCount))...)
				break
			}
			rows := []int{2, 0, 1, 3}[form]
			w = append(w, cat(u32(0), u32(uint32(rows)))...)
			for i := 0; i < rows; i++ {
				r := raws("u32", s.next())
				raw := r[0]
				if !deep {
					raw = r[c.Dev(len(r))]
				}
				z.Entries = append(z.Entries, uint32(raw))
				w = append(w, be(raw, 4)...)
			}
		case "run":
			z := v.Addr().Interface().(*mp4io.TrackFragRun)
			if !deep {
				// the usual value leaves the optional fields out
				for _, bit := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
					z.Flags &^= bit
					if c.Dev(2) == 1 || c.Dev(2) == 1 {
						z.Flags |= bit
					}
				}
				copy(w[1:], be(uint64(z.Flags), 3))
			}
			rows := 2
			if !deep {
				rows = []int{2, 0, 1, 3}[c.Dev(4)]
			}
			w = append(w, u32(uint32(rows))...)
			put := func(bit uint32, to *uint32) {
				if z.Flags&bit != 0 {
					r := raws("u32", s.next())
					raw := r[0]
					if !deep {
						raw = r[c.Dev(len(r))]
					}
					*to = uint32(raw)
					w = append(w, be(raw, 4)...)
				}
			}
			put(1, &z.DataOffset)
			put(4, &z.FirstSampleFlags)
			for i := 0; i < rows; i++ {
				var e mp4io.TrackFragRunEntry
				put(0x100, &e.Duration)
				put(0x200, &e.Size)
				put(0x400, &e.Flags)
				put(0x800, &e.Cts)
				z.Entries = append(z.Entries, e)
			}
		case "esds":
			z := v.Addr().Interface().(*mp4io.ElemStreamDesc)
			l := 2
			if !deep {
				l = []int{2, 0, 1, 5, 100, 104, 105, 127, 128, 300, 20000}[c.Dev(11)]
			}
			z.DecConfig = payload(s.next(), l)
			if !deep {
				edges(c, z.DecConfig)
			}
			id := raws("u16", s.next())
			k := 0
			if !deep {
				k = c.Dev(len(id))
			}
			z.TrackId = uint16(id[k])
			esds := func(lenlen int, extra ...[]byte) []byte {
				return cat(zeros(4), desc(3, lenlen, u16(int(z.TrackId)), []byte{0},
					desc(4, lenlen, []byte{0x40, 0x15}, zeros(3), u32(200000), u32(0), desc(5, lenlen, z.DecConfig)),
					desc(6, lenlen, []byte{2}), cat(extra...)))
			}
			w = append(w, esds(4)...)
			if l < 100 {
				w2 = esds(1, desc(0x20, 2, []byte{1, 2, 3}))
			} else {
				w2 = esds(3)
			}
		case "count":
			countAt = len(w)
			w = append(w, zeros(4)...)
		case "atom", "atoms":
			max := 1
			if x.kind == "atoms" {
				max = 2
			}
			k := 1
			if depth == 0 && s.only != "fields" {
				k = c.Choose(max + 1)
			} else if c.Dev(2) == 1 {
				k = c.Choose(max+1) / 2 * 2
			}
			for ; k > 0; k-- {
				ch := s.build(x.sub, depth+1)
				kids = append(kids, kid{ch, x.name})
			}
		case "unknowns":
			k := 0
			if depth == 0 && s.only != "fields" {
				k = c.Choose(3)
			} else {
				k = c.Dev(3)
			}
			for i := 0; i < k; i++ {
				tag := []string{"free", "uuid"}[i]
				b := box(tag, payload(s.next(), []int{0, 9}[(s.salt+i)%2]))
				kids = append(kids, kid{node{ptr: reflect.ValueOf(&mp4io.Dummy{Data: b, Tag_: mp4io.StringToTag(tag)}), tag: tag, wire: b, alt: b}, x.name})
			}
		default:
			r := raws(x.kind, s.next())
			if x.name == "Flags" && (tag == "tfhd" || tag == "trun") {
				r = []uint64{0x3b, 0, 1, 2, 8, 0x10, 0x20, 0x010000, 0x020000, 0xfffffb, 0x39}
			}
			if x.name == "Version" && tag == "tfdt" {
				r = []uint64{0, 1}
			}
			k := 0
			if !deep {
				k = c.Dev(len(r))
			}
			vals[x.name] = r[k]
			setRaw(v.FieldByName(x.name), x.kind, r[k])
			w = append(w, be(r[k], width[x.kind])...)
		}
	}
	for _, k := range kids {
		fv := v.FieldByName(k.field)
		if fv.Kind() == reflect.Slice {
			fv.Set(reflect.Append(fv, k.ptr))
		} else {
			fv.Set(k.ptr)
		}
	}
	if w2 == nil {
		w2 = append([]byte(nil), w...)
	}
	if countAt >= 0 {
		copy(w[countAt:], u32(uint32(len(kids))))
		copy(w2[countAt:], u32(uint32(len(kids))))
	}
	for _, k := range kids {
		w = append(w, k.wire...)
	}
	// another order: the children rotated, those of one field in their order,
	// with boxes the library has no place for between them
	if len(kids) > 0 {
		order := make([]int, 0, len(kids))
		rot := 0
		if depth == 0 {
			rot = c.Choose(len(kids))
		}
		rev := depth == 0 && c.Bool()
		seen := map[string][]int{}
		for i, k := range kids {
			seen[k.field] = append(seen[k.field], i)
		}
		for i := range kids {
			j := (i + rot) % len(kids)
			if rev {
				j = len(kids) - 1 - j
			}
			// the next of that field
			l := seen[kids[j].field]
			order = append(order, l[0])
			seen[kids[j].field] = l[1:]
		}
		for _, j := range order {
			if !v.FieldByName("Unknowns").IsValid() {
				w2 = append(w2, box("free", payload(3, j*3))...)
			}
			w2 = append(w2, kids[j].alt...)
		}
		if !v.FieldByName("Unknowns").IsValid() {
			w2 = append(w2, box("wide")...)
		}
	}
	n.wire = box(tag, w)
	n.alt = box(tag, w2)
	return n
}

// same compares box trees, places in the file aside.
func same(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v and %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: %v and %v", path, a, b)
		}
		if a.IsNil() {
			return ""
		}
		return same(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			if !t.Equal(b.Interface().(time.Time)) {
				return fmt.Sprintf("%s: %v and %v", path, a, b)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if name := a.Type().Field(i).Name; name != "AtomPos" {
				if d := same(a.Field(i), b.Field(i), path+"."+name); d != "" {
					return d
				}
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %v and %v", path, a, b)
	}
	return ""
}

// places checks that every box knows where it is.
func places(c *mc.Ctx, a mp4io.Atom, b []byte, base int) (count int) {
	off, size := a.Pos()
	off -= base
	if off < 0 || off+8 > len(b) || size < 8 || off+size > len(b) || !bytes.Equal(b[off:off+8], cat(u32(uint32(size)), u32(uint32(a.Tag())))) {
		c.FailK("pos", "box %v is said to be at %d with %d bytes", a.Tag(), off, size)
	}
	count = 1
	for _, ch := range a.Children() {
		count += places(c, ch, b, base)
	}
	return
}

// modelled counts the boxes of the tree.
func modelled(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return 0
		}
		if v.Kind() == reflect.Ptr {
			n++
		}
		return n + modelled(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if k := v.Field(i).Kind(); k == reflect.Ptr || k == reflect.Slice {
				n += modelled(v.Field(i))
			}
		}
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k == reflect.Ptr || k == reflect.Interface {
			for i := 0; i < v.Len(); i++ {
				n += modelled(v.Index(i))
			}
		}
	}
	return
}

func checkBox(c *mc.Ctx, n node) {
	a := n.ptr.Interface().(mp4io.Atom)
	if got := a.Tag(); got != mp4io.StringToTag(n.tag) || got.String() != n.tag {
		c.FailK("tag", "%s: tag %v", n.tag, got)
	}
	if got := a.Len(); got != len(n.wire) {
		c.FailK("len", "%s: Len is %d, the box has %d bytes", n.tag, got, len(n.wire))
	}
	buf := bytes.Repeat([]byte{0}, len(n.wire)+4)
	for i := range buf[len(n.wire):] {
		buf[len(n.wire)+i] = 0xee
	}
	if got := a.Marshal(buf); got != len(n.wire) || !bytes.Equal(buf[:len(n.wire)], n.wire) {
		c.FailK("marshal", "%s: Marshal gives %d bytes %x, expected %d: %x", n.tag, got, buf[:len(n.wire)], len(n.wire), n.wire)
	}
	if !bytes.Equal(buf[len(n.wire):], []byte{0xee, 0xee, 0xee, 0xee}) {
		c.FailK("marshal", "%s: Marshal writes beyond its length", n.tag)
	}
	total := modelled(n.ptr)
	for i, w := range [][]byte{n.wire, n.alt} {
		c.Step(1)
		base := 1000 * i
		x := reflect.New(n.ptr.Type().Elem())
		b := append([]byte(nil), w...)
		got, err := x.Interface().(mp4io.Atom).Unmarshal(b, base)
		if err != nil {
			c.FailK("unmarshal", "%s: Unmarshal of %x: %v", n.tag, w, err)
		}
		if got != len(w) && n.tag != "esds" {
			c.FailK("unmarshal", "%s: Unmarshal takes %d of %d bytes", n.tag, got, len(w))
		}
		if d := same(x, n.ptr, n.tag); d != "" {
			c.FailK("tree", "%x parses to another box: %s", w, d)
		}
		if k := places(c, x.Interface().(mp4io.Atom), w, base); k != total {
			c.FailK("children", "%s: %d boxes are reachable, there are %d", n.tag, k, total)
		}
		lookups(c, x.Interface().(mp4io.Atom))
		c.Validated(1)
	}
	c.Outcome(n.tag, total)
}

// lookups looks for a box of every tag below another: the first there is.
func lookups(c *mc.Ctx, root mp4io.Atom) {
	first := map[mp4io.Tag]mp4io.Atom{}
	var walk func(a mp4io.Atom)
	walk = func(a mp4io.Atom) {
		if _, ok := first[a.Tag()]; !ok {
			first[a.Tag()] = a
		}
		for _, ch := range a.Children() {
			walk(ch)
		}
	}
	walk(root)
	for tag, a := range first {
		if got := mp4io.FindChildren(root, tag); got != a {
			c.FailK("find", "looking for %v below %v finds %v", tag, root.Tag(), got)
		}
	}
	if got := mp4io.FindChildrenByName(root, "none"); got != nil {
		c.FailK("find", "looking for a box that is not there finds %v", got.Tag())
	}
}

func m02(tier string) []mc.Exploration {
	bound := 2
	if tier == "thorough" {
		bound = 3
	}
	ex := []mc.Exploration{
		{Name: "boxes", Bound: bound, Rule: fmt.Sprintf("every box without child boxes (%d kinds), all fields at usual values and up to %d of them at boundary values (0, 1, sign bit, maximum), tables of 0-3 rows, optional fields by their flags; in the written form and another legal one", len(leaves), bound), Run: func(c *mc.Ctx) {
			s := &shape{c: c}
			n := s.build(leaves[c.Choose(len(leaves))], 0)
			c.Sample(func() string { return fmt.Sprintf("%x", n.wire) })
			checkBox(c, n)
		}},
		{Name: "fields of containers", Bound: bound, Rule: fmt.Sprintf("every box with child boxes (%d kinds) and its children present, up to %d fields of it at boundary values", len(containers), bound), Run: func(c *mc.Ctx) {
			s := &shape{c: c, only: "fields"}
			checkBox(c, s.build(containers[c.Choose(len(containers))], 0))
		}},
		{Name: "trees", Bound: bound - 1, Rule: fmt.Sprintf("every box with child boxes: all sets of children (up to two of a repeated one, up to two unknown boxes, one of them of eight bytes), %d deviations in the sets below them; children in the written order, and rotated or reversed with boxes of no known place between them", bound-1), Run: func(c *mc.Ctx) {
			s := &shape{c: c, depth: -1}
			n := s.build(containers[c.Choose(len(containers))], 0)
			c.Sample(func() string { return fmt.Sprintf("%x", n.wire) })
			checkBox(c, n)
		}},
		{Name: "files", Rule: "all files of up to four top-level boxes (media data, an empty box, moov, moof) with 32-bit, 64-bit or open sizes: the boxes in their order and at their places", Run: func(c *mc.Ctx) {
			k := 1 + c.Choose(4)
			if tier != "thorough" && k == 4 {
				c.Prune()
			}
			var file []byte
			type want struct {
				tag string
				off int
				n   *node
			}
			var l []want
			for i := 0; i < k; i++ {
				tag := []string{"mdat", "free", "moov", "moof"}[c.Choose(4)]
				w := want{tag: tag, off: len(file)}
				var body []byte
				switch tag {
				case "mdat":
					body = payload(i, 1+3*i)
				case "moov", "moof":
					s := &shape{c: c, depth: -1, only: "fields", salt: 5 * i}
					n := s.build(tag, 0)
					w.n = &n
					body = n.wire[8:]
				}
				forms := 2
				if i == k-1 {
					forms = 3
				}
				switch c.Choose(forms) {
				case 0:
					file = cat(file, u32(uint32(8+len(body))), []byte(tag), body)
				case 1:
					file = cat(file, u32(1), []byte(tag), u64(uint64(16+len(body))), body)
				case 2:
					file = cat(file, u32(0), []byte(tag), body)
				}
				l = append(l, w)
			}
			atoms, err := mp4io.ReadFileAtoms(&memFile{b: file})
			if err != nil {
				c.FailK("file", "%x: %v", file, err)
			}
			if len(atoms) != len(l) {
				c.FailK("file", "%x: %d boxes, expected %d", file, len(atoms), len(l))
			}
			for i, a := range atoms {
				if off, _ := a.Pos(); a.Tag() != mp4io.StringToTag(l[i].tag) || off != l[i].off {
					c.FailK("file", "box %d is %v at %d, expected %s at %d", i, a.Tag(), off, l[i].tag, l[i].off)
				}
				if l[i].n != nil {
					if d := same(reflect.ValueOf(a), l[i].n.ptr, l[i].tag); d != "" {
						c.FailK("file", "%s", d)
					}
				}
				mp4io.FprintAtom(ioutil.Discard, a)
				c.Step(1)
			}
			c.Validated(1)
			c.Outcome(k, len(file))
		}},
	}
	return ex
}

// edges makes the first or the last bytes of a string, or all of it, zeros,
// blanks or ones.
func edges(c *mc.Ctx, b []byte) {
	k := c.Dev(10)
	if k == 0 || len(b) == 0 {
		return
	}
	fill := []byte{0, 0xff, ' '}[(k-1)%3]
	switch (k - 1) / 3 {
	case 0:
		for i := range b {
			b[i] = fill
		}
	case 1:
		b[0] = fill
	case 2:
		b[len(b)-1] = fill
		if len(b) > 2 {
			b[len(b)-2] = fill
		}
	}
}
