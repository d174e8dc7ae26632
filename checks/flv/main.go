// FLV checks: F01 (round trip and file structure), F02 (fragmentation,
// truncation, write failures), F03 (malformed input).
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/mc"
	"joyverif/memio"
)

// ---- independent FLV reader and writer (Adobe FLV specification, annex E) ----

type rtag struct {
	typ    byte
	time   uint32
	stream uint32
	body   []byte
	end    int // file offset just after the body
}

type rfile struct {
	flags byte
	tags  []rtag
	// trailing bytes that do not form a complete tag
	rest int
}

func u24(b []byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }

// parseFLV reads a complete, well-formed file strictly.
func parseFLV(b []byte) (f rfile, err error) {
	if len(b) < 13 || string(b[:3]) != "FLV" || b[3] != 1 {
		return f, fmt.Errorf("bad signature or version in %x", b[:min(len(b), 13)])
	}
	f.flags = b[4]
	if f.flags&^5 != 0 {
		return f, fmt.Errorf("reserved flag bits set: %02x", f.flags)
	}
	off := binary.BigEndian.Uint32(b[5:])
	if off != 9 || binary.BigEndian.Uint32(b[9:]) != 0 {
		return f, fmt.Errorf("bad data offset %d or first back pointer", off)
	}
	p := 13
	for p < len(b) {
		if len(b)-p < 11 {
			return f, fmt.Errorf("partial tag header at %d", p)
		}
		n := u24(b[p+1:])
		t := rtag{typ: b[p], time: uint32(u24(b[p+4:])) | uint32(b[p+7])<<24, stream: uint32(u24(b[p+8:]))}
		if len(b)-p < 15+n {
			return f, fmt.Errorf("tag at %d declares %d bytes, %d left", p, n, len(b)-p-15)
		}
		t.body = b[p+11 : p+11+n]
		t.end = p + 11 + n
		if bp := binary.BigEndian.Uint32(b[p+11+n:]); int(bp) != 11+n {
			return f, fmt.Errorf("tag at %d: back pointer %d, want %d", p, bp, 11+n)
		}
		f.tags = append(f.tags, t)
		p += 15 + n
	}
	return f, nil
}

func fileHeader(flags byte, off int) []byte {
	b := []byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[5:], uint32(off))
	b = append(b, make([]byte, off-9)...)
	for i := 9; i < off; i++ {
		b[i] = 0xcc
	}
	return append(b, 0, 0, 0, 0)
}

func rawTag(typ byte, tm uint32, stream uint32, body []byte) []byte {
	n := len(body)
	b := []byte{typ, byte(n >> 16), byte(n >> 8), byte(n), byte(tm >> 16), byte(tm >> 8), byte(tm), byte(tm >> 24), byte(stream >> 16), byte(stream >> 8), byte(stream)}
	b = append(b, body...)
	var e [4]byte
	binary.BigEndian.PutUint32(e[:], uint32(n+11))
	return append(b, e[:]...)
}

// ---- AMF0 pieces ----

func amfStr(s string) []byte {
	return append([]byte{2, byte(len(s) >> 8), byte(len(s))}, s...)
}
func amfNum(f float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return b
}
func amfObj(marker byte, kv ...interface{}) []byte {
	b := []byte{marker}
	if marker == 8 {
		b = append(b, 0, 0, 0, byte(len(kv)/2))
	}
	for i := 0; i < len(kv); i += 2 {
		k := kv[i].(string)
		b = append(b, byte(len(k)>>8), byte(len(k)))
		b = append(b, k...)
		b = append(b, kv[i+1].([]byte)...)
	}
	return append(b, 0, 0, 9)
}
func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

var metas = [][]byte{
	amfObj(3, "width", amfNum(1280), "codec", amfStr("avc1")),
	amfObj(3),
	cat(amfObj(3, "a", []byte{1, 1}), amfNum(2), []byte{5}),
	amfObj(3, "o", amfObj(3, "x", []byte{5}), "arr", []byte{10, 0, 0, 0, 2, 1, 0, 2, 0, 0}),
	amfStr("onMetaDataX"),
	amfNum(-1),
	amfStr("@setDataFrame"),
	amfStr("onMetaData"),
	cat(amfStr("onMetaData"), amfNum(5)),
	cat(amfStr("@setDataFrame"), amfObj(3, "a", amfNum(1))),
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*31 + seed + byte(i>>8)*7
	}
	return b
}

var msTimes = []int64{0, 1, 40, 0x7fff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xff000000, 0xfffffffe, 0xffffffff}
var ctimes = []int64{0, 1, -1, 40, -128, 255, 256, 0x7fff, 0x8000, -0x8000, 0x7fffff, -0x800000}
var sizes = []int{0, 1, 2, 3, 5, 11, 250, 251, 255, 256, 4096, 65535, 65536, 70001}

func ms(t int64) time.Duration { return time.Duration(t) * time.Millisecond }

func eqPkt(a, b av.Packet) bool {
	return a.Type == b.Type && a.IsKeyFrame == b.IsKeyFrame && a.Time == b.Time && a.CTime == b.CTime && bytes.Equal(a.Data, b.Data) &&
		len(a.ASeqHdr)+len(a.VSeqHdr)+len(a.Metadata) == len(b.ASeqHdr)+len(b.VSeqHdr)+len(b.Metadata)
}

func sp(p av.Packet) string {
	d := p.Data
	s := ""
	if len(d) > 24 {
		s = fmt.Sprintf("..(%d)", len(d))
		d = d[:24]
	}
	return fmt.Sprintf("{%s key=%v t=%v ct=%v %x%s}", av.PacketTypeString[p.Type], p.IsKeyFrame, p.Time, p.CTime, d, s)
}
func spl(ps []av.Packet) string {
	s := ""
	if len(ps) > 300 {
		ps = ps[:300]
	}
	for _, p := range ps {
		s += sp(p)
	}
	return s
}

// norm is what the container preserves of a packet: configuration packets
// carry no time of their own.
func norm(p av.Packet) av.Packet {
	p.Time = p.Time / time.Millisecond * time.Millisecond
	if p.Type == av.H264DecoderConfig || p.Type == av.AACDecoderConfig {
		p.Time = 0
	}
	return p
}

// wantTag is the tag body the specification prescribes for a packet.
func wantTag(p av.Packet, publishing bool) (typ byte, body []byte) {
	ct := int32(p.CTime / time.Millisecond)
	c := []byte{byte(ct >> 16), byte(ct >> 8), byte(ct)}
	switch p.Type {
	case av.H264:
		f := byte(0x27)
		if p.IsKeyFrame {
			f = 0x17
		}
		return 9, cat([]byte{f, 1}, c, p.Data)
	case av.H264DecoderConfig:
		return 9, cat([]byte{0x17, 0, 0, 0, 0}, p.Data)
	case av.AAC:
		return 8, cat([]byte{0xaf &^ 1, 1}, p.Data)
	case av.AACDecoderConfig:
		return 8, cat([]byte{0xaf &^ 1, 0}, p.Data)
	case av.Metadata:
		if publishing {
			return 18, cat(amfStr("@setDataFrame"), amfStr("onMetaData"), p.Data)
		}
		return 18, cat(amfStr("onMetaData"), p.Data)
	}
	panic("type")
}

// sameTagBody compares bodies; of the audio header only the format nibble and
// the packet type are meaningful for AAC (the specification fixes the rest).
func sameTagBody(typ byte, a, b []byte) bool {
	if typ == 8 && len(a) > 0 && len(b) > 0 {
		return a[0]>>4 == b[0]>>4 && bytes.Equal(a[1:], b[1:])
	}
	return bytes.Equal(a, b)
}

type sw struct{ io.Writer }

func (sw) Streams() ([]interface{}, error) { return nil, nil }

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func checkFile(c *mc.Ctx, pkts []av.Packet, v, a, publishing bool) {
	var buf bytes.Buffer
	m := flv.NewMuxer(sw{&buf})
	m.HasVideo, m.HasAudio, m.Publishing = v, a, publishing
	for i, p := range pkts {
		in := append([]byte{}, p.Data...)
		if err := m.WritePacket(p); err != nil {
			c.Fail("writing %s: %v", sp(p), err)
		}
		if !bytes.Equal(in, p.Data) {
			c.Fail("writing packet %d %s changed its payload", i, sp(p))
		}
		c.Step(1)
		if len(pkts) < 1000 {
			c.StateHash(hash(buf.Bytes()))
		}
	}
	out := buf.Bytes()
	f, err := parseFLV(out)
	if err != nil {
		c.Fail("packets %s: invalid file: %v", spl(pkts), err)
	}
	wf := byte(0)
	if v {
		wf |= 1
	}
	if a {
		wf |= 4
	}
	if f.flags != wf {
		c.Fail("stream flags %02x want %02x", f.flags, wf)
	}
	if len(f.tags) != len(pkts) {
		c.Fail("packets %s: %d tags in the file", spl(pkts), len(f.tags))
	}
	for i, p := range pkts {
		typ, body := wantTag(p, publishing)
		t := f.tags[i]
		tmOK := t.time == uint32(p.Time/time.Millisecond) || p.Type == av.AACDecoderConfig || p.Type == av.H264DecoderConfig
		if t.typ != typ || t.stream != 0 || !tmOK || !sameTagBody(typ, t.body, body) {
			c.Fail("packet %s: tag type %d time %d stream %d body %x, want type %d body %x", sp(p), t.typ, t.time, t.stream, t.body[:min(40, len(t.body))], typ, body[:min(40, len(body))])
		}
	}
	d := flv.NewDemuxer(bytes.NewReader(out))
	var got []av.Packet
	flagSeen := -1
	d.LogHeaderEvent = func(f uint8) { flagSeen = int(f) }
	for {
		p, err := d.ReadPacket()
		if err != nil {
			if err != io.EOF {
				c.Fail("packets %s: reading ended with %v", spl(pkts), err)
			}
			break
		}
		got = append(got, p)
		c.Step(1)
	}
	if flagSeen != int(wf) {
		c.Fail("header flags reported %d want %d", flagSeen, wf)
	}
	if len(got) != len(pkts) {
		c.Fail("wrote %s read %s", spl(pkts), spl(got))
	}
	for i := range got {
		if !eqPkt(got[i], norm(pkts[i])) {
			c.Fail("packet %d: wrote %s read %s", i, sp(norm(pkts[i])), sp(got[i]))
		}
	}
	c.OutcomeHash(hash(out))
	c.Validated(1)
	c.Sample(func() string {
		return fmt.Sprintf("v=%v a=%v pub=%v %s -> %d bytes", v, a, publishing, spl(pkts), len(out))
	})
}

// anyPacket enumerates single packets completely over the boundary domains.
func anyPacket(c *mc.Ctx) av.Packet {
	k := c.Choose(6)
	p := av.Packet{}
	sub := time.Duration(0)
	tm := msTimes[c.Choose(len(msTimes))]
	if c.Bool() {
		sub = 999999
	}
	switch k {
	case 0, 1:
		p.Type = av.H264
		p.IsKeyFrame = k == 0
		p.CTime = ms(ctimes[c.Choose(len(ctimes))])
		p.Data = fill(sizes[c.Choose(len(sizes))], 1)
	case 2:
		p.Type = av.AAC
		p.Data = fill(sizes[c.Choose(len(sizes))], 2)
	case 3:
		p.Type = av.H264DecoderConfig
		p.Data = fill(sizes[c.Choose(len(sizes))], 3)
	case 4:
		p.Type = av.AACDecoderConfig
		p.Data = fill(sizes[c.Choose(len(sizes))], 4)
	case 5:
		p.Type = av.Metadata
		p.Data = metas[c.Choose(len(metas))]
	}
	p.Time = ms(tm) + sub
	return p
}

// fewPackets is the alphabet of the sequence exploration.
func fewPackets() []av.Packet {
	return []av.Packet{
		{Type: av.H264, IsKeyFrame: true, Time: ms(40), CTime: ms(80), Data: fill(300, 1)},
		{Type: av.H264, Time: ms(0x1000000), CTime: ms(-1), Data: fill(5, 2)},
		{Type: av.AAC, Time: ms(23), Data: fill(7, 3)},
		{Type: av.H264DecoderConfig, Data: fill(40, 4)},
		{Type: av.AACDecoderConfig, Data: fill(2, 5)},
		{Type: av.Metadata, Time: ms(7), Data: metas[0]},
		{Type: av.H264, IsKeyFrame: true, Time: ms(0xffffffff), Data: nil},
		{Type: av.AAC, Time: 0, Data: nil},
		{Type: av.Metadata, Data: metas[3]},
		{Type: av.H264, IsKeyFrame: false, Time: 0, CTime: 0, Data: fill(1, 6)},
		{Type: av.AAC, Time: ms(0x80000000), Data: fill(4000, 7)},
		{Type: av.H264DecoderConfig, Time: ms(500), Data: fill(41, 8)},
	}
}

func f01(tier string) []mc.Exploration {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	return []mc.Exploration{
		{Name: "single-packets", Rule: "every packet of every kind over 14 times (with and without a sub-millisecond part) x 12 composition offsets x 14 payload sizes x 10 metadata lists; file checked by an independent parser, then demuxed", Run: func(c *mc.Ctx) {
			checkFile(c, []av.Packet{anyPacket(c)}, c.Bool(), c.Bool(), c.Bool())
		}},
		{Name: "packet-sequences", Rule: fmt.Sprintf("all packet sequences up to length %d over 12 packets x publishing mode", depth), Run: func(c *mc.Ctx) {
			al := fewPackets()
			n := 1 + c.Choose(depth)
			var ps []av.Packet
			pub := c.Bool()
			for i := 0; i < n; i++ {
				ps = append(ps, al[c.Choose(len(al))])
			}
			fl := c.Choose(3)
			checkFile(c, ps, fl == 0, fl < 2, pub)
		}},
		{Name: "long", Rule: "files of 70000 packets of 3 mixtures of kinds, each packet advancing the time by 1, 40 or 61000 ms, with payloads of 0-260 bytes, x stream flags x publishing mode", AllocLimit: 1 << 30, Run: func(c *mc.Ctx) {
			mix := c.Choose(3)
			step := []int64{1, 40, 61000}[c.Choose(3)]
			var ps []av.Packet
			for i := 0; i < 70000; i++ {
				p := av.Packet{Time: ms(int64(i) * step), Data: fill((i/100+i)%261, byte(i))}
				switch {
				case mix == 0 && i%1000 == 0:
					p.Type, p.Time = []int{av.H264DecoderConfig, av.AACDecoderConfig}[i/1000%2], 0
				case mix == 1 && i%1000 == 0:
					p.Type, p.Data = av.Metadata, metas[i/1000%len(metas)]
				case mix == 2 || i%3 != 0:
					p.Type, p.IsKeyFrame, p.CTime = av.H264, i%50 == 1, ms(int64(i%900)-450)
				default:
					p.Type = av.AAC
				}
				ps = append(ps, p)
			}
			checkFile(c, ps, true, c.Bool(), c.Bool())
		}},
		{Name: "size-sweep", Rule: "every payload size 0-1100 and 2^k-12..2^k+12 (k<=17) x packet kind, followed by another packet of the other kind", Run: func(c *mc.Ctx) {
			n := c.Choose(1101 + 25*7)
			if n > 1100 {
				n -= 1101
				n = 1<<uint(11+n/25) + n%25 - 12
			}
			p := av.Packet{Type: []int{av.H264, av.AAC, av.H264DecoderConfig, av.AACDecoderConfig, av.Metadata}[c.Choose(5)], Data: fill(n, 3)}
			q := av.Packet{Type: av.AAC, Time: ms(1), Data: fill(n%7, 9)}
			switch p.Type {
			case av.H264:
				p.IsKeyFrame = n%2 == 0
			case av.AAC:
				q.Type = av.H264
			case av.Metadata:
				if n >= 65536 {
					p.Data = cat([]byte{12, 0, byte(n >> 16), byte(n >> 8), byte(n)}, p.Data)
				} else {
					p.Data = amfStr(string(p.Data))
				}
			}
			checkFile(c, []av.Packet{p, q}, c.Bool(), true, p.Type == av.Metadata && c.Bool())
		}},
		{Name: "bit-sweep", Rule: "every time 2^k-1, 2^k, 2^k+1 below 2^32 and every composition offset +-(2^k+-1) within 24 bits, together", Run: func(c *mc.Ctx) {
			t := int64(1)<<uint(c.Choose(32)) + int64(c.Choose(3)-1)
			ct := int64(1)<<uint(c.Choose(23)) + int64(c.Choose(3)-1)
			if c.Bool() {
				ct = -ct
			}
			if ct > 0x7fffff || ct < -0x800000 || t > 0xffffffff {
				c.Prune()
			}
			checkFile(c, []av.Packet{{Type: av.H264, Time: ms(t), CTime: ms(ct), Data: []byte{1}}, {Type: av.AAC, Time: ms(t), Data: []byte{2}}}, true, true, false)
		}},
		{Name: "tag-headers", Rule: "every audio tag header (16 formats x 4 rates x 2 x 2 x packet types 0-255 for AAC), every video tag header (16 frame types x 16 formats x packet types x 12 composition offsets), data tags and every other tag type, x 14 times x stream ids: exact bytes against the specification, and read back", Run: func(c *mc.Ctx) {
			t := flvio.Tag{}
			var hdr []byte
			switch c.Choose(4) {
			case 0:
				t.Type = 8
				t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType = uint8(c.Choose(16)), uint8(c.Choose(4)), uint8(c.Choose(2)), uint8(c.Choose(2))
				hdr = []byte{t.SoundFormat<<4 | t.SoundRate<<2 | t.SoundSize<<1 | t.SoundType}
				if t.SoundFormat == 10 {
					t.AACPacketType = uint8(c.Choose(256))
					hdr = append(hdr, t.AACPacketType)
				}
			case 1:
				t.Type = 9
				t.FrameType, t.VideoFormat = uint8(c.Choose(16)), uint8(c.Choose(16))
				hdr = []byte{t.FrameType<<4 | t.VideoFormat}
				if t.VideoFormat == 7 || t.VideoFormat == 12 {
					t.AVCPacketType = []uint8{0, 1, 2, 255}[c.Choose(4)]
					t.CTime = int32(ctimes[c.Choose(len(ctimes))])
					hdr = append(hdr, t.AVCPacketType, byte(t.CTime>>16), byte(t.CTime>>8), byte(t.CTime))
				}
			case 2:
				t.Type = []uint8{18, 15}[c.Choose(2)]
			case 3:
				t.Type = uint8(c.Choose(256))
				if t.Type == 8 || t.Type == 9 {
					c.Prune()
				}
			}
			tsel := c.Choose(4)
			t.Time = []uint32{0, 0xffffff, 0x1000000, 0xfedcba98}[tsel]
			t.StreamId = []uint32{0, 1, 0xffffff}[c.Choose(3)]
			t.Data = fill([]int{0, 1, 300}[c.Choose(3)], 9)
			want := rawTag(t.Type, t.Time, t.StreamId, cat(hdr, t.Data))
			if t.MaxHeaderLen() < len(hdr) {
				c.Fail("MaxHeaderLen %d is smaller than the header (%d)", t.MaxHeaderLen(), len(hdr))
			}
			var buf bytes.Buffer
			scratch := bytes.Repeat([]byte{0xdd}, 256)
			if err := flvio.WriteTag(&buf, t, scratch); err != nil {
				c.Fail("WriteTag: %v", err)
			}
			if !bytes.Equal(buf.Bytes(), want) {
				c.Fail("tag %+v: wrote %x want %x", t, buf.Bytes()[:min(30, buf.Len())], want[:min(30, len(want))])
			}
			h := bytes.Repeat([]byte{0xdd}, 64)
			if n := t.FillHeader(h); n != len(hdr) || !bytes.Equal(h[:n], hdr) || !bytes.Equal(h[n:], bytes.Repeat([]byte{0xdd}, 64-n)) {
				c.Fail("FillHeader %+v: %x (%d) want %x", t, h, n, hdr)
			}
			g, err := flvio.ReadTag(bytes.NewReader(append(want, 1, 2, 3)), scratch, func(n int) ([]byte, error) { return make([]byte, n), nil })
			if err != nil {
				c.Fail("tag %+v: ReadTag: %v", t, err)
			}
			if !bytes.Equal(g.Header, hdr) || !bytes.Equal(g.Data, t.Data) {
				c.Fail("tag %+v read back as %+v", t, g)
			}
			x := g
			x.Header, x.Data, t.Data = nil, nil, nil
			if fmt.Sprintf("%+v", x) != fmt.Sprintf("%+v", t) {
				c.Fail("tag %+v read back as %+v", t, x)
			}
			g2 := flvio.Tag{Type: t.Type}
			n, err := g2.ParseHeader(cat(hdr, []byte{1, 2, 3}))
			if err != nil || n != len(hdr) || g2.CTime != t.CTime || g2.FrameType != t.FrameType || g2.AACPacketType != t.AACPacketType {
				c.Fail("ParseHeader(%x): n=%d err=%v %+v", hdr, n, err, g2)
			}
			c.Step(4)
			c.StateHash(hash(want))
			c.OutcomeHash(hash(want))
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("%+v -> %x", t, want[:min(30, len(want))]) })
		}},
		{Name: "largest-tags", Rule: "payloads that make the tag body exactly 2^24-1, one less, and one and two more bytes, for each packet kind: the first two round-trip, the others are refused with an error (the length field has 24 bits)", AllocLimit: 1 << 30, Serial: true, Run: func(c *mc.Ctx) {
			p := av.Packet{Type: []int{av.H264, av.AAC, av.H264DecoderConfig, av.AACDecoderConfig}[c.Choose(4)], Time: ms(5)}
			over := c.Choose(4) - 1
			h := 5
			if p.Type == av.AAC || p.Type == av.AACDecoderConfig {
				h = 2
			}
			p.Data = make([]byte, 1<<24-1-h+over)
			p.Data[len(p.Data)-1] = 0x5a
			var buf bytes.Buffer
			m := flv.NewMuxer(sw{&buf})
			err := m.WritePacket(p)
			c.Step(1)
			c.State(p.Type, over)
			c.Outcome(p.Type, over, err)
			c.Validated(1)
			c.Sample(func() string {
				return fmt.Sprintf("%s body %d err %v", av.PacketTypeString[p.Type], len(p.Data)+h, err)
			})
			if over <= 0 {
				if err != nil {
					c.Fail("a body of %d bytes: %v", len(p.Data)+h, err)
				}
				g, err := flv.NewDemuxer(&buf).ReadPacket()
				if err != nil || !eqPkt(g, norm(p)) {
					c.Fail("a body of %d bytes is not read back: %v", len(p.Data)+h, err)
				}
				return
			}
			if err == nil {
				if f, perr := parseFLV(buf.Bytes()); perr != nil || len(f.tags) != 1 {
					c.Fail("a body of %d bytes is accepted but the file is invalid (%v, %d tags)", len(p.Data)+h, perr, len(f.tags))
				}
			}
		}},
		{Name: "foreign-files", Rule: "all files of up to 3 tags over 15 tags another writer may produce (other codecs, unknown tag types, script data of several forms in AMF0 and AMF3, stream ids, end-of-sequence) x data offset 9, 10, 300: exactly the supported packets are delivered", Run: func(c *mc.Ctx) {
			type ft struct {
				typ  byte
				tm   uint32
				body []byte
				want *av.Packet
			}
			obj := amfObj(3, "duration", amfNum(1.5))
			nal := fill(9, 1)
			al := []ft{
				{9, 40, cat([]byte{0x17, 1, 0xff, 0xff, 0xff}, nal), &av.Packet{Type: av.H264, IsKeyFrame: true, Time: ms(40), CTime: ms(-1), Data: nal}},
				{9, 0, cat([]byte{0x17, 0, 0, 0, 0}, nal), &av.Packet{Type: av.H264DecoderConfig, Data: nal}},
				{9, 80, []byte{0x17, 2, 0, 0, 0}, nil}, // AVC end of sequence
				{9, 80, cat([]byte{0x22}, nal), nil},   // H.263
				{9, 80, cat([]byte{0x37, 1, 0, 0, 5}, nal), &av.Packet{Type: av.H264, Time: ms(80), CTime: ms(5), Data: nal}}, // disposable
				{8, 0x1000000, cat([]byte{0xaf, 1}, nal), &av.Packet{Type: av.AAC, Time: ms(0x1000000), Data: nal}},           // stereo AAC
				{8, 0, []byte{0xaf, 0, 0x12, 0x10}, &av.Packet{Type: av.AACDecoderConfig, Data: []byte{0x12, 0x10}}},          // AAC config
				{8, 9, cat([]byte{0x2f}, nal), nil}, // MP3
				{8, 9, cat([]byte{0x72}, nal), nil}, // A-law
				{18, 3, cat(amfStr("onMetaData"), amfObj(8, "duration", amfNum(1.5))), &av.Packet{Type: av.Metadata, Time: ms(3), Data: obj}}, // ECMA array
				{18, 4, cat(amfStr("@setDataFrame"), amfStr("onMetaData"), obj), &av.Packet{Type: av.Metadata, Time: ms(4), Data: obj}},
				{18, 5, cat(amfStr("onCuePoint"), obj), nil},
				{15, 6, cat([]byte{0}, amfStr("onMetaData"), obj), &av.Packet{Type: av.Metadata, Time: ms(6), Data: obj}},
				{15, 7, cat([]byte{6, 21}, []byte("onMetaData"), []byte{10, 11, 1, 17}, []byte("duration"), append([]byte{5}, amfNum(1.5)[1:]...), []byte{1}), &av.Packet{Type: av.Metadata, Time: ms(7), Data: obj}},
				{99, 8, nal, nil},
			}
			off := []int{9, 10, 300}[c.Choose(3)]
			b := fileHeader(5, off)
			n := 1 + c.Choose(3)
			var want []av.Packet
			for i := 0; i < n; i++ {
				t := al[c.Choose(len(al))]
				b = append(b, rawTag(t.typ, t.tm, uint32(i*77), t.body)...)
				if t.want != nil {
					want = append(want, *t.want)
				}
				c.StateHash(hash(b))
			}
			d := flv.NewDemuxer(bytes.NewReader(b))
			var got []av.Packet
			for {
				p, err := d.ReadPacket()
				if err != nil {
					if err != io.EOF {
						c.Fail("file %x: ended with %v", b, err)
					}
					break
				}
				got = append(got, p)
				c.Step(1)
			}
			if len(got) != len(want) {
				c.Fail("file %x: got %s want %s", b, spl(got), spl(want))
			}
			for i := range got {
				if !eqPkt(got[i], want[i]) {
					c.Fail("file %x: packet %d got %s want %s", b, i, sp(got[i]), sp(want[i]))
				}
			}
			c.OutcomeHash(hash(b))
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("%d bytes -> %s", len(b), spl(got)) })
		}},
	}
}

// ---- F02 ----

func corpus() [][]av.Packet {
	a := fewPackets()
	return [][]av.Packet{
		{a[5], a[3], a[4], a[1], a[2]},
		{a[6], a[7], a[9], a[2], a[11]},
		{a[2], {Type: av.H264, IsKeyFrame: true, Time: ms(40), CTime: ms(80), Data: fill(30, 1)}, a[7], a[8]},
	}
}

func muxed(c *mc.Ctx, ps []av.Packet) []byte {
	var buf bytes.Buffer
	m := flv.NewMuxer(sw{&buf})
	m.HasVideo, m.HasAudio = true, true
	for _, p := range ps {
		if err := m.WritePacket(p); err != nil {
			c.Fail("write: %v", err)
		}
	}
	return buf.Bytes()
}

// checkRead reads r to its end and compares with the packets complete in the
// first cut bytes. A tag whose body is complete but whose back pointer is not
// may be delivered or not.
func checkRead(c *mc.Ctx, ps []av.Packet, full []byte, cut int, r io.Reader, end error) {
	f, err := parseFLV(full)
	if err != nil {
		c.Fail("reference: %v", err)
	}
	must, may := 0, 0
	for _, t := range f.tags {
		if t.end <= cut {
			may++
		}
		if t.end+4 <= cut {
			must++
		}
	}
	d := flv.NewDemuxer(r)
	n := 0
	for {
		p, err := d.ReadPacket()
		c.Step(1)
		if err != nil {
			if end != nil && err != end && !errors.Is(err, end) {
				c.Fail("cut at %d: ended with %v, want %v", cut, err, end)
			}
			break
		}
		if n >= len(ps) || !eqPkt(p, norm(ps[n])) {
			c.Fail("cut at %d: packet %d is %s", cut, n, sp(p))
		}
		n++
	}
	if n < must || n > may {
		c.Fail("cut at %d of %d: %d packets delivered, %d were complete", cut, len(full), n, must)
	}
	if _, err := d.ReadPacket(); err == nil {
		c.Fail("cut at %d: a packet after the end", cut)
	}
	c.Validated(1)
}

func f02(tier string) []mc.Exploration {
	return []mc.Exploration{
		{Name: "truncations", Rule: "3 files x every cut offset x end as EOF or as a transport error x error with or after the last bytes x 5 fragment sizes", Run: func(c *mc.Ctx) {
			fi := c.Choose(3)
			ps := corpus()[fi]
			full := muxed(c, ps)
			cut := c.Choose(len(full) + 1)
			var end error = memio.ErrInjected
			if c.Bool() {
				end = io.EOF
			}
			dataErr := c.Bool()
			max := []int{0, 1, 2, 7, 13}[c.Choose(5)]
			want := end
			if end == io.EOF && cut != len(full) {
				want = nil // EOF or ErrUnexpectedEOF
			}
			checkRead(c, ps, full, cut, &memio.FragReader{Data: full[:cut], Max: max, DataErr: dataErr, End: end}, want)
			c.State(fi, cut)
			c.Outcome(fi, cut)
			c.Sample(func() string {
				return fmt.Sprintf("file %d (%d bytes) cut at %d, %v, max read %d", fi, len(full), cut, end, max)
			})
		}},
		{Name: "split-patterns", Rule: "a file of 4 tags read with every pair of split positions (thorough: every triple of a shorter file)", Run: func(c *mc.Ctx) {
			ps := corpus()[2]
			n := 2
			if tier == "thorough" && c.Bool() {
				ps = ps[:2]
				n = 3
			}
			full := muxed(c, ps)
			lo := 1
			var cuts []int
			for i := 0; i < n && lo < len(full); i++ {
				x := lo + c.Choose(len(full)-lo)
				cuts = append(cuts, x)
				lo = x + 1
			}
			checkRead(c, ps, full, len(full), &memio.FragReader{Data: full, Cuts: cuts}, io.EOF)
			c.State(fmt.Sprint(cuts))
			c.Outcome(fmt.Sprint(cuts))
			c.Sample(func() string { return fmt.Sprintf("splits %v of %d bytes", cuts, len(full)) })
		}},
		{Name: "file-header-offsets", Rule: "data offsets 9-30 x every truncation: the extra header bytes are skipped, however fragmented", Run: func(c *mc.Ctx) {
			off := 9 + c.Choose(22)
			p := av.Packet{Type: av.AAC, Time: ms(3), Data: []byte{1, 2}}
			b := fileHeader(4, off)
			h := len(b)
			b = append(b, rawTag(8, 3, 0, []byte{0xaf, 1, 1, 2})...)
			cut := c.Choose(len(b) + 1)
			d := flv.NewDemuxer(&memio.FragReader{Data: b[:cut], Max: []int{0, 1, 5}[c.Choose(3)]})
			got, err := d.ReadPacket()
			if cut == len(b) {
				if err != nil || !eqPkt(got, p) {
					c.Fail("offset %d: %s %v", off, sp(got), err)
				}
			} else if err == nil && cut < len(b)-4 {
				c.Fail("offset %d cut at %d (header %d): packet %s", off, cut, h, sp(got))
			}
			c.Step(1)
			c.State(off, cut)
			c.Outcome(off, cut, err)
			c.Validated(1)
		}},
		{Name: "write-failures", Rule: "3 packet lists x every write call as the first failing one (all later ones fail too, or only that one; nothing, one byte, half or all but one byte of it gone): the call in progress reports it", Run: func(c *mc.Ctx) {
			fi := c.Choose(3)
			ps := corpus()[fi]
			all := &memio.FailWriter{}
			m := flv.NewMuxer(sw{all})
			for _, p := range ps {
				m.WritePacket(p)
			}
			at := 1 + c.Choose(all.Calls)
			once := c.Bool()
			part := c.Choose(4)
			w := &onceWriter{at: at, once: once, part: part}
			m = flv.NewMuxer(sw{w})
			for i, p := range ps {
				before := w.failed
				err := m.WritePacket(p)
				c.Step(1)
				if w.failed > before && err == nil {
					c.Fail("write call %d failed during packet %d and was not reported", at, i)
				}
				if err != nil && w.failed == before {
					c.Fail("packet %d reported %v without a failed write", i, err)
				}
			}
			if w.failed == 0 {
				c.Fail("write call %d was never made", at)
			}
			c.State(fi, at, once, part)
			c.Outcome(fi, at, once, part)
			c.Validated(1)
		}},
		{Name: "malloc-failures", Rule: "the buffer allocator failing at its k-th call: reported, earlier packets delivered", Run: func(c *mc.Ctx) {
			fi := c.Choose(3)
			ps := corpus()[fi]
			full := muxed(c, ps)
			at := c.Choose(len(ps))
			d := flv.NewDemuxer(bytes.NewReader(full))
			k := 0
			d.Malloc = func(n int) ([]byte, error) {
				k++
				if k == at+1 {
					return nil, memio.ErrInjected
				}
				return make([]byte, n), nil
			}
			for i := 0; ; i++ {
				p, err := d.ReadPacket()
				c.Step(1)
				if i < at && (err != nil || !eqPkt(p, norm(ps[i]))) {
					c.Fail("packet %d before the failure: %s %v", i, sp(p), err)
				}
				if i == at {
					if err == nil {
						c.Fail("allocation failure %d not reported", at)
					}
					break
				}
			}
			c.State(fi, at)
			c.Outcome(fi, at)
			c.Validated(1)
		}},
	}
}

type onceWriter struct {
	calls, at, failed int
	once              bool
	part              int // what the failing call still takes
}

func (w *onceWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == w.at || (!w.once && w.calls > w.at) {
		w.failed++
		return []int{0, min(1, len(p)), len(p) / 2, max(0, len(p)-1)}[w.part], memio.ErrInjected
	}
	return len(p), nil
}

// ---- F03 ----

// spare makes n bytes with foreign ones behind them.
func spare(n int) []byte {
	b := make([]byte, n, n+24)
	for i := n; i < n+24; i++ {
		b[:n+24][i] = 0x5a
	}
	return b
}

var big = make([]byte, 1<<24)

// readAll drives the demuxer over arbitrary bytes with monitored allocation.
func readAll(c *mc.Ctx, b []byte, packets bool) string {
	r := &memio.FragReader{Data: b}
	d := flv.NewDemuxer(r)
	var last []byte
	d.Malloc = func(n int) ([]byte, error) {
		if n < 0 || n > 1<<24-1 {
			c.Fail("input %x: asked to allocate %d bytes for a tag", b, n)
		}
		if n > len(b) {
			// the input cannot fill it, so nobody reads it
			last = big[:n]
		} else {
			last = spare(n)
		}
		return last, nil
	}
	res := ""
	for i := 0; ; i++ {
		if i > len(b)+2 {
			c.Fail("input %x: %d results from %d bytes", b, i, len(b))
		}
		off := r.Off
		if packets {
			p, err := d.ReadPacket()
			c.Step(1)
			if err != nil {
				return res + err.Error()
			}
			if p.Type != av.Metadata && !bytes.HasSuffix(last, p.Data) {
				c.Fail("input %x: payload %x is not the end of the tag body %x", b, p.Data, last)
			}
			res += sp(p)
		} else {
			t, err := d.ReadTag()
			c.Step(1)
			if err != nil {
				return res + err.Error()
			}
			if !bytes.Equal(cat(t.Header, t.Data), last) {
				c.Fail("input %x: header %x + data %x is not the tag body %x", b, t.Header, t.Data, last)
			}
			t.DebugFields()
			res += fmt.Sprintf("[%d %d]", t.Type, len(t.Data))
		}
		if r.Off == off {
			c.Fail("input %x: a result without consuming input", b)
		}
	}
}

func f03(tier string) []mc.Exploration {
	body := 5
	if tier == "thorough" {
		body = 6
	}
	valid := func(i int) []byte {
		a := fewPackets()
		ps := [][]av.Packet{
			{a[5], a[2], a[9]},
			{{Type: av.H264DecoderConfig, Data: fill(6, 1)}, {Type: av.Metadata, Data: metas[3]}, {Type: av.AACDecoderConfig, Data: []byte{0x12, 0x10}}, a[7], a[6]},
		}[i]
		var buf bytes.Buffer
		m := flv.NewMuxer(sw{&buf})
		m.Publishing = i == 1
		for _, p := range ps {
			m.WritePacket(p)
		}
		return buf.Bytes()
	}
	return []mc.Exploration{
		{Name: "tag-bodies", Rule: fmt.Sprintf("every tag type with a parser (8, 9, 15, 18) and one without x all bodies up to %d bytes over {00 01 02 12 17 27 2f 6c 7c a0 af ff}: values or an error, header and data are exactly the body, header fields as the specification defines", body), AllocLimit: 1 << 22, Run: func(c *mc.Ctx) {
			al := []byte{0, 1, 2, 0x12, 0x17, 0x27, 0x2f, 0x6c, 0x7c, 0xa0, 0xaf, 0xff}
			typ := []byte{8, 9, 15, 18, 99}[c.Choose(5)]
			n := c.Choose(body + 1)
			b := spare(n)
			for i := range b {
				b[i] = al[c.Choose(len(al))]
			}
			t := flvio.Tag{Type: typ}
			err := t.Parse(b)
			c.Step(1)
			c.State(typ, b)
			c.Outcome(typ, b, err)
			c.Validated(1)
			c.Sample(func() string {
				return fmt.Sprintf("type %d body %x -> hdr %x data %x err %v", typ, b, t.Header, t.Data, err)
			})
			need := 0
			switch typ {
			case 8:
				need = 1
				if n > 0 && b[0]>>4 == 10 {
					need = 2
				}
			case 9:
				need = 1
				if n > 0 && (b[0]&15 == 7 || b[0]&15 == 12) {
					need = 5
				}
			}
			if n < need {
				if err == nil {
					c.Fail("type %d body %x: too short for its header but accepted", typ, b)
				}
				return
			}
			if err != nil {
				c.Fail("type %d body %x: %v", typ, b, err)
			}
			if !bytes.Equal(t.Header, b[:need]) || !bytes.Equal(t.Data, b[need:]) {
				c.Fail("type %d body %x: header %x data %x", typ, b, t.Header, t.Data)
			}
			t.DebugFields()
		}},
		{Name: "file-structure", Rule: "all inputs from 7 signatures x 5 flags x 8 data offsets x up to 2 tags over 7 types x 8 declared lengths x 6 bodies, as packets and as tags, whole and cut by one byte", AllocLimit: 4 << 20, Run: func(c *mc.Ctx) {
			sigs := []string{"FLV\x01", "FLV\x02", "FLW\x01", "flv\x01", "FL", "", "\x00\x00\x00\x00"}
			b := []byte(sigs[c.Choose(len(sigs))])
			if len(b) >= 4 {
				off := []uint32{9, 0, 8, 10, 12, 0x7fffffff, 0x80000000, 0xffffffff}[c.Choose(8)]
				b = append(b, []byte{5, 0, 1, 4, 0xff}[c.Dev(5)])
				b = binary.BigEndian.AppendUint32(b, off)
				if off != 9 && off != 10 && off != 12 {
					b = append(b, fill(40, 3)...)
				} else {
					b = append(b, fill(int(off)-9+4, 3)...)
					nt := c.Choose(3)
					if off != 9 || string(b[:4]) != "FLV\x01" {
						nt = c.Choose(2)
					}
					for i := 0; i < nt; i++ {
						typ := []byte{9, 8, 18, 15, 0, 255, 41}[c.Choose(7)]
						body := [][]byte{nil, {0x17, 1, 0, 0, 0, 9}, {0xaf, 1}, amfObj(3, "a", amfNum(1)), {2, 0, 10, 'o', 'n', 'M', 'e', 't', 'a', 'D', 'a', 't', 'a', 10, 0xff, 0xff, 0xff, 0xff}, {0x27}}[c.Choose(6)]
						n := []int{len(body), 0, 1, 2, len(body) + 1, len(body) + 4, 0xffffff, 0x10000}[c.Dev(8)]
						t := rawTag(typ, 0xffffffff, 0xffffff, body)
						t[1], t[2], t[3] = byte(n>>16), byte(n>>8), byte(n)
						b = append(b, t...)
					}
				}
			}
			if c.Dev(2) == 1 && len(b) > 0 {
				b = b[:len(b)-1]
			}
			pk := c.Bool()
			res := readAll(c, b, pk)
			c.State(b)
			c.Outcome(res)
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("%x -> %s", b, res) })
		}, Bound: 2},
		{Name: "single-byte-alterations", Rule: "two valid files with every byte replaced by every value, and (thorough) every pair of bytes by boundary values, read as packets and as tags", AllocLimit: 4 << 20, Run: func(c *mc.Ctx) {
			fi := c.Choose(2)
			b := append([]byte{}, valid(fi)...)
			i := c.Choose(len(b))
			if tier == "thorough" && c.Bool() {
				al := []byte{0, 1, 9, 0x7f, 0x80, 0xff}
				b[i] = al[c.Choose(len(al))]
				j := i + c.Choose(len(b)-i)
				b[j] = al[c.Choose(len(al))]
			} else {
				b[i] = byte(c.Choose(256))
			}
			res := readAll(c, b, c.Bool())
			c.State(b)
			c.Outcome(res)
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("file %d byte %d=%02x -> %s", fi, i, b[i], res) })
		}},
		{Name: "metadata-bodies", Rule: "all script tags of type 18 and 15 with a name and up to 3 fragments of AMF data (truncated, nested, reserved markers, empty): a metadata packet re-encoded as valid AMF0, or nothing", AllocLimit: 4 << 20, Run: func(c *mc.Ctx) {
			frag := [][]byte{amfStr("onMetaData"), amfStr("@setDataFrame"), amfNum(1), amfObj(3, "a", amfNum(1)), amfObj(8, "b", []byte{5}), {3}, {10, 0, 0, 0, 1}, {5}, {6}, {9}, {0}, {17}, {0, 0, 9}, {2, 0, 0}, {3, 0, 0, 9}, {11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {6, 21, 'o', 'n', 'M', 'e', 't', 'a', 'D', 'a', 't', 'a'}, {12, 3, 7}, {2, 3}}
			typ := []byte{18, 15}[c.Choose(2)]
			n := c.Choose(5)
			var body []byte
			for i := 0; i < n; i++ {
				body = append(body, frag[c.Choose(len(frag))]...)
			}
			b := cat(fileHeader(5, 9), rawTag(typ, 1, 0, body), rawTag(8, 9, 0, []byte{0xaf, 1, 7}))
			d := flv.NewDemuxer(bytes.NewReader(b))
			var got []av.Packet
			for {
				p, err := d.ReadPacket()
				c.Step(1)
				if err != nil {
					if err != io.EOF {
						c.Fail("script body %x: ended with %v", body, err)
					}
					break
				}
				got = append(got, p)
			}
			if len(got) == 0 || len(got) > 2 || got[len(got)-1].Type != av.AAC {
				c.Fail("script body %x: the audio packet after it was lost: %s", body, spl(got))
			}
			if len(got) == 2 {
				if got[0].Type != av.Metadata {
					c.Fail("script body %x: %s", body, sp(got[0]))
				}
				vals, err := flvio.ParseAMFVals(got[0].Data, false)
				if err != nil || len(vals) == 0 {
					c.Fail("script body %x: metadata %x does not parse: %v", body, got[0].Data, err)
				}
				// written again it must read back the same
				var buf bytes.Buffer
				m := flv.NewMuxer(sw{&buf})
				if err := m.WritePacket(got[0]); err != nil {
					c.Fail("script body %x: rewriting: %v", body, err)
				}
				h, err := parseFLV(buf.Bytes())
				if err != nil || len(h.tags) != 1 {
					c.Fail("script body %x: rewritten file: %v", body, err)
				}
			}
			c.StateHash(hash(b))
			c.OutcomeHash(hash(b))
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("type %d %x -> %s", typ, body, spl(got)) })
		}},
	}
}

func main() {
	_ = ioutil.Discard
	mc.Main([]mc.Property{
		{ID: "F01", Level: "model_checking", Build: f01, Assumptions: []string{"configuration packets carry no presentation time of their own", "times are non-negative and below 2^32 ms, composition offsets fit 24 bits"}},
		{ID: "F02", Level: "model_checking", Build: f02, Assumptions: []string{"a tag whose body is complete but whose back pointer is cut may or may not be delivered"}},
		{ID: "F03", Level: "exploration", Build: f03},
	})
}
