F0 = '''package flv
import ("testing";"bytes";"errors";"time";"io";"runtime"
"github.com/nareix/joy5/av";"github.com/nareix/joy5/format/flv/flvio")
var _ = time.Now
var _ = errors.New
var _ = io.EOF
var _ = runtime.GC
var _ = flvio.TAG_AMF0
var _ = av.H264
type sw struct{ io.Writer }
func (sw) Streams() ([]interface{}, error) { return nil, nil }
var _ bytes.Buffer
func TestDemo(t *testing.T) {
'''
seed('f01-time-31', 'F01', [('format/flv/flvio/flvio.go', '	b[7] = uint8(tag.Time >> 24)\n', '	b[7] = uint8(int32(tag.Time&0x7fffffff) >> 24)\n')],
 'format/flv', F0 + '''	var buf bytes.Buffer
	NewMuxer(sw{&buf}).WritePacket(av.Packet{Type: av.AAC, Time: time.Duration(0x80000005)*time.Millisecond, Data: []byte{1}})
	p, err := NewDemuxer(&buf).ReadPacket()
	if err != nil || p.Time != time.Duration(0x80000005)*time.Millisecond { t.Fatal(p, err) }
}
''', 'a timestamp of 2^31 ms or more', 'the top bit of the timestamp is lost')
seed('f01-coalesced-write', 'F01', [('format/flv/flvio/flvio.go', '	n += TagHeaderLength\n\n	if _, err = w.Write(b[:n]); err != nil {\n		return\n	}\n\n	if _, err = w.Write(data); err != nil {\n		return\n	}\n', '	n += TagHeaderLength\n\n	// small tags go out in one write\n	if len(data) <= len(b)-TagHeaderLength {\n		n += copy(b[n:], data)\n		data = nil\n	}\n	if _, err = w.Write(b[:n]); err != nil {\n		return\n	}\n	if len(data) > 0 {\n		if _, err = w.Write(data); err != nil {\n			return\n		}\n	}\n')],
 'format/flv', F0 + '''	for n := 0; n < 600; n++ {
		var buf bytes.Buffer
		m := NewMuxer(sw{&buf})
		m.WritePacket(av.Packet{Type: av.H264, Data: make([]byte, n)})
		m.WritePacket(av.Packet{Type: av.AAC, Data: make([]byte, n)})
		d := NewDemuxer(&buf)
		for i := 0; i < 2; i++ {
			p, err := d.ReadPacket()
			if err != nil || len(p.Data) != n { t.Fatal(n, i, err) }
		}
	}
}
''', 'a payload within a few bytes of the scratch buffer size', 'the last bytes of such a payload are dropped and the file is corrupt')
seed('f02-trailer-short-read', 'F02', [('format/flv/flvio/flvio.go', '	if _, err = io.ReadFull(r, b[:4]); err != nil {\n		return\n	}\n	return\n}\n\nconst TagHeaderLength', '	// the back pointer is not used\n	if _, err = r.Read(b[:4]); err != nil {\n		return\n	}\n	return\n}\n\nconst TagHeaderLength')],
 'format/flv', F0 + '''	var buf bytes.Buffer
	m := NewMuxer(sw{&buf})
	m.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1}})
	m.WritePacket(av.Packet{Type: av.AAC, Data: []byte{2}})
	b := buf.Bytes()
	k := 13 + 11 + 3 + 2
	d := NewDemuxer(io.MultiReader(bytes.NewReader(b[:k]), bytes.NewReader(b[k:])))
	for i := 1; i < 3; i++ {
		p, err := d.ReadPacket()
		if err != nil || p.Data[0] != byte(i) { t.Fatal(p, err) }
	}
}
''', 'a read of the underlying stream that ends inside a tag back pointer', 'the reader loses synchronisation')
seed('f02-metadata-write-error', 'F02', [('format/flv/flv.go', '			Data: tagdata,\n			Time: uint32(flvio.TimeToTs(pkt.Time)),\n		}\n		return writeTag(tag)\n', '			Data: tagdata,\n			Time: uint32(flvio.TimeToTs(pkt.Time)),\n		}\n		// metadata is optional\n		if werr := writeTag(tag); werr != nil && publishing {\n			return werr\n		}\n		return nil\n')],
 'format/flv', F0 + '''	m := NewMuxer(sw{fw{}})
	if m.WritePacket(av.Packet{Type: av.Metadata, Data: flvio.FillAMF0ValMalloc(flvio.AMFMap{})}) == nil { t.Fatal("hidden") }
}
type fw struct{}
func (fw) Write(p []byte) (int, error) { return 0, io.ErrShortWrite }
''', 'a write that fails while a metadata tag is written to a file', 'the failure is hidden')
seed('f03-video-header-bounds', 'F03', [('format/flv/flvio/flvio.go', '		var v int32\n		if v, err = pio.ReadI24BE(b, &n); err != nil {\n			return\n		}\n		t.CTime = v\n', '		if len(b) > 2 {\n			t.CTime = pio.I24BE(b[n:])\n			n += 3\n		}\n')],
 'format/flv', F0 + '''	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	tag := flvio.Tag{Type: flvio.TAG_VIDEO}
	if tag.Parse([]byte{0x17, 1, 0, 0}) == nil { t.Fatal("accepted") }
}
''', 'an AVC video tag cut inside its composition time', 'index out of range panic')
seed('f03-header-skip-alloc', 'F03', [('format/flv/flv.go', '	if _, err = io.CopyN(ioutil.Discard, r.r, int64(skip)); err != nil {\n		return\n	}\n', '	if _, err = io.ReadFull(r.r, make([]byte, skip)); err != nil {\n		return\n	}\n	_ = ioutil.Discard\n')],
 'format/flv', F0 + '''	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	NewDemuxer(bytes.NewReader([]byte("FLV\\x01\\x05\\x10\\x00\\x00\\x00\\x00\\x00\\x00\\x00"))).ReadPacket()
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<24 { t.Fatal(b.TotalAlloc-a.TotalAlloc) }
}
''', 'a file header with a huge data offset', 'memory is allocated from the declared header size')
V = 'format/flv/flv.go'
seed('f02-partial-write', 'F02', [('format/flv/flvio/flvio.go', '	if _, err = w.Write(data); err != nil {\n		return\n	}\n', '	if len(data) > 0 {\n		var k int\n		if k, err = w.Write(data); k == 0 {\n			return\n		}\n	}\n')],
 'format/flv', F0 + '''	e := errors.New("disk full")
	for k := 1; k < 5; k++ {
		m := NewMuxer(pw{k, e})
		m.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1}})
		if err := m.WritePacket(av.Packet{Type: av.AAC, Data: make([]byte, 77)}); err != e { t.Fatal(k, err) }
	}
}
type pw struct { k int; e error }
func (p pw) Streams() ([]interface{}, error) { return nil, nil }
func (p pw) Write(b []byte) (int, error) { if len(b) == 77 { return p.k, p.e }; return len(b), nil }
'''.replace('pw{k, e}', 'pw{k, e}'), 'a write that stores part of the payload and fails', 'the failure is reported as success')
seed('f01-no-flags-header', 'F01', [(V, '	w.filehdrwritten = true\n	return', '	w.filehdrwritten = w.HasVideo || w.HasAudio\n	return')],
 'format/flv', F0 + '''	var buf bytes.Buffer
	m := NewMuxer(sw{&buf})
	m.HasVideo, m.HasAudio = false, false
	m.WriteFileHeader()
	for i := 0; i < 3; i++ { m.WritePacket(av.Packet{Type: av.AAC, Data: []byte{byte(i)}}) }
	d := NewDemuxer(&buf)
	for i := 0; i < 3; i++ {
		p, err := d.ReadPacket()
		if err != nil || p.Data[0] != byte(i) { t.Fatal(i, err) }
	}
}
''', 'a writer told that the file has neither audio nor video (metadata only)', 'the file header is written again before every packet')
seed('f03-spare-capacity', 'F03', [('format/flv/flvio/flvio.go', '	t.Data = b[n:]\n	return\n', '	t.Data = b[n:cap(b)]\n	return\n')],
 'format/flv', F0 + '''	b := make([]byte, 10, 64)
	copy(b, []byte{0xaf, 1, 1, 2, 3})
	var g flvio.Tag
	g.Type = flvio.TAG_AUDIO
	if err := g.Parse(b); err != nil || len(g.Data) != 8 { t.Fatal(err, len(g.Data)) }
}
''', 'a tag body parsed from a slice with spare capacity', 'bytes beyond the tag body become part of the payload')
