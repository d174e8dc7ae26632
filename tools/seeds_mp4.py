S = 'format/mp4/stream.go'
X = 'format/mp4/muxer.go'
A = 'format/mp4/mp4io/atoms.go'
I = 'format/mp4/mp4io/mp4io.go'
MUX = '''package mp4
import ("testing"; "os"; "time"; "io"; "bytes"; "github.com/nareix/joy5/av"; "github.com/nareix/joy5/codec/aac")
var _ = bytes.Equal
var _ = io.EOF
var _ = time.Now
type wr struct{ *os.File; s []interface{} }
func (w wr) Streams() ([]interface{}, error) { return w.s, nil }
func tmp(t *testing.T) *os.File {
	f, err := os.CreateTemp("", "demo*.mp4")
	if err != nil { t.Fatal(err) }
	os.Remove(f.Name())
	return f
}
// through writes audio packets and reads them
func through(t *testing.T, ps []av.Packet) (f *os.File, out []av.Packet) {
	c, err := aac.FromMPEG4AudioConfigBytes([]byte{0x12, 0x10})
	if err != nil { t.Fatal(err) }
	f = tmp(t)
	m, err := NewMuxer(wr{f, []interface{}{c}})
	if err != nil { t.Fatal(err) }
	for _, p := range ps { m.WritePacket(p) }
	if err := m.WriteTrailer(); err != nil { t.Fatal(err) }
	f.Seek(0, 0)
	d := NewDemuxer(f)
	for {
		p, err := d.ReadPacket()
		if err != nil { break }
		out = append(out, p)
	}
	return
}
func a(ms int, data ...byte) av.Packet {
	return av.Packet{Type: av.AAC, Time: time.Duration(ms)*time.Millisecond, Data: data}
}
'''
TAB = '''package mp4
import ("testing"; "bytes"; "time"; "github.com/nareix/joy5/av"; "github.com/nareix/joy5/format/mp4/mp4io")
var _ = time.Now
var _ = av.AAC
// demuxer of one video track with 6 samples of the bytes "aabbccddeeff"
func demuxer(t *mp4io.SampleTable) *Demuxer {
	d := &Demuxer{r: bytes.NewReader([]byte("aabbccddeeff")), size: 12, movieAtom: &mp4io.Movie{}}
	d.streams = []*Stream{{trackAtom: &mp4io.Track{}, demuxer: d, timeScale: 1000, cType: av.H264, sample: t}}
	return d
}
func table() *mp4io.SampleTable {
	return &mp4io.SampleTable{
		TimeToSample: &mp4io.TimeToSample{Entries: []mp4io.TimeToSampleEntry{{Count: 6, Duration: 10}}},
		SampleToChunk: &mp4io.SampleToChunk{Entries: []mp4io.SampleToChunkEntry{{FirstChunk: 1, SamplesPerChunk: 2, SampleDescId: 1}}},
		SampleSize: &mp4io.SampleSize{Entries: []uint32{2, 2, 2, 2, 2, 2}},
		ChunkOffset: &mp4io.ChunkOffset{Entries: []uint32{0, 4, 8}},
	}
}
'''
seed('m01-zero-duration-run', 'M01', [(X, '''	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
''', '''	if self.sttsEntry == nil || (duration != self.sttsEntry.Duration && rawdur > 0) {
''')], 'format/mp4', MUX + '''func TestDemo(t *testing.T) {
	f, out := through(t, []av.Packet{a(0, 1), a(20, 2), a(20, 3), a(40, 4)})
	defer f.Close()
	if len(out) != 4 || out[3].Time != 40*time.Millisecond { t.Fatal(out) }
}
''', 'two packets of a stream with the same time, after others with different times', 'a packet without duration is counted to the run before it, all later packets move back')
seed('m01-refused-packet-bytes', 'M01', [(X, '''	if rawdur < 0 {
		err = fmt.Errorf("mp4: stream#%v time=%v < lasttime=%v", pkt.Type, pkt.Time, self.lastpkt.Time)
		return
	}

	if _, err = self.muxer.bufw.Write(pkt.Data); err != nil {
		return
	}
''', '''	if _, err = self.muxer.bufw.Write(pkt.Data); err != nil {
		return
	}

	if rawdur < 0 {
		err = fmt.Errorf("mp4: stream#%v time=%v < lasttime=%v", pkt.Type, pkt.Time, self.lastpkt.Time)
		return
	}
''')], 'format/mp4', MUX + '''func TestDemo(t *testing.T) {
	f, out := through(t, []av.Packet{a(0, 1), a(20, 2), a(10, 3), a(40, 4, 4)})
	defer f.Close()
	if len(out) != 3 || !bytes.Equal(out[2].Data, []byte{4, 4}) || !bytes.Equal(out[1].Data, []byte{2}) { t.Fatal(out) }
}
''', 'a packet with a time before the last one, which is refused, and writing goes on', 'the pending packet\'s bytes are written twice, all later sample offsets are wrong')
seed('m01-last-key-frame', 'M01', [(X, '''	if pkt.IsKeyFrame && self.sample.SyncSample != nil {
''', '''	if pkt.IsKeyFrame && self.sample.SyncSample != nil && (rawdur > 0 || self.sampleIndex == 0) {
''')], 'format/mp4', MUX.replace('"github.com/nareix/joy5/codec/aac"', '"github.com/nareix/joy5/codec/aac"; "github.com/nareix/joy5/codec/h264"').replace("type wr struct", "var _ = aac.FromMPEG4AudioConfigBytes\ntype wr struct") + '''func TestDemo(t *testing.T) {
	f := tmp(t)
	defer f.Close()
	m := &Muxer{}
	m, err := NewMuxer(wr{f, []interface{}{h264.NewCodec()}})
	if err != nil { t.Fatal(err) }
	for i := 0; i < 3; i++ {
		m.WritePacket(av.Packet{Type: av.H264, IsKeyFrame: i != 1, Time: time.Duration(i)*time.Second, Data: []byte{1, 2}})
	}
	m.WriteTrailer()
	s := m.streams[av.H264].sample.SyncSample.Entries
	if len(s) != 2 || s[1] != 3 { t.Fatal(s) }
}
''', 'a recording whose last packet is a key frame, or two key frames of the same time', 'the key frame is not in the sync sample table')
seed('m02-stsd-count', 'M02', [(A, '''	if self.MP4ADesc != nil {
		_childrenNR++
	}
	_childrenNR += len(self.Unknowns)
''', '''	if self.MP4ADesc != nil {
		_childrenNR++
	}
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	s := &SampleDesc{Unknowns: []Atom{&Dummy{Data: []byte{0, 0, 0, 8, 'h', 'v', 'c', '1'}, Tag_: StringToTag("hvc1")}}}
	b := make([]byte, s.Len())
	s.Marshal(b)
	if b[15] != 1 { t.Fatalf("%x", b) }
}
''', 'a sample description of a codec the library does not know', 'the number of entries written is too small, other readers skip the description')
seed('m02-children-ctts', 'M02', [(A, '''	if self.CompositionOffset != nil {
		r = append(r, self.CompositionOffset)
	}
	if self.SampleToChunk != nil {
		r = append(r, self.SampleToChunk)
	}
	if self.SyncSample != nil {
		r = append(r, self.SyncSample)
	}
''', '''	if self.SampleToChunk != nil {
		r = append(r, self.SampleToChunk)
	}
	if self.SyncSample != nil {
		r = append(r, self.SyncSample)
	} else if self.CompositionOffset != nil {
		r = append(r, self.CompositionOffset)
	}
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	s := &SampleTable{SyncSample: &SyncSample{}, CompositionOffset: &CompositionOffset{}}
	if FindChildren(s, CTTS) == nil { t.Fatal("not found") }
}
''', 'a sample table with both sync samples and composition offsets', 'the composition offset box is not found among the children')
seed('m02-name-zeros', 'M02', [(A, '''	copy(self.SubType[:], b[n:])
	n += len(self.SubType)
	self.Name = b[n:]
	n += len(b[n:])
''', '''	copy(self.SubType[:], b[n:])
	n += len(self.SubType)
	self.Name = b[n:]
	n += len(b[n:])
	for l := len(self.Name); l > 0 && self.Name[l-1] == 0; l-- {
		self.Name = self.Name[:l-1]
	}
''')], 'format/mp4/mp4io', '''package mp4io
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	h := &HandlerRefer{Name: []byte{'a', 0}}
	b := make([]byte, h.Len())
	h.Marshal(b)
	g := &HandlerRefer{}
	if _, err := g.Unmarshal(b, 0); err != nil { t.Fatal(err) }
	c := make([]byte, g.Len())
	g.Marshal(c)
	if !bytes.Equal(b, c) { t.Fatalf("%x %x", b, c) }
}
''', 'a handler name that ends in a zero byte, as the standard has it', 'the name is cut when parsed: writing the box again gives another one')
seed('m02-tfhd-size-flags', 'M02', [(A, '''	if self.Flags&TFHD_DEFAULT_FLAGS != 0 {
		{
			n += 4
		}
	}
	return
''', '''	if self.Flags&(TFHD_DEFAULT_FLAGS|TFHD_DURATION_IS_EMPTY) != 0 {
		{
			n += 4
		}
	}
	return
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	h := &TrackFragHeader{Flags: TFHD_DURATION_IS_EMPTY}
	b := make([]byte, h.Len())
	if n := h.Marshal(b); n != h.Len() { t.Fatal(n, h.Len()) }
}
''', 'a fragment header with the duration-is-empty flag and without default flags', 'the predicted length is four bytes more than what is written')
seed('m03-ctts-run-after-seek', 'M03', [(S, '''				self.sampleIndexInCttsEntry = index - start
				found = true
''', '''				found = true
''')], 'format/mp4', TAB + '''func TestDemo(t *testing.T) {
	s := table()
	s.CompositionOffset = &mp4io.CompositionOffset{Entries: []mp4io.CompositionOffsetEntry{{Count: 2, Offset: 0}, {Count: 4, Offset: 7}}}
	d := demuxer(s)
	if err := d.SeekToTime(10*time.Millisecond); err != nil { t.Fatal(err) }
	d.ReadPacket()
	p, err := d.ReadPacket()
	if err != nil || p.CTime != 7*time.Millisecond { t.Fatal(p, err) }
}
''', 'a seek into the middle of a run of composition offsets with another run behind it', 'the packets after the seek have composition offsets of their predecessors')
seed('m03-const-size-seek', 'M03', [(S, '''		self.sampleOffsetInChunk = int64(self.sampleIndexInChunk) * int64(self.sample.SampleSize.SampleSize)
''', '''		self.sampleOffsetInChunk = int64(index-start) * int64(self.sample.SampleSize.SampleSize)
		if self.chunkIndex > 0 {
			self.sampleOffsetInChunk = int64(index%int(self.sample.SampleToChunk.Entries[self.chunkGroupIndex].SamplesPerChunk)) * int64(self.sample.SampleSize.SampleSize)
		}
''')], 'format/mp4', TAB + '''func TestDemo(t *testing.T) {
	s := table()
	s.SampleSize = &mp4io.SampleSize{SampleSize: 2, SampleCount: 6}
	s.SampleToChunk.Entries = []mp4io.SampleToChunkEntry{{FirstChunk: 1, SamplesPerChunk: 1, SampleDescId: 1}, {FirstChunk: 2, SamplesPerChunk: 2, SampleDescId: 1}, {FirstChunk: 3, SamplesPerChunk: 3, SampleDescId: 1}}
	s.ChunkOffset.Entries = []uint32{0, 2, 6}
	d := demuxer(s)
	if err := d.SeekToTime(20*time.Millisecond); err != nil { t.Fatal(err) }
	p, err := d.ReadPacket()
	if err != nil || string(p.Data) != "cc" { t.Fatal(p, err) }
}
''', 'samples of constant size in chunks of different sizes, and a seek behind the first chunk', 'the place of the sample in its chunk is taken from the sample number as if all chunks had the same size')
seed('m03-group-reset', 'M03', [(S, '''	start := 0
	self.chunkGroupIndex = 0

''', '''	start := 0
	if index < self.sampleIndex-1 || index == 0 {
		self.chunkGroupIndex = 0
	}

''')], 'format/mp4', TAB + '''func TestDemo(t *testing.T) {
	s := table()
	s.SampleToChunk.Entries = []mp4io.SampleToChunkEntry{{FirstChunk: 1, SamplesPerChunk: 1, SampleDescId: 1}, {FirstChunk: 3, SamplesPerChunk: 4, SampleDescId: 1}}
	s.ChunkOffset.Entries = []uint32{4, 2, 6}
	d := demuxer(s)
	d.ReadPacket(); d.ReadPacket()
	if err := d.SeekToTime(10*time.Millisecond); err != nil { t.Fatal(err) }
	p, err := d.ReadPacket()
	if err != nil || string(p.Data) != "bb" { t.Fatal(p, err) }
}
''', 'a seek back by one sample, or forward, when the current chunk is of a later group than the first', 'the search for the chunk starts in the wrong group: packets of other places are returned')
seed('m03-stts-run-after-seek', 'M03', [(S, '''			self.sampleIndexInSttsEntry = index - start
			self.dts += int64(index-start) * int64(entry.Duration)
''', '''			if self.sampleIndexInSttsEntry > n-1 || index < self.sampleIndex {
				self.sampleIndexInSttsEntry = 0
			}
			self.sampleIndexInSttsEntry += index - start - self.sampleIndexInSttsEntry*boolInt(self.sampleIndex != index)
			self.dts += int64(index-start) * int64(entry.Duration)
'''), (S, '''func (self *Stream) setSampleIndex(index int) (err error) {
''', '''func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (self *Stream) setSampleIndex(index int) (err error) {
''')], 'format/mp4', TAB + '''func TestDemo(t *testing.T) {
	s := table()
	s.TimeToSample.Entries = []mp4io.TimeToSampleEntry{{Count: 3, Duration: 10}, {Count: 3, Duration: 20}}
	d := demuxer(s)
	d.ReadPacket()
	if err := d.SeekToTime(10*time.Millisecond); err != nil { t.Fatal(err) }
	d.ReadPacket(); d.ReadPacket()
	d.ReadPacket()
	p, err := d.ReadPacket()
	if err != nil || p.Time != 50*time.Millisecond { t.Fatal(p, err) }
}
''', 'a seek to the sample the reader is at, in the middle of a run of durations', 'the place in the run is counted twice, the run ends early and later times are wrong')
seed('m04-stts-longer', 'M04', [(S, '''		if index >= len(self.sample.SampleSize.Entries) {
			err = fmt.Errorf("mp4: stream[%d]: sample index out of range", self.idx)
			return
		}
		self.sampleOffsetInChunk = int64(0)
''', '''		self.sampleOffsetInChunk = int64(0)
''')], 'format/mp4', TAB + '''func TestDemo(t *testing.T) {
	s := table()
	s.SampleSize.Entries = s.SampleSize.Entries[:3]
	d := demuxer(s)
	d.SeekToTime(time.Hour)
	d.ReadPacket()
}
''', 'tables of times and chunks which have more samples than the table of sizes, and a seek behind its end', 'the seek panics with an index out of range')
seed('m04-config-descriptor', 'M04', [(I, '''		if len(b) < n+size {
			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
			return
		}
''', '''		if len(b) < size {
			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
			return
		}
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		b := append(make([]byte, 12), 4, byte(n))
		b = append(b, make([]byte, n)...)
		(&ElemStreamDesc{}).Unmarshal(b, 0)
	}
}
''', 'a decoder configuration descriptor of 11 or 12 bytes', 'parsing it panics')
seed('m04-long-length', 'M04', [(I, '''	for n < 4 {
		if len(b) < n+1 {
			err = parseErr("len", offset+n, err)
			return
		}
''', '''	for n < 10 {
		if len(b) < n+1 {
			err = parseErr("len", offset+n, err)
			return
		}
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	b := append(make([]byte, 12), 5, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f)
	(&ElemStreamDesc{}).Unmarshal(append(b, make([]byte, 30)...), 0)
}
''', 'a descriptor length of ten bytes with all bits set', 'the length becomes negative and parsing panics')
seed('m04-hdlr-short', 'M04', [(A, '''	if len(b) < n+len(self.SubType) {
		err = parseErr("SubType", n+offset, err)
		return
	}
	copy(self.SubType[:], b[n:])
''', '''	copy(self.SubType[:], b[n:])
''')], 'format/mp4/mp4io', '''package mp4io
import "testing"
func TestDemo(t *testing.T) {
	for n := 8; n < 30; n++ { (&HandlerRefer{}).Unmarshal(make([]byte, n), 0) }
}
''', 'a handler box cut within its subtype', 'parsing it panics')
seed('m01-header-error', 'M01', [(X, '''	if _, err = self.w.Write(taghdr); err != nil {
		return
	}

	if _, err = self.w.Seek(0, 2); err != nil {
''', '''	self.w.Write(taghdr)

	if _, err = self.w.Seek(0, 2); err != nil {
''')], 'format/mp4', MUX.replace('"github.com/nareix/joy5/codec/aac")', '"errors"; "github.com/nareix/joy5/codec/aac")') + '''
type bad struct{ wr; n *int }
func (b bad) Write(p []byte) (int, error) {
	if len(p) == 4 { return 0, errors.New("disk") }
	return b.wr.Write(p)
}
func TestDemo(t *testing.T) {
	c, _ := aac.FromMPEG4AudioConfigBytes([]byte{0x12, 0x10})
	m, err := NewMuxer(bad{wr: wr{tmp(t), []interface{}{c}}})
	if err != nil { t.Fatal(err) }
	for i := 0; i < 3; i++ { if err := m.WritePacket(a(i*10, 1, 2, 3)); err != nil { t.Fatal(err) } }
	if m.WriteTrailer() == nil { t.Fatal("the failed write is not reported") }
}
''', 'a disk error exactly when the size of the media data is filled in', 'an unreadable file is reported as written')
seed('m01-movie-duration', 'M01', [(X, '''		if dur > maxDur {
			maxDur = dur
		}
''', '''		maxDur = dur
''')], 'format/mp4', MUX + '''
func TestDemo(t *testing.T) {
	var l []av.Packet
	for i := 0; i < 5; i++ { l = append(l, a(i*1000, 1)) }
	f, _ := through(t, l)
	var other aac.Codec
	_ = other
	f = tmp(t)
	c, _ := aac.FromMPEG4AudioConfigBytes([]byte{0x12, 0x10})
	m, err := NewMuxer(wr{f, []interface{}{c}})
	if err != nil { t.Fatal(err) }
	for _, p := range l { m.WritePacket(p) }
	// a track without packets behind the one with them
	m.streams[av.H264] = &Stream{Codec: c, cType: av.H264, sample: &(*m.tracks[0].sample), timeScale: 90000, muxer: m}
	m.streams[av.H264].trackAtom = m.tracks[0].trackAtom
	m.tracks = append(m.tracks, m.streams[av.H264])
	if err := m.WriteTrailer(); err != nil { t.Fatal(err) }
	f.Seek(0, 0)
	d := NewDemuxer(f)
	d.Streams()
	if d.movieAtom == nil || d.movieAtom.Header.Duration != 40000 { t.Fatal(d.movieAtom.Header.Duration) }
}
''', 'a last track shorter than an earlier one', 'the movie is said to end with its last track')
seed('m03-far-chunk', 'M03', [(S, '	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk', '	sampleOffset := int64(int32(chunkOffset) + int32(self.sampleOffsetInChunk))')], 'format/mp4', '''package mp4
import ("testing"; "io"; "errors"; "github.com/nareix/joy5/av"; "github.com/nareix/joy5/format/mp4/mp4io")
type big struct{ pos int64 }
func (b *big) Seek(o int64, w int) (int64, error) {
	if o < 0 { return 0, errors.New("negative") }
	b.pos = o
	return o, nil
}
func (b *big) Read(p []byte) (int, error) {
	for i := range p { p[i] = byte(b.pos >> 24); b.pos++ }
	return len(p), nil
}
var _ io.ReadSeeker = &big{}
func TestDemo(t *testing.T) {
	d := &Demuxer{r: &big{}, size: 1<<32, movieAtom: &mp4io.Movie{}}
	d.streams = []*Stream{{trackAtom: &mp4io.Track{}, demuxer: d, timeScale: 1000, cType: av.H264, sample: &mp4io.SampleTable{
		TimeToSample: &mp4io.TimeToSample{Entries: []mp4io.TimeToSampleEntry{{Count: 1, Duration: 10}}},
		SampleToChunk: &mp4io.SampleToChunk{Entries: []mp4io.SampleToChunkEntry{{FirstChunk: 1, SamplesPerChunk: 1, SampleDescId: 1}}},
		SampleSize: &mp4io.SampleSize{Entries: []uint32{2}},
		ChunkOffset: &mp4io.ChunkOffset{Entries: []uint32{0xc0000000}},
	}}}
	p, err := d.ReadPacket()
	if err != nil || len(p.Data) != 2 || p.Data[0] != 0xc0 { t.Fatal(p.Data, err) }
}
''', 'samples beyond 2 GB into the file', 'they cannot be read')
