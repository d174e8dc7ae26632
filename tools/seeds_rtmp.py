P = '''package rtmp
import ("testing";"bytes";"io";"bufio";"errors";"encoding/binary"
"github.com/nareix/joy5/format/flv/flvio")
var _ = io.EOF
var _ = bufio.NewReader
var _ = errors.New
var _ = binary.BigEndian
type trw struct { io.Reader; io.Writer; fl func() error }
func (t trw) Flush() error { if t.fl != nil { return t.fl() }; return nil }
func rd(b []byte) *Conn {
	c := NewConn(trw{Reader: bytes.NewReader(b), Writer: io.Discard})
	for i := 0; i < 256; i++ { c.BypassMsgtypeid = append(c.BypassMsgtypeid, uint8(i)) }
	return c
}
func h0(cs byte, tm, n uint32, typ byte, d ...byte) []byte {
	b := []byte{cs, byte(tm >> 16), byte(tm >> 8), byte(tm), byte(n >> 16), byte(n >> 8), byte(n), typ, 1, 0, 0, 0}
	return append(b, d...)
}
var _ = flvio.TAG_AMF0
'''
M = 'format/rtmp/msg.go'
seed('r01-buffer-reuse', 'R01', [(M, '''	if b, err = malloc(int(m.msgdatalen)); err != nil {
		return
	}

	m.msgdata = b
''', '''	if m.malloc == nil && m.msgdatalen <= 64 && cap(m.msgdata) >= int(m.msgdatalen) {
		// small messages reuse the buffer of their chunk stream
		b = m.msgdata[:m.msgdatalen]
	} else if b, err = malloc(int(m.msgdatalen)); err != nil {
		return
	}

	m.msgdata = b
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := NewConn(trw{Reader: &buf, Writer: &buf})
	for i := 0; i < 3; i++ { w.WriteTag(flvio.Tag{Type: flvio.TAG_AUDIO, SoundFormat: 2, Data: []byte{byte(i), 1}}) }
	r := NewConn(trw{Reader: &buf, Writer: io.Discard})
	var got []flvio.Tag
	for i := 0; i < 3; i++ { g, err := r.ReadTag(); if err != nil { t.Fatal(err) }; got = append(got, g) }
	for i, g := range got { if g.Data[0] != byte(i) { t.Fatal(i, g.Data) } }
}
''', 'a reader that keeps a tag while it reads the next one', 'the payload of a delivered tag is overwritten by a later one')
seed('r01-ext-cont', 'R01', [(M, '''	pio.WriteU8(b, &n, (byte(csid)&0x3f)|3<<6)
	if timestamp >= ffffff {''', '''	pio.WriteU8(b, &n, (byte(csid)&0x3f)|3<<6)
	if timestamp > ffffff {''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := NewConn(trw{Reader: &buf, Writer: &buf})
	d := make([]byte, 200)
	for i := range d { d[i] = 1 }
	// the continuation payload looks like the timestamp
	copy(d[128:], []byte{0, 0xff, 0xff, 0xff})
	w.WriteTag(flvio.Tag{Type: flvio.TAG_AMF0, Time: 0xffffff, Data: d})
	w.WriteTag(flvio.Tag{Type: flvio.TAG_AMF0, Data: d})
	r := NewConn(trw{Reader: &buf, Writer: io.Discard})
	for i := 0; i < 2; i++ {
		g, err := r.ReadTag()
		if err != nil || !bytes.Equal(g.Data, d) { t.Fatal(i, err, g.Data) }
	}
}
''', 'timestamp exactly 0xffffff, message longer than a chunk', 'continuation chunks lack the extended timestamp')
seed('r02-type2-ext', 'R02', [(M, '''		cs.msghdrtype = msghdrtype
		timestamp = pio.U24BE(h[0:3])
		if timestamp == ffffff {
			if _, err = c.wrapRW.Read(b[:4]); err != nil {
				return
			}
			timestamp = pio.U32BE(b)
			cs.hastimeext = true
			cs.timeext = timestamp
		} else {
			cs.hastimeext = false
		}
''', '''		cs.msghdrtype = msghdrtype
		timestamp = pio.U24BE(h[0:3])
		if timestamp == ffffff {
			if _, err = c.wrapRW.Read(b[:4]); err != nil {
				return
			}
			timestamp = pio.U32BE(b)
			cs.hastimeext = true
			cs.timeext = timestamp
		}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(4, 0xffffff, 1, 8)
	b = append(b, 1, 0, 0, 0, 7)          // time 0x1000000
	b = append(b, 0x84, 0, 0, 5, 8)       // +5
	b = append(b, 0xc4, 9)                // +5 again
	c := rd(b)
	for i, w := range []uint32{0x1000000, 0x1000005, 0x100000a} {
		g, err := c.ReadTag()
		if err != nil || g.Time != w { t.Fatal(i, err, g.Time) }
	}
}
''', 'an extended timestamp, then a type-2 header with a short delta, then a type-3 message start on one chunk stream', 'the third message is read with four bytes of payload taken as timestamp')
seed('r02-chunk-size-latched', 'R02', [(M, '''	size := int(cs.msgdataleft)
	if size > c.ReadMaxChunkSize {
		size = c.ReadMaxChunkSize
	}
''', '''	if cs.msgdataleft == cs.msgdatalen {
		cs.chunksize = c.ReadMaxChunkSize
	}
	size := int(cs.msgdataleft)
	if size > cs.chunksize {
		size = cs.chunksize
	}
'''), (M, '''	sendack     uint32
''', '''	sendack     uint32
	chunksize   int
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	d := make([]byte, 200)
	b := h0(4, 0, 200, 8, d[:128]...)
	b = append(b, h0(2, 0, 4, 1, 0, 0, 0, 50)...)
	b = append(b, 0xc4)
	b = append(b, d[:50]...)
	b = append(b, 0xc4)
	b = append(b, d[:22]...)
	g, err := rd(b).ReadTag()
	if err != nil || len(g.Data) != 200 || g.Data[178] != 0 { t.Fatal(err, g.Data) }
}
''', 'a set-chunk-size message between the chunks of a message on another chunk stream', 'the rest of that message is split at the old chunk size')
seed('r03-reply-flush', 'R03', [(M, '''		if handled, err = c.handleEvent(msg); err != nil {
			return
		}
		if handled {
			if err = c.flushWrite(); err != nil {
				return
			}
		} else {''', '''		if handled, err = c.handleEvent(msg); err != nil {
			return
		}
		if handled {
			// a reply that cannot be sent shows up with the next write
			c.flushWrite()
		} else {''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(2, 0, 6, 4, 0, 6, 0, 0, 0, 1)
	b = append(b, h0(4, 0, 1, 8, 9)...)
	boom := errors.New("boom")
	c := rd(nil)
	c = NewConn(trw{bytes.NewReader(b), io.Discard, func() error { return boom }})
	if _, err := c.ReadTag(); !errors.Is(err, boom) { t.Fatal("hidden: ", err) }
}
''', 'a flush that fails while a ping is answered', 'the failure is hidden')
seed('r03-partial-delivery', 'R03', [(M, '''	buf := cs.msgdata[off : int(off)+size]
	if _, err = c.wrapRW.Read(buf); err != nil {
		return
	}
''', '''	buf := cs.msgdata[off : int(off)+size]
	if _, err = c.wrapRW.Read(buf); err != nil {
		if err != io.ErrUnexpectedEOF || int(off)+size < len(cs.msgdata) {
			return
		}
		// deliver what arrived of the last message
		err = nil
	}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(4, 0, 10, 8, 1, 2, 3)
	if g, err := rd(b).ReadTag(); err == nil { t.Fatal(g) }
}
''', 'the peer disconnects inside the last chunk of a message', 'an incomplete message is delivered as complete')
seed('r04-agg-trailer', 'R04', [(M, '	if len(m.aggreadp) < datalen+4 {\n', '	if len(m.aggreadp) < datalen {\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	d := []byte{8, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4}
	rd(h0(4, 0, uint32(len(d)), 22, d...)).ReadTag()
}
''', 'an aggregate message that ends right after the data of a part', 'the connection panics')
seed('r04-size-check', 'R04', [(M, '	if m.msgdatalen > 4*1024*1024 {\n', '	if m.msghdrtype == 0 && m.msgdatalen > 4*1024*1024 {\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(4, 0, 1, 8, 9)
	b = append(b, 0x44, 0, 0, 0, 0x60, 0, 0, 9)
	b = append(b, make([]byte, 128)...)
	c := rd(b)
	c.ReadTag()
	if _, err := c.ReadTag(); err == nil || err == io.EOF || err == io.ErrUnexpectedEOF { t.Fatal(err) }
}
''', 'a type-1 header announcing more than 4 MiB', 'the memory limit is not applied')
seed('r05-ack-drift', 'R05', [(M, '			c.lastackn = c.ackn\n', '			c.lastackn += c.readAckSize\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(2, 0, 4, 5, 0, 0, 0, 100)
	d := make([]byte, 120)
	for i := 0; i < 2; i++ { b = append(b, h0(4, 0, 120, 8, d...)...) }
	b = append(b, h0(4, 0, 30, 8, d[:30]...)...)
	var out bytes.Buffer
	c := NewConn(trw{Reader: bytes.NewReader(b), Writer: &out})
	for { if _, err := c.ReadTag(); err != nil { break } }
	if n := bytes.Count(out.Bytes(), []byte{0, 0, 4, 3}); n != 2 { t.Fatal(n, " acknowledgements") }
}
''', 'chunks that overshoot the window followed by small ones', 'acknowledgements are sent too early, drifting from the bytes received')
seed('r05-hook-types', 'R05', [(M, '''	default:
		if c.HandleEvent != nil {''', '''	case msgtypeidDataMsgAMF3:
		// media

	default:
		if c.HandleEvent != nil {''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c := rd(h0(4, 0, 1, 15, 9))
	n := 0
	c.HandleEvent = func(uint8, []byte) (bool, error) { n++; return false, nil }
	c.ReadTag()
	if n != 1 { t.Fatal(n) }
}
''', 'an AMF3 data message', 'the hook no longer sees it')
seed('r05-ping-ext', 'R05', [(M, '''		switch eventtype {
		case eventtypePingRequest:
			var timestamp uint32
			if timestamp, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
				return
			}
			handled = true
			err = c.writePingResponse(timestamp)
			return
''', '''		switch eventtype {
		case eventtypePingRequest:
			var timestamp uint32
			if timestamp, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
				return
			}
			handled = true
			if msg.aggfirsttm != timestamp || timestamp == 0 {
				err = c.writePingResponse(timestamp)
				if cs := c.readcsmap[2]; cs != nil {
					cs.aggfirsttm = timestamp
				}
			}
			return
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	p := h0(2, 0, 6, 4, 0, 6, 0, 0, 0, 1)
	var out bytes.Buffer
	c := NewConn(trw{Reader: bytes.NewReader(append(append([]byte{}, p...), p...)), Writer: &out})
	c.ReadTag()
	if n := bytes.Count(out.Bytes(), []byte{0, 7, 0, 0, 0, 1}); n != 2 { t.Fatal(n) }
}
''', 'two ping requests in a row with the same timestamp', 'the second one is not answered')
seed('r06-rebase-24bit', 'R06', [(M, '		timenow:    m.timenow + tag.Time - m.aggfirsttm,\n', '		timenow:    m.timenow + (tag.Time-m.aggfirsttm)&ffffff,\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	part := func(tm uint32) []byte { return []byte{8, 0, 0, 1, byte(tm >> 16), byte(tm >> 8), byte(tm), byte(tm >> 24), 0, 0, 0, 7, 0, 0, 0, 12} }
	d := append(part(0xfffff0), part(0x2000000)...)
	c := rd(h0(4, 100, uint32(len(d)), 22, d...))
	c.ReadTag()
	g, err := c.ReadTag()
	if err != nil || g.Time != 100+0x2000000-0xfffff0 { t.Fatal(err, g.Time) }
}
''', 'parts more than 2^24 ms apart', 'the timestamp of later parts wraps at 24 bits')
seed('r06-first-time', 'R06', [(M, '	if m.aggidx == 0 {\n', '	if m.aggfirsttm == 0 {\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	part := func(tm byte) []byte { return []byte{8, 0, 0, 1, 0, 0, tm, 0, 0, 0, 0, 7, 0, 0, 0, 12} }
	d := append(part(0), part(20)...)
	c := rd(h0(4, 100, uint32(len(d)), 22, d...))
	c.ReadTag()
	g, err := c.ReadTag()
	if err != nil || g.Time != 120 { t.Fatal(err, g.Time) }
}
''', 'an aggregate whose first part has timestamp 0', 'the second part is rebased on itself')
seed('r04-aggregate-limit', 'R04', [(M, '	if m.msgdatalen > 4*1024*1024 {', '	if m.msgdatalen > 4*1024*1024 && m.msgtypeid != msgtypeidAggregate {')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(4, 0, 0xfffff0, 22)
	b = append(b, make([]byte, 128)...)
	if _, err := rd(b).ReadTag(); err == nil || err == io.EOF || err == io.ErrUnexpectedEOF { t.Fatal(err) }
}
''', 'an aggregate message announced with more than 4 MiB', 'memory for it is allocated instead of refusing it')
seed('r02-abort-forgets', 'R02', [(M, '		if cs := c.readcsmap[csid]; cs != nil {\n			cs.msgdataleft = 0\n		}', '		if cs := c.readcsmap[csid]; cs != nil {\n			delete(c.readcsmap, csid)\n		}')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(4, 100, 200, 8, make([]byte, 128)...)
	b = append(b, h0(2, 0, 4, 2, 0, 0, 0, 4)...)
	b = append(b, 0x44, 0, 0, 20, 0, 0, 2, 8, 0xaf, 1)
	c := NewConn(trw{Reader: bytes.NewReader(b), Writer: io.Discard})
	g, err := c.ReadTag()
	if err != nil || g.Time != 120 { t.Fatal(g, err) }
}
''', 'a compressed header on a chunk stream after an abort message for it', 'the chunk stream has forgotten its header fields and the connection fails')
seed('r06-delta-reset', 'R06', [(M, '				} else {\n					c.aggmsg = nil\n				}', '				} else {\n					c.aggmsg = nil\n					if m := c.readcsmap[4]; m != nil && m.msgtypeid == msgtypeidAggregate {\n						m.timedelta = 0\n					}\n				}')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	ag := []byte{8, 0, 0, 1, 0, 0, 5, 0, 0, 0, 0, 7, 0, 0, 0, 12}
	b := h0(4, 100, 16, 22, ag...)
	b = append(append(b, 0x44, 0, 0, 40, 0, 0, 16, 22), ag...)
	b = append(append(b, 0xc4), ag...)
	c := rd(b)
	for i := 0; i < 3; i++ {
		g, err := c.ReadTag()
		if err != nil || g.Time != uint32(100+40*i) { t.Fatal(i, g.Time, err) }
	}
}
''', 'aggregates in a row on chunk stream 4, the later ones with a type 3 header', 'the time step of the chunk stream is lost after an aggregate')
seed('r02-short-media', 'R02', [(M, '''			err = nil
			return
		}
		tag = &_tag''', '''			return
		}
		tag = &_tag''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := append(h0(4, 0, 0, 8), h0(4, 7, 3, 8, 0xaf, 1, 9)...)
	c := NewConn(trw{Reader: bytes.NewReader(b), Writer: io.Discard})
	g, err := c.ReadTag()
	if err != nil || g.Time != 7 { t.Fatal(g, err) }
}
''', 'an empty audio message among others', 'the connection fails instead of passing it over')
seed('r02-csid16', 'R02', [(M, '	cs := c.readcsmap[csid]\n', '	csid &= 0xffff // ids are two bytes\n	cs := c.readcsmap[csid]\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	m := func(cs []byte, k byte) []byte { b := h0(0, 0, 200, 8, bytes.Repeat([]byte{k}, 128)...); return append(cs, b[1:]...) }
	z := bytes.Repeat([]byte{2}, 72)
	// chunk stream ids 3 and 65539 = 3 + 0x10000
	b := append(m([]byte{3}, 1), m([]byte{1, 0xc3, 0xff}, 2)...)
	b = append(append(b, 0xc1, 0xc3, 0xff), z...)
	c := rd(b)
	g, err := c.ReadTag()
	if err != nil || len(g.Data) != 200 || g.Data[199] != 2 { t.Fatal(err) }
}
''', 'chunk stream ids of 65536 and more beside small ones', 'two chunk streams share one state')
seed('r05-ack-whole-messages', 'R05', [(M, 'if c.readAckSize != 0 && c.ackn-c.lastackn > c.readAckSize {', 'if msg != nil && c.readAckSize != 0 && c.ackn-c.lastackn > c.readAckSize {')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	b := h0(2, 0, 4, 5, 0, 0, 0, 200)
	b = append(b, h0(4, 0, 2000, 18)...)
	for i := 0; i < 15; i++ {
		if i > 0 { b = append(b, 0xc4) }
		b = append(b, make([]byte, 128)...)
	}
	var out bytes.Buffer
	c := NewConn(trw{Reader: bytes.NewReader(b), Writer: &out})
	c.ReadTag()
	if out.Len() == 0 { t.Fatal("nothing acknowledged in", len(b), "bytes") }
}
''', 'a message longer than the acknowledgement window', 'nothing is acknowledged before it is complete, so a sender that waits never completes it')
