// Package rtmpmodel is an independent model of an RTMP peer (chunk stream,
// handshake, AMF0 commands), written from the Adobe RTMP specification. It
// shares no code with the implementation under test.
package rtmpmodel

import (
	"encoding/binary"
	"fmt"
)

const (
	SetChunkSize  = 1
	Abort         = 2
	Ack           = 3
	UserControl   = 4
	WindowAckSize = 5
	PeerBandwidth = 6
	Audio         = 8
	Video         = 9
	DataAMF3      = 15
	CmdAMF3       = 17
	DataAMF0      = 18
	CmdAMF0       = 20
	Aggregate     = 22
)

// Msg is one RTMP message.
type Msg struct {
	CSID uint32
	Time uint32
	Type byte
	SID  uint32
	Data []byte
	End  int // offset in the byte stream just after the message's last chunk
}

func (m Msg) String() string {
	d, s := m.Data, ""
	if len(d) > 20 {
		s = fmt.Sprintf("..(%d)", len(d))
		d = d[:20]
	}
	return fmt.Sprintf("{cs%d type%d t=%d sid=%d %x%s}", m.CSID, m.Type, m.Time, m.SID, d, s)
}

type encStream struct {
	time, delta uint32
	last        byte // header type of the last message start
	length      int
	typ         byte
	sid         uint32
	used        bool
	ext         bool
	extval      uint32
	rest        []byte
	form        int
}

// Enc writes a chunk stream in any legal encoding.
type Enc struct {
	Size    int
	Out     []byte
	OmitExt bool // do not repeat extended timestamps on continuation chunks
	st      map[uint32]*encStream
}

func NewEnc() *Enc { return &Enc{Size: 128, st: map[uint32]*encStream{}} }

// Form is the number of basic header bytes; 0 picks the shortest.
func (e *Enc) basic(csid uint32, form int, fmtt byte) {
	if form == 0 {
		switch {
		case csid < 64:
			form = 1
		case csid < 320:
			form = 2
		default:
			form = 3
		}
	}
	switch form {
	case 1:
		if csid < 2 || csid > 63 {
			panic("csid form 1")
		}
		e.Out = append(e.Out, fmtt<<6|byte(csid))
	case 2:
		if csid < 64 || csid > 319 {
			panic("csid form 2")
		}
		e.Out = append(e.Out, fmtt<<6, byte(csid-64))
	case 3:
		if csid < 64 || csid > 65599 {
			panic("csid form 3")
		}
		e.Out = append(e.Out, fmtt<<6|1, byte((csid-64)&0xff), byte((csid-64)>>8))
	}
}

// Legal tells whether message m may start on its stream with header type h.
func (e *Enc) Legal(m Msg, h int) bool {
	s := e.st[m.CSID]
	if s != nil && s.rest != nil {
		return false
	}
	if h == 0 {
		return true
	}
	if s == nil || !s.used || s.sid != m.SID {
		return false
	}
	if h == 1 {
		return true
	}
	if s.length != len(m.Data) || s.typ != m.Type {
		if h == 3 || s.length != len(m.Data) {
			return false
		}
		return false
	}
	if h == 2 {
		return true
	}
	// a compressed start after a full header means different things to
	// different implementations, so only deltas are repeated
	return s.last != 0 && m.Time-s.time == s.delta
}

// Start begins message m with header type h and writes its first chunk.
func (e *Enc) Start(m Msg, h int, form int) {
	s := e.st[m.CSID]
	if s == nil {
		s = &encStream{}
		e.st[m.CSID] = s
	}
	e.basic(m.CSID, form, byte(h))
	s.form = form
	v := m.Time
	if h > 0 {
		v = m.Time - s.time
	}
	ext := v >= 0xffffff
	f := v
	if ext {
		f = 0xffffff
	}
	if h < 3 {
		e.Out = append(e.Out, byte(f>>16), byte(f>>8), byte(f))
		s.last = byte(h)
		if h > 0 {
			s.delta = v
		}
		s.ext, s.extval = ext, v
	}
	if h < 2 {
		n := len(m.Data)
		e.Out = append(e.Out, byte(n>>16), byte(n>>8), byte(n), m.Type)
		s.length, s.typ = n, m.Type
	}
	if h == 0 {
		e.Out = binary.LittleEndian.AppendUint32(e.Out, m.SID)
		s.sid = m.SID
	}
	if ext {
		e.Out = binary.BigEndian.AppendUint32(e.Out, v)
	}
	s.time = m.Time
	s.used = true
	e.payload(s, m.Data)
}

func (e *Enc) payload(s *encStream, d []byte) {
	n := len(d)
	if n > e.Size {
		n = e.Size
	}
	e.Out = append(e.Out, d[:n]...)
	s.rest = d[n:]
	if len(s.rest) == 0 {
		s.rest = nil
	}
}

// Pending tells whether a message is incomplete on the stream.
func (e *Enc) Pending(csid uint32) bool { s := e.st[csid]; return s != nil && s.rest != nil }

// Drop forgets a partial message (after an abort).
func (e *Enc) Drop(csid uint32) {
	if s := e.st[csid]; s != nil {
		s.rest = nil
	}
}

// Cont writes the next chunk of the partial message.
func (e *Enc) Cont(csid uint32, form int) {
	s := e.st[csid]
	e.basic(csid, form, 3)
	if s.ext && !e.OmitExt {
		e.Out = binary.BigEndian.AppendUint32(e.Out, s.extval)
	}
	e.payload(s, s.rest)
}

// Send writes a whole message with a full header.
func (e *Enc) Send(m Msg) {
	e.Start(m, 0, 0)
	for e.Pending(m.CSID) {
		e.Cont(m.CSID, 0)
	}
	if m.Type == SetChunkSize && len(m.Data) >= 4 {
		e.Size = int(binary.BigEndian.Uint32(m.Data) & 0x7fffffff)
	}
}

func U32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func U16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }

type decStream struct {
	m    Msg
	len  int
	dlt  uint32
	ext  bool
	last byte
	buf  []byte
	used bool
}

// Dec decodes a chunk stream incrementally.
type Dec struct {
	Size int
	buf  []byte
	off  int // absolute offset of buf[0]
	st   map[uint32]*decStream
	Msgs []Msg
	// Chunks are the absolute end offsets of every chunk, Types their header types.
	Chunks []int
	Err    error
}

func NewDec() *Dec { return &Dec{Size: 128, st: map[uint32]*decStream{}} }

func u24(b []byte) uint32 { return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2]) }

// Feed consumes bytes; complete messages are appended to Msgs.
func (d *Dec) Feed(b []byte) {
	d.buf = append(d.buf, b...)
	for d.Err == nil && d.chunk() {
	}
}

// Rest is the number of bytes that do not form a complete chunk.
func (d *Dec) Rest() int { return len(d.buf) }

// Partial tells whether some message is incomplete.
func (d *Dec) Partial() bool {
	for _, s := range d.st {
		if len(s.buf) > 0 || s.len > 0 && s.used && s.buf != nil {
			return true
		}
	}
	return len(d.buf) > 0
}

func (d *Dec) chunk() bool {
	b := d.buf
	if len(b) < 1 {
		return false
	}
	h := b[0] >> 6
	csid := uint32(b[0] & 63)
	p := 1
	switch csid {
	case 0:
		if len(b) < 2 {
			return false
		}
		csid = uint32(b[1]) + 64
		p = 2
	case 1:
		if len(b) < 3 {
			return false
		}
		csid = uint32(b[1]) + uint32(b[2])*256 + 64
		p = 3
	}
	s := d.st[csid]
	if s == nil {
		s = &decStream{}
	}
	c := *s
	start := c.buf == nil
	if h < 3 && !start {
		d.Err = fmt.Errorf("chunk stream %d: header type %d inside a message", csid, h)
		return false
	}
	if h > 0 && !c.used {
		d.Err = fmt.Errorf("chunk stream %d: header type %d first", csid, h)
		return false
	}
	hl := []int{11, 7, 3, 0}[h]
	if len(b) < p+hl {
		return false
	}
	var v uint32
	if h < 3 {
		v = u24(b[p:])
		c.ext = v == 0xffffff
		c.last = h
	}
	if h < 2 {
		c.len = int(u24(b[p+3:]))
		c.m.Type = b[p+6]
	}
	if h == 0 {
		c.m.SID = binary.LittleEndian.Uint32(b[p+7:])
	}
	p += hl
	if c.ext {
		if len(b) < p+4 {
			return false
		}
		x := binary.BigEndian.Uint32(b[p:])
		p += 4
		if h < 3 {
			v = x
			if v < 0xffffff {
				d.Err = fmt.Errorf("chunk stream %d: extended timestamp %d used needlessly", csid, v)
				return false
			}
		} else if x != c.m.Time && x != c.dlt {
			d.Err = fmt.Errorf("chunk stream %d: continuation repeats extended timestamp %d, message has %d", csid, x, c.m.Time)
			return false
		}
	}
	switch {
	case h == 0:
		c.m.Time = v
	case h < 3:
		c.dlt = v
		c.m.Time += v
	case start:
		if c.last == 0 {
			d.Err = fmt.Errorf("chunk stream %d: new message without any header", csid)
			return false
		}
		c.m.Time += c.dlt
	}
	n := c.len - len(c.buf)
	if n > d.Size {
		n = d.Size
	}
	if len(b) < p+n {
		return false
	}
	if start {
		c.buf = make([]byte, 0, c.len)
	}
	c.buf = append(c.buf, b[p:p+n]...)
	c.used = true
	c.m.CSID = csid
	d.buf = b[p+n:]
	d.off += p + n
	d.Chunks = append(d.Chunks, d.off)
	if len(c.buf) == c.len {
		m := c.m
		m.Data = c.buf
		m.End = d.off
		c.buf = nil
		d.Msgs = append(d.Msgs, m)
		if m.Type == SetChunkSize {
			if len(m.Data) < 4 {
				d.Err = fmt.Errorf("short set chunk size")
				return false
			}
			d.Size = int(binary.BigEndian.Uint32(m.Data))
			if d.Size < 1 || d.Size > 0x7fffffff {
				d.Err = fmt.Errorf("illegal chunk size %d", d.Size)
				return false
			}
		}
	}
	*s = c
	d.st[csid] = s
	if n := len(d.Msgs); c.buf == nil && n > 0 && d.Msgs[n-1].Type == Abort && len(d.Msgs[n-1].Data) >= 4 && d.Msgs[n-1].End == d.off {
		if t := d.st[binary.BigEndian.Uint32(d.Msgs[n-1].Data)]; t != nil {
			t.buf = nil
		}
	}
	return true
}
