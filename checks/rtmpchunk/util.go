package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/url"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31+i/256*17+i/65536*5) ^ seed
	}
	return b
}

// rw is the transport under a bare connection.
type rw struct {
	io.Reader
	io.Writer
	flush func() error
}

func (r rw) Flush() error {
	if r.flush != nil {
		return r.flush()
	}
	return nil
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

// allIDs makes ReadTag return every message that is not consumed as an event.
var allIDs = func() (ids []uint8) {
	for i := 0; i < 256; i++ {
		ids = append(ids, uint8(i))
	}
	return
}()

func reader(r io.Reader) *rtmp.Conn {
	c := rtmp.NewConn(rw{Reader: r, Writer: nowhere{}})
	c.BypassMsgtypeid = allIDs
	return c
}

func sprint(ms []rm.Msg) string {
	s := ""
	for _, m := range ms {
		s += m.String() + " "
	}
	return s
}

// visible are the messages an application sees with every type let through.
func visible(ms []rm.Msg) (out []rm.Msg) {
	for _, m := range ms {
		switch m.Type {
		case rm.SetChunkSize, rm.Abort, rm.WindowAckSize:
			continue
		case rm.UserControl:
			if len(m.Data) >= 2 && m.Data[0] == 0 && m.Data[1] == 6 {
				continue
			}
		}
		out = append(out, m)
	}
	return
}

// expectRead reads messages until an error and compares.
func expectRead(c *mc.Ctx, conn *rtmp.Conn, want []rm.Msg, what string) (end error) {
	var got []flvio.Tag
	for i := 0; ; i++ {
		tag, err := conn.ReadTag()
		c.Step(1)
		if err == nil {
			got = append(got, tag)
		} else {
			for j, t := range got {
				if j < len(want) && !bytes.Equal(t.Data, want[j].Data) {
					c.Fail("%s: payload of message %d changed after it was delivered", what, j)
				}
			}
			if i != len(want) {
				c.Fail("%s: error %v after %d of %d messages; sent %s", what, err, i, len(want), sprint(want))
			}
			return err
		}
		if i >= len(want) {
			c.Fail("%s: extra message type %d time %d %x after the %d sent: %s", what, tag.Type, tag.Time, tag.Data, len(want), sprint(want))
		}
		w := want[i]
		if tag.Type != w.Type || tag.Time != w.Time || !bytes.Equal(tag.Data, w.Data) {
			got := rm.Msg{Time: tag.Time, Type: tag.Type, Data: tag.Data}
			c.Fail("%s: message %d is %v, sent %v", what, i, got, w)
		}
	}
}

func isEOF(err error) bool {
	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
}

func st(t flvio.Tag) string {
	d, s := t.Data, ""
	if len(d) > 16 {
		d, s = d[:16], fmt.Sprintf("..(%d)", len(t.Data))
	}
	return fmt.Sprintf("{type%d t=%d ct=%d snd=%d/%d/%d/%d aac=%d frame=%d fmt=%d avc=%d %x%s}", t.Type, t.Time, t.CTime, t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType, t.AACPacketType, t.FrameType, t.VideoFormat, t.AVCPacketType, d, s)
}

func sameTag(a, b flvio.Tag) bool {
	return a.Type == b.Type && a.Time == b.Time && a.CTime == b.CTime && a.SoundFormat == b.SoundFormat && a.SoundRate == b.SoundRate &&
		a.SoundSize == b.SoundSize && a.SoundType == b.SoundType && a.AACPacketType == b.AACPacketType && a.FrameType == b.FrameType &&
		a.VideoFormat == b.VideoFormat && a.AVCPacketType == b.AVCPacketType && bytes.Equal(a.Data, b.Data)
}

// body is the message payload the FLV/RTMP specifications define for a tag.
func body(t flvio.Tag) []byte {
	var h []byte
	switch t.Type {
	case rm.Audio:
		h = []byte{t.SoundFormat<<4 | t.SoundRate<<2 | t.SoundSize<<1 | t.SoundType}
		if t.SoundFormat == 10 {
			h = append(h, t.AACPacketType)
		}
	case rm.Video:
		h = []byte{t.FrameType<<4 | t.VideoFormat}
		if t.VideoFormat == 7 || t.VideoFormat == 12 {
			h = append(h, t.AVCPacketType, byte(t.CTime>>16), byte(t.CTime>>8), byte(t.CTime))
		}
	}
	return append(h, t.Data...)
}

// checkTags writes the tags on one connection, decodes the bytes with the
// model and reads them back on another connection.
func checkTags(c *mc.Ctx, tags []flvio.Tag) {
	var buf bytes.Buffer
	w := rtmp.NewConn(rw{Reader: bytes.NewReader(nil), Writer: &buf})
	for i, t := range tags {
		if err := w.WriteTag(t); err != nil {
			c.Fail("tag %d %s: write error %v", i, st(t), err)
		}
		c.Step(1)
	}
	d := rm.NewDec()
	d.Feed(buf.Bytes())
	decodedTags(c, d, d.Msgs, tags)
	r := rtmp.NewConn(rw{Reader: &buf, Writer: nowhere{}})
	readTags(c, r, tags)
}

func decodedTags(c *mc.Ctx, d *rm.Dec, ms []rm.Msg, tags []flvio.Tag) {
	if d.Err != nil {
		c.Fail("bytes written are not a well-formed chunk stream: %v (tags %s)", d.Err, stl(tags))
	}
	if d.Partial() {
		c.Fail("bytes written end inside a message (tags %s)", stl(tags))
	}
	if len(ms) != len(tags) {
		c.Fail("an independent decoder reads %d messages for %d tags: %s", len(ms), len(tags), sprint(ms))
	}
	for i, m := range ms {
		t := tags[i]
		if m.Type != t.Type || m.Time != t.Time || !bytes.Equal(m.Data, body(t)) {
			c.Fail("an independent decoder reads message %d as %v, tag was %s", i, m, st(t))
		}
	}
	c.Validated(len(ms))
}

func stl(ts []flvio.Tag) (s string) {
	for _, t := range ts {
		s += st(t) + " "
	}
	return
}

func readTags(c *mc.Ctx, r *rtmp.Conn, tags []flvio.Tag) {
	var all []flvio.Tag
	for i, t := range tags {
		got, err := r.ReadTag()
		c.Step(1)
		if err != nil {
			c.Fail("reading tag %d: %v (written %s)", i, err, stl(tags))
		}
		if !sameTag(got, t) {
			c.Fail("tag %d read back as %s, written %s", i, st(got), st(t))
		}
		c.Outcome(i, st(got))
		all = append(all, got)
	}
	if got, err := r.ReadTag(); err == nil {
		c.Fail("extra tag %s read after %s", st(got), stl(tags))
	}
	for i, t := range tags {
		if !sameTag(all[i], t) {
			c.Fail("tag %d changed to %s after it was delivered, written %s", i, st(all[i]), st(t))
		}
	}
}

const tcurl = "rtmp://host.example/app"

// serverRun serves one connection whose client sends in; f runs in HandleConn.
func serverRun(nc net.Conn, f func(*rtmp.Conn)) (handled bool) {
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		handled = true
		f(c)
	}
	s.HandleNetConn(nc)
	return
}

func clientRun(nc net.Conn, flags int) (*rtmp.Conn, error) {
	u, _ := url.Parse("rtmp://host.example/app/inst/stream")
	return rtmp.NewClient().FromNetConn(nc, u, flags)
}
