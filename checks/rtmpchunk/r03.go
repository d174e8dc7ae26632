package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	"joyverif/memio"
	rm "joyverif/rtmpmodel"
)

// streams3 are byte streams with their messages (End set) for cutting.
func streams3() (out []*rm.Dec, raw [][]byte) {
	m := func(csid, tm uint32, typ byte, n int) rm.Msg {
		return rm.Msg{CSID: csid, Time: tm, Type: typ, SID: 1, Data: fill(n, byte(n))}
	}
	add := func(e *rm.Enc) {
		d := rm.NewDec()
		d.Feed(e.Out)
		if d.Err != nil || d.Partial() {
			panic(fmt.Sprint(d.Err))
		}
		out = append(out, d)
		raw = append(raw, e.Out)
	}
	// plain messages, one longer than a chunk, extended timestamps
	e := rm.NewEnc()
	e.Send(m(4, 0, 8, 10))
	e.Send(m(6, 0xffffff, 9, 200))
	e.Send(m(4, 20, 18, 0))
	e.Send(m(6, 0x1000000, 9, 130))
	add(e)
	// interleaved with compressed headers and all csid forms
	e = rm.NewEnc()
	a, b := m(70, 5, 9, 150), m(400, 7, 8, 140)
	e.Start(a, 0, 2)
	e.Start(b, 0, 3)
	e.Cont(70, 3)
	a.Time += 40
	e.Start(a, 2, 0)
	e.Cont(400, 0)
	e.Cont(70, 0)
	a.Time += 40
	e.Start(a, 3, 0)
	e.Cont(70, 0)
	add(e)
	// control traffic and an aggregate
	e = rm.NewEnc()
	e.Ctl(rm.SetChunkSize, rm.U32(40))
	e.Send(m(4, 0, 8, 90))
	e.Ctl(rm.UserControl, append(rm.U16(6), rm.U32(5)...))
	e.Ctl(rm.WindowAckSize, rm.U32(60))
	e.Send(m(4, 0xffffff, 9, 60))
	e.Cmd(3, 0, "x", 1, nil)
	add(e)
	return
}

func r03(tier string) []mc.Exploration {
	ds, raws := streams3()
	frags := []int{0, 1, 2, 3, 4, 5, 7, 13, 16, 17, 128}
	before := func(d *rm.Dec, cut int) (ms []rm.Msg) {
		for _, m := range visible(d.Msgs) {
			if m.End <= cut {
				ms = append(ms, m)
			}
		}
		return
	}
	ends := []error{io.EOF, memio.ErrInjected}
	tags := []flvio.Tag{kind(0, 100, 0, 5), kind(1, 126, 0xffffff, 0), kind(2, 300, 3, 0), kind(0, 0, 0x1000000, 0), kind(1, 3, 9, 0)}
	var full []byte
	var tagEnd []int
	{
		var buf bytes.Buffer
		w := rtmp.NewConn(rw{Reader: bytes.NewReader(nil), Writer: &buf})
		for _, t := range tags {
			w.WriteTag(t)
			tagEnd = append(tagEnd, buf.Len())
		}
		full = buf.Bytes()
	}
	return []mc.Exploration{
		{Name: "truncation", Rule: "3 chunk streams (extended timestamps; interleaved and compressed; control traffic) cut at every byte x end of file or failure x error with or after the last data x 11 fragment sizes x bare or buffered transport: exactly the complete messages, then an error",
			Run: func(c *mc.Ctx) {
				i := c.Choose(len(raws))
				cut := c.Choose(len(raws[i]) + 1)
				r := &memio.FragReader{Data: raws[i][:cut], Max: frags[c.Choose(len(frags))], End: ends[c.Choose(2)], DataErr: c.Bool()}
				var rd io.Reader = r
				if c.Bool() {
					rd = bufio.NewReaderSize(r, 4096)
				}
				err := expectRead(c, reader(rd), before(ds[i], cut), fmt.Sprintf("stream %d cut at %d fragments of %d", i, cut, r.Max))
				if r.End == memio.ErrInjected && !errors.Is(err, memio.ErrInjected) && !errors.Is(err, io.ErrUnexpectedEOF) {
					c.Fail("stream %d cut at %d: failure reported as %v", i, cut, err)
				}
				c.State(i, cut, len(before(ds[i], cut)))
				c.Outcome(i, len(before(ds[i], cut)), err)
				c.Validated(1)
			}},
		{Name: "split-pairs", Rule: "the same streams delivered whole in pieces: every pair of split offsets, bare and buffered transport",
			Run: func(c *mc.Ctx) {
				i := c.Choose(len(raws))
				a := 1 + c.Choose(len(raws[i])-1)
				b := a + c.Choose(len(raws[i])-a)
				var rd io.Reader = &memio.FragReader{Data: raws[i], Cuts: []int{a, b}}
				if c.Bool() {
					rd = bufio.NewReaderSize(rd, 16)
				}
				err := expectRead(c, reader(rd), visible(ds[i].Msgs), fmt.Sprintf("stream %d split at %d and %d", i, a, b))
				if !isEOF(err) {
					c.Fail("stream %d split at %d and %d: ended with %v", i, a, b, err)
				}
				c.State(i, a, b)
				c.Validated(1)
			}},
		{Name: "write-failures", Rule: "5 tags and a flush written to a transport whose k-th call (write or flush) fails, once or for good, for every k, over no buffer or buffers of 16-4096 bytes: the failure is reported by the failing or the following operation and what was written is a prefix",
			Run: func(c *mc.Ctx) {
				sz := []int{0, 16, 100, 512, 4096}[c.Choose(5)]
				fw := &failW{at: 1 + c.Choose(60), once: c.Bool(), flushFails: true}
				var t rw
				if sz == 0 {
					t = rw{Reader: bytes.NewReader(nil), Writer: fw}
				} else {
					bw := bufio.NewWriterSize(fw, sz)
					t = rw{Reader: bytes.NewReader(nil), Writer: bw, flush: bw.Flush}
				}
				conn := rtmp.NewConn(t)
				rep := -1
				failedAt := -1
				n := len(tags)
				for i := 0; i <= n; i++ {
					var err error
					if i < n {
						err = conn.WriteTag(tags[i])
					} else {
						err = t.Flush()
					}
					c.Step(1)
					if fw.failed && failedAt < 0 {
						failedAt = i
					}
					if err != nil {
						if !errors.Is(err, memio.ErrInjected) {
							c.Fail("reported as %v", err)
						}
						rep = i
						break
					}
				}
				if fw.failed != (rep >= 0) {
					c.Fail("transport failed at call %d (buffer %d): failed=%v but reported by operation %d", fw.at, sz, fw.failed, rep)
				}
				if rep >= 0 && rep > failedAt+1 || rep >= 0 && sz == 0 && rep != failedAt {
					c.Fail("transport failed in operation %d, reported by %d (buffer %d)", failedAt, rep, sz)
				}
				if !bytes.HasPrefix(full, fw.buf) {
					c.Fail("what was written before the failure is not a prefix of the stream")
				}
				if !fw.failed && !bytes.Equal(full, fw.buf) {
					c.Fail("output differs although nothing failed")
				}
				c.State(sz, fw.at, rep)
				c.Outcome(sz, rep, failedAt)
				c.Validated(1)
			}},
		{Name: "reply-failures", Rule: "reading a stream that demands replies (pings, acknowledgements, consumed events) over a transport whose k-th write or flush fails: reading returns that error before any message completed later",
			Run: func(c *mc.Ctx) {
				e := rm.NewEnc()
				e.Ctl(rm.WindowAckSize, rm.U32(50))
				for i := 0; i < 3; i++ {
					e.Ctl(rm.UserControl, append(rm.U16(6), rm.U32(uint32(i))...))
					e.Send(rm.Msg{CSID: 4, Type: 8, Data: fill(60, byte(i))})
				}
				fw := &failW{at: 1 + c.Choose(24), once: c.Bool(), flushCounts: true}
				conn := rtmp.NewConn(rw{Reader: bytes.NewReader(e.Out), Writer: fw, flush: fw.flush})
				conn.BypassMsgtypeid = allIDs
				n := 0
				for {
					_, err := conn.ReadTag()
					c.Step(1)
					if err != nil {
						if fw.failed && !errors.Is(err, memio.ErrInjected) {
							c.Fail("write %d failed, reading ended with %v", fw.at, err)
						}
						if !fw.failed && !isEOF(err) {
							c.Fail("nothing failed, reading ended with %v", err)
						}
						break
					}
					if fw.failed {
						c.Fail("write %d failed while reading, but a message was delivered instead of the error", fw.at)
					}
					n++
				}
				c.State(fw.at, n)
				c.Outcome(fw.at, n)
				c.Validated(1)
			}},
		{Name: "session-truncation", Rule: "publish and play sessions (server and client) whose peer's byte stream is cut at every byte after the handshake (and every 64th byte inside it): exactly the media completed before the cut, then an error; never a hang", AllocLimit: 256 << 20,
			Run: func(c *mc.Ctx) {
				server := c.Bool()
				var e *rm.Enc
				if server {
					e = rm.ClientScript(true, "app", tcurl, "s")
				} else {
					e = rm.ServerScript(false, 1)
				}
				setup := len(e.Out)
				e.Send(rm.Msg{CSID: 6, Type: 9, SID: 1, Data: body(tags[0])})
				e.Send(rm.Msg{CSID: 4, Type: 8, SID: 1, Time: 0xffffff, Data: body(tags[1])})
				n := c.Choose(len(e.Out) - rm.HelloLen + 1 + rm.HelloLen/64)
				if n <= len(e.Out)-rm.HelloLen {
					n = rm.HelloLen + n
				} else {
					n = (n - (len(e.Out) - rm.HelloLen) - 1) * 64
				}
				d := rm.NewDec()
				if n > rm.HelloLen {
					d.Feed(e.Out[rm.HelloLen:n])
				}
				var want []rm.Msg
				for _, m := range d.Msgs {
					if m.Type == 8 || m.Type == 9 {
						want = append(want, m)
					}
				}
				fr := &memio.FragReader{Data: e.Out[:n], Max: []int{0, 1, 100}[c.Choose(3)], End: ends[c.Choose(2)]}
				nc := &rm.NetConn{In: fr}
				var got []flvio.Tag
				var end error
				read := func(conn *rtmp.Conn) {
					if end = conn.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); end != nil {
						return
					}
					for {
						t, err := conn.ReadTag()
						if err != nil {
							end = err
							return
						}
						got = append(got, t)
					}
				}
				if server {
					h := serverRun(nc, read)
					if h != (n >= setup) {
						c.Fail("server accepted=%v with %d of %d setup bytes", h, n, setup)
					}
					if !h && !nc.Closed() {
						c.Fail("server did not close the connection after a failed setup (cut at %d)", n)
					}
				} else {
					conn, err := clientRun(nc, rtmp.PrepareReading)
					if (err == nil) != (n >= setup) {
						c.Fail("client setup error %v with %d of %d setup bytes", err, n, setup)
					}
					if err == nil {
						read(conn)
					}
				}
				if n >= setup && end == nil {
					c.Fail("no error after the end")
				}
				if len(got) != len(want) {
					c.Fail("cut at %d: %d media messages delivered, %d were complete", n, len(got), len(want))
				}
				for i := range got {
					if !bytes.Equal(body(got[i]), want[i].Data) || got[i].Time != want[i].Time {
						c.Fail("cut at %d: message %d is %s", n, i, st(got[i]))
					}
				}
				c.State(server, n)
				c.Outcome(server, len(got), end)
				c.Step(1)
				c.Validated(1)
			}},
		{Name: "session-write-failures", Rule: "the k-th network write of a publish or play session fails, for every k, in server and client: setup or the following media operation reports an error and media flows only if nothing failed", AllocLimit: 256 << 20,
			Run: func(c *mc.Ctx) {
				role := c.Choose(4)
				nc := &rm.NetConn{FailWriteAt: 1 + c.Choose(14), FailOnce: c.Bool()}
				var end error
				use := func(conn *rtmp.Conn, writing bool) {
					if writing {
						if end = conn.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); end != nil {
							return
						}
						for i := 0; i < 8; i++ {
							if end = conn.WriteTag(kind(0, 2000, 0, 0)); end != nil {
								return
							}
						}
						return
					}
					if end = conn.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); end != nil {
						return
					}
					_, end = conn.ReadTag()
				}
				media := func(e *rm.Enc) io.Reader {
					e.Send(rm.Msg{CSID: 6, Type: 9, SID: 1, Data: body(tags[0])})
					return bytes.NewReader(e.Out)
				}
				switch role {
				case 0, 1:
					nc.In = media(rm.ClientScript(role == 0, "app", tcurl, "s"))
					if !serverRun(nc, func(conn *rtmp.Conn) { use(conn, role == 1) }) {
						end = errors.New("refused")
						if !nc.Closed() {
							c.Fail("not closed after failed setup")
						}
					}
				default:
					nc.In = media(rm.ServerScript(role == 2, 1))
					flags := rtmp.PrepareReading
					if role == 2 {
						flags = rtmp.PrepareWriting
					}
					conn, err := clientRun(nc, flags)
					end = err
					if err == nil {
						use(conn, role == 2)
					}
				}
				if nc.Failed() && end == nil {
					c.Fail("role %d: network write %d failed but no operation reported it", role, nc.FailWriteAt)
				}
				if !nc.Failed() && end != nil {
					c.Fail("role %d: nothing failed but %v", role, end)
				}
				c.State(role, nc.FailWriteAt, end != nil)
				c.Outcome(role, end)
				c.Step(1)
				c.Validated(1)
			}},
	}
}

// failW fails call number at (counting flushes when flushCounts).
type failW struct {
	buf                     []byte
	at, calls               int
	once, failed            bool
	flushCounts, flushFails bool
}

func (w *failW) hit() bool {
	w.calls++
	if w.calls == w.at || w.calls > w.at && !w.once {
		w.failed = true
		return true
	}
	return false
}

func (w *failW) Write(p []byte) (int, error) {
	if w.hit() {
		return 0, memio.ErrInjected
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *failW) flush() error {
	if w.flushCounts && w.hit() {
		return memio.ErrInjected
	}
	return nil
}
