P = '''package rtmp
import ("testing";"bytes";"io";"net";"net/url";"time";"errors";"context";"crypto/hmac";"crypto/sha256"
"github.com/nareix/joy5/av"
"github.com/nareix/joy5/format/flv/flvio")
var _ av.Packet
var _ = io.EOF
var _ = bytes.Equal
var _ = errors.New
var _ = context.Background
var _ = time.Now
var _ = flvio.TAG_AMF0
func hm(k []byte, parts ...[]byte) []byte { h := hmac.New(sha256.New, k); for _, p := range parts { h.Write(p) }; return h.Sum(nil) }
func blk(client bool, sum int) []byte {
	b := make([]byte, 1536)
	for i := 8; i < len(b); i++ { b[i] = byte(i * 7) }
	off := sum % 728 + 12
	for i := 8; i < 12; i++ { v := sum; if v > 255 { v = 255 }; b[i] = byte(v); sum -= v }
	k := []byte("Genuine Adobe Flash Media Server 001")
	if client { k = []byte("Genuine Adobe Flash Player 001") }
	copy(b[off:], hm(k, b[:off], b[off+32:]))
	return b
}
type nconn struct { io.Reader; out bytes.Buffer; closed bool }
func (c *nconn) Write(b []byte) (int, error) { return c.out.Write(b) }
func (c *nconn) Close() error { c.closed = true; return nil }
func (c *nconn) LocalAddr() net.Addr { return nil }
func (c *nconn) RemoteAddr() net.Addr { return nil }
func (c *nconn) SetDeadline(time.Time) error { return nil }
func (c *nconn) SetReadDeadline(time.Time) error { return nil }
func (c *nconn) SetWriteDeadline(time.Time) error { return nil }
func s2(c1 []byte) []byte {
	c := &nconn{Reader: bytes.NewReader(append([]byte{3}, c1...))}
	NewServer().HandleNetConn(c)
	return c.out.Bytes()[1537:]
}
func both(t *testing.T, u string, pub bool, f func(*Conn)) (got *Conn, c *Conn, err error) {
	a, b := net.Pipe()
	done := make(chan *Conn, 1)
	go func() {
		s := NewServer()
		s.HandleConn = func(c *Conn, nc net.Conn) { c.Prepare(StageCommandDone, 0); done <- c; if f != nil { f(c) } }
		s.HandleNetConn(b)
		select { case done <- nil: default: }
	}()
	pu, _ := url.Parse(u)
	fl := PrepareReading
	if pub { fl = PrepareWriting }
	c, err = NewClient().FromNetConn(a, pu, fl)
	if err == nil { got = <-done }
	return
}
'''
H = 'format/rtmp/handshake.go'
C = 'format/rtmp/cmd.go'
seed('r07-offset-mod', 'R07', [(H, '	pos = (pos % 728) + base + 4\n', '	if pos > 728 {\n		pos %= 728\n	}\n	pos += base + 4\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c1 := blk(true, 728)
	if bytes.Equal(s2(c1), c1) { t.Fatal("digest client got the plain handshake") }
}
''', 'a block whose offset bytes add up to exactly 728', 'the digest is looked for (and placed) past the allowed range')
seed('r07-digest-tail', 'R07', [(H, '	if bytes.Compare(p[gap:gap+32], digest) != 0 {\n', '	if !bytes.HasPrefix(p[gap:], digest[:31]) {\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c1 := blk(true, 100)
	c1[112+31] ^= 1
	if !bytes.Equal(s2(c1), c1) { t.Fatal("altered digest accepted") }
}
''', 'a block in which only the last digest byte is altered', 'an invalid digest is taken for valid')
seed('r07-c2-read', 'R07', [(H, '''	if _, err = io.ReadFull(c.wrapRW.rw, C2); err != nil {
		return
	}

	c.Stage''', '''	if _, err = io.ReadAtLeast(c.wrapRW.rw, C2, 1); err != nil {
		return
	}

	c.Stage''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	e := append([]byte{3}, make([]byte, 3072)...)
	d := []byte{2, 0, 7, 'c', 'o', 'n', 'n', 'e', 'c', 't', 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 3, 'a', 'p', 'p', 2, 0, 1, 'a', 0, 0, 9}
	e = append(e, 3, 0, 0, 0, 0, 0, byte(len(d)), 20, 0, 0, 0, 0)
	e = append(e, d...)
	c := &nconn{Reader: io.MultiReader(bytes.NewReader(e[:1537]), bytes.NewReader(e[1537:2000]), bytes.NewReader(e[2000:]))}
	NewServer().HandleNetConn(c)
	if c.out.Len() <= 3073 { t.Fatal("connect was not answered") }
}
''', 'a client block C2 that arrives in several pieces', 'handshake bytes are taken for messages')
seed('r07-client-fallback', 'R07', [(H, '''		// fallback to simple handshake
		copy(C2[:], S0S1S2[1:1536+1])
''', '''		// fallback to simple handshake
		copy(C2[:], S0S1S2[1:1536+1])
		if S0S1S2[5] == 0 {
			// no server version: nothing to echo but its time
			copy(C2[4:8], C0C1[1:5])
			copy(C2[8:], S0S1S2[1536+1+8:])
		}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	s := make([]byte, 3073)
	for i := 9; i < len(s); i++ { s[i] = byte(i * 7) ^ byte(i>>8) }
	c := &nconn{Reader: bytes.NewReader(s)}
	u, _ := url.Parse("rtmp://h/a/b")
	NewClient().FromNetConn(c, u, PrepareReading)
	if !bytes.Equal(c.out.Bytes()[1537:3073], s[1:1537]) { t.Fatal("C2 is no echo of S1") }
}
''', 'a plain server whose S2 is not an echo of the same bytes as its S1', 'the client echoes the wrong block')
seed('r08-deep-path', 'R08', [('format/rtmp/url.go', '		stream = strings.Join(pathsegs[3:], "/")\n', '		stream = pathsegs[len(pathsegs)-1]\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	g, _, err := both(t, "rtmp://h/a/b/c/d", true, nil)
	if err != nil || g.URL.Path != "/a/b/c/d" { t.Fatal(err, g.URL) }
}
''', 'an address of four or more path segments', 'the middle of the stream path is lost')
seed('r08-escaped-path', 'R08', [('format/rtmp/url.go', '''	if u, err = url.ParseRequestURI("/" + app + "/" + play); err != nil {
		return
	}
''', '''	if u, err = url.ParseRequestURI("/" + app + "/" + play); err != nil {
		return
	}
	u = &url.URL{Path: u.Path, RawQuery: u.RawQuery}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	g, _, err := both(t, "rtmp://h/a/b%2Fc", true, nil)
	if err != nil || g.URL.String() != "rtmp://h/a/b%2Fc" { t.Fatal(err, g.URL) }
}
''', 'a stream name with an escaped slash', 'the server sees a different address')
seed('r08-level-missing', 'R08', [(C, '	if level != "status" {\n', '	if level == "error" {\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c := &Conn{}
	err := c.checkLevelStatus(&command{params: []interface{}{flvio.AMFMap{{K: "code", V: "NetStream.Publish.BadName"}}}})
	if err == nil { t.Fatal("accepted") }
}
''', 'a refusal whose status carries no level (or another one)', 'the refused session looks accepted')
seed('r08-dial-leak', 'R08', [('format/rtmp/client.go', '''	if c_, err = t.FromNetConn(nc_, u, flags); err != nil {
		nc_.Close()
		return
	}
''', '''	if c_, err = t.FromNetConn(nc_, u, flags); err != nil {
		if c_ != nil {
			nc_.Close()
		}
		return
	}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c := &nconn{Reader: bytes.NewReader(nil)}
	cl := NewClient()
	cl.NewDialFunc = func() func(context.Context, string, string) (net.Conn, error) { return func(context.Context, string, string) (net.Conn, error) { return c, nil } }
	if _, _, err := cl.Dial("rtmp://h/a/b", PrepareReading); err == nil || !c.closed { t.Fatal(err, c.closed) }
}
''', 'a setup that fails', 'the connection is left open')
seed('r08-create-order', 'R08', [(C, '''		case "createStream":
			c.avmsgsid = uint32(1)
			if err = c.writeCommand(3, 0, "_result", cmd.transid, nil, c.avmsgsid); err != nil {
				return
			}
			if err = c.flushWrite(); err != nil {
				return
			}
''', '''		case "createStream":
			if c.avmsgsid != 0 {
				// already created
				continue
			}
			c.avmsgsid = uint32(1)
			if err = c.writeCommand(3, 0, "_result", cmd.transid, nil, c.avmsgsid); err != nil {
				return
			}
			if err = c.flushWrite(); err != nil {
				return
			}
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	e := append([]byte{3}, make([]byte, 3072)...)
	msg := func(vals ...interface{}) {
		d := flvio.FillAMF0ValsMalloc(vals)
		e = append(e, 3, 0, 0, 0, 0, 0, byte(len(d)), 20, 0, 0, 0, 0)
		e = append(e, d...)
	}
	msg("connect", 1, flvio.AMFMap{{K: "app", V: "a"}})
	msg("createStream", 2, nil)
	msg("createStream", 3, nil)
	c := &nconn{Reader: bytes.NewReader(e)}
	NewServer().HandleNetConn(c)
	if n := bytes.Count(c.out.Bytes(), []byte("_result")); n != 3 { t.Fatal(n, " replies") }
}
''', 'a client that creates two streams', 'the second request is never answered')
seed('r09-set-data-frame', 'R09', [(C, '	return flv.WritePacket(pkt, c.WriteTag, c.Publishing)\n', '	return flv.WritePacket(pkt, c.WriteTag, c.writing())\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	c := &nconn{Reader: bytes.NewReader(nil)}
	conn := NewConn(&bufRW{c})
	conn.isserver = true
	conn.Stage = StageDataStart
	conn.WritePacket(demoMeta)
	if bytes.Contains(c.out.Bytes(), []byte("@setDataFrame")) { t.Fatal("player told to set a data frame") }
}
type bufRW struct{ *nconn }
func (bufRW) Flush() error { return nil }
''' .replace('type bufRW', 'var demoMeta = av.Packet{Type: av.Metadata, Data: flvio.FillAMF0ValsMalloc([]interface{}{flvio.AMFMap{{K: "a", V: 1}}})}\ntype bufRW').replace('"github.com/nareix/joy5/format/flv/flvio")', '"github.com/nareix/joy5/format/flv/flvio")'), 'metadata sent to a player', 'players receive the publisher form of the metadata message')
seed('r09-monotonic', 'R09', [('format/rtmp/msg.go', '''		csid = 5
	}
	return c.writeMsg(csid, message{''', '''		csid = 5
	}
	// timestamps never go backwards on a connection
	if tag.Time != 0 && tag.Time < c.lasttagtime {
		tag.Time = c.lasttagtime
	}
	c.lasttagtime = tag.Time
	return c.writeMsg(csid, message{'''), ('format/rtmp/conn.go', '	lastcmd *command\n', '	lastcmd *command\n\n	lasttagtime uint32\n')], 'format/rtmp', P + '''type bufRW struct{ *nconn }
func (bufRW) Flush() error { return nil }
func TestDemo(t *testing.T) {
	c := &nconn{}
	w := NewConn(&bufRW{c})
	w.WriteTag(flvio.Tag{Type: flvio.TAG_VIDEO, FrameType: 1, VideoFormat: 7, AVCPacketType: 1, Time: 100})
	w.WriteTag(flvio.Tag{Type: flvio.TAG_AUDIO, SoundFormat: 10, AACPacketType: 1, Time: 90})
	r := NewConn(&bufRW{&nconn{Reader: &c.out}})
	r.ReadTag()
	g, err := r.ReadTag()
	if err != nil || g.Time != 90 { t.Fatal(err, g.Time) }
}
''', 'audio written with an earlier time than the video before it', 'its timestamp is changed')
seed('r09-audio-config-once', 'R09', [('format/flv/flv.go', '''	case av.AACDecoderConfig:
		tag := NewAACTag()
''', '''	case av.AACDecoderConfig:
		if publishing && len(pkt.Data) < 2 {
			return
		}
		tag := NewAACTag()
'''), ('format/flv/flv.go', '''		tag.Time = uint32(flvio.TimeToTs(pkt.Time))
		tag.Data = pkt.Data
		return writeTag(tag)

	case av.H264DecoderConfig:''', '''		if len(pkt.Data) == 0 {
			return
		}
		tag.Time = uint32(flvio.TimeToTs(pkt.Time))
		tag.Data = pkt.Data
		return writeTag(tag)

	case av.H264DecoderConfig:''')], 'format/flv', '''package flv
import ("testing"
"github.com/nareix/joy5/av"
"github.com/nareix/joy5/format/flv/flvio")
func TestDemo(t *testing.T) {
	n := 0
	WritePacket(av.Packet{Type: av.AAC}, func(flvio.Tag) error { n++; return nil }, true)
	if n != 1 { t.Fatal("packet not written") }
}
''', 'an audio packet without payload (as sent to mark silence)', 'it is dropped without an error')

SV, CL = 'format/rtmp/server.go', 'format/rtmp/client.go'
# a pair with deadlines, real time
seed('r10-write-deadline-kept', 'R10', [(SV, '	nc.SetDeadline(time.Time{})\n', '	nc.SetReadDeadline(time.Time{})\n')], 'format/rtmp', P + '''type dl struct { net.Conn; r, w time.Time }
func (d *dl) SetDeadline(t time.Time) error { d.r, d.w = t, t; return d.Conn.SetDeadline(t) }
func (d *dl) SetReadDeadline(t time.Time) error { d.r = t; return d.Conn.SetReadDeadline(t) }
func (d *dl) SetWriteDeadline(t time.Time) error { d.w = t; return d.Conn.SetWriteDeadline(t) }
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	x := &dl{Conn: b}
	ok := make(chan bool, 1)
	go func() {
		s := NewServer()
		s.HandleConn = func(c *Conn, nc net.Conn) { ok <- x.r.IsZero() && x.w.IsZero(); c.Prepare(StageCommandDone, 0) }
		s.HandleNetConn(x)
	}()
	pu, _ := url.Parse("rtmp://h/app/s")
	go NewClient().FromNetConn(a, pu, PrepareReading)
	if !<-ok { t.Fatal("a deadline is left on an established connection") }
}
''', 'a session that lasts longer than the handshake limit and is written to', 'established players are cut off when the handshake limit has passed')
seed('r10-client-read-only', 'R10', [(CL, '	nc.SetDeadline(time.Now().Add(time.Second * 15))\n', '	nc.SetReadDeadline(time.Now().Add(time.Second * 15))\n')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	a, _ := net.Pipe() // nobody reads
	pu, _ := url.Parse("rtmp://h/app/s")
	done := make(chan error, 1)
	go func() { _, err := NewClient().FromNetConn(a, pu, PrepareReading); done <- err }()
	select {
	case err := <-done:
		if err == nil { t.Fatal("no error") }
	case <-time.After(18*time.Second):
		t.Fatal("still waits")
	}
}
''', 'a server that does not take the bytes of the handshake', 'the client waits for ever')
seed('r10-late-close', 'R10', [(SV, '''		nc.Close()
		return
''', '''		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			nc.Close()
		}
		return
''')], 'format/rtmp', P + '''type quick struct { net.Conn }
func (q quick) SetDeadline(t time.Time) error { if !t.IsZero() { t = time.Now().Add(200*time.Millisecond) }; return q.Conn.SetDeadline(t) }
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	NewServer().HandleNetConn(quick{b})
	a.SetDeadline(time.Now().Add(time.Second))
	if _, err := a.Read(make([]byte, 1)); err != io.EOF { t.Fatal("the connection is left open", err) }
}
''', 'a client that connects and says nothing', 'the timed-out connection is never closed')
seed('r10-raw-reader', 'R10', [(SV, '''	if fn := s.ReplaceRawConn; fn != nil {
		nc = fn(nc)
	}
	rw := &bufReadWriter{
		Reader: bufio.NewReaderSize(nc, BufioSize),
''', '''	br := bufio.NewReaderSize(nc, BufioSize)
	if fn := s.ReplaceRawConn; fn != nil {
		nc = fn(nc)
	}
	rw := &bufReadWriter{
		Reader: br,
''')], 'format/rtmp', P + '''type cnt struct { net.Conn; n *int }
func (q cnt) Read(b []byte) (n int, err error) { n, err = q.Conn.Read(b); *q.n += n; return }
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() { a.Write([]byte{3, 1, 2, 3}); a.Close() }()
	n := 0
	s := NewServer()
	s.ReplaceRawConn = func(nc net.Conn) net.Conn { return cnt{nc, &n} }
	s.HandleNetConn(b)
	if n != 4 { t.Fatal("read past the replaced connection:", n) }
}
''', 'a server with a replaced raw connection that counts or alters what is read', 'what is read goes around the replaced connection')
seed('r10-dial-forever', 'R10', [(CL, '''	ctx, _ := context.WithTimeout(context.Background(), time.Second*15)
''', '''	ctx := context.Background()
	dialer.Timeout = time.Second * 15
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	k := NewClient()
	k.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
		return func(ctx context.Context, network, address string) (net.Conn, error) {
			if _, ok := ctx.Deadline(); !ok { return nil, errors.New("no limit") }
			return nil, errors.New("ok")
		}
	}
	if _, _, err := k.Dial("rtmp://h/app/s", PrepareReading); err == nil || err.Error() != "ok" { t.Fatal(err) }
}
''', 'a dial function of the application that waits for its context', 'dialling through the application never ends')

MS, WR = 'format/rtmp/msg.go', 'format/rtmp/wraprw.go'
PEEK = '''			io.Copy(ioutil.Discard, c.wrapRW.rw)
			c.closeNotify <- true
'''
LV = P + '''type rst struct { net.Conn; fail chan bool }
type one struct { b []byte; err error }
// setup gives the publishing client and what its server sends afterwards
func pubc(t *testing.T, wrap func(net.Conn) net.Conn) (*Conn, net.Conn) {
	a, b := net.Pipe()
	got := make(chan net.Conn, 1)
	go func() {
		s := NewServer()
		s.HandleConn = func(c *Conn, nc net.Conn) { c.Prepare(StageCommandDone, 0); got <- nc; for { if _, err := c.ReadTag(); err != nil { return } } }
		s.HandleNetConn(b)
	}()
	pu, _ := url.Parse("rtmp://h/app/s")
	if wrap != nil { a = wrap(a) }
	c, err := NewClient().FromNetConn(a, pu, PrepareWriting)
	if err != nil { t.Fatal(err) }
	return c, <-got
}
func told(c *Conn) bool {
	select {
	case <-c.CloseNotify(): return true
	case <-time.After(time.Second): return false
	}
}
'''
seed('r11-eof-only', 'R11', [(MS, PEEK, '''			if _, err := io.Copy(ioutil.Discard, c.wrapRW.rw); err == nil {
				c.closeNotify <- true
			}
''')], 'format/rtmp', LV + '''type brk struct { net.Conn }
func (q brk) Read(b []byte) (n int, err error) { n, err = q.Conn.Read(b); if err == io.EOF { err = errors.New("connection reset by peer") }; return }
func TestDemo(t *testing.T) {
	c, nc := pubc(t, func(x net.Conn) net.Conn { return brk{x} })
	nc.Close()
	if !told(c) { t.Fatal("not told that the connection broke") }
}
''', 'a connection that breaks instead of being closed', 'the sending side never learns that its peer left')
seed('r11-server-only', 'R11', [(MS, '	if c.writing() {\n', '	if c.isserver && c.writing() {\n')], 'format/rtmp', LV + '''func TestDemo(t *testing.T) {
	c, nc := pubc(t, nil)
	nc.SetDeadline(time.Now().Add(2*time.Second))
	if _, err := nc.Write(make([]byte, 20000)); err != nil { t.Fatal("the client does not take what its server sends:", err) }
	nc.Close()
	if !told(c) { t.Fatal("not told") }
}
''', 'a publishing client whose server sends acknowledgements for a long time', 'the server blocks, and the client does not learn of its end')
seed('r11-bounded', 'R11', [(MS, '			io.Copy(ioutil.Discard, c.wrapRW.rw)\n', '			io.CopyN(ioutil.Discard, c.wrapRW.rw, 1<<16)\n')], 'format/rtmp', LV + '''func TestDemo(t *testing.T) {
	c, nc := pubc(t, nil)
	nc.SetDeadline(time.Now().Add(2*time.Second))
	for i := 0; i < 100; i++ { if _, err := nc.Write(make([]byte, 1000)); err != nil { t.Fatal(err) } }
	if told(c) { t.Fatal("told although the peer is there") }
}
''', 'a peer that has sent more than 64 KB to a sender in all', 'the sender is told that its peer left while it is there, and takes no more')
seed('r11-parses', 'R11', [(MS, '			io.Copy(ioutil.Discard, c.wrapRW.rw)\n', '''			for {
				if _, err := c.readMsg(); err != nil {
					break
				}
			}
			_ = ioutil.Discard
			_ = io.EOF
''')], 'format/rtmp', LV + '''func TestDemo(t *testing.T) {
	c, nc := pubc(t, nil)
	nc.SetDeadline(time.Now().Add(2*time.Second))
	nc.Write([]byte{2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0})
	nc.Write(bytes.Repeat([]byte{0xff}, 100))
	if told(c) { t.Fatal("told although the peer is there") }
}
''', 'a player that sends messages which cannot be read', 'its session is taken for ended')
seed('r12-header-bytes', 'R12', [(WR, '''		fn(true, b)
''', '''		if n > 1 {
			fn(true, b)
		}
''')], 'format/rtmp', P + '''type rwf struct { io.Reader; io.Writer }
func (rwf) Flush() error { return nil }
func TestDemo(t *testing.T) {
	in := append([]byte{4, 0, 0, 0, 0, 0, 2, 8, 1, 0, 0, 0, 0xaf, 1}, 4, 0, 0, 0, 0, 0, 2, 8, 1, 0, 0, 0, 0xaf, 1)
	c := NewConn(rwf{bytes.NewReader(in), io.Discard})
	var seen []byte
	c.LogChunkDataEvent = func(r bool, b []byte) { seen = append(seen, b...) }
	c.ReadTag(); c.ReadTag()
	if !bytes.Equal(seen, in) { t.Fatal("reported", len(seen), "of", len(in)) }
}
''', 'the hook for chunk data on a reading connection', 'the reported bytes miss the first byte of every chunk')
seed('r12-short-tags', 'R12', [(MS, '''	if c.LogTagEvent != nil {
		c.LogTagEvent(false, tag)
	}
''', '''	if c.LogTagEvent != nil {
		if len(tag.Data) > 64 {
			tag.Data = tag.Data[:64] // enough for a log
		}
		c.LogTagEvent(false, tag)
	}
''')], 'format/rtmp', P + '''type rwf struct { io.Reader; io.Writer }
func (rwf) Flush() error { return nil }
func TestDemo(t *testing.T) {
	var w bytes.Buffer
	c := NewConn(rwf{nil, &w})
	c.LogTagEvent = func(r bool, t flvio.Tag) {}
	c.WriteTag(flvio.Tag{Type: 8, SoundFormat: 10, AACPacketType: 1, Data: make([]byte, 100)})
	r := NewConn(rwf{&w, nil})
	g, err := r.ReadTag()
	if err != nil || len(g.Data) != 100 { t.Fatal(len(g.Data), err) }
}
''', 'the tag hook is set, and a payload is longer than 64 bytes', 'observing a connection cuts off what is sent')
seed('r12-stage-twice', 'R12', [('format/rtmp/cmd.go', '''	if err = c.flushWrite(); err != nil {
		return
	}

	c.Stage = StageDataStart
''', '''	if err = c.flushWrite(); err != nil {
		return
	}

	if c.Publishing {
		c.debugStage(0, false)
	}
	c.Stage = StageDataStart
''')], 'format/rtmp', P + '''func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		s := NewServer()
		s.HandleConn = func(c *Conn, nc net.Conn) { c.Prepare(StageCommandDone, 0); for { if _, err := c.ReadTag(); err != nil { return } } }
		s.HandleNetConn(b)
	}()
	pu, _ := url.Parse("rtmp://h/app/s")
	c, err := NewClient().FromNetConn(a, pu, PrepareWriting)
	if err != nil { t.Fatal(err) }
	var ev []string
	c.LogStageEvent = func(e, u string) { ev = append(ev, e) }
	c.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1}})
	if len(ev) != 1 || ev[0] != "RtmpStageDataStart" { t.Fatal(ev) }
}
''', 'the stage hook on a publishing connection', 'a stage which was passed before is reported again')
