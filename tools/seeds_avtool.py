P = '''package main
import ("testing";"io";"io/ioutil";"time";"fmt";"os";"bytes";"net";"net/url";"sync";"strings";"path/filepath"
"github.com/nareix/joy5/av";"github.com/nareix/joy5/format/flv";"github.com/nareix/joy5/format/rtmp";"github.com/nareix/joy5/codec/h264")
var _ = fmt.Sprint
var _ = url.Parse
var _ sync.Mutex
var _ = strings.Join
var _ = h264.SplitNALUs
var _ = rtmp.NewServer
var _ net.Conn
type sw struct{ io.Writer }
func (sw) Streams() ([]interface{}, error) { return nil, nil }
func file(ps ...av.Packet) []byte {
	var b bytes.Buffer
	m := flv.NewMuxer(sw{&b}); m.WriteFileHeader()
	for _, p := range ps { if err := m.WritePacket(p); err != nil { panic(err) } }
	return b.Bytes()
}
func load(t *testing.T, f string) (l []av.Packet) {
	b, err := ioutil.ReadFile(f); if err != nil { t.Fatal(err) }
	d := flv.NewDemuxer(bytes.NewReader(b))
	for { p, err := d.ReadPacket(); if err == io.EOF { return }; if err != nil { t.Fatal(err) }; l = append(l, p) }
}
func tmp(t *testing.T) string { d, err := ioutil.TempDir("", "demo"); if err != nil { t.Fatal(err) }; t.Cleanup(func() { os.RemoveAll(d) }); return d }
func ms(n int) time.Duration { return time.Duration(n)*time.Millisecond }
func avcc(n ...string) (b []byte) { for _, x := range n { b = append(append(b, 0, 0, 0, byte(len(x))), x...) }; return }
func K(at int, n ...string) av.Packet { return av.Packet{Type: av.H264, IsKeyFrame: true, Time: ms(at), Data: avcc(n...)} }
func I(at int, n ...string) av.Packet { return av.Packet{Type: av.H264, Time: ms(at), Data: avcc(n...)} }
func A(at int, s string) av.Packet { return av.Packet{Type: av.AAC, Time: ms(at), Data: []byte(s)} }
func line(ps []av.Packet) string { var l []string; for _, p := range ps { l = append(l, fmt.Sprintf("%d %v %x", p.Type, p.Time, p.Data)) }; return strings.Join(l, "\\n") }
// a server on a loopback port which collects what is published
type srv struct { mu sync.Mutex; got map[string][]av.Packet; at []time.Time; ended map[string]bool; addr string }
func serve(t *testing.T) *srv {
	l, err := net.Listen("tcp", "127.0.0.1:0"); if err != nil { t.Fatal(err) }
	t.Cleanup(func() { l.Close() })
	v := &srv{got: map[string][]av.Packet{}, ended: map[string]bool{}, addr: l.Addr().String()}
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		defer nc.Close()
		for { p, err := c.ReadPacket()
			v.mu.Lock()
			if err != nil { v.ended[c.URL.Path] = true; v.mu.Unlock(); return }
			v.got[c.URL.Path] = append(v.got[c.URL.Path], p); v.at = append(v.at, time.Now()); v.mu.Unlock() }
	}
	go func() { for { nc, err := l.Accept(); if err != nil { return }; go s.HandleNetConn(nc) } }()
	return v
}
func (v *srv) line(p string) string { v.mu.Lock(); defer v.mu.Unlock(); return line(v.got[p]) }
func free(t *testing.T) string { l, err := net.Listen("tcp", "127.0.0.1:0"); if err != nil { t.Fatal(err) }; defer l.Close(); return l.Addr().String() }
func dial(t *testing.T, addr, path string, pub bool) (*rtmp.Conn, net.Conn, error) {
	var nc net.Conn; var err error
	for i := 0; i < 200; i++ { if nc, err = net.Dial("tcp", addr); err == nil { break }; time.Sleep(ms(20)) }
	if err != nil { t.Fatal(err) }
	nc.SetDeadline(time.Now().Add(20*time.Second))
	u, _ := url.Parse("rtmp://" + addr + path)
	f := rtmp.PrepareReading
	if pub { f = rtmp.PrepareWriting }
	c, err := rtmp.NewClient().FromNetConn(nc, u, f)
	return c, nc, err
}
func until(f func() bool) bool { for i := 0; i < 300; i++ { if f() { return true }; time.Sleep(ms(10)) }; return false }
func join(d, f string) string { return filepath.Join(d, f) }
'''
D = 'cmd/avtool'
V = 'cmd/avtool/'
seed('v01-cut-is-end', 'V01', [(V+'conv.go', '			if err == io.EOF {\n', '			if err == io.EOF || err == io.ErrUnexpectedEOF {\n')], D, P + '''func TestDemo(t *testing.T) {
	optDontPrintPkt = true
	d := tmp(t)
	b := file(K(0, "eabc"), A(20, "abcdef"))
	for cut := 5; cut < 12; cut++ {
		ioutil.WriteFile(join(d, "in.flv"), b[:len(b)-cut], 0644)
		if err := doConv(join(d, "in.flv"), join(d, "out.flv")); err == nil { t.Fatalf("a source cut by %d bytes converts without an error", cut) }
		if l := load(t, join(d, "out.flv")); line(l) != line([]av.Packet{K(0, "eabc")}) { t.Fatal(line(l)) }
	}
}''', 'the source ends in the middle of a packet', 'a truncated source looks like a complete conversion')
seed('v01-pace-video-only', 'V01', [(V+'conv.go', '		if re != nil {\n', '		if re != nil && pkt.Type == av.H264 {\n')], D, P + '''func TestDemo(t *testing.T) {
	optDontPrintPkt, optNativeRate = true, true
	d := tmp(t)
	ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a"), A(300, "b"), A(600, "c")), 0644)
	t0 := time.Now()
	if err := doConv(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	if e := time.Since(t0); e < ms(550) { t.Fatal("600 ms of audio took", e) }
}''', 'audio which is not followed by video at its time', 'audio packets run ahead of their times')
seed('v01-remote-rate-once', 'V01', [(V+'conv.go', '		if re == nil && canRe() {\n', '		if re == nil && (canRe() && pkt.IsKeyFrame || optNativeRate) {\n')], D, P + '''func TestDemo(t *testing.T) {
	optDontPrintPkt = true
	d := tmp(t); s := serve(t)
	ioutil.WriteFile(join(d, "in.flv"), file(K(0, "eabc"), I(0, "Aabc"), I(400, "Aabd"), I(800, "Aabe")), 0644)
	t0 := time.Now()
	if err := doConv(join(d, "in.flv"), "rtmp://" + s.addr + "/app/x"); err != nil { t.Fatal(err) }
	if e := time.Since(t0); e < ms(700) { t.Fatal("800 ms sent within", e) }
}''', 'no key frame after the first packet sent to a server', 'packets are sent to a server without pacing')
seed('v01-writer-per-codec', 'V01', [(V+'conv.go', '			if dst != "" && fw == nil {\n', '			if dst != "" && fw == nil && pkt.Type != av.Metadata {\n')], D, P + '''func TestDemo(t *testing.T) {
	optDontPrintPkt = true
	d := tmp(t)
	m := av.Packet{Type: av.Metadata, Data: []byte{2, 0, 10, 'o', 'n', 'M', 'e', 't', 'a', 'D', 'a', 't', 'a', 3, 0, 1, 'k', 0, 0x40, 1, 0, 0, 0, 0, 0, 0, 0, 0, 9}}
	ioutil.WriteFile(join(d, "in.flv"), file(m, K(0, "eabc"), m, A(0, "b")), 0644)
	want := load(t, join(d, "in.flv"))
	if err := doConv(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	if l := load(t, join(d, "out.flv")); line(l) != line(want) { t.Fatal(line(l)) }
}''', 'metadata before the first media packet', 'leading metadata is lost')
seed('v02-first-config', 'V02', [(V+'seqhdr.go', '			h264seqhdr = h\n', '			if h264seqhdr == nil {\n				h264seqhdr = h\n			}\n')], D, P + '''func conf(pps byte) av.Packet {
	s := []byte{0x67, 66, 192, 30, 0xd9, 0x11, 0x80}
	b := append([]byte{1, 66, 192, 30, 0xff, 0xe1, 0, byte(len(s))}, s...)
	return av.Packet{Type: av.H264DecoderConfig, Data: append(b, 1, 0, 2, 0x68, pps)}
}
func TestDemo(t *testing.T) {
	d := tmp(t)
	ioutil.WriteFile(join(d, "in.flv"), file(conf(0xce), K(0, "eabc"), conf(0xcf), K(40, "eabd")), 0644)
	if err := doMoveH264SeqhdrToKeyFrame(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	l := load(t, join(d, "out.flv"))
	if len(l) != 2 || !bytes.Contains(l[0].Data, []byte{0x68, 0xce}) || !bytes.Contains(l[1].Data, []byte{0x68, 0xcf}) { t.Fatal(line(l)) }
}''', 'a second configuration later in the file', 'key frames after a change carry the old parameter sets')
seed('v02-config-once', 'V02', [(V+'seqhdr.go', '''				data := h264.JoinNALUsAnnexb(nalus)
				pkt.Data = data
''', '''				pkt.Data = h264.JoinNALUsAnnexb(nalus)
				h264seqhdr = nil
''')], D, P + '''func TestDemo(t *testing.T) {
	s := []byte{0x67, 66, 192, 30, 0xd9, 0x11, 0x80}
	b := append([]byte{1, 66, 192, 30, 0xff, 0xe1, 0, byte(len(s))}, s...)
	c := av.Packet{Type: av.H264DecoderConfig, Data: append(b, 1, 0, 2, 0x68, 0xce)}
	d := tmp(t)
	ioutil.WriteFile(join(d, "in.flv"), file(c, K(0, "eabc"), K(40, "eabd")), 0644)
	if err := doMoveH264SeqhdrToKeyFrame(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	l := load(t, join(d, "out.flv"))
	if len(l) != 2 || !bytes.Contains(l[0].Data, s) || !bytes.Contains(l[1].Data, s) { t.Fatal(line(l)) }
}''', 'a second key frame after a configuration', 'only the first key frame carries the parameter sets')
seed('v02-drop-aud', 'V02', [(V+'avcc2annexb.go', '''			nalus, _ := h264.SplitNALUs(pkt.Data)
''', '''			nalus, _ := h264.SplitNALUs(pkt.Data)
			if len(nalus) > 1 && nalus[0][0]&0x1f == 9 {
				nalus = nalus[1:] // the delimiter is implied
			}
''')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t)
	ioutil.WriteFile(join(d, "in.flv"), file(K(0, "\\x09\\xf0", "eabc"), I(40, "Aabd")), 0644)
	if err := doAvcc2Annexb(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	l := load(t, join(d, "out.flv"))
	if len(l) != 2 || !bytes.Contains(l[0].Data, []byte("\\x01\\x09\\xf0\\x00")) { t.Fatal(line(l)) }
}''', 'a frame which begins with an access unit delimiter', 'a unit of the frame is lost')
seed('v02-inter-untouched', 'V02', [(V+'seqhdr.go', '''				pktnalus, _ := h264.SplitNALUs(pkt.Data)
				data := h264.JoinNALUsAnnexb(pktnalus)
				pkt.Data = data
''', '''				if pktnalus, _ := h264.SplitNALUs(pkt.Data); len(pktnalus) == 1 {
					pkt.Data = h264.JoinNALUsAnnexb(pktnalus)
				}
''')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t)
	ioutil.WriteFile(join(d, "in.flv"), file(K(0, "eabc"), I(40, "\\x06abd", "Aabe")), 0644)
	if err := doMoveH264SeqhdrToKeyFrame(join(d, "in.flv"), join(d, "out.flv")); err != nil { t.Fatal(err) }
	l := load(t, join(d, "out.flv"))
	if len(l) != 2 || !bytes.Contains(l[1].Data, []byte("\\x00\\x00\\x01\\x06abd\\x00")) { t.Fatal(line(l)) }
}''', 'an inter frame of several units', 'it stays in the length-prefixed form')
seed('v03-shared-writer', 'V03', [(V+'forwardrtmp.go', '''		var err error
		var w *format.Writer
		if w, err''', '''		var err error
		if w, err'''), (V+'forwardrtmp.go', '	s.HandleConn = func(', '	var w *format.Writer\n\n	s.HandleConn = func(')], D, P + '''func TestDemo(t *testing.T) {
	s := serve(t); a := free(t)
	go doForwardRtmp(a)
	c1, n1, err := dial(t, a, "/app/x?fwd=rtmp://" + s.addr + "/app/one", true); if err != nil { t.Fatal(err) }
	defer n1.Close()
	time.Sleep(ms(300))
	c2, n2, err := dial(t, a, "/app/x?fwd=rtmp://" + s.addr + "/app/two", true); if err != nil { t.Fatal(err) }
	defer n2.Close()
	time.Sleep(ms(300))
	c1.WritePacket(A(0, "one")); c1.Flush(); c2.WritePacket(A(0, "two")); c2.Flush()
	if !until(func() bool { return s.line("/app/one") == line([]av.Packet{A(0, "one")}) && s.line("/app/two") == line([]av.Packet{A(0, "two")}) }) { t.Fatal(s.line("/app/one"), s.line("/app/two")) }
}''', 'a second publisher comes while the first one is sending', 'packets of one publisher reach the target of another')
seed('v03-close-late', 'V03', [(V+'forwardrtmp.go', '		defer nc.Close()\n\n		if !c.Publishing', '		if !c.Publishing'), (V+'forwardrtmp.go', '		c2 := w.Rtmp\n', '		defer nc.Close()\n		c2 := w.Rtmp\n')], D, P + '''func TestDemo(t *testing.T) {
	a := free(t)
	go doForwardRtmp(a)
	t0 := time.Now()
	_, n, err := dial(t, a, "/app/x?fwd=foo://x/y", true)
	if time.Since(t0) > 5*time.Second { t.Fatal("the client is not hung up on:", err) }
	if err != nil { return }
	defer n.Close()
	n.SetReadDeadline(time.Now().Add(5*time.Second))
	_, err = io.Copy(ioutil.Discard, n)
	if err != nil { t.Fatal("the client is not hung up on:", err) }
}''', 'a client whose target cannot be opened', 'its connection stays open for ever')
seed('v03-inline-session', 'V03', [(V+'forwardrtmp.go', '		go s.HandleNetConn(nc)\n', '		s.HandleNetConn(nc)\n')], D, P + '''func TestDemo(t *testing.T) {
	s := serve(t); a := free(t)
	go doForwardRtmp(a)
	_, n1, err := dial(t, a, "/app/x?fwd=rtmp://" + s.addr + "/app/one", true); if err != nil { t.Fatal(err) }
	defer n1.Close()
	var c2 *rtmp.Conn; done := make(chan bool, 1)
	go func() { c2, _, _ = dial(t, a, "/app/x?fwd=rtmp://" + s.addr + "/app/two", true); done <- true }()
	select { case <-done: case <-time.After(4*time.Second): t.Fatal("the second publisher is not served") }
	c2.WritePacket(A(0, "two")); c2.Flush()
	if !until(func() bool { return s.line("/app/two") == line([]av.Packet{A(0, "two")}) }) { t.Fatal(s.line("/app/two")) }
}''', 'a second client while a publisher is connected', 'one session at a time is served')
seed('v04-shared-start', 'V04', [(V+'benchrtmp.go', '			start := time.Now()\n', '			if start.IsZero() {\n				start = time.Now()\n			}\n'), (V+'benchrtmp.go', '	var pubN, subN int64\n', '	var pubN, subN int64\n	var start time.Time\n')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t); a := free(t)
	ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a"), A(700, "b"), A(1400, "c")), 0644)
	go doBenchRtmp(a, join(d, "in.flv"))
	c, n, err := dial(t, a, "/app/x", false); if err != nil { t.Fatal(err) }
	c.ReadPacket()
	n.Close()
	time.Sleep(ms(1600))
	c, n, err = dial(t, a, "/app/x", false); if err != nil { t.Fatal(err) }
	defer n.Close()
	t0 := time.Now()
	for i := 0; i < 3; i++ { if _, err := c.ReadPacket(); err != nil { t.Fatal(err) } }
	if e := time.Since(t0); e < ms(500) { t.Fatal("the player got everything within", e) }
}''', 'a player which joins after another one', 'later players are sent the file too fast')
seed('v04-delta-sleep', 'V04', [(V+'benchrtmp.go', '''				time.Sleep(pkt.Time - time.Now().Sub(start))
''', '''				time.Sleep(pkt.Time - last)
				last = pkt.Time
'''), (V+'benchrtmp.go', '			start := time.Now()\n', '			var last time.Duration\n')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t); a := free(t)
	ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a"), A(1000, "b"), A(10, "c"), A(1000, "d"), A(1010, "e")), 0644)
	go doBenchRtmp(a, join(d, "in.flv"))
	c, n, err := dial(t, a, "/app/x", false); if err != nil { t.Fatal(err) }
	defer n.Close()
	t0 := time.Now()
	for i := 0; i < 5; i++ { if _, err := c.ReadPacket(); err != nil { t.Fatal(err) } }
	if e := time.Since(t0); e > ms(1500) { t.Fatal("packets of 1 s took", e) }
}''', 'a packet with a time before that of its predecessor', 'everything after it is late')
seed('v04-pub-count', 'V04', [(V+'benchrtmp.go', '''		atomic.AddInt64(p, 1)
		defer atomic.AddInt64(p, -1)

		if c.Publishing {
			for {
				if _, err := c.ReadPacket(); err != nil {
					return
				}
			}
''', '''		atomic.AddInt64(p, 1)
		defer func() { atomic.AddInt64(p, -1) }()

		if c.Publishing {
			p = &subN
			for {
				if _, err := c.ReadPacket(); err != nil {
					return
				}
			}
''')], D, P + '''func TestDemo(t *testing.T) {
	a := free(t); d := tmp(t)
	o, _ := os.Create(join(d, "out")); old := os.Stdout; os.Stdout = o
	defer func() { os.Stdout = old }()
	go doBenchRtmp(a, "")
	_, n, err := dial(t, a, "/app/x", true); if err != nil { t.Fatal(err) }
	time.Sleep(ms(200)); n.Close()
	time.Sleep(ms(2500))
	b, _ := ioutil.ReadFile(join(d, "out"))
	if !strings.HasSuffix(string(b), "sub 0 pub 0\\n") { t.Fatalf("%s", b) }
}''', 'a publisher which leaves', 'the printed counts go wrong for good')
seed('v05-load-store', 'V05', [(V+'statsec.go', '				pkts := atomic.SwapInt64(&statPkt.n, 0)\n				fmt.Println("StatSec", "pkts", pkts)\n', '				fmt.Println("StatSec", "pkts", atomic.LoadInt64(&statPkt.n))\n				atomic.StoreInt64(&statPkt.n, 0)\n')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t)
	o, _ := os.Create(join(d, "out")); old := os.Stdout; os.Stdout = o
	defer func() { os.Stdout = old }()
	f := startStatSec(newFormatOpener(), newFormatOpener())
	var mu sync.Mutex
	total := int64(0)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := int64(0)
			for t0 := time.Now(); time.Since(t0) < ms(8500); { for k := 0; k < 1000; k++ { f(av.Packet{}); n++ } }
			mu.Lock(); total += n; mu.Unlock()
		}()
	}
	wg.Wait()
	time.Sleep(ms(2300))
	b, _ := ioutil.ReadFile(join(d, "out"))
	sum := int64(0)
	for _, l := range strings.Split(string(b), "\\n") { var n int64; if _, err := fmt.Sscanf(l, "StatSec pkts %d", &n); err == nil { sum += n } }
	if sum != total { t.Fatalf("%d packets counted, %d printed", total, sum) }
}
''', 'a packet is read between the two steps of printing', 'packets are missing from the numbers printed')
seed('v05-idle-lines', 'V05', [(V+'statsec.go', '''				for _, s := range ss {
''', '''				if pkts == 0 {
					for _, s := range ss {
						atomic.StoreInt64(&s.tx, 0)
						atomic.StoreInt64(&s.rx, 0)
					}
					continue // nothing happens
				}
				for _, s := range ss {
''')], D, P + '''func TestDemo(t *testing.T) {
	d := tmp(t); s := serve(t)
	o, _ := os.Create(join(d, "out")); old := os.Stdout; os.Stdout = o
	optDontPrintPkt, optPrintStatSec = true, true
	ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a"), A(10, "a"), A(1500, strings.Repeat("b", 100000))), 0644)
	err := doConv(join(d, "in.flv"), "rtmp://" + s.addr + "/app/x")
	time.Sleep(ms(2300))
	os.Stdout = old
	if err != nil { t.Fatal(err) }
	b, _ := ioutil.ReadFile(join(d, "out"))
	sum := 0
	for _, l := range strings.Split(string(b), "\\n") { var n, m int; if _, err := fmt.Sscanf(l, "StatSec output0 tx %d rx %d", &n, &m); err == nil { sum += n } }
	if sum < 100000 { t.Fatalf("%d bytes counted\\n%s", sum, b) }
}''', 'bytes pass in a second in which no packet is read', 'they are missing from the numbers printed')
seed('v05-partial-write', 'V05', [(V+'statsec.go', '''			fn(n)
		}
	}
	return n, err
}

func (sc *StatConn) Write''', '''			fn(len(b))
		}
	}
	return n, err
}

func (sc *StatConn) Write''')], D, P + '''func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	n := 0
	c := &StatConn{Conn: a, OnRead: func(k int) { n += k }}
	go b.Write([]byte("abc"))
	c.Read(make([]byte, 10))
	if n != 3 { t.Fatal(n) }
}''', 'a read that returns less than there is room for', 'more bytes are counted than were received')
# the tool as a process: the test runs itself as the tool
Q = P + '''
func child() { if s := os.Getenv("DEMO_ARGS"); s != "" { os.Args = append([]string{"avtool"}, strings.Split(s, "\\x1f")...); main(); os.Exit(0) } }
func cmdOf(dir string, args ...string) *exec.Cmd {
	c := exec.Command(os.Args[0], "-test.run=TestDemo"); c.Dir = dir
	c.Env = append(os.Environ(), "DEMO_ARGS=" + strings.Join(args, "\\x1f")); return c
}
func tool(dir string, args ...string) (int, string) {
	c := cmdOf(dir, args...); b, err := c.CombinedOutput()
	if x, ok := err.(*exec.ExitError); ok { return x.ExitCode(), string(b) }
	if err != nil { panic(err) }
	return 0, string(b)
}
'''.replace('PLACE', '')
Q = Q.replace('"path/filepath"\n', '"path/filepath";"os/exec"\n', 1)
seed('v06-first-list-only', 'V06', [(V+'main.go', '''			*b = true
		}
''', '''			*b = true
		}
		if len(a) > 0 {
			return true
		}
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	d := tmp(t); ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a")), 0644)
	if rc, o := tool(d, "conv", "in.flv", "--dflv", "filehdr"); rc != 0 || !strings.Contains(o, "FLVHeader") { t.Fatal(rc, o) }
	if rc, o := tool(d, "conv", "in.flv", "--dflv", "filehdr", "--drtmp", "net"); rc != 0 || !strings.Contains(o, "FLVHeader") { t.Fatal(rc, o) }
	if rc, o := tool(d, "conv", "in.flv", "--dflv", "nonsense", "--drtmp", "net"); rc == 0 { t.Fatal(rc, o) }
}''', 'options of both kinds at once', 'the second debug option is ignored')
seed('v06-exactly-two', 'V06', [(V+'main.go', '''			dst := ""
			if len(args) >= 2 {
''', '''			dst := ""
			if len(args) == 2 {
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	d := tmp(t); ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a")), 0644)
	if rc, o := tool(d, "conv", "in.flv", "out.flv", "surplus"); rc != 0 { return } else if _, err := os.Stat(join(d, "out.flv")); err != nil { t.Fatal(err, o) }
}''', 'a surplus argument', 'the conversion exits with status 0 and writes nothing')
seed('v06-dump-length', 'V06', [(V+'format.go', '''			fmt.Print(hex.Dump(b))
''', '''			if len(b) > 1 {
				fmt.Print(hex.Dump(b))
			}
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	s := serve(t); d := tmp(t); ioutil.WriteFile(join(d, "in.flv"), file(A(0, "a"), A(10, "b")), 0644)
	rc, o := tool(d, "conv", "in.flv", "rtmp://" + s.addr + "/app/x", "--drtmp", "chunk")
	if rc != 0 { t.Fatal(rc, o) }
	want, got := 0, 0
	for _, l := range strings.Split(o, "\\n") { n := 0; if _, err := fmt.Sscanf(l, "> %d", &n); err == nil { want += n }
		if i := strings.IndexByte(l, '|'); i > 8 { got += len(strings.Fields(l[8:i])) } }
	if want == 0 || want != got { t.Fatal(want, got, o) }
}''', 'a write of a single byte', 'the byte dump is not complete')
seed('v06-header-video-only', 'V06', [(V+'format.go', '''			if flags&flvio.FILE_HAS_VIDEO != 0 {
''', '''			if flags == flvio.FILE_HAS_AUDIO|flvio.FILE_HAS_VIDEO {
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	d := tmp(t); b := file(I(0, "a"))
	for f, w := range map[byte]string{0: "", 1: "V", 4: "A", 5: "AV"} {
		b[4] = f
		ioutil.WriteFile(join(d, "in.flv"), b, 0644)
		if rc, o := tool(d, "conv", "in.flv", "--dflv", "filehdr"); rc != 0 || !strings.Contains(o, "FLVHeader AVFlags " + w + "\\n") { t.Fatal(f, rc, o) }
	}
}''', 'a file with video only', 'the header is reported as having no video')
seed('v06-missing-is-empty', 'V06', [(V+'main.go', '''			if err := fn(cmd, args); err != nil {
				log.Println(err)
				os.Exit(1)
			}
''', '''			if err := fn(cmd, args); err != nil {
				log.Println(err)
				if _, ok := err.(*os.PathError); !ok || len(args) > 1 {
					os.Exit(1)
				}
			}
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	d := tmp(t)
	if rc, o := tool(d, "conv", "none.flv", "x.flv"); rc == 0 { t.Fatal(rc, o) }
	if rc, o := tool(d, "conv", "none.flv"); rc == 0 { t.Fatal(rc, o) }
}''', 'one argument and a file that is not there', 'the exit status says success')
seed('v06-stage-needs-chunk', 'V06', [(V+'format.go', '''			fmt.Print(hex.Dump(b))
		}
	}
	if debugRtmpStage {
''', '''			fmt.Print(hex.Dump(b))
		}
	} else if debugRtmpStage {
''')], D, Q + '''func TestDemo(t *testing.T) {
	child()
	for _, o := range []string{"stage", "chunk,stage", "stage,chunk", "chunk"} {
		d := tmp(t); a := free(t)
		f, err := os.Create(join(d, "out")); if err != nil { t.Fatal(err) }
		c := cmdOf(d, "benchrtmp", a, "--drtmp", o); c.Stdout = f
		if err := c.Start(); err != nil { t.Fatal(err) }
		_, nc, err := dial(t, a, "/app/x", true)
		time.Sleep(ms(200)); c.Process.Kill(); c.Wait(); f.Close()
		if err != nil { t.Fatal(err) }
		nc.Close()
		b, _ := ioutil.ReadFile(join(d, "out"))
		if strings.Contains(string(b), "RtmpStage") != strings.Contains(o, "stage") { t.Fatal(o, string(b)) }
	}
}''', 'both debug options at once', 'the stages are not reported')
