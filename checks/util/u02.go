package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/h264model"
	"joyverif/mc"
	"joyverif/memio"
)

type av0 struct {
	streams []interface{}
	err     error
}

func (a av0) Streams() ([]interface{}, error) { return a.streams, a.err }

// scratch directories live below the run's own work directory
func scratch(c *mc.Ctx) (dir string, done func()) {
	base := os.Getenv("JOYVERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := ioutil.TempDir(base, "u02-")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func listing(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := ioutil.ReadFile(p)
			out = append(out, fmt.Sprintf("%s=%x", p[len(dir):], b))
		}
		return nil
	})
	return strings.Join(out, ";")
}

var errDial = errors.New("no such host here")

type dialed struct{ network, addr string }

// hooked is an opener whose every connection goes to peer; a nil peer refuses.
func hooked(peer func() net.Conn, log *[]dialed, count map[string]int) *format.URLOpener {
	return &format.URLOpener{
		NewDialFunc: func() func(ctx context.Context, network, address string) (net.Conn, error) {
			return func(ctx context.Context, network, address string) (net.Conn, error) {
				*log = append(*log, dialed{network, address})
				if peer == nil {
					return nil, errDial
				}
				return peer(), nil
			}
		},
		OnNewFlvDemuxer: func(*flv.Demuxer) { count["flvdemuxer"]++ },
		OnNewFlvMuxer:   func(*flv.Muxer) { count["flvmuxer"]++ },
		OnNewRtmpClient: func(*rtmp.Client) { count["rtmpclient"]++ },
		OnNewRtmpConn:   func(*rtmp.Conn) { count["rtmpconn"]++ },
	}
}

type transport struct {
	urls   []string
	body   []byte
	closed int
	err    error
}

type body struct {
	io.Reader
	t *transport
}

func (b body) Close() error { b.t.closed++; return nil }

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.urls = append(t.urls, r.Method+" "+r.URL.String())
	if t.err != nil {
		return nil, t.err
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"video/x-flv"}}, Body: body{bytes.NewReader(t.body), t}, Request: r}, nil
}

// ---- packets ----

func cfgV() []byte {
	sps, pps := h264model.Basic(0, 4, 3).NAL(), h264model.PPS(0, 0)
	b := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, 0, byte(len(sps))}
	b = append(append(b, sps...), 1, 0, byte(len(pps)))
	return append(b, pps...)
}

func cfgH264() *h264.Codec {
	c, err := h264.FromDecoderConfig(cfgV())
	if err != nil {
		panic(err)
	}
	return c
}

func cfgA() *aac.Codec {
	c, err := aac.FromMPEG4AudioConfigBytes([]byte{0x12, 0x10})
	if err != nil {
		panic(err)
	}
	return c
}

var kinds = []string{"key", "inter", "aac", "vcfg", "acfg", "big"}

func packet(k, i int) av.Packet {
	t := time.Duration(i*20) * time.Millisecond
	fill := func(n int) []byte {
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(i*31 + j + 1)
		}
		return b
	}
	switch k {
	case 0:
		return av.Packet{Type: av.H264, IsKeyFrame: true, Time: t, CTime: 40 * time.Millisecond, Data: fill(7)}
	case 1:
		return av.Packet{Type: av.H264, Time: t, Data: fill(3)}
	case 2:
		return av.Packet{Type: av.AAC, Time: t, Data: fill(5)}
	case 3:
		return av.Packet{Type: av.H264DecoderConfig, Data: cfgV()}
	case 4:
		return av.Packet{Type: av.AACDecoderConfig, Data: []byte{0x12, 0x10}}
	}
	return av.Packet{Type: av.H264, IsKeyFrame: true, Time: t, Data: fill(70000)}
}

func same(a, b av.Packet) bool {
	if a.Type == av.H264DecoderConfig || a.Type == av.AACDecoderConfig {
		a.Time, b.Time = 0, 0 // configurations carry no time
	}
	return a.Type == b.Type && a.Time == b.Time && a.CTime == b.CTime && a.IsKeyFrame == b.IsKeyFrame && bytes.Equal(a.Data, b.Data)
}

func flvFile(pkts []av.Packet) []byte {
	var b bytes.Buffer
	m := flv.NewMuxer(sw{&b})
	if err := m.WriteFileHeader(); err != nil {
		panic(err)
	}
	for _, p := range pkts {
		if err := m.WritePacket(p); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

type sw struct{ io.Writer }

func (sw) Streams() ([]interface{}, error) { return nil, nil }

func readBack(c *mc.Ctx, what string, r av.PacketReader, want []av.Packet) {
	for i, w := range want {
		p, err := r.ReadPacket()
		if err != nil {
			c.FailK("readback", "%s: packet %d of %d: %v", what, i, len(want), err)
		}
		if !same(p, w) {
			c.FailK("readback", "%s: packet %d is %v %x, want %v %x", what, i, p, head(p.Data), w, head(w.Data))
		}
		c.Step(1)
	}
	if p, err := r.ReadPacket(); err == nil {
		c.FailK("readback", "%s: a packet more than written: %v", what, p)
	} else if len(want) > 0 && err != io.EOF {
		c.FailK("readback", "%s: ends with %v", what, err)
	}
}

func head(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

// ---- dispatch ----

var u02schemes = []string{"", "file://", "http://h.test", "https://h.test:444", "rtmp://h.test", "rtmps://h.test", "rtmp://h.test:99", "rtmps://h.test:99", "ftp://h.test", "foo://", "RTMP://h.test", "udp://h.test:1", "FILE://", "rtmpx://h.test", "httpx://h.test"}
var u02exts = []string{".flv", ".mp4", ".txt", "", ".flvx", ".", ".flv.bak", ".mp4/", ".ts"}

// dispatchRun is one address, opened or created, with the answer that the
// address calls for.
func dispatchRun(c *mc.Ctx, write bool) {
	dir, done := scratch(c)
	defer done()
	scheme := u02schemes[c.Choose(len(u02schemes))]
	ext := u02exts[c.Choose(len(u02exts))]
	state := c.Choose(3) // absent, there, below a missing directory
	query := c.Choose(2) == 1
	streams := 0
	if write {
		streams = c.Choose(4) // none, H264+AAC, unsupported codec, an error
	}
	path := filepath.Join(dir, "a") + ext
	if state == 2 {
		path = filepath.Join(dir, "no", "a") + ext
	}
	flvPkts := []av.Packet{packet(3, 0), packet(0, 1), packet(2, 2)}
	old := flvFile(flvPkts)
	if state == 1 {
		if err := ioutil.WriteFile(strings.TrimSuffix(path, "/"), old, 0600); err != nil {
			panic(err)
		}
	}
	addr := scheme + path
	if query {
		addr += "?x=1.flv"
	}
	low := strings.ToLower(scheme)
	var streamer av.Streamer
	switch streams {
	case 1:
		streamer = av0{streams: []interface{}{cfgH264(), cfgA()}}
	case 2:
		streamer = av0{streams: []interface{}{42}}
	case 3:
		streamer = av0{err: errors.New("streams unknown")}
	}
	before := listing(dir)

	var dials []dialed
	var ends []*memio.Conn
	count := map[string]int{}
	o := hooked(func() net.Conn {
		a, b := memio.Pair()
		ends = append(ends, b)
		b.Close() // the peer hangs up at once
		return a
	}, &dials, count)
	tr := &transport{body: old}
	http.DefaultTransport = tr

	op := "open"
	if write {
		op = "create"
	}
	c.Logf("%s %s (file %v, streamer %d)", op, strings.Replace(addr, dir, "DIR", 1), []string{"absent", "present", "in a missing directory"}[state], streams)
	var r *format.Reader
	var w *format.Writer
	var err error
	if write {
		w, err = o.Create(addr, streamer)
		if (w == nil) == (err == nil) {
			c.FailK("result", "writer %v together with error %v", w, err)
		}
	} else {
		r, err = o.Open(addr)
		if (r == nil) == (err == nil) {
			c.FailK("result", "reader %v together with error %v", r, err)
		}
	}
	c.Step(1)
	local := low == "" || low == "file://"
	rtmpAddr := map[string]string{"rtmp://h.test": "h.test:1935", "rtmps://h.test": "h.test:443", "rtmp://h.test:99": "h.test:99", "rtmps://h.test:99": "h.test:99"}[low]
	wantFile := false
	switch {
	case rtmpAddr != "":
		if len(dials) != 1 || dials[0] != (dialed{"tcp", rtmpAddr}) {
			c.FailK("dispatch", "dialled %v, want tcp %s once (error %v)", dials, rtmpAddr, err)
		}
		if err == nil {
			c.FailK("dispatch", "no error although the peer hung up")
		}
		if count["rtmpclient"] != 1 {
			c.FailK("hook", "hooks called: %v", count)
		}
		c.Outcome("rtmp")
	case low == "http://h.test" || low == "https://h.test:444":
		if len(dials) != 0 {
			c.FailK("dispatch", "dialled %v", dials)
		}
		if write || ext != ".flv" {
			if err == nil {
				c.FailK("unsupported", "accepted")
			}
			c.Outcome("http rejected")
			break
		}
		if err != nil {
			c.FailK("dispatch", "failed: %v", err)
		}
		if len(tr.urls) != 1 || tr.urls[0] != "GET "+addr {
			c.FailK("dispatch", "requested %v, want GET %s", tr.urls, addr)
		}
		if count["flvdemuxer"] != 1 || r.Flv == nil || !r.IsRemote {
			c.FailK("hook", "hooks %v, reader %+v", count, r)
		}
		readBack(c, "http", r, flvPkts)
		if cerr := r.Close(); cerr != nil || tr.closed == 0 {
			c.FailK("close", "close: error %v, response body closed %d times", cerr, tr.closed)
		}
		c.Outcome("http flv")
	case !local || (ext != ".flv" && !(ext == ".mp4" && write)):
		if err == nil {
			c.FailK("unsupported", "accepted")
		}
		if len(dials) != 0 || len(tr.urls) != 0 {
			c.FailK("dispatch", "contacted %v %v", dials, tr.urls)
		}
		c.Outcome("rejected")
	case state == 2 || (!write && state == 0):
		if err == nil {
			c.FailK("missing", "no error for a file that is not there")
		}
		c.Outcome("missing")
	case !write:
		if err != nil {
			c.FailK("dispatch", "failed: %v", err)
		}
		if count["flvdemuxer"] != 1 || r.Flv == nil || r.IsRemote {
			c.FailK("hook", "hooks %v, reader %+v", count, r)
		}
		readBack(c, "file", r, flvPkts)
		if cerr := r.Close(); cerr != nil {
			c.FailK("close", "close: %v", cerr)
		}
		c.Outcome("file flv")
	default: // created
		if ext == ".mp4" && streams != 1 {
			// an MP4 file needs the streams up front or asks for them later;
			// what matters is that nothing is lost when it says no
			if err == nil {
				if streams == 2 {
					c.FailK("unsupported", "a codec the container cannot hold was accepted")
				}
				w.Close()
				wantFile = true
			}
			c.Outcome("mp4 without streams", err == nil)
			break
		}
		if err != nil {
			c.FailK("dispatch", "failed: %v", err)
		}
		wantFile = true
		for _, p := range flvPkts[1:] {
			if werr := w.WritePacket(p); werr != nil {
				c.FailK("write", "%v", werr)
			}
		}
		if cerr := w.Close(); cerr != nil {
			c.FailK("close", "%v", cerr)
		}
		b, _ := ioutil.ReadFile(path)
		kind := "?"
		if bytes.HasPrefix(b, []byte("FLV")) {
			kind = ".flv"
		} else if len(b) > 8 && string(b[4:8]) == "mdat" || string(b[4:8]) == "ftyp" {
			kind = ".mp4"
		}
		if kind != ext {
			c.FailK("dispatch", "the file holds %q (%x...), want %q", kind, head(b), ext)
		}
		if ext == ".flv" && count["flvmuxer"] != 1 || w.IsRemote {
			c.FailK("hook", "hooks %v, writer %+v", count, w)
		}
		c.Outcome("created", ext)
	}
	if low != "" && len(tr.urls) > 0 && !strings.HasPrefix(low, "http://") && !strings.HasPrefix(low, "https://") {
		c.FailK("dispatch", "requested %v", tr.urls)
	}
	if after := listing(dir); !wantFile && after != before {
		c.FailK("touched", "files were\n%.300s\nand are\n%.300s", before, after)
	}
	if fds := openFDs(dir); len(fds) > 0 {
		c.FailK("leak", "still open: %v", fds)
	}
}

// openFDs lists the files below dir this process holds open.
func openFDs(dir string) (out []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			out = append(out, strings.TrimPrefix(t, dir))
		}
	}
	return
}

// fileRun writes a packet sequence through an address and reads it back.
func fileRun(c *mc.Ctx, n int) {
	dir, done := scratch(c)
	defer done()
	pre := []string{"", "file://"}[c.Choose(2)]
	existing := c.Choose(2) == 1
	path := filepath.Join(dir, "out.flv")
	if existing { // longer than what is written: it has to go
		ioutil.WriteFile(path, bytes.Repeat([]byte{0x55}, 200000), 0600)
	}
	var pkts []av.Packet
	for i := 0; i < n; i++ {
		k := c.Choose(len(kinds) + 1)
		if k == len(kinds) {
			break
		}
		pkts = append(pkts, packet(k, i))
	}
	c.Logf("%s existing=%v packets %v", pre, existing, pkts)
	var o format.URLOpener
	w, err := o.Create(pre+path, nil)
	if err != nil {
		c.FailK("create", "%v", err)
	}
	for i, p := range pkts {
		if err := w.WritePacket(p); err != nil {
			c.FailK("write", "packet %d: %v", i, err)
		}
	}
	if err := w.Close(); err != nil {
		c.FailK("close", "%v", err)
	}
	r, err := o.Open(pre + path)
	if err != nil {
		c.FailK("open", "%v", err)
	}
	readBack(c, "file", r, pkts)
	if err := r.Close(); err != nil {
		c.FailK("close", "%v", err)
	}
	if fds := openFDs(dir); len(fds) > 0 {
		c.FailK("leak", "still open: %v", fds)
	}
	c.Outcome(len(pkts))
}

// mp4Run writes a packet sequence through an .mp4 address and reads the file.
func mp4Run(c *mc.Ctx, n int) {
	dir, done := scratch(c)
	defer done()
	pre := []string{"", "file://"}[c.Choose(2)]
	path := filepath.Join(dir, "out.mp4")
	if c.Choose(2) == 1 {
		ioutil.WriteFile(path, bytes.Repeat([]byte{0, 0, 0, 8, 'f', 'r', 'e', 'e'}, 30000), 0600)
	}
	var pkts []av.Packet
	for i := 0; i < n; i++ {
		k := c.Choose(5)
		if k == 4 {
			break
		}
		pkts = append(pkts, packet([]int{0, 1, 2, 5}[k], i))
	}
	c.Logf("%s packets %v", pre, pkts)
	var o format.URLOpener
	w, err := o.Create(pre+path, av0{streams: []interface{}{cfgH264(), cfgA()}})
	if err != nil {
		c.FailK("create", "%v", err)
	}
	for i, p := range pkts {
		if err := w.WritePacket(p); err != nil {
			c.FailK("write", "packet %d: %v", i, err)
		}
	}
	if err := w.Close(); err != nil {
		c.FailK("close", "%v", err)
	}
	if fds := openFDs(dir); len(fds) > 0 {
		c.FailK("leak", "still open: %v", fds)
	}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	d := mp4.NewDemuxer(bytes.NewReader(b))
	if l, err := d.Streams(); err != nil || len(l) != 2 {
		c.FailK("readback", "streams %v: %v", l, err)
	}
	// a file starts with its first packet
	for i := range pkts {
		pkts[i].Time -= pkts[0].Time
	}
	readBack(c, "mp4", d, pkts)
	c.Outcome(len(pkts))
}

// rtmpRun sends a packet sequence to an address over a connection to a real
// server, and plays one from it.
func rtmpRun(c *mc.Ctx, n int, write bool) {
	var pkts []av.Packet
	for i := 0; i < n; i++ {
		k := c.Choose(len(kinds) + 1)
		if k == len(kinds) {
			break
		}
		pkts = append(pkts, packet(k, i))
	}
	if !write && len(pkts) == 0 {
		c.Prune() // a server answers with its first packet
	}
	addr := []string{"rtmp://h.test/app/key", "rtmp://h.test:99/app/key?k=v", "rtmps://h.test/app/key"}[c.Choose(3)]
	c.Logf("%s write=%v packets %v", addr, write, pkts)
	got := make(chan []av.Packet, 1)
	path := make(chan string, 1)
	s := rtmp.NewServer()
	s.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		path <- fmt.Sprintf("%v %v", sc.Publishing, sc.URL.RequestURI())
		if write {
			var out []av.Packet
			for {
				p, err := sc.ReadPacket()
				if err != nil {
					break
				}
				out = append(out, p)
			}
			nc.Close()
			got <- out
			return
		}
		for _, p := range pkts {
			if err := sc.WritePacket(p); err != nil {
				break
			}
		}
		sc.Flush()
		nc.Close()
		got <- nil
	}
	var dials []dialed
	count := map[string]int{}
	o := hooked(func() net.Conn {
		a, b := memio.Pair()
		var nc net.Conn = b
		if strings.HasPrefix(addr, "rtmps") {
			nc = tls.Server(b, tlsConfig)
		}
		go s.HandleNetConn(nc)
		return a
	}, &dials, count)
	wantPath := fmt.Sprintf("%v %s", write, addr[strings.Index(addr, "/app"):])
	if write {
		w, err := o.Create(addr, nil)
		if err != nil {
			c.FailK("create", "%v", err)
		}
		if !w.IsRemote || w.Rtmp == nil || w.NetConn == nil || count["rtmpconn"] != 1 {
			c.FailK("hook", "hooks %v, writer %+v", count, w)
		}
		for i, p := range pkts {
			if err := w.WritePacket(p); err != nil {
				c.FailK("write", "packet %d: %v", i, err)
			}
		}
		if err := w.Close(); err != nil {
			c.FailK("close", "%v", err)
		}
		out := <-got
		if len(out) != len(pkts) {
			c.FailK("lost", "%d of %d packets arrived after the close", len(out), len(pkts))
		}
		for i := range out {
			if !same(out[i], pkts[i]) {
				c.FailK("readback", "packet %d is %v %x, want %v", i, out[i], head(out[i].Data), pkts[i])
			}
		}
	} else {
		r, err := o.Open(addr)
		if err != nil {
			c.FailK("open", "%v", err)
		}
		if !r.IsRemote || r.Rtmp == nil || r.NetConn == nil || count["rtmpconn"] != 1 {
			c.FailK("hook", "hooks %v, reader %+v", count, r)
		}
		readBack(c, "rtmp", r, pkts)
		r.Close()
		<-got
	}
	if p := <-path; p != wantPath {
		c.FailK("path", "the server was asked for %s, want %s", p, wantPath)
	}
	c.Step(1)
	c.Outcome(write, len(pkts))
}

// names is one file name, spelled in an address one way or another: what is
// created is the file of that name and nothing else, and opening the same
// address reads it back.
func namesRun(c *mc.Ctx) {
	dir, done := scratch(c)
	defer done()
	pre := []string{"", "file://"}[c.Choose(2)]
	sub := []string{"", "d.mp4/", "d.flv/", "d.flv.d/", "d e/", "%40/"}[c.Choose(6)]
	name := []struct{ spelled, file string }{
		{"a", "a"}, {"a b", "a b"}, {"a%20b", "a b"}, {"\u00fc\u4e16", "\u00fc\u4e16"}, {"%C3%BC", "\u00fc"}, {"a%25b", "a%b"}, {"a%3Fb", "a?b"}, {"a%23b", "a#b"},
		{"a+b", "a+b"}, {".a", ".a"}, {"a.mp4", "a.mp4"}, {"a.flv", "a.flv"}, {"a:b", "a:b"}, {"a@b", "a@b"}, {"@a", "@a"}, {"a&b=c;d", "a&b=c;d"}, {"-", "-"}, {"", ""}, {"a%2525", "a%25"},
	}[c.Choose(19)]
	ext := []string{".flv", ".mp4"}[c.Choose(2)]
	suffix := []string{"", "?b.mp4", "#b.flv", "?a=b#c.mp4"}[c.Choose(4)]
	realSub := strings.Replace(sub, "%40", "@", 1)
	if err := os.MkdirAll(filepath.Join(dir, realSub), 0700); err != nil {
		panic(err)
	}
	addr := pre + dir + "/" + sub + name.spelled + ext + suffix
	want := "/" + realSub + name.file + ext
	c.Logf("%s%s for the file %s", pre, strings.TrimPrefix(strings.TrimPrefix(addr, pre), dir), want)
	files := func() (out []string) {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				out = append(out, p[len(dir):])
			}
			return nil
		})
		return
	}
	var o format.URLOpener
	pkts := []av.Packet{packet(0, 0), packet(2, 1)}
	w, err := o.Create(addr, av0{streams: []interface{}{cfgH264(), cfgA()}})
	if err != nil {
		c.FailK("create", "%v", err)
	}
	for _, p := range pkts {
		if err := w.WritePacket(p); err != nil {
			c.FailK("write", "%v", err)
		}
	}
	if err := w.Close(); err != nil {
		c.FailK("close", "%v", err)
	}
	if l := files(); len(l) != 1 || l[0] != want {
		c.FailK("name", "the files are %q, want %q", l, want)
	}
	if ext == ".mp4" {
		b, _ := ioutil.ReadFile(dir + want)
		d := mp4.NewDemuxer(bytes.NewReader(b))
		readBack(c, "mp4", d, pkts)
		if r, err := o.Open(addr); err == nil {
			r.Close()
			c.FailK("unsupported", "an mp4 file opened for reading")
		}
	} else {
		r, err := o.Open(addr)
		if err != nil {
			c.FailK("open", "%v", err)
		}
		readBack(c, "file", r, pkts)
		r.Close()
	}
	if l := files(); len(l) != 1 || l[0] != want {
		c.FailK("name", "after reading the files are %q, want %q", l, want)
	}
	if fds := openFDs(dir); len(fds) > 0 {
		c.FailK("leak", "still open: %v", fds)
	}
	c.Outcome(ext)
}

// fragile is a file whose operations can be made to fail.
type fragile struct {
	buf           []byte
	pos           int
	writes, seeks int // left before one fails, -1: never
	closeErr      error
	closed        int
	failed        bool
}

var errDisk = errors.New("the disk is full")

func (f *fragile) Write(b []byte) (int, error) {
	if f.writes == 0 {
		f.failed = true
		return 0, errDisk
	}
	f.writes--
	if n := f.pos + len(b); n > len(f.buf) {
		f.buf = append(f.buf, make([]byte, n-len(f.buf))...)
	}
	f.pos += copy(f.buf[f.pos:], b)
	return len(b), nil
}

func (f *fragile) Seek(off int64, whence int) (int64, error) {
	if f.seeks == 0 {
		f.failed = true
		return 0, errDisk
	}
	f.seeks--
	switch whence {
	case io.SeekStart:
		f.pos = 0
	case io.SeekEnd:
		f.pos = len(f.buf)
	}
	f.pos += int(off)
	return int64(f.pos), nil
}

func (f *fragile) Close() error { f.closed++; return f.closeErr }

// closerRun closes an mp4 writer over a file that fails: the close reports it
// and the file is closed all the same, once.
func closerRun(c *mc.Ctx) {
	f := &fragile{writes: c.Choose(12) - 1, seeks: c.Choose(6) - 1}
	if c.Choose(2) == 1 {
		f.closeErr = errors.New("close failed")
	}
	n := c.Choose(4)
	c.Logf("%d packets, write %d and seek %d fail, close fails: %v", n, f.writes, f.seeks, f.closeErr)
	m, err := mp4.NewMuxer(format.NewStreamsWriteSeeker(f, av0{streams: []interface{}{cfgH264(), cfgA()}}))
	if err != nil {
		if !f.failed {
			c.FailK("create", "%v", err)
		}
		return
	}
	w := format.Mp4WriterCloser{Closer: f, Muxer: m}
	failed := false
	for i := 0; i < n && !failed; i++ {
		if err := w.Muxer.WritePacket(packet([]int{0, 2, 1, 5}[i], i)); err != nil {
			if !f.failed {
				c.FailK("write", "%v", err)
			}
			failed = true
		} else if f.failed {
			c.FailK("hidden", "packet %d: a failed write is not reported", i)
		}
	}
	was := f.failed
	err = w.Close()
	c.Step(1)
	if err == nil && (f.closeErr != nil || f.failed && !was) {
		c.FailK("hidden", "the close reports no error (disk error %v, close error %v)", f.failed, f.closeErr)
	}
	if err != nil && f.closeErr == nil && !f.failed {
		c.FailK("close", "%v", err)
	}
	if f.closed != 1 {
		c.FailK("leak", "the file was closed %d times", f.closed)
	}
	c.Outcome(f.failed, f.closeErr != nil)
}

func u02(tier string) []mc.Exploration {
	n, m := 3, 2
	if tier == "thorough" {
		n, m = 5, 3
	}
	return []mc.Exploration{
		{Name: "create", Rule: "scheme x extension x file state x streams", Serial: true, Run: func(c *mc.Ctx) { dispatchRun(c, true) }},
		{Name: "open", Rule: "scheme x extension x file state", Serial: true, Run: func(c *mc.Ctx) { dispatchRun(c, false) }},
		{Name: "files", Rule: "packet sequences written to a file address and read back", Run: func(c *mc.Ctx) { fileRun(c, n) }},
		{Name: "mp4 files", Rule: "packet sequences written to an mp4 address, the file read with the demuxer", Run: func(c *mc.Ctx) { mp4Run(c, n+1) }},
		{Name: "names", Rule: "file names x spellings x directories x containers", Serial: true, Run: namesRun},
		{Name: "failing files", Rule: "mp4 writers over a file whose n-th write, seek or close fails", Run: closerRun},
		{Name: "rtmp publish", Rule: "packet sequences written to an rtmp address", Run: func(c *mc.Ctx) { rtmpRun(c, m, true) }},
		{Name: "rtmp play", Rule: "packet sequences played from an rtmp address", Run: func(c *mc.Ctx) { rtmpRun(c, m, false) }},
		{Name: "server", Rule: "waiting for a publisher, TLS and RTSP addresses over the loopback", Serial: true, Run: serverRun},
	}
}
