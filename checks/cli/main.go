// Command cli runs the real avtool binary with enumerated command lines.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
)

func main() {
	mc.Main([]mc.Property{
		{ID: "V06", Level: "exploration", Build: v06, QuickS: 150, HangS: 90, Assumptions: []string{
			"the binary is run as a process on files in a scratch directory and on the loopback network",
			"server commands are only run with addresses they cannot listen on",
		}},
	})
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// the packets of the files
var goodPkts = []av.Packet{
	{Type: av.H264DecoderConfig, Data: []byte{1, 0x42, 0, 0x1e, 0xff, 0xe1, 0, 4, 0x67, 0x42, 0, 0x1e, 1, 0, 2, 0x68, 0xce}},
	{Type: av.AACDecoderConfig, Data: []byte{0x12, 0x10}},
	{Type: av.H264, IsKeyFrame: true, Data: []byte{0, 0, 0, 2, 0x65, 1}},
	{Type: av.AAC, Time: ms(20), Data: []byte{1, 2, 3}},
	{Type: av.H264, Time: ms(40), CTime: ms(40), Data: []byte{0, 0, 0, 3, 0x41, 1, 2}},
	{Type: av.H264, Time: ms(80), IsKeyFrame: true, Data: []byte{0, 0, 0, 2, 0x65, 9}},
}
var otherPkts = []av.Packet{{Type: av.AAC, Time: ms(7), Data: []byte{9}}}

func file(pkts []av.Packet) []byte {
	var b bytes.Buffer
	m := flv.NewMuxer(format.NewStreamsWriteSeeker(struct {
		io.Writer
		io.Seeker
	}{&b, nil}, nil))
	m.HasVideo, m.HasAudio = true, true
	for _, p := range pkts {
		if err := m.WritePacket(p); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

func packets(b []byte) (pkts []av.Packet, err error) {
	d := flv.NewDemuxer(bytes.NewReader(b))
	for {
		var p av.Packet
		if p, err = d.ReadPacket(); err != nil {
			if err == io.EOF {
				err = nil
			}
			return
		}
		pkts = append(pkts, p)
	}
}

func same(a, b av.Packet, data bool) bool {
	return a.Type == b.Type && a.Time == b.Time && a.CTime == b.CTime && a.IsKeyFrame == b.IsKeyFrame && (!data || bytes.Equal(a.Data, b.Data))
}

func eq(a, b []av.Packet, data bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i], data) {
			return false
		}
	}
	return true
}

var (
	work   = os.Getenv("JOYVERIF_WORK")
	once   sync.Once
	busy   string       // an address somebody listens on
	web    string       // a web server
	holder net.Listener // kept: a listener nothing refers to is closed
)

// world serves the loopback parts, once in each process.
func world() {
	once.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		busy, holder = l.Addr().String(), l
		h, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		web = "http://" + h.Addr().String()
		go http.Serve(h, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			switch r.URL.Path {
			case "/good.flv":
				w.Write(file(goodPkts))
			case "/cut.flv":
				b := file(goodPkts)
				w.Write(b[:len(b)-7])
			default:
				http.NotFound(w, r)
			}
		}))
	})
}

type result struct {
	rc       int
	out, err string
	took     time.Duration
	dir      string
}

func run(c *mc.Ctx, dir string, args []string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(work, "avtool"), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	t0 := time.Now()
	err := cmd.Run()
	r := result{out: o.String(), err: e.String(), took: time.Since(t0), dir: dir}
	if ctx.Err() != nil {
		c.FailK("hang", "avtool %q does not end", args)
	}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.rc = x.ExitCode()
		if r.rc < 0 {
			c.FailK("signal", "avtool %q ended with %v", args, err)
		}
	}
	if strings.Contains(r.err, "panic:") || strings.Contains(r.err, "goroutine ") {
		c.FailK("panic", "avtool %q: %s", args, r.err)
	}
	c.Step(1)
	return r
}

func scratch() string {
	d, err := os.MkdirTemp(work, "cli")
	if err != nil {
		panic(err)
	}
	return d
}

// commands: how many arguments they need, which of the groups of options they know
var commands = map[string]struct {
	args        int
	debug, conv bool
}{
	"conv": {1, true, true}, "benchrtmp": {1, true, false}, "forwardrtmp": {1, true, false}, "pubsubrtmp": {1, true, false},
	"avcc2annexb": {2, false, false}, "moveh264seqhdrtokeyframe": {2, false, false},
}
var names = []string{"conv", "benchrtmp", "forwardrtmp", "pubsubrtmp", "avcc2annexb", "moveh264seqhdrtokeyframe", "convert"}
var tokens = []string{"good.flv", "dst.flv", "missing/x.flv", "BUSY", "--re", "--qpkt", "--statsec", "--drtmp=stage,chunk,net", "--dflv=filehdr", "--drtmp=filehdr", "--dflv=", "--bogus"}

func lines(c *mc.Ctx, depth int) {
	world()
	name := names[c.Choose(len(names))]
	var args, pos []string
	n := c.Choose(depth + 1)
	usage := false
	cm, known := commands[name]
	usage = !known
	qpkt, re, extra := false, false, false
	for i := 0; i < n; i++ {
		t := tokens[c.Choose(len(tokens))]
		if t == "BUSY" {
			t = busy
		}
		args = append(args, t)
		switch {
		case !strings.HasPrefix(t, "--"):
			pos = append(pos, t)
		case t == "--re" || t == "--qpkt" || t == "--statsec":
			usage = usage || !cm.conv
			qpkt = qpkt || t == "--qpkt"
			re = re || t == "--re"
			extra = extra || t == "--statsec"
		case t == "--bogus" || t == "--drtmp=filehdr":
			usage = true
		default:
			usage = usage || !cm.debug
			extra = true
		}
	}
	usage = usage || len(pos) < cm.args
	all := append([]string{name}, args...)
	what := strings.ReplaceAll(strings.Join(all, " "), busy, "BUSY")
	c.Logf("avtool %s", what)
	c.State(what)
	src, dst := "", ""
	if len(pos) > 0 {
		src = pos[0]
	}
	if len(pos) > 1 {
		dst = pos[1]
	}
	if src != "" && src == dst {
		c.Prune()
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	content := map[string][]av.Packet{"good.flv": goodPkts, "dst.flv": otherPkts}
	for f, p := range content {
		if err := os.WriteFile(filepath.Join(dir, f), file(p), 0644); err != nil {
			panic(err)
		}
	}
	r := run(c, dir, all)
	in, readable := content[src]
	_, writable := content[dst]
	if dst != "" && dst == busy && name != "conv" {
		writable = true // a name like any other to those that take files only
	}
	want := map[string][]av.Packet{"good.flv": goodPkts, "dst.flv": otherPkts}
	ok := !usage && readable
	var out []av.Packet
	data := true
	switch name {
	case "conv":
		ok = ok && (dst == "" || writable)
		out = in
	case "avcc2annexb":
		ok = ok && writable
		out, data = in, false
	case "moveh264seqhdrtokeyframe":
		ok = ok && writable
		data = false
		for _, p := range in {
			if p.Type != av.H264DecoderConfig {
				out = append(out, p)
			}
		}
	default:
		ok = false // no address to listen on
	}
	if ok != (r.rc == 0) {
		c.FailK("status", "avtool %s: exit status %d; printed %.300q and %.300q", what, r.rc, r.out, r.err)
	}
	if !ok && r.out+r.err == "" {
		c.FailK("silent", "avtool %s: exit status %d without a word", what, r.rc)
	}
	if ok && dst != "" {
		want[dst] = out
	}
	for f, w := range want {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			c.FailK("files", "avtool %s: %v", what, err)
		}
		got, err := packets(b)
		if err != nil || !eq(got, w, data || f != dst) {
			c.FailK("files", "avtool %s: %s then has %d packets (%v), not %d", what, f, len(got), err, len(w))
		}
	}
	if l, _ := os.ReadDir(dir); len(l) != len(want) {
		c.FailK("files", "avtool %s: leaves %d files", what, len(l))
	}
	if ok && name == "conv" {
		printed(c, what, r, in, qpkt, extra)
		if d := in[len(in)-1].Time - in[0].Time; re && r.took < d {
			c.FailK("pace", "avtool %s: %v of packets in %v", what, d, r.took)
		}
	}
	c.Outcome(name, ok, usage)
	c.Validated(1)
}

// printed checks the packet lines on standard output.
func printed(c *mc.Ctx, what string, r result, in []av.Packet, quiet, extra bool) {
	var l []string
	for _, s := range strings.Split(r.out, "\n") {
		if s != "" {
			l = append(l, s)
		}
	}
	var w []string
	known := map[string]bool{}
	for _, p := range in {
		known[p.String()] = true
		if !quiet {
			w = append(w, p.String())
		}
	}
	if extra {
		var k []string
		for _, s := range l {
			if known[s] {
				k = append(k, s)
			}
		}
		l = k
	}
	if strings.Join(l, "\n") != strings.Join(w, "\n") {
		c.FailK("printed", "avtool %s: printed %q", what, r.out)
	}
}

// sources and destinations of a conversion
func convs(c *mc.Ctx) {
	world()
	good := file(goodPkts)
	cut := good[:len(good)-7]
	flags := func(f byte) []byte { // the header says what there is; what follows is the same
		b := append([]byte(nil), good...)
		b[4] = f
		return b
	}
	type source struct {
		name string
		data []byte // nil: no such file
		pkts []av.Packet
		ok   bool
	}
	srcs := []source{
		{"s.flv", good, goodPkts, true},
		{"file:///DIR/s.flv", good, goodPkts, true},
		{"a.flv", flags(4), goodPkts, true},
		{"v.flv", flags(1), goodPkts, true},
		{"n.flv", flags(0), goodPkts, true},
		{"cut.flv", cut, goodPkts[:len(goodPkts)-1], false},
		{"none.flv", nil, nil, false},
		{"noise.flv", bytes.Repeat([]byte("noise"), 20), nil, false},
		{"dir.flv", nil, nil, false},
		{"s.ts", good, nil, false},
		{"s", good, nil, false},
		{web + "/good.flv", nil, goodPkts, true},
		{web + "/none.flv", nil, nil, false},
		{web + "/good.ts", nil, nil, false},
		{"rtmp://127.0.0.1:1/a/b", nil, nil, false},
		{"ftp://127.0.0.1/a.flv", nil, nil, false},
	}
	dsts := []string{"", "d.flv", "old.flv", "file:///DIR/d.flv", "d.mp4", "d.ts", "none/d.flv", "dir.flv", "rtmp://127.0.0.1:1/a/b"}
	s := srcs[c.Choose(len(srcs))]
	d := dsts[c.Choose(len(dsts))]
	opts := []string{"--qpkt", "--re", "--statsec", "--drtmp=chunk,net,stage", "--dflv=filehdr"}
	mask := c.Choose(1 << len(opts))
	dir := scratch()
	defer os.RemoveAll(dir)
	if s.data != nil {
		os.WriteFile(filepath.Join(dir, filepath.Base(s.name)), s.data, 0644)
	}
	os.Mkdir(filepath.Join(dir, "dir.flv"), 0755)
	old := file(append(append([]av.Packet(nil), goodPkts...), goodPkts...))
	os.WriteFile(filepath.Join(dir, "old.flv"), old, 0644)
	before, _ := os.ReadDir(dir)
	args := []string{"conv", strings.Replace(s.name, "/DIR", dir, 1)}
	if d != "" {
		args = append(args, strings.Replace(d, "/DIR", dir, 1))
	}
	for i, o := range opts {
		if mask>>i&1 != 0 {
			args = append(args, o)
		}
	}
	what := strings.ReplaceAll(strings.Join(args, " "), web, "http://WEB")
	what = strings.ReplaceAll(what, dir, "/DIR")
	c.Logf("avtool %s", what)
	c.State(what)
	r := run(c, dir, args)
	creatable := d == "d.flv" || d == "old.flv" || d == "file:///DIR/d.flv"
	ok := s.ok && (d == "" || creatable)
	if ok != (r.rc == 0) {
		c.FailK("status", "avtool %s: exit status %d; printed %.300q and %.300q", what, r.rc, r.out, r.err)
	}
	if !ok && r.err == "" {
		c.FailK("silent", "avtool %s: exit status %d without a word", what, r.rc)
	}
	written := creatable && len(s.pkts) > 0
	if creatable && (written || s.ok) {
		f := filepath.Join(dir, filepath.Base(d))
		b, err := os.ReadFile(f)
		if err != nil {
			c.FailK("files", "avtool %s: %v", what, err)
		}
		if got, err := packets(b); err != nil || !eq(got, s.pkts, true) {
			c.FailK("files", "avtool %s: the destination has %d packets (%v)", what, len(got), err)
		}
	}
	if !(written && d == "old.flv") {
		if b, _ := os.ReadFile(filepath.Join(dir, "old.flv")); !bytes.Equal(b, old) {
			c.FailK("files", "avtool %s: alters another file", what)
		}
	}
	after, _ := os.ReadDir(dir)
	n := len(before)
	if written && d != "old.flv" {
		n++
	}
	if len(after) != n {
		c.FailK("files", "avtool %s: %d files are there, not %d", what, len(after), n)
	}
	if ok {
		printed(c, what, r, s.pkts, mask&1 != 0, mask>>2 != 0)
		if d := s.pkts[len(s.pkts)-1].Time - s.pkts[0].Time; mask&2 != 0 && r.took < d {
			c.FailK("pace", "avtool %s: %v of packets in %v", what, d, r.took)
		}
	}
	var hdr []string
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "FLVHeader") {
			hdr = append(hdr, l)
		}
	}
	var wantHdr []string
	if mask>>4 != 0 && len(s.pkts) > 0 {
		f := good[4]
		if s.data != nil {
			f = s.data[4]
		}
		wantHdr = []string{"FLVHeader AVFlags " + map[byte]string{0: "", 1: "V", 4: "A", 5: "AV"}[f]}
	}
	if len(s.pkts) > 0 && strings.Join(hdr, "\n") != strings.Join(wantHdr, "\n") {
		c.FailK("debug", "avtool %s: the file header is reported as %q, not %q", what, hdr, wantHdr)
	}
	c.Outcome(ok, written)
	c.Validated(1)
}

// hub is the other side of the tool's connections: one RTMP server on a
// loopback address of this process's own, which records what passes.
type hub struct {
	addr string
	mu   sync.Mutex
	m    map[string]*call
}

type call struct {
	in, out bytes.Buffer // what came from the tool and what went to it
	pkts    []av.Packet
	done    chan struct{}
}

type tap struct {
	net.Conn
	in, out *bytes.Buffer
	mu      *sync.Mutex
}

func (t tap) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.mu.Lock()
	t.in.Write(b[:n])
	t.mu.Unlock()
	return n, err
}

func (t tap) Write(b []byte) (int, error) {
	t.mu.Lock()
	t.out.Write(b)
	t.mu.Unlock()
	return t.Conn.Write(b)
}

var (
	hubOnce sync.Once
	theHub  *hub
	serial  int64
)

// own is a loopback host nobody else uses: one in each process and execution,
// so that a fixed port on it is free.
func own() (string, int64) {
	n := atomic.AddInt64(&serial, 1)
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+p>>8&63+64*int(n>>7&1), p&255, 1+n&127), n
}

func getHub() *hub {
	hubOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		h := &hub{addr: l.Addr().String(), m: map[string]*call{}}
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					panic(err)
				}
				go h.serve(nc)
			}
		}()
		theHub = h
	})
	return theHub
}

func (h *hub) call(path string) *call {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := h.m[path]
	if k == nil {
		k = &call{done: make(chan struct{})}
		h.m[path] = k
	}
	return k
}

func (h *hub) serve(nc net.Conn) {
	var in, out bytes.Buffer
	var mu sync.Mutex
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		k := h.call(c.URL.Path)
		if c.Publishing {
			for {
				p, err := c.ReadPacket()
				if err != nil {
					break
				}
				k.pkts = append(k.pkts, p)
			}
		} else {
			for _, p := range goodPkts {
				c.WritePacket(p)
			}
			c.Flush()
			nc.(tap).Conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, nc)
		}
		mu.Lock()
		k.in.Write(in.Bytes())
		k.out.Write(out.Bytes())
		mu.Unlock()
		close(k.done)
		nc.Close()
	}
	s.HandleNetConn(tap{nc, &in, &out, &mu})
}

// dumped adds up the dumps in what was printed: the bytes of each direction.
func dumped(out string) (r, w []byte, n int, bad string) {
	to := &r
	left := 0
	for _, l := range strings.Split(out, "\n") {
		if k := 0; strings.HasPrefix(l, "> ") || strings.HasPrefix(l, "< ") {
			if left != 0 {
				return r, w, n, l
			}
			if _, err := fmt.Sscanf(l[2:], "%d", &k); err != nil {
				return r, w, n, l
			}
			left, to = k, &r
			if l[0] == '>' {
				to = &w
			}
			n++
			continue
		}
		if strings.HasPrefix(l, "StatSec") || strings.HasPrefix(l, "sub ") {
			continue // printed every second, possibly in between
		}
		if left > 0 {
			i := strings.IndexByte(l, '|')
			if i < 8 {
				return r, w, n, l
			}
			b, err := hex.DecodeString(strings.ReplaceAll(l[8:i], " ", ""))
			if err != nil || len(b) > left {
				return r, w, n, l
			}
			*to = append(*to, b...)
			left -= len(b)
		}
	}
	if left != 0 {
		bad = "cut"
	}
	return
}

func publish(c *mc.Ctx, addr, path string) {
	rc, nc := reach(c, addr, path, rtmp.PrepareWriting)
	for _, p := range goodPkts {
		rc.WritePacket(p)
	}
	rc.Flush()
	nc.(*net.TCPConn).CloseWrite()
	io.Copy(io.Discard, nc)
	nc.Close()
}

func reach(c *mc.Ctx, addr, path string, role int) (*rtmp.Conn, net.Conn) {
	var nc net.Conn
	var err error
	for i := 0; i < 1500; i++ {
		if nc, err = net.Dial("tcp", addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		c.FailK("listen", "nobody listens on the address: %v", err)
	}
	u, _ := url.Parse("rtmp://" + addr + path)
	rc, err := rtmp.NewClient().FromNetConn(nc, u, role)
	if err != nil {
		c.FailK("listen", "no session: %v", err)
	}
	nc.SetDeadline(time.Now().Add(30 * time.Second))
	return rc, nc
}

// the tool in RTMP sessions
func sessions(c *mc.Ctx) {
	world()
	h := getHub()
	host, n0 := own()
	path := fmt.Sprintf("/app/%d", n0)
	remote := "rtmp://" + h.addr + path
	kind := c.Choose(7)
	mask := c.Choose(8)
	split := mask != 0 && c.Bool()
	quiet, stat := false, false
	if kind < 3 {
		quiet, stat = c.Bool(), c.Bool()
	}
	var on []string
	for i, n := range []string{"net", "stage", "chunk"} {
		if mask>>i&1 != 0 {
			on = append(on, n)
		}
	}
	var opts []string
	if split {
		for _, n := range on {
			opts = append(opts, "--drtmp", n)
		}
	} else if len(on) > 0 {
		opts = append(opts, "--drtmp="+strings.Join(on, ","))
	}
	if quiet {
		opts = append(opts, "--qpkt")
	}
	if stat {
		opts = append(opts, "--statsec")
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "good.flv"), file(goodPkts), 0644)
	at := host + ":1935"
	cmds := [][]string{
		{"conv", "good.flv", remote}, {"conv", remote, "d.flv"}, {"conv", "@rtmp://" + host + path, "d.flv"},
		{"benchrtmp", at, "good.flv"}, {"benchrtmp", at}, {"forwardrtmp", at}, {"pubsubrtmp", at},
	}
	args := append(cmds[kind], opts...)
	what := strings.NewReplacer(remote, "rtmp://HUB/app/s", path, "/app/s", host, "HOST").Replace(strings.Join(args, " "))
	c.Logf("avtool %s", what)
	c.State(what)

	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(work, "avtool"), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	server := kind >= 3
	var got []av.Packet
	func() {
		defer func() {
			if server {
				time.Sleep(30 * time.Millisecond) // for what is still being printed
				cmd.Process.Kill()
			}
		}()
		switch kind {
		case 2:
			publish(c, at, path)
		case 3:
			rc, nc := reach(c, at, path, rtmp.PrepareReading)
			for len(got) < len(goodPkts) {
				p, err := rc.ReadPacket()
				if err != nil {
					c.FailK("serve", "avtool %s: after %d packets: %v", what, len(got), err)
				}
				got = append(got, p)
			}
			nc.Close()
		case 4:
			publish(c, at, path)
			got = goodPkts
		case 5:
			publish(c, at, path+"?fwd="+url.QueryEscape(remote))
		case 6:
			rc, nc := reach(c, at, path, rtmp.PrepareWriting)
			sub, snc := reach(c, at, path, rtmp.PrepareReading)
			time.Sleep(30 * time.Millisecond)
			for _, p := range goodPkts {
				rc.WritePacket(p)
			}
			rc.Flush()
			for i := 0; i < len(goodPkts); { // parts may be skipped: that is for the relay's own properties
				p, err := sub.ReadPacket()
				if err != nil {
					c.FailK("serve", "avtool %s: after %d packets: %v", what, len(got), err)
				}
				if p.Type == av.AACDecoderConfig && same(p, goodPkts[1], true) {
					continue // sent ahead of the first audio that is not skipped
				}
				for i < len(goodPkts) && !same(p, goodPkts[i], true) {
					i++
				}
				if i == len(goodPkts) {
					c.FailK("serve", "avtool %s: a packet nobody sent: %v", what, p)
				}
				i++
			}
			got = goodPkts
			nc.Close()
			snc.Close()
		}
		if kind == 5 || kind == 0 {
			k := h.call(path)
			select {
			case <-k.done:
				got = k.pkts
			case <-time.After(30 * time.Second):
				c.FailK("serve", "avtool %s: nothing arrives: %q", what, e.String())
			}
		}
	}()
	err := cmd.Wait()
	if ctx.Err() != nil {
		c.FailK("hang", "avtool %s does not end", what)
	}
	if strings.Contains(e.String(), "panic:") {
		c.FailK("panic", "avtool %s: %s", what, e.String())
	}
	if !server && err != nil {
		c.FailK("status", "avtool %s: %v: %q", what, err, e.String())
	}
	if kind == 1 || kind == 2 {
		b, err := os.ReadFile(filepath.Join(dir, "d.flv"))
		if err == nil {
			got, err = packets(b)
		}
		if err != nil {
			c.FailK("files", "avtool %s: %v", what, err)
		}
	}
	if !eq(got, goodPkts, true) {
		c.FailK("packets", "avtool %s: %d packets come through, or others: %v", what, len(got), got)
	}
	out := o.String()
	r, w, n, bad := dumped(out)
	if bad != "" && !(server && bad == "cut") { // a server is killed, possibly while it prints
		c.FailK("dump", "avtool %s: the dump is cut at %q: %q", what, bad, out)
	}
	chunk := mask>>2 != 0
	if n > 0 && !chunk {
		c.FailK("dump", "avtool %s: bytes are dumped", what)
	}
	if chunk && kind < 2 {
		k := h.call(path)
		<-k.done
		sum := 0
		for _, p := range goodPkts {
			sum += len(p.Data)
		}
		big, small := w, r
		if kind == 1 {
			big, small = r, w
		}
		if len(big) < sum || !bytes.HasSuffix(k.in.Bytes(), w) || !bytes.HasSuffix(k.out.Bytes(), r) || len(small) > 0 {
			c.FailK("dump", "avtool %s: the dump, %x and %x, is not what passed: %x and %x", what, w, r, k.in.Bytes()[3073:], k.out.Bytes()[3073:])
		}
	}
	if chunk && (kind == 2 && len(r) == 0 || kind == 3 && (len(w) == 0 || len(r) == 0) || kind == 4 && (len(w) == 0 || len(r) == 0)) {
		c.FailK("dump", "avtool %s: only %d and %d bytes are dumped", what, len(w), len(r))
	}
	if s := strings.Count(out, "RtmpStage"); kind >= 3 && kind <= 4 && mask>>1&1 != 0 && s == 0 || mask>>1&1 == 0 && s != 0 {
		c.FailK("stage", "avtool %s: %d stages are reported", what, s)
	}
	if s := strings.Count(out, "RtmpEvent"); (kind == 2 || kind == 3 || kind == 4) && mask&1 != 0 && s != 1 || mask&1 == 0 && s != 0 {
		c.FailK("net", "avtool %s: %d network events are reported", what, s)
	}
	if !server {
		printed(c, what, result{out: out}, goodPkts, quiet, true)
	}
	c.Step(1)
	c.Outcome(kind, mask)
	c.Validated(1)
}

func v06(tier string) []mc.Exploration {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	return []mc.Exploration{
		{Name: "sessions", Rule: "conv to, from and as an RTMP server, benchrtmp with and without a file, forwardrtmp and pubsubrtmp, each in one session x all sets of debug options, written in one option or several, x quiet and statistics: what comes through, the dump against the recorded bytes, and which reports are printed", Run: sessions},
		{Name: "command lines", Rule: fmt.Sprintf("all six commands and an unknown one x all sequences of up to %d arguments over %d tokens (files, a used address, every option, unknown options and debug names): exit status, files and what is printed", depth, len(tokens)), Run: func(c *mc.Ctx) { lines(c, depth) }},
		{Name: "conversions", Rule: "conv with 16 kinds of sources (files, web, servers; whole, cut, missing, not FLV, headers with all flags) x 9 kinds of destinations x all 32 sets of options", Run: convs},
	}
}
