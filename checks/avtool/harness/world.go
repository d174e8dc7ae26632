//go:build avtoolgen

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/h264model"
	"joyverif/mc"
	"joyverif/memio"
	"joyverif/netshim"
	"joyverif/vs"
)

func main() {
	log.SetOutput(io.Discard)
	assume := []string{
		"the tool's sources (cmd/avtool) are compiled from the current tree after a source rewriting that only inserts points where the harness can end goroutines, and net.Listen and the RTMP client's dialling lead to in-memory connections",
		"time is virtual",
	}
	p := func(id string, b func(tier string) []mc.Exploration) mc.Property {
		return mc.Property{ID: id, Level: "model_checking", Assumptions: assume, Build: b}
	}
	mc.Main([]mc.Property{p("V01", vhV01), p("V02", vhV02), p("V03", vhV03), p("V04", vhV04), p("V05", vhV05)})
}

// vhWorld is what one execution of the tool finds around it.
type vhWorld struct {
	c     *mc.Ctx
	dir   string
	mu    sync.Mutex
	dials map[string]func() (net.Conn, error)
	lis   map[string]*vhMlis
	conns []*memio.Conn
	clis  []*vhClient
	gap   time.Duration // servers wait before they play each further packet
	reads int           // bytes of each read from a server, at most, if positive
}

func init() {
	netshim.Hook = func(network, address string) (net.Conn, error) {
		w, _ := vs.Local().(*vhWorld)
		if w == nil {
			return nil, errors.New("dialled outside of an execution")
		}
		w.mu.Lock()
		f := w.dials[address]
		w.mu.Unlock()
		if f == nil {
			return nil, fmt.Errorf("no such host %s", address)
		}
		return f()
	}
	vs.ListenHook = func(network, addr string) (net.Listener, error) {
		w, _ := vs.Local().(*vhWorld)
		if w == nil {
			return nil, errors.New("listens outside of an execution")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.lis[addr] == nil {
			return nil, errors.New("address in use")
		}
		return w.lis[addr], nil
	}
}

type vhMlis struct {
	ch  chan net.Conn
	end chan bool
}

func vhNewLis() *vhMlis { return &vhMlis{make(chan net.Conn), make(chan bool)} }

func (l *vhMlis) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.end:
		runtime.Goexit()
	}
	return nil, nil
}
func (l *vhMlis) Close() error   { return nil }
func (l *vhMlis) Addr() net.Addr { return &net.TCPAddr{} }

var vhNull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
var vhChild = func() bool {
	for _, a := range os.Args {
		if a == "-child" {
			return true
		}
	}
	return false
}()

// vhRun gives body a world of its own: a scratch directory, a virtual clock and
// no output.
func vhRun(c *mc.Ctx, body func(w *vhWorld)) {
	vhWithin(c, func(w *vhWorld, cleanup func()) { vs.Free(c, w, func() { body(w) }, cleanup) })
}

// vhSchedule is run with the tool's goroutines under control.
func vhSchedule(c *mc.Ctx, level int, body func(w *vhWorld, s *vs.Sched)) {
	vhWithin(c, func(w *vhWorld, cleanup func()) {
		vs.Bound(c, level, w, func(s *vs.Sched) { body(w, s) }, cleanup)
	})
}

func vhWithin(c *mc.Ctx, f func(w *vhWorld, cleanup func())) {
	base := os.Getenv("JOYVERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := ioutil.TempDir(base, "v-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if vhChild {
		if os.Stdout != vhNull && !vhPrinted {
			os.Stdout = vhNull
		}
	} else if !vhPrinted {
		old := os.Stdout
		os.Stdout = vhNull
		defer func() { os.Stdout = old }()
	}
	w := &vhWorld{c: c, dir: dir, dials: map[string]func() (net.Conn, error){}, lis: map[string]*vhMlis{}}
	f(w, func() {
		for _, l := range w.lis {
			close(l.end)
		}
		w.mu.Lock()
		conns := w.conns
		w.mu.Unlock()
		for _, x := range conns {
			x.Close()
		}
		for _, k := range w.clis {
			close(k.todo)
		}
	})
}

// vhPrinted is set while an exploration looks at what the tool prints.
var vhPrinted bool

// vhOutput runs f and returns what it printed.
func vhOutput(w *vhWorld, f func()) string {
	o, err := os.Create(filepath.Join(w.dir, "stdout"))
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = o
	defer func() { os.Stdout = old; o.Close() }()
	f()
	b, _ := ioutil.ReadFile(o.Name())
	return string(b)
}

// pair is a connection whose ends are closed when the execution is over.
func (w *vhWorld) pair() (a, b *memio.Conn) {
	a, b = memio.Pair()
	w.mu.Lock()
	w.conns = append(w.conns, a, b)
	w.mu.Unlock()
	return
}

// ---- packets

func vhCfgV(variant uint64) []byte {
	sps, pps := h264model.Basic(0, 4+variant, 3).NAL(), h264model.PPS(0, 0)
	b := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, 0, byte(len(sps))}
	b = append(append(b, sps...), 1, 0, byte(len(pps)))
	return append(b, pps...)
}

func vhFill(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*31 + j + 1)
	}
	return b
}

func vhAvcc(nals ...[]byte) (b []byte) {
	for _, n := range nals {
		b = append(b, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return
}

var vhKindNames = []string{"key", "inter", "aac", "vcfg", "acfg", "meta", "big"}

const vhStep = 20 * time.Millisecond

func vhPacket(k, i int) av.Packet {
	t := time.Duration(i) * vhStep
	switch k {
	case 0:
		return av.Packet{Type: av.H264, IsKeyFrame: true, Time: t, CTime: 2 * vhStep, Data: vhAvcc(append([]byte{0x65}, vhFill(i, 4)...))}
	case 1:
		return av.Packet{Type: av.H264, Time: t, Data: vhAvcc(append([]byte{0x41}, vhFill(i, 2)...), append([]byte{6}, vhFill(i, 1)...))}
	case 2:
		return av.Packet{Type: av.AAC, Time: t, Data: vhFill(i, 5)}
	case 3:
		return av.Packet{Type: av.H264DecoderConfig, Time: t, Data: vhCfgV(0)}
	case 4:
		return av.Packet{Type: av.AACDecoderConfig, Time: t, Data: []byte{0x12, 0x10}}
	case 5:
		return av.Packet{Type: av.Metadata, Time: t, Data: []byte{2, 0, 10, 'o', 'n', 'M', 'e', 't', 'a', 'D', 'a', 't', 'a', 3, 0, 1, 'k', 0, 0x40, byte(i), 0, 0, 0, 0, 0, 0, 0, 0, 9}}
	}
	return av.Packet{Type: av.H264, IsKeyFrame: true, Time: t, Data: vhAvcc(append([]byte{0x65}, vhFill(i, 9000)...))}
}

func vhSame(a, b av.Packet) bool {
	switch a.Type {
	case av.H264DecoderConfig, av.AACDecoderConfig, av.Metadata:
		a.Time, b.Time = 0, 0 // no time of their own
	}
	return a.Type == b.Type && a.Time == b.Time && a.CTime == b.CTime && a.IsKeyFrame == b.IsKeyFrame && bytes.Equal(a.Data, b.Data)
}

type vhSw struct{ io.Writer }

func (vhSw) Streams() ([]interface{}, error) { return nil, nil }

func vhFlvFile(pkts []av.Packet) []byte {
	var b bytes.Buffer
	m := flv.NewMuxer(vhSw{&b})
	if err := m.WriteFileHeader(); err != nil {
		panic(err)
	}
	for _, p := range pkts {
		if err := m.WritePacket(p); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

// vhParse is what a file holds and how it ends.
func vhParse(b []byte) (l []av.Packet, err error) {
	d := flv.NewDemuxer(bytes.NewReader(b))
	for {
		p, err := d.ReadPacket()
		if err != nil {
			return l, err
		}
		l = append(l, p)
	}
}

func vhShow(l []av.Packet) string {
	var s []string
	for _, p := range l {
		h := p.Data
		if len(h) > 20 {
			h = h[:20]
		}
		s = append(s, fmt.Sprintf("%s %x", p.String(), h))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// vhExpect compares packets. A prefix will do when part is set.
func vhExpect(c *mc.Ctx, what string, got, want []av.Packet, part bool) {
	for i, p := range got {
		if i >= len(want) {
			c.FailK("packets", "%s: a packet too many: %s", what, vhShow(got[i:i+1]))
		}
		if !vhSame(p, want[i]) {
			c.FailK("packets", "%s: packet %d is %s, not %s", what, i, vhShow(got[i:i+1]), vhShow(want[i:i+1]))
		}
	}
	if len(got) < len(want) && !part {
		c.FailK("packets", "%s: has %d packets of %d, %s is missing", what, len(got), len(want), vhShow(want[len(got):len(got)+1]))
	}
}

// vhFlvAt is what the file at path holds.
func vhFlvAt(c *mc.Ctx, path string) []av.Packet {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		c.FailK("file", "%v", err)
	}
	l, err := vhParse(b)
	if err != io.EOF {
		c.FailK("file", "the file made ends with %v", err)
	}
	return l
}

// vhOpen lists the files below dir this process holds open.
func vhOpen(dir string) (out []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			out = append(out, strings.TrimPrefix(t, dir))
		}
	}
	return
}

// ---- RTMP peers

// vhTarget is a server that accepts one publisher per connection.
type vhTarget struct {
	mu    sync.Mutex
	got   []av.Packet
	url   string
	pub   bool
	ready bool
	conns int
	err   error // how reading ended
	end   time.Time
	conn  *memio.Conn
}

func (t *vhTarget) state() (l []av.Packet, err error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]av.Packet(nil), t.got...), t.err
}

// server makes addr an RTMP server: it reads what is published, and plays
// what play says. It hangs up after max packets (max < 0: never).
func (w *vhWorld) server(addr string, play []av.Packet, max int) *vhTarget {
	t := &vhTarget{}
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		defer nc.Close()
		t.mu.Lock()
		t.url, t.pub, t.ready = c.URL.String(), c.Publishing, true
		t.mu.Unlock()
		if !c.Publishing {
			for i, p := range play {
				if max >= 0 && i >= max {
					break
				}
				if i > 0 && w.gap > 0 {
					time.Sleep(w.gap)
				}
				if err := c.WritePacket(p); err != nil {
					break
				}
				c.Flush()
			}
			c.Flush()
			if len(play) > 100 { // acknowledgements may be under way
				time.Sleep(time.Second)
			}
			return
		}
		for n := 0; max < 0 || n < max; n++ {
			p, err := c.ReadPacket()
			t.mu.Lock()
			if err != nil {
				t.err, t.end = err, time.Now()
				t.mu.Unlock()
				return
			}
			t.got = append(t.got, p)
			t.mu.Unlock()
		}
	}
	w.dials[addr] = func() (net.Conn, error) {
		a, b := w.pair()
		t.mu.Lock()
		t.conns++
		t.conn = a
		a.Max = w.reads
		t.mu.Unlock()
		go s.HandleNetConn(b)
		return a, nil
	}
	return t
}

// vhClient is a publisher or a player.
type vhClient struct {
	conn *memio.Conn
	todo chan func(c *rtmp.Conn)
	mu   sync.Mutex
	got  []av.Packet
	at   []time.Time
	err  error // of the session so far
	up   bool  // the session began
	over bool  // reading or writing failed
}

func (w *vhWorld) connect(lis *vhMlis, addr string, publish bool) *vhClient {
	a, b := w.pair()
	k := &vhClient{conn: a, todo: make(chan func(*rtmp.Conn), 100)}
	w.clis = append(w.clis, k)
	go func() {
		select {
		case lis.ch <- b:
		case <-lis.end:
		}
	}()
	u, err := url.Parse(addr)
	if err != nil {
		panic(err)
	}
	flags := rtmp.PrepareReading
	if publish {
		flags = rtmp.PrepareWriting
	}
	go func() {
		c, err := rtmp.NewClient().FromNetConn(a, u, flags)
		k.mu.Lock()
		k.err, k.up, k.over = err, err == nil, err != nil
		k.mu.Unlock()
		if err != nil {
			a.Close()
			return
		}
		if publish {
			for f := range k.todo {
				f(c)
			}
			return
		}
		for {
			p, err := c.ReadPacket()
			k.mu.Lock()
			if err != nil {
				k.err, k.over = err, true
				k.mu.Unlock()
				a.Close()
				return
			}
			k.got, k.at = append(k.got, p), append(k.at, time.Now())
			k.mu.Unlock()
		}
	}()
	return k
}

func (k *vhClient) send(p av.Packet) {
	k.todo <- func(c *rtmp.Conn) {
		err := c.WritePacket(p)
		if err == nil {
			err = c.Flush()
		}
		if err != nil {
			k.mu.Lock()
			k.err, k.over = err, true
			k.mu.Unlock()
		}
	}
}

func (k *vhClient) state() (up, over bool, got []av.Packet) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.up, k.over, append([]av.Packet(nil), k.got...)
}

// hungUp tells whether the tool closed its end.
func (k *vhClient) hungUp() bool { return k.conn.PeerClosed() }
