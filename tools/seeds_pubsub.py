P = '''package main
import ("testing";"io";"time";"fmt";"sync";"sync/atomic";"runtime"
"github.com/nareix/joy5/av")
var _ = fmt.Sprint
var _ sync.Mutex
var _ atomic.Value
var _ = runtime.GC
type rd struct { idle chan bool; pk chan av.Packet }
func newRd() *rd { return &rd{make(chan bool, 100), make(chan av.Packet)} }
func (r *rd) ReadPacket() (av.Packet, error) { r.idle <- true; p, ok := <-r.pk; if !ok { return p, io.EOF }; return p, nil }
func (r *rd) send(ps ...av.Packet) { for _, p := range ps { r.pk <- p; <-r.idle } }
func start(s *stream) *rd { r := newRd(); go s.setPub(r); <-r.idle; return r }
type wr struct { f func(n int, p av.Packet) error; fl func(); mu sync.Mutex; got []string }
func (w *wr) WritePacket(p av.Packet) error {
	w.mu.Lock(); n := len(w.got); w.got = append(w.got, fmt.Sprint(p.Type, string(p.Data))); w.mu.Unlock()
	if w.f != nil { return w.f(n, p) }
	return nil
}
func (w *wr) Flush() error { if w.fl != nil { w.fl() }; return nil }
func (w *wr) all() string { w.mu.Lock(); defer w.mu.Unlock(); return fmt.Sprint(w.got) }
func (w *wr) wait(t *testing.T, want string) {
	for i := 0; i < 300; i++ { if w.all() == want { return }; time.Sleep(10*time.Millisecond) }
	t.Fatalf("got %s want %s", w.all(), want)
}
func K(s string) av.Packet { return av.Packet{Type: av.H264, IsKeyFrame: true, Data: []byte(s)} }
func I(s string) av.Packet { return av.Packet{Type: av.H264, Data: []byte(s)} }
func A(s string) av.Packet { return av.Packet{Type: av.AAC, Data: []byte(s)} }
func C(t int, s string) av.Packet { return av.Packet{Type: t, Data: []byte(s)} }
func line(ps ...av.Packet) string { var l []string; for _, p := range ps { l = append(l, fmt.Sprint(p.Type, string(p.Data))) }; return fmt.Sprint(l) }
'''
F = 'cmd/avtool/pubsub.go'
D = 'cmd/avtool'
seed('s01-reuse-backing', 'S01', [(F, '		gc.pkts = []av.Packet{}\n', '		gc.pkts = gc.pkts[:0]\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(K("k1"), I("i1"), I("i2"))
	w := &wr{}
	w.f = func(n int, p av.Packet) error { if n == 0 { r.send(K("k2"), I("i3"), I("i4")) }; return nil }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("k1"), I("i1"), I("i2"), K("k2"), I("i3"), I("i4")))
}
''', 'a key frame published while a subscriber is half way through the previous group of pictures', 'the snapshot a subscriber is sending is overwritten by the next group of pictures')
seed('s01-jump-last', 'S01', [(F, '		return cur.pkts\n', '		return cur.pkts[len(cur.pkts)/2:]\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(K("k1"))
	w := &wr{}
	w.f = func(n int, p av.Packet) error { if n == 0 { r.send(I("x"), K("k2"), I("i3"), I("i4")) }; return nil }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("k1"), K("k2"), I("i3"), I("i4")))
}
''', 'a subscriber lagging into a later group of pictures that already holds several packets', 'a lagging subscriber resumes in the middle of the current group')
seed('s01-index-after', 'S01', [(F, '	gc.idx++\n', '	if !pkt.IsKeyFrame || len(gc.pkts) > 1 || gc.idx == 0 {\n		gc.idx++\n	}\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	w := &wr{}
	go s.addSub(make(chan bool), w)
	r.send(K("k1"))
	w.wait(t, line(K("k1")))
	r.send(K("k2"), I("i2"))
	w.wait(t, line(K("k1"), K("k2"), I("i2")))
}
''', 'a second key frame reaching a subscriber that is up to date', 'a key frame is skipped and the group is joined at an inter frame')
seed('s02-unbuffered', 'S02', [(F, '		notify: make(chan struct{}, 1),\n', '		notify: make(chan struct{}),\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	w := &wr{}
	var once sync.Once
	w.fl = func() { once.Do(func() { r.send(K("k1")) }) }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("k1")))
}
''', 'a packet published between a subscriber looking at the cache and waiting', 'the wake-up is lost and the last packet stays in the cache')
seed('s02-late-register', 'S02', [(F, '	s.sub.Store(ss, nil)\n	defer s.sub.Delete(ss)\n', '	registered := false\n	defer s.sub.Delete(ss)\n'),
 (F, '			select {\n			case <-close:\n				return\n			case <-ss.notify:\n', '			if !registered {\n				s.sub.Store(ss, nil)\n				registered = true\n			}\n			select {\n			case <-close:\n				return\n			case <-ss.notify:\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(K("k1"))
	w := &wr{}
	var once sync.Once
	w.fl = func() { once.Do(func() { r.send(I("i1")) }) }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("k1"), I("i1")))
}
''', 'a packet published between the first look at the cache and the registration', 'the last packet before a pause is never sent to a new subscriber')
seed('s02-forget', 'S02', [(F, '	defer s.sub.Delete(ss)\n', ''), (F, '			case <-close:\n				return\n			case <-ss.notify:\n', '			case <-close:\n				s.sub.Delete(ss)\n				return\n			case <-ss.notify:\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(K("k1"))
	for i := 0; i < 100; i++ { s.addSub(make(chan bool), &wr{f: func(int, av.Packet) error { return io.EOF }}) }
	n := 0
	s.sub.Range(func(k, v interface{}) bool { n++; return true })
	if n != 0 { t.Fatal(n, "ended subscribers remembered") }
}
''', 'subscribers that end by a write failure instead of the close notification', 'ended subscribers are remembered for as long as the stream lives')
seed('s03-clear-on-exit', 'S03', [(F, '	oldsp := (*streamPub)(atomic.SwapPointer(&s.pub, unsafe.Pointer(sp)))\n', '	oldsp := (*streamPub)(atomic.SwapPointer(&s.pub, unsafe.Pointer(sp)))\n	defer atomic.StorePointer(&s.pub, nil)\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r1 := start(s)
	r1.send(K("a1"))
	w := &wr{}
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("a1")))
	r2 := start(s)
	close(r1.pk)
	time.Sleep(50*time.Millisecond)
	r2.send(K("b1"), I("b2"))
	w.wait(t, line(K("a1"), K("b1"), I("b2")))
}
''', 'a publisher that ends after it was replaced', 'the replaced publisher takes the new one off the stream when it ends')
seed('s03-cas-less', 'S03', [(F, '	oldsp := (*streamPub)(atomic.SwapPointer(&s.pub, unsafe.Pointer(sp)))\n	if oldsp != nil {\n		oldsp.cancel()\n	}\n', '	oldsp := (*streamPub)(atomic.LoadPointer(&s.pub))\n	if oldsp != nil {\n		oldsp.cancel()\n	}\n	atomic.StorePointer(&s.pub, unsafe.Pointer(sp))\n')], D, P + '''type hookRd struct { n *int64; stop *int32 }
func (h hookRd) ReadPacket() (av.Packet, error) { atomic.AddInt64(h.n, 1); runtime.Gosched(); if atomic.LoadInt32(h.stop) != 0 { return av.Packet{}, io.EOF }; return K("k"), nil }
func TestDemo(t *testing.T) {
	for i := 0; i < 60000; i++ {
		s := &stream{}
		var stop int32
		var n [2]int64
		var ended int32
		var wg sync.WaitGroup
		gate := make(chan bool)
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func(j int) { defer wg.Done(); <-gate; s.setPub(hookRd{&n[j], &stop}); atomic.AddInt32(&ended, 1) }(j)
		}
		close(gate)
		// exactly one of the two is told to stop
		ok := false
		for k := 0; k < 2000 && !ok; k++ { ok = atomic.LoadInt32(&ended) == 1; if k > 50 { time.Sleep(100*time.Microsecond) } else { runtime.Gosched() } }
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		if !ok { t.Fatal("two publishers run on one stream, round", i) }
	}
}
''', 'two publishers starting at the same moment', 'neither publisher is told to stop')
seed('s03-cursor-kept', 'S03', [(F, '			cursor = &gopCacheReadCursor{}\n			lastsp = sp\n', '			if cursor == nil || sp.gc.idx == 0 {\n				cursor = &gopCacheReadCursor{}\n			}\n			lastsp = sp\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r1 := start(s)
	r1.send(K("a1"))
	w := &wr{}
	var r2 *rd
	w.f = func(n int, p av.Packet) error { if n == 0 { r2 = start(s); r2.send(K("b1"), I("b2")) }; return nil }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(K("a1"), K("b1"), I("b2")))
}
''', 'a new publisher that already sent packets when a busy subscriber notices it', 'the position in the old feed is used for the new one: its start is skipped')
seed('s04-fast-path', 'S04', [(F, '''	ss.l.Lock()
	defer ss.l.Unlock()

	log.Println("stream", k, "add")

	s, ok := ss.m[k]
''', '''	ss.l.RLock()
	s, ok := ss.m[k]
	ss.l.RUnlock()

	ss.l.Lock()
	defer ss.l.Unlock()

	log.Println("stream", k, "add")

''')], D, P + '''func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		ss := newStreams()
		var wg sync.WaitGroup
		var a [2]*stream
		for j := 0; j < 2; j++ { wg.Add(1); go func(j int) { defer wg.Done(); a[j], _ = ss.add("/x") }(j) }
		wg.Wait()
		if a[0] != a[1] { t.Fatal("two active sessions on one path do not share a stream, round", i) }
	}
}
''', 'two sessions on a new path starting at the same moment', 'they get different streams: a player waits for ever')
seed('s04-remove-race', 'S04', [(F, '''		s.n--
		if s.n == 0 {
			delete(ss.m, k)
		}
''', '''		if atomic.AddInt64(&s.n, -1) == 0 {
			ss.drop = append(ss.drop, k)
		}
		if len(ss.drop) > 1 {
			for _, k := range ss.drop {
				delete(ss.m, k)
			}
			ss.drop = nil
		}
'''), (F, '	m map[string]*stream\n}', '	m map[string]*stream\n	drop []string\n}')], D, P + '''func TestDemo(t *testing.T) {
	ss := newStreams()
	_, ra := ss.add("/a")
	ra()
	sa, _ := ss.add("/a")
	_, rb := ss.add("/b")
	rb()
	if s2, _ := ss.add("/a"); s2 != sa { t.Fatal("two active sessions on one path do not share a stream") }
}
''', 'a path that is used again after its last session ended, while another path ends', 'streams are dropped in batches, also when they were taken again in between')
seed('s04-prefix-key', 'S04', [(F, '	s, ok := ss.m[k]\n	if !ok {\n', '	if n := len(k); n > 1 && k[n-1] >= \'0\' && k[n-1] <= \'9\' && ss.m[k[:n-1]] != nil {\n		k = k[:n-1]\n	}\n	s, ok := ss.m[k]\n	if !ok {\n')], D, P + '''func TestDemo(t *testing.T) {
	ss := newStreams()
	a, _ := ss.add("/live/cam")
	b, _ := ss.add("/live/cam1")
	if a == b { t.Fatal("different paths share a stream") }
}
''', 'two paths of which one is the other plus a digit, the shorter one active', 'sessions naming different paths share a stream')
seed('s05-plain-load', 'S05', [(F, '	return (*gopCacheSnapshot)(atomic.LoadPointer(&gc.curst))\n', '	return (*gopCacheSnapshot)(gc.curst)\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	w := &wr{}
	c := make(chan bool, 1)
	done := make(chan bool)
	go func() { s.addSub(c, w); close(done) }()
	for i := 0; i < 500; i++ { r.send(K("k")); runtime.Gosched() }
	c <- true
	<-done
}
''', 'a subscriber that looks at the cache without having been woken by that packet', 'the snapshot pointer is read without synchronisation', race=True)
seed('s05-config-buffer', 'S05', [(F, '		m.hdrpkt.VSeqHdr = append([]byte(nil), pkt.Data...)\n', '		m.hdrpkt.VSeqHdr = append(m.hdrpkt.VSeqHdr[:0], pkt.Data...)\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(C(av.H264DecoderConfig, "vv"), K("k1"))
	w := &wr{}
	w.f = func(n int, p av.Packet) error { if n == 0 && string(p.Data) == "vv" { r.send(C(av.H264DecoderConfig, "ww")); if string(p.Data) != "vv" { t.Error("the configuration handed to a subscriber changed under its hands") } }; return nil }
	go s.addSub(make(chan bool), w)
	w.wait(t, line(C(av.H264DecoderConfig, "vv"), K("k1")))
}
''', 'a configuration of the same or smaller size arriving while a subscriber uses the previous one', 'packets handed to subscribers are modified in place')
seed('s05-shared-index', 'S05', [(F, '	if diff := cur.idx - lastidx; diff <= len(cur.pkts) {\n', '	cur.used++\n	if diff := cur.idx - lastidx; diff <= len(cur.pkts) {\n'), (F, 'type gopCacheSnapshot struct {\n', 'type gopCacheSnapshot struct {\n	used int\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	var cs []chan bool
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		c := make(chan bool, 1)
		cs = append(cs, c)
		wg.Add(1)
		go func() { defer wg.Done(); s.addSub(c, &wr{}) }()
	}
	for i := 0; i < 300; i++ { r.send(K("k")) }
	for _, c := range cs { c <- true }
	wg.Wait()
}
''', 'two subscribers of one stream reading the same snapshot', 'a statistics counter in the shared snapshot is updated without synchronisation', race=True)
seed('s06-only-changed', 'S06', [(F, '			pkt.VSeqHdr = m.hdrpkt.VSeqHdr\n', '			pkt.VSeqHdr, m.hdrpkt.VSeqHdr = m.hdrpkt.VSeqHdr, nil\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(C(av.H264DecoderConfig, "v"), K("k1"), I("i1"), K("k2"))
	w := &wr{}
	go s.addSub(make(chan bool), w)
	w.wait(t, line(C(av.H264DecoderConfig, "v"), K("k2")))
}
''', 'a subscriber joining after a second key frame without a configuration change', 'its first key frame comes without decoder configuration')
seed('s06-meta-media', 'S06', [(F, '''	case av.AAC:
		pkt.Metadata = m.hdrpkt.Metadata
''', '''	case av.AAC:
		if m.hdrpkt.VSeqHdr == nil {
			pkt.Metadata = m.hdrpkt.Metadata
		}
''')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(C(av.H264DecoderConfig, "v"), K("k1"))
	w := &wr{}
	go s.addSub(make(chan bool), w)
	w.wait(t, line(C(av.H264DecoderConfig, "v"), K("k1")))
	r.send(C(av.Metadata, "m"), A("a1"), I("i1"))
	w.wait(t, line(C(av.H264DecoderConfig, "v"), K("k1"), C(av.Metadata, "m"), A("a1"), I("i1")))
}
''', 'metadata that changes and is followed by audio in a stream with video', 'audio is sent before the metadata in force')
seed('s06-prefix-compare', 'S06', [(F, 'if len(pkt.ASeqHdr) != 0 && bytes.Compare(s.hdrpkt.ASeqHdr, pkt.ASeqHdr) != 0 {', 'if len(pkt.ASeqHdr) != 0 && !bytes.HasPrefix(pkt.ASeqHdr, s.hdrpkt.ASeqHdr[:len(s.hdrpkt.ASeqHdr)/2*2]) || s.hdrpkt.ASeqHdr == nil && len(pkt.ASeqHdr) != 0 {')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	w := &wr{}
	go s.addSub(make(chan bool), w)
	r.send(C(av.AACDecoderConfig, "abc"), A("1"))
	w.wait(t, line(C(av.AACDecoderConfig, "abc"), A("1")))
	r.send(C(av.AACDecoderConfig, "abd"), A("2"))
	w.wait(t, line(C(av.AACDecoderConfig, "abc"), A("1"), C(av.AACDecoderConfig, "abd"), A("2")))
}
''', 'audio configurations of odd length that differ in the last byte', 'the new configuration is not sent')
seed('s06-aseq-cleared', 'S06', [(F, '		m.hdrpkt.VSeqHdr = append([]byte(nil), pkt.Data...)\n', '		m.hdrpkt = av.Packet{Metadata: m.hdrpkt.Metadata, VSeqHdr: append([]byte(nil), pkt.Data...)}\n')], D, P + '''func TestDemo(t *testing.T) {
	s := &stream{}
	r := start(s)
	r.send(C(av.AACDecoderConfig, "a"), C(av.H264DecoderConfig, "v"), K("k1"), A("1"))
	w := &wr{}
	go s.addSub(make(chan bool), w)
	w.wait(t, line(C(av.H264DecoderConfig, "v"), K("k1"), C(av.AACDecoderConfig, "a"), A("1")))
}
''', 'a video configuration that comes after the audio configuration', 'audio is sent without its configuration')
