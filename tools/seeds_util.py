K = 'av/pktop/pktop.go'
F = 'format/format.go'
HEAD = '''package pktop
import ("testing"; "time"; "github.com/nareix/joy5/av")
func at(ms ...int) (out []av.Packet) {
	for _, m := range ms { out = append(out, av.Packet{Time: time.Duration(m)*time.Millisecond}) }
	return
}
'''
seed('u01-wall-once', 'U01', [(K, '''				time.Sleep(pktTimeDiff - wallTimeDiff)
			}
			l.pktTimeStart = pkt.Time
			l.wallTimeStart = time.Now()
''', '''				time.Sleep(pktTimeDiff - wallTimeDiff)
				l.wallTimeStart = time.Now()
			}
			l.pktTimeStart = pkt.Time
''')],
 'av/pktop', HEAD + '''func TestDemo(t *testing.T) {
	l := NewNativeRateLimiter()
	l.Do(at(0))
	time.Sleep(300*time.Millisecond)
	l.Do(at(200)) // already late
	s := time.Now()
	l.Do(at(400))
	if d := time.Since(s); d < 190*time.Millisecond { t.Fatal("too early", d) }
}
''', 'a packet that comes after its time, then one that comes early', 'after a late packet the clock base is not moved, the following packets leave too early')
seed('u01-back-base', 'U01', [(K, '''			l.pktTimeStart = pkt.Time
			l.wallTimeStart = time.Now()
		}
''', '''			l.wallTimeStart = time.Now()
		}
		l.pktTimeStart = pkt.Time
''')],
 'av/pktop', HEAD + '''func TestDemo(t *testing.T) {
	l := NewNativeRateLimiter()
	l.Do(at(0)); l.Do(at(1000000-1000000+10))
	l.Do(at(-400))
	s := time.Now()
	l.Do(at(10))
	if d := time.Since(s); d > 200*time.Millisecond { t.Fatal("held although due", d) }
}
''', 'a timestamp that steps back and returns', 'a packet already due is held for the size of the step back')
seed('u01-batch-sum', 'U01', [(K, '''	for _, pkt := range in {
''', '''	wallNow := time.Now()
	for _, pkt := range in {
'''), (K, '''			wallTimeDiff := time.Now().Sub(l.wallTimeStart)
''', '''			wallTimeDiff := wallNow.Sub(l.wallTimeStart)
''')],
 'av/pktop', HEAD + '''func TestDemo(t *testing.T) {
	l := NewNativeRateLimiter()
	s := time.Now()
	l.Do(at(0))
	time.Sleep(50*time.Millisecond)
	l.Do(at(100, 200, 300))
	if d := time.Since(s); d > 350*time.Millisecond { t.Fatal("held too long", d) }
}
''', 'several packets handed over in one call', 'the clock is read once per call: later packets of a batch are held for the earlier ones again')
OPEN = '''package format
import ("testing"; "os"; "io"; "path/filepath"; "bytes"; "time"; "github.com/nareix/joy5/av")
var _ = io.EOF
var _ = bytes.Equal
var _ = time.Second
func file(t *testing.T, n int) string {
	p := filepath.Join(t.TempDir(), "a.flv")
	if n > 0 { if err := os.WriteFile(p, make([]byte, n), 0600); err != nil { t.Fatal(err) } }
	return p
}
func write(t *testing.T, u string, pkts ...av.Packet) {
	var o URLOpener
	w, err := o.Create(u, nil)
	if err != nil { t.Fatal(err) }
	for _, p := range pkts { if err := w.WritePacket(p); err != nil { t.Fatal(err) } }
	if err := w.Close(); err != nil { t.Fatal(err) }
}
'''
seed('u02-ext-of-address', 'U02', [(F, '''	case "http", "https":
		ext := path.Ext(u.Path)
''', '''	case "http", "https":
		ext := path.Ext(url_)
''')],
 'format', OPEN + '''func TestDemo(t *testing.T) {
	var o URLOpener
	_, err := o.Open("http://127.0.0.1:1/live.txt?f=x.flv")
	if err == nil || err.Error() != ErrUnsupported("http://127.0.0.1:1/live.txt?f=x.flv").Error() { t.Fatal(err) }
	_, err = o.Open("http://127.0.0.1:1/live.flv?sig=ab")
	if err == nil || err.Error() == ErrUnsupported("http://127.0.0.1:1/live.flv?sig=ab").Error() { t.Fatal(err) }
}
''', 'an http address with a query', 'the extension is taken from the query instead of the path')

seed('u02-serve-inline', 'U02', [(F, '			go s.HandleNetConn(nc)\n', '			s.HandleNetConn(nc)\n')], 'format', '''package format
import ("testing"; "net"; "time"; "net/url"; "github.com/nareix/joy5/format/rtmp")
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	host := l.Addr().String()
	l.Close()
	go func() {
		var nc net.Conn
		var err error
		for {
			if nc, err = net.Dial("tcp", host); err == nil { break } // says nothing
			time.Sleep(10*time.Millisecond)
		}
		defer nc.Close()
		if nc, err = net.Dial("tcp", host); err != nil { return }
		u, _ := url.Parse("rtmp://" + host + "/app/s")
		rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareWriting)
		time.Sleep(20*time.Second)
	}()
	s := time.Now()
	if _, err := (&URLOpener{}).Open("@rtmp://" + host); err != nil { t.Fatal(err) }
	if d := time.Since(s); d > 5*time.Second { t.Fatal("the publisher waited for", d) }
}
''', 'a connection that says nothing before the publisher comes', 'the publisher is not served until the silent one is given up on')

seed('u02-escaped-name', 'U02', [(F, '			if f, err = os.Open(u.Path); err != nil {', '			if f, err = os.Open(u.EscapedPath()); err != nil {')], 'format', '''package format
import ("testing"; "os"; "path/filepath")
func TestDemo(t *testing.T) {
	d, err := os.MkdirTemp("", "demo")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	p := filepath.Join(d, "my stream.flv")
	if err := os.WriteFile(p, nil, 0600); err != nil { t.Fatal(err) }
	r, err := (&URLOpener{}).Open(p)
	if err != nil { t.Fatal(err) }
	r.Close()
}
''', 'a file name with a character that is escaped in addresses, which is created as it is', 'the file just written cannot be opened')

seed('u02-close-error', 'U02', [(F, '	if err := c.Closer.Close(); err != nil {\n		return err\n	}\n\n	return nil', '	c.Closer.Close()\n\n	return nil')], 'format', '''package format
import ("testing"; "errors"; "os"; "github.com/nareix/joy5/codec/aac"; "github.com/nareix/joy5/format/mp4")
type st struct{}
func (st) Streams() ([]interface{}, error) {
	c, err := aac.FromMPEG4AudioConfigBytes([]byte{0x12, 0x10})
	return []interface{}{c}, err
}
type full struct{}
func (full) Close() error { return errors.New("quota exceeded") }
func TestDemo(t *testing.T) {
	f, err := os.CreateTemp("", "demo*.mp4")
	if err != nil { t.Fatal(err) }
	defer os.Remove(f.Name())
	defer f.Close()
	m, err := mp4.NewMuxer(NewStreamsWriteSeeker(f, st{}))
	if err != nil { t.Fatal(err) }
	if (Mp4WriterCloser{full{}, m}).Close() == nil { t.Fatal("closing failed and nothing is said") }
}
''', 'a file whose close fails (network file systems report write errors then)', 'the error is swallowed')
