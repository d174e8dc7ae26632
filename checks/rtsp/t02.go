package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp"

	"joyverif/h264model"
	"joyverif/mc"
	"joyverif/vs"
)

var spsA, ppsA = h264model.Basic(0, 4, 3).NAL(), h264model.PPS(0, 0)

func vtrack(control string) track {
	return track{kind: "V", control: control, pt: 96, rate: 90000, sprop: [][]byte{spsA, ppsA}}
}
func atrack(control string) track {
	return track{kind: "A", control: control, pt: 97, rate: 44100, sizes: "sizelength=13;indexlength=3;indexdeltalength=3;"}
}
func apptrack(control string) track {
	return track{kind: "app", control: control, pt: 107}
}

type scenario struct {
	path      string
	auth      auth
	creds     string
	tracks    []track
	control   int
	session   string
	errAt     int // request number at which the error comes, -1 none
	errCode   int
	errBody   bool
	eol       string
	style     int
	reason    string
	interim   string // method answered with an interim reply first
	early     int    // what comes before the reply to PLAY
	ops       int
	extra     bool
	only      []int // tracks set up
	malformed int
}

// server is a strict RTSP server as the scenario describes it.
type server struct {
	*srv
	sc       scenario
	base     string
	cseq     int
	methods  []string
	session  string // issued
	channels map[int]int
	playing  bool
	bad      string
	errSent  bool
	refused  int // challenges after the first
	challng  int
	media    func() []byte
	n        int
}

func (s *server) failf(key, format string, a ...interface{}) {
	if s.bad == "" {
		s.bad = key + "|" + fmt.Sprintf(format, a...)
	}
}

func (s *server) header(k string) string {
	switch s.sc.style {
	case 1:
		return strings.ToUpper(k)
	case 2:
		return strings.ToLower(k)
	}
	return k
}

func (s *server) reply(r *request, code int, reason string, hdr []string, body string) {
	e := s.sc.eol
	b := fmt.Sprintf("RTSP/1.0 %d", code)
	if reason != "" {
		b += " " + reason
	}
	b += e + s.header("CSeq") + ": " + r.get("cseq") + e
	if s.sc.style == 3 {
		b += "Server: $ RTSP/1.0 Server" + e + "Date: Thu, 01 Jan 1970 00:00:00 GMT" + e
	}
	for _, h := range hdr {
		kv := strings.SplitN(h, ": ", 2)
		b += s.header(kv[0]) + ": " + kv[1] + e
	}
	if body != "" {
		b += s.header("Content-Length") + fmt.Sprintf(": %d", len(body)) + e
	} else if s.sc.style == 3 {
		b += "Content-Length: 0" + e
	}
	s.out = append(s.out, b+e+body...)
}

func (s *server) trackOf(uri string) int {
	for i, t := range s.sc.tracks {
		want := ""
		switch {
		case t.control == "" || t.control == "*":
			want = s.base
		case strings.HasPrefix(t.control, "rtsp://"):
			want = t.control
		default:
			want = strings.TrimSuffix(s.base, "/") + "/" + t.control
		}
		if sameAddr(uri, want) {
			return i
		}
	}
	return -1
}

func (s *server) handle(r *request) {
	s.n++
	if r.version != "RTSP/1.0" || r.method == "BAD" || r.method == "" {
		s.failf("request", "malformed request %q", r.raw)
		s.eof = true
		return
	}
	s.methods = append(s.methods, r.method)
	if s.errSent && r.method != "TEARDOWN" && r.method != "OPTIONS" {
		s.failf("after error", "%s although a request was refused", r.method)
	}
	cs := atoi(r.get("cseq"))
	if len(r.hdr["cseq"]) != 1 || cs < 0 || (s.n > 1 && cs != s.cseq+1) {
		s.failf("cseq", "request %d has CSeq %v, the one before %d", s.n, r.hdr["cseq"], s.cseq)
	}
	s.cseq = cs
	if s.session != "" && (len(r.hdr["session"]) != 1 || r.get("session") != s.session) {
		s.failf("session", "%s quotes session %q, it is %q", r.method, r.hdr["session"], s.session)
	}
	if s.session == "" && r.get("session") != "" {
		s.failf("session", "%s quotes session %q, none was given", r.method, r.get("session"))
	}
	if s.sc.extra && r.get("x-extra") != "yes" {
		s.failf("headers", "%s lacks the extra header", r.method)
	}
	if u, _ := url.Parse(r.uri); u == nil || u.User != nil {
		s.failf("address", "%s has address %q", r.method, r.uri)
	}
	a := s.sc.auth
	if a.challenge != "" && (a.onlyMethods == nil || a.onlyMethods[r.method]) {
		if ok, got := a.ok(r); !ok {
			if s.challng++; (s.challng > 1 || got != "none") && !a.wrongCreds {
				s.failf("credentials", "%s %s with credentials %s for challenge %s", r.method, r.uri, got, a.challenge)
			}
			s.reply(r, 401, "Unauthorized", []string{"WWW-Authenticate: " + a.challenge}, "")
			return
		}
	}
	if s.sc.interim == r.method {
		s.reply(r, 100, "Continue", nil, "")
	}
	if s.sc.errAt >= 0 && s.sc.errAt == s.stageOf(r.method) && !s.errSent {
		s.errSent = true
		body := ""
		if s.sc.errBody {
			body = "<html>v=0\nm=video 0 RTP/AVP 96\na=rtpmap:96 H264/90000\n</html>"
		}
		switch s.sc.malformed {
		case 0:
			s.reply(r, s.sc.errCode, s.sc.reason, nil, body)
		case 1:
			s.out = append(s.out, "RTSP/1.0 abc OK\r\nCSeq: 1\r\n\r\n"...)
			s.eof = true
		case 2:
			s.out = append(s.out, "RTSP/1.0\r\n\r\n"...)
			s.eof = true
		case 3:
			s.eof = true
		}
		// the connection stays open after an error status
		return
	}
	switch r.method {
	case "OPTIONS":
		s.reply(r, 200, s.sc.reason, []string{"Public: DESCRIBE, SETUP, PLAY, TEARDOWN"}, "")
	case "DESCRIBE":
		if !sameAddr(r.uri, s.base) {
			s.failf("address", "DESCRIBE %s, want %s", r.uri, s.base)
		}
		if !strings.Contains(r.get("accept"), "application/sdp") {
			s.failf("request", "DESCRIBE accepts %q", r.get("accept"))
		}
		var sess []string
		if s.sc.control == 3 {
			sess = []string{"a=control:*"}
		}
		if s.sc.control == 6 {
			for i := 0; i < 100; i++ {
				sess = append(sess, fmt.Sprintf("a=x-line-%d:%s", i, strings.Repeat("m=$RTSP ", 20)))
			}
		}
		eol := s.sc.eol
		s.reply(r, 200, s.sc.reason, []string{"Content-Type: application/sdp"}, describe(s.sc.tracks, eol, sess...))
	case "SETUP":
		i := s.trackOf(r.uri)
		if i < 0 {
			s.failf("address", "SETUP %s names no track of %v", r.uri, s.sc.tracks)
			s.eof = true
			return
		}
		var x, y int
		tr := ""
		for _, f := range strings.Split(r.get("transport"), ";") {
			if _, err := fmt.Sscanf(f, "interleaved=%d-%d", &x, &y); err == nil {
				tr = f
			}
		}
		if !strings.HasPrefix(r.get("transport"), "RTP/AVP/TCP;") || !strings.Contains(r.get("transport"), "unicast") || tr == "" || y != x+1 || x < 0 || y > 255 {
			s.failf("transport", "SETUP asks for %q", r.get("transport"))
		}
		for j, ch := range s.channels {
			if j != i && ch == x {
				s.failf("transport", "channel %d asked for twice", x)
			}
		}
		s.channels[i] = x
		s.session = strings.SplitN(s.sc.session, ";", 2)[0]
		s.reply(r, 200, s.sc.reason, []string{"Transport: " + r.get("transport") + ";ssrc=11223344", "Session: " + s.sc.session}, "")
	case "PLAY":
		if !sameAddr(r.uri, s.base) {
			s.failf("address", "PLAY %s, want %s", r.uri, s.base)
		}
		if len(s.channels) != len(s.sc.only) {
			s.failf("setup", "PLAY with tracks %v set up, want %v", s.channels, s.sc.only)
		}
		switch s.sc.early {
		case 1:
			s.out = append(s.out, s.media()...)
		case 2:
			for _, ch := range s.channels {
				s.out = append(s.out, block(ch+1, rtcp())...)
				break
			}
		}
		s.reply(r, 200, s.sc.reason, []string{"Session: " + s.sc.session, "RTP-Info: url=x;seq=1;rtptime=2"}, "")
		s.playing = true
	case "TEARDOWN":
		s.reply(r, 200, s.sc.reason, nil, "")
		s.eof = true
	default:
		s.failf("request", "method %s", r.method)
	}
}

func (s *server) stageOf(m string) int {
	switch m {
	case "DESCRIBE":
		return 0
	case "SETUP":
		return 1 + len(s.channels) // first, second, third
	case "PLAY":
		return 4
	case "OPTIONS":
		return 5
	}
	return -1
}

var t02paths = []string{"/s", ":8554/s", "/s/", "/s?x=1&y=2", "/", "", "/a/b%20c.sdp"}
var t02tracks = [][]string{{"V"}, {"V", "A"}, {"A"}, {"A", "V"}, {"V", "app", "A"}, {"V", "A", "app"}, {"app", "V"}, {"V", "A", "A"}}

func pick(c *mc.Ctx) scenario {
	var s scenario
	s.path = t02paths[c.Dev(len(t02paths))]
	s.auth = auths[c.Dev(len(auths))]
	switch c.Dev(4) {
	case 1:
		s.auth.onlyMethods = map[string]bool{"SETUP": true}
	case 2:
		s.auth.onlyMethods = map[string]bool{"PLAY": true}
	case 3:
		s.auth.onlyMethods = map[string]bool{"SETUP": true, "PLAY": true, "OPTIONS": true}
	}
	k := c.Dev(5)
	s.creds = []string{"user:pass@", "", "u%40x:p%3Aq%2F@", "user@", "user:wrong@"}[k]
	s.auth.user = []string{"user", "", "u@x", "user", "user"}[k]
	s.auth.pass = []string{"pass", "", "p:q/", "", "pass"}[k]
	s.auth.wrongCreds = k == 4
	kinds := t02tracks[c.Dev(len(t02tracks))]
	s.control = c.Dev(7) // trackID=n, track/n, absolute, session level too, absent, that of the session, a long description
	media := 0
	for i, k := range kinds {
		ctl := fmt.Sprintf([]string{"trackID=%d", "track/%d", "rtsp://HOST/x/t%d", "trackID=%d", "%d", "%d", "trackID=%d"}[s.control], i+1)
		if s.control == 4 || s.control == 5 {
			if len(kinds) > 1 {
				c.Prune()
			}
			ctl = []string{"", "*"}[s.control-4]
		}
		switch k {
		case "V":
			s.tracks = append(s.tracks, vtrack(ctl))
			media++
		case "A":
			s.tracks = append(s.tracks, atrack(ctl))
			media++
		default:
			s.tracks = append(s.tracks, apptrack(ctl))
		}
	}
	s.session = []string{"S1", "12345678;timeout=60", "aA-_.+$;timeout=1"}[c.Dev(3)]
	s.errAt = -1
	codes := []int{404, 400, 403, 410, 454, 461, 500, 503, 302}
	if k := c.Dev(1 + 6*(len(codes)+3)); k > 0 {
		s.errAt = (k - 1) / (len(codes) + 3)
		if j := (k - 1) % (len(codes) + 3); j < len(codes) {
			s.errCode = codes[j]
		} else {
			s.malformed = j - len(codes) + 1
		}
	}
	s.errBody = c.Dev(2) == 1
	s.eol = []string{"\r\n", "\n"}[c.Dev(2)]
	s.style = c.Dev(4)
	s.reason = []string{"OK", "", "Quite all right", "RTSP $"}[c.Dev(4)]
	s.interim = []string{"", "DESCRIBE", "SETUP", "PLAY"}[c.Dev(4)]
	s.early = c.Dev(3)
	s.ops = c.Dev(7)
	s.extra = c.Dev(2) == 1
	for i, t := range s.tracks {
		if t.kind != "app" {
			s.only = append(s.only, i)
		}
	}
	return s
}

func startServer(c *mc.Ctx, sc scenario) (*server, string, func()) {
	s := &server{srv: &srv{c: c}, sc: sc, channels: map[int]int{}}
	s.onReq = s.handle
	host, done := register(s.srv)
	s.base = "rtsp://" + host + sc.path
	tr := append([]track(nil), sc.tracks...)
	for i := range tr {
		tr[i].control = strings.Replace(tr[i].control, "HOST", host, 1)
	}
	s.sc.tracks = tr
	return s, "rtsp://" + sc.creds + host + sc.path, done
}

func nal(typ, n, seed int) []byte {
	b := []byte{0x60 | byte(typ)}
	for i := 1; i < n; i++ {
		b = append(b, byte(seed*16+i)|1)
	}
	return b
}

func avcc(nals ...[]byte) (b []byte) {
	for _, n := range nals {
		b = append(b, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return
}

// simpleMedia is one packet per track and round.
func (s *server) simpleMedia(rounds int, want *[]av.Packet) []byte {
	var out []byte
	for k := 0; k < rounds; k++ {
		for i, t := range s.sc.tracks {
			ch, ok := s.channels[i]
			if !ok {
				continue
			}
			p := rtpPkt{pt: t.pt, seq: 7 + k, ts: uint32(1000 + k*t.rate/10), ext: -1, marker: true}
			w := av.Packet{Time: time.Duration(k) * 100 * time.Millisecond}
			if t.kind == "V" {
				typ := 1
				if k == 0 {
					typ = 5
				}
				n := nal(typ, 9, k)
				p.payload = n
				w.Type, w.IsKeyFrame, w.Data = av.H264, k == 0, avcc(n)
			} else {
				au := []byte{byte(k), 1, 2, 3, '$'}
				p.payload = append([]byte{0, 16, byte(len(au) >> 5), byte(len(au) << 3)}, au...)
				w.Type, w.Data = av.AAC, au
			}
			out = append(out, block(ch, p.bytes())...)
			*want = append(*want, w)
			if k == 0 {
				out = append(out, block(ch+1, rtcp())...)
			}
		}
	}
	return out
}

func pktEqual(a, b av.Packet) bool {
	return a.Type == b.Type && a.Time == b.Time && a.IsKeyFrame == b.IsKeyFrame && a.CTime == b.CTime && bytes.Equal(a.Data, b.Data)
}

func sessionRun(c *mc.Ctx) {
	sc := pick(c)
	frags := []int{0, 1, 2, 7, 100}
	frag := frags[c.Dev(len(frags))]
	if sc.auth.challenge == "" && sc.auth.onlyMethods != nil {
		c.Prune()
	}
	if sc.errAt < 0 && sc.errBody {
		c.Prune()
	}
	if sc.errAt > 1 && sc.errAt < 4 && len(sc.only) < sc.errAt {
		c.Prune()
	}
	s, addr, done := startServer(c, sc)
	defer done()
	if frag > 0 {
		s.frag = func(int) int { return frag }
	}
	subset := sc.ops == 6 && len(sc.only) > 1
	if sc.ops == 6 && !subset {
		c.Prune()
	}
	if sc.errAt == 5 && sc.ops != 4 {
		c.Prune()
	}
	if subset {
		s.sc.only = sc.only[1:]
	}
	c.Logf("%+v frag %d", sc, frag)
	var want []av.Packet
	sent := false
	s.media = func() []byte {
		if sent {
			return nil
		}
		sent = true
		return s.simpleMedia(2, &want)
	}
	s.onIdle = func() {
		if s.playing {
			s.out = append(s.out, s.media()...)
			s.eof = true
		}
	}
	cl, err := rtsp.DialTimeout(addr, time.Second)
	if err != nil {
		c.FailK("dial", "%v", err)
	}
	if len(s.dialed) != 1 {
		c.FailK("dial", "dialled %v", s.dialed)
	}
	if port := s.dialed[0][strings.LastIndex(s.dialed[0], ":"):]; port != map[bool]string{true: ":8554", false: ":554"}[sc.path == ":8554/s"] {
		c.FailK("dial", "dialled port %s", port)
	}
	if sc.extra {
		cl.Headers = []string{"X-Extra: yes"}
	}
	step := func(what string, f func() error) {
		if err != nil {
			return
		}
		if err = f(); err != nil {
			c.Logf("%s: %v", what, err)
		}
		c.Step(1)
	}
	streams := -1
	switch sc.ops {
	case 1:
		step("streams", func() error {
			x, err := cl.Streams()
			streams = len(x)
			return err
		})
	case 2:
		step("describe", cl.Describe)
		step("setup", cl.SetupAll)
		step("play", cl.Play)
	case 3:
		step("setup", cl.SetupAll)
	case 4:
		step("options", cl.Options)
	case 5:
		step("describe", cl.Describe)
	case 6:
		step("setup", func() error {
			var idx []int
			for i := 1; i <= len(s.sc.only); i++ {
				idx = append(idx, i)
			}
			return cl.Setup(idx)
		})
	}
	var got []av.Packet
	for err == nil && len(got) < 50 {
		var p av.Packet
		if p, err = cl.ReadPacket(); err == nil {
			got = append(got, p)
			c.Step(1)
		}
	}
	c.State(s.methods, len(got), err != nil)
	c.Outcome(len(got), s.stalled, sc.errAt)
	if s.bad != "" {
		kv := strings.SplitN(s.bad, "|", 2)
		c.FailK(kv[0], "%s", kv[1])
	}
	if streams >= 0 && err != nil && s.playing && streams != len(sc.only) {
		c.FailK("streams", "%d streams, want %d", streams, len(sc.only))
	}
	if s.stalled {
		c.FailK("stall", "after %v the client waits for ever (%v)", s.methods, err)
	}
	refused := (sc.creds == "" || sc.auth.wrongCreds) && sc.auth.challenge != "" && s.challng > 0
	errored := s.errSent
	switch {
	case refused || errored:
		if err == nil {
			c.FailK("refused", "no error")
		}
		if errored && len(got) > 0 && sc.early != 1 && sc.errAt != 4 {
			c.FailK("refused", "media %v although refused", got)
		}
		if refused && s.playing {
			c.FailK("refused", "playing without credentials")
		}
		if errors.Is(err, errStall) {
			c.FailK("stall", "waits for ever after a refusal")
		}
	default:
		if sc.errAt >= 0 {
			c.Prune() // the error was never reached
		}
		if !s.playing {
			c.FailK("session", "never played: %v after %v", err, s.methods)
		}
		if len(got) != len(want) {
			c.FailK("media", "%d packets, want %d (then %v)", len(got), len(want), err)
		}
		for i := range got {
			if !pktEqual(got[i], want[i]) {
				c.FailK("media", "packet %d is %v %x, want %v %x", i, got[i], got[i].Data, want[i], want[i].Data)
			}
		}
		n := len(s.methods)
		if terr := cl.Teardown(); terr != nil || len(s.methods) != n+1 || s.methods[n] != "TEARDOWN" {
			c.FailK("teardown", "error %v after %v", terr, s.methods)
		}
		if s.bad != "" {
			c.FailK("teardown", "%s", s.bad)
		}
		if cerr := cl.Close(); cerr != nil || s.closed != 1 {
			c.FailK("close", "error %v, closed %d times", cerr, s.closed)
		}
	}
}

// cutRun closes the connection, or splits what comes, at every place of a session.
func cutRun(c *mc.Ctx, split bool) {
	var sc scenario
	sc.path, sc.session, sc.errAt, sc.eol, sc.reason, sc.creds = "/s", "S1;timeout=60", -1, "\r\n", "OK", "user:pass@"
	sc.auth = auths[2]
	sc.auth.user, sc.auth.pass = "user", "pass"
	sc.tracks = []track{vtrack("t1"), atrack("t2")}
	sc.only = []int{0, 1}
	s, addr, done := startServer(c, sc)
	defer done()
	var want []av.Packet
	sent := false
	total := 0
	s.media = func() []byte {
		if sent {
			return nil
		}
		sent = true
		return s.simpleMedia(2, &want)
	}
	cuts := []int{}
	n := 1500
	cuts = append(cuts, c.Choose(n))
	if split && c.Bool() {
		cuts = append(cuts, cuts[0]+1+c.Choose(40))
	}
	pos := 0
	s.frag = func(avail int) int {
		for _, x := range cuts {
			if x > pos && x < pos+avail {
				avail = x - pos
			}
		}
		pos += avail
		return avail
	}
	cut := false
	trim := func() {
		if split {
			return
		}
		// everything the client will ever get ends at the cut
		if left := cuts[0] - s.read; left < len(s.out) {
			if left < 0 {
				left = 0
			}
			s.out = s.out[:left]
			s.eof, cut = true, true
		}
	}
	s.onReq = func(r *request) {
		if cut {
			return
		}
		s.handle(r)
		trim()
	}
	s.onIdle = func() {
		if s.playing && !cut {
			s.out = append(s.out, s.media()...)
			s.eof = true
			trim()
		}
	}
	c.Logf("cuts %v split %v", cuts, split)
	cl, err := rtsp.Dial(addr)
	if err != nil {
		c.FailK("dial", "%v", err)
	}
	var got []av.Packet
	for err == nil && len(got) < 50 {
		var p av.Packet
		if p, err = cl.ReadPacket(); err == nil {
			got = append(got, p)
			c.Step(1)
		}
	}
	total = s.read
	c.State(total, len(got))
	if s.bad != "" {
		c.FailK("request", "%s", s.bad)
	}
	if s.stalled || err == nil {
		c.FailK("stall", "waits for ever: %v", s.methods)
	}
	if (split || !cut) && len(got) != 4 {
		c.FailK("media", "%d packets, want 4 (%v)", len(got), err)
	}
	for i := range got {
		if !pktEqual(got[i], want[i]) {
			c.FailK("media", "packet %d is %v %x, want %v %x", i, got[i], got[i].Data, want[i], want[i].Data)
		}
	}
	if !split && !cut && cuts[0] > total+1 {
		c.Prune()
	}
	if split && cuts[0] > total {
		c.Prune()
	}
	c.Outcome(len(got))
}

// keepRun looks at the keep-alives on a virtual clock.
func keepRun(c *mc.Ctx) {
	var sc scenario
	sc.path, sc.session, sc.errAt, sc.eol, sc.reason = "/s", "S1;timeout=60", -1, "\r\n", "OK"
	if c.Bool() {
		sc.auth = auths[2]
		sc.auth.user, sc.auth.pass = "user", "pass"
		sc.creds = "user:pass@"
	}
	sc.tracks = []track{vtrack("t1")}
	sc.only = []int{0}
	gaps := make([]time.Duration, 4)
	for i := range gaps {
		gaps[i] = []time.Duration{time.Second, 4 * time.Second, 11 * time.Second}[c.Choose(3)]
	}
	status := []int{200, 454, 501, 405}[c.Choose(4)]
	on := c.Choose(2) == 1
	if r := vs.Bubble(func() {
		s, addr, done := startServer(c, sc)
		defer done()
		s.media = func() []byte { return nil }
		base := s.handle
		options := 0
		s.onReq = func(r *request) {
			if r.method == "OPTIONS" {
				options++
				s.out, s.sc.reason = append([]byte(nil), s.out...), "x"
				s.methods = append(s.methods, r.method)
				cs := atoi(r.get("cseq"))
				if cs != s.cseq+1 {
					s.failf("cseq", "keep-alive with CSeq %d after %d", cs, s.cseq)
				}
				s.cseq = cs
				if r.get("session") != "S1" {
					s.failf("session", "keep-alive quotes session %q", r.get("session"))
				}
				if !sameAddr(r.uri, s.base) {
					s.failf("address", "keep-alive for %s", r.uri)
				}
				s.n++
				s.reply(r, status, "x", nil, "")
				return
			}
			base(r)
		}
		k := 0
		s.onIdle = func() {
			if s.playing {
				p := rtpPkt{pt: 96, seq: k, ts: uint32(k * 9000), ext: -1, payload: nal(1, 5, k)}
				s.out = append(s.out, block(s.channels[0], p.bytes())...)
				k++
			}
		}
		cl, err := rtsp.Dial(addr)
		if err != nil {
			c.FailK("dial", "%v", err)
		}
		if on {
			cl.RtpKeepAliveTimeout = 10 * time.Second
		}
		var last time.Time
		wantOptions := 0
		for i := 0; i < 5; i++ {
			if i > 0 {
				time.Sleep(gaps[i-1])
			}
			// one is due once more than the interval has passed since the first read
			if on && !last.IsZero() && time.Since(last) > 10*time.Second {
				wantOptions++
				last = time.Now()
			}
			p, err := cl.ReadPacket()
			if err != nil {
				c.FailK("media", "packet %d: %v", i, err)
			}
			if p.Time != time.Duration(i)*100*time.Millisecond {
				c.FailK("media", "packet %d is %v", i, p)
			}
			if last.IsZero() {
				last = time.Now()
			}
			if options != wantOptions {
				c.FailK("keepalive", "%d keep-alives after gaps %v, want %d", options, gaps[:i], wantOptions)
			}
			c.Step(1)
		}
		if s.bad != "" {
			kv := strings.SplitN(s.bad, "|", 2)
			c.FailK(kv[0], "%s", kv[1])
		}
	}); r != nil {
		panic(r)
	}
	c.Outcome("kept")
}

func t02(tier string) []mc.Exploration {
	bound := 3
	if tier == "thorough" {
		bound = 4
	}
	return []mc.Exploration{
		{Name: "sessions", Rule: "server and address variants", Bound: bound, Run: sessionRun},
		{Name: "cuts", Rule: "the connection ends after every byte of a session", Run: func(c *mc.Ctx) { cutRun(c, false) }},
		{Name: "splits", Rule: "a session in up to three pieces", Run: func(c *mc.Ctx) { cutRun(c, true) }},
		{Name: "keepalive", Rule: "gaps between reads on a virtual clock x keep-alive replies", Run: keepRun},
	}
}
