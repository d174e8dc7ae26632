C = 'format/rtsp/client.go'
S = 'format/rtsp/sdp/parser.go'
IN = '''package rtsp
import ("testing"; "bufio"; "bytes"; "net"; "strings"; "fmt"; "time"; "io"; "github.com/nareix/joy5/av"; "github.com/nareix/joy5/format/rtsp/sdp")
var _ = net.Dial
var _ = strings.Split
var _ = fmt.Sprint
var _ = time.Now
var _ = io.EOF
type nc struct{ net.Conn; r io.Reader }
func (n nc) Read(b []byte) (int, error) { return n.r.Read(b) }
func (n nc) Write(b []byte) (int, error) { return len(b), nil }
func (n nc) SetReadDeadline(time.Time) error { return nil }
func (n nc) SetWriteDeadline(time.Time) error { return nil }
func client(b []byte, n int) *Client {
	cn := &connWithTimeout{Conn: nc{r: bytes.NewReader(b)}}
	c := &Client{conn: cn, brconn: bufio.NewReader(cn), stage: stagePlayDone}
	for i := 0; i < n; i++ {
		s := &Stream{client: c, Sdp: sdp.Media{AVType: "video", Type: av.H264, PayloadType: 96, TimeScale: 90000}}
		s.makeCodec()
		c.streams = append(c.streams, s)
	}
	return c
}
func blk(ch, seq int, ts uint32, payload ...byte) []byte {
	p := append([]byte{0x80, 96, byte(seq>>8), byte(seq), byte(ts>>24), byte(ts>>16), byte(ts>>8), byte(ts), 1, 2, 3, 4}, payload...)
	return append([]byte{'$', byte(ch), byte(len(p)>>8), byte(len(p))}, p...)
}
// server answers requests with what reply returns after the CSeq line
func server(t *testing.T, reply func(req string) string) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		defer c.Close()
		c.SetDeadline(time.Now().Add(20*time.Second))
		r := bufio.NewReader(c)
		for {
			req := ""
			for !strings.HasSuffix(req, "\\r\\n\\r\\n") {
				s, err := r.ReadString('\\n')
				if err != nil { return }
				req += s
			}
			cs := ""
			for _, h := range strings.Split(req, "\\r\\n") { if strings.HasPrefix(h, "CSeq: ") { cs = h } }
			io.WriteString(c, "RTSP/1.0 200 OK\\r\\n" + cs + "\\r\\n" + reply(req))
		}
	}()
	return l.Addr().String()
}
const desc = "v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:t1\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:t2\\r\\n"
func answer(req string) string {
	switch strings.Split(req, " ")[0] {
	case "DESCRIBE":
		return fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(desc), desc)
	case "PLAY":
		return "Session: S1\\r\\n\\r\\n" + string(blk(0, 1, 0, 0x65, 1, 2)) + string(blk(2, 1, 0, 0x65, 1, 2))
	}
	return "Session: S1;timeout=60\\r\\n\\r\\n"
}
'''
seed('t01-dollar-restart', 'T01', [(C, '''			if stat != Dollar {
				stat = Dollar
				peek = _peek[0:0]
			}
		default:
''', '''			stat = Dollar
			peek = _peek[0:0]
		default:
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	big := bytes.Repeat([]byte{0x61}, 0x24-12)
	c := client(append(blk(0, 1, 0, big...), blk(0, 2, 3000, 0x41, 1, 2)...), 1)
	n := 0
	for { if _, err := c.ReadPacket(); err != nil { break }; n++ }
	if n != 2 { t.Fatal(n, "packets") }
}
''', 'a block whose length, sequence number or timestamp holds the byte 0x24', 'the search for the block start takes a "$" inside the block header for a new start: the packet is lost')
seed('t01-rtcp-second', 'T01', [(C, '''	if blockno%2 != 0 {
		if self.DebugRtp {''', '''	if blockno == 1 {
		if self.DebugRtp {''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	rtcp := []byte{'$', 3, 0, 28, 0x80, 0xc8, 0, 6, 0, 0, 0, 1, 0, 0, 0, 2, 0x65, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5}
	b := append(blk(2, 1, 9, 0x41, 1), rtcp...)
	c := client(append(b, blk(2, 2, 9, 0x41, 2)...), 2)
	n := 0
	for { if _, err := c.ReadPacket(); err != nil { break }; n++ }
	if n != 2 { t.Fatal(n, "packets") }
}
''', 'a sender report of the second stream', 'only the first stream\'s control channel is recognised, reports of the others are depacketised as media')
seed('t01-key-last-slice', 'T01', [(C, '''		if naluType == 5 {
			self.pkt.IsKeyFrame = true
		}
''', '''		self.pkt.IsKeyFrame = naluType == 5
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	c := client(blk(0, 1, 0, 0x78, 0, 2, 0x65, 1, 0, 2, 0x61, 2), 1)
	p, err := c.ReadPacket()
	if err != nil || !p.IsKeyFrame { t.Fatal(p, err) }
}
''', 'an aggregate with an IDR slice that is not the last one', 'the key-frame flag of the packet is that of its last slice')
seed('t01-fu-end-keeps', 'T01', [(C, '''			if isEnd {
				self.fuStarted = false
''', '''			if isEnd {
				self.fuStarted = !self.fuStarted || len(self.fuBuffer) > 5
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	b := append(blk(0, 1, 0, 0x7c, 0x85, 1, 2, 3), blk(0, 2, 0, 0x7c, 0x45, 4, 5, 6)...)
	b = append(b, blk(0, 3, 9, 0x5c, 0x01, 7, 7)...) // its start was never sent in this session
	b = append(b, blk(0, 4, 9, 0x5c, 0x41, 8, 8)...)
	b = append(b, blk(0, 5, 18, 0x41, 9)...)
	c := client(b, 1)
	n := 0
	for { p, err := c.ReadPacket(); if err != nil { break }; if n++; n == 2 && len(p.Data) != 6 { t.Fatalf("%x", p.Data) } }
	if n != 2 { t.Fatal(n, "packets") }
}
''', 'a fragmented unit directly followed by a fragment without a start', 'a fragment without start is appended to the unit before')
seed('t02-subset-channel', 'T02', [(C, 'interleaved=%d-%d", si*2, si*2+1))', 'interleaved=%d-%d", i*2, i*2+1))')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	tr := make(chan string, 1)
	c, err := Dial("rtsp://" + server(t, func(req string) string {
		if strings.HasPrefix(req, "SETUP") { tr <- req }
		return answer(req)
	}) + "/s")
	if err != nil { t.Fatal(err) }
	if err := c.Setup([]int{1}); err != nil { t.Fatal(err) }
	// what comes on the channel asked for has to be the second stream's
	if s := <-tr; !strings.Contains(s, "interleaved=2-3") { t.Fatal(s) }
}
''', 'setting up only the second stream', 'the channel asked for is that of another stream: its media is attributed to a stream that was never set up')
seed('t02-session-params', 'T02', [(C, '''		if fields := strings.Split(sess, ";"); len(fields) > 0 {
			self.session = fields[0]
		}
''', '''		if fields := strings.Split(sess, "; "); len(fields) > 0 {
			self.session = fields[0]
		}
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	ch := make(chan string, 1)
	c, err := Dial("rtsp://" + server(t, func(req string) string {
		if strings.HasPrefix(req, "PLAY") { ch <- req }
		return answer(req)
	}) + "/s")
	if err != nil { t.Fatal(err) }
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
	if s := <-ch; !strings.Contains(s, "Session: S1\\r\\n") { t.Fatal(s) }
}
''', 'a session header with parameters and no space', 'the client quotes the parameters as part of the session identifier')
seed('t02-keepalive-cseq', 'T02', [(C, '''	self.cseq++

''', '''	if req.Method != "OPTIONS" || self.stage < stagePlayDone {
		self.cseq++
	}

''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	ch := make(chan string, 100)
	c, err := Dial("rtsp://" + server(t, func(req string) string {
		for _, h := range strings.Split(req, "\\r\\n") { if strings.HasPrefix(h, "CSeq: ") { ch <- h } }
		return answer(req)
	}) + "/s")
	if err != nil { t.Fatal(err) }
	c.RtpKeepAliveTimeout = time.Millisecond
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
	time.Sleep(10*time.Millisecond)
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
	time.Sleep(100*time.Millisecond)
	last := ""
	for len(ch) > 0 { h := <-ch; if h == last { t.Fatal("twice", h) }; last = h }
}
''', 'a keep-alive while playing', 'keep-alives repeat the sequence number of the request before')
seed('t03-channel-bound', 'T03', [(C, '''	if no/2 >= len(self.streams) {
		return
	}
''', '''	if no/2 > len(self.streams) {
		return
	}
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	c := client(append(blk(2, 1, 0, 0x41, 1), blk(0, 1, 0, 0x41, 1)...), 1)
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
}
''', 'a block on the channel right after the last one', 'the client panics with an index out of range')
seed('t03-stap-size', 'T03', [(C, '			if size+2 > len(packet) {', '			if size > len(packet) {')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	c := client(append(blk(0, 1, 0, 0x78, 0, 3, 0x65, 1), blk(0, 2, 0, 0x41, 1)...), 1)
	for { if _, err := c.ReadPacket(); err != nil { break } }
}
''', 'an aggregate whose last unit is one or two bytes short', 'the client panics with a slice out of range')
seed('t03-csrc-check', 'T03', [(C, '''	payloadOffset := 12 + int(packet[0]&0xf)*4
	if payloadOffset > len(packet) {
''', '''	payloadOffset := 12 + int(packet[0]&0xf)*4
	if packet[0]&0x0f != 0 && payloadOffset > len(packet) {
''')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	c := client(append([]byte{'$', 0, 0, 8, 0x80, 96, 0, 1, 0, 0, 0, 0}, blk(0, 2, 0, 0x41, 1)...), 1)
	for { if _, err := c.ReadPacket(); err != nil { break } }
}
''', 'a packet of eight to eleven bytes without contributing sources', 'the client panics with a slice out of range')
SDP = '''package sdp
import ("testing"; "github.com/nareix/joy5/av")
var _ = av.H264
'''
seed('t04-short-media', 'T04', [(S, 'if len(mfields) >= 3 {', 'if len(mfields) >= 2 {')], 'format/rtsp/sdp', SDP + '''func TestDemo(t *testing.T) {
	_, m := Parse("m=video 0 RTP/AVP\\r\\nm=audio 0 RTP/AVP 97\\r\\n")
	if m[len(m)-1].PayloadType != 97 { t.Fatal(m) }
}
''', 'a media line without payload types', 'the parser panics')
seed('t04-codec-case', 'T04', [(S, '''							switch strings.ToUpper(key) {
							case "MPEG4-GENERIC":
''', '''							switch key {
							case "MPEG4-GENERIC", "mpeg4-generic":
''')], 'format/rtsp/sdp', SDP + '''func TestDemo(t *testing.T) {
	_, m := Parse("m=video 0 RTP/AVP 96\\r\\na=rtpmap:96 h264/90000\\r\\n")
	if len(m) != 1 || m[0].Type != av.H264 { t.Fatal(m) }
}
''', 'an encoding name in another case', 'the codec is not recognised')
seed('t04-sprop-break', 'T04', [(S, '''											media.SpropParameterSets = append(media.SpropParameterSets, val)
										}
''', '''											media.SpropParameterSets = append(medias[0].SpropParameterSets, val)
										}
''')], 'format/rtsp/sdp', SDP + '''func TestDemo(t *testing.T) {
	_, m := Parse("m=video 0 RTP/AVP 96\\r\\na=fmtp:96 sprop-parameter-sets=Zw==,aA==\\r\\nm=video 0 RTP/AVP 97\\r\\na=fmtp:97 sprop-parameter-sets=Zw==\\r\\n")
	if len(m) != 2 || len(m[1].SpropParameterSets) != 1 { t.Fatal(m) }
}
''', 'two video sections with parameter sets', 'the second section also gets the parameter sets of the first')

TIME = IN + '''const sdpText = "v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:t\\r\\n"
// slow answers; media come as said by gaps
func slow(t *testing.T, gaps ...time.Duration) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		r := bufio.NewReader(c)
		for {
			first := ""; cs := ""
			for {
				line, err := r.ReadString(10)
				if err != nil { return }
				line = strings.TrimSpace(line)
				if line == "" { break }
				if first == "" { first = line }
				if strings.HasPrefix(line, "CSeq:") { cs = line }
			}
			body := ""
			if strings.HasPrefix(first, "DESCRIBE") { body = sdpText }
			io.WriteString(c, "RTSP/1.0 200 OK\\r\\n"+cs+"\\r\\nSession: 1\\r\\n"+fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n", len(body))+body)
			if strings.HasPrefix(first, "PLAY") {
				for i, g := range gaps {
					time.Sleep(g)
					c.Write(blk(0, i+1, uint32(i)*9000, 0x61, 1, byte(i)))
				}
			}
		}
	}()
	return "rtsp://" + l.Addr().String() + "/s"
}
'''
seed('t05-media-no-limit', 'T05', [(C, '''	self.conn.Timeout = self.RtspTimeout
	for {
''', '''	self.conn.Timeout = 0
	if self.stage < stagePlayDone {
		self.conn.Timeout = self.RtspTimeout
	}
	for {
''')], 'format/rtsp', TIME + '''func TestDemo(t *testing.T) {
	c, err := Dial(slow(t, 0))
	if err != nil { t.Fatal(err) }
	c.RtspTimeout = 300*time.Millisecond
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
	done := make(chan error, 1)
	go func() { _, err := c.ReadPacket(); done <- err }()
	select {
	case err := <-done:
		if err == nil { t.Fatal("no error") }
	case <-time.After(3*time.Second):
		t.Fatal("still waits")
	}
}
''', 'a server that stops sending media', 'the time limit ends with the setup, a stalled stream is waited for for ever')
seed('t05-limit-latched', 'T05', [(C, '''	self.conn.Timeout = self.RtspTimeout
	for {
''', '''	if self.RtspTimeout > 0 {
		self.conn.Timeout = self.RtspTimeout
	}
	for {
''')], 'format/rtsp', TIME + '''func TestDemo(t *testing.T) {
	c, err := Dial(slow(t, 0, 700*time.Millisecond))
	if err != nil { t.Fatal(err) }
	c.RtspTimeout = 300*time.Millisecond
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
	c.RtspTimeout = 0
	if _, err := c.ReadPacket(); err != nil { t.Fatal(err) }
}
''', 'a limit that is taken back after the setup, then a pause', 'the old limit stays in force')
seed('t05-reader-bypass', 'T05', [(C, 'bufio.NewReaderSize(connt, 256)', 'bufio.NewReaderSize(conn, 256)')], 'format/rtsp', TIME + '''func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	c, err := Dial("rtsp://" + l.Addr().String() + "/s")
	if err != nil { t.Fatal(err) }
	c.RtspTimeout = 300*time.Millisecond
	done := make(chan error, 1)
	go func() { done <- c.Describe() }()
	select {
	case err := <-done:
		if err == nil { t.Fatal("no error") }
	case <-time.After(3*time.Second):
		t.Fatal("still waits")
	}
}
''', 'a server that accepts and never answers', 'reads go around the time limit, only writes obey it')
seed('t01-data-partitions', 'T01', [(C, 'case naluType >= 1 && naluType <= 5:', 'case naluType == 1 || naluType == 5:')], 'format/rtsp', IN + '''func TestDemo(t *testing.T) {
	c := client(append(blk(0, 1, 0, 0x62, 1, 2), blk(0, 2, 3600, 0x65, 3)...), 1)
	p, err := c.ReadPacket()
	if err != nil || !bytes.Contains(p.Data, []byte{0x62, 1, 2}) { t.Fatal(err, p) }
}
''', 'video sliced into data partitions (NAL unit types 2 to 4)', 'they are dropped')
