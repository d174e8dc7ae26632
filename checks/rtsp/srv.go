package main

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"joyverif/mc"
	"joyverif/netshim"
)

// ---- dialling ----

var dialMu sync.Mutex
var dialTo = map[string]net.Conn{}
var dialIDs int64

func init() {
	netshim.Hook = func(network, address string) (net.Conn, error) {
		host, _, _ := net.SplitHostPort(address)
		dialMu.Lock()
		defer dialMu.Unlock()
		if nc := dialTo[host]; nc != nil && network == "tcp" {
			if s, ok := nc.(*srv); ok {
				s.dialed = append(s.dialed, address)
			}
			return nc, nil
		}
		return nil, fmt.Errorf("no route to %s %s", network, address)
	}
}

// dialLimits are the time limits last told for each host.
var dialLimits = map[string]time.Duration{}

func init() {
	netshim.HookT = func(address string, t time.Duration) {
		host, _, _ := net.SplitHostPort(address)
		dialMu.Lock()
		defer dialMu.Unlock()
		if dialTo[host] != nil {
			dialLimits[host] = t
		}
	}
}

func register(nc net.Conn) (host string, done func()) {
	host = fmt.Sprintf("h%d.test", atomic.AddInt64(&dialIDs, 1))
	dialMu.Lock()
	dialTo[host] = nc
	dialMu.Unlock()
	return host, func() {
		dialMu.Lock()
		delete(dialTo, host)
		delete(dialLimits, host)
		dialMu.Unlock()
	}
}

// ---- a connection whose far end is a model, in the reader's own thread ----

var errStall = errors.New("the client waits for something that never comes")

type srv struct {
	c       *mc.Ctx
	dialed  []string
	in      []byte // from the client, not yet a whole request
	out     []byte // to the client
	eof     bool   // after out
	frag    func(avail int) int
	onReq   func(r *request)
	onIdle  func()
	stalled bool
	closed  int
	reads   int
	read    int // bytes read by the client
	dl      time.Time
}

func (s *srv) Read(p []byte) (int, error) {
	if s.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	s.reads++
	if len(s.out) == 0 && !s.eof && s.onIdle != nil {
		s.onIdle()
	}
	if len(s.out) == 0 {
		if s.eof {
			return 0, io.EOF
		}
		s.stalled = true
		return 0, errStall
	}
	n := min(len(s.out), len(p))
	if s.frag != nil {
		if k := s.frag(n); k < n && k > 0 {
			n = k
		}
	}
	copy(p, s.out[:n])
	s.out = s.out[n:]
	s.read += n
	return n, nil
}

func (s *srv) Write(p []byte) (int, error) {
	if s.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	if s.onReq == nil {
		return len(p), nil
	}
	s.in = append(s.in, p...)
	for {
		i := bytes.Index(s.in, []byte("\r\n\r\n"))
		if i < 0 {
			return len(p), nil
		}
		r := parseReq(s.in[:i])
		s.in = s.in[i+4:]
		s.onReq(r)
	}
}

func (s *srv) Close() error                       { s.closed++; return nil }
func (s *srv) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (s *srv) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (s *srv) SetDeadline(t time.Time) error      { s.dl = t; return nil }
func (s *srv) SetReadDeadline(t time.Time) error  { s.dl = t; return nil }
func (s *srv) SetWriteDeadline(t time.Time) error { return nil }

type request struct {
	method, uri, version string
	hdr                  map[string][]string
	raw                  string
}

func parseReq(b []byte) *request {
	r := &request{hdr: map[string][]string{}, raw: string(b)}
	lines := strings.Split(string(b), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) == 3 {
		r.method, r.uri, r.version = f[0], f[1], f[2]
	}
	for _, l := range lines[1:] {
		kv := strings.SplitN(l, ":", 2)
		if len(kv) != 2 {
			r.method = "BAD"
			continue
		}
		k := strings.ToLower(strings.TrimSpace(kv[0]))
		r.hdr[k] = append(r.hdr[k], strings.TrimSpace(kv[1]))
	}
	return r
}

func (r *request) get(k string) string {
	if v := r.hdr[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

// ---- challenges ----

type auth struct {
	name        string
	challenge   string
	digest      bool
	realm       string
	nonce       string
	opaque      string
	user, pass  string
	wrongCreds  bool
	onlyMethods map[string]bool // nil: all
}

var auths = []auth{
	{name: "none"},
	{name: "basic", challenge: `Basic realm="cam"`, realm: "cam"},
	{name: "digest", challenge: `Digest realm="cam", nonce="c633aaf8b8"`, digest: true, realm: "cam", nonce: "c633aaf8b8"},
	{name: "digest, nonce with =", challenge: `Digest realm="cam", nonce="YWJjZA=="`, digest: true, realm: "cam", nonce: "YWJjZA=="},
	{name: "digest, realm with comma and =", challenge: `Digest realm="Cams, Inc. a=b", nonce="77"`, digest: true, realm: "Cams, Inc. a=b", nonce: "77"},
	{name: "digest, more parameters", challenge: `Digest algorithm=MD5,stale=FALSE,domain="/",nonce="0a0b",realm="LIVE555 Streaming Media"`, digest: true, realm: "LIVE555 Streaming Media", nonce: "0a0b"},
	{name: "digest, upper case names", challenge: `Digest Realm="cam", Nonce="c6"`, digest: true, realm: "cam", nonce: "c6"},
	{name: "basic, realm with spaces", challenge: `Basic realm="a b c"`, realm: "a b c"},
}

// ok says whether the request carries credentials that fit.
func (a *auth) ok(r *request) (bool, string) {
	v := r.get("authorization")
	if v == "" {
		return false, "none"
	}
	kv := strings.SplitN(v, " ", 2)
	if len(kv) != 2 {
		return false, v
	}
	if !a.digest {
		b, err := base64.StdEncoding.DecodeString(kv[1])
		return kv[0] == "Basic" && err == nil && string(b) == a.user+":"+a.pass, v
	}
	if kv[0] != "Digest" {
		return false, v
	}
	// quoted-string aware parameter list
	par := map[string]string{}
	rest := kv[1]
	for rest != "" {
		rest = strings.TrimLeft(rest, ", ")
		i := strings.Index(rest, "=")
		if i < 0 {
			break
		}
		k := strings.ToLower(rest[:i])
		rest = rest[i+1:]
		if strings.HasPrefix(rest, `"`) {
			j := strings.Index(rest[1:], `"`)
			if j < 0 {
				return false, v
			}
			par[k], rest = rest[1:1+j], rest[j+2:]
		} else {
			j := strings.IndexAny(rest+",", ", ")
			par[k], rest = rest[:j], rest[j:]
		}
	}
	want := md5hex(md5hex(a.user+":"+a.realm+":"+a.pass) + ":" + a.nonce + ":" + md5hex(r.method+":"+r.uri))
	return par["username"] == a.user && par["realm"] == a.realm && par["nonce"] == a.nonce && par["uri"] == r.uri && par["response"] == want, v
}

// ---- RTP ----

type rtpPkt struct {
	pt, seq  int
	ts       uint32
	marker   bool
	csrc     int
	ext      int // words of header extension, -1 none
	pad      int
	payload  []byte
	override []byte // whole packet, if set
}

func (p rtpPkt) bytes() []byte {
	if p.override != nil {
		return p.override
	}
	b := []byte{0x80 | byte(p.csrc), byte(p.pt)}
	if p.marker {
		b[1] |= 0x80
	}
	if p.ext >= 0 {
		b[0] |= 0x10
	}
	if p.pad > 0 {
		b[0] |= 0x20
	}
	b = append(b, byte(p.seq>>8), byte(p.seq))
	b = append(b, byte(p.ts>>24), byte(p.ts>>16), byte(p.ts>>8), byte(p.ts))
	b = append(b, 0x11, 0x22, 0x33, 0x44)
	for i := 0; i < p.csrc; i++ {
		b = append(b, 0x65, 0x65, 0x65, byte(i))
	}
	if p.ext >= 0 {
		b = append(b, 0xbe, 0xde, byte(p.ext>>8), byte(p.ext))
		for i := 0; i < p.ext; i++ {
			b = append(b, 0x65, '$', 'R', byte(i))
		}
	}
	b = append(b, p.payload...)
	if p.pad > 0 {
		b = append(b, make([]byte, p.pad-1)...)
		b = append(b, byte(p.pad))
	}
	return b
}

func block(ch int, b []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...)
}

func rtcp() []byte {
	return []byte{0x80, 0xc8, 0, 6, 1, 2, 3, 4, '$', 0, 0, 0, 'R', 'T', 'S', 'P', 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}
}

// ---- sdp ----

type track struct {
	kind    string // "V", "A", "app"
	control string
	pt      int
	rate    int
	sizes   string // AU header lengths
	sprop   [][]byte
}

func (t track) sdp() []string {
	var l []string
	switch t.kind {
	case "V":
		l = []string{fmt.Sprintf("m=video 0 RTP/AVP %d", t.pt)}
	case "A":
		l = []string{fmt.Sprintf("m=audio 0 RTP/AVP %d", t.pt)}
	default:
		l = []string{fmt.Sprintf("m=application 0 RTP/AVP %d", t.pt)}
	}
	switch t.kind {
	case "V":
		l = append(l, fmt.Sprintf("a=rtpmap:%d H264/%d", t.pt, t.rate))
		var s []string
		for _, n := range t.sprop {
			s = append(s, base64.StdEncoding.EncodeToString(n))
		}
		l = append(l, fmt.Sprintf("a=fmtp:%d packetization-mode=1;profile-level-id=42001e;sprop-parameter-sets=%s", t.pt, strings.Join(s, ",")))
	case "A":
		l = append(l, fmt.Sprintf("a=rtpmap:%d mpeg4-generic/%d/2", t.pt, t.rate))
		l = append(l, fmt.Sprintf("a=fmtp:%d profile-level-id=1;mode=AAC-hbr;%sconfig=1210", t.pt, t.sizes))
	default:
		l = append(l, fmt.Sprintf("a=rtpmap:%d vnd.onvif.metadata/90000", t.pt))
	}
	if t.control != "" {
		l = append(l, "a=control:"+t.control)
	}
	return l
}

func describe(tracks []track, eol string, session ...string) string {
	l := append([]string{"v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=x", "t=0 0"}, session...)
	for _, t := range tracks {
		l = append(l, t.sdp()...)
	}
	return strings.Join(l, eol) + eol
}

// sameAddr compares two addresses, a missing port meaning the default one.
func sameAddr(a, b string) bool {
	norm := func(s string) string {
		u, err := url.Parse(s)
		if err != nil {
			return s
		}
		if u.Port() == "" {
			u.Host += ":554"
		}
		return u.String()
	}
	return norm(a) == norm(b)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}
