package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp/sdp"

	"joyverif/mc"
)

// line is a line of a description and what it declares.
type line struct {
	text string
	set  func(m *sdp.Media)
}

func other(text string) line { return line{text, func(*sdp.Media) {}} }

// order puts the lines in any order.
func order(c *mc.Ctx, ls []line) (out []line) {
	ls = append([]line(nil), ls...)
	for len(ls) > 0 {
		k := c.Choose(len(ls))
		out = append(out, ls[k])
		ls = append(ls[:k], ls[k+1:]...)
	}
	return
}

func rtpmaps(pt int) []line {
	return []line{
		{fmt.Sprintf("a=rtpmap:%d H264/90000", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, av.H264, 90000 }},
		{fmt.Sprintf("a=rtpmap:%d mpeg4-generic/44100/2", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, av.AAC, 44100 }},
		{fmt.Sprintf("a=rtpmap:%d h264/8000 ", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, av.H264, 8000 }},
		{fmt.Sprintf("a=rtpmap:%d MPEG4-GENERIC/96000", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, av.AAC, 96000 }},
		{fmt.Sprintf("a=rtpmap:%d Mpeg4-Generic/22050/1", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, av.AAC, 22050 }},
		{fmt.Sprintf("a=rtpmap:%d VP8/90000", pt), func(m *sdp.Media) { m.Rtpmap, m.Type, m.TimeScale = pt, 0, 90000 }},
		other(fmt.Sprintf("a=rtpmap:%d PCMU/16000", pt+1)),
		other(fmt.Sprintf("a=rtpmap:x%d H264/90000", pt)),
		other("a=rtpmap: H264/90000"),
		other("a=rtpmap"),
		other(fmt.Sprintf("rtpmap:%d H264/90000", pt)),
		other(fmt.Sprintf("b=rtpmap:%d H264/90000", pt)),
	}
}

func controls() (out []line) {
	for _, s := range []string{"trackID=1", "track1", "rtsp://10.0.0.1:8554/s/trackID=2", "stream=0/video=2", "96", "*", "a:b", "x?y=1&z=2"} {
		s := s
		out = append(out, line{"a=control:" + s, func(m *sdp.Media) { m.Control = s }})
	}
	return append(out, other("a=control"), other("a=x-control:zz"), other("i=control:zz"))
}

// fmtp builds a format line from parameters in any order.
func fmtp(c *mc.Ctx, pt, max int) line {
	type par struct {
		text string
		set  func(m *sdp.Media)
	}
	nals := [][]byte{spsA, ppsA, {0x68}, {1, 2, 3, 4, 5}}
	sprop := func(ks ...int) par {
		var s []string
		var want [][]byte
		for _, k := range ks {
			s = append(s, base64.StdEncoding.EncodeToString(nals[k]))
			want = append(want, nals[k])
		}
		return par{"sprop-parameter-sets=" + strings.Join(s, ","), func(m *sdp.Media) { m.SpropParameterSets = want }}
	}
	conf := func(s string) par {
		b, _ := hex.DecodeString(s)
		return par{"config=" + s, func(m *sdp.Media) { m.Config = b }}
	}
	groups := [][]par{
		{sprop(0, 1), sprop(0), sprop(0, 2, 1), sprop(3, 2), {"sprop-parameter-sets=%%%," + base64.StdEncoding.EncodeToString(nals[1]) + ",aDx", func(m *sdp.Media) { m.SpropParameterSets = nals[1:2] }}},
		{conf("1210"), conf("0A"), conf("0000000167420000000168"), {"config=zz", nil}, {"config=12zz", nil}, {"config=12101", nil}, {"config=", func(m *sdp.Media) { m.Config = []byte{} }}},
		{{"sizelength=13", func(m *sdp.Media) { m.SizeLength = 13 }}, {"SizeLength=6", func(m *sdp.Media) { m.SizeLength = 6 }}, {"SIZELENGTH=0", func(m *sdp.Media) { m.SizeLength = 0 }}},
		{{"indexlength=3", func(m *sdp.Media) { m.IndexLength = 3 }}, {"IndexLength=2", func(m *sdp.Media) { m.IndexLength = 2 }}},
		{{"packetization-mode=1", nil}, {"mode=AAC-hbr", nil}, {"indexdeltalength=9", nil}, {"x", nil}, {"", nil}, {"=", nil}, {"x-config=11", nil}, {"a=b=c", nil}},
	}
	var text []string
	var sets []func(*sdp.Media)
	n := c.Choose(max + 1)
	sep := ";"
	if n > 1 {
		sep = []string{";", "; ", " ; ", ";;"}[c.Choose(4)]
	}
	for i := 0; i < n; i++ {
		g := c.Choose(len(groups))
		p := groups[g][c.Choose(len(groups[g]))]
		text = append(text, p.text)
		if p.set != nil {
			sets = append(sets, p.set)
		}
		if g < 4 {
			groups = append(append([][]par(nil), groups[:g]...), groups[g+1:]...)
			if len(groups) == 1 && i < n-1 {
				c.Prune()
			}
		}
	}
	t := fmt.Sprintf("a=fmtp:%d %s", pt, strings.Join(text, sep))
	if c.Bool() {
		t += ";"
	}
	return line{t, func(m *sdp.Media) {
		for _, f := range sets {
			f(m)
		}
	}}
}

var junk = []string{"", "x", "=", "a=", "a=recvonly", "a=framerate:25", "b=AS:500", "c=IN IP4 0.0.0.0", "i=m=video", "a=x:96 H264/90000", "a=fmtp:95 config=11;sizelength=1", "a=fmtp:96", "a=fmtp:96x config=11", "k", "\t", "a=ssrc:96 control:x", "m", "M=video 0 RTP/AVP 96", " "}

// check parses the text, in both line endings, and compares.
func check(c *mc.Ctx, ls []line, wantUri string, want []sdp.Media, eol string, last bool) {
	var t []string
	for _, l := range ls {
		t = append(t, l.text)
	}
	text := strings.Join(t, eol)
	if last {
		text += eol
	}
	c.Logf("%q", text)
	sess, got := sdp.Parse(text)
	c.Step(1)
	if sess.Uri != wantUri {
		c.FailK("session", "uri %q, want %q", sess.Uri, wantUri)
	}
	if len(got) != len(want) {
		c.FailK("count", "%d media, want %d: %+v", len(got), len(want), got)
	}
	for i := range got {
		g, w := got[i], want[i]
		if len(g.Config) == 0 && len(w.Config) == 0 {
			g.Config, w.Config = nil, nil
		}
		if !reflect.DeepEqual(g, w) {
			c.FailK("media", "media %d is %+v, want %+v", i, g, w)
		}
	}
	c.Outcome(len(got))
}

func eolOf(c *mc.Ctx) (string, bool) {
	k := c.Dev(4)
	return []string{"\r\n", "\n"}[k/2], k%2 == 0
}

// oneRun: one section, each kind of attribute at most once, in any order, with an unknown line anywhere.
func oneRun(c *mc.Ctx, max int) {
	kind := []string{"video", "audio"}[c.Choose(2)]
	pt := []int{96, 97}[c.Choose(2)]
	var ls []line
	if k := c.Choose(len(rtpmaps(pt)) + 1); k > 0 {
		ls = append(ls, rtpmaps(pt)[k-1])
	}
	if k := c.Dev(len(controls()) + 1); k > 0 {
		ls = append(ls, controls()[k-1])
	}
	if k := c.Dev(len(junk) + 1); k > 0 {
		j := junk[k-1]
		if pt != 96 || !strings.HasPrefix(j, "a=fmtp:96 ") {
			ls = append(ls, other(j))
		}
	}
	if c.Bool() {
		ls = append(ls, fmtp(c, pt, max))
	}
	ls = order(c, ls)
	m := sdp.Media{AVType: kind, PayloadType: pt}
	for _, l := range ls {
		l.set(&m)
	}
	eol, last := eolOf(c)
	pre := []line{other("v=0"), other("s=x"), other("t=0 0")}
	check(c, append(append(pre, other(fmt.Sprintf("m=%s 0 RTP/AVP %d", kind, pt))), ls...), "", []sdp.Media{m}, eol, last)
}

// parRun: format parameters in any order.
func parRun(c *mc.Ctx, max int) {
	f := fmtp(c, 98, max)
	m := sdp.Media{AVType: "audio", PayloadType: 98}
	f.set(&m)
	eol, last := eolOf(c)
	check(c, []line{other("m=audio 5004 RTP/AVP 98"), f}, "", []sdp.Media{m}, eol, last)
}

var mlines = []struct {
	text string
	kind string // "" gives no entry
	pt   int
}{
	{"m=video 0 RTP/AVP 96", "video", 96},
	{"m=audio 0 RTP/AVP 97", "audio", 97},
	{"m=application 0 RTP/AVP 96", "", 0},
	{"m=video", "", 0},
	{"m=", "", 0},
	{"m=video 49170/2 RTP/AVP 97 96 0", "video", 97},
	{"m=audio 0 RTP/AVP 0", "audio", 0},
	{"m=audio 0 RTP/SAVPF 127 96", "audio", 127},
	{"m=text 0 RTP/AVP 97", "", 0},
	{"m=videos 0 RTP/AVP 96", "", 0},
	{"m=Audio 0 RTP/AVP 97", "", 0},
}

// sectionsRun: sections of all kinds one after the other.
func sectionsRun(c *mc.Ctx, n, attrs int) {
	atts := []line{
		rtpmaps(96)[0], rtpmaps(97)[1], rtpmaps(0)[5], rtpmaps(97)[5],
		{"a=fmtp:96 sprop-parameter-sets=aA==,Zw==;config=01", func(m *sdp.Media) {
			m.SpropParameterSets = append(m.SpropParameterSets, []byte{0x68}, []byte{0x67})
			m.Config = []byte{1}
		}},
		{"a=fmtp:97 sizelength=13;indexlength=3;config=1210", func(m *sdp.Media) { m.SizeLength, m.IndexLength, m.Config = 13, 3, []byte{0x12, 0x10} }},
		{"a=control:trackID=9", func(m *sdp.Media) { m.Control = "trackID=9" }},
		other("a=sendonly"),
	}
	about := []int{96, 97, 0, 97, 96, 97, -1, -1}
	ls := []line{other("v=0")}
	uri := ""
	switch c.Choose(3) {
	case 1:
		ls, uri = append(ls, other("u=http://x/y?a=b c")), "http://x/y?a=b c"
	case 2:
		ls = append(ls, atts[0], atts[5], atts[6]) // of the session: they are no media's
	}
	var want []sdp.Media
	k := c.Choose(n + 1)
	for i := 0; i < k; i++ {
		m := mlines[c.Choose(len(mlines))]
		ls = append(ls, other(m.text))
		if m.kind != "" {
			want = append(want, sdp.Media{AVType: m.kind, PayloadType: m.pt})
		}
		used := 0
		for j := 0; j < attrs; j++ {
			a := c.Choose(len(atts) + 1)
			if a == len(atts) {
				break
			}
			if used&(1<<a) != 0 {
				c.Prune()
			}
			used |= 1 << a
			if used&0xa == 0xa {
				c.Prune() // two for the same type
			}
			ls = append(ls, atts[a])
			if m.kind != "" && (about[a] == -1 || about[a] == m.pt) {
				atts[a].set(&want[len(want)-1])
			}
		}
	}
	check(c, ls, uri, want, "\r\n", true)
}

// textRun: whole texts of few bytes and of few odd lines never crash.
func textRun(c *mc.Ctx, n int) {
	toks := []string{"m=", "a=", "video ", "audio ", "0 ", "RTP/AVP ", "96", "rtpmap:", "fmtp:", "control:", "H264/", "config=", "sprop-parameter-sets=", ";", ",", "=", ":", "/", " ", "\n", "\r", "\x00", "\xff", "99999999999999999999"}
	text := ""
	for i := 0; i < n; i++ {
		k := c.Choose(len(toks) + 1)
		if k == len(toks) {
			break
		}
		text += toks[k]
	}
	if c.Bool() {
		text = "m=video 0 RTP/AVP 96\n" + text
	}
	_, m := sdp.Parse(text)
	c.Step(1)
	for _, x := range m {
		if x.AVType != "audio" && x.AVType != "video" {
			c.FailK("kind", "%q gives %+v", text, m)
		}
	}
	c.Outcome(len(m))
}

func t04(tier string) []mc.Exploration {
	max, par, secs, attrs, toks := 1, 3, 2, 2, 4
	if tier == "thorough" {
		max, par, secs, attrs, toks = 1, 4, 3, 2, 5
	}
	bound := 1
	if tier == "thorough" {
		bound = 2
	}
	return []mc.Exploration{
		{Name: "attributes", Rule: "the attributes of one section in every order", Bound: bound, Run: func(c *mc.Ctx) { oneRun(c, max) }},
		{Name: "parameters", Rule: "format parameters in every order", Bound: 1, Run: func(c *mc.Ctx) { parRun(c, par) }},
		{Name: "sections", Rule: "sections of all kinds with attributes of their own and of others", Run: func(c *mc.Ctx) { sectionsRun(c, secs, attrs) }},
		{Name: "texts", Rule: "token sequences", AllocLimit: 1 << 20, Run: func(c *mc.Ctx) { textRun(c, toks) }},
	}
}
