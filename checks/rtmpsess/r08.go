package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	rm "joyverif/rtmpmodel"
)

// got is what the server application learned about a session.
type got struct {
	publish            bool
	url, tc, page, ver string
}

func seen(conn *rtmp.Conn) got {
	u := ""
	if conn.URL != nil {
		u = conn.URL.String()
	}
	return got{conn.Publishing, u, conn.TcUrl, conn.PageUrl, conn.FlashVer}
}

// pair runs a real client against a real server.
func pair(max int, u string, publish bool, srv func(*rtmp.Conn, net.Conn), cli func(*rtmp.Conn, error)) (handled bool) {
	a, b := rm.Pipe(max)
	done := make(chan bool, 1)
	panics := make(chan interface{}, 1)
	go func() {
		var h bool
		defer func() {
			panics <- recover()
			b.Close()
			done <- h
		}()
		h = serve(b, srv)
	}()
	conn, err := dial(a, u, flags(publish))
	cli(conn, err)
	a.Close()
	if p := <-panics; p != nil {
		panic(p)
	}
	return <-done
}

var segs = []string{"a", "live", "x%20y", "p%2Fq", "%C3%BC", "a:b", "a@b", "c+d;e=1", "-_.~", "q%3Fr", "%23h", "..."}
var queries = []string{"", "k=v", "t=a/b", "u=/x/y/", "a=b?c", "x=%20y&z=1", "s=%2F&s=%3F", "e", "url=rtmp://h/a"}
var hosts = []string{"host.example", "host.example:1935", "host.example:81", "10.1.2.3", "[::1]", "[2001:db8::1]:1936"}

func urlPaths(c *mc.Ctx) string {
	n := 2 + c.Choose(4)
	p := ""
	// two segments of the path vary freely, the others are plain
	at := c.Choose(n)
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("s%d", i)
		if i == at || i == (at+1)%n {
			s = segs[c.Choose(len(segs))]
		}
		p += "/" + s
	}
	return p
}

func r08(tier string) []mc.Exploration {
	thorough := tier == "thorough"
	var exs []mc.Exploration
	add := func(e mc.Exploration) { exs = append(exs, e) }

	expectURL := func(c *mc.Ctx, u string, publish bool, max int) {
		want := u
		if u2, err := url.Parse(u); err != nil {
			panic(err)
		} else if u2.String() != u {
			panic("not canonical: " + u)
		}
		var g got
		handled := pair(max, u, publish, func(conn *rtmp.Conn, nc net.Conn) {
			g = seen(conn)
			conn.Prepare(rtmp.StageCommandDone, 0)
			conn.Flush()
		}, func(conn *rtmp.Conn, err error) {
			if err != nil {
				c.Fail("%s publish=%v: client setup failed: %v", u, publish, err)
			}
			if conn.Publishing != publish || conn.URL.String() != u {
				c.Fail("%s publish=%v: client says url %v publishing %v", u, publish, conn.URL, conn.Publishing)
			}
		})
		if !handled {
			c.Fail("%s publish=%v: server did not hand over the session", u, publish)
		}
		if g.url != want || g.publish != publish {
			c.Fail("client asked for %s publish=%v, server understood %s publish=%v", u, publish, g.url, g.publish)
		}
		if !strings.HasPrefix(want, g.tc) || g.tc == "" || g.ver == "" {
			c.Fail("%s: server knows tcUrl %q and flashVer %q", u, g.tc, g.ver)
		}
		c.Step(1)
	}
	add(mc.Exploration{Name: "url-agreement", Rule: "real client and real server: 6 hosts x 9 queries x publish or play on a fixed path; 12x12 path segment pairs at every place of paths of 2..5 segments x 3 queries: the server's URL, role, tcUrl",
		Run: func(c *mc.Ctx) {
			publish := c.Bool()
			if c.Bool() {
				h, q := hosts[c.Choose(len(hosts))], queries[c.Choose(len(queries))]
				scheme := []string{"rtmp", "rtmps"}[c.Choose(2)]
				u := scheme + "://" + h + []string{"/app/stream", "/a/b/c/d"}[c.Choose(2)]
				if q != "" {
					u += "?" + q
				}
				max := []int{0, 3}[c.Choose(2)]
				c.State(u, publish)
				expectURL(c, u, publish, max)
				c.Outcome(q, publish)
				return
			}
			u := "rtmp://host" + urlPaths(c)
			if q := queries[c.Choose(3)]; q != "" {
				u += "?" + q
			}
			c.State(u, publish)
			expectURL(c, u, publish, 0)
			c.Outcome(strings.Count(u, "/"), publish)
		}})

	// what the client asks a modelled server for
	add(mc.Exploration{Name: "client-request", Rule: "real client against a modelled server: the same URLs: connect (application, tcUrl) and publish or play (stream and query) name exactly the URL, the application has no query, all commands in protocol order with their transaction ids on the right streams",
		Run: func(c *mc.Ctx) {
			publish := c.Bool()
			h, path, q := "host", "/app/stream", ""
			if c.Bool() {
				h, q = hosts[c.Choose(len(hosts))], queries[c.Choose(len(queries))]
			} else {
				path = urlPaths(c)
				q = queries[c.Choose(3)]
			}
			u := "rtmp://" + h + path
			if q != "" {
				u += "?" + q
			}
			c.State(u, publish)
			sid := 1 + 6*c.Choose(2)
			p := newParty(c, 0, io.EOF)
			p.plainServer()
			acceptScript(p, publish, sid, nil)
			conn, err := dial(p, u, flags(publish))
			if err != nil {
				p.done(u)
				c.Fail("%s: setup failed: %v", u, err)
			}
			if conn.Publishing != publish {
				c.Fail("%s: role", u)
			}
			p.done(u)
			checkClientCommands(c, p, u, publish, sid)
			con := p.find("connect")[0]
			app, _ := get(con.obj, "app").(string)
			tc, _ := get(con.obj, "tcUrl").(string)
			name := "play"
			if publish {
				name = "publish"
			}
			stream, _ := arg(p.find(name)[0], 0).(string)
			reqURI := path
			if q != "" {
				reqURI += "?" + q
			}
			if "/"+app+"/"+stream != reqURI || strings.Contains(app, "?") || app == "" {
				c.Fail("%s: client asked for application %q stream %q", u, app, stream)
			}
			if tc != "rtmp://"+h+"/"+app {
				c.Fail("%s: client sent tcUrl %q with application %q", u, tc, app)
			}
			c.Validated(1)
			c.Outcome(strings.Count(app, "/"), strings.Count(stream, "/"))
		}})

	add(mc.Exploration{Name: "application-only", Rule: "real client, modelled server and real server: addresses of an application without a stream name, with and without the final slash: the application is asked for, the stream is empty",
		Run: func(c *mc.Ctx) {
			publish, slash, e2e := c.Bool(), c.Bool(), c.Bool()
			app := segs[c.Choose(len(segs))]
			u := "rtmp://host/" + app
			if slash {
				u += "/"
			}
			c.State(u, publish, e2e)
			if e2e {
				var g got
				if !pair(0, u, publish, func(conn *rtmp.Conn, nc net.Conn) {
					g = seen(conn)
					conn.Prepare(rtmp.StageCommandDone, 0)
					conn.Flush()
				}, func(conn *rtmp.Conn, err error) {
					if err != nil {
						c.Fail("%s: client setup failed: %v", u, err)
					}
				}) {
					c.Fail("%s: no session", u)
				}
				if strings.TrimSuffix(g.url, "/") != strings.TrimSuffix(u, "/") || g.publish != publish {
					c.Fail("client asked for %s, server understood %s", u, g.url)
				}
				return
			}
			p := newParty(c, 0, io.EOF)
			p.plainServer()
			acceptScript(p, publish, 1, nil)
			if _, err := dial(p, u, flags(publish)); err != nil {
				p.done(u)
				c.Fail("%s: setup failed: %v", u, err)
			}
			p.done(u)
			checkClientCommands(c, p, u, publish, 1)
			name := "play"
			if publish {
				name = "publish"
			}
			stream, ok := arg(p.find(name)[0], 0).(string)
			if got, _ := get(p.find("connect")[0].obj, "app").(string); got != app || stream != "" || !ok {
				c.Fail("%s: client asked for application %q stream %q", u, got, stream)
			}
			c.Validated(1)
			c.Outcome(slash)
		}})

	add(mc.Exploration{Name: "server-address", Rule: "modelled client against the real server: application x stream x tcUrl spelling x command encoding (AMF0, AMF3 envelope) x publish or play x optional members: URL, role and descriptive parameters as sent",
		Run: func(c *mc.Ctx) {
			app := []string{"app", "app/inst", "a/b/c", "x%20y"}[c.Choose(4)]
			stream := []string{"s", "s/t", "s?k=v", "s?t=a/b", "mp4:v.mp4", "s/t/u?x=1&y=2", "%C3%BC"}[c.Choose(7)]
			tk := c.Choose(4)
			host := []string{"h.example", "10.0.0.1:1936", "[::1]:19350"}[c.Choose(3)]
			publish, amf3, opt := c.Bool(), c.Bool(), c.Bool()
			objEnc := []int{0, 3}[c.Choose(2)]
			ecma := c.Bool()
			tc := "rtmp://" + host + "/" + app
			obj := rm.Obj{{"app", app}, {[]string{"tcUrl", "tcurl", "tcUrl", "tcUrl"}[tk], tc}, {"objectEncoding", objEnc}}
			if tk == 2 {
				tc += "/"
				obj[1].V = tc
			}
			if tk == 3 {
				obj = append(rm.Obj{obj[1], obj[2]}, obj[0])
			}
			page, ver := "", ""
			if opt {
				page, ver = "http://page.example/p?x#y", "FMLE/3.0 (x)"
				obj = append(obj, rm.KV{"pageUrl", page}, rm.KV{"flashVer", ver}, rm.KV{"fpad", false}, rm.KV{"extra", nil}, rm.KV{"o", rm.Obj{{"app", "no"}}})
			}
			what := fmt.Sprintf("app %q stream %q connect %v amf3=%v", app, stream, obj, amf3)
			c.State(what, publish)
			send := func(p *party, csid, sid uint32, vals ...interface{}) {
				if amf3 {
					p.e.Send(rm.Msg{CSID: csid, Type: rm.CmdAMF3, SID: sid, Data: append([]byte{0}, rm.AMF0(vals...)...)})
				} else {
					p.cmd(csid, sid, vals...)
				}
			}
			p := newParty(c, 0, io.EOF)
			p.plainClient()
			p.add(always, func(p *party) {
				var o interface{} = obj
				if ecma {
					o = rm.ECMA(obj)
				}
				send(p, 3, 0, "connect", 1, o)
			})
			p.add(func(p *party) bool { return p.result(1) != nil }, func(p *party) { send(p, 3, 0, "createStream", 2, nil) })
			p.add(func(p *party) bool { return p.result(2) != nil }, func(p *party) {
				if publish {
					send(p, 8, 1, "publish", 3, nil, stream, "live")
				} else {
					send(p, 8, 1, "play", 3, nil, stream, -2000)
					p.Idle = true
				}
			})
			var g got
			if !serve(p, func(conn *rtmp.Conn, nc net.Conn) { g = seen(conn) }) {
				p.done(what)
				c.Fail("%s: session not handed over; server wrote %v", what, p.list())
			}
			p.done(what)
			want := got{publish, "rtmp://" + host + "/" + app + "/" + stream, tc, page, ver}
			if g != want {
				c.Fail("%s: server understood %+v, want %+v", what, g, want)
			}
			if oe, _ := get(arg(*p.result(1), 0), "objectEncoding").(float64); oe != float64(objEnc) {
				c.Fail("%s: connect reply says object encoding %v, asked for %d", what, oe, objEnc)
			}
			if get(arg(*p.result(1), 0), "level") != "status" {
				c.Fail("%s: connect reply %v", what, *p.result(1))
			}
			c.Validated(1)
			c.Outcome(g.url, publish)
		}})

	exs = append(exs, serverSequences(thorough)...)
	exs = append(exs, clientNoise(thorough)...)
	exs = append(exs, rejections()...)
	return exs
}

// acceptScript is a server that accepts everything; noise[i] is sent before
// its i-th reply.
func acceptScript(p *party, publish bool, sid int, noise [][]func(*party)) {
	n := func(i int) {
		if i < len(noise) {
			for _, f := range noise[i] {
				f(p)
			}
		}
	}
	p.add(saw("connect"), func(p *party) {
		n(0)
		p.cmd(3, 0, "_result", 1, rm.Obj{{"fmsVer", "m"}}, rm.Obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}})
	})
	p.add(saw("createStream"), func(p *party) {
		n(1)
		p.cmd(3, 0, "_result", p.find("createStream")[0].trans, nil, sid)
	})
	w := "play"
	if publish {
		w = "publish"
	}
	p.add(saw(w), func(p *party) {
		n(2)
		p.cmd(5, uint32(sid), "onStatus", 0, nil, rm.Obj{{"level", "status"}, {"code", "the code"}, {"description", "d"}})
	})
}

// checkClientCommands checks order, transaction ids and stream ids of what a
// client sent during setup.
func checkClientCommands(c *mc.Ctx, p *party, what string, publish bool, sid int) {
	want := []string{"connect", "createStream", "play"}
	if publish {
		want = []string{"connect", "releaseStream", "FCPublish", "createStream", "publish"}
	}
	var names []string
	trans := map[float64]bool{}
	for _, x := range p.cmds {
		if x.name == "" {
			continue
		}
		names = append(names, x.name)
		if x.trans != 0 && trans[x.trans] {
			c.Fail("%s: transaction id %v used twice: %v", what, x.trans, p.list())
		}
		trans[x.trans] = true
		switch x.name {
		case "connect":
			if x.trans != 1 || x.msg.SID != 0 {
				c.Fail("%s: %v", what, x)
			}
		case "publish", "play":
			if x.msg.SID != uint32(sid) {
				c.Fail("%s: %v sent on message stream %d, the server created %d", what, x, x.msg.SID, sid)
			}
		default:
			if x.trans == 0 || x.msg.SID != 0 {
				c.Fail("%s: %v", what, x)
			}
		}
	}
	if fmt.Sprint(names) != fmt.Sprint(want) {
		c.Fail("%s: client sent commands %v", what, names)
	}
	if publish {
		s := arg(p.find("publish")[0], 0)
		for _, n := range []string{"releaseStream", "FCPublish"} {
			if arg(p.find(n)[0], 0) != s {
				c.Fail("%s: %v for stream %v", what, p.find(n)[0], s)
			}
		}
	}
}

// ---- server command sequences ----

func serverSequences(thorough bool) []mc.Exploration {
	type item struct {
		name string
		f    func(p *party, t int)
		rep  int // 1: answered with a _result, 2: with a ping response
	}
	items := []item{
		{"createStream", func(p *party, t int) { p.cmd(3, 0, "createStream", t, nil) }, 1},
		{"releaseStream", func(p *party, t int) { p.cmd(3, 0, "releaseStream", t, nil, "s") }, 0},
		{"FCPublish", func(p *party, t int) { p.cmd(3, 0, "FCPublish", t, nil, "s") }, 0},
		{"_checkbw", func(p *party, t int) { p.cmd(3, 0, "_checkbw", t, nil) }, 0},
		{"unknown-no-object", func(p *party, t int) { p.cmd(3, 0, "whatever", t) }, 0},
		{"ping", func(p *party, t int) { p.e.Ctl(rm.UserControl, append(rm.U16(6), rm.U32(uint32(t))...)) }, 2},
		{"set-chunk", func(p *party, t int) { p.e.Ctl(rm.SetChunkSize, rm.U32(uint32(50+t))); p.e.Size = 50 + t }, 0},
		{"set-buffer", func(p *party, t int) {
			p.e.Ctl(rm.UserControl, append(append(rm.U16(3), rm.U32(1)...), rm.U32(100)...))
		}, 0},
		{"data", func(p *party, t int) {
			p.e.Send(rm.Msg{CSID: 4, Type: rm.DataAMF0, SID: 1, Data: rm.AMF0("onX", t)})
		}, 0},
		{"ack", func(p *party, t int) { p.e.Ctl(rm.Ack, rm.U32(uint32(t))) }, 0},
		{"result", func(p *party, t int) { p.cmd(3, 0, "_result", t, nil, 9) }, 0},
	}
	depth := 3
	if thorough {
		depth = 5
	}
	return []mc.Exploration{
		{Name: "server-sequences", Rule: fmt.Sprintf("modelled client, all sequences of up to %d messages out of %d kinds between connect and publish or play, each needed answer awaited (one at a time) or not (pipelined), x application accepts, rejects: every createStream answered once with its transaction id and a stream id, pings answered, confirmation or error status on the requested stream before any media", depth, len(items)),
			Run: func(c *mc.Ctx) {
				publish, reject, wait := c.Bool(), c.Bool(), c.Bool()
				n := c.Choose(depth + 1)
				p := newParty(c, 0, nil)
				p.batch = true
				p.plainClient()
				p.add(always, func(p *party) {
					p.cmd(3, 0, "connect", 1, rm.Obj{{"app", "app"}, {"tcUrl", "rtmp://h/app"}})
				})
				answered := func(trans int) func(*party) bool {
					return func(p *party) bool { return !wait || p.result(trans) != nil }
				}
				ready := answered(1)
				what := fmt.Sprintf("publish=%v reject=%v wait=%v:", publish, reject, wait)
				var streams []int
				pings := 0
				for i := 0; i < n; i++ {
					it := items[c.Choose(len(items))]
					t := i + 2
					what += " " + it.name
					p.add(ready, func(p *party) { it.f(p, t) })
					ready = always
					switch it.rep {
					case 1:
						streams = append(streams, t)
						ready = answered(t)
					case 2:
						pings++
						k := pings
						ready = func(p *party) bool { return !wait || len(p.pongs()) >= k }
					}
				}
				p.add(ready, func(p *party) {
					if publish {
						p.cmd(8, 1, "publish", 50, nil, "s", "live")
					} else {
						p.cmd(8, 1, "play", 50, nil, "s")
						p.Idle = true // the server is the one that writes now
					}
				})
				p.add(saw("onStatus"), func(p *party) {
					if !reject && publish {
						p.e.Send(rm.Msg{CSID: 4, Time: 7, Type: rm.Audio, SID: 1, Data: []byte{0xae, 1, 2, 3}})
					} else {
						p.end = io.EOF
					}
				})
				c.State(what)
				if !serve(p, func(conn *rtmp.Conn, nc net.Conn) {
					if reject {
						conn.PubPlayErr = errors.New("no such thing")
					}
					if err := conn.Prepare(rtmp.StageCommandDone, 0); err != nil {
						c.Fail("%s: %v", what, err)
					}
					if reject {
						nc.Close()
						return
					}
					if publish {
						tag, err := conn.ReadTag()
						if err != nil || tag.Time != 7 {
							p.done(what)
							c.Fail("%s: reading media: %v %v", what, tag, err)
						}
					} else {
						err := conn.WritePacket(av.Packet{Type: av.AAC, Data: []byte{4, 5}, Time: ms(9)})
						if err == nil {
							err = conn.Flush()
						}
						if err != nil {
							c.Fail("%s: writing media: %v", what, err)
						}
					}
				}) {
					p.done(what)
					c.Fail("%s: session not handed over", what)
				}
				p.done(what)
				for _, t := range streams {
					k := 0
					for _, x := range p.find("_result") {
						if x.trans == float64(t) {
							k++
							if id, ok := arg(x, 0).(float64); !ok || id < 1 {
								c.Fail("%s: createStream %d answered %v", what, t, x)
							}
						}
					}
					if k != 1 {
						c.Fail("%s: createStream %d answered %d times: %v", what, t, k, p.list())
					}
				}
				if len(p.pongs()) != pings {
					c.Fail("%s: %d of %d pings answered: %v", what, len(p.pongs()), pings, p.list())
				}
				if x := p.find("_error"); len(x) > 0 {
					c.Fail("%s: %v", what, x)
				}
				checkStatus(c, p, what, publish, reject)
				c.Validated(1)
				c.Outcome(publish, reject, len(streams), pings)
			}},
		{Name: "first-command", Rule: "modelled client whose first command is not a usable connect (10 kinds), followed by a complete correct session: refused, connection closed, nothing handed over",
			Run: func(c *mc.Ctx) {
				k := c.Choose(10)
				p := newParty(c, 0, io.EOF)
				p.batch = true
				p.plainClient()
				p.add(always, func(p *party) {
					switch k {
					case 0:
						p.cmd(3, 0, "createStream", 1, nil)
					case 1:
						p.cmd(8, 1, "publish", 1, nil, "s", "live")
					case 2:
						p.cmd(8, 1, "play", 1, nil, "s")
					case 3:
						p.cmd(3, 0, "connect", 1)
					case 4:
						p.cmd(3, 0, "connect", 1, nil)
					case 5:
						p.cmd(3, 0, "connect", 1, rm.Obj{{"tcUrl", "rtmp://h/app"}})
					case 6:
						p.cmd(3, 0, "connect", 1, rm.Obj{{"app", 5}, {"tcUrl", "rtmp://h/app"}})
					case 7:
						p.cmd(3, 0, "connect")
					case 8:
						p.e.Send(rm.Msg{CSID: 3, Type: rm.CmdAMF0, Data: []byte{2, 0}})
					case 9:
						p.cmd(3, 0, 7, 1, rm.Obj{{"app", "app"}})
					}
				})
				p.add(always, func(p *party) {
					p.cmd(3, 0, "connect", 1, rm.Obj{{"app", "app"}, {"tcUrl", "rtmp://h/app"}})
					p.cmd(8, 1, "publish", 50, nil, "s", "live")
				})
				h := serve(p, func(conn *rtmp.Conn, nc net.Conn) {})
				p.done("first command")
				if h || !p.Closed() {
					c.Fail("first command kind %d: handed over %v, closed %v", k, h, p.Closed())
				}
				c.State(k)
				c.Outcome(k)
			}},
		{Name: "bad-address", Rule: "modelled client x missing or unusable tcUrl, stream argument or escapes: an error and a closed connection, never a session with an invented address",
			Run: func(c *mc.Ctx) {
				k := c.Choose(8)
				publish := c.Bool()
				obj := rm.Obj{{"app", "app"}, {"tcUrl", "rtmp://h/app"}}
				args := []interface{}{"s"}
				switch k {
				case 0:
					obj = obj[:1]
				case 1:
					obj[1].V = "/app"
				case 2:
					obj[1].V = "//h/app"
				case 3:
					obj[1].V = "rtmp:///app"
				case 4:
					obj[1].V = ":"
				case 5:
					args = nil
				case 6:
					args[0] = "%zz"
				case 7:
					obj[0].V = "a%zz"
				}
				p := newParty(c, 0, io.EOF)
				p.batch = true
				p.plainClient()
				p.add(always, func(p *party) {
					p.cmd(3, 0, "connect", 1, obj)
					n := "play"
					if publish {
						n = "publish"
					}
					p.cmd(8, 1, append([]interface{}{n, 2, nil}, args...)...)
				})
				h := serve(p, func(conn *rtmp.Conn, nc net.Conn) {})
				p.done("bad address")
				if h || !p.Closed() {
					c.Fail("connect %v args %v: handed over %v, closed %v", obj, args, h, p.Closed())
				}
				c.State(k, publish)
				c.Outcome(k)
			}},
	}
}

func (p *party) pongs() (out [][]byte) {
	for _, m := range p.d.Msgs {
		if m.Type == rm.UserControl && len(m.Data) >= 2 && m.Data[1] == 7 {
			out = append(out, m.Data[2:])
		}
	}
	return
}

// checkStatus checks the confirmation or rejection a client got and that no
// media precedes it.
func checkStatus(c *mc.Ctx, p *party, what string, publish, reject bool) {
	var ok, bad []cmd
	media := false
	for i, x := range p.cmds {
		m := p.d.Msgs[i]
		if m.Type == rm.Audio || m.Type == rm.Video {
			media = true
			if len(ok) == 0 {
				c.Fail("%s: media before the confirmation: %v", what, p.list())
			}
			if m.SID != 1 && p.created() {
				c.Fail("%s: media on message stream %d", what, m.SID)
			}
		}
		if x.name != "onStatus" {
			continue
		}
		if x.msg.SID != 1 && p.created() {
			c.Fail("%s: status on message stream %d: %v", what, x.msg.SID, x)
		}
		if get(arg(x, 0), "level") == "status" {
			ok = append(ok, x)
		} else {
			bad = append(bad, x)
		}
	}
	want := "NetStream.Play.Start"
	if publish {
		want = "NetStream.Publish.Start"
	}
	if reject {
		if len(ok) > 0 || len(bad) != 1 || get(arg(bad[0], 0), "level") != "error" || media {
			c.Fail("%s: rejection reported as %v", what, p.list())
		}
		if get(arg(bad[0], 0), "description") != "no such thing" {
			c.Fail("%s: rejection lost its reason: %v", what, bad[0])
		}
		return
	}
	found := false
	for _, x := range ok {
		if get(arg(x, 0), "code") == want {
			found = true
		}
	}
	if len(bad) > 0 || !found {
		c.Fail("%s: acceptance reported as %v", what, p.list())
	}
	if !publish && !media {
		c.Fail("%s: media never arrived: %v", what, p.list())
	}
}

// created tells whether the client had a stream created (so that the stream
// id of later messages is known).
func (p *party) created() bool {
	for _, x := range p.find("_result") {
		if _, ok := arg(x, 0).(float64); ok {
			return true
		}
	}
	return false
}

// ---- client against a server with unrelated traffic ----

type noiseItem struct {
	name   string
	points int // bit mask of wait points where it may legally appear
	f      func(p *party)
	ping   bool
}

func noiseItems(publish bool) []noiseItem {
	its := []noiseItem{
		{"onBWDone", 7, func(p *party) { p.cmd(3, 0, "onBWDone", 0, nil) }, false},
		{"result-99", 7, func(p *party) { p.cmd(3, 0, "_result", 99, nil, 77) }, false},
		{"error-99", 7, func(p *party) { p.cmd(3, 0, "_error", 99, nil, rm.Obj{{"level", "error"}, {"code", "other"}}) }, false},
		{"ping", 7, func(p *party) { p.e.Ctl(rm.UserControl, append(rm.U16(6), rm.U32(5)...)) }, true},
		{"begin", 7, func(p *party) { p.e.Ctl(rm.UserControl, append(rm.U16(0), rm.U32(1)...)) }, false},
		{"sample-access", 7, func(p *party) {
			p.e.Send(rm.Msg{CSID: 4, Type: rm.DataAMF0, SID: 1, Data: rm.AMF0("|RtmpSampleAccess", true, true)})
		}, false},
		{"amf3-call", 7, func(p *party) {
			p.e.Send(rm.Msg{CSID: 3, Type: rm.CmdAMF3, Data: append([]byte{0}, rm.AMF0("call", 3, nil)...)})
		}, false},
		{"set-chunk", 7, func(p *party) { p.e.Ctl(rm.SetChunkSize, rm.U32(40)); p.e.Size = 40 }, false},
		{"early-status", 3, func(p *party) { p.cmd(5, 0, "onStatus", 0, nil, rm.Obj{{"level", "status"}, {"code", "early"}}) }, false},
		{"bare", 7, func(p *party) { p.cmd(3, 0, "hello", 1) }, false},
		{"method", 7, func(p *party) { p.cmd(3, 0, "onFCSubscribe", 1, nil, rm.Obj{{"level", "error"}}) }, false},
	}
	if publish {
		its = append(its,
			noiseItem{"result-release", 6, func(p *party) { p.cmd(3, 0, "_result", 2, nil, rm.Undef{}) }, false},
			noiseItem{"error-release", 6, func(p *party) { p.cmd(3, 0, "_error", 2, nil, rm.Obj{{"level", "error"}, {"code", "no"}}) }, false},
			noiseItem{"result-fcpublish", 6, func(p *party) { p.cmd(3, 0, "_result", 3, nil, 88) }, false},
			noiseItem{"onFCPublish", 6, func(p *party) {
				p.cmd(3, 0, "onFCPublish", 0, nil, rm.Obj{{"level", "status"}, {"code", "NetStream.Publish.Start"}})
			}, false},
			noiseItem{"error-fcpublish", 6, func(p *party) { p.cmd(3, 0, "_error", 3, nil, rm.Obj{{"level", "error"}, {"code", "no"}}) }, false},
		)
	}
	return its
}

func clientNoise(thorough bool) []mc.Exploration {
	limit := 3
	if thorough {
		limit = 4
	}
	return []mc.Exploration{{
		Name: "client-interleaved", Rule: fmt.Sprintf("real client, modelled server: every placement of up to %d unrelated messages (11 or 16 kinds: replies to other requests, statuses, calls, control, data) before each of its three replies, sent with the reply or on their own: setup succeeds, the right stream id is used, pings are answered, the status is kept and media flows", limit),
		Run: func(c *mc.Ctx) {
			publish := c.Bool()
			batch := c.Bool()
			its := noiseItems(publish)
			noise := make([][]func(*party), 3)
			what := fmt.Sprintf("publish=%v:", publish)
			pings := 0
			left := limit
			for pt := 0; pt < 3; pt++ {
				what += fmt.Sprintf(" [%d]", pt)
				for left > 0 {
					k := c.Choose(len(its) + 1)
					if k == 0 {
						break
					}
					it := its[k-1]
					if it.points>>pt&1 == 0 {
						c.Prune()
					}
					left--
					what += " " + it.name
					noise[pt] = append(noise[pt], it.f)
					if it.ping {
						pings++
					}
				}
			}
			c.State(what, batch)
			p := newParty(c, 0, nil)
			p.plainServer()
			acceptNoise(p, publish, 6, noise, batch)
			if !publish {
				p.add(always, func(p *party) {
					p.e.Send(rm.Msg{CSID: 6, Time: 33, Type: rm.Video, SID: 6, Data: []byte{0x17, 1, 0, 0, 4, 9, 9, 9}})
				})
			} else {
				p.end = io.EOF
			}
			conn, err := dial(p, stdURL, flags(publish))
			if err != nil {
				p.done(what)
				c.Fail("%s: setup failed: %v", what, err)
			}
			if code, _ := conn.PubPlayOnStatusParams.GetString("code"); code != "the code" {
				c.Fail("%s: status kept as %v", what, conn.PubPlayOnStatusParams)
			}
			if publish {
				if err := conn.WriteTag(flvio.Tag{Type: flvio.TAG_AUDIO, SoundFormat: flvio.SOUND_MP3, Data: []byte{1, 2}}); err != nil {
					c.Fail("%s: write %v", what, err)
				}
				if err := conn.Flush(); err != nil {
					c.Fail("%s: flush %v", what, err)
				}
			} else {
				pkt, err := conn.ReadPacket()
				if err != nil || pkt.Type != av.H264 || !pkt.IsKeyFrame || pkt.Time != ms(33) || pkt.CTime != ms(4) || !bytes.Equal(pkt.Data, []byte{9, 9, 9}) {
					c.Fail("%s: media read as %v %v", what, pkt, err)
				}
			}
			p.done(what)
			checkClientCommands(c, p, what, publish, 6)
			if len(p.pongs()) != pings {
				c.Fail("%s: %d of %d pings answered", what, len(p.pongs()), pings)
			}
			if publish {
				m := p.d.Msgs[len(p.d.Msgs)-1]
				if m.Type != rm.Audio || m.SID != 6 || !bytes.Equal(m.Data, []byte{0x20, 1, 2}) {
					c.Fail("%s: media sent as %v", what, m)
				}
			}
			c.Validated(1)
			c.Outcome(publish, pings)
		}}}
}

func acceptNoise(p *party, publish bool, sid int, noise [][]func(*party), batch bool) {
	at := func(when func(*party) bool, i int, f func(*party)) {
		if batch {
			p.add(when, func(p *party) {
				for _, g := range noise[i] {
					g(p)
				}
				f(p)
			})
			return
		}
		for _, g := range noise[i] {
			p.add(when, g)
		}
		p.add(when, f)
	}
	at(saw("connect"), 0, func(p *party) {
		p.cmd(3, 0, "_result", 1, rm.Obj{{"fmsVer", "m"}}, rm.Obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}})
	})
	at(saw("createStream"), 1, func(p *party) {
		p.cmd(3, 0, "_result", p.find("createStream")[0].trans, nil, sid)
	})
	w := "play"
	if publish {
		w = "publish"
	}
	at(saw(w), 2, func(p *party) {
		p.cmd(5, uint32(sid), "onStatus", 0, nil, rm.Obj{{"level", "status"}, {"code", "the code"}, {"description", "d"}})
	})
}

// ---- rejections ----

func rejections() []mc.Exploration {
	type rej struct {
		name string
		at   int
		f    func(p *party, publish bool)
	}
	bad := rm.Obj{{"level", "error"}, {"code", "X.Failed"}}
	trans := func(p *party, name string) interface{} { return p.find(name)[0].trans }
	last := func(publish bool) string {
		if publish {
			return "publish"
		}
		return "play"
	}
	kinds := []rej{
		{"connect _error", 0, func(p *party, _ bool) { p.cmd(3, 0, "_error", 1, nil, bad) }},
		{"connect _error without details", 0, func(p *party, _ bool) { p.cmd(3, 0, "_error", 1, nil) }},
		{"connect _error with status level", 0, func(p *party, _ bool) {
			p.cmd(3, 0, "_error", 1, nil, rm.Obj{{"level", "status"}, {"code", "X"}})
		}},
		{"connect _result of level error", 0, func(p *party, _ bool) { p.cmd(3, 0, "_result", 1, nil, bad) }},
		{"connect closed", 0, func(p *party, _ bool) {}},
		{"createStream _error", 1, func(p *party, _ bool) { p.cmd(3, 0, "_error", trans(p, "createStream"), nil, bad) }},
		{"createStream _error without details", 1, func(p *party, _ bool) { p.cmd(3, 0, "_error", trans(p, "createStream"), nil) }},
		{"createStream result without id", 1, func(p *party, _ bool) { p.cmd(3, 0, "_result", trans(p, "createStream"), nil) }},
		{"createStream closed", 1, func(p *party, _ bool) {}},
		{"status of level error", 2, func(p *party, _ bool) { p.cmd(5, 1, "onStatus", 0, nil, bad) }},
		{"status of level error with other transaction", 2, func(p *party, _ bool) { p.cmd(5, 1, "onStatus", 7, nil, bad) }},
		{"status without level", 2, func(p *party, _ bool) { p.cmd(5, 1, "onStatus", 0, nil, rm.Obj{{"code", "X"}}) }},
		{"status without details", 2, func(p *party, _ bool) { p.cmd(5, 1, "onStatus", 0, nil) }},
		{"publish or play _error", 2, func(p *party, pub bool) { p.cmd(3, 0, "_error", trans(p, last(pub)), nil, bad) }},
		{"publish or play closed", 2, func(p *party, _ bool) {}},
	}
	return []mc.Exploration{
		{Name: "client-rejected", Rule: fmt.Sprintf("real client, modelled server: %d ways to refuse, each after 0 or 1 of the unrelated messages of the interleaved exploration, x publish or play x the server closing, accepting whatever is asked next or waiting for the client x through FromNetConn, Dial and the URL opener (which must close the connection): setup fails with an error", len(kinds)),
			Run: func(c *mc.Ctx) {
				k := kinds[c.Choose(len(kinds))]
				publish := c.Bool()
				its := noiseItems(publish)
				noise := make([][]func(*party), 3)
				what := fmt.Sprintf("publish=%v %s", publish, k.name)
				if n := c.Choose(len(its) + 1); n > 0 {
					if its[n-1].points>>k.at&1 == 0 {
						c.Prune()
					}
					noise[k.at] = append(noise[k.at], its[n-1].f)
					what += " after " + its[n-1].name
				}
				p := newParty(c, 0, io.EOF)
				p.plainServer()
				acceptNoise(p, publish, 1, noise, true)
				// replace the reply at the refusing step and everything later
				i := 2 + k.at
				when := p.acts[i].when
				later := p.acts[i+1:]
				p.acts = append(p.acts[:i:i], act{when, func(p *party) {
					for _, g := range noise[k.at] {
						g(p)
					}
					k.f(p, publish)
				}})
				// a lenient server accepts what a client that goes on asks for
				if !strings.HasSuffix(k.name, "closed") {
					switch c.Choose(3) {
					case 1:
						p.acts = append(p.acts, later...)
						what += ", later requests accepted"
					case 2: // and one that has said what it had to say leaves the rest to the client
						p.acts = append(p.acts, act{func(*party) bool { return false }, func(*party) {}})
						what += ", then waits"
					}
				}
				via := c.Choose(3)
				what += fmt.Sprint(" via ", []string{"FromNetConn", "Dial", "opener"}[via])
				c.State(what)
				err := connectVia(p, via, publish)
				p.done(what)
				if err == nil {
					c.Fail("%s: setup succeeded", what)
				}
				if via > 0 && !p.Closed() {
					c.Fail("%s: connection left open after %v", what, err)
				}
				c.Validated(1)
				c.Outcome(k.name, publish)
			}},
		{Name: "rejected-end-to-end", Rule: "real client and real server, publish or play, application rejects through PubPlayErr (then closes, or goes on reading) or accepts, at transport fragments 0,1,5: the client's setup fails exactly when rejected",
			Run: func(c *mc.Ctx) {
				publish, reject, linger := c.Bool(), c.Bool(), c.Bool()
				max := []int{0, 1, 5}[c.Choose(3)]
				what := fmt.Sprintf("publish=%v reject=%v linger=%v max=%d", publish, reject, linger, max)
				c.State(what)
				h := pair(max, stdURL, publish, func(conn *rtmp.Conn, nc net.Conn) {
					if reject {
						conn.PubPlayErr = errors.New("no")
					}
					conn.Prepare(rtmp.StageCommandDone, 0)
					if linger {
						var b [100]byte
						nc.Read(b[:])
					}
				}, func(conn *rtmp.Conn, err error) {
					if (err != nil) != reject {
						c.Fail("%s: client setup returned %v", what, err)
					}
				})
				if !h {
					c.Fail("%s: no session", what)
				}
				c.Outcome(publish, reject)
			}},
		{Name: "dial", Rule: "Dial and the URL opener x unusable schemes and addresses, and a dial function that fails: an error, no connection returned, no network call for an unsupported scheme",
			Run: func(c *mc.Ctx) {
				u := []string{"http://host/a/b", "host/a/b", "rtmpx://host/a/b", "rtmp://host/a/b", "rtmp://h:p:q/a", "", "rtsp://h/a"}[c.Choose(7)]
				write := c.Bool()
				dialed := false
				cl := rtmp.NewClient()
				cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
					return func(ctx context.Context, network, address string) (net.Conn, error) {
						dialed = true
						return nil, errors.New("refused")
					}
				}
				conn, nc, err := cl.Dial(u, flags(write))
				if err == nil || conn != nil || nc != nil {
					c.Fail("Dial(%q) returned %v %v %v", u, conn, nc, err)
				}
				if dialed != (u == "rtmp://host/a/b") {
					c.Fail("Dial(%q) connected: %v", u, dialed)
				}
				c.State(u, write)
				c.Outcome(u)
			}},
	}
}

func connectVia(nc net.Conn, via int, publish bool) error {
	df := func() func(ctx context.Context, network, address string) (net.Conn, error) {
		return func(ctx context.Context, network, address string) (net.Conn, error) { return nc, nil }
	}
	switch via {
	case 0:
		_, err := dial(nc, stdURL, flags(publish))
		return err
	case 1:
		cl := rtmp.NewClient()
		cl.NewDialFunc = df
		_, _, err := cl.Dial(stdURL, flags(publish))
		return err
	}
	o := &format.URLOpener{NewDialFunc: df}
	if publish {
		w, err := o.Create(stdURL, nil)
		if err == nil {
			w.Close()
		}
		return err
	}
	r, err := o.Open(stdURL)
	if err == nil {
		r.Close()
	}
	return err
}
