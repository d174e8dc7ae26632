package main

import (
	"fmt"
	"net/url"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp"

	"joyverif/mc"
	"joyverif/memio"
	"joyverif/vs"
)

// wire puts the model server behind a connection that honours deadlines.
type wire struct {
	*server
	a, b *memio.TConn
	addr string
	host string
	done func()
	want []av.Packet
	gap  time.Duration // between packets
	left int           // packets to send
}

func newWire(c *mc.Ctx, sc scenario, packets int, gap time.Duration) *wire {
	w := &wire{gap: gap, left: packets}
	w.server, w.addr, w.done = startServer(c, sc)
	w.a, w.b = memio.TimedPair()
	u, _ := url.Parse(w.addr)
	w.host = u.Hostname()
	dialMu.Lock()
	dialTo[w.host] = w.a
	dialMu.Unlock()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := w.b.Read(buf)
			if err != nil {
				return
			}
			was := w.playing
			w.Write(buf[:n])
			if len(w.out) > 0 {
				w.b.Write(w.out)
				w.out = nil
			}
			if w.playing && !was {
				go w.send()
			}
		}
	}()
	return w
}

func (w *wire) send() {
	for k := 0; k < w.left; k++ {
		if k > 0 && w.gap > 0 {
			time.Sleep(w.gap)
		}
		n := nal(1, 9, k)
		p := rtpPkt{pt: 96, seq: 7 + k, ts: uint32(1000 + k*9000), ext: -1, marker: true, payload: n}
		w.want = append(w.want, av.Packet{Type: av.H264, Time: time.Duration(k) * 100 * time.Millisecond, Data: avcc(n)})
		if _, err := w.b.Write(block(w.channels[0], p.bytes())); err != nil {
			return
		}
	}
}

func (w *wire) free() {
	w.a.Hold(-1)
	w.b.Hold(-1)
	w.a.Window(0)
	w.a.Close()
	w.b.Close()
	w.done()
	vs.Wait()
	time.Sleep(time.Hour)
}

func timeScenario(withAuth bool) (sc scenario) {
	sc.path, sc.session, sc.errAt, sc.eol, sc.reason = "/s", "S1;timeout=60", -1, "\r\n", "OK"
	if withAuth {
		sc.auth = auths[2]
		sc.auth.user, sc.auth.pass = "user", "pass"
		sc.creds = "user:pass@"
	}
	sc.tracks = []track{vtrack("t1")}
	sc.only = []int{0}
	return
}

// reading is a client in its own goroutine.
type reading struct {
	got  []av.Packet
	at   []time.Duration
	err  error
	end  time.Duration
	over bool
}

func (w *wire) read(limit time.Duration, dial time.Duration, n int, each func(cl *rtsp.Client, i int)) (*rtsp.Client, *reading) {
	var cl *rtsp.Client
	var err error
	if dial > 0 {
		cl, err = rtsp.DialTimeout(w.addr, dial)
	} else {
		cl, err = rtsp.Dial(w.addr)
	}
	if err != nil {
		w.c.FailK("dial", "%v", err)
	}
	dialMu.Lock()
	told := dialLimits[w.host]
	dialMu.Unlock()
	if told != dial {
		w.c.FailK("dial", "dialled with a limit of %v, not %v", told, dial)
	}
	cl.RtspTimeout = limit
	r := &reading{}
	t0 := time.Now()
	go func() {
		for len(r.got) < n {
			if each != nil {
				each(cl, len(r.got))
			}
			var p av.Packet
			if p, r.err = cl.ReadPacket(); r.err != nil {
				break
			}
			r.got = append(r.got, p)
			r.at = append(r.at, time.Since(t0))
		}
		r.end, r.over = time.Since(t0), true
	}()
	vs.Wait()
	return cl, r
}

func (w *wire) compare(r *reading, n int) {
	if r.err != nil || !r.over || len(r.got) != n {
		w.c.FailK("session", "%d of %d packets after %v (%v), requests %v", len(r.got), n, r.end, r.err, w.methods)
	}
	for i := range r.got {
		if !pktEqual(r.got[i], w.want[i]) {
			w.c.FailK("session", "packet %d is %v, want %v", i, r.got[i], w.want[i])
		}
	}
}

var timeTotals = map[bool][2]int{}

func measure(a bool) (n [2]int) {
	if r := vs.Bubble(func() {
		w := newWire(nil, timeScenario(a), 3, 0)
		w.read(0, 0, 3, nil)
		n[0], n[1] = w.a.Count()
		w.free()
	}); r != nil {
		panic(r)
	}
	return
}

// stalls disturbs one direction of a session.
func stalls(c *mc.Ctx, stride int) {
	withAuth := c.Bool()
	dir := c.Choose(2)
	limit := []time.Duration{0, 4 * time.Second, time.Minute}[c.Choose(3)]
	total := timeTotals[withAuth][dir]
	k := c.Choose((total+stride-1)/stride) * stride
	kind := c.Choose(6)
	if r := vs.Bubble(func() {
		w := newWire(c, timeScenario(withAuth), 3, 0)
		end := w.a
		if dir == 1 {
			end = w.b
		}
		end.Hold(k)
		blocked := dir == 1 && kind == 4
		if blocked {
			w.a.Window(16)
		}
		c.Logf("limit %v, direction %d held after %d of %d bytes, %s", limit, dir, k, total, []string{"for ever", "shortly", "longer", "then a byte each half of the limit", "for ever, nothing can be written", "for ever, the client is closed"}[kind])
		cl, r := w.read(limit, time.Duration(kind)*time.Second, 3, nil)
		c.Step(1)
		if r.over {
			c.FailK("model", "over before anything")
		}
		switch kind {
		case 0, 4:
			time.Sleep(3 * time.Hour)
			if limit == 0 {
				if r.over {
					c.FailK("limit", "without a limit: ended after %v with %v", r.end, r.err)
				}
				end.Hold(-1)
				w.a.Window(0)
				vs.Wait()
				w.compare(r, 3)
				break
			}
			if !r.over {
				c.FailK("limit", "still waits after 3 hours with a limit of %v", limit)
			}
			if r.err == nil || r.end < limit || r.end > limit+time.Second {
				c.FailK("limit", "ended after %v with %v, the limit is %v", r.end, r.err, limit)
			}
		case 1:
			d := limit - time.Second
			if limit == 0 {
				d = 10 * time.Hour
			}
			time.Sleep(d)
			if r.over {
				c.FailK("limit", "ended after %v with %v, the limit is %v", r.end, r.err, limit)
			}
			end.Hold(-1)
			vs.Wait()
			w.compare(r, 3)
		case 2:
			if limit == 0 {
				c.Prune()
			}
			time.Sleep(limit + 2*time.Second)
			end.Hold(-1)
			vs.Wait()
			if r.err == nil || r.end < limit || r.end > limit+time.Second {
				c.FailK("limit", "ended after %v with %v, the limit is %v", r.end, r.err, limit)
			}
		case 3:
			d := limit / 2
			if limit == 0 {
				d = time.Hour
			}
			// what comes now comes slowly, then the rest
			for i := 1; i <= 40; i++ {
				time.Sleep(d)
				end.Hold(k + i)
				vs.Wait()
				if dir == 0 && r.err != nil {
					c.FailK("limit", "ended after %v with %v, the limit is %v", r.end, r.err, limit)
				}
			}
			end.Hold(-1)
			vs.Wait()
			if dir == 0 || limit == 0 {
				w.compare(r, 3)
			} else if r.err == nil && !r.over {
				// no reply for longer than the limit
				c.FailK("limit", "still waits")
			}
		case 5:
			d := limit / 2
			if limit == 0 {
				d = time.Hour
			}
			time.Sleep(d)
			cl.Close()
			vs.Wait()
			if !r.over || r.err == nil || !w.a.IsClosed() {
				c.FailK("close", "closed while waiting: over %v, %v", r.over, r.err)
			}
		}
		if w.bad != "" {
			c.FailK("request", "%s", w.bad)
		}
		c.Outcome(r.err == nil, kind)
		c.Validated(1)
		w.free()
	}); r != nil {
		panic(r)
	}
}

// rests are gaps between packets, with limits that change on the way.
func rests(c *mc.Ctx) {
	limits := []time.Duration{0, 5 * time.Second, 20 * time.Second}
	l0 := limits[c.Choose(3)]
	l1 := limits[c.Choose(3)]
	gap := []time.Duration{0, 4 * time.Second, 6 * time.Second, time.Hour}[c.Choose(4)]
	change := c.Choose(4)
	sleep := []time.Duration{0, time.Minute}[c.Choose(2)] // of the client, before the change
	n := 4
	if r := vs.Bubble(func() {
		w := newWire(c, timeScenario(false), n, gap)
		c.Logf("limit %v, after %d packets (and %v) %v, packets every %v", l0, change, sleep, l1, gap)
		_, r := w.read(l0, 0, n, func(cl *rtsp.Client, i int) {
			if i == change {
				time.Sleep(sleep)
				cl.RtspTimeout = l1
			}
		})
		time.Sleep(5 * time.Hour)
		// the first wait that is longer than the limit of its time
		fail := -1
		var at time.Duration
		now := time.Duration(0)
		for i := 0; i < n; i++ {
			if i == change {
				now += sleep
			}
			l := l0
			if i >= change {
				l = l1
			}
			sent := time.Duration(i) * gap
			if change == 0 {
				sent += sleep // nothing was asked for before
			}
			if sent > now {
				if l > 0 && sent-now > l {
					fail, at = i, now+l
					break
				}
				now = sent
			}
		}
		if fail < 0 {
			w.compare(r, n)
		} else if len(r.got) != fail || r.err == nil || r.end != at {
			c.FailK("limit", "%d packets, ended after %v with %v, want %d packets, after %v", len(r.got), r.end, r.err, fail, at)
		}
		c.State(fail, fmt.Sprint(r.at))
		c.Outcome(fail)
		c.Step(n)
		c.Validated(1)
		w.free()
	}); r != nil {
		panic(r)
	}
}

func t05(tier string) []mc.Exploration {
	stride := 1
	for _, a := range []bool{false, true} {
		timeTotals[a] = measure(a)
	}
	return []mc.Exploration{
		{Name: "stalls", Rule: fmt.Sprintf("with and without authentication, either direction stops at every %d. byte of a session: for ever (with or without room for what is written), for less or more than the limit, byte by byte, or until the client is closed; no limit and two limits", stride), Run: func(c *mc.Ctx) { stalls(c, stride) }},
		{Name: "rests", Rule: "packets at four distances, limits that change (or go) after 0-3 packets, reader that rests before the change", Run: rests},
	}
}
