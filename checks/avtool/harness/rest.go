//go:build avtoolgen

package main

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"joyverif/mc"
	"joyverif/vs"
)

// ---- forwardrtmp

type vhSession struct {
	k       *vhClient
	name    string
	to      string
	pub     bool
	t       *vhTarget
	file    string
	lost    int // packets taken before the target is gone, -1 for never
	sent    []av.Packet
	left    bool
	dead    bool // cannot be forwarded: must be hung up on
	unclear bool
}

func vhForward(c *mc.Ctx, depth, max, kinds int) {
	vhRun(c, func(w *vhWorld) {
		lis := vhNewLis()
		w.lis[":1935"] = lis
		go doForwardRtmp(":1935")
		vs.Wait()
		var all []*vhSession
		for d := 0; d < depth; d++ {
			type act struct {
				name string
				f    func()
			}
			var acts []act
			if len(all) < max {
				join := func(what, to string, pub bool, dead bool, lost int) {
					id := len(all)
					acts = append(acts, act{fmt.Sprintf("join%d:%s", id, what), func() {
						s := &vhSession{pub: pub, dead: dead, lost: lost, to: to}
						host := fmt.Sprintf("t%d.test", id)
						switch {
						case to == "rtmp":
							s.t = w.server(host+":1935", nil, lost)
							to = "rtmp://" + host + "/app/s" + strconv.Itoa(id)
						case to == "file":
							s.file = filepath.Join(w.dir, fmt.Sprintf("f%d.flv", id))
							to = s.file
						}
						addr := "rtmp://h.test/app/x"
						if to != "" {
							addr += "?a=1&fwd=" + to
						}
						s.k = w.connect(lis, addr, pub)
						all = append(all, s)
						vs.Wait()
					}})
				}
				join("rtmp", "rtmp", true, false, -1)
				join("file", "file", true, false, -1)
				join("rtmp that hangs up", "rtmp", true, false, 0)
				join("rtmp that hangs up after one", "rtmp", true, false, 1)
				join("unreachable", "rtmp://nowhere.test/app/s", true, true, -1)
				join("bad address", "foo://x/y", true, true, -1)
				join("no directory", filepath.Join(w.dir, "no", "f.flv"), true, true, -1)
				join("no address", "", true, true, -1)
				join("player", "rtmp", false, true, -1)
			}
			for i, s := range all {
				i, s := i, s
				if s.left {
					continue
				}
				acts = append(acts, act{fmt.Sprint("leave", i), func() { s.left = true; s.k.conn.Close(); vs.Wait() }})
				if s.pub && !s.dead {
					for k := 0; k < kinds; k++ {
						k := k
						acts = append(acts, act{fmt.Sprint(i, ":", vhKindNames[k]), func() {
							p := vhPacket(k, len(s.sent))
							p.Data = append([]byte{}, p.Data...)
							s.sent = append(s.sent, p)
							s.k.send(p)
							vs.Wait()
						}})
					}
				}
			}
			if len(acts) == 0 {
				c.Prune() // a shorter history
			}
			a := acts[c.Choose(len(acts))]
			c.Logf("%s", a.name)
			a.f()
			c.Step(1)
			out := ""
			for i, s := range all {
				up, _, _ := s.k.state()
				if s.pub && !up && !s.left && !s.k.hungUp() {
					c.FailK("session", "publisher %d never learns that it may publish", i)
				}
				if s.dead {
					if !s.k.hungUp() {
						c.FailK("open", "the connection of client %d is kept although nothing is forwarded", i)
					}
					if s.t != nil && s.t.conns > 0 {
						c.FailK("dialled", "a player's target is dialled")
					}
					continue
				}
				want := s.sent
				var got []av.Packet
				ended := false
				if s.t != nil {
					var err error
					got, err = s.t.state()
					ended = err != nil
					if s.t.conns != 1 || !s.t.ready || !s.t.pub || !strings.HasSuffix(s.t.url, "/app/s"+strconv.Itoa(i)) {
						c.FailK("target", "client %d: %d connections to its target, publishing %v, %s", i, s.t.conns, s.t.pub, s.t.url)
					}
					ended = ended || s.t.conn.IsClosed()
				} else {
					b, err := ioutil.ReadFile(s.file)
					if err != nil {
						c.FailK("file", "client %d: %v", i, err)
					}
					got, _ = vhParse(b)
					ended = !vhIn(vhOpen(w.dir), strings.TrimPrefix(s.file, w.dir))
				}
				if s.lost >= 0 {
					if len(want) > s.lost {
						want = want[:s.lost]
					}
					vhExpect(c, fmt.Sprintf("the target of client %d", i), got, want, false)
					// the failure is noticed at the latest two packets later
					if len(s.sent) >= s.lost+2 && !s.k.hungUp() {
						c.FailK("open", "the target of client %d is gone, the client is not told", i)
					}
					continue
				}
				vhExpect(c, fmt.Sprintf("the target of client %d", i), got, want, false)
				if s.left != ended {
					c.FailK("open", "client %d left: %v, its target was closed: %v", i, s.left, ended)
				}
				if !s.left && s.k.hungUp() {
					c.FailK("closed", "client %d is hung up on", i)
				}
				if s.left && !s.k.hungUp() {
					c.FailK("open", "the connection of client %d is left open", i)
				}
				out += fmt.Sprint(len(got), s.left, ";")
			}
			c.State(out)
			if d == depth-1 {
				c.Outcome(out)
				c.Validated(1)
			}
		}
	})
}

func vhIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vhV03(tier string) []mc.Exploration {
	d := 0
	if tier == "thorough" {
		d = 1
	}
	rule := "all histories of %d actions of up to %d clients (join with a target that is a server, a server that hangs up, a file, or cannot be used, or as a player; send a packet of one of %d kinds; leave), each followed to rest"
	ex := func(name string, depth, clients, kinds int) mc.Exploration {
		return mc.Exploration{Name: name, Rule: fmt.Sprintf(rule, depth, clients, kinds), Run: func(c *mc.Ctx) { vhForward(c, depth, clients, kinds) }}
	}
	return []mc.Exploration{ex("one client", 6+d, 1, 4), ex("two clients", 6+d, 2, 1), ex("packets", 4+d, 1, 7)}
}

// ---- benchrtmp

func vhBench(c *mc.Ctx, max, depth, kinds int) {
	vhRun(c, func(w *vhWorld) {
		file := filepath.Join(w.dir, "in.flv")
		pkts := vhChoose(c, max, kinds)
		if len(pkts) > 0 {
			k := c.Choose(4)
			if k == 1 {
				pkts[len(pkts)-1].Time += 2 * time.Second
			}
			if k == 2 { // earlier than another
				if len(pkts) < 3 {
					c.Prune()
				}
				pkts[0].Time += 2 * time.Second
				pkts[2].Time += 2 * time.Second
			}
			if k == 3 { // not from zero on
				for i := range pkts {
					pkts[i].Time += 2 * vhStep
				}
			}
		}
		b := vhFlvFile(pkts)
		pkts, _ = vhParse(b)
		bad := c.Dev(4)
		switch bad {
		case 0:
			ioutil.WriteFile(file, b, 0644)
		case 1: // none
		case 2:
			ioutil.WriteFile(file, b[:len(b)-1-c.Choose(len(b)-1)], 0644)
			b = b[:0]
		case 3:
			file, pkts = "", nil
		}
		if bad == 2 {
			b, _ := ioutil.ReadFile(file)
			if _, err := vhParse(b); err == nil || err.Error() == "EOF" {
				c.Prune()
			}
		}
		c.Logf("file %d: %s", bad, vhShow(pkts))
		lis := vhNewLis()
		w.lis[":1935"] = lis
		var err error
		ended := false
		go func() {
			err = doBenchRtmp(":1935", file)
			ended = true
		}()
		vs.Wait()
		c.Step(1)
		if bad == 1 || bad == 2 {
			if !ended || err == nil {
				c.FailK("noerror", "no error although the file cannot be read")
			}
			c.Outcome("no file")
			return
		}
		if ended {
			c.FailK("ended", "ends with %v", err)
		}
		type who struct {
			*vhSession
			since time.Time
		}
		var all []*who
		for d := 0; d < depth; d++ {
			var names []string
			if len(all) < 2 {
				names = append(names, "play", "publish")
			}
			names = append(names, "wait", "wait long")
			for i, s := range all {
				if !s.left {
					names = append(names, fmt.Sprint("leave", i))
					if s.pub {
						names = append(names, fmt.Sprint("send", i))
					}
				}
			}
			n := names[c.Choose(len(names))]
			c.Logf("%s", n)
			switch n {
			case "play", "publish":
				s := &who{&vhSession{pub: n == "publish"}, time.Now()}
				s.k = w.connect(lis, "rtmp://h.test/app/x", s.pub)
				all = append(all, s)
			case "wait":
				time.Sleep(vhStep)
			case "wait long":
				time.Sleep(3 * time.Second)
			default:
				i := int(n[len(n)-1] - '0')
				s := all[i]
				if n[0] == 'l' {
					s.left = true
					s.k.conn.Close()
				} else {
					p := vhPacket(6, len(s.sent))
					s.sent = append(s.sent, p)
					s.k.send(p)
				}
			}
			vs.Wait()
			c.Step(1)
			out := ""
			for i, s := range all {
				up, over, got := s.k.state()
				if s.left {
					continue
				}
				if !up && !(over && !s.pub) {
					c.FailK("session", "client %d never learns that it may go on", i)
				}
				if s.pub {
					if s.k.hungUp() || over {
						c.FailK("closed", "publisher %d is hung up on", i)
					}
					continue
				}
				since := time.Since(s.since)
				var must []av.Packet
				for j, p := range pkts {
					if p.Time >= since {
						break
					}
					must = pkts[:j+1]
				}
				vhExpect(c, fmt.Sprintf("player %d", i), got, pkts, true)
				if len(got) < len(must) {
					c.FailK("late", "player %d got %d packets within %v, %d are due", i, len(got), since, len(must))
				}
				s.k.mu.Lock()
				at := s.k.at
				s.k.mu.Unlock()
				for j := 1; j < len(got); j++ {
					if e := at[j].Sub(s.since); e < pkts[j-1].Time {
						c.FailK("early", "player %d got packet %d after %v, the one before is of %v", i, j, e, pkts[j-1].Time)
					}
				}
				if len(got) == len(pkts) && since > vhSpan(pkts)+vhPktsFirst(pkts)+vhStep && !s.k.hungUp() {
					c.FailK("open", "player %d is kept after the last packet", i)
				}
				if s.k.hungUp() && len(got) < len(pkts) {
					c.FailK("packets", "player %d is hung up on after %d of %d packets", i, len(got), len(pkts))
				}
				out += fmt.Sprint(len(got), s.left, ";")
			}
			c.State(out)
		}
		for i, s := range all {
			s.left = true
			s.k.conn.Close()
			time.Sleep(4 * time.Second)
			if !s.k.hungUp() {
				c.FailK("open", "client %d left, its connection is kept", i)
			}
		}
		c.Outcome(len(pkts), len(all))
		c.Validated(1)
	})
}

func vhPktsFirst(l []av.Packet) time.Duration {
	if len(l) == 0 {
		return 0
	}
	return l[0].Time
}

// vhBenchCounts looks at the numbers printed.
func vhBenchCounts(c *mc.Ctx, depth int) {
	vhPrinted = true
	vhRun(c, func(w *vhWorld) {
		file := filepath.Join(w.dir, "in.flv")
		pkts := []av.Packet{vhPacket(0, 0), vhPacket(2, 1)}
		pkts[1].Time = 100 * time.Second
		ioutil.WriteFile(file, vhFlvFile(pkts), 0644)
		lis := vhNewLis()
		w.lis[":1935"] = lis
		out := vhOutput(w, func() {
			go doBenchRtmp(":1935", file)
			time.Sleep(500 * time.Millisecond)
			var want []string
			var all []*vhSession
			sub, pub := 0, 0
			for d := 0; d < depth; d++ {
				n := 2
				for _, s := range all {
					if !s.left {
						n++
					}
				}
				k := c.Choose(n)
				if k < 2 {
					s := &vhSession{pub: k == 1}
					s.k = w.connect(lis, "rtmp://h.test/app/x", s.pub)
					all = append(all, s)
					if s.pub {
						pub++
					} else {
						sub++
					}
					c.Logf("join %v", s.pub)
				} else {
					for i, s := range all {
						if !s.left {
							if k--; k == 1 {
								c.Logf("leave %d", i)
								s.left = true
								s.k.conn.Close()
								if s.pub {
									pub--
								} // a player's leaving is noticed with the next packet
							}
						}
					}
				}
				want = append(want, fmt.Sprintf("sub %d pub %d\n", sub, pub))
				time.Sleep(time.Second)
				c.Step(1)
			}
			b, _ := ioutil.ReadFile(filepath.Join(w.dir, "stdout"))
			if got := string(b); got != strings.Join(want, "") {
				c.FailK("counts", "printed %q, not %q", got, want)
			}
			time.Sleep(200 * time.Second)
		})
		// in the end nobody is left who plays
		l := strings.Split(strings.TrimSpace(out), "\n")
		if !strings.HasPrefix(l[len(l)-1], "sub 0 ") {
			c.FailK("counts", "%q after everybody has got the whole file", l[len(l)-1])
		}
		c.Outcome(len(l))
		c.Validated(1)
	})
	vhPrinted = false
}

func vhV04(tier string) []mc.Exploration {
	d := 0
	if tier == "thorough" {
		d = 1
	}
	ex := func(name string, pkts, depth, kinds int) mc.Exploration {
		return mc.Exploration{Name: name, Bound: 1, Rule: fmt.Sprintf("every file of up to %d packets of %d kinds, or one that is absent, cut or not given, and all histories of %d actions (a player or a publisher joins, a publisher sends a large packet, one leaves, time passes)", pkts, kinds, depth), Run: func(c *mc.Ctx) { vhBench(c, pkts, depth, kinds) }}
	}
	return []mc.Exploration{ex("histories", 2, 4+d, 2), ex("files", 3, 2+d, 5),
		{Name: "counts", Serial: true, Rule: fmt.Sprintf("the numbers printed each second over all histories of %d joins and leaves", 4+d), Run: func(c *mc.Ctx) { vhBenchCounts(c, 4+d) }}}
}

// ---- statistics

var vhStatLine = regexp.MustCompile(`^StatSec (?:pkts (\d+)|(input|output)(\d+) tx (\d+) rx (\d+))$`)

// vhSumUp compares what is printed with what was transferred.
func vhSumUp(c *mc.Ctx, out string, pkts int, s, t *vhTarget) int {
	sum := map[string]int{}
	lines := 0
	seen, round := map[string]bool{}, map[string]bool{}
	whole := func() {
		for k := range seen {
			if !round[k] {
				c.FailK("round", "%s is missing from a second after it was printed\n%s", k, out)
			}
		}
		round = map[string]bool{}
	}
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		m := vhStatLine.FindStringSubmatch(l)
		if m == nil {
			c.FailK("line", "printed %q", l)
		}
		num := func(i int) int { n, _ := strconv.Atoi(m[i]); return n }
		if m[1] != "" {
			whole()
			sum["pkts"] += num(1)
			lines++
		} else {
			if round[m[2]+m[3]] {
				c.FailK("round", "%s is printed twice in a second\n%s", m[2]+m[3], out)
			}
			seen[m[2]+m[3]], round[m[2]+m[3]] = true, true
			sum[m[2]+m[3]+" tx"] += num(4)
			sum[m[2]+m[3]+" rx"] += num(5)
		}
	}
	want := map[string]int{"pkts": pkts}
	conn := func(name string, t *vhTarget) {
		if t != nil && t.conn != nil {
			want[name+" tx"] = len(t.conn.Written())
			want[name+" rx"] = t.conn.Taken()
		}
	}
	conn("input0", s)
	conn("output0", t)
	for k, n := range want {
		if sum[k] != n {
			c.FailK("sum", "%s adds up to %d, not %d\n%s", k, sum[k], n, out)
		}
	}
	for k := range sum {
		if _, ok := want[k]; !ok {
			c.FailK("sum", "%s is printed\n%s", k, out)
		}
	}
	return lines
}

func vhStats(c *mc.Ctx, max int) {
	vhPrinted = true
	vhRun(c, func(w *vhWorld) {
		pkts := vhChoose(c, max, 6)
		if len(pkts) > 1 {
			pkts[len(pkts)-1].Time += time.Duration(c.Choose(3)) * 1300 * time.Millisecond
		}
		pkts, _ = vhParse(vhFlvFile(pkts))
		src, dst := filepath.Join(w.dir, "in.flv"), filepath.Join(w.dir, "out.flv")
		ioutil.WriteFile(src, vhFlvFile(pkts), 0644)
		from, to := c.Bool(), c.Bool()
		var s, t *vhTarget
		if from || to {
			w.reads = c.Choose(2)
		}
		if from {
			s, src = w.server("s.test:1935", pkts, -1), "rtmp://s.test/app/s"
		}
		if to {
			t, dst = w.server("t.test:1935", nil, -1), "rtmp://t.test/app/s"
		}
		re := c.Bool()
		vhOptions(re, true, true)
		c.Logf("%s from %s to %s at its rate: %v", vhShow(pkts), src, dst, re)
		var convErr error
		out := vhOutput(w, func() {
			convErr = doConv(src, dst)
			time.Sleep(2100 * time.Millisecond)
		})
		vhOptions(false, false, true)
		if convErr != nil && len(pkts) > 0 {
			c.FailK("error", "%v", convErr)
		}
		if lines := vhSumUp(c, out, len(pkts), s, t); lines < 2 {
			c.FailK("lines", "%d lines within two seconds", lines)
		}
		c.Step(1)
		c.Outcome(len(pkts), from, to)
		c.Validated(1)
	})
	vhPrinted = false
}

// vhStatSchedules lets packets pass at the moments at which numbers are
// printed, in every order of the steps of both.
func vhStatSchedules(c *mc.Ctx, max, level int) {
	vhPrinted = true
	vhSchedule(c, level, func(w *vhWorld, sc *vs.Sched) {
		var pkts []av.Packet
		for i, n := 0, 1+c.Choose(max); i < n; i++ {
			p := vhPacket([]int{2, 6}[c.Choose(2)], i)
			p.Time = time.Duration(i) * time.Second
			pkts = append(pkts, p)
		}
		pkts, _ = vhParse(vhFlvFile(pkts))
		var s, t *vhTarget
		src, dst := filepath.Join(w.dir, "in.flv"), ""
		if c.Bool() {
			ioutil.WriteFile(src, vhFlvFile(pkts), 0644)
			t, dst = w.server("t.test:1935", nil, -1), "rtmp://t.test/app/s"
		} else {
			w.gap = time.Second
			s, src = w.server("s.test:1935", pkts, -1), "rtmp://s.test/app/s"
		}
		c.Logf("%s from %s to %s", vhShow(pkts), src, dst)
		vhOptions(false, true, true)
		var convErr error
		var ended time.Time
		sc.Nap = 100 * time.Millisecond
		var conv *vs.Thread
		sc.Until = func() bool {
			if conv.Done && ended.IsZero() {
				ended = time.Now()
			}
			return conv.Done && time.Since(ended) > 2100*time.Millisecond
		}
		out := vhOutput(w, func() {
			conv = sc.Go("conv", func() {
				convErr = doConv(src, dst)
				ended = time.Now()
			})
			sc.Explore()
		})
		vhOptions(false, false, true)
		if convErr != nil {
			c.FailK("error", "%v", convErr)
		}
		if t != nil {
			got, _ := t.state()
			vhExpect(c, "the server", got, pkts, false)
		}
		vhSumUp(c, out, len(pkts), s, t)
		c.Outcome(out)
		c.Validated(1)
	})
	vhPrinted = false
}

func vhV05(tier string) []mc.Exploration {
	n, b := 2, 2
	if tier == "thorough" {
		n, b = 3, 3
	}
	return []mc.Exploration{
		{Name: "conv -statsec", Serial: true, Rule: fmt.Sprintf("every file of up to %d packets of 6 kinds converted from a file or a server to a file or a server, with a last packet up to 2.6 s later, with and without -re; what is printed is added up", n), Run: func(c *mc.Ctx) { vhStats(c, n) }},
		{Name: "schedules", Serial: true, Bound: b, Rule: fmt.Sprintf("up to %d packets which pass at the moments at which numbers are printed, all interleavings of both at synchronisation operations with up to %d preemptions", n+1, b), Run: func(c *mc.Ctx) { vhStatSchedules(c, n+1, vs.LSync) }},
	}
}
