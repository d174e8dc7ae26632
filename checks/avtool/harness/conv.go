//go:build avtoolgen

package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"joyverif/mc"
	"joyverif/vs"
)

// vhOptions sets the tool's switches; explorations run one after another, each
// with switches of its own.
func vhOptions(re, stat, quiet bool) {
	if optNativeRate != re {
		optNativeRate = re
	}
	if optPrintStatSec != stat {
		optPrintStatSec = stat
	}
	if optDontPrintPkt != quiet {
		optDontPrintPkt = quiet
	}
}

func vhChoose(c *mc.Ctx, max, kinds int) (l []av.Packet) {
	if max > 100 { // a long one, of all kinds in rotation
		rot := 1 + c.Choose(kinds)
		for i := 0; i < max; i++ {
			l = append(l, vhPacket(i%rot+i/97%(kinds-rot+1), i))
		}
		return
	}
	for i, n := 0, c.Choose(max+1); i < n; i++ {
		l = append(l, vhPacket(c.Choose(kinds), i))
	}
	return
}

// vhSpan is how long after its first packet a sequence ends.
func vhSpan(l []av.Packet) (d time.Duration) {
	if len(l) == 0 {
		return 0
	}
	for _, p := range l {
		if x := p.Time - l[0].Time; x > d {
			d = x
		}
	}
	return
}

func vhConvFiles(c *mc.Ctx, max int, re bool) {
	vhRun(c, func(w *vhWorld) {
		pkts := vhChoose(c, max, 6)
		gap := 0
		if len(pkts) > 1 {
			gap = c.Dev(3)
		}
		switch gap {
		case 1: // the last one much later
			pkts[len(pkts)-1].Time += 3 * time.Second
		case 2: // the last one earlier than the one before
			pkts[len(pkts)-1].Time -= 3 * vhStep / 2
			if pkts[len(pkts)-1].Time < 0 {
				pkts[len(pkts)-1].Time = 0
			}
		}
		src := filepath.Join(w.dir, "in.flv")
		b := vhFlvFile(pkts)
		cut := c.Dev(min(len(b)+1, 2000))
		b = b[:len(b)-cut]
		srcOK := true
		switch c.Dev(4) {
		case 0:
			ioutil.WriteFile(src, b, 0644)
		case 1:
			srcOK = false
		case 2:
			srcOK = false
			src = filepath.Join(w.dir, "in.xyz")
			ioutil.WriteFile(src, b, 0644)
		case 3:
			ioutil.WriteFile(src, b, 0644)
			src = "file://" + src
		}
		want, rerr := vhParse(b) // a frame at a time, F01 and F02 are about that
		if !srcOK {
			want = nil
		}
		dst := filepath.Join(w.dir, "out.flv")
		file, dstOK := dst, true
		full := false
		switch c.Dev(8) {
		case 1:
			ioutil.WriteFile(dst, make([]byte, 5000), 0644)
		case 2:
			dst = "file://" + dst
		case 3:
			dst, file = "", ""
		case 4:
			dst, dstOK = filepath.Join(w.dir, "no", "out.flv"), false
		case 5:
			dst, dstOK = filepath.Join(w.dir, "out.xyz"), false
		case 6:
			dst, dstOK = filepath.Join(w.dir, "out.mp4"), false
		case 7:
			os.Symlink("/dev/full", dst)
			full = true
		}
		c.Logf("%s, cut %d bytes, source %s, destination %s", vhShow(pkts), cut, strings.TrimPrefix(src, w.dir), strings.TrimPrefix(dst, w.dir))
		vhOptions(re, false, true)
		t0 := time.Now()
		err := doConv(src, dst)
		took := time.Since(t0)
		c.Step(1)
		switch {
		case !srcOK:
			if err == nil {
				c.FailK("noerror", "no error although the source cannot be opened")
			}
			c.Outcome("no source")
		case len(want) > 0 && (!dstOK || full):
			if err == nil {
				c.FailK("noerror", "no error although the destination cannot be written")
			}
			c.Outcome("no destination")
			return
		case rerr != io.EOF:
			if err == nil {
				c.FailK("noerror", "no error although the source ends with %v", rerr)
			}
			c.Outcome("cut source")
		default:
			if err != nil {
				c.FailK("error", "%v", err)
			}
			c.Outcome("all", len(want))
		}
		if re && srcOK {
			if d := vhSpan(want); took < d || took > d+time.Second {
				c.FailK("pace", "took %v for packets of %v", took, d)
			}
		} else if took != 0 {
			c.FailK("pace", "took %v", took)
		}
		if full {
			return
		}
		if len(want) > 0 && file != "" {
			vhExpect(c, "the file made", vhFlvAt(c, file), want, false)
		} else if _, err := os.Stat(filepath.Join(w.dir, "out.flv")); err == nil && len(want) == 0 && file != "" {
			if l, err := ioutil.ReadFile(file); err == nil && len(l) != 5000 {
				if l, _ := vhParse(l); len(l) > 0 {
					c.FailK("packets", "packets out of nothing")
				}
			}
		}
		for _, f := range vhOpen(w.dir) {
			if strings.HasPrefix(f, "/out") {
				c.FailK("open", "%s is left open", f)
			}
		}
		c.Validated(1)
	})
}

// vhConvRemote sends a file to a server.
func vhConvRemote(c *mc.Ctx, max int, stat bool) {
	vhRun(c, func(w *vhWorld) {
		pkts := vhChoose(c, max, 7)
		src := filepath.Join(w.dir, "in.flv")
		ioutil.WriteFile(src, vhFlvFile(pkts), 0644)
		pkts, _ = vhParse(vhFlvFile(pkts))
		hang := -1
		var t *vhTarget
		mode := c.Dev(4)
		switch mode {
		case 0:
		case 1:
			hang = c.Choose(len(pkts) + 1)
		case 2, 3:
		}
		if mode != 3 {
			t = w.server("t.test:1935", nil, hang)
		}
		if mode == 2 { // hangs up at once
			w.dials["t.test:1935"] = func() (net.Conn, error) {
				a, b := w.pair()
				b.Close()
				return a, nil
			}
		}
		c.Logf("%s to a server (%d, hangs up after %d)", vhShow(pkts), mode, hang)
		vhOptions(false, stat, true)
		t0 := time.Now()
		err := doConv(src, "rtmp://t.test/app/s")
		took := time.Since(t0)
		vs.Wait()
		c.Step(1)
		if mode >= 2 && len(pkts) > 0 {
			if err == nil {
				c.FailK("noerror", "no error although the server cannot be reached")
			}
			c.Outcome("no server")
			return
		}
		if len(pkts) == 0 {
			if err != nil {
				c.FailK("error", "%v", err)
			}
			c.Outcome("nothing")
			return
		}
		if mode == 0 && err != nil {
			c.FailK("error", "%v", err)
		}
		got, _ := t.state()
		if mode == 1 {
			if len(got) < hang {
				c.FailK("packets", "the server read %d of %d packets before it would hang up", len(got), hang)
			}
			vhExpect(c, "the server", got, pkts, true)
			if t.conn.Failed() > 0 && err == nil {
				c.FailK("noerror", "no error although the server could not be written to")
			}
			c.Outcome("hung up", err == nil)
			return
		}
		vhExpect(c, "the server", got, pkts, false)
		if t.conns != 1 || !t.pub || t.url != "rtmp://t.test/app/s" && !strings.HasSuffix(t.url, "/app/s") {
			c.FailK("address", "%d connections, publishing %v, %s", t.conns, t.pub, t.url)
		}
		if !t.conn.IsClosed() {
			c.FailK("open", "the connection is left open")
		}
		// the pace is kept from the packet after the first one on
		var d time.Duration
		if len(pkts) > 1 {
			d = vhSpan(pkts[1:])
		}
		if took < d {
			c.FailK("pace", "%v of packets sent within %v", d, took)
		}
		if took > vhSpan(pkts)+time.Second {
			c.FailK("pace", "%v of packets took %v", vhSpan(pkts), took)
		}
		c.Outcome("sent", len(pkts))
		c.Validated(1)
	})
}

// vhConvSource records what a server plays.
func vhConvSource(c *mc.Ctx, max int, stat bool) {
	vhRun(c, func(w *vhWorld) {
		pkts := vhChoose(c, max, 7)
		hang := -1
		if len(pkts) > 0 {
			hang = c.Dev(len(pkts)+1) - 1
		}
		w.server("s.test:1935", pkts, hang)
		if hang >= 0 {
			pkts = pkts[:hang]
		}
		dst := filepath.Join(w.dir, "out.flv")
		c.Logf("%s from a server", vhShow(pkts))
		vhOptions(false, stat, true)
		err := doConv("rtmp://s.test/app/s", dst)
		c.Step(1)
		if len(pkts) > 0 && err != nil {
			c.FailK("error", "%v", err)
		}
		if len(pkts) > 0 {
			vhExpect(c, "the file made", vhFlvAt(c, dst), pkts, false)
		}
		if f := vhOpen(w.dir); len(f) > 0 {
			c.FailK("open", "%v left open", f)
		}
		c.Outcome("recorded", len(pkts))
		c.Validated(1)
	})
}

// vhConvPrints looks at the lines printed.
func vhConvPrints(c *mc.Ctx, max int) {
	vhPrinted = true
	vhRun(c, func(w *vhWorld) {
		pkts := vhChoose(c, max, 6)
		src := filepath.Join(w.dir, "in.flv")
		ioutil.WriteFile(src, vhFlvFile(pkts), 0644)
		quiet, dst := c.Bool(), ""
		if c.Bool() {
			dst = filepath.Join(w.dir, "out.flv")
		}
		vhOptions(c.Bool(), false, quiet)
		pkts, _ = vhParse(vhFlvFile(pkts))
		out := vhOutput(w, func() {
			if err := doConv(src, dst); err != nil {
				c.FailK("error", "%v", err)
			}
		})
		want := ""
		for _, p := range pkts {
			if !quiet {
				want += fmt.Sprintln(p.String())
			}
		}
		if out != want {
			c.FailK("printed", "printed %q, not %q", out, want)
		}
		c.Step(1)
		c.Outcome(len(pkts), quiet)
		c.Validated(1)
	})
	vhPrinted = false
}

func vhV01(tier string) []mc.Exploration {
	n, bound, long := 3, 2, 5000
	if tier == "thorough" {
		n, bound, long = 4, 3, 70000
	}
	return []mc.Exploration{
		{Name: "short files", Bound: bound, Rule: fmt.Sprintf("every file of up to %d packets of 6 kinds, cut at every byte, absent or of another kind; destinations that are new, there already, impossible or full; up to %d of these at a time", n-1, bound), Run: func(c *mc.Ctx) { vhConvFiles(c, n-1, false) }},
		{Name: "files", Bound: bound - 1, Rule: "the same with one packet more and one deviation less", Run: func(c *mc.Ctx) { vhConvFiles(c, n, false) }},
		{Name: "files at their own rate", Bound: bound - 1, Rule: "the same with -re", Run: func(c *mc.Ctx) { vhConvFiles(c, n, true) }},
		{Name: "to a server", Bound: 1, Rule: fmt.Sprintf("every file of up to %d packets of 7 kinds sent to an RTMP server that takes it, cannot be reached, or hangs up after every number of packets", n), Run: func(c *mc.Ctx) { vhConvRemote(c, n, false) }},
		{Name: "to a server with statistics", Bound: 1, Rule: "the same with -statsec", Run: func(c *mc.Ctx) { vhConvRemote(c, n-1, true) }},
		{Name: "from a server", Bound: 1, Rule: fmt.Sprintf("up to %d packets of 7 kinds played by an RTMP server that hangs up at every place", n), Run: func(c *mc.Ctx) { vhConvSource(c, n, false) }},
		{Name: "from a server with statistics", Bound: 1, Rule: "the same with -statsec", Run: func(c *mc.Ctx) { vhConvSource(c, n-1, true) }},
		{Name: "long files", Rule: fmt.Sprintf("files of %d packets, 6 mixtures of kinds", long), Run: func(c *mc.Ctx) { vhConvFiles(c, long, false) }},
		{Name: "long files at their own rate", Rule: "the same with -re", Run: func(c *mc.Ctx) { vhConvFiles(c, long, true) }},
		{Name: "long files to a server", Rule: fmt.Sprintf("files of %d packets, 7 mixtures of kinds", long), Run: func(c *mc.Ctx) { vhConvRemote(c, long, false) }},
		{Name: "long streams from a server", Rule: fmt.Sprintf("streams of %d packets, 7 mixtures of kinds", long), Run: func(c *mc.Ctx) { vhConvSource(c, long, false) }},
		{Name: "printed", Serial: true, Rule: "the lines printed for every file of up to two packets, with and without -qpkt and -re", Run: func(c *mc.Ctx) { vhConvPrints(c, 2) }},
	}
}
