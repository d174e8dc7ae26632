package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
	"joyverif/vs"
)

// what a peer may send to a connection which sends media
var peerSends = []struct {
	name string
	data []byte
}{
	{"a byte", []byte{0x43}},
	{"an acknowledgement", []byte{2, 0, 0, 0, 0, 0, 4, 3, 0, 0, 0, 0, 0, 0, 1, 0}},
	{"a ping and a part of another", []byte{2, 0, 0, 0, 0, 0, 6, 4, 0, 0, 0, 0, 0, 6, 0, 0, 0, 9, 2, 0, 0, 0, 0, 0, 6, 4, 0}},
	{"closeStream", append([]byte{3, 0, 0, 0, 0, 0, 25, 20, 1, 0, 0, 0}, "\x02\x00\x0bcloseStream\x00\x00\x00\x00\x00\x00\x00\x00\x00\x05....."[:25]...)},
	{"a chunk size of nothing", []byte{2, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0}},
	{"what is no chunk", fill(50, 0xff)},
	{"much", fill(100000, 3)},
}

func notified(c *rtmp.Conn) bool {
	select {
	case <-c.CloseNotify():
		return true
	default:
		return false
	}
}

// leave: a sending connection takes what its peer sends and learns when it leaves.
func leave(c *mc.Ctx, depth int) {
	publish := c.Bool()
	n := c.Choose(depth + 1)
	type op struct{ k, arg int }
	var ops []op
	for i := 0; i < n; i++ {
		k := c.Choose(len(peerSends) + 3)
		ops = append(ops, op{k: k})
	}
	end := c.Choose(6)
	if r := vs.Bubble(func() {
		s := newSetup(c, 0, false)
		s.start(publish)
		if s.cliErr != nil || s.handled != 1 {
			c.FailK("setup", "setup failed: %v", s.cliErr)
		}
		// w sends, its end of the transport is we; the peer's is pe
		w, we, pe := s.srv, s.b, s.a
		if publish {
			w, we, pe = s.cli, s.a, s.b
		}
		sent := 0
		write := func(size int) error {
			p := av.Packet{Type: av.AAC, Time: ms(int64(sent) * 20), Data: fill(size, byte(sent))}
			err := w.WritePacket(p)
			if err == nil {
				err = w.Flush()
			}
			if err == nil {
				sent++
			}
			return err
		}
		check := func(what string, gone bool) {
			vs.Wait()
			r, _ := we.Count()
			if _, n := pe.Count(); r != n {
				c.FailK("taken", "after %s: the sender took %d of the %d bytes its peer sent", what, r, n)
			}
			if !gone && notified(w) {
				c.FailK("early", "after %s: the sender is told that its peer left", what)
			}
			if len(s.got) != sent {
				c.FailK("media", "after %s: %d packets were sent, %d arrived (%v)", what, sent, len(s.got), s.readErr)
			}
			c.Step(1)
		}
		check("the setup", false)
		for _, o := range ops {
			what := ""
			switch k := o.k - len(peerSends); {
			case k < 0:
				what = peerSends[o.k].name
				pe.Write(peerSends[o.k].data)
			case k == 0:
				what = "a packet"
				if err := write(30); err != nil {
					c.FailK("media", "writing: %v", err)
				}
			case k == 1:
				what = "an hour"
				time.Sleep(time.Hour)
			case k == 2:
				// the sender cannot get rid of a packet while its peer goes on
				what = "sending while the peer takes nothing"
				pe.Hold(0)
				we.Window(2000)
				var err error
				done := false
				go func() { err = write(50000); done = true }()
				vs.Wait()
				if done {
					c.FailK("model", "writing is not blocked")
				}
				pe.Write(peerSends[6].data)
				vs.Wait()
				r, _ := we.Count()
				if _, n := pe.Count(); r != n {
					c.FailK("taken", "while sending is blocked the sender took %d of the %d bytes its peer sent", r, n)
				}
				pe.Hold(-1)
				vs.Wait()
				we.Window(0)
				if !done || err != nil {
					c.FailK("media", "writing once the peer goes on: done %v, %v", done, err)
				}
			}
			c.Logf("%s", what)
			check(what, false)
		}
		blocked, werr := false, error(nil)
		bdone := true
		switch end {
		case 0:
			c.Logf("stays")
			time.Sleep(3 * time.Hour)
			check("three hours", false)
		case 1:
			c.Logf("the peer closes")
			pe.Close()
		case 2:
			c.Logf("the peer sends more and closes")
			pe.Write(peerSends[6].data)
			pe.Close()
		case 3:
			c.Logf("the connection breaks")
			we.Break(errors.New("connection reset by peer"))
		case 4:
			c.Logf("the sender closes")
			we.Close()
		case 5:
			c.Logf("the peer closes while it takes nothing")
			blocked, bdone = true, false
			pe.Hold(0)
			we.Window(2000)
			go func() { werr = write(50000); bdone = true }()
			vs.Wait()
			if bdone {
				c.FailK("model", "writing is not blocked")
			}
			if notified(w) {
				c.FailK("early", "told that the peer left while writing is blocked")
			}
			pe.Close()
		}
		vs.Wait()
		if end != 0 {
			if !notified(w) {
				c.FailK("late", "the sender is not told that its peer left")
			}
			if len(s.got) != sent {
				c.FailK("media", "%d packets were sent before the end, %d arrived (%v)", sent, len(s.got), s.readErr)
			}
			if blocked && (!bdone || werr == nil) {
				c.FailK("media", "a write which was blocked as the peer left: done %v, %v", bdone, werr)
			}
			if end != 3 {
				if err := write(5); err == nil {
					c.FailK("media", "a packet is written after the end without an error")
				}
			}
		}
		c.State(fmt.Sprint(publish, ops, end))
		c.Outcome(publish, end, sent)
		s.end()
		c.Validated(1)
	}); r != nil {
		panic(r)
	}
}

func r11(tier string) []mc.Exploration {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	return []mc.Exploration{
		{Name: "leaving", Rule: fmt.Sprintf("a server that plays and a client that publishes, after the setup: all sequences of up to %d of {the peer sends: %d kinds of messages, fragments and garbage; a packet is sent; an hour passes; sending is blocked while the peer goes on} and then the peer stays, closes, sends and closes, the connection breaks, the sender closes, or the peer closes while sending is blocked", depth, len(peerSends)), Run: func(c *mc.Ctx) { leave(c, depth) }},
	}
}
