//go:build avtoolgen

package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/nareix/joy5/av"

	"joyverif/h264model"
	"joyverif/mc"
)

// sets of parameters: number of SPS, number of PPS
func vhCfg(sps, pps int) (conf []byte, s, p [][]byte) {
	for i := 0; i < sps; i++ {
		s = append(s, h264model.Basic(uint64(i), 4, 3).NAL())
	}
	for i := 0; i < pps; i++ {
		p = append(p, h264model.PPS(uint64(i), 0))
	}
	conf = []byte{1, 66, 192, 30, 0xff, 0xe0 | byte(sps)}
	add := func(l [][]byte) {
		for _, x := range l {
			conf = append(append(conf, 0, byte(len(x))), x...)
		}
	}
	add(s)
	conf = append(conf, byte(pps))
	add(p)
	return
}

// vhAnnexb splits at start codes; units hold none and end in no zero.
func vhAnnexb(b []byte) (l [][]byte, ok bool) {
	start := -1
	for i := 0; i+3 <= len(b); {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			if start >= 0 {
				l = append(l, bytes.TrimRight(b[start:i], "\x00"))
			} else if i > 1 || len(bytes.TrimLeft(b[:i], "\x00")) > 0 {
				return nil, false
			}
			i += 3
			start = i
			continue
		}
		i++
	}
	if start < 0 {
		return nil, len(b) == 0
	}
	return append(l, bytes.TrimRight(b[start:], "\x00")), true
}

func vhEqual(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vhNal(typ byte, i, n int) []byte {
	b := []byte{typ}
	for j := 0; j < n; j++ {
		b = append(b, byte(i*16+j)|0x80)
	}
	return b
}

func vhRewrite(c *mc.Ctx, max int, move bool) {
	vhRun(c, func(w *vhWorld) {
		type unit struct {
			p    av.Packet
			nals [][]byte
		}
		var in []av.Packet
		var want []unit
		var sets [][]byte
		bad := -1 // the packet which cannot be rewritten
		for i, n := 0, c.Choose(max+1); i < n; i++ {
			p := vhPacket(2, i)
			var nals [][]byte
			switch c.Choose(11) {
			case 0: // audio
			case 1: // key frame of one unit
				p = vhPacket(0, i)
				nals = [][]byte{vhNal(0x65, i, 3)}
			case 2: // key frame of more
				p = vhPacket(0, i)
				nals = [][]byte{vhNal(9, i, 1), vhNal(0x65, i, 3), vhNal(0x65, i, 6)}
			case 3:
				p = vhPacket(1, i)
				nals = [][]byte{vhNal(0x41, i, 2)}
			case 4:
				p = vhPacket(1, i)
				nals = [][]byte{vhNal(6, i, 2), vhNal(0x41, i, 7)}
			case 5, 6, 7:
				n := [][2]int{{1, 1}, {2, 3}, {0, 0}}
				k := c.Choose(len(n))
				if !move && k > 0 {
					c.Prune()
				}
				conf, s, q := vhCfg(n[k][0], n[k][1])
				p = vhPacket(3, i)
				p.Data = conf
				if bad < 0 {
					sets = append(append([][]byte{}, s...), q...)
				}
			case 9: // key frame of many slices
				if i > 0 {
					c.Prune()
				}
				p = vhPacket(0, i)
				for j := 0; j < 20; j++ {
					nals = append(nals, vhNal(0x65, i, 2+j))
				}
			case 10:
				if i > 0 {
					c.Prune()
				}
				p = vhPacket(1, i)
				for j := 0; j < 20; j++ {
					nals = append(nals, vhNal(0x41, i, 1+j))
				}
				nals = append(nals, vhNal(0x41, i, 300))
			case 8:
				if c.Bool() {
					p = vhPacket(5, i)
				} else {
					p = vhPacket(3, i)
					p.Data = p.Data[:len(p.Data)-1-c.Choose(3)]
					if move && bad < 0 {
						bad = len(want)
					}
				}
			}
			if nals != nil {
				p.Data = vhAvcc(nals...)
			}
			in = append(in, p)
			if move && p.Type == av.H264DecoderConfig {
				continue
			}
			if move && p.IsKeyFrame && p.Type == av.H264 {
				nals = append(append([][]byte{}, sets...), nals...)
			}
			want = append(want, unit{p, nals})
		}
		b := vhFlvFile(in)
		cut := c.Dev(len(b) + 1)
		b = b[:len(b)-cut]
		src, dst := filepath.Join(w.dir, "in.flv"), filepath.Join(w.dir, "out.flv")
		srcOK, dstOK, full := true, true, false
		switch c.Dev(5) {
		case 0:
			ioutil.WriteFile(src, b, 0644)
		case 1:
			srcOK = false
		case 2:
			ioutil.WriteFile(src, b, 0644)
			ioutil.WriteFile(dst, make([]byte, 5000), 0644)
		case 3:
			ioutil.WriteFile(src, b, 0644)
			dst, dstOK = filepath.Join(w.dir, "no", "out.flv"), false
		case 4:
			ioutil.WriteFile(src, b, 0644)
			os.Symlink("/dev/full", dst)
			full = true
		}
		read, rerr := vhParse(b)
		// packets read are a prefix: that many of those wanted
		kept := 0
		for _, p := range read {
			if !move || p.Type != av.H264DecoderConfig {
				kept++
			}
		}
		broken := bad >= 0 && func() bool {
			n := 0
			for i, p := range in {
				if i >= len(read) {
					return false
				}
				if p.Type == av.H264DecoderConfig && n == bad {
					// the first configuration that is cut
					if _, _, ok := vhParseConf(p.Data); !ok {
						return true
					}
				}
				if p.Type != av.H264DecoderConfig {
					n++
				}
			}
			return false
		}()
		if broken {
			kept = bad
		}
		c.Logf("%s, cut %d bytes, to %s (source %v, full %v)", vhShow(in), cut, strings.TrimPrefix(dst, w.dir), srcOK, full)
		var err error
		if move {
			err = doMoveH264SeqhdrToKeyFrame(src, dst)
		} else {
			err = doAvcc2Annexb(src, dst)
		}
		c.Step(1)
		c.Validated(1)
		if f := vhOpen(w.dir); len(f) > 0 {
			c.FailK("open", "%v left open", f)
		}
		var names []string
		es, _ := os.ReadDir(w.dir)
		for _, e := range es {
			if e.Name() != "in.flv" && e.Name() != "out.flv" {
				names = append(names, e.Name())
			}
		}
		if len(names) > 0 {
			c.FailK("files", "makes %v", names)
		}
		switch {
		case !srcOK || !dstOK || full && kept > 0:
			if err == nil {
				c.FailK("noerror", "no error although a file cannot be opened or written")
			}
			c.Outcome("files")
			return
		case broken || rerr != io.EOF:
			if err == nil {
				c.FailK("noerror", "no error although the source ends with %v (unusable configuration: %v)", rerr, broken)
			}
			c.Outcome("broken")
		default:
			if err != nil {
				c.FailK("error", "%v", err)
			}
			c.Outcome(len(want))
		}
		if full {
			return
		}
		got, gerr := func() ([]av.Packet, error) {
			b, err := ioutil.ReadFile(dst)
			if err != nil {
				return nil, err
			}
			return vhParse(b)
		}()
		if gerr != io.EOF && !(kept == 0 && len(got) == 0) {
			c.FailK("file", "the file made ends with %v", gerr)
		}
		if len(got) != kept {
			c.FailK("packets", "%d packets, not %d: %s", len(got), kept, vhShow(got))
		}
		for i, p := range got {
			q := want[i].p
			var l [][]byte
			ok := true
			if p.Type == av.H264 {
				d := p.Data
				if !move {
					// one AVCC unit that holds all of them
					if len(d) < 4 || int(d[0])<<24|int(d[1])<<16|int(d[2])<<8|int(d[3]) != len(d)-4 {
						c.FailK("packets", "packet %d: %x is not one unit with its length", i, d)
					}
					d = d[4:]
				}
				l, ok = vhAnnexb(d)
				p.Data, q.Data = nil, nil
			}
			if !vhSame(p, q) || !ok || !vhEqual(l, want[i].nals) {
				c.FailK("packets", "packet %d is %s, not %s with the units %x", i, vhShow(got[i:i+1]), q.String(), want[i].nals)
			}
		}
	})
}

// vhParseConf tells whether a configuration is whole.
func vhParseConf(b []byte) (s, p [][]byte, ok bool) {
	if len(b) < 6 {
		return
	}
	n := int(b[5] & 31)
	b = b[6:]
	for k := 0; k < 2; k++ {
		for ; n > 0; n-- {
			if len(b) < 2 || len(b) < 2+int(b[1]) {
				return
			}
			b = b[2+int(b[1]):]
		}
		if k == 0 {
			if len(b) < 1 {
				return
			}
			n = int(b[0])
			b = b[1:]
		}
	}
	return nil, nil, true
}

const vhStray = "/tmp/a.h264"

func vhV02(tier string) []mc.Exploration {
	n, bound := 2, 1
	if tier == "thorough" {
		n, bound = 3, 2
	}
	rule := fmt.Sprintf("every file of up to %d packets (audio, key and inter frames of one to three units, configurations of no, one and several parameter sets or cut short, metadata), cut at every byte, with a source or destination that is absent, there already or full", n)
	long := fmt.Sprintf("every such file of up to %d packets, whole", n+1)
	return []mc.Exploration{
		{Name: "avcc2annexb", Bound: bound, Rule: rule, Run: func(c *mc.Ctx) { vhRewrite(c, n, false) }},
		{Name: "avcc2annexb, longer", Rule: long, Run: func(c *mc.Ctx) { vhRewrite(c, n+1, false) }},
		{Name: "moveh264seqhdrtokeyframe", Bound: bound, Rule: rule, Run: func(c *mc.Ctx) { vhRewrite(c, n, true) }},
		{Name: "moveh264seqhdrtokeyframe, longer", Rule: long, Run: func(c *mc.Ctx) { vhRewrite(c, n+1, true) }},
		{Name: "other files", Serial: true, Rule: "both tools leave everything but their destination alone", Run: func(c *mc.Ctx) {
			move := c.Bool()
			before, berr := os.Lstat(vhStray)
			vhRun(c, func(w *vhWorld) {
				src, dst := filepath.Join(w.dir, "in.flv"), filepath.Join(w.dir, "out.flv")
				ioutil.WriteFile(src, vhFlvFile([]av.Packet{vhPacket(3, 0), vhPacket(0, 1)}), 0644)
				if move {
					doMoveH264SeqhdrToKeyFrame(src, dst)
				} else {
					doAvcc2Annexb(src, dst)
				}
			})
			after, aerr := os.Lstat(vhStray)
			if (berr == nil) != (aerr == nil) || berr == nil && !after.ModTime().Equal(before.ModTime()) {
				c.FailK("stray", "%s was written", vhStray)
			}
			c.Step(1)
			c.Outcome(move)
			c.Validated(1)
		}},
	}
}
