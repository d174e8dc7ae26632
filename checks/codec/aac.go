package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/nareix/joy5/codec/aac"

	hm "joyverif/h264model"
	"joyverif/mc"
)

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var channels = []int{0, 1, 2, 3, 4, 5, 6, 8}

// asc writes an audio specific configuration; idx 15 means an explicit rate.
func asc(aot, idx, rate, ch uint64) *hm.Bits {
	w := &hm.Bits{}
	if aot >= 32 {
		w.U(31, 5)
		w.U(aot-32, 6)
	} else {
		w.U(aot, 5)
	}
	w.U(idx, 4)
	if idx == 15 {
		w.U(rate, 24)
	}
	w.U(ch, 4)
	return w
}

type bitsIn struct {
	b []byte
	n int
}

func (r *bitsIn) u(n int) (v uint64, ok bool) {
	if r.n+n > len(r.b)*8 {
		return 0, false
	}
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(r.b[r.n/8]>>uint(7-r.n%8)&1)
		r.n++
	}
	return v, true
}

// ascParse is the reference reader.
func ascParse(b []byte) (aot, idx, rate, ch uint64, ok bool) {
	r := &bitsIn{b: b}
	if aot, ok = r.u(5); !ok {
		return
	}
	if aot == 31 {
		if aot, ok = r.u(6); !ok {
			return
		}
		aot += 32
	}
	if idx, ok = r.u(4); !ok {
		return
	}
	if idx == 15 {
		if rate, ok = r.u(24); !ok {
			return
		}
	} else if idx < 13 {
		rate = uint64(rates[idx])
	}
	if ch, ok = r.u(4); !ok {
		return
	}
	ok = rate != 0 && ch < 8
	return
}

func sameASC(got aac.MPEG4AudioConfig, aot, idx, rate, ch uint64) bool {
	return uint64(got.ObjectType) == aot && uint64(got.SampleRateIndex) == idx && uint64(got.SampleRate) == rate && uint64(got.ChannelConfig) == ch && got.ChannelLayout.Count() == channels[ch]
}

func c01(tier string) []mc.Exploration {
	explicit := []uint64{1, 3, 12, 13, 15, 7350, 44100, 44101, 96001, 1<<24 - 1}
	return []mc.Exploration{
		{Name: "configurations", Rule: "all object types 1-30 and 32-95 x all rate indices and explicit rates x all channel configurations, written from complete and from minimal descriptions, parsed with trailing data, truncated at every byte", Run: func(c *mc.Ctx) {
			aot := uint64(1 + c.Choose(95))
			if aot == 31 {
				c.Prune()
			}
			k := c.Choose(13 + len(explicit))
			idx, rate := uint64(k), uint64(0)
			if k < 13 {
				rate = uint64(rates[k])
			} else {
				idx, rate = 15, explicit[k-13]
			}
			ch := uint64(c.Choose(8))
			ref := asc(aot, idx, rate, ch)
			nbits := ref.Len()
			want := ref.Pad()
			parse := func(b []byte, what string) aac.MPEG4AudioConfig {
				got, err := aac.ParseMPEG4AudioConfigBytes(b)
				if err != nil || !sameASC(got, aot, idx, rate, ch) {
					c.Fail("%s %x parsed as %+v, %v; want type %d index %d rate %d channels %d", what, b, got, err, aot, idx, rate, ch)
				}
				return got
			}
			got := parse(want, "configuration")
			parse(append(append([]byte(nil), want...), 0x56, 0xe5, 0xa5, 0x48), "configuration with an extension")
			// the rest of the last byte is not part of it
			for _, m := range []byte{0xff, 0x55} {
				x := append([]byte(nil), want...)
				if f := uint(len(x)*8 - nbits); f > 0 {
					x[len(x)-1] |= m & (1<<f - 1)
				}
				parse(x, "configuration with set bits after it")
			}
			for i := range want {
				if _, err := aac.ParseMPEG4AudioConfigBytes(want[:i:i]); err == nil {
					c.Fail("configuration %x cut to %d bytes is accepted", want, i)
				}
			}
			write := func(x aac.MPEG4AudioConfig, want []byte) {
				var w bytes.Buffer
				if err := aac.WriteMPEG4AudioConfig(&w, x); err != nil || !bytes.Equal(w.Bytes(), want) {
					c.Fail("%+v is written as %x, %v; want %x", x, w.Bytes(), err, want)
				}
			}
			write(got, want)
			write(aac.MPEG4AudioConfig{ObjectType: uint(aot), SampleRateIndex: uint(idx), SampleRate: int(rate), ChannelConfig: uint(ch)}, want)
			if idx < 15 {
				write(aac.MPEG4AudioConfig{ObjectType: uint(aot), SampleRateIndex: uint(idx), ChannelConfig: uint(ch)}, want)
			}
			// described by rate and layout only
			byRate := want
			if idx == 15 {
				for i, r := range rates {
					if uint64(r) == rate {
						byRate = asc(aot, uint64(i), 0, ch).Pad()
					}
				}
			}
			write(aac.MPEG4AudioConfig{ObjectType: uint(aot), SampleRate: int(rate), ChannelLayout: got.ChannelLayout}, byRate)
			cd, err := aac.FromMPEG4AudioConfigBytes(want)
			if err != nil || !bytes.Equal(cd.ConfigBytes, want) || !sameASC(cd.Config, aot, idx, rate, ch) || !cd.Config.IsValid() {
				c.Fail("codec of %x: %+v, %v", want, cd, err)
			}
			if d := aac.PacketDuration(cd.Config, nil); d != 1024*time.Second/time.Duration(rate) {
				c.Fail("a packet at %d lasts %v", rate, d)
			}
			c.Step(4)
			c.Validated(4)
			c.State(string(want))
			c.Outcome(rate, ch)
			c.Sample(func() string {
				return fmt.Sprintf("type %d rate %d channels %d <-> %x", aot, rate, ch, want)
			})
		}},
		{Name: "byte strings", Rule: fmt.Sprintf("all strings of up to 2 bytes, and of up to %d bytes over boundary values: accepted exactly when a reference reader accepts, with its values", deep(tier, 6, 7)), Run: func(c *mc.Ctx) {
			var b []byte
			if c.Bool() {
				for n := c.Choose(3); n > 0; n-- {
					b = append(b, byte(c.Choose(256)))
				}
			} else {
				alpha := []byte{0, 0x08, 0x10, 0x12, 0x17, 0xf8, 0xff, 0x7f, 0x80}
				for n := 3 + c.Choose(deep(tier, 4, 5)); n > 0; n-- {
					b = append(b, alpha[c.Choose(len(alpha))])
				}
			}
			aot, idx, rate, ch, ok := ascParse(b)
			got, err := aac.ParseMPEG4AudioConfigBytes(b)
			if (err == nil) != ok {
				c.Fail("%x: error %v, legal: %v", b, err, ok)
			}
			if ok && !sameASC(got, aot, idx, rate, ch) {
				c.Fail("%x parsed as %+v, want type %d index %d rate %d channels %d", b, got, aot, idx, rate, ch)
			}
			if _, err := aac.FromMPEG4AudioConfigBytes(b); (err == nil) != ok {
				c.Fail("%x: codec error %v, legal: %v", b, err, ok)
			}
			c.Step(1)
			c.Validated(1)
			c.State(string(b))
			c.Outcome(ok, rate)
		}},
	}
}

func adts(id, protection, profile, idx, ch, length, full, frames uint64) []byte {
	w := &hm.Bits{}
	w.U(0xfff, 12)
	w.U(id, 1)
	w.U(0, 2)
	w.U(protection, 1)
	w.U(profile, 2)
	w.U(idx, 4)
	w.U(0, 1)
	w.U(ch, 3)
	w.U(0, 4)
	w.U(length, 13)
	w.U(full, 11)
	w.U(frames, 2)
	return w.Pad()
}

func c02(tier string) []mc.Exploration {
	lens := []int{0, 1, 2, 7, 8, 9, 120, 121, 248, 249, 250, 505, 1016, 1017, 1018, 2040, 2041, 4088, 4089, 6137, 8183, 8184}
	if tier == "thorough" {
		lens = nil
		for i := 0; i <= 8184; i += 1 {
			lens = append(lens, i)
		}
	}
	return []mc.Exploration{
		{Name: "headers", Rule: fmt.Sprintf("all object types 1-4 (and 5, 17, 29, written as LC) x rate indices x channel configurations x %d payload lengths x 1-4 frames, into buffers with other content", len(lens)), Run: func(c *mc.Ctx) {
			aots := []uint64{1, 2, 3, 4, 5, 17, 29}
			aot := aots[c.Choose(len(aots))]
			idx := uint64(c.Choose(13))
			ch := uint64(1 + c.Choose(7))
			n := lens[c.Choose(len(lens))]
			frames := 1 + c.Choose(4)
			if tier == "thorough" && (aot > 4 || frames == 3) && n%64 > 1 {
				c.Prune()
			}
			prof := aot
			if aot > 4 {
				prof = 2
			}
			conf := aac.MPEG4AudioConfig{ObjectType: uint(aot), SampleRateIndex: uint(idx), ChannelConfig: uint(ch), SampleRate: rates[idx]}
			want := adts(0, 1, prof-1, idx, ch, uint64(n+7), 0, uint64(frames-1))
			for _, fill := range []byte{0, 0xff} {
				buf := bytes.Repeat([]byte{fill}, 9)
				aac.FillADTSHeader(buf, conf, frames*1024, n)
				x := append([]byte(nil), buf[:7]...)
				x[5] &= 0xe0
				x[6] &= 0x03
				if !bytes.Equal(x, want) || buf[7] != fill || buf[8] != fill {
					c.Fail("%+v, %d frames, %d bytes is written as %x, want %x besides the fullness", conf, frames, n, buf, want)
				}
				exact := make([]byte, aac.ADTSHeaderLength)
				aac.FillADTSHeader(exact, conf, frames*1024, n)
				if !bytes.Equal(exact, buf[:7]) {
					c.Fail("header depends on the buffer: %x, %x", exact, buf)
				}
				got, hl, fl, s, err := aac.ParseADTSHeader(buf[:7])
				if err != nil || hl != 7 || fl != n+7 || s != frames*1024 || !sameASC(got, prof, idx, uint64(rates[idx]), ch) {
					c.Fail("%x parsed as %+v header %d frame %d samples %d %v; want type %d rate %d channels %d, %d bytes, %d frames", buf[:7], got, hl, fl, s, err, prof, rates[idx], ch, n, frames)
				}
			}
			c.Step(2)
			c.Validated(2)
			c.State(string(want))
			c.Outcome(n, frames)
			c.Sample(func() string { return fmt.Sprintf("%+v %d bytes %d frames <-> %x", conf, n, frames, want) })
		}},
		{Name: "byte strings", Rule: "header bytes over boundary values, cut to every length and followed by data: accepted exactly when a reference reader accepts, with its values", Run: func(c *mc.Ctx) {
			v1 := []byte{0xf0, 0xf1, 0xf8, 0xf9, 0xf2, 0xf6, 0xff, 0x00, 0xe1, 0x71}
			v3 := []byte{0, 0x40, 0x80, 0xc0, 0xff, 0x01, 0x03, 0x3c}
			v4 := []byte{0, 1, 0x7f, 0xff}
			v5 := []byte{0, 0xe0, 0x1f, 0xff, 0x20}
			b := []byte{[]byte{0xff, 0xfe, 0}[c.Choose(3)], v1[c.Choose(len(v1))], byte(c.Choose(256)), v3[c.Choose(len(v3))], v4[c.Choose(len(v4))], v5[c.Choose(len(v5))], byte(c.Choose(4)) | 0xfc}
			if b[0] != 0xff && (b[3] != 0x40 || b[4] != 1) {
				c.Prune()
			}
			r := &bitsIn{b: b}
			f := func(n int) uint64 { v, _ := r.u(n); return v }
			ok := f(12) == 0xfff
			f(1)
			ok = f(2) == 0 && ok
			hlen := 9 - 2*int(f(1))
			aot, idx := f(2)+1, f(4)
			f(1)
			ch := f(3)
			f(4)
			l := int(f(13))
			f(11)
			frames := int(f(2)) + 1
			ok = ok && idx < 13 && ch > 0 && l >= hlen
			for _, x := range [][]byte{b, append(append([]byte(nil), b...), 1, 2, 3)} {
				got, hl, fl, s, err := aac.ParseADTSHeader(x)
				if (err == nil) != ok {
					c.Fail("%x: error %v, legal: %v", x, err, ok)
				}
				if ok && (hl != hlen || fl != l || s != frames*1024 || !sameASC(got, aot, idx, uint64(rates[idx]), ch)) {
					c.Fail("%x parsed as %+v header %d frame %d samples %d", x, got, hl, fl, s)
				}
			}
			for i := 0; i < 7; i++ {
				if _, _, _, _, err := aac.ParseADTSHeader(b[:i:i]); err == nil {
					c.Fail("header %x cut to %d bytes is accepted", b, i)
				}
			}
			c.Step(1)
			c.Validated(1)
			c.State(string(b))
			c.Outcome(ok, l)
		}},
	}
}
