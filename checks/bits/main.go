package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"time"

	jb "github.com/nareix/joy5/utils/bits"
	"github.com/nareix/joy5/utils/bits/pio"

	"joyverif/mc"
	"joyverif/memio"
)

// ---- reference bit string ----

type bitstr []byte // one byte per bit

func (b *bitstr) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		*b = append(*b, byte(v>>uint(i))&1)
	}
}
func (b *bitstr) pad() {
	for len(*b)%8 != 0 {
		*b = append(*b, 0)
	}
}
func (b bitstr) bytes() []byte {
	out := make([]byte, (len(b)+7)/8)
	for i, x := range b {
		out[i/8] |= x << uint(7-i%8)
	}
	return out
}
func (b bitstr) get(off, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(b[off+i])
	}
	return
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(n) - 1
}

func pattern(k, n int) uint64 {
	switch k {
	case 0:
		return mask(n)
	case 1:
		return 0
	case 2:
		return 0xa5c3_96f0_1e2d_4b87 & mask(n)
	case 3:
		if n == 0 {
			return 0
		}
		return 1 << uint(n-1)
	}
	return 1 & mask(n)
}

var frags = []int{0, 1, 2, 3, 5}

func newFrag(data []byte, k int) *memio.FragReader {
	if k == len(frags) {
		return &memio.FragReader{Data: data, DataErr: true}
	}
	return &memio.FragReader{Data: data, Max: frags[k]}
}

func b01(tier string) []mc.Exploration {
	widths := []int{1, 0, 3, 7, 8, 9, 13, 31, 32, 33, 40, 55, 56, 57, 58, 63, 64}
	n := 4
	npat := 3
	wq := []int{1, 0, 3, 8, 9, 31, 33, 55, 57, 63, 64}
	if tier == "thorough" {
		wq = widths
		npat = 4
	}
	return []mc.Exploration{
		{Name: "write-read-sequences", Rule: fmt.Sprintf("all sequences of 1-%d fields over %d widths x %d value patterns, packed, compared with a reference bit string, read back with the same widths", n, len(wq), npat),
			Run: func(c *mc.Ctx) {
				var ref bitstr
				var buf bytes.Buffer
				w := &jb.Writer{W: &buf}
				k := 1 + c.Choose(n)
				ws := make([]int, k)
				vs := make([]uint64, k)
				for i := range ws {
					ws[i] = wq[c.Choose(len(wq))]
					vs[i] = pattern(c.Choose(npat), ws[i])
					if err := w.WriteBits64(vs[i], ws[i]); err != nil {
						c.Fail("WriteBits64: %v", err)
					}
					ref.put(vs[i], ws[i])
					c.Step(1)
				}
				if err := w.FlushBits(); err != nil {
					c.Fail("FlushBits: %v", err)
				}
				c.Logf("widths %v values %x", ws, vs)
				if !bytes.Equal(buf.Bytes(), ref.bytes()) {
					c.Fail("fields %v %x: wrote %x, want %x", ws, vs, buf.Bytes(), ref.bytes())
				}
				r := &jb.Reader{R: bytes.NewReader(buf.Bytes())}
				for i := range ws {
					got, err := r.ReadBits64(ws[i])
					if err != nil || got != vs[i] {
						c.Fail("fields %v: field %d read %x err %v, want %x", ws, i, got, err, vs[i])
					}
					c.Step(1)
				}
				// past the end: the padding is < 8 bits
				if _, err := r.ReadBits64(8); err == nil {
					c.Fail("fields %v: reading past the end gave no error", ws)
				}
				c.StateHash(hash(buf.Bytes(), ws))
				c.OutcomeHash(hash(buf.Bytes(), ws))
				c.Validated(1)
				c.Sample(func() string { return fmt.Sprintf("widths %v values %x -> %x", ws, vs, buf.Bytes()) })
			}},
		{Name: "resplit-fragmented-reads", Rule: "a fixed 24-byte string read by all sequences of up to 3-4 widths (0-64) through readers of fragment size 1,2,3,5,unlimited and data-with-EOF; every truncation to a byte count is an error exactly when the bits run out",
			Run: func(c *mc.Ctx) {
				data := []byte{0xa5, 0x01, 0xff, 0x80, 0x7e, 0x33, 0xcc, 0x0f, 0xf0, 0x55, 0xaa, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x0d, 0xd0, 0x99, 0x66, 0xe1}
				cut := len(data)
				if c.Bool() {
					cut = c.Choose(len(data))
				}
				var ref bitstr
				for _, x := range data[:cut] {
					ref.put(uint64(x), 8)
				}
				fk := c.Choose(len(frags) + 1)
				r := &jb.Reader{R: newFrag(data[:cut], fk)}
				off := 0
				m := 3
				wd := []int{1, 0, 5, 7, 8, 9, 24, 33, 57, 63, 64}
				if tier == "thorough" {
					wd = widths
				}
				seq := []int{}
				for i := 0; i < m; i++ {
					n := wd[c.Choose(len(wd))]
					seq = append(seq, n)
					got, err := r.ReadBits64(n)
					c.Step(1)
					if off+n > len(ref) {
						if err == nil {
							c.Fail("cut %d widths %v frag %d: read past the end gave %x without error", cut, seq, fk, got)
						}
						c.Outcome("err", cut, seq)
						return
					}
					if err != nil {
						c.Fail("cut %d widths %v frag kind %d: error %v although %d bits are left", cut, seq, fk, err, len(ref)-off)
					}
					if want := ref.get(off, n); got != want {
						c.Fail("cut %d widths %v frag %d: got %x want %x", cut, seq, fk, got, want)
					}
					off += n
				}
				c.State(off, cut)
				c.Outcome(cut, seq)
				c.Validated(1)
				c.Sample(func() string { return fmt.Sprintf("cut %d widths %v fragment kind %d", cut, seq, fk) })
			}},
		{Name: "mixed-operations", Rule: "all sequences of 1-4 operations over {bits n=1,5,12,64, bytes of length 0,1,3,9, flush} on a writer, then read back as one bit string and through Reader.Read with every fragment kind; one failing Write call at every position must be reported",
			Run: func(c *mc.Ctx) {
				nops := 4
				if tier == "thorough" {
					nops = 5
				}
				fw := &memio.FailWriter{}
				fw.FailAt = c.Choose(4)
				w := &jb.Writer{W: fw}
				var ref bitstr
				k := 1 + c.Choose(nops)
				var desc []string
				reported := false
				for i := 0; i < k; i++ {
					op := c.Choose(9)
					var err error
					switch {
					case op < 4:
						n := []int{5, 1, 12, 64}[op]
						v := pattern(2, n)
						if i%2 == 1 {
							v = mask(n)
						}
						err = w.WriteBits64(v, n)
						ref.put(v, n)
						desc = append(desc, fmt.Sprint("bits", n))
					case op < 8:
						n := []int{1, 0, 3, 9}[op-4]
						p := make([]byte, n)
						for j := range p {
							p[j] = byte(0x91 + 37*j + i)
							ref.put(uint64(p[j]), 8)
						}
						var m int
						m, err = w.Write(p)
						if err == nil && m != n {
							c.Fail("Write returned %d of %d without error", m, n)
						}
						desc = append(desc, fmt.Sprint("bytes", n))
					default:
						err = w.FlushBits()
						ref.pad()
						desc = append(desc, "flush")
					}
					c.Step(1)
					if err != nil {
						reported = true
						break
					}
				}
				if !reported {
					if err := w.FlushBits(); err != nil {
						reported = true
					}
					ref.pad()
				}
				if fw.Failed != reported {
					c.Fail("ops %v: write failure injected=%v reported=%v", desc, fw.Failed, reported)
				}
				if reported {
					c.Outcome("fail", desc)
					return
				}
				if !bytes.Equal(fw.Buf, ref.bytes()) {
					c.Fail("ops %v: wrote %x want %x", desc, fw.Buf, ref.bytes())
				}
				fk := c.Choose(len(frags) + 1)
				r := &jb.Reader{R: newFrag(fw.Buf, fk)}
				lead := []int{0, 3}[c.Choose(2)]
				if lead > len(ref) {
					lead = 0
				}
				if lead > 0 {
					if _, err := r.ReadBits64(lead); err != nil {
						c.Fail("lead read: %v", err)
					}
				}
				n := (len(ref) - lead) / 8
				p := make([]byte, n)
				m, err := r.Read(p)
				if n > 0 && (err != nil || m != n) {
					c.Fail("ops %v frag %d lead %d: Read %d of %d err %v", desc, fk, lead, m, n, err)
				}
				for i := range p {
					if uint64(p[i]) != ref.get(lead+8*i, 8) {
						c.Fail("ops %v: byte %d differs", desc, i)
					}
				}
				c.StateHash(hash(fw.Buf, []int{k}))
				c.OutcomeHash(hash(fw.Buf, []int{k}))
				c.Validated(1)
				c.Sample(func() string { return fmt.Sprintf("%v -> %x", desc, fw.Buf) })
			}},
	}
}

func hash(b []byte, extra []int) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	for _, x := range extra {
		h = (h ^ uint64(x+1000)) * 1099511628211
	}
	return h
}

func putUE(b *bitstr, v uint64) {
	x := v + 1
	n := bits.Len64(x)
	b.put(0, n-1)
	b.put(x, n)
}

func b02(tier string) []mc.Exploration {
	ues := []uint64{0, 1, 2, 3, 6, 7, 30, 31, 254, 255, 256, 65534, 65535, 1<<31 - 2, 1<<31 - 1, 1<<32 - 2}
	ses := []int64{0, 1, -1, 2, -2, 3, -3, 127, -128, 128, 1 << 15, -(1 << 15), 1<<30 + 1, -(1 << 30), 1<<31 - 1, -(1<<31 - 1)}
	fws := []int{1, 0, 2, 3, 8, 15, 16, 31, 32, 33, 63, 64}
	n := 3
	return []mc.Exploration{{Name: "field-sequences", Rule: "all sequences of 1-3 fields over {bit, fixed width x pattern, ue boundary values, se boundary values}, read in order, with every truncation point and fragment kind",
		Run: func(c *mc.Ctx) {
			k := 1 + c.Choose(n)
			type f struct {
				kind, w int
				u       uint64
				s       int64
				end     int
			}
			var fs []f
			var ref bitstr
			// a non-aligned start
			for i := 0; i < k; i++ {
				x := f{kind: c.Choose(4)}
				switch x.kind {
				case 0:
					x.u = ues[c.Choose(len(ues))]
					putUE(&ref, x.u)
				case 1:
					x.s = ses[c.Choose(len(ses))]
					if x.s > 0 {
						putUE(&ref, uint64(2*x.s-1))
					} else {
						putUE(&ref, uint64(-2*x.s))
					}
				case 2:
					x.w = fws[c.Choose(len(fws))]
					x.u = pattern([]int{2, 0}[c.Choose(2)], x.w)
					ref.put(x.u, x.w)
				case 3:
					x.u = uint64(c.Choose(2))
					ref.put(x.u, 1)
				}
				x.end = len(ref)
				fs = append(fs, x)
			}
			data := ref.bytes()
			// each truncation length and fragment kind is checked inside one execution
			for cut := len(data); cut >= 0; cut-- {
				if cut < len(data) && tier != "thorough" && k == 3 && cut != len(data)-1 && cut != len(data)/2 {
					continue
				}
				for dk := 0; dk < 2; dk++ {
					r := &jb.GolombBitReader{R: &memio.FragReader{Data: data[:cut], DataErr: dk == 1}}
					for i, x := range fs {
						c.Step(1)
						var got uint
						var err error
						want := x.u
						switch x.kind {
						case 0:
							got, err = r.ReadExponentialGolombCode()
						case 1:
							got, err = r.ReadSE()
							want = uint64(x.s)
						case 2:
							got, err = r.ReadBits(x.w)
						case 3:
							got, err = r.ReadBit()
						}
						if x.end > cut*8 {
							if err == nil {
								c.Fail("fields %+v cut to %d bytes: field %d read %d without error", fs, cut, i, got)
							}
							break
						}
						if err != nil {
							c.Fail("fields %+v cut %d (data-with-EOF %v): field %d error %v", fs, cut, dk == 1, i, err)
						}
						if uint64(got) != want {
							c.Fail("fields %+v: field %d = %d (%d), want %d", fs, i, got, int64(got), int64(want))
						}
					}
					c.Validated(1)
				}
			}
			c.StateHash(hash(data, []int{k}))
			c.OutcomeHash(hash(data, []int{k}))
			c.Sample(func() string { return fmt.Sprintf("%+v -> %x", fs, data) })
		}}}
}

func b03(tier string) []mc.Exploration {
	vals := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x0102030405060708, 0x7fff, 0x8000, 0xffff, 0x7fffff, 0x800000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff,
		0x7fffffffff, 0x8000000000, 0xffffffffff, 0x7fffffffffff, 0x800000000000, 0xffffffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xf1e2d3c4b5a69788}
	be := func(v uint64, n int) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], v)
		return append([]byte(nil), b[8-n:]...)
	}
	sx := func(v uint64, n int) int64 { return int64(v<<uint(64-8*n)) >> uint(64-8*n) }
	type codec struct {
		name string
		n    int
		put  func(b []byte, v uint64)
		get  func(b []byte) (uint64, int64) // unsigned and signed views; one of them used
		sgn  bool
		le   bool
	}
	cs := []codec{
		{"U8", 1, func(b []byte, v uint64) { pio.PutU8(b, uint8(v)) }, func(b []byte) (uint64, int64) { return uint64(pio.U8(b)), 0 }, false, false},
		{"I16BE", 2, func(b []byte, v uint64) { pio.PutI16BE(b, int16(v)) }, func(b []byte) (uint64, int64) { return 0, int64(pio.I16BE(b)) }, true, false},
		{"U16BE", 2, func(b []byte, v uint64) { pio.PutU16BE(b, uint16(v)) }, func(b []byte) (uint64, int64) { return uint64(pio.U16BE(b)), 0 }, false, false},
		{"I24BE", 3, func(b []byte, v uint64) { pio.PutI24BE(b, int32(v<<40>>40)) }, func(b []byte) (uint64, int64) { return 0, int64(pio.I24BE(b)) }, true, false},
		{"U24BE", 3, func(b []byte, v uint64) { pio.PutU24BE(b, uint32(v)&0xffffff) }, func(b []byte) (uint64, int64) { return uint64(pio.U24BE(b)), 0 }, false, false},
		{"I32BE", 4, func(b []byte, v uint64) { pio.PutI32BE(b, int32(v)) }, func(b []byte) (uint64, int64) { return 0, int64(pio.I32BE(b)) }, true, false},
		{"U32BE", 4, func(b []byte, v uint64) { pio.PutU32BE(b, uint32(v)) }, func(b []byte) (uint64, int64) { return uint64(pio.U32BE(b)), 0 }, false, false},
		{"U32LE", 4, func(b []byte, v uint64) { pio.PutU32LE(b, uint32(v)) }, func(b []byte) (uint64, int64) { return uint64(pio.U32LE(b)), 0 }, false, true},
		{"U40BE", 5, func(b []byte, v uint64) { pio.PutU40BE(b, v&0xffffffffff) }, func(b []byte) (uint64, int64) { return uint64(pio.U40BE(b)), 0 }, false, false},
		{"U48BE", 6, func(b []byte, v uint64) { pio.PutU48BE(b, v&0xffffffffffff) }, func(b []byte) (uint64, int64) { return uint64(pio.U48BE(b)), 0 }, false, false},
		{"U64BE", 8, func(b []byte, v uint64) { pio.PutU64BE(b, v) }, func(b []byte) (uint64, int64) { return uint64(pio.U64BE(b)), 0 }, false, false},
		{"I64BE", 8, func(b []byte, v uint64) { pio.PutI64BE(b, int64(v)) }, func(b []byte) (uint64, int64) { return 0, int64(pio.I64BE(b)) }, true, false},
	}
	type cur struct {
		name string
		n    int
		w    func(b []byte, n *int, v uint64)
		r    func(b []byte, n *int) (uint64, int64, error)
		sgn  bool
		le   bool
	}
	u := func(v uint64, err error) (uint64, int64, error) { return v, 0, err }
	i := func(v int64, err error) (uint64, int64, error) { return 0, v, err }
	cus := []cur{
		{"U8", 1, func(b []byte, n *int, v uint64) { pio.WriteU8(b, n, uint8(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadU8(b, n); return u(uint64(v), e) }, false, false},
		{"U16BE", 2, func(b []byte, n *int, v uint64) { pio.WriteU16BE(b, n, uint16(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadU16BE(b, n); return u(uint64(v), e) }, false, false},
		{"U24BE", 3, func(b []byte, n *int, v uint64) { pio.WriteU24BE(b, n, uint32(v)&0xffffff) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadU24BE(b, n); return u(uint64(v), e) }, false, false},
		{"I24BE", 3, func(b []byte, n *int, v uint64) { pio.WriteI24BE(b, n, int32(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadI24BE(b, n); return i(int64(v), e) }, true, false},
		{"U32BE", 4, func(b []byte, n *int, v uint64) { pio.WriteU32BE(b, n, uint32(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadU32BE(b, n); return u(uint64(v), e) }, false, false},
		{"I32BE", 4, func(b []byte, n *int, v uint64) { pio.WriteI32BE(b, n, int32(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadI32BE(b, n); return i(int64(v), e) }, true, false},
		{"U32LE", 4, func(b []byte, n *int, v uint64) { pio.WriteU32LE(b, n, uint32(v)) }, nil, false, true},
		{"U64BE", 8, func(b []byte, n *int, v uint64) { pio.WriteU64BE(b, n, v) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadU64BE(b, n); return u(uint64(v), e) }, false, false},
		{"I64BE", 8, func(b []byte, n *int, v uint64) { pio.WriteI64BE(b, n, int64(v)) }, func(b []byte, n *int) (uint64, int64, error) { v, e := pio.ReadI64BE(b, n); return i(int64(v), e) }, true, false},
	}
	rev := func(b []byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[len(b)-1-i] = b[i]
		}
		return o
	}
	maxSlices, maxLen := 4, 4
	if tier == "thorough" {
		maxSlices, maxLen = 5, 4
	}
	return []mc.Exploration{
		{Name: "fixed-integers", Rule: "every integer codec x boundary values: exact bytes against encoding/binary, neighbours untouched, value read back", Run: func(c *mc.Ctx) {
			k := cs[c.Choose(len(cs))]
			v := vals[c.Choose(len(vals))]
			buf := bytes.Repeat([]byte{0x5a}, k.n+2)
			k.put(buf[1:], v)
			want := be(v, k.n)
			if k.le {
				want = rev(want)
			}
			if !bytes.Equal(buf[1:1+k.n], want) || buf[0] != 0x5a || buf[k.n+1] != 0x5a {
				c.Fail("Put%s(%x) wrote %x want %x", k.name, v, buf, want)
			}
			gu, gs := k.get(buf[1:])
			wu := v & mask(8*k.n)
			if k.sgn && gs != sx(v, k.n) || !k.sgn && gu != wu {
				c.Fail("%s of %x reads %x/%d want %x/%d", k.name, want, gu, gs, wu, sx(v, k.n))
			}
			c.Step(2)
			c.State(k.name, v&mask(8*k.n))
			c.Outcome(k.name, want)
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("%s %x -> %x", k.name, v, want) })
		}},
		{Name: "cursor-integers", Rule: "every cursor codec x boundary values x offset 0-2 x slack 0-2 and every short buffer: cursor advances by exactly the width; too little data is an error that leaves the cursor alone; sizing pass with a nil buffer gives the same length", Run: func(c *mc.Ctx) {
			k := cus[c.Choose(len(cus))]
			v := vals[c.Choose(len(vals))]
			off := c.Choose(3)
			slack := c.Choose(3)
			want := be(v, k.n)
			if k.le {
				want = rev(want)
			}
			buf := bytes.Repeat([]byte{0x5a}, off+k.n+slack)
			n := off
			k.w(buf, &n, v)
			m := off
			k.w(nil, &m, v)
			exp := append(append(bytes.Repeat([]byte{0x5a}, off), want...), bytes.Repeat([]byte{0x5a}, slack)...)
			if n != off+k.n || m != n || !bytes.Equal(buf, exp) {
				c.Fail("Write%s(%x) at %d: cursor %d (sizing %d) bytes %x want %x", k.name, v, off, n, m, buf, exp)
			}
			c.Step(2)
			if k.r != nil {
				n = off
				gu, gs, err := k.r(buf, &n)
				if err != nil || n != off+k.n || k.sgn && gs != sx(v, k.n) || !k.sgn && gu != v&mask(8*k.n) {
					c.Fail("Read%s: %x/%d cursor %d err %v", k.name, gu, gs, n, err)
				}
				for short := 0; short < k.n; short++ {
					n = off
					if _, _, err := k.r(buf[:off+short], &n); err == nil || n != off {
						c.Fail("Read%s with %d bytes at %d: cursor %d err %v", k.name, short, off, n, err)
					}
					c.Step(1)
				}
			}
			c.State(k.name, v, off)
			c.Outcome(k.name, want, off, slack)
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("%s %x at %d", k.name, v, off) })
		}},
		{Name: "bytes-and-strings", Rule: "ReadBytes/ReadString/WriteBytes/WriteString for all lengths 0-4, offsets 0-2, slack 0-2, requested lengths 0-6", Run: func(c *mc.Ctx) {
			l, off, slack, req := c.Choose(5), c.Choose(3), c.Choose(3), c.Choose(7)
			src := []byte("wxyz")[:l]
			buf := bytes.Repeat([]byte{0x5a}, off+l+slack)
			n, m := off, off
			if c.Bool() {
				pio.WriteString(buf, &n, string(src))
				pio.WriteString(nil, &m, string(src))
			} else {
				pio.WriteBytes(buf, &n, src)
				pio.WriteBytes(nil, &m, src)
			}
			exp := append(append(bytes.Repeat([]byte{0x5a}, off), src...), bytes.Repeat([]byte{0x5a}, slack)...)
			if n != off+l || m != n || !bytes.Equal(exp, buf) {
				c.Fail("write %q at %d: cursor %d %d buf %x", src, off, n, m, buf)
			}
			n = off
			b, err := pio.ReadBytes(buf, &n, req)
			m = off
			s, err2 := pio.ReadString(buf, &m, req)
			if off+req > len(buf) {
				if err == nil || err2 == nil || n != off || m != off {
					c.Fail("read %d at %d of %d: err %v %v cursor %d %d", req, off, len(buf), err, err2, n, m)
				}
			} else if err != nil || err2 != nil || n != off+req || m != n || !bytes.Equal(b, buf[off:off+req]) || s != string(b) {
				c.Fail("read %d at %d of %x: %x %q err %v %v cursor %d %d", req, off, buf, b, s, err, err2, n, m)
			}
			c.Step(4)
			c.State(l, off, slack, req)
			c.Outcome(l, off, slack, req, string(b))
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprintf("len %d off %d slack %d req %d", l, off, slack, req) })
		}},
		{Name: "time64", Rule: "the zero time and boundary times as signed nanoseconds since 1970 round-trip exactly", Run: func(c *mc.Ctx) {
			ns := []int64{0, 1, -1, 999999999, 1000000000, -1000000000, -1500000001, 1 << 31, 1 << 40, 1<<62 + 12345, -(1 << 62)}
			k := c.Choose(len(ns))
			buf := bytes.Repeat([]byte{0x5a}, 10)
			var t time.Time
			if k > 0 {
				t = time.Unix(0, ns[k])
			}
			pio.PutTime64(buf[1:], t)
			if !bytes.Equal(buf[1:9], be(uint64(ns[k]), 8)) || buf[9] != 0x5a || buf[0] != 0x5a {
				c.Fail("PutTime64(%d) = %x", ns[k], buf)
			}
			if g := pio.Time64(buf[1:]); !g.Equal(t) || g.IsZero() != t.IsZero() {
				c.Fail("Time64(%d) = %v", ns[k], g)
			}
			c.Step(2)
			c.State(k)
			c.Outcome(k)
			c.Validated(1)
			c.Sample(func() string { return fmt.Sprint(ns[k]) })
		}},
		{Name: "vector-slices", Rule: fmt.Sprintf("all vectors of 0-%d slices of sizes 0-%d, all ranges [s,e) and open ranges: output concatenation equals the range; ranges beyond the data never succeed silently", maxSlices, maxLen), Run: func(c *mc.Ctx) {
			k := c.Choose(maxSlices + 1)
			var in [][]byte
			var flat []byte
			for j := 0; j < k; j++ {
				l := c.Choose(maxLen + 1)
				b := make([]byte, l)
				for x := range b {
					b[x] = byte(len(flat) + x + 1)
				}
				flat = append(flat, b...)
				in = append(in, b)
			}
			if got := pio.VecLen(in); got != len(flat) {
				c.Fail("VecLen of %v = %d want %d", in, got, len(flat))
			}
			for s := 0; s <= len(flat)+1; s++ {
				for e := -1; e <= len(flat)+1; e++ {
					out := make([][]byte, k+1)
					var n int
					panicked := false
					func() {
						defer func() {
							if recover() != nil {
								panicked = true
							}
						}()
						n = pio.VecSliceTo(in, out, s, e)
					}()
					c.Step(1)
					valid := s <= len(flat) && (e == -1 || e >= s && e <= len(flat))
					if !valid {
						if !panicked {
							c.Fail("vector %v range [%d,%d): no panic, returned %v", in, s, e, out[:n])
						}
						continue
					}
					if panicked {
						c.Fail("vector %v range [%d,%d): panic", in, s, e)
					}
					want := flat[s:]
					if e >= 0 {
						want = flat[s:e]
					}
					var got []byte
					for _, b := range out[:n] {
						got = append(got, b...)
					}
					if !bytes.Equal(got, want) {
						c.Fail("vector %v range [%d,%d): %v want %v", in, s, e, got, want)
					}
					c.Validated(1)
				}
			}
			sz := []int{}
			for _, b := range in {
				sz = append(sz, len(b))
			}
			c.State(sz)
			c.Outcome(sz)
			c.Sample(func() string { return fmt.Sprint("slice sizes ", sz) })
		}},
	}
}

var _ = io.EOF

func main() {
	mc.Main([]mc.Property{
		{ID: "B01", Level: "model_checking", Build: b01, Assumptions: []string{"field values fit their width (the documented precondition)"}},
		{ID: "B02", Level: "model_checking", Build: b02},
		{ID: "B03", Level: "model_checking", Build: b03},
	})
}
