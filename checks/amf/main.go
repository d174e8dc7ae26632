package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"

	"joyverif/mc"
)

// ---- independent AMF0 encoder over an abstract value ----

// node is an abstract AMF value; the encoders below are written from the
// specifications and share nothing with the code under test.
type node struct {
	kind  string // num, bool, str, null, undef, obj, ecma, arr, date, int, bytes, xml, xmldoc, nan
	num   float64
	i     int
	b     bool
	s     string
	keys  []string
	kids  []*node
	dense []*node
	sealN int
	dyn   bool
	form  int // encoding form variant
}

func u16(n int) []byte { var b [2]byte; binary.BigEndian.PutUint16(b[:], uint16(n)); return b[:] }
func u32(n int) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], uint32(n)); return b[:] }
func f64(f float64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], math.Float64bits(f))
	return b[:]
}

func enc0(v *node) []byte {
	var o []byte
	switch v.kind {
	case "num":
		return append([]byte{0}, f64(v.num)...)
	case "bool":
		if v.b {
			return []byte{1, byte(1 + v.form*254)}
		}
		return []byte{1, 0}
	case "str":
		if len(v.s) > 65535 || v.form == 1 {
			return append(append([]byte{12}, u32(len(v.s))...), v.s...)
		}
		return append(append([]byte{2}, u16(len(v.s))...), v.s...)
	case "null":
		return []byte{5}
	case "undef":
		return []byte{6}
	case "obj", "ecma":
		if v.kind == "obj" {
			o = []byte{3}
		} else {
			cnt := len(v.keys)
			if v.form == 1 {
				cnt = 0
			} else if v.form == 2 {
				cnt = 77
			} else if v.form >= 10 {
				cnt = v.form - 10
			}
			o = append([]byte{8}, u32(cnt)...)
		}
		for i, k := range v.keys {
			o = append(o, u16(len(k))...)
			o = append(o, k...)
			o = append(o, enc0(v.kids[i])...)
		}
		return append(o, 0, 0, 9)
	case "arr":
		o = append([]byte{10}, u32(len(v.kids))...)
		for _, k := range v.kids {
			o = append(o, enc0(k)...)
		}
		return o
	case "date":
		tz := 0
		if v.form == 1 {
			tz = 0xffc4
		}
		return append(append([]byte{11}, f64(v.num)...), u16(tz)...)
	}
	panic("enc0 " + v.kind)
}

func u29(n int) []byte {
	switch {
	case n < 1<<7:
		return []byte{byte(n)}
	case n < 1<<14:
		return []byte{byte(n>>7) | 0x80, byte(n & 0x7f)}
	case n < 1<<21:
		return []byte{byte(n>>14) | 0x80, byte(n>>7) | 0x80, byte(n & 0x7f)}
	}
	return []byte{byte(n>>22) | 0x80, byte(n>>15) | 0x80, byte(n>>8) | 0x80, byte(n)}
}

func utf3(s string) []byte { return append(u29(len(s)<<1|1), s...) }

func enc3(v *node) []byte {
	var o []byte
	switch v.kind {
	case "undef":
		return []byte{0}
	case "null":
		return []byte{1}
	case "bool":
		if v.b {
			return []byte{3}
		}
		return []byte{2}
	case "int":
		return append([]byte{4}, u29(v.i)...)
	case "num":
		return append([]byte{5}, f64(v.num)...)
	case "str":
		return append([]byte{6}, utf3(v.s)...)
	case "xmldoc":
		return append([]byte{7}, utf3(v.s)...)
	case "date":
		return append([]byte{8, 1}, f64(v.num)...)
	case "arr": // associative keys, then dense part
		o = append([]byte{9}, u29(len(v.dense)<<1|1)...)
		for i, k := range v.keys {
			o = append(o, utf3(k)...)
			o = append(o, enc3(v.kids[i])...)
		}
		o = append(o, 1)
		for _, d := range v.dense {
			o = append(o, enc3(d)...)
		}
		return o
	case "obj":
		flags := 3 // inline object, inline traits
		if v.dyn {
			flags |= 8
		}
		o = append([]byte{10}, u29(v.sealN<<4|flags)...)
		o = append(o, utf3(v.s)...)
		for i := 0; i < v.sealN; i++ {
			o = append(o, utf3(v.keys[i])...)
		}
		for i := 0; i < v.sealN; i++ {
			o = append(o, enc3(v.kids[i])...)
		}
		if v.dyn {
			for i := v.sealN; i < len(v.keys); i++ {
				o = append(o, utf3(v.keys[i])...)
				o = append(o, enc3(v.kids[i])...)
			}
			o = append(o, 1)
		}
		return o
	case "xml":
		return append([]byte{11}, utf3(v.s)...)
	case "bytes":
		return append([]byte{12}, utf3(v.s)...)
	}
	panic("enc3 " + v.kind)
}

// want is the Go value the library documents for an abstract value.
func (v *node) want(amf3 bool) interface{} {
	switch v.kind {
	case "num":
		return v.num
	case "int":
		return v.i
	case "bool":
		return v.b
	case "str", "xml", "xmldoc":
		return v.s
	case "bytes":
		return []byte(v.s)
	case "null", "undef":
		return nil
	case "date":
		return time.Unix(0, 0).Add(time.Duration(v.num) * time.Millisecond)
	case "arr":
		if !amf3 {
			a := flvio.AMFArray{}
			for _, k := range v.kids {
				a = append(a, k.want(amf3))
			}
			return a
		}
		m := flvio.AMFMap{}
		for i, k := range v.keys {
			m = setkv(m, k, v.kids[i].want(amf3))
		}
		for i, d := range v.dense {
			m = setkv(m, strconv.Itoa(i), d.want(amf3))
		}
		return m
	case "obj", "ecma":
		m := flvio.AMFMap{}
		for i, k := range v.keys {
			m = setkv(m, k, v.kids[i].want(amf3))
		}
		return m
	}
	panic(v.kind)
}

func setkv(m flvio.AMFMap, k string, v interface{}) flvio.AMFMap {
	for i := range m {
		if m[i].K == k {
			m[i].V = v
			return m
		}
	}
	return append(m, flvio.AMFKv{K: k, V: v})
}

// same compares values structurally (numbers by bits, times by instant).
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y))
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case flvio.AMFArray:
		y, ok := b.(flvio.AMFArray)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case flvio.AMFMap:
		y, ok := b.(flvio.AMFMap)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].K != y[i].K || !same(x[i].V, y[i].V) {
				return false
			}
		}
		return true
	default:
		return a == b
	}
}

func short(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func hex(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// goval picks a Go value to encode together with the abstract value it denotes.
func goval(c *mc.Ctx, depth int, full bool) (interface{}, *node) {
	num := func(f float64) *node { return &node{kind: "num", num: f} }
	leafs := 10
	if full {
		leafs = 36
	}
	kinds := leafs
	if depth > 0 {
		kinds += 3
	}
	k := c.Choose(kinds)
	if k >= leafs {
		k += 100 - leafs
	}
	str := func(n int) (interface{}, *node) {
		s := strings.Repeat("k", n)
		return s, &node{kind: "str", s: s}
	}
	switch k {
	case 0:
		return 7, num(7)
	case 1:
		return true, &node{kind: "bool", b: true}
	case 2:
		return str(0)
	case 3:
		return str(3)
	case 4:
		return nil, &node{kind: "null"}
	case 5:
		return time.Unix(1700000000, 123e6), &node{kind: "date", num: 1700000000123}
	case 6:
		return -1.5, num(-1.5)
	case 7:
		return false, &node{kind: "bool"}
	case 8:
		return str(65536)
	case 9:
		return str(256)
	case 10:
		return int8(-128), num(-128)
	case 11:
		return int16(-32768), num(-32768)
	case 12:
		return int32(-1 << 31), num(-1 << 31)
	case 13:
		return int64(-1 << 53), num(-1 << 53)
	case 14:
		return uint8(255), num(255)
	case 15:
		return uint16(65535), num(65535)
	case 16:
		return uint32(1<<32 - 1), num(1<<32 - 1)
	case 17:
		return uint64(1 << 53), num(1 << 53)
	case 18:
		return uint(1 << 40), num(1 << 40)
	case 19:
		return float32(0.25), num(0.25)
	case 20:
		return math.Inf(1), num(math.Inf(1))
	case 21:
		return math.Copysign(0, -1), num(math.Copysign(0, -1))
	case 22:
		return 1e308, num(1e308)
	case 23:
		return str(1)
	case 24:
		return str(255)
	case 25:
		return str(65535)
	case 26:
		return str(65537)
	case 27:
		return str(70000)
	case 28:
		return time.Unix(0, 0), &node{kind: "date", num: 0}
	case 29:
		return time.Unix(-5, 123e6), &node{kind: "date", num: -4877}
	case 30:
		return time.Unix(1<<32, 999e6), &node{kind: "date", num: float64(int64(1<<32)*1000 + 999)}
	case 31:
		return math.Float64frombits(0x7ff8000000000001), num(math.Float64frombits(0x7ff8000000000001))
	case 32:
		return int(-1), num(-1)
	case 33:
		return "\x00\xff\xc3", &node{kind: "str", s: "\x00\xff\xc3"}
	case 34:
		return math.SmallestNonzeroFloat64, num(math.SmallestNonzeroFloat64)
	case 35:
		return int64(1<<62 + 1), num(float64(int64(1<<62 + 1)))
	}
	keys := []string{"a", "bb", strings.Repeat("K", 300), "a"}
	n := c.Choose(3)
	nd := &node{}
	switch k {
	case 100: // object
		m := flvio.AMFMap{}
		nd.kind = "obj"
		for i := 0; i < n; i++ {
			key := keys[c.Choose(3)]
			v, x := goval(c, depth-1, false)
			m = append(m, flvio.AMFKv{K: key, V: v})
			nd.keys = append(nd.keys, key)
			nd.kids = append(nd.kids, x)
		}
		return m, nd
	case 101:
		m := flvio.AMFECMAArray{}
		nd.kind = "ecma"
		for i := 0; i < n; i++ {
			key := keys[c.Choose(3)]
			v, x := goval(c, depth-1, false)
			m = append(m, flvio.AMFKv{K: key, V: v})
			nd.keys = append(nd.keys, key)
			nd.kids = append(nd.kids, x)
		}
		return m, nd
	default:
		a := flvio.AMFArray{}
		nd.kind = "arr"
		for i := 0; i < n; i++ {
			v, x := goval(c, depth-1, false)
			a = append(a, v)
			nd.kids = append(nd.kids, x)
		}
		return a, nd
	}
}

func checkEnc0(c *mc.Ctx, v interface{}, nd *node) {
	want := enc0(nd)
	n := 0
	flvio.FillAMF0Val(nil, &n, v)
	if n != len(want) {
		c.Fail("value %s: predicted length %d, encoding is %d bytes", short(v), n, len(want))
	}
	const lead = 3
	buf := bytes.Repeat([]byte{0xee}, lead+len(want)+5)
	m := lead
	flvio.FillAMF0Val(buf, &m, v)
	if m != lead+len(want) || !bytes.Equal(buf[lead:m], want) {
		c.Fail("value %s: encoded %s (cursor %d), want %s", short(v), hex(buf[lead:]), m, hex(want))
	}
	for i, x := range buf {
		if (i < lead || i >= m) && x != 0xee {
			c.Fail("value %s: byte %d outside the encoding was overwritten", short(v), i)
		}
	}
	if b := flvio.FillAMF0ValMalloc(v); !bytes.Equal(b, want) {
		c.Fail("value %s: FillAMF0ValMalloc %s want %s", short(v), hex(b), hex(want))
	}
	p := lead
	got, err := flvio.ParseAMF0Val(buf, &p)
	if err != nil || p != m || !same(got, nd.want(false)) {
		c.Fail("value %s encoded as %s parses to %s (cursor %d of %d, err %v), want %s", short(v), hex(want), short(got), p, m, err, short(nd.want(false)))
	}
	c.Step(4)
	c.StateHash(hash(want))
	c.OutcomeHash(hash(want))
	c.Validated(1)
	c.Sample(func() string { return short(v) + " -> " + hex(want) })
}

func a01(tier string) []mc.Exploration {
	depth := 2
	return []mc.Exploration{
		{Name: "values", Rule: "all single values: 36 leaves, and containers of width 0-2 nested to depth " + fmt.Sprint(depth) + " over 10 leaves; exact bytes against an independent encoder, predicted length, guard bytes, decode",
			Run: func(c *mc.Ctx) {
				d := depth
				if tier != "thorough" && c.Bool() {
					// quick: width-2 containers of containers are explored one side at a time
					v, nd := nest(c)
					checkEnc0(c, v, nd)
					return
				} else if tier != "thorough" {
					d = 1
				}
				v, nd := goval(c, d, true)
				checkEnc0(c, v, nd)
			}},
		{Name: "wide-values", Rule: "objects, associative arrays and strict arrays of 0-9, 255-257 and 65535-65537 members; strings of 0-300 and 2^k-1..2^k+1 bytes to 2^20; every number +-2^k, +-(2^k+-1) in every Go integer kind that holds it; keys of 1-300 and 65534-65535 bytes; dates every 2^k ms before and after the epoch",
			Run: func(c *mc.Ctx) {
				num := func(f float64) *node { return &node{kind: "num", num: f} }
				switch c.Choose(5) {
				case 0:
					ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 257, 65535, 65536, 65537}
					n := ns[c.Choose(len(ns))]
					nd := &node{kind: []string{"obj", "ecma", "arr"}[c.Choose(3)]}
					var m flvio.AMFMap
					a := flvio.AMFArray{}
					for i := 0; i < n; i++ {
						k := strconv.Itoa(i)
						nd.kids = append(nd.kids, num(float64(i)))
						if nd.kind == "arr" {
							a = append(a, i)
						} else {
							m = append(m, flvio.AMFKv{K: k, V: i})
							nd.keys = append(nd.keys, k)
						}
					}
					if nd.kind != "arr" && n > 300 {
						c.Prune() // building and reading huge maps is quadratic
					}
					switch nd.kind {
					case "obj":
						checkEnc0(c, m, nd)
					case "ecma":
						checkEnc0(c, flvio.AMFECMAArray(m), nd)
					default:
						checkEnc0(c, a, nd)
					}
				case 1:
					n := c.Choose(364)
					if n > 300 {
						n -= 301
						n = 1<<uint(n/3) + n%3 - 1
					}
					s := strings.Repeat("z", n)
					checkEnc0(c, s, &node{kind: "str", s: s})
				case 2:
					k, d, neg, kind := c.Choose(64), c.Choose(3)-1, c.Bool(), c.Choose(12)
					u := uint64(1)<<uint(k) + uint64(d)
					i := int64(u)
					if neg {
						i = -i
					}
					fits := func(lo, hi int64) bool { return (k < 63 || k == 63 && d < 0) && i >= lo && i <= hi }
					ufits := func(bits uint) bool { return !neg && (bits == 64 || u>>bits == 0) }
					var v interface{}
					var w float64
					switch kind {
					case 0:
						if !fits(-128, 127) {
							c.Prune()
						}
						v, w = int8(i), float64(i)
					case 1:
						if !fits(-1<<15, 1<<15-1) {
							c.Prune()
						}
						v, w = int16(i), float64(i)
					case 2:
						if !fits(-1<<31, 1<<31-1) {
							c.Prune()
						}
						v, w = int32(i), float64(i)
					case 3:
						if !fits(-1<<63, 1<<63-1) {
							c.Prune()
						}
						v, w = i, float64(i)
					case 4:
						if !fits(-1<<63, 1<<63-1) {
							c.Prune()
						}
						v, w = int(i), float64(i)
					case 5:
						if !ufits(8) {
							c.Prune()
						}
						v, w = uint8(u), float64(u)
					case 6:
						if !ufits(16) {
							c.Prune()
						}
						v, w = uint16(u), float64(u)
					case 7:
						if !ufits(32) {
							c.Prune()
						}
						v, w = uint32(u), float64(u)
					case 8:
						if !ufits(64) {
							c.Prune()
						}
						v, w = u, float64(u)
					case 9:
						if !ufits(64) {
							c.Prune()
						}
						v, w = uint(u), float64(u)
					case 10:
						f := float32(i)
						v, w = f, float64(f)
					case 11:
						f := float64(i) / 3
						v, w = f, f
					}
					checkEnc0(c, v, num(w))
				case 3:
					n := 1 + c.Choose(302)
					if n > 300 {
						n += 65534 - 301
					}
					k := strings.Repeat("K", n)
					nd := &node{kind: []string{"obj", "ecma"}[c.Choose(2)], keys: []string{k, "b"}, kids: []*node{num(1), num(2)}}
					m := flvio.AMFMap{{K: k, V: 1}, {K: "b", V: 2}}
					if nd.kind == "ecma" {
						checkEnc0(c, flvio.AMFECMAArray(m), nd)
					} else {
						checkEnc0(c, m, nd)
					}
				case 4:
					ms := int64(1)<<uint(c.Choose(43)) + int64(c.Choose(3)-1)
					if c.Bool() {
						ms = -ms
					}
					checkEnc0(c, time.Unix(0, 0).Add(time.Duration(ms)*time.Millisecond), &node{kind: "date", num: float64(ms)})
				}
			}},
		{Name: "deep-nesting", Rule: "all chains of container kinds to depth 5 (7 thorough) around each of three leaves, with a sibling after the nested value",
			Run: func(c *mc.Ctx) {
				n := 5
				if tier == "thorough" {
					n = 7
				}
				v, nd := goval(c, 0, false)
				k := 1 + c.Choose(n)
				for i := 0; i < k; i++ {
					sib := c.Bool()
					switch c.Choose(3) {
					case 0:
						m := flvio.AMFMap{{K: "x", V: v}}
						x := &node{kind: "obj", keys: []string{"x"}, kids: []*node{nd}}
						if sib {
							m = append(m, flvio.AMFKv{K: "y", V: 1})
							x.keys = append(x.keys, "y")
							x.kids = append(x.kids, &node{kind: "num", num: 1})
						}
						v, nd = m, x
					case 1:
						m := flvio.AMFECMAArray{{K: "x", V: v}}
						x := &node{kind: "ecma", keys: []string{"x"}, kids: []*node{nd}}
						if sib {
							m = append(m, flvio.AMFKv{K: "y", V: 1})
							x.keys = append(x.keys, "y")
							x.kids = append(x.kids, &node{kind: "num", num: 1})
						}
						v, nd = m, x
					default:
						m := flvio.AMFArray{v}
						x := &node{kind: "arr", kids: []*node{nd}}
						if sib {
							m = append(m, "s")
							x.kids = append(x.kids, &node{kind: "str", s: "s"})
						}
						v, nd = m, x
					}
				}
				if len(enc0(nd)) > 70000 && k > 2 {
					c.Prune()
				}
				checkEnc0(c, v, nd)
			}},
		{Name: "value-lists", Rule: "all lists of 0-3 values (raw byte values included) through the list encoder and list decoder",
			Run: func(c *mc.Ctx) {
				n := c.Choose(4)
				var vals []interface{}
				var want []byte
				exp := []interface{}{}
				for i := 0; i < n; i++ {
					if c.Choose(4) == 1 {
						vals = append(vals, []byte{0, 0x40, 0, 0, 0, 0, 0, 0, 0})
						want = append(want, 0, 0x40, 0, 0, 0, 0, 0, 0, 0)
						exp = append(exp, 2.0)
						continue
					}
					d := 0
					if n == 1 {
						d = 1
					}
					v, nd := goval(c, d, n < 3)
					vals = append(vals, v)
					want = append(want, enc0(nd)...)
					exp = append(exp, nd.want(false))
				}
				if m := flvio.FillAMF0Vals(nil, vals); m != len(want) {
					c.Fail("list %s: predicted length %d want %d", short(vals), m, len(want))
				}
				b := make([]byte, len(want)+2)
				m := flvio.FillAMF0Vals(b, vals)
				if m != len(want) || !bytes.Equal(b[:m], want) || b[m] != 0 || b[m+1] != 0 {
					c.Fail("list %s: encoded %s want %s", short(vals), hex(b), hex(want))
				}
				if x := flvio.FillAMF0ValsMalloc(vals); !bytes.Equal(x, want) {
					c.Fail("list %s: malloc form differs", short(vals))
				}
				for _, amf3 := range []bool{false, true} {
					in := want
					if amf3 {
						in = append([]byte{0}, want...)
					}
					got, err := flvio.ParseAMFVals(in, amf3)
					if err != nil || len(got) != len(exp) {
						c.Fail("list %s amf3=%v: parsed %s err %v", short(vals), amf3, short(got), err)
					}
					for i := range got {
						if !same(got[i], exp[i]) {
							c.Fail("list %s: element %d parsed %s want %s", short(vals), i, short(got[i]), short(exp[i]))
						}
					}
				}
				c.Step(5)
				c.StateHash(hash(want))
				c.OutcomeHash(hash(want))
				c.Validated(1)
				c.Sample(func() string { return short(vals) })
			}},
		{Name: "object-operations", Rule: "all sequences of up to 5 set/delete/get operations over 3 keys on an ordered object against a list model",
			Run: func(c *mc.Ctx) {
				type kv struct {
					k string
					v interface{}
				}
				m := flvio.AMFMap{}
				var ref []kv
				n := 1 + c.Choose(5)
				keys := []string{"a", "b", "c"}
				vals := []interface{}{1.5, "s", true}
				var desc []string
				for i := 0; i < n; i++ {
					op := c.Choose(2)
					k := keys[c.Choose(3)]
					if op == 0 {
						v := vals[c.Choose(3)]
						m = m.Set(k, v)
						f := false
						for j := range ref {
							if ref[j].k == k {
								ref[j].v = v
								f = true
							}
						}
						if !f {
							ref = append(ref, kv{k, v})
						}
						desc = append(desc, fmt.Sprint("set ", k, "=", v))
					} else {
						m = m.Del(k)
						var nr []kv
						for _, x := range ref {
							if x.k != k {
								nr = append(nr, x)
							}
						}
						ref = nr
						desc = append(desc, "del "+k)
					}
					c.Step(1)
				}
				ok := len(m) == len(ref)
				for i := 0; ok && i < len(ref); i++ {
					ok = m[i].K == ref[i].k && m[i].V == ref[i].v
				}
				for _, k := range keys {
					var v interface{}
					has := false
					for _, x := range ref {
						if x.k == k {
							v, has = x.v, true
						}
					}
					gv, gh := m.GetV(k)
					gs, sok := m.GetString(k)
					gb, bok := m.GetBool(k)
					gf, fok := m.GetFloat64(k)
					ws, wsok := v.(string)
					wb, wbok := v.(bool)
					wf, wfok := v.(float64)
					if gv != v || gh != has || gs != ws || sok != wsok || gb != wb || bok != wbok || gf != wf || fok != wfok {
						ok = false
					}
				}
				if !ok {
					c.Fail("operations %v: object %v, model %v", desc, m, ref)
				}
				c.State(fmt.Sprint(ref))
				c.Outcome(fmt.Sprint(desc))
				c.Validated(1)
				c.Sample(func() string { return strings.Join(desc, "; ") })
			}},
	}
}

func nest(c *mc.Ctx) (interface{}, *node) {
	in, ni := goval(c, 1, false)
	if len(enc0(ni)) > 65536 {
		c.Prune()
	}
	extraFirst := c.Choose(3) // none, before, after
	switch c.Choose(3) {
	case 0:
		m := flvio.AMFMap{{K: "k", V: in}}
		nd := &node{kind: "obj", keys: []string{"k"}, kids: []*node{ni}}
		if extraFirst == 1 {
			m = append(flvio.AMFMap{{K: "z", V: true}}, m...)
			nd.keys = []string{"z", "k"}
			nd.kids = []*node{{kind: "bool", b: true}, ni}
		} else if extraFirst == 2 {
			m = append(m, flvio.AMFKv{K: "z", V: true})
			nd.keys = []string{"k", "z"}
			nd.kids = []*node{ni, {kind: "bool", b: true}}
		}
		return m, nd
	case 1:
		m := flvio.AMFECMAArray{{K: "k", V: in}}
		nd := &node{kind: "ecma", keys: []string{"k"}, kids: []*node{ni}}
		if extraFirst == 2 {
			m = append(m, flvio.AMFKv{K: "z", V: nil})
			nd.keys = []string{"k", "z"}
			nd.kids = []*node{ni, {kind: "null"}}
		}
		return m, nd
	}
	m := flvio.AMFArray{in}
	nd := &node{kind: "arr", kids: []*node{ni}}
	if extraFirst == 1 {
		m = flvio.AMFArray{"q", in}
		nd.kids = []*node{{kind: "str", s: "q"}, ni}
	} else if extraFirst == 2 {
		m = append(m, 9)
		nd.kids = []*node{ni, {kind: "num", num: 9}}
	}
	return m, nd
}

// ---- A02 ----

func tree0(c *mc.Ctx, depth int, full bool) *node {
	type gen func() *node
	lens := []int{0, 1, 127, 128, 255, 256, 65535}
	leaf := []gen{
		func() *node { return &node{kind: "num", num: []float64{0, 1, -1.25, math.Inf(-1)}[c.Choose(4)]} },
		func() *node { x := c.Choose(3); return &node{kind: "bool", b: x > 0, form: x / 2} },
		func() *node {
			l := c.Choose(3)
			if full {
				l = c.Choose(len(lens))
			}
			return &node{kind: "str", s: strings.Repeat("s", lens[l]), form: c.Choose(2)}
		},
		func() *node { return &node{kind: "null"} },
		func() *node { return &node{kind: "undef"} },
		func() *node {
			return &node{kind: "date", num: []float64{0, 1700000000123, -86400000, -1500}[c.Choose(4)], form: c.Choose(2)}
		},
	}
	k := len(leaf)
	if depth > 0 {
		k += 3
	}
	x := c.Choose(k)
	if x < len(leaf) {
		return leaf[x]()
	}
	nd := &node{kind: []string{"obj", "ecma", "arr"}[x-len(leaf)]}
	n := c.Choose(3)
	if nd.kind == "ecma" {
		nd.form = c.Choose(3)
	}
	keys := []string{"a", "bc", "a"}
	for i := 0; i < n; i++ {
		if nd.kind != "arr" {
			nd.keys = append(nd.keys, keys[(i+c.Choose(2))%3])
		}
		nd.kids = append(nd.kids, tree0(c, depth-1, false))
	}
	return nd
}

func tree3(c *mc.Ctx, depth int, full bool) *node {
	ints := []int{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 1<<28 - 1}
	lens := []int{0, 1, 63, 64, 127, 128, 8191, 8192, 70000}
	slen := func() int {
		if full {
			return lens[c.Choose(len(lens))]
		}
		return lens[c.Choose(2)]
	}
	kinds := 10
	if depth > 0 {
		kinds += 2
	}
	switch c.Choose(kinds) {
	case 0:
		return &node{kind: "null"}
	case 1:
		return &node{kind: "undef"}
	case 2:
		return &node{kind: "bool", b: false}
	case 3:
		return &node{kind: "bool", b: true}
	case 4:
		if full {
			return &node{kind: "int", i: ints[c.Choose(len(ints))]}
		}
		return &node{kind: "int", i: ints[2*c.Choose(2)+1]}
	case 5:
		return &node{kind: "num", num: []float64{0, -2.5}[c.Choose(2)]}
	case 6:
		return &node{kind: "str", s: strings.Repeat("s", slen())}
	case 7:
		return &node{kind: []string{"xml", "xmldoc"}[c.Choose(2)], s: strings.Repeat("x", slen())}
	case 8:
		return &node{kind: "date", num: []float64{0, 1700000000123, -86400000, -1500}[c.Choose(4)]}
	case 9:
		return &node{kind: "bytes", s: strings.Repeat("\x01", slen())}
	case 10:
		nd := &node{kind: "arr"}
		na, ndn := c.Choose(2), c.Choose(3)
		for i := 0; i < na; i++ {
			nd.keys = append(nd.keys, "ab"[:1+i])
			nd.kids = append(nd.kids, tree3(c, depth-1, false))
		}
		for i := 0; i < ndn; i++ {
			nd.dense = append(nd.dense, tree3(c, depth-1, false))
		}
		return nd
	}
	nd := &node{kind: "obj", dyn: c.Bool(), s: []string{"", "C"}[c.Choose(2)]}
	nd.sealN = c.Choose(3)
	n := nd.sealN
	if nd.dyn && c.Bool() {
		n++
	}
	for i := 0; i < n; i++ {
		nd.keys = append(nd.keys, []string{"a", "bb", "ccc"}[i])
		nd.kids = append(nd.kids, tree3(c, depth-1, false))
	}
	return nd
}

func checkDec(c *mc.Ctx, nd *node, amf3 bool) {
	enc, parse := enc0, flvio.ParseAMF0Val
	if amf3 {
		enc, parse = enc3, flvio.ParseAMF3Val
	}
	b := enc(nd)
	tail := &node{kind: "str", s: "tail"}
	lead := 2
	in := append(append([]byte{0xaa, 0xbb}, b...), enc(tail)...)
	n := lead
	got, err := parse(in, &n)
	if err != nil || n != lead+len(b) {
		c.Fail("amf3=%v %s: err %v, consumed %d of %d", amf3, hex(b), err, n-lead, len(b))
	}
	if !same(got, nd.want(amf3)) {
		c.Fail("amf3=%v %s: decoded %s want %s", amf3, hex(b), short(got), short(nd.want(amf3)))
	}
	// the same values as a list
	in = in[lead:]
	if !amf3 || in[0] != 0 {
		vals, err := flvio.ParseAMFVals(in, amf3)
		if err != nil || len(vals) != 2 || !same(vals[0], nd.want(amf3)) || !same(vals[1], "tail") {
			c.Fail("amf3=%v %s: list decoded %s err %v", amf3, hex(in), short(vals), err)
		}
	}
	c.Step(3)
	c.StateHash(hash(b))
	c.OutcomeHash(hash(b))
	c.Validated(1)
	c.Sample(func() string { return fmt.Sprintf("amf3=%v %s -> %s", amf3, hex(b), short(nd.want(amf3))) })
}

// wide chooses a number of members: all below n and some far above.
func wide(c *mc.Ctx, n int) int {
	k := c.Choose(n + 7)
	if k < n {
		return k
	}
	return []int{31, 63, 65, 127, 129, 257, 300}[k-n]
}

func a02(tier string) []mc.Exploration {
	d := 1
	if tier == "thorough" {
		d = 2
	}
	return []mc.Exploration{
		{Name: "amf0-trees", Rule: "all AMF0 values (every marker and encoding form: long strings, ECMA count hints, date time zones, non-canonical booleans), containers of width 0-2 to depth 2, followed by a trailing value", Run: func(c *mc.Ctx) {
			if d == 1 && c.Bool() {
				// one-sided depth 2
				in := tree0(c, 1, false)
				nd := &node{kind: []string{"obj", "ecma", "arr"}[c.Choose(3)]}
				sib := &node{kind: "str", s: "q"}
				nd.kids = []*node{in, sib}
				if nd.kind != "arr" {
					nd.keys = []string{"k", "z"}
				}
				checkDec(c, nd, false)
				return
			}
			checkDec(c, tree0(c, d, true), false)
		}},
		{Name: "wide-values", Rule: "AMF0: containers of 0-6 and up to 300 members with every count hint 0-8, through the plain list form and the form prefixed with a zero byte; AMF3: every integer 2^k-1, 2^k, 2^k+1 (k<28), string/XML/byte array lengths 0-300 and 2^k-1..2^k+1 to 2^17, arrays with 0-3 keys and 0-6 or up to 300 dense elements, objects with 0-6 or up to 300 sealed and 0-4 or up to 300 dynamic members", Run: func(c *mc.Ctx) {
			mk := func(i int) *node {
				switch i % 3 {
				case 0:
					return &node{kind: "str", s: strconv.Itoa(i)}
				case 1:
					return &node{kind: "bool", b: i%2 == 0}
				}
				return &node{kind: "null"}
			}
			key := func(i int) string {
				if i > 20 {
					return fmt.Sprint("k", i)
				}
				return strings.Repeat(string(rune('a'+i)), 1+i%3)
			}
			switch c.Choose(5) {
			case 0:
				nd := &node{kind: []string{"obj", "ecma", "arr"}[c.Choose(3)]}
				n := wide(c, 7)
				if nd.kind == "ecma" {
					nd.form = 10 + c.Choose(9)
				}
				for i := 0; i < n; i++ {
					if nd.kind != "arr" {
						nd.keys = append(nd.keys, key(i))
					}
					nd.kids = append(nd.kids, mk(i))
				}
				checkDec(c, nd, false)
				in := append([]byte{0}, enc0(nd)...)
				in = append(in, enc0(&node{kind: "num", num: 3})...)
				vals, err := flvio.ParseAMFVals(in, true)
				if err != nil || len(vals) != 2 || !same(vals[0], nd.want(false)) || !same(vals[1], 3.0) {
					c.Fail("AMF0 values after a zero byte %s: decoded %s err %v", hex(in), short(vals), err)
				}
			case 1:
				i := 1<<uint(c.Choose(28)) + c.Choose(3) - 1
				checkDec(c, &node{kind: "int", i: i}, true)
			case 2:
				kind := []string{"str", "xml", "xmldoc", "bytes"}[c.Choose(4)]
				n := c.Choose(355)
				if n > 300 {
					n -= 301
					n = 1<<uint(n/3) + n%3 - 1
				}
				checkDec(c, &node{kind: kind, s: strings.Repeat("y", n)}, true)
			case 3:
				nd := &node{kind: "arr"}
				for i, n := 0, c.Choose(4); i < n; i++ {
					nd.keys = append(nd.keys, key(i))
					nd.kids = append(nd.kids, mk(i))
				}
				for i, n := 0, wide(c, 7); i < n; i++ {
					nd.dense = append(nd.dense, mk(i+1))
				}
				checkDec(c, nd, true)
			case 4:
				nd := &node{kind: "obj", sealN: wide(c, 7), dyn: c.Bool()}
				n := nd.sealN
				if nd.dyn {
					n += wide(c, 5)
				}
				for i := 0; i < n; i++ {
					nd.keys = append(nd.keys, key(i))
					nd.kids = append(nd.kids, mk(i))
				}
				checkDec(c, nd, true)
			}
		}},
		{Name: "amf3-trees", Rule: "all AMF3 values of the supported kinds (U29 and length boundaries, dates, XML, byte arrays, arrays with associative and dense parts, sealed/dynamic/mixed objects) to depth 2, followed by a trailing value", Run: func(c *mc.Ctx) {
			if d == 1 && c.Bool() {
				in := tree3(c, 1, false)
				var nd *node
				switch c.Choose(4) {
				case 0:
					nd = &node{kind: "arr", dense: []*node{in, {kind: "bool", b: true}}}
				case 1:
					nd = &node{kind: "arr", keys: []string{"k"}, kids: []*node{in}, dense: []*node{{kind: "int", i: 300}}}
				case 2:
					nd = &node{kind: "obj", sealN: 2, keys: []string{"k", "l"}, kids: []*node{in, {kind: "bool"}}}
				case 3:
					nd = &node{kind: "obj", sealN: 1, dyn: true, keys: []string{"k", "l"}, kids: []*node{{kind: "str", s: "v"}, in}}
				}
				checkDec(c, nd, true)
				return
			}
			checkDec(c, tree3(c, d, true), true)
		}},
		{Name: "unsupported-forms", Rule: "every unsupported encoding (references, trait references, externalizable, vectors, dictionary, unknown markers, AMF0 movie clip/reference/unsupported/recordset/typed object/avmplus) is an error, alone and nested in each container kind", Run: func(c *mc.Ctx) {
			bad3 := [][]byte{{6, 0}, {6, 2}, {7, 4}, {8, 0}, {9, 0}, {9, 2}, {10, 0}, {10, 1, 1}, {10, 5}, {10, 7, 1}, {12, 0}, {13, 1}, {14, 1}, {15, 1}, {16, 1}, {17, 1}, {18}, {0x7f}, {0xff}}
			bad0 := [][]byte{{4}, {7, 0, 0}, {13}, {14}, {16, 0, 1, 'a', 0, 0, 9}, {17, 1}, {18}, {0xff}}
			if c.Bool() {
				b := bad3[c.Choose(len(bad3))]
				switch c.Choose(4) {
				case 1:
					b = append(append([]byte{9, 1}, utf3("k")...), b...)
				case 2:
					b = append([]byte{9, 3, 1}, b...)
				case 3:
					b = append(append([]byte{10, 0x13, 1}, utf3("k")...), b...)
				}
				b = append(append([]byte{}, b...), 1, 1, 1, 1, 1, 1, 1, 1)
				n := 0
				v, err := flvio.ParseAMF3Val(b, &n)
				if err == nil {
					c.Fail("AMF3 %x is not supported but decoded to %s", b, short(v))
				}
				c.Outcome(b)
				c.State(b)
			} else {
				b := bad0[c.Choose(len(bad0))]
				switch c.Choose(4) {
				case 1:
					b = append([]byte{3, 0, 1, 'k'}, b...)
				case 2:
					b = append([]byte{8, 0, 0, 0, 1, 0, 1, 'k'}, b...)
				case 3:
					b = append([]byte{10, 0, 0, 0, 1}, b...)
				}
				b = append(append([]byte{}, b...), 0, 0, 9, 0, 0, 9)
				n := 0
				v, err := flvio.ParseAMF0Val(b, &n)
				if err == nil {
					c.Fail("AMF0 %x is not supported but decoded to %s", b, short(v))
				}
				c.Outcome(b)
				c.State(b)
			}
			c.Step(1)
			c.Validated(1)
			c.Sample(func() string { return "unsupported form" })
		}},
		{Name: "truncations", Rule: "every proper prefix of every small AMF0/AMF3 value is an error", Run: func(c *mc.Ctx) {
			var b []byte
			amf3 := c.Bool()
			if amf3 {
				b = enc3(tree3(c, 1, false))
			} else {
				b = enc0(tree0(c, 1, false))
			}
			parse := flvio.ParseAMF0Val
			if amf3 {
				parse = flvio.ParseAMF3Val
			}
			for k := 0; k < len(b); k++ {
				if len(b) > 80 && k > 40 && k < len(b)-20 {
					continue
				}
				n := 0
				if v, err := parse(b[:k:k], &n); err == nil {
					c.Fail("amf3=%v prefix %s of %s decoded to %s", amf3, hex(b[:k]), hex(b), short(v))
				}
				c.Step(1)
			}
			c.StateHash(hash(b))
			c.OutcomeHash(hash(b))
			c.Validated(1)
			c.Sample(func() string { return "prefixes of " + hex(b) })
		}},
	}
}

// ---- A03 ----

func anyDecode(c *mc.Ctx, b []byte) {
	var sig [4]byte
	for i, amf3 := range []bool{false, true} {
		n := 0
		parse := flvio.ParseAMF0Val
		if amf3 {
			parse = flvio.ParseAMF3Val
		}
		_, err := parse(b, &n)
		if n < 0 || n > len(b) {
			c.Fail("amf3=%v input %s: cursor %d beyond %d bytes", amf3, hex(b), n, len(b))
		}
		if err == nil {
			sig[i] = byte(n + 1)
			if n == 0 {
				c.Fail("amf3=%v input %s: a value was decoded from no bytes", amf3, hex(b))
			}
		} else {
			_ = err.Error()
		}
		vals, err := flvio.ParseAMFVals(b, amf3)
		if len(vals) > len(b) {
			c.Fail("amf3=%v input %s: %d values from %d bytes", amf3, hex(b), len(vals), len(b))
		}
		if err == nil {
			sig[2+i] = byte(len(vals) + 1)
		}
		c.Step(2)
	}
	if len(b) < 64 {
		c.StateHash(hash(b))
	}
	c.OutcomeHash(hash(append(sig[:], b[:min(len(b), 3)]...)))
	c.Validated(1)
	c.Sample(func() string { return hex(b) })
}

func a03(tier string) []mc.Exploration {
	n0 := 5
	al := []byte{0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 0x0b, 0x13, 0x61, 0x7f, 0x80, 0xff, 4, 6}
	if tier == "thorough" {
		n0 = 6
	}
	seeds := func() [][]byte {
		var out [][]byte
		str := &node{kind: "str", s: "ab"}
		o := &node{kind: "obj", keys: []string{"k", "l"}, kids: []*node{str, {kind: "num", num: 2}}}
		out = append(out, enc0(o), enc0(&node{kind: "ecma", keys: []string{"k"}, kids: []*node{o}}),
			enc0(&node{kind: "arr", kids: []*node{o, str, {kind: "bool", b: true}, {kind: "date", num: 5}}}), enc0(&node{kind: "str", s: "long", form: 1}))
		o3 := &node{kind: "obj", s: "C", dyn: true, sealN: 1, keys: []string{"k", "l"}, kids: []*node{str, {kind: "int", i: 300}}}
		out = append(out, enc3(o3), enc3(&node{kind: "arr", keys: []string{"a"}, kids: []*node{o3}, dense: []*node{str, {kind: "bytes", s: "\x01\x02"}, {kind: "date", num: 9}}}),
			enc3(&node{kind: "xml", s: "<a/>"}))
		return out
	}()
	return []mc.Exploration{
		{Name: "short-strings", AllocLimit: 8 << 20, Rule: fmt.Sprintf("all byte strings of length 0-%d over %d structural bytes, both decoders, single value and list", n0, len(al)), Run: func(c *mc.Ctx) {
			n := c.Choose(n0 + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = al[c.Choose(len(al))]
			}
			anyDecode(c, b)
		}},
		{Name: "all-4-byte-prefixes", AllocLimit: 8 << 20, Rule: "every pair of leading bytes (65536) followed by each of 6 tails", Run: func(c *mc.Ctx) {
			b := []byte{byte(c.Choose(256)), byte(c.Choose(256))}
			tails := [][]byte{{}, {0}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0, 9, 0, 0, 9}, {0, 1, 0x61, 5, 0, 0, 9}}
			b = append(b, tails[c.Choose(len(tails))]...)
			anyDecode(c, b)
		}},
		{Name: "single-byte-alterations", AllocLimit: 8 << 20, Rule: "valid AMF0 and AMF3 values with every byte position set to every value, and every truncation of those with the altered length bytes; thorough: every pair of positions over 8 values", Run: func(c *mc.Ctx) {
			b := append([]byte(nil), seeds[c.Choose(len(seeds))]...)
			p := c.Choose(len(b))
			b[p] = byte(c.Choose(256))
			if tier == "thorough" {
				q := c.Choose(len(b))
				vs := []byte{0, 1, 3, 9, 10, 0x7f, 0x80, 0xff}
				b[q] = vs[c.Choose(len(vs))]
			}
			anyDecode(c, b)
		}},
		{Name: "maximal-messages", AllocLimit: 2200 << 20, Serial: true, Rule: "nesting chains of every container kind to depth 1..the deepest a 4 MiB message can hold, complete or cut, with small or huge declared counts; and 4 MiB wide arrays", Run: func(c *mc.Ctx) {
			elem := [][]byte{
				{10, 0, 0, 0, 1}, {10, 0, 0x30, 0, 0}, {3, 0, 1, 'a'}, {8, 0, 0, 0, 1, 0, 1, 'a'}, // AMF0
				{9, 1, 3, 'a'}, {9, 3, 1}, {10, 0x0b, 1, 3, 'a'}, {10, 0x13, 1, 3, 'a'}, {9, 0xbf, 0xff, 0xff, 0xff, 1}, {10, 0xbf, 0xff, 0xff, 0xf3, 1}, // AMF3
			}
			depths := []int{1, 10, 100, 900, 1100, 5000, 100000, 1 << 30}
			e := elem[c.Choose(len(elem))]
			d := depths[c.Choose(len(depths))]
			// a stack that suits any message, and is a quarter of what 32-bit
			// platforms have
			debug.SetMaxStack(64 << 20)
			if d*len(e) > 4<<20 {
				d = 4 << 20 / len(e)
			}
			b := bytes.Repeat(e, d)
			if c.Bool() {
				b = append(b, 5)
				b = append(b, bytes.Repeat([]byte{0, 0, 9}, min(d, 2000))...)
			}
			anyDecode(c, b)
		}},
		{Name: "many-members", AllocLimit: 2200 << 20, Serial: true, Rule: "objects and associative arrays of both forms with 10 to 600000 members of different or equal names", Run: func(c *mc.Ctx) {
			n := []int{10, 33, 1000, 600000}[c.Choose(4)]
			kind := c.Choose(5)
			same := c.Bool()
			head := [][]byte{{3}, {8, 0, 0, 0, 9}, {9, 1}, {10, 0x0b, 1}, append(append([]byte{10}, u29(n<<4|3)...), 1)}[kind]
			tail := [][]byte{{0, 0, 9}, {0, 0, 9}, {1}, {1}, bytes.Repeat([]byte{1}, n)}[kind]
			value := [][]byte{{5}, {5}, {1}, {1}, {}}[kind]
			b := append([]byte{}, head...)
			for i := 0; i < n; i++ {
				k := i
				if same {
					k = 7
				}
				if kind < 2 {
					b = append(b, 0, 3)
				} else {
					b = append(b, 7)
				}
				b = append(b, byte(k%200+1), byte(k/200%200+1), byte(k/40000+1))
				b = append(b, value...)
			}
			b = append(b, tail...)
			want := n
			if same {
				want = 1
			}
			k := 0
			var v interface{}
			var err error
			if kind < 2 {
				v, err = flvio.ParseAMF0Val(b, &k)
			} else {
				v, err = flvio.ParseAMF3Val(b, &k)
			}
			m, _ := v.(flvio.AMFMap)
			if err != nil || k != len(b) || len(m) != want {
				c.Fail("%d members, same names %v, container %x: %d members, %d of %d bytes used, err %v", n, same, head, len(m), k, len(b), err)
			}
			c.Step(n)
			c.Outcome(kind, n, same)
			c.Validated(1)
		}},
		{Name: "wide-values", AllocLimit: 2200 << 20, Serial: true, Rule: "strict/dense arrays and value lists of up to 4 Mi one-byte elements; strings and byte arrays declaring every length boundary", Run: func(c *mc.Ctx) {
			k := c.Choose(5)
			n := []int{1, 1000, 1 << 20, 4<<20 - 16}[c.Choose(4)]
			var b []byte
			switch k {
			case 0:
				b = append(append([]byte{10}, u32(n)...), bytes.Repeat([]byte{5}, n)...)
			case 1:
				b = append(append([]byte{9}, u29(n<<1|1)...), 1)
				b = append(b, bytes.Repeat([]byte{1}, n)...)
			case 2:
				b = bytes.Repeat([]byte{5}, n)
			case 3:
				b = append([]byte{12}, u32(n)...)
			case 4:
				b = append([]byte{12}, u29(n<<1|1)...)
			}
			anyDecode(c, b)
		}},
	}
}

func main() {
	mc.Main([]mc.Property{
		{ID: "A01", Level: "model_checking", Build: a01, Assumptions: []string{"object keys are 1 to 65535 bytes long (AMF0 cannot express others)", "dates between 1678 and 2262"}},
		{ID: "A02", Level: "model_checking", Build: a02, Assumptions: []string{"AMF3 integers of 2^28 and above are excluded: an existing test pins their unsigned reading"}},
		{ID: "A03", Level: "exploration", Build: a03},
	})
}
