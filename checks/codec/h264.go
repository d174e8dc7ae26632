package main

import (
	"bytes"
	"fmt"

	"github.com/nareix/joy5/codec/h264"

	hm "joyverif/h264model"
	"joyverif/mc"
)

func deep(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

// avccParse reads b as length-prefixed units; empty tells of empty units.
func avccParse(b []byte) (units [][]byte, empty, ok bool) {
	if len(b) == 0 {
		return nil, false, false
	}
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, empty, false
		}
		n := uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
		b = b[4:]
		if n > uint64(len(b)) {
			return nil, empty, false
		}
		empty = empty || n == 0
		units = append(units, b[:n])
		b = b[n:]
	}
	return units, empty, true
}

// annexbParse splits at start codes; lead is what precedes the first.
func annexbParse(b []byte) (lead []byte, units [][]byte, ok bool) {
	from := -1
	trim := func(x []byte) []byte { return bytes.TrimRight(x, "\x00") }
	emit := func(to int) {
		x := trim(b[max(from, 0):to])
		if from < 0 {
			lead = x
		} else if len(x) > 0 {
			units = append(units, x)
		}
	}
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			emit(i)
			from = i + 3
			i += 2
			ok = true
		}
	}
	if ok {
		emit(len(b))
	}
	return
}

func eqUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// infos checks that the reported positions are those of the units.
func infos(c *mc.Ctx, b []byte, typ int) {
	l, t := h264.SplitNALUsRetInfo(b)
	if t != typ {
		c.Fail("%x: SplitNALUs says form %d, SplitNALUsRetInfo %d", b, typ, t)
	}
	units, _ := h264.SplitNALUs(b)
	if len(l) != len(units) {
		c.Fail("%x: %d units, %d infos", b, len(units), len(l))
	}
	end := 0
	for i, x := range l {
		if x.NALUStart < end || x.DataStart < x.NALUStart || x.End < x.DataStart || x.End > len(b) || !bytes.Equal(b[x.DataStart:x.End], x.Data) || !bytes.Equal(x.Data, units[i]) {
			c.Fail("%x: unit %d has positions %d %d %d after %d, data %x", b, i, x.NALUStart, x.DataStart, x.End, end, x.Data)
		}
		p := b[x.NALUStart:x.DataStart]
		switch typ {
		case h264.NALU_AVCC:
			if len(p) != 4 {
				c.Fail("%x: unit %d has its length at %x", b, i, p)
			}
		case h264.NALU_ANNEXB:
			if len(p) > 0 && (len(p) < 3 || p[len(p)-1] != 1 || len(bytes.TrimLeft(p, "\x00")) != 1) {
				c.Fail("%x: unit %d has its start code at %x", b, i, p)
			}
			if len(p) == 0 && i > 0 {
				c.Fail("%x: unit %d has no start code", b, i)
			}
		}
		end = x.End
	}
	if typ := h264.CheckNALUsType(b); typ != t {
		c.Fail("%x: CheckNALUsType says %d, the split %d", b, typ, t)
	}
}

// unit lets the explorer choose a legal NAL unit of up to n bytes.
func unit(c *mc.Ctx, heads, alpha []byte, n int) []byte {
	u := []byte{heads[c.Choose(len(heads))]}
	l := c.Choose(n)
	z := 0
	for i := 0; i < l; i++ {
		x := alpha[c.Choose(len(alpha))]
		if z >= 2 {
			// three-byte sequences 00 00 00..03 exist only as emulation prevention
			if x < 3 {
				c.Prune()
			}
		}
		if len(u) >= 4 && u[len(u)-1] == 3 && u[len(u)-2] == 0 && u[len(u)-3] == 0 && x > 3 {
			c.Prune()
		}
		if x == 0 {
			z++
		} else {
			z = 0
		}
		u = append(u, x)
	}
	if u[len(u)-1] == 0 {
		c.Prune()
	}
	return u
}

func checkJoined(c *mc.Ctx, units [][]byte, starts []int, lead, trail int) {
	avcc := h264.JoinNALUsAVCC(units)
	var ref []byte
	for _, u := range units {
		ref = append(ref, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
		ref = append(ref, u...)
	}
	if !bytes.Equal(avcc, ref) {
		c.Fail("units %x joined with lengths give %x", units, avcc)
	}
	if f := h264.FillNALUsAVCC(units); !bytes.Equal(f, avcc) {
		c.Fail("FillNALUsAVCC gives %x, JoinNALUsAVCC %x", f, avcc)
	}
	got, typ := h264.SplitNALUs(avcc)
	if typ != h264.NALU_AVCC || !eqUnits(got, units) {
		c.Fail("units %x with lengths are split into %x, form %d", units, got, typ)
	}
	infos(c, avcc, typ)
	j := h264.JoinNALUsAnnexb(units)
	lead0, ju, ok := annexbParse(j)
	if !ok || len(lead0) > 0 || !eqUnits(ju, units) {
		c.Fail("units %x joined with start codes give %x", units, j)
	}
	if f := h264.FillNALUsAnnexb(units); !bytes.Equal(f, j) {
		c.Fail("FillNALUsAnnexb gives %x, JoinNALUsAnnexb %x", f, j)
	}
	ann := bytes.Repeat([]byte{0}, lead)
	for i, u := range units {
		ann = append(append(append(ann, make([]byte, starts[i]-1)...), 1), u...)
	}
	ann = append(ann, make([]byte, trail)...)
	for _, b := range [][]byte{j, ann} {
		if _, _, amb := avccParse(b); amb {
			continue
		}
		got, typ = h264.SplitNALUs(b)
		if typ != h264.NALU_ANNEXB || !eqUnits(got, units) {
			c.Fail("units %x with start codes (%x) are split into %x, form %d", units, b, got, typ)
		}
		infos(c, b, typ)
		for i := range units {
			if h264.NALUType(got[i]) != units[i][0]&0x1f {
				c.Fail("unit %x has type %d", units[i], h264.NALUType(got[i]))
			}
			if t := units[i][0] & 0x1f; h264.IsDataNALU(got[i]) != (t >= 1 && t <= 5) {
				c.Fail("unit %x: IsDataNALU %v", units[i], h264.IsDataNALU(got[i]))
			}
		}
	}
	c.Step(4)
	c.Validated(4)
	c.State(string(ann))
	c.Outcome(len(units), starts, lead, trail)
	c.Sample(func() string { return fmt.Sprintf("%x <-> %x", units, ann) })
}

func h01(tier string) []mc.Exploration {
	small := []byte{0, 1, 2, 3, 4, 0xff}
	mk := func(name string, n, l int, heads, alpha []byte, pads []int) mc.Exploration {
		return mc.Exploration{Name: name, Rule: fmt.Sprintf("all sequences of %d units with a header of %x and up to %d bytes over %x that a legal encoder can produce, three- or four-byte start codes each, up to %d zero bytes before and %v after; joined and split in both forms", n, heads, l-1, alpha, len(pads), pads), Run: func(c *mc.Ctx) {
			units := make([][]byte, n)
			starts := make([]int, n)
			for i := range units {
				units[i] = unit(c, heads, alpha, l)
				starts[i] = 3 + c.Choose(2)
				if i > 0 {
					starts[i] += c.Choose(len(pads))
				}
			}
			lead := c.Choose(len(pads))
			trail := pads[c.Choose(len(pads))]
			checkJoined(c, units, starts, lead, trail)
		}}
	}
	sizes := []int{1, 2, 3, 4, 127, 128, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 300, 511, 512, 513, 1000, 4096, 65535, 65536, 65537}
	if tier == "thorough" {
		for i := 262; i < 520; i++ {
			sizes = append(sizes, i)
		}
	}
	ex := []mc.Exploration{
		mk("one unit", 1, deep(tier, 6, 8), []byte{0x65, 0x41, 0x09, 0x67, 0x01}, small, []int{0, 1, 2, 3, 5}),
		mk("unit types", 1, 2, func() (l []byte) {
			for i := byte(1); i < 128; i++ {
				l = append(l, i)
			}
			return
		}(), []byte{0, 1, 0x80}, []int{0, 1}),
		mk("two units", 2, deep(tier, 4, 5), []byte{0x65, 0x01}, []byte{0, 1, 3, 0xff}, []int{0, 1, 2}),
		mk("three units", 3, deep(tier, 3, 4), []byte{0x65}, []byte{0, 1, 3, 0x80}, []int{0, 2}),
		{Name: "unit sizes", Rule: fmt.Sprintf("one to three units of %d sizes each, bytes never zero, both start codes", len(sizes)), Run: func(c *mc.Ctx) {
			n := 1 + c.Choose(2)
			if tier == "thorough" && c.Bool() {
				n = 3
			}
			units := make([][]byte, n)
			starts := make([]int, n)
			for i := range units {
				u := make([]byte, sizes[c.Choose(len(sizes))])
				for k := range u {
					u[k] = byte(k%251) + 1
				}
				u[0] = 0x41
				units[i] = u
				starts[i] = 3 + c.Choose(2)
			}
			checkJoined(c, units, starts, 0, 0)
		}},
		{Name: "raw bytes", Rule: fmt.Sprintf("all byte strings of up to %d bytes over {00,01,02,05,65}: the form and the units agree with a reference splitter", deep(tier, 8, 10)), Run: func(c *mc.Ctx) {
			alpha := []byte{0, 1, 2, 5, 0x65}
			b := make([]byte, c.Choose(deep(tier, 9, 11)))
			for i := range b {
				b[i] = alpha[c.Choose(len(alpha))]
			}
			keep := append([]byte(nil), b...)
			got, typ := h264.SplitNALUs(b)
			if !bytes.Equal(b, keep) {
				c.Fail("%x: the input was changed", keep)
			}
			units, empty, isAVCC := avccParse(b)
			lead, ann, isAnn := annexbParse(b)
			switch {
			case isAVCC && empty: // which form is a matter of taste
			case isAVCC:
				if typ != h264.NALU_AVCC || !eqUnits(got, units) {
					c.Fail("%x: form %d units %x, want lengths and %x", b, typ, got, units)
				}
			case isAnn:
				if len(lead) > 0 && len(got) == len(ann)+1 {
					ann = append([][]byte{lead}, ann...)
				}
				if typ != h264.NALU_ANNEXB || !eqUnits(got, ann) {
					c.Fail("%x: form %d units %x, want start codes and %x", b, typ, got, ann)
				}
			default:
				if typ != h264.NALU_RAW || len(got) != 1 || !bytes.Equal(got[0], b) {
					c.Fail("%x: form %d units %x, want it raw", b, typ, got)
				}
			}
			infos(c, b, typ)
			for _, u := range got {
				h264.NALUType(u)
				h264.IsDataNALU(u)
			}
			c.Step(1)
			c.Validated(1)
			c.State(string(b))
			c.Outcome(typ, len(got))
			c.Sample(func() string { return fmt.Sprintf("%x form %d units %x", b, typ, got) })
		}},
	}
	return ex
}

// record is a decoder configuration record taken apart.
type record struct {
	head     [4]byte
	sps, pps [][]byte
	rest     []byte
}

func parseRecord(b []byte) (r record, err error) {
	bad := fmt.Errorf("bad record")
	if len(b) < 6 {
		return r, bad
	}
	copy(r.head[:], b)
	if b[0] != 1 || b[4] != 0xff || b[5]&0xe0 != 0xe0 {
		return r, fmt.Errorf("bad header %x", b[:6])
	}
	n := int(b[5] & 0x1f)
	b = b[6:]
	for k := 0; k < 2; k++ {
		for i := 0; i < n; i++ {
			if len(b) < 2 {
				return r, bad
			}
			l := int(b[0])<<8 | int(b[1])
			if len(b) < 2+l {
				return r, bad
			}
			if k == 0 {
				r.sps = append(r.sps, b[2:2+l])
			} else {
				r.pps = append(r.pps, b[2:2+l])
			}
			b = b[2+l:]
		}
		if k == 0 {
			if len(b) < 1 {
				return r, bad
			}
			n = int(b[0])
			b = b[1:]
		}
	}
	r.rest = b
	return r, nil
}

func writeRecord(sps, pps [][]byte, ext bool) []byte {
	b := []byte{1, 66, 0xc0, 30, 0xff, 0xe0 | byte(len(sps))}
	if len(sps) > 0 {
		copy(b[1:4], sps[0][1:4])
	}
	put := func(x []byte) { b = append(append(b, byte(len(x)>>8), byte(len(x))), x...) }
	for _, x := range sps {
		put(x)
	}
	b = append(b, byte(len(pps)))
	for _, x := range pps {
		put(x)
	}
	if ext {
		b = append(b, 0xfd, 0xf8, 0xf8, 0)
	}
	return b
}

// sets compares parameter sets by id.
func sameSets(m map[int][]byte, ids []int, sets map[int][]byte) bool {
	if len(m) != len(ids) {
		return false
	}
	for _, id := range ids {
		if !bytes.Equal(m[id], sets[id]) {
			return false
		}
	}
	return true
}

func inList(l [][]byte, x []byte) bool {
	for _, y := range l {
		if bytes.Equal(x, y) {
			return true
		}
	}
	return false
}

func h02(tier string) []mc.Exploration {
	spsids := []int{0, 1, 7, 31}
	ppsids := []int{0, 1, 30, 255}
	variant := func(id, k int) []byte {
		s := hm.Basic(uint64(id), 20+uint64(id), 10)
		switch k {
		case 1: // other profile, larger, several emulation bytes
			s.Profile, s.Constraint, s.Level, s.Chroma = 100, 0, 51, 1
			s.VUI = &hm.VUI{Aspect: -1, Overscan: -1, Timing: true, Units: 1, Scale: 50}
		case 2: // more than 255 bytes
			s.Profile, s.Level = 77, 40
			s.POC = 1
			for i := 0; i < 200; i++ {
				s.Cycle = append(s.Cycle, int64(i)*7-500)
			}
		}
		return s.NAL()
	}
	choose := func(c *mc.Ctx, ids []int, n int, one bool) []int {
		var l []int
		used := map[int]bool{}
		k := c.Choose(n + 1)
		if one {
			k = 1 + c.Choose(n)
		}
		for i := 0; i < k; i++ {
			x := ids[c.Choose(len(ids))]
			if used[x] {
				c.Prune()
			}
			used[x] = true
			l = append(l, x)
		}
		return l
	}
	build := func(c *mc.Ctx, n int) (cd *h264.Codec, si, pi []int, sps, pps map[int][]byte, asc bool) {
		si = choose(c, spsids, n, true)
		pi = choose(c, ppsids, n, false)
		sps, pps = map[int][]byte{}, map[int][]byte{}
		cd = h264.NewCodec()
		asc = true
		mixed := c.Choose(3)
		for i, id := range si {
			sps[id] = variant(id, (i+mixed)%3)
			asc = asc && (i == 0 || si[i-1] < id)
		}
		for i, id := range pi {
			pps[id] = hm.PPS(uint64(id), uint64(si[i%len(si)]))
		}
		ppsFirst := c.Bool()
		addP := func() {
			for _, id := range pi {
				b := append([]byte(nil), pps[id]...)
				cd.AddSPSPPS(b)
				b[len(b)-1] ^= 0xff // the caller's buffer is reused
			}
		}
		if ppsFirst {
			addP()
		}
		for _, id := range si {
			b := append([]byte(nil), sps[id]...)
			cd.AddSPSPPS(b)
			b[len(b)-1] ^= 0xff
		}
		if !ppsFirst {
			addP()
		}
		return
	}
	n := deep(tier, 2, 3)
	return []mc.Exploration{
		{Name: "records", Rule: fmt.Sprintf("all ordered choices of 1-%d SPS of ids %v (three profiles and sizes each) and 0-%d PPS of ids %v: the record made of them and the codec parsed from it", n, spsids, n, ppsids), Run: func(c *mc.Ctx) {
			cd, si, pi, sps, pps, asc := build(c, n)
			if !sameSets(cd.SPS, si, sps) || !sameSets(cd.PPS, pi, pps) {
				c.Fail("adding SPS %v and PPS %v gives %x %x", si, pi, cd.SPS, cd.PPS)
			}
			want := 7
			for _, x := range sps {
				want += 2 + len(x)
			}
			for _, x := range pps {
				want += 2 + len(x)
			}
			if cd.Len() != want {
				c.Fail("Len %d, want %d", cd.Len(), want)
			}
			cd.ToConfig()
			b := cd.ConfigBytes
			if len(b) != want {
				c.Fail("record of %d bytes, want %d", len(b), want)
			}
			r, err := parseRecord(b)
			if err != nil || len(r.rest) > 0 {
				c.Fail("record %x: %v, %d bytes left", b, err, len(r.rest))
			}
			if len(r.sps) != len(si) || len(r.pps) != len(pi) {
				c.Fail("record has %d SPS and %d PPS, want %d and %d", len(r.sps), len(r.pps), len(si), len(pi))
			}
			for _, id := range si {
				if !inList(r.sps, sps[id]) {
					c.Fail("SPS %d is missing in %x", id, b)
				}
			}
			for _, id := range pi {
				if !inList(r.pps, pps[id]) {
					c.Fail("PPS %d is missing in %x", id, b)
				}
			}
			if !bytes.Equal(r.head[1:], r.sps[0][1:4]) {
				c.Fail("record has profile %x, its first SPS %x", r.head[1:], r.sps[0][1:4])
			}
			for i := 0; i < 8; i++ {
				cd.ToConfig()
				if !bytes.Equal(cd.ConfigBytes, b) {
					c.Fail("the record is not stable: %x, then %x", b, cd.ConfigBytes)
				}
			}
			in := append([]byte(nil), b...)
			if ext := c.Bool(); ext {
				in = append(in, 0xfd, 0xf8, 0xf8, 0)
			}
			keep := append([]byte(nil), in...)
			p, err := h264.FromDecoderConfig(in)
			if err != nil {
				c.Fail("record %x is refused: %v", b, err)
			}
			for i := range in {
				in[i] ^= 0xff // the caller's buffer is reused
			}
			if !sameSets(p.SPS, si, sps) || !sameSets(p.PPS, pi, pps) {
				c.Fail("record %x gives SPS %x PPS %x", b, p.SPS, p.PPS)
			}
			if asc && (p.W != cd.W || p.H != cd.H) {
				c.Fail("record gives size %dx%d, was %dx%d", p.W, p.H, cd.W, cd.H)
			}
			last := 20 + si[len(si)-1]
			if cd.W != last*16 || cd.H != 160 {
				c.Fail("size %dx%d after SPS %v", cd.W, cd.H, si)
			}
			if !p.Equal(*cd) {
				c.Fail("the parsed codec differs from the original")
			}
			if !bytes.Equal(p.ConfigBytes, keep) {
				c.Fail("the parsed codec has record %x, was %x", p.ConfigBytes, keep)
			}
			p.ToConfig()
			if !bytes.Equal(p.ConfigBytes, b) {
				c.Fail("the parsed codec makes record %x, was %x", p.ConfigBytes, b)
			}
			o := h264.FromOld(h264.Codec{SPS: cd.SPS, PPS: cd.PPS})
			if !o.Equal(*cd) || !sameSets(o.SPS, si, sps) || asc && o.W != cd.W {
				c.Fail("FromOld gives another codec")
			}
			c.Step(3)
			c.Validated(2)
			c.State(string(b))
			c.Outcome(si, pi)
			c.Sample(func() string { return fmt.Sprintf("SPS %v PPS %v -> %d bytes", si, pi, len(b)) })
		}},
		{Name: "many sets", Rule: "1-31 SPS and 0-255 PPS (all an id and a record can express) in ascending or descending order of id, 8 constraint bytes: the record and the codec parsed from it", Run: func(c *mc.Ctx) {
			ns := []int{1, 2, 7, 8, 15, 16, 17, 30, 31}[c.Choose(9)]
			np := []int{0, 1, 31, 32, 63, 64, 127, 128, 129, 254, 255}[c.Choose(11)]
			flags := []uint64{0, 0xc0, 0xff, 0x04, 0x08, 0x10, 0x3c, 0x03}[c.Choose(8)]
			if flags != 0xc0 && np != 1 && np != 32 {
				c.Prune()
			}
			down := c.Bool()
			var si, pi []int
			sps, pps := map[int][]byte{}, map[int][]byte{}
			cd := h264.NewCodec()
			for i := 0; i < ns; i++ {
				id := i
				if down {
					id = 31 - i
				}
				x := hm.Basic(uint64(id), uint64(20+id), 10)
				x.Constraint = flags
				si = append(si, id)
				sps[id] = x.NAL()
				cd.AddSPSPPS(sps[id])
			}
			for i := 0; i < np; i++ {
				id := i
				if down {
					id = 255 - i
				}
				pi = append(pi, id)
				pps[id] = hm.PPS(uint64(id), uint64(si[i%ns]))
				cd.AddSPSPPS(pps[id])
			}
			cd.ToConfig()
			rec, err := parseRecord(cd.ConfigBytes)
			if err != nil || len(rec.rest) > 0 || len(rec.sps) != ns || len(rec.pps) != np || len(cd.ConfigBytes) != cd.Len() {
				c.Fail("%d SPS and %d PPS: record %x: %v, %d SPS, %d PPS", ns, np, cd.ConfigBytes, err, len(rec.sps), len(rec.pps))
			}
			if !bytes.Equal(rec.head[1:], rec.sps[0][1:4]) {
				c.Fail("record has profile %x, its first SPS %x", rec.head[1:], rec.sps[0][1:4])
			}
			got, err := h264.FromDecoderConfig(cd.ConfigBytes)
			if err != nil || !sameSets(got.SPS, si, sps) || !sameSets(got.PPS, pi, pps) || !got.Equal(*cd) {
				c.Fail("%d SPS and %d PPS: %v, parsed as %d SPS and %d PPS", ns, np, err, len(got.SPS), len(got.PPS))
			}
			c.Step(2)
			c.Validated(2)
			c.State(string(cd.ConfigBytes))
			c.Outcome(ns, np)
		}},
		{Name: "changes", Rule: "a codec of up to two SPS and PPS of which any one is replaced by another of its id: the sets, the record and Equal follow", Run: func(c *mc.Ctx) {
			cd, si, pi, sps, pps, _ := build(c, 2)
			old := *cd
			oldb := h264.FromOld(old)
			k := c.Choose(3)
			var nal []byte
			if i := c.Choose(len(si) + len(pi)); i < len(si) {
				nal = variant(si[i], k)
				sps[si[i]] = nal
			} else {
				id := pi[i-len(si)]
				nal = hm.PPS(uint64(id), uint64(k))
				pps[id] = nal
			}
			cd.AddSPSPPS(nal)
			if !sameSets(cd.SPS, si, sps) || !sameSets(cd.PPS, pi, pps) {
				c.Fail("after a change the sets are %x %x", cd.SPS, cd.PPS)
			}
			same := sameSets(oldb.SPS, si, sps) && sameSets(oldb.PPS, pi, pps)
			if cd.Equal(*oldb) != same {
				c.Fail("Equal %v, the sets are the same: %v", cd.Equal(*oldb), same)
			}
			c.Step(1)
			c.Validated(1)
			c.Outcome(same, k)
		}},
		{Name: "picture parameter set ids", Rule: "all 256 PPS ids with all 32 SPS ids", Run: func(c *mc.Ctx) {
			id, sid := c.Choose(256), c.Choose(32)
			b := hm.PPS(uint64(id), uint64(sid))
			p, err := h264.ParsePPS(b)
			if err != nil || p.Id != uint(id) || p.SPSId != uint(sid) {
				c.Fail("PPS %x parsed as %+v %v, want id %d SPS %d", b, p, err, id, sid)
			}
			cd := h264.NewCodec()
			cd.AddSPSPPS(b)
			if len(cd.PPS) != 1 || !bytes.Equal(cd.PPS[id], b) {
				c.Fail("PPS %d is kept as %x", id, cd.PPS)
			}
			c.Step(1)
			c.Validated(1)
			c.Outcome(id)
		}},
		{Name: "truncation", Rule: "every truncation of the records (with all set counts)", Run: func(c *mc.Ctx) {
			ns, np := c.Choose(4), c.Choose(4)
			var s, p [][]byte
			for i := 0; i < ns; i++ {
				s = append(s, variant(i, i%3))
			}
			for i := 0; i < np; i++ {
				p = append(p, hm.PPS(uint64(i), 0))
			}
			b := writeRecord(s, p, false)
			cut := c.Choose(len(b))
			if cd, err := h264.FromDecoderConfig(b[:cut:cut]); err == nil {
				c.Fail("record cut to %d of %d bytes is accepted: %x %x", cut, len(b), cd.SPS, cd.PPS)
			}
			if cd, err := h264.FromDecoderConfig(b); err != nil || len(cd.SPS) != ns || len(cd.PPS) != np {
				c.Fail("record %x: %v", b, err)
			}
			c.Step(2)
			c.Validated(2)
			c.Outcome(ns, np)
		}},
		{Name: "alteration", Rule: "every single byte of a record set to each of " + fmt.Sprint(deep(tier, 12, 256)) + " values", Run: func(c *mc.Ctx) {
			b := writeRecord([][]byte{variant(0, 1), variant(1, 0)}, [][]byte{hm.PPS(0, 0), hm.PPS(1, 1)}, c.Bool())
			i := c.Choose(len(b))
			vals := []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff, 0x67, 0x68, 0x40, 0x20}
			if tier == "thorough" {
				b[i] = byte(c.Choose(256))
			} else {
				b[i] = vals[c.Choose(len(vals))]
			}
			cd, err := h264.FromDecoderConfig(b)
			if err == nil {
				cd.ToConfig()
				if _, err := parseRecord(cd.ConfigBytes); err != nil {
					c.Fail("record %x leads to bad record %x", b, cd.ConfigBytes)
				}
			}
			c.Step(1)
			c.Validated(1)
			c.Outcome(err != nil)
		}},
		{Name: "short records", Rule: fmt.Sprintf("all byte strings of up to %d bytes over {00,01,02,67,68,e1,ff} after a fixed start", deep(tier, 6, 7)), Run: func(c *mc.Ctx) {
			alpha := []byte{0, 1, 2, 0x67, 0x68, 0xe1, 0xff}
			b := []byte{1, 66, 0, 30, 0xff}[:c.Choose(6)]
			b = append([]byte(nil), b...)
			for n := c.Choose(deep(tier, 7, 8)); n > 0; n-- {
				b = append(b, alpha[c.Choose(len(alpha))])
			}
			cd, err := h264.FromDecoderConfig(b)
			if err == nil {
				cd.ToConfig()
			}
			c.Step(1)
			c.Validated(1)
			c.Outcome(err != nil)
		}},
	}
}

func checkSPS(c *mc.Ctx, s *hm.SPS) {
	b := s.NAL()
	i, err := h264.ParseSPS(b)
	if err != nil {
		c.Fail("SPS %+v (%x): %v", *s, b, err)
	}
	w, h := s.Size()
	if uint64(i.Width) != w || uint64(i.Height) != h {
		c.Fail("SPS %+v (%x) is %dx%d, want %dx%d", *s, b, i.Width, i.Height, w, h)
	}
	if uint64(i.ProfileIdc) != s.Profile || uint64(i.LevelIdc) != s.Level || uint64(i.Id) != s.ID || uint64(i.ConstraintSetFlag) != s.Constraint>>2 {
		c.Fail("SPS %+v (%x) has profile %d level %d id %d constraints %x", *s, b, i.ProfileIdc, i.LevelIdc, i.Id, i.ConstraintSetFlag)
	}
	if uint64(i.MbWidth) != s.W {
		c.Fail("SPS %+v (%x) is %d macroblocks wide, want %d", *s, b, i.MbWidth, s.W)
	}
	if s.Crop && (uint64(i.CropLeft) != s.L || uint64(i.CropRight) != s.R || uint64(i.CropTop) != s.T || uint64(i.CropBottom) != s.B) || !s.Crop && (i.CropLeft|i.CropRight|i.CropTop|i.CropBottom) != 0 {
		c.Fail("SPS %+v (%x) has cropping %+v", *s, b, i)
	}
	fps := uint64(0)
	if s.VUI != nil && s.VUI.Timing {
		fps = s.VUI.Scale / (2 * s.VUI.Units)
	}
	if uint64(i.FPS) != fps {
		c.Fail("SPS %+v (%x) has %d frames per second, want %d", *s, b, i.FPS, fps)
	}
	id, err := h264.ParseSPSId(b)
	if err != nil || uint64(id) != s.ID {
		c.Fail("SPS %x has id %d (%v), want %d", b, id, err, s.ID)
	}
	cd := h264.NewCodec()
	cd.AddSPSPPS(b)
	if cd.W != int(w) || cd.H != int(h) || !bytes.Equal(cd.SPS[int(s.ID)], b) {
		c.Fail("SPS %x gives a codec of %dx%d", b, cd.W, cd.H)
	}
	if r := h264.RemoveH264orH265EmulationBytes(b); !bytes.Equal(r, s.RBSP()) {
		c.Fail("%x without emulation prevention is %x, want %x", b, r, s.RBSP())
	}
	c.Step(1)
	c.Validated(1)
	c.State(string(b))
	c.Outcome(w, h, i.FPS)
	c.Sample(func() string { return fmt.Sprintf("%x is %dx%d", b, w, h) })
}

var profiles = []uint64{66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

func pick64(c *mc.Ctx, l ...uint64) uint64 { return l[c.Choose(len(l))] }

func crop(c *mc.Ctx, s *hm.SPS) {
	k := [][4]uint64{{}, {0, 0, 0, 4}, {1, 2, 3, 4}, {0, 5, 0, 0}, {1, 0, 0, 0}, {0, 0, 1, 0}, {}}
	i := c.Choose(len(k))
	s.Crop = i > 0
	s.L, s.R, s.T, s.B = k[i][0], k[i][1], k[i][2], k[i][3]
}

func lists(c *mc.Ctx, s *hm.SPS) {
	pats := [][]int64{nil, {-8}, {0}, {8, -4, 4, 100, -100}, {127, -128, 1}, {127, 121}, {120, 5, -3, 7}, {100, 127, 21}, {-128, 120}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {4, 4, -16}}
	n := 8
	if s.Chroma == 3 {
		n = 12
	}
	// one list of each place with a pattern, the others one of two patterns
	at, pat, rest := c.Choose(n), c.Choose(len(pats)), c.Choose(3)
	for i := 0; i < n; i++ {
		s.Lists[i] = [][]int64{nil, {-8}, {3, 5}}[rest]
	}
	s.Lists[at] = pats[pat]
	s.Matrix = true
}

func vui(c *mc.Ctx) *hm.VUI {
	v := &hm.VUI{Aspect: -1, Overscan: -1}
	switch c.Choose(4) {
	case 1:
		v.Aspect = 1
	case 2:
		v.Aspect, v.SarW, v.SarH = 255, 0, 1
	case 3:
		v.Aspect, v.SarW, v.SarH = 255, 65535, 40
	}
	v.Overscan = c.Choose(3) - 1
	switch c.Choose(3) {
	case 1:
		v.Signal = true
	case 2:
		v.Signal, v.Colour = true, true
	}
	switch c.Choose(3) {
	case 1:
		v.ChromaLoc = true
	case 2:
		v.ChromaLoc, v.LocTop, v.LocBot = true, 5, 3
	}
	v.Timing = c.Bool()
	if v.Timing {
		t := [][2]uint64{{1, 50}, {1001, 60000}, {1, 1}, {1, 1<<32 - 1}, {1<<32 - 1, 1<<32 - 1}, {1<<32 - 1, 1}, {0x10000, 0x600000}, {1, 3}, {500, 29970}, {1 << 31, 1<<32 - 2}}
		x := t[c.Choose(len(t))]
		v.Units, v.Scale = x[0], x[1]
		v.Fixed = c.Bool()
	}
	switch c.Choose(3) {
	case 1:
		v.HRD = true
	case 2:
		v.Restricted = true
	}
	return v
}

func h03(tier string) []mc.Exploration {
	th := tier == "thorough"
	base := func(c *mc.Ctx) *hm.SPS {
		s := hm.Basic(0, 20, 15)
		s.Profile, s.Chroma = 100, 1
		return s
	}
	return []mc.Exploration{
		{Name: "profiles and chroma", Rule: "all profiles x chroma formats (separate planes included) x bit depths x scaling lists at every place x frame and field coding x cropping", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = profiles[c.Choose(len(profiles))]
			if hm.High(s.Profile) {
				s.Chroma = pick64(c, 0, 1, 2, 3)
				s.Separate = s.Chroma == 3 && c.Bool()
				s.DepthL, s.DepthC = pick64(c, 0, 6), pick64(c, 0, 6)
				s.Bypass = c.Bool()
				if c.Bool() {
					if !th && (s.DepthL+s.DepthC != 0 || s.Bypass) {
						c.Prune()
					}
					lists(c, s)
				}
			}
			s.Fields = c.Bool()
			if th || !s.Matrix {
				crop(c, s)
			}
			checkSPS(c, s)
		}},
		{Name: "dimensions", Rule: "widths and heights at boundaries x frame, field and adaptive coding x chroma format x cropping", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = pick64(c, 66, 100)
			if s.Profile == 100 {
				s.Chroma = pick64(c, 0, 1, 2, 3)
			}
			s.W = pick64(c, 1, 2, 20, 45, 80, 120, 240, 256, 1024, 4096)
			s.H = pick64(c, 1, 2, 15, 36, 45, 68, 135, 255, 1024)
			s.Fields = c.Bool()
			s.MBAFF = s.Fields && c.Bool()
			s.Direct = c.Bool()
			crop(c, s)
			if w, h := s.Size(); w == 0 || h == 0 || w > 1<<40 || h > 1<<40 {
				c.Prune()
			}
			checkSPS(c, s)
		}},
		{Name: "order counts", Rule: "picture order count types, offsets at the ends of their range, cycles of up to 255, reference frames, gaps, frame numbers", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = pick64(c, 66, 100)
			s.Log2Frame = pick64(c, 0, 1, 12)
			s.POC = pick64(c, 0, 1, 2)
			switch s.POC {
			case 0:
				s.Log2POC = pick64(c, 0, 4, 12)
			case 1:
				off := []int64{0, 1, -1, 1 << 30, 1<<31 - 1, -1<<31 + 1, 1 << 15, -255}
				s.DeltaZero = c.Bool()
				s.NonRef = off[c.Choose(len(off))]
				s.TopBottom = off[c.Choose(len(off))]
				n := []int{0, 1, 2, 7, 255}[c.Choose(5)]
				k := c.Choose(len(off))
				for i := 0; i < n; i++ {
					s.Cycle = append(s.Cycle, off[(i+k)%len(off)])
				}
			}
			s.Refs = pick64(c, 0, 1, 16)
			s.Gaps = c.Bool()
			s.Fields = c.Bool()
			checkSPS(c, s)
		}},
		{Name: "identifiers", Rule: "all profiles x constraint flags x levels x ids", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = profiles[c.Choose(len(profiles))]
			s.Constraint = pick64(c, 0, 0x40, 0x80, 0xc0, 0x10, 0xfc, 0x04)
			s.Level = pick64(c, 9, 10, 11, 30, 31, 42, 51, 62)
			s.ID = uint64(c.Choose(32))
			checkSPS(c, s)
		}},
		{Name: "usability information", Rule: "all combinations of the parts before the timing, timings at boundaries and the parts after it", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = pick64(c, 66, 100)
			s.VUI = vui(c)
			s.Crop = c.Bool()
			s.B = 4
			checkSPS(c, s)
		}},
		{Name: "truncation", Rule: "every truncation of parameter sets with every part", Run: func(c *mc.Ctx) {
			s := base(c)
			s.Profile = pick64(c, 66, 100, 244)
			if s.Profile == 244 {
				s.Chroma = 3
			}
			if s.Profile != 66 {
				lists(c, s)
			}
			s.POC = 1
			s.Cycle = []int64{1, -300, 5}
			s.Crop, s.R, s.B = true, 1, 4
			s.VUI = &hm.VUI{Aspect: 255, SarW: 4, SarH: 3, Overscan: 1, Signal: true, Colour: true, ChromaLoc: true, Timing: true, Units: 1, Scale: 50, HRD: true, Restricted: true}
			b := s.NAL()
			cut := c.Choose(len(b))
			_, err := h264.ParseSPS(b[:cut:cut])
			h264.ParseSPSId(b[:cut:cut])
			h264.ParsePPS(b[:cut:cut])
			h264.NewCodec().AddSPSPPS(b[:cut:cut])
			if err == nil && cut < 8 {
				c.Fail("SPS cut to %x is accepted", b[:cut])
			}
			c.Step(1)
			c.Validated(1)
			c.Outcome(cut, err != nil)
		}},
		{Name: "alteration", Rule: "every byte of three parameter sets set to each of 256 values", Run: func(c *mc.Ctx) {
			s := base(c)
			switch c.Choose(3) {
			case 1:
				s.Chroma, s.Matrix, s.Lists[0], s.Lists[7] = 2, true, []int64{1, 2, -4}, []int64{-8}
			case 2:
				s.POC, s.Cycle, s.VUI = 1, []int64{1, 2, 3}, &hm.VUI{Aspect: 255, Overscan: 0, Timing: true, Units: 1, Scale: 50}
			}
			b := s.NAL()
			b[c.Choose(len(b))] = byte(c.Choose(256))
			_, err := h264.ParseSPS(b)
			h264.ParseSPSId(b)
			h264.NewCodec().AddSPSPPS(b)
			c.Step(1)
			c.Validated(1)
			c.Outcome(err != nil)
		}},
		{Name: "short strings", Rule: fmt.Sprintf("all byte strings of up to %d bytes over {00,03,64,80,ff,01} after an SPS or PPS header, also as emulation-prevented data", deep(tier, 7, 9)), Run: func(c *mc.Ctx) {
			alpha := []byte{0, 3, 100, 0x80, 0xff, 1}
			b := []byte{0x67}
			if c.Bool() {
				b[0] = 0x68
			}
			for n := c.Choose(deep(tier, 8, 10)); n > 0; n-- {
				b = append(b, alpha[c.Choose(len(alpha))])
			}
			_, err := h264.ParseSPS(b)
			h264.ParseSPSId(b)
			h264.ParsePPS(b)
			h264.NewCodec().AddSPSPPS(b)
			r := h264.RemoveH264orH265EmulationBytes(b)
			if want := unescape(b); !bytes.Equal(r, want) {
				c.Fail("%x without emulation prevention is %x, want %x", b, r, want)
			}
			c.Step(1)
			c.Validated(1)
			c.State(string(b))
			c.Outcome(err != nil)
		}},
	}
}

// unescape drops each 03 after two zero bytes.
func unescape(b []byte) (out []byte) {
	z := 0
	for _, x := range b {
		if z >= 2 && x == 3 {
			z = 0
			continue
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}
