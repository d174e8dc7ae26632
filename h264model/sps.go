// Package h264model writes H.264 parameter sets from the standard's syntax
// tables (ITU-T H.264 7.3.2.1), independently of joy5.
package h264model

// Bits is a bit string under construction.
type Bits struct {
	b []byte
	n int
}

// U writes v in n bits.
func (w *Bits) U(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.b[len(w.b)-1] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

// UE writes an unsigned Exp-Golomb code.
func (w *Bits) UE(v uint64) {
	x, l := v+1, 0
	for x>>uint(l) > 1 {
		l++
	}
	w.U(0, l)
	w.U(x, l+1)
}

// SE writes a signed Exp-Golomb code.
func (w *Bits) SE(v int64) {
	if v > 0 {
		w.UE(uint64(2*v - 1))
	} else {
		w.UE(uint64(-2 * v))
	}
}

// Flag writes one bit.
func (w *Bits) Flag(v bool) {
	if v {
		w.U(1, 1)
	} else {
		w.U(0, 1)
	}
}

// Trailing ends an RBSP.
func (w *Bits) Trailing() []byte {
	w.U(1, 1)
	for w.n%8 != 0 {
		w.U(0, 1)
	}
	return w.b
}

// Escape makes a NAL unit of an RBSP (with its header byte).
func Escape(b []byte) []byte {
	var out []byte
	z := 0
	for _, c := range b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// VUI is the video usability information up to the timing.
type VUI struct {
	Aspect          int // -1 absent, 255 extended
	SarW, SarH      uint64
	Overscan        int // -1 absent
	Signal          bool
	Colour          bool
	ChromaLoc       bool
	LocTop, LocBot  uint64
	Timing          bool
	Units, Scale    uint64
	Fixed           bool
	HRD, Restricted bool
}

// SPS is a sequence parameter set.
type SPS struct {
	Profile, Constraint, Level uint64
	ID                         uint64
	Chroma                     uint64
	Separate                   bool
	DepthL, DepthC             uint64
	Bypass                     bool
	Matrix                     bool
	Lists                      [12][]int64 // nil absent, else deltas until the list is known
	Log2Frame                  uint64
	POC                        uint64
	Log2POC                    uint64
	DeltaZero                  bool
	NonRef, TopBottom          int64
	Cycle                      []int64
	Refs                       uint64
	Gaps                       bool
	W, H                       uint64 // in macroblocks / map units
	Fields                     bool   // not frame_mbs_only
	MBAFF                      bool
	Direct                     bool
	Crop                       bool
	L, R, T, B                 uint64
	VUI                        *VUI
}

// High tells whether the profile has chroma information.
func High(p uint64) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

// Size is the cropped size of a frame in luma samples.
func (s *SPS) Size() (w, h uint64) {
	chroma := uint64(1)
	if High(s.Profile) {
		chroma = s.Chroma
		if s.Separate {
			chroma = 0
		}
	}
	f := uint64(1)
	if s.Fields {
		f = 2
	}
	cx, cy := uint64(1), f
	if chroma == 1 || chroma == 2 {
		cx = 2
	}
	if chroma == 1 {
		cy = 2 * f
	}
	w, h = 16*s.W, 16*s.H*f
	if s.Crop {
		w -= cx * (s.L + s.R)
		h -= cy * (s.T + s.B)
	}
	return
}

// RBSP is the parameter set with its header byte, without emulation prevention.
func (s *SPS) RBSP() []byte {
	w := &Bits{}
	w.U(0x67, 8)
	w.U(s.Profile, 8)
	w.U(s.Constraint, 8)
	w.U(s.Level, 8)
	w.UE(s.ID)
	if High(s.Profile) {
		w.UE(s.Chroma)
		if s.Chroma == 3 {
			w.Flag(s.Separate)
		}
		w.UE(s.DepthL)
		w.UE(s.DepthC)
		w.Flag(s.Bypass)
		w.Flag(s.Matrix)
		if s.Matrix {
			n := 8
			if s.Chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				w.Flag(s.Lists[i] != nil)
				if s.Lists[i] == nil {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				last, next := int64(8), int64(8)
				for j := 0; j < size; j++ {
					if next != 0 {
						d := int64(0)
						if j < len(s.Lists[i]) {
							d = s.Lists[i][j]
						}
						w.SE(d)
						next = ((last+d)%256 + 256) % 256
					}
					if next != 0 {
						last = next
					}
				}
			}
		}
	}
	w.UE(s.Log2Frame)
	w.UE(s.POC)
	switch s.POC {
	case 0:
		w.UE(s.Log2POC)
	case 1:
		w.Flag(s.DeltaZero)
		w.SE(s.NonRef)
		w.SE(s.TopBottom)
		w.UE(uint64(len(s.Cycle)))
		for _, x := range s.Cycle {
			w.SE(x)
		}
	}
	w.UE(s.Refs)
	w.Flag(s.Gaps)
	w.UE(s.W - 1)
	w.UE(s.H - 1)
	w.Flag(!s.Fields)
	if s.Fields {
		w.Flag(s.MBAFF)
	}
	w.Flag(s.Direct)
	w.Flag(s.Crop)
	if s.Crop {
		w.UE(s.L)
		w.UE(s.R)
		w.UE(s.T)
		w.UE(s.B)
	}
	w.Flag(s.VUI != nil)
	if v := s.VUI; v != nil {
		w.Flag(v.Aspect >= 0)
		if v.Aspect >= 0 {
			w.U(uint64(v.Aspect), 8)
			if v.Aspect == 255 {
				w.U(v.SarW, 16)
				w.U(v.SarH, 16)
			}
		}
		w.Flag(v.Overscan >= 0)
		if v.Overscan >= 0 {
			w.U(uint64(v.Overscan), 1)
		}
		w.Flag(v.Signal)
		if v.Signal {
			w.U(5, 3)
			w.Flag(false)
			w.Flag(v.Colour)
			if v.Colour {
				w.U(1, 8)
				w.U(0, 8)
				w.U(0, 8)
			}
		}
		w.Flag(v.ChromaLoc)
		if v.ChromaLoc {
			w.UE(v.LocTop)
			w.UE(v.LocBot)
		}
		w.Flag(v.Timing)
		if v.Timing {
			w.U(v.Units, 32)
			w.U(v.Scale, 32)
			w.Flag(v.Fixed)
		}
		for i := 0; i < 2; i++ {
			w.Flag(v.HRD)
			if v.HRD {
				w.UE(0)
				w.U(0, 8)
				w.UE(1000)
				w.UE(1000)
				w.Flag(true)
				w.U(0, 20)
			}
		}
		if v.HRD {
			w.Flag(true)
		}
		w.Flag(false)
		w.Flag(v.Restricted)
		if v.Restricted {
			w.Flag(true)
			for i := 0; i < 6; i++ {
				w.UE(uint64(i))
			}
		}
	}
	return w.Trailing()
}

// NAL is the parameter set as a NAL unit.
func (s *SPS) NAL() []byte { return Escape(s.RBSP()) }

// Basic is a small baseline parameter set.
func Basic(id, w, h uint64) *SPS {
	return &SPS{Profile: 66, Constraint: 0xc0, Level: 30, ID: id, POC: 2, Refs: 1, W: w, H: h, Direct: true}
}

// PPS is a picture parameter set.
func PPS(id, sps uint64) []byte {
	w := &Bits{}
	w.U(0x68, 8)
	w.UE(id)
	w.UE(sps)
	w.Flag(false)
	w.Flag(false)
	w.UE(0)
	w.UE(0)
	w.UE(0)
	w.Flag(false)
	w.U(0, 2)
	w.SE(0)
	w.SE(0)
	w.SE(0)
	w.Flag(true)
	w.Flag(false)
	w.Flag(false)
	return Escape(w.Trailing())
}

// Len is the number of bits.
func (w *Bits) Len() int { return w.n }

// Pad returns the bits with zeros up to a whole byte.
func (w *Bits) Pad() []byte { return append([]byte(nil), w.b...) }
