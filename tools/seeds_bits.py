seed('b01-reader-refill', 'B01', [('utils/bits/bits.go', '	bits = r.bits >> uint(r.n-n)\n	r.bits ^= bits << uint(r.n-n)\n', '	bits = r.bits >> uint(r.n-n)\n	if r.n-n < 32 {\n		r.bits &= 1<<uint(r.n-n) - 1\n	}\n	bits &= 1<<uint(n) - 1\n	if n > 40 {\n		r.bits = 0\n	}\n')],
 'utils/bits', '''package bits
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	r := &Reader{R: bytes.NewReader([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})}
	r.ReadBits64(3)
	r.ReadBits64(46)
	if v, err := r.ReadBits64(5); v != 0x1f || err != nil { t.Fatal(v, err) }
}
''', 'a field wider than 40 bits that ends inside a byte, followed by another field', 'bits left over after a wide field are lost')
seed('b01-write-fail', 'B01', [('utils/bits/bits.go', '		if _, err = w.W.Write(b[:want]); err != nil {\n			return\n		}\n		w.n = 0\n', '		w.n = 0\n		if _, err = w.W.Write(b[:want]); err != nil && want == 8 {\n			return\n		}\n		err = nil\n')],
 'utils/bits', '''package bits
import ("testing";"errors")
type fw struct{}
func (fw) Write(p []byte) (int, error) { return 0, errors.New("x") }
func TestDemo(t *testing.T) {
	w := &Writer{W: fw{}}
	w.WriteBits(1, 5)
	if w.FlushBits() == nil { t.Fatal("no error") }
}
''', 'a write error on the final partial flush', 'a failed flush of a partial word is swallowed')
seed('b02-long-codes', 'B02', [('utils/bits/golomb_reader.go', 'if !(bit == 0 && i < 32) {', 'if !(bit == 0 && i < 30) {')],
 'utils/bits', '''package bits
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	r := &GolombBitReader{R: bytes.NewReader([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0xff})}
	if v, err := r.ReadExponentialGolombCode(); v != 1<<31-1 || err != nil { t.Fatal(v, err) }
}
''', 'an Exp-Golomb code with 31 leading zero bits', 'codes of 2^31-1 and more are decoded wrongly')
seed('b03-vec-boundary', 'B03', [('utils/bits/pio/vec.go', '''		left -= read
		off += read
		s -= read
		e -= read
		if left == 0 {
			i++
			off = 0
		}
	}
	if s > 0 {''', '''		left -= read
		off += read
		s -= read
		e -= read
		if left == 0 && s > 0 {
			i++
			off = 0
		}
	}
	if i < len(in) && off == len(in[i]) && len(in[i]) == 1 {
		off = 0
	}
	if s > 0 {''')],
 'utils/bits/pio', '''package pio
import ("testing")
func TestDemo(t *testing.T) {
	in := [][]byte{{1}, {2, 3}}
	out := make([][]byte, 3)
	n := VecSliceTo(in, out, 1, 3)
	var b []byte
	for _, x := range out[:n] { b = append(b, x...) }
	if string(b) != "\\x02\\x03" { t.Fatal(b) }
}
''', 'a range starting exactly after a one-byte slice', 'a byte before the range is returned')
