H='codec/h264/h264.go'; A='codec/aac/aac.go'
seed('h01-long-unit', 'H01', [(H, '		if blen > uint32(len(b)-i) {', '		if blen > uint32(len(b)-i) || blen>>16 != 0 && len(out) > 0 {')],
 'codec/h264', '''package h264
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	a, b := []byte{9, 0xf0}, append([]byte{0x65}, bytes.Repeat([]byte{7}, 70000)...)
	out, typ := SplitNALUs(JoinNALUsAVCC([][]byte{a, b}))
	if typ != NALU_AVCC || len(out) != 2 || !bytes.Equal(out[1], b) { t.Fatal(typ, len(out)) }
}
''', 'a unit of 64 KiB or more after another one, in length-prefixed form', 'large second units make the length-prefixed form unrecognised')
seed('h01-state-kept', 'H01', [(H, '''				cut(i-s, i+1)
			}
			s = S
		default:''', '''				cut(i-s, i+1)
				s = S
			}
		case 3:
		default:''')],
 'codec/h264', '''package h264
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	a, b := []byte{0x65, 1, 2, 0, 0, 3, 1, 0x80}, []byte{0x41, 9, 9}
	out, typ := SplitNALUs(JoinNALUsAnnexb([][]byte{a, b}))
	if typ != NALU_ANNEXB || len(out) != 2 || !bytes.Equal(out[0], a) { t.Fatalf("%d %x", typ, out) }
}
''', 'a unit whose emulation-prevented data is 00 00 03 01', 'emulation prevention before 01 is taken for a start code')
seed('h02-pps-alias', 'H02', [(H, 'c.PPS[int(info.Id)] = append([]byte(nil), b...)', 'c.PPS[int(info.Id)] = b')],
 'codec/h264', '''package h264
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	pps := []byte{0x68, 0xce, 0x3c, 0x80}
	b := append([]byte(nil), pps...)
	c := NewCodec()
	c.AddSPSPPS(b)
	for i := range b { b[i] = 0 }
	if !bytes.Equal(c.PPS[0], pps) { t.Fatalf("%x", c.PPS) }
}
''', 'the buffer a picture parameter set came in is reused afterwards', 'picture parameter sets change under the codec')
seed('h02-equal-sps', 'H02', [(H, '''	for _, b := range Map2arr(c.PPS) {
		h.Write(b)
	}
	c.hash''', '''	for _, b := range Map2arr(c.PPS) {
		if len(c.SPS) > 1 {
			break
		}
		h.Write(b)
	}
	c.hash''')],
 'codec/h264', '''package h264
import ("testing";"encoding/hex")
func TestDemo(t *testing.T) {
	s0, _ := hex.DecodeString("6742c01e095a0507e4")
	s1, _ := hex.DecodeString("6742c01e5681e1f9")
	c, d := NewCodec(), NewCodec()
	for _, x := range []*Codec{c, d} { x.AddSPSPPS(s0); x.AddSPSPPS(s1) }
	c.AddSPSPPS([]byte{0x68, 0xce, 0x3c, 0x80})
	d.AddSPSPPS([]byte{0x68, 0xce, 0x38, 0x80})
	if len(c.SPS) != 2 || c.Equal(*d) { t.Fatal("equal") }
}
''', 'codecs with two sequence parameter sets that differ in a picture parameter set', 'Equal ignores picture parameter sets of codecs with several SPS')
seed('h02-id-fold', 'H02', [(H, 'c.SPS[int(si.Id)] =', 'c.SPS[int(si.Id&0xf)] =')],
 'codec/h264', '''package h264
import ("testing";"encoding/hex")
func TestDemo(t *testing.T) {
	s0, _ := hex.DecodeString("6742c01e095a0507e4") // id 17
	s1, _ := hex.DecodeString("6742c01e5681e1f9") // id 1
	c := NewCodec()
	c.AddSPSPPS(s0)
	c.AddSPSPPS(s1)
	c.ToConfig()
	d, err := FromDecoderConfig(c.ConfigBytes)
	if err != nil || len(d.SPS) != 2 { t.Fatal(err, len(d.SPS)) }
}
''', 'two SPS whose ids differ by sixteen', 'one of the parameter sets is lost')
seed('h03-scale-wrap', 'H03', [(H, 'nextScale = (lastScale + delta_scale + 256) % 256', 'nextScale = lastScale + delta_scale')],
 'codec/h264', '''package h264
import ("testing";"encoding/hex")
func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString("6764c01ead80fe01e402d0283f20")
	s, err := ParseSPS(b)
	if err != nil || s.Width != 320 || s.Height != 240 { t.Fatal(s, err) }
}
''', 'a scaling list whose deltas add up to 256', 'the list does not end where it should and the size is wrong')
seed('h03-poc-flag', 'H03', [(H, '''		// delta_pic_order_always_zero_flag
		if _, err = r.ReadBit(); err != nil {
			return
		}
		// offset_for_non_ref_pic
		if _, err = r.ReadSE(); err != nil {
			return
		}
''', '''		// delta_pic_order_always_zero_flag
		var zero uint
		if zero, err = r.ReadBit(); err != nil {
			return
		}
		// offset_for_non_ref_pic
		if zero == 0 {
			if _, err = r.ReadSE(); err != nil {
				return
			}
		}
''')],
 'codec/h264', '''package h264
import ("testing";"encoding/hex")
func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString("6742c01ed664440a0fc8")
	s, err := ParseSPS(b)
	if err != nil || s.Width != 320 || s.Height != 240 { t.Fatal(s, err) }
}
''', 'picture order count type 1 with delta_pic_order_always_zero_flag set', 'the size of such streams is wrong')
seed('h03-emulation-run', 'H03', [(H, '''			j = j + 2
			i = i + 3
''', '''			j = j + 2
			i = i + 3
			if i < len(b) {
				r[j] = b[i]
				j, i = j+1, i+1
			}
''')],
 'codec/h264', '''package h264
import ("testing";"encoding/hex")
func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString("6742c01ed000000300040000030000030000030008000003000a0507e4")
	s, err := ParseSPS(b)
	if err != nil || s.Width != 320 || s.Height != 240 { t.Fatal(s, err) }
}
''',
 'two emulation prevention bytes three bytes apart (four zero bytes in a row)', 'the second one is not removed')
seed('c01-escape-bits', 'C01', [(A, '		if err = w.WriteBits(objectType-32, 6); err != nil {', '		if err = w.WriteBits((objectType-32)&0x1f, 6); err != nil {')],
 'codec/aac', '''package aac
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	var w bytes.Buffer
	WriteMPEG4AudioConfig(&w, MPEG4AudioConfig{ObjectType: 70, SampleRateIndex: 3, ChannelConfig: 2})
	c, err := ParseMPEG4AudioConfigBytes(w.Bytes())
	if err != nil || c.ObjectType != 70 { t.Fatal(c, err) }
}
''', 'an object type of 64 or more', 'the object type is written wrongly')
seed('c01-last-rate', 'C01', [(A, 'if int(c.SampleRateIndex) < len(sampleRateTable) {', 'if int(c.SampleRateIndex) < len(sampleRateTable)-1 {')],
 'codec/aac', '''package aac
import ("testing")
func TestDemo(t *testing.T) {
	c, err := ParseMPEG4AudioConfigBytes([]byte{0x16, 0x08})
	if err != nil || c.SampleRate != 7350 { t.Fatal(c, err) }
}
''', 'the last legal sample rate index, 12', 'streams of 7350 Hz are refused')
seed('c02-long-frame', 'C02', [(A, 'header[3] = header[3]&0xfc | byte(payloadLength>>11)&0x3', 'header[3] = header[3]&0xfc | byte(payloadLength>>11)&0x1')],
 'codec/aac', '''package aac
import ("testing")
func TestDemo(t *testing.T) {
	h := make([]byte, 7)
	FillADTSHeader(h, MPEG4AudioConfig{ObjectType: 2, SampleRateIndex: 3, ChannelConfig: 2}, 1024, 5000)
	_, _, n, _, err := ParseADTSHeader(h)
	if err != nil || n != 5007 { t.Fatal(n, err) }
}
''', 'a frame of 4096 bytes or more', 'the frame length is written without its top bit')
seed('c02-crc-short', 'C02', [(A, '''	hdrlen = 7
	if frame[1]&0x1 == 0 {
		hdrlen = 9
	}
	if framelen < hdrlen {
		err = fmt.Errorf("aacparser: adts framelen < hdrlen")
		return
	}
''', '''	hdrlen = 7
	if framelen < hdrlen {
		err = fmt.Errorf("aacparser: adts framelen < hdrlen")
		return
	}
	if frame[1]&0x1 == 0 {
		hdrlen = 9
	}
''')],
 'codec/aac', '''package aac
import ("testing")
func TestDemo(t *testing.T) {
	h := make([]byte, 7)
	FillADTSHeader(h, MPEG4AudioConfig{ObjectType: 2, SampleRateIndex: 3, ChannelConfig: 2}, 1024, 1)
	h[1] = 0xf0
	if _, hl, n, _, err := ParseADTSHeader(h); err == nil { t.Fatal(hl, n) }
}
''', 'a header with CRC whose frame length is 7 or 8', 'a frame shorter than its header is accepted')
