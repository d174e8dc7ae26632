T0 = '''package flvio
import ("testing";"time";"strings")
var _ = time.Now
var _ = strings.Repeat
func TestDemo(t *testing.T) {
'''
seed('a01-string-65536', 'A01', [('format/flv/flvio/amf0.go', '		if u < 65536 {\n', '		if u>>16 == 0 || u == 1<<16 {\n')],
 'format/flv/flvio', T0 + '''	s := strings.Repeat("x", 65536)
	b := FillAMF0ValMalloc(s)
	n := 0
	v, err := ParseAMF0Val(b, &n)
	if v != s || err != nil || n != len(b) { t.Fatal(n, len(b), err) }
}
''', 'a string of exactly 65536 bytes', 'its 16-bit length wraps to zero, so the string and everything after it is unreadable')
seed('a01-date-before-epoch', 'A01', [('format/flv/flvio/amf0.go', '		f := float64(u / 1000000)\n', '		f := float64(u/1000000000)*1000 + float64(val.Nanosecond()/1000000)\n')],
 'format/flv/flvio', T0 + '''	x := time.Unix(-5, 123e6)
	b := FillAMF0ValMalloc(x)
	n := 0
	v, _ := ParseAMF0Val(b, &n)
	if !v.(time.Time).Equal(x) { t.Fatal(v, x) }
}
''', 'a date before 1970 that is not on a whole second', 'the encoded date is one second off')
seed('a02-ecma-count', 'A02', [('format/flv/flvio/amf0.go', '		if _, err = pio.ReadU32BE(b, n); err != nil {\n			err = amfParseErr("array.count", b, *n, err)\n			return\n		}\n\n		obj := amfMembers{m: AMFMap{}}\n		for {\n', '		var hint uint32\n		if hint, err = pio.ReadU32BE(b, n); err != nil {\n			err = amfParseErr("array.count", b, *n, err)\n			return\n		}\n\n		obj := amfMembers{m: AMFMap{}}\n		for i := uint32(1); ; i++ {\n			if hint != 0 && i > hint+1 {\n				*n--\n				break\n			}\n')],
 'format/flv/flvio', T0 + '''	b := []byte{8, 0, 0, 0, 1, 0, 1, 'a', 5, 0, 1, 'b', 5, 0, 1, 'c', 5, 0, 0, 9, 1, 1}
	vals, err := ParseAMFVals(b, false)
	if err != nil || len(vals) != 2 || len(vals[0].(AMFMap)) != 3 { t.Fatal(vals, err) }
}
''', 'an associative array whose count (which is only a hint) is at least two smaller than its number of pairs', 'the array is cut short and the following values are misread')
seed('a02-amf3-date', 'A02', [('format/flv/flvio/amf3.go', '	t, err := readBEFloat64(b, n)\n	ts := int64(t)\n	val = time.Unix(ts/1000, (ts%1000)*1000000)\n', '	t, err := readBEFloat64(b, n)\n	ts := int64(t)\n	val = time.Unix(0, int64(int32(ts%1000))*1000000).Add(time.Duration(ts/1000*1000) * time.Millisecond)\n	if ts < 0 && ts%1000 != 0 {\n		val = val.Truncate(time.Second)\n	}\n')],
 'format/flv/flvio', T0 + '''	b := []byte{8, 1, 0xc0, 0xb3, 0x0d, 0, 0, 0, 0, 0}
	n := 0
	v, err := ParseAMF3Val(b, &n)
	if err != nil || v.(time.Time).UnixNano() != -4877000000 { t.Fatal(v, err) }
}
''', 'an AMF3 date before 1970 with a millisecond part', 'the decoded date loses its milliseconds')
seed('a03-long-string', 'A03', [('format/flv/flvio/amf0.go', '		if val, err = pio.ReadString(b, n, int(length)); err != nil {\n			err = amfParseErr("longstring.body", b, *n, err)\n			return\n		}\n', '		val = string(b[*n : *n+int(length)])\n		*n += int(length)\n')],
 'format/flv/flvio', T0 + '''	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	b := make([]byte, 10)
	b[0], b[4] = 12, 8
	n := 0
	_, err := ParseAMF0Val(b[:len(b):len(b)], &n)
	if err == nil { t.Fatal("no error") }
}
''', 'a long string whose length exceeds the rest of the message but not the whole message', 'slice out of range panic')
seed('a03-amf3-prealloc', 'A03', [('format/flv/flvio/amf3.go', '	l = l >> 1\n	var k string\n	obj :=', '	l = l >> 1\n	var k = ""\n	all := make(AMFMap, 0, l)\n	obj :='), ('format/flv/flvio/amf3.go', '	if l == 0 {\n		return\n	}\n	for i', '	if l <= 0 {\n		return\n	}\n	val = append(all, val...)\n	for i')],
 'format/flv/flvio', '''package flvio
import ("testing";"runtime")
func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	n := 0
	ParseAMF3Val([]byte{9, 0x87, 0xff, 0xff, 0xff}, &n)
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<24 { t.Fatal(b.TotalAlloc-a.TotalAlloc) }
}
''', 'an AMF3 array that declares a huge dense count', 'memory is reserved from the declared count before any element is read')
