package rtmpmodel

import (
	"encoding/binary"
	"fmt"
	"math"
)

// KV is one member of an AMF0 object.
type KV struct {
	K string
	V interface{}
}
type Obj []KV
type ECMA []KV
type Undef struct{}
type Arr []interface{}

func (o Obj) Get(k string) interface{} {
	for _, kv := range o {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}

// AMF0 encodes values: float64, int, bool, string, nil, Undef, Obj, ECMA, Arr.
func AMF0(vals ...interface{}) []byte {
	var b []byte
	for _, v := range vals {
		switch x := v.(type) {
		case int:
			b = append(b, 0)
			b = binary.BigEndian.AppendUint64(b, math.Float64bits(float64(x)))
		case float64:
			b = append(b, 0)
			b = binary.BigEndian.AppendUint64(b, math.Float64bits(x))
		case bool:
			if x {
				b = append(b, 1, 1)
			} else {
				b = append(b, 1, 0)
			}
		case string:
			b = append(b, 2, byte(len(x)>>8), byte(len(x)))
			b = append(b, x...)
		case nil:
			b = append(b, 5)
		case Undef:
			b = append(b, 6)
		case Obj:
			b = append(b, 3)
			b = kvs(b, x)
		case ECMA:
			b = append(b, 8)
			b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
			b = kvs(b, x)
		case Arr:
			b = append(b, 10)
			b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
			b = append(b, AMF0(x...)...)
		default:
			panic(fmt.Sprintf("AMF0 %T", v))
		}
	}
	return b
}

func kvs(b []byte, o []KV) []byte {
	for _, kv := range o {
		b = append(b, byte(len(kv.K)>>8), byte(len(kv.K)))
		b = append(b, kv.K...)
		b = append(b, AMF0(kv.V)...)
	}
	return append(b, 0, 0, 9)
}

// ParseAMF0 decodes all values of b strictly.
func ParseAMF0(b []byte) (vals []interface{}, err error) {
	for len(b) > 0 {
		var v interface{}
		if v, b, err = one(b); err != nil {
			return
		}
		vals = append(vals, v)
	}
	return
}

func one(b []byte) (v interface{}, rest []byte, err error) {
	short := fmt.Errorf("short AMF0 value")
	if len(b) < 1 {
		return nil, nil, short
	}
	m := b[0]
	b = b[1:]
	members := func() (o []KV, err error) {
		for {
			if len(b) < 3 {
				return nil, short
			}
			n := int(b[0])<<8 | int(b[1])
			if n == 0 {
				if b[2] != 9 {
					return nil, fmt.Errorf("bad object end")
				}
				b = b[3:]
				return
			}
			if len(b) < 2+n {
				return nil, short
			}
			k := string(b[2 : 2+n])
			var v interface{}
			if v, b, err = one(b[2+n:]); err != nil {
				return
			}
			o = append(o, KV{k, v})
		}
	}
	switch m {
	case 0:
		if len(b) < 8 {
			return nil, nil, short
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if len(b) < 1 {
			return nil, nil, short
		}
		return b[0] != 0, b[1:], nil
	case 2:
		if len(b) < 2 {
			return nil, nil, short
		}
		n := int(b[0])<<8 | int(b[1])
		if len(b) < 2+n {
			return nil, nil, short
		}
		return string(b[2 : 2+n]), b[2+n:], nil
	case 3:
		o, err := members()
		return Obj(o), b, err
	case 5, 6:
		return nil, b, nil
	case 8:
		if len(b) < 4 {
			return nil, nil, short
		}
		b = b[4:]
		o, err := members()
		return ECMA(o), b, err
	case 10:
		if len(b) < 4 {
			return nil, nil, short
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		a := Arr{}
		for i := 0; i < n; i++ {
			var v interface{}
			if v, b, err = one(b); err != nil {
				return nil, nil, err
			}
			a = append(a, v)
		}
		return a, b, nil
	}
	return nil, nil, fmt.Errorf("AMF0 marker %d", m)
}
