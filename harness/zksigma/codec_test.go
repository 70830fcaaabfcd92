package zksigma

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"testing"
	"testing/iotest"
	"unsafe"
)

type vcKind struct {
	name  string
	mk    func() interface{}
	parse func([]byte) (interface{}, error)
	bytes func(interface{}) []byte
}

func vcKinds() []vcKind {
	return []vcKind{
		{"GSPFSProof", func() interface{} { return new(GSPFSProof) }, func(b []byte) (interface{}, error) { return NewGSPFSProofFromBytes(b) }, func(p interface{}) []byte { return p.(*GSPFSProof).Bytes() }},
		{"EquivalenceProof", func() interface{} { return new(EquivalenceProof) }, func(b []byte) (interface{}, error) { return NewEquivalenceProofFromBytes(b) }, func(p interface{}) []byte { return p.(*EquivalenceProof).Bytes() }},
		{"ConsistencyProof", func() interface{} { return new(ConsistencyProof) }, func(b []byte) (interface{}, error) { return NewConsistencyProofFromBytes(b) }, func(p interface{}) []byte { return p.(*ConsistencyProof).Bytes() }},
		{"DisjunctiveProof", func() interface{} { return new(DisjunctiveProof) }, func(b []byte) (interface{}, error) { return NewDisjunctiveProofFromBytes(b) }, func(p interface{}) []byte { return p.(*DisjunctiveProof).Bytes() }},
		{"ABCProof", func() interface{} { return new(ABCProof) }, func(b []byte) (interface{}, error) { return NewABCProofFromBytes(b) }, func(p interface{}) []byte { return p.(*ABCProof).Bytes() }},
		{"RangeProof", func() interface{} { return new(RangeProof) }, func(b []byte) (interface{}, error) { return NewRangeProofFromBytes(b) }, func(p interface{}) []byte { return p.(*RangeProof).Bytes() }},
	}
}

var vc_tyBig, vc_tyPoint = reflect.TypeOf((*big.Int)(nil)), reflect.TypeOf(ECPoint{})

func vc_settable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// fill sets every part of a proof
func vc_fill(v reflect.Value, n int, scalar func() *big.Int, coord func() *big.Int) {
	v = vc_settable(v)
	switch {
	case v.Type() == vc_tyBig:
		v.Set(reflect.ValueOf(scalar()))
	case v.Type() == vc_tyPoint:
		v.Set(reflect.ValueOf(ECPoint{coord(), coord()}))
	case v.Kind() == reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		vc_fill(v.Elem(), n, scalar, coord)
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vc_fill(v.Field(i), n, scalar, coord)
		}
	case v.Kind() == reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			vc_fill(v.Index(i), n, scalar, coord)
		}
	}
}

// parts lists every part of a proof
func vc_parts(v reflect.Value, path string, out *[]string) {
	v = vc_settable(v)
	switch {
	case v.Type() == vc_tyBig:
		*out = append(*out, fmt.Sprintf("%s=%v", path, v.Interface()))
	case v.Type() == vc_tyPoint:
		p := v.Interface().(ECPoint)
		*out = append(*out, fmt.Sprintf("%s=(%v,%v)", path, p.X, p.Y))
	case v.Kind() == reflect.Ptr:
		if v.IsNil() {
			*out = append(*out, path+"=<nil>")
			return
		}
		vc_parts(v.Elem(), path, out)
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vc_parts(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case v.Kind() == reflect.Slice:
		*out = append(*out, fmt.Sprintf("%s.len=%d", path, v.Len()))
		for i := 0; i < v.Len(); i++ {
			vc_parts(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

// pieces lists the encodings of the points and integers in a proof
func vc_pieces(v reflect.Value, out *[][]byte) {
	v = vc_settable(v)
	enc := func(f func(*bytes.Buffer) error) {
		var b bytes.Buffer
		if f(&b) == nil {
			*out = append(*out, b.Bytes())
		}
	}
	switch {
	case v.Type() == vc_tyBig:
		enc(func(b *bytes.Buffer) error { return WriteBigInt(b, v.Interface().(*big.Int)) })
	case v.Type() == vc_tyPoint:
		enc(func(b *bytes.Buffer) error { return WriteECPoint(b, v.Interface().(ECPoint)) })
	case v.Kind() == reflect.Ptr && !v.IsNil():
		vc_pieces(v.Elem(), out)
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vc_pieces(v.Field(i), out)
		}
	case v.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vc_pieces(v.Index(i), out)
		}
	}
}

func vc_partsOf(p interface{}) []string {
	var out []string
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return []string{"<nil>"}
	}
	vc_parts(v.Elem(), "", &out)
	return out
}

func vc_firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "nothing"
			if i < len(b) {
				o = b[i]
			}
			return a[i] + " became " + o
		}
	}
	if len(b) > len(a) {
		return "extra " + b[len(a)]
	}
	return ""
}

func vc_hasNil(ps []string) string {
	for _, p := range ps {
		if bytes.Contains([]byte(p), []byte("nil")) {
			return p
		}
	}
	return ""
}

func (s *vc_stream) codecInt() *big.Int {
	top := new(big.Int).Lsh(vc_bi(1), 256)
	var r *big.Int
	switch s.intn(6) {
	case 0:
		r = vc_bi(s.intn(3))
	case 1:
		e := vcEdges()
		r = new(big.Int).Mod(new(big.Int).Abs(e[s.intn(int64(len(e)))]), top)
	case 2:
		r = vc_sub(top, vc_bi(1+s.intn(3)))
	case 3: // around a byte boundary
		r = new(big.Int).Lsh(vc_bi(1), uint(8*s.intn(32)))
		r.Add(r, vc_bi(s.intn(3)-1))
		r.Abs(r)
	case 4:
		r = s.below(new(big.Int).Lsh(vc_bi(1), uint(1+s.intn(256))))
	default:
		r = s.below(top)
	}
	if r.Cmp(top) >= 0 {
		r = vc_sub(top, vc_bi(1))
	}
	return r
}

func (s *vc_stream) codecScalar() *big.Int {
	r := s.codecInt()
	if s.intn(3) == 0 {
		r.Neg(r)
	}
	return r
}

func TestVC_C24(t *testing.T) {
	s := vc_newStream("C24")
	for round := 0; round < 12 || !vc_over(vc_budget()); round++ {
		for _, k := range vcKinds() {
			n := 0
			if k.name == "RangeProof" {
				n = int(s.intn(65))
				if round < 4 {
					n = []int{0, 1, 63, 64}[round]
				}
			}
			p := k.mk()
			vc_fill(reflect.ValueOf(p).Elem(), n, s.codecScalar, s.codecInt)
			before := vc_partsOf(p)
			vc_begin("%s round trip of %v", k.name, before)
			vc_guard(t, func() {
				b := k.bytes(p)
				if d := vc_firstDiff(before, vc_partsOf(p)); d != "" {
					vc_fail(t, "%s.Bytes changes the proof: %s", k.name, d)
				}
				for _, extra := range [][]byte{nil, {0}, {0xff, 0xff, 1, 2, 3}} {
					in := append(append([]byte{}, b...), extra...)
					cp := append([]byte{}, in...)
					q, err := k.parse(in)
					if err != nil {
						vc_fail(t, "%s with %v: reading back fails: %v", k.name, before, err)
						return
					}
					if d := vc_firstDiff(before, vc_partsOf(q)); d != "" {
						vc_fail(t, "%s round trip: %s (proof %v)", k.name, d, before)
					}
					if !bytes.Equal(in, cp) {
						vc_fail(t, "%s: reading changes the bytes", k.name)
					}
				}
			})
		}
		x, y, v := s.codecInt(), s.codecInt(), s.codecScalar()
		vc_begin("point (%x, %x) and integer %x", x, y, v)
		vc_guard(t, func() {
			var buf bytes.Buffer
			e1 := WriteECPoint(&buf, ECPoint{x, y})
			e2 := WriteBigInt(&buf, v)
			e3 := WriteECPoint(&buf, ECPoint{y, x})
			buf.Write([]byte{1, 2, 3})
			if e1 != nil || e2 != nil || e3 != nil {
				vc_fail(t, "writing (%x, %x) or %x fails: %v %v %v", x, y, v, e1, e2, e3)
			}
			for _, r := range []io.Reader{bytes.NewReader(buf.Bytes()), iotest.OneByteReader(bytes.NewReader(buf.Bytes())), iotest.DataErrReader(bytes.NewReader(buf.Bytes()))} {
				p, e1 := ReadECPoint(r)
				w, e2 := ReadBigInt(r)
				q, e3 := ReadECPoint(r)
				if e1 != nil || e2 != nil || e3 != nil || !vc_same(p, ECPoint{x, y}) || w.Cmp(v) != 0 || !vc_same(q, ECPoint{y, x}) {
					vc_fail(t, "(%x, %x), %x read back as %v, %v, %v with errors %v %v %v", x, y, v, p, w, q, e1, e2, e3)
					continue
				}
				rest, _ := io.ReadAll(r)
				if !bytes.Equal(rest, []byte{1, 2, 3}) {
					vc_fail(t, "after reading (%x, %x), %x the rest is %x", x, y, v, rest)
				}
			}
		})
	}
}

// alloc measures the memory a call obtains
func vc_alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func TestVC_C25(t *testing.T) {
	s := vc_newStream("C25")
	try := func(k vcKind, in []byte, reject bool, what string) {
		h := in
		if len(h) > 120 {
			h = h[:120]
		}
		vc_begin("%s from %s (%d bytes) %x", k.name, what, len(in), h)
		vc_guard(t, func() {
			var p interface{}
			var err error
			if m := vc_alloc(func() { p, err = k.parse(append([]byte{}, in...)) }); m > 1<<20+600*uint64(len(in)) {
				vc_fail(t, "%s from %s (%d bytes) %x allocates %d bytes", k.name, what, len(in), h, m)
			}
			if err != nil {
				if !reflect.ValueOf(p).IsNil() {
					vc_fail(t, "%s from %s %x: a proof together with the error %v", k.name, what, h, err)
				}
				return
			}
			if n := vc_hasNil(vc_partsOf(p)); n != "" {
				vc_fail(t, "%s from %s (%d bytes) %x: accepted with a part missing: %s", k.name, what, len(in), h, n)
			} else if reject {
				vc_fail(t, "%s from %s (%d bytes) %x: accepted", k.name, what, len(in), h)
			}
		})
	}
	big9 := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	for _, k := range vcKinds() {
		try(k, nil, true, "nothing")
		for _, hd := range [][]byte{big9, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfd, 0xff, 0xff}, {0xfd, 0x21, 0}, {0x21}, {0x20}, {0xfc}, {0xff}} {
			try(k, hd, true, "a length alone")
			// every field empty, then the length
			for n := 1; n < 14; n++ {
				try(k, append(bytes.Repeat([]byte{0}, n), hd...), false, "zeros and a length")
				var in []byte
				for i := 0; i < n; i++ {
					in = append(in, 1, 0)
				}
				try(k, append(in, hd...), false, "small values and a length")
				try(k, append(append([]byte{0, 0}, in...), hd...), false, "small values and a length")
				try(k, append(append([]byte{0, 0, 0, 0}, in...), hd...), false, "small values and a length")
			}
		}
	}
	for round := 0; round < 3 || !vc_over(vc_budget()); round++ {
		for _, k := range vcKinds() {
			n := int(s.intn(4))
			if round == 1 {
				n = 64
			}
			p := k.mk()
			vc_fill(reflect.ValueOf(p).Elem(), n, s.codecScalar, s.codecInt)
			var b []byte
			vc_guard(t, func() { b = k.bytes(p) })
			// a part replaced by a length that cannot be read
			var ps [][]byte
			vc_pieces(reflect.ValueOf(p).Elem(), &ps)
			for _, e := range ps {
				if len(e) >= 8 && bytes.Count(b, e) == 1 && (len(ps) < 100 || s.intn(10) == 0) {
					for _, keep := range []int{0, len(e) / 2} {
						i := bytes.Index(b, e)
						m := append(append([]byte{}, b[:i]...), e[:keep]...)
						m = append(append(m, 0xfd, 1, 0), b[i+len(e):]...)
						if keep == 0 {
							try(k, m, true, "a proof with an unreadable part")
						} else {
							try(k, m, false, "a proof with a changed part")
						}
					}
				}
			}
			step := 1 + len(b)/400
			if vcDeep {
				step = 1
			}
			for i := int(s.intn(int64(step))); i < len(b); i += step {
				try(k, b[:i], true, "a strict prefix")
			}
			for j := 0; j < 60; j++ {
				m := append([]byte{}, b...)
				for c := 1 + s.intn(3); c > 0 && len(m) > 0; c-- {
					i := s.intn(int64(len(m)))
					switch s.intn(5) {
					case 0:
						m[i] ^= 1 << uint(s.intn(8))
					case 1:
						m[i] = byte(s.intn(256))
					case 2:
						m = append(m[:i], m[i+1:]...)
					case 3:
						m = append(append(append([]byte{}, m[:i]...), big9[:1+s.intn(9)]...), m[i:]...)
					default:
						m[i] = []byte{0, 1, 0x20, 0x21, 0x22, 0xfd, 0xfe, 0xff}[s.intn(8)]
					}
				}
				try(k, m, false, "a changed proof")
			}
			r := make([]byte, s.intn(200))
			s.Read(r)
			try(k, r, false, "random bytes")
		}
		// single values, from readers that fail
		var buf bytes.Buffer
		WriteECPoint(&buf, ECPoint{s.codecInt(), s.codecInt()})
		full := buf.Bytes()
		for i := 0; i <= len(full); i++ {
			vc_begin("point from %x, then an error", full[:i])
			vc_guard(t, func() {
				_, err := ReadECPoint(io.MultiReader(bytes.NewReader(full[:i]), iotest.ErrReader(vc_errVC)))
				if (err == nil) != (i == len(full)) {
					vc_fail(t, "ReadECPoint of %d of %d bytes of %x, then a read error: error %v", i, len(full), full, err)
				}
			})
		}
		buf.Reset()
		WriteBigInt(&buf, s.codecScalar())
		full = buf.Bytes()
		for i := 0; i <= len(full); i++ {
			vc_begin("integer from %x, then an error", full[:i])
			vc_guard(t, func() {
				v, err := ReadBigInt(io.MultiReader(bytes.NewReader(full[:i]), iotest.ErrReader(vc_errVC)))
				if (err == nil) != (i == len(full)) || (err == nil) != (v != nil) {
					vc_fail(t, "ReadBigInt of %d of %d bytes of %x, then a read error: %v, error %v", i, len(full), full, v, err)
				}
			})
		}
		r := make([]byte, s.intn(80))
		s.Read(r)
		vc_begin("values from %x", r)
		vc_guard(t, func() {
			if p, err := ReadECPoint(bytes.NewReader(r)); err == nil && (p.X == nil || p.Y == nil) {
				vc_fail(t, "ReadECPoint(%x) gives a point without coordinates", r)
			}
			if v, err := ReadBigInt(bytes.NewReader(r)); (err == nil) != (v != nil) {
				vc_fail(t, "ReadBigInt(%x) gives %v and the error %v", r, v, err)
			}
		})
	}
}
