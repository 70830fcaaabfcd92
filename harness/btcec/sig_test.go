package btcec

import (
	"bytes"
	"math/big"
	"testing"
)

// derInt is the shortest two's complement encoding of v >= 0
func vc_derInt(v *big.Int) []byte {
	return v.FillBytes(make([]byte, v.BitLen()/8+1))
}

func vc_derSig(r, s []byte) []byte {
	return vc_cat([]byte{0x30, byte(4 + len(r) + len(s)), 2, byte(len(r))}, r, []byte{2, byte(len(s))}, s)
}

var vc_oHalf = new(big.Int).Rsh(vc_oN, 1)

func vc_inOrder(v *big.Int) bool { return v.Sign() > 0 && v.Cmp(vc_oN) < 0 }

// oParse reads two integers; minimal reports whether the encoding is the shortest
func vc_oParse(in []byte) (r, s *big.Int, minimal bool) {
	if len(in) < 8 || in[0] != 0x30 || int(in[1])+2 > len(in) {
		return
	}
	in = in[:int(in[1])+2]
	if len(in) < 8 || in[2] != 2 {
		return
	}
	n := int(in[3])
	if n < 1 || 4+n+3 > len(in) || in[4+n] != 2 {
		return
	}
	m := int(in[5+n])
	if m < 1 || 6+n+m != len(in) {
		return
	}
	rb, sb := in[4:4+n], in[6+n:]
	r, s = new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb)
	minimal = bytes.Equal(in, vc_derSig(vc_derInt(r), vc_derInt(s)))
	if !vc_inOrder(r) || !vc_inOrder(s) {
		return nil, nil, false
	}
	return
}

func TestVC_C31(t *testing.T) {
	s := vc_newStream("C31")
	parse := func(in []byte) {
		vc_begin("parsing the signature %x", in)
		vc_guard(t, func() {
			r, sv, minimal := vc_oParse(in)
			for _, strict := range []bool{true, false} {
				name, f := "ParseSignature", ParseSignature
				if strict {
					name, f = "ParseDERSignature", ParseDERSignature
				}
				keep := append([]byte{}, in...)
				sig, err := f(in, S256())
				if !bytes.Equal(keep, in) {
					vc_fail(t, "%s(%x) changed its input", name, keep)
				}
				if err != nil {
					if sig != nil {
						vc_fail(t, "%s(%x): a signature with the error %v", name, in, err)
					}
					if strict && r != nil && minimal {
						vc_fail(t, "%s(%x): %v", name, in, err)
					}
					continue
				}
				switch {
				case sig == nil || sig.R == nil || sig.S == nil:
					vc_fail(t, "%s(%x): nothing without an error", name, in)
				case !vc_inOrder(sig.R) || !vc_inOrder(sig.S):
					vc_fail(t, "%s(%x) returns components out of range: %x, %x", name, in, sig.R, sig.S)
				case r == nil:
					vc_fail(t, "%s(%x) accepts what is no signature", name, in)
				case strict && !minimal:
					vc_fail(t, "%s(%x) accepts an encoding that is not the shortest", name, in)
				case sig.R.Cmp(r) != 0 || sig.S.Cmp(sv) != 0:
					vc_fail(t, "%s(%x) = %x, %x, not %x, %x", name, in, sig.R, sig.S, r, sv)
				}
			}
		})
	}
	ser := func(r, sv *big.Int) []byte {
		vc_begin("Serialize of r = %x, s = %x", r, sv)
		var b []byte
		vc_guard(t, func() {
			sig := &Signature{vc_cp(r), vc_cp(sv)}
			b = sig.Serialize()
			if sig.R.Cmp(r) != 0 || sig.S.Cmp(sv) != 0 {
				vc_fail(t, "Serialize changed r = %x, s = %x", r, sv)
			}
			low := sv
			if sv.Cmp(vc_oHalf) > 0 {
				low = vc_sub(vc_oN, sv)
			}
			if w := vc_derSig(vc_derInt(r), vc_derInt(low)); !bytes.Equal(b, w) {
				vc_fail(t, "Serialize of r = %x, s = %x is %x, not %x", r, sv, b, w)
			}
			for _, f := range []func([]byte) (*Signature, error){
				func(b []byte) (*Signature, error) { return ParseSignature(b, S256()) },
				func(b []byte) (*Signature, error) { return ParseDERSignature(b, S256()) },
			} {
				p, err := f(b)
				if err != nil || p.R.Cmp(r) != 0 || p.S.Cmp(low) != 0 || !p.IsEqual(&Signature{r, low}) {
					vc_fail(t, "Serialize of r = %x, s = %x does not read back: %v, %v", r, sv, p, err)
				} else if p.IsEqual(&Signature{r, vc_add(low, vc_bi(1))}) || p.IsEqual(&Signature{vc_add(r, vc_bi(1)), low}) {
					vc_fail(t, "IsEqual of different signatures")
				}
			}
		})
		return b
	}
	edge := []*big.Int{vc_bi(1), vc_bi(2), vc_bi(0x7f), vc_bi(0x80), vc_bi(0xff), vc_bi(0x100), vc_bi(0x7fff), vc_bi(0x8000), vc_sub(vc_oN, vc_bi(1)), vc_sub(vc_oN, vc_bi(2)),
		vc_oHalf, vc_add(vc_oHalf, vc_bi(1)), vc_sub(vc_oHalf, vc_bi(1))}
	for k := uint(3); k < 32; k += 4 {
		e := new(big.Int).Lsh(vc_bi(1), 8*k)
		edge = append(edge, e, vc_sub(e, vc_bi(1)), new(big.Int).Rsh(e, 1))
	}
	for _, r := range edge {
		for _, sv := range edge {
			ser(r, sv)
		}
	}
	// every value of every header byte
	base := vc_derSig(vc_derInt(vc_bi(5)), vc_derInt(vc_bi(300)))
	for i := range base {
		for v := 0; v < 256; v++ {
			in := append([]byte{}, base...)
			in[i] = byte(v)
			parse(in)
			parse(append(in, make([]byte, 260)...))
		}
	}
	for n := 0; n <= len(base); n++ {
		parse(base[:n])
	}
	top := new(big.Int).Lsh(vc_bi(1), 256)
	for round := 0; round < 2 || !vc_over(vc_budget()); round++ {
		val := func() *big.Int {
			switch s.intn(6) {
			case 0:
				return vc_add(vc_oN, vc_bi(s.intn(5)-2))
			case 1:
				return vc_bi(s.intn(3))
			case 2:
				return s.below(top)
			case 3:
				return new(big.Int).Rsh(s.below(vc_oN), uint(s.intn(256)))
			}
			return s.nonzero()
		}
		for i := 0; i < 200; i++ {
			b := ser(s.nonzero(), s.nonzero())
			r, sv := val(), val()
			pad := func(v *big.Int) []byte {
				switch s.intn(4) {
				case 0:
					return append(make([]byte, s.intn(4)), vc_derInt(v)...)
				case 1:
					if len(v.Bytes()) > 0 {
						return v.Bytes()
					}
				case 2:
					if s.intn(8) == 0 {
						return append(make([]byte, s.intn(200)), vc_derInt(v)...)
					}
				}
				return vc_derInt(v)
			}
			e := vc_derSig(pad(r), pad(sv))
			parse(e)
			parse(append(append([]byte{}, e...), make([]byte, s.intn(5))...))
			parse(e[:s.intn(int64(len(e)+1))])
			for j := 0; j < 6; j++ {
				m := append([]byte{}, b...)
				for c := 1 + s.intn(3); c > 0 && len(m) > 0; c-- {
					k := s.intn(int64(len(m)))
					switch s.intn(5) {
					case 0:
						m = append(m[:k], m[k+1:]...)
					case 1:
						m = append(append(append([]byte{}, m[:k]...), 0), m[k:]...)
					case 2:
						m[k] += byte(s.intn(3)) - 1
					default:
						m[k] = byte(s.intn(256))
					}
				}
				parse(m)
			}
		}
	}
}
