package btcec

import (
	"bytes"
	"math/big"
	"testing"
)

func vc_be32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func vc_cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// oRoot is the even root of x^3 + 7, or nil
func vc_oRoot(x *big.Int) *big.Int {
	v := vc_add(vc_mul(vc_mul(x, x), x), vc_bi(7))
	r := new(big.Int).ModSqrt(v.Mod(v, vc_oP), vc_oP)
	if r != nil && r.Bit(0) == 1 {
		r = vc_sub(vc_oP, r)
	}
	return r
}

// somePoints returns points, short coordinates and both parities included
func vc_somePoints(s *vc_stream, n int) []ECPoint {
	var out []ECPoint
	take := func(x *big.Int) {
		if x.Sign() < 0 || x.Cmp(vc_oP) >= 0 {
			return
		}
		if r := vc_oRoot(x); r != nil {
			out = append(out, ECPoint{vc_cp(x), r}, ECPoint{vc_cp(x), vc_sub(vc_oP, r)})
		}
	}
	for i := int64(0); i < 12; i++ {
		take(vc_bi(i))
		take(vc_sub(vc_oP, vc_bi(i+1)))
		take(vc_add(vc_oN, vc_bi(i)))
		take(vc_bi(250 + i))
	}
	take(vc_oGx)
	for len(out) < n {
		v := s.below(vc_oP)
		take(v.Rsh(v, uint(8*s.intn(32))))
		if s.intn(4) == 0 {
			// a short y
			y := s.below(vc_oP)
			y.Rsh(y, uint(8*s.intn(32)))
			if x := vc_cubeRoot(vc_modP(vc_sub(vc_mul(y, y), vc_bi(7)))); x != nil && vc_oOn(x, y) && y.Cmp(vc_oP) < 0 {
				out = append(out, ECPoint{x, y}, ECPoint{vc_cp(x), vc_sub(vc_oP, y)})
			}
		}
	}
	return out
}

func vc_modP(v *big.Int) *big.Int { return new(big.Int).Mod(v, vc_oP) }

func TestVC_C30(t *testing.T) {
	s := vc_newStream("C30")
	parse := func(in []byte) {
		vc_begin("ParsePubKey(%x)", in)
		vc_guard(t, func() {
			if c := IsCompressedPubKey(in); c != (len(in) == 33 && (in[0] == 2 || in[0] == 3)) {
				vc_fail(t, "IsCompressedPubKey(%x) = %v", in, c)
			}
			var want *ECPoint
			switch {
			case len(in) == 65 && (in[0] == 4 || in[0] == 6 || in[0] == 7):
				x, y := new(big.Int).SetBytes(in[1:33]), new(big.Int).SetBytes(in[33:])
				if x.Cmp(vc_oP) < 0 && y.Cmp(vc_oP) < 0 && vc_oOn(x, y) && (in[0] == 4 || uint(in[0]-6) == y.Bit(0)) {
					want = &ECPoint{x, y}
				}
			case len(in) == 33 && (in[0] == 2 || in[0] == 3):
				x := new(big.Int).SetBytes(in[1:])
				if x.Cmp(vc_oP) < 0 {
					if y := vc_oRoot(x); y != nil {
						if in[0] == 3 {
							y = vc_sub(vc_oP, y)
						}
						want = &ECPoint{x, y}
					}
				}
			}
			keep := append([]byte{}, in...)
			k, err := ParsePubKey(in, S256())
			if !bytes.Equal(keep, in) {
				vc_fail(t, "ParsePubKey(%x) changed its input to %x", keep, in)
			}
			if want == nil {
				if err == nil || k != nil {
					vc_fail(t, "ParsePubKey(%x) accepts what encodes no point: %v, %v", in, k, err)
				}
				return
			}
			if err != nil || k == nil {
				vc_fail(t, "ParsePubKey(%x): %v", in, err)
			} else if k.X.Cmp(want.X) != 0 || k.Y.Cmp(want.Y) != 0 || k.Curve != S256() {
				vc_fail(t, "ParsePubKey(%x) = (%x, %x), not (%x, %x)", in, k.X, k.Y, want.X, want.Y)
			}
		})
	}
	top := new(big.Int).Lsh(vc_bi(1), 256)
	for _, l := range []int{0, 1, 2, 31, 32, 33, 34, 63, 64, 65, 66, 67, 97, 98, 130} {
		for f := 0; f < 9; f++ {
			in := make([]byte, l)
			if l > 0 {
				in[0] = byte(f)
			}
			parse(in)
		}
	}
	key := func(p ECPoint) {
		vc_begin("public key (%x, %x)", p.X, p.Y)
		vc_guard(t, func() {
			k := &PublicKey{Curve: S256(), X: vc_cp(p.X), Y: vc_cp(p.Y)}
			odd := byte(p.Y.Bit(0))
			for _, e := range []struct {
				name      string
				got, want []byte
			}{
				{"SerializeUncompressed", k.SerializeUncompressed(), vc_cat([]byte{4}, vc_be32(p.X), vc_be32(p.Y))},
				{"SerializeCompressed", k.SerializeCompressed(), vc_cat([]byte{2 + odd}, vc_be32(p.X))},
				{"SerializeHybrid", k.SerializeHybrid(), vc_cat([]byte{6 + odd}, vc_be32(p.X), vc_be32(p.Y))},
			} {
				if !bytes.Equal(e.got, e.want) {
					vc_fail(t, "%s of (%x, %x) = %x, not %x", e.name, p.X, p.Y, e.got, e.want)
				}
				r, err := ParsePubKey(e.got, S256())
				if err != nil || !r.IsEqual(k) || r.X.Cmp(p.X) != 0 || r.Y.Cmp(p.Y) != 0 {
					vc_fail(t, "%s of (%x, %x) = %x does not read back: %v %v", e.name, p.X, p.Y, e.got, r, err)
				}
			}
			if k.X.Cmp(p.X) != 0 || k.Y.Cmp(p.Y) != 0 {
				vc_fail(t, "serialising changed the key (%x, %x)", p.X, p.Y)
			}
			for _, q := range []ECPoint{{p.X, vc_sub(vc_oP, p.Y)}, {vc_add(p.X, vc_bi(1)), p.Y}} {
				if k.IsEqual(&PublicKey{Curve: S256(), X: q.X, Y: q.Y}) {
					vc_fail(t, "IsEqual of (%x, %x) and (%x, %x)", p.X, p.Y, q.X, q.Y)
				}
			}
		})
		for f := byte(0); f < 10; f++ {
			parse(vc_cat([]byte{f}, vc_be32(p.X), vc_be32(p.Y)))
			parse(vc_cat([]byte{f}, vc_be32(p.X)))
			if f == 5 {
				parse(vc_cat([]byte{0x84}, vc_be32(p.X), vc_be32(p.Y)))
			}
		}
		// the same point with coordinates beyond the prime
		for _, f := range []byte{2, 3, 4, 6, 7} {
			xs, ys := []*big.Int{p.X}, []*big.Int{p.Y, vc_sub(vc_oP, p.Y)}
			if v := vc_add(p.X, vc_oP); v.Cmp(top) < 0 {
				xs = append(xs, v)
			}
			if v := vc_add(p.Y, vc_oP); v.Cmp(top) < 0 {
				ys = append(ys, v)
			}
			for _, x := range xs {
				for _, y := range ys {
					if f < 4 {
						parse(vc_cat([]byte{f}, vc_be32(x)))
					} else {
						parse(vc_cat([]byte{f}, vc_be32(x), vc_be32(y)))
					}
				}
			}
		}
		// near misses
		for i := 0; i < 3; i++ {
			in := vc_cat([]byte{[]byte{4, 6, 7}[s.intn(3)]}, vc_be32(p.X), vc_be32(p.Y))
			in[s.intn(65)] ^= 1 << uint(s.intn(8))
			parse(in)
			parse(in[:33])
			parse(in[:s.intn(66)])
			parse(append(in, byte(s.intn(256))))
		}
	}
	priv := func(d *big.Int) {
		vc_begin("private key %x", d)
		vc_guard(t, func() {
			a, b := PrivKeyFromBytes(S256(), vc_be32(d))
			w := vc_oMul(vc_oG(), d)
			if a.D.Cmp(d) != 0 || !vc_same(ECPoint{a.X, a.Y}, w) || !vc_same(ECPoint{b.X, b.Y}, w) || !a.PubKey().IsEqual(b) {
				vc_fail(t, "PrivKeyFromBytes(%x) = (%x, %x, %x), not %v", d, a.D, b.X, b.Y, w)
			}
			if g := a.Serialize(); !bytes.Equal(g, vc_be32(d)) {
				vc_fail(t, "Serialize of the private key %x = %x", d, g)
			}
			if a.D.Cmp(d) != 0 {
				vc_fail(t, "serialising changed the private key %x", d)
			}
			if sh := new(big.Int).SetBytes(d.Bytes()); len(d.Bytes()) < 32 {
				c, _ := PrivKeyFromBytes(S256(), d.Bytes())
				if c.D.Cmp(sh) != 0 || !bytes.Equal(c.Serialize(), vc_be32(d)) {
					vc_fail(t, "PrivKeyFromBytes(%x): Serialize = %x", d.Bytes(), c.Serialize())
				}
			}
		})
	}
	for i := int64(1); i < 5; i++ {
		priv(vc_bi(i))
		priv(vc_sub(vc_oN, vc_bi(i)))
	}
	for k := uint(1); k < 32; k++ {
		priv(new(big.Int).Lsh(vc_bi(1), 8*k))
		priv(vc_sub(new(big.Int).Lsh(vc_bi(1), 8*k), vc_bi(1)))
	}
	for round := 0; round < 2 || !vc_over(vc_budget()); round++ {
		for _, p := range vc_somePoints(s, 60) {
			key(p)
		}
		for i := 0; i < 4; i++ {
			priv(s.nonzero())
			x := s.below(top)
			for _, f := range []byte{2, 3, 4, 6, 7} {
				parse(vc_cat([]byte{f}, vc_be32(x)))
				parse(vc_cat([]byte{f}, vc_be32(x), vc_be32(s.below(top))))
			}
			if k, err := NewPrivateKey(S256()); err != nil {
				vc_fail(t, "NewPrivateKey: %v", err)
			} else {
				priv(k.D)
				if w := vc_oMul(vc_oG(), k.D); !vc_same(ECPoint{k.X, k.Y}, w) {
					vc_fail(t, "NewPrivateKey: %x with the public key (%x, %x)", k.D, k.X, k.Y)
				}
			}
		}
	}
}
