package btcec

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
	"testing"
)

func vc_oHash(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

func vc_oMac(k []byte, m ...[]byte) []byte {
	h := hmac.New(sha256.New, k)
	h.Write(vc_cat(m...))
	return h.Sum(nil)
}

// oNonce is the nonce of RFC 6979
func vc_oNonce(d *big.Int, hash []byte) *big.Int {
	e := vc_oHash(hash)
	if e.Cmp(vc_oN) >= 0 {
		e.Sub(e, vc_oN)
	}
	v, k := bytes.Repeat([]byte{1}, 32), make([]byte, 32)
	for b := byte(0); b < 2; b++ {
		k = vc_oMac(k, v, []byte{b}, vc_be32(d), vc_be32(e))
		v = vc_oMac(k, v)
	}
	for {
		v = vc_oMac(k, v)
		if c := new(big.Int).SetBytes(v); vc_inOrder(c) {
			return c
		}
		k = vc_oMac(k, v, []byte{0})
		v = vc_oMac(k, v)
	}
}

// oRecover is the key an iteration gives, or nil
func vc_oRecover(r, s, e *big.Int, it int) *ECPoint {
	x := vc_cp(r)
	if it > 1 {
		x = vc_add(x, vc_oN)
	}
	if it > 3 || !vc_inOrder(r) || !vc_inOrder(s) || x.Cmp(vc_oP) >= 0 {
		return nil
	}
	y := vc_oRoot(x)
	if y == nil {
		return nil
	}
	if it&1 == 1 {
		y = vc_sub(vc_oP, y)
	}
	i := vc_inv(r)
	q := vc_oSub(vc_oMul(ECPoint{x, y}, vc_mulN(s, i)), vc_oMul(vc_oG(), vc_mulN(e, i)))
	if q.X.Sign() == 0 && q.Y.Sign() == 0 {
		return nil
	}
	return &q
}

func TestVC_C32(t *testing.T) {
	s := vc_newStream("C32")
	recov := func(b, hash []byte) {
		vc_begin("RecoverCompact of %x for the hash %x", b, hash)
		vc_guard(t, func() {
			kb, kh := append([]byte{}, b...), append([]byte{}, hash...)
			pk, flag, err := RecoverCompact(S256(), b, hash)
			if !bytes.Equal(kb, b) || !bytes.Equal(kh, hash) {
				vc_fail(t, "RecoverCompact changed its input %x, %x", kb, kh)
			}
			var w *ECPoint
			if len(b) == 65 && b[0] >= 27 && b[0] < 35 {
				w = vc_oRecover(new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:]), vc_oHash(hash), int(b[0]-27)&3)
			}
			switch {
			case err != nil && pk != nil:
				vc_fail(t, "RecoverCompact(%x, %x): a key with the error %v", b, hash, err)
			case err != nil && w != nil:
				vc_fail(t, "RecoverCompact(%x, %x): %v, but it is the key %x, %x", b, hash, err, w.X, w.Y)
			case err == nil && (pk == nil || w == nil):
				vc_fail(t, "RecoverCompact(%x, %x) is the key %v", b, hash, pk)
			case err == nil && (pk.X.Cmp(w.X) != 0 || pk.Y.Cmp(w.Y) != 0):
				vc_fail(t, "RecoverCompact(%x, %x) is the key %x, %x, not %x, %x", b, hash, pk.X, pk.Y, w.X, w.Y)
			case err == nil && flag != (b[0] >= 31):
				vc_fail(t, "RecoverCompact(%x, %x): compressed is %v", b, hash, flag)
			}
		})
	}
	verify := func(r, sv *big.Int, hash []byte, q ECPoint) {
		vc_begin("Verify of %x, %x for the hash %x and the key %x, %x", r, sv, hash, q.X, q.Y)
		vc_guard(t, func() {
			want := false
			if vc_inOrder(r) && vc_inOrder(sv) {
				i := vc_inv(sv)
				w := vc_oAdd(vc_oMul(vc_oG(), vc_mulN(vc_oHash(hash), i)), vc_oMul(q, vc_mulN(r, i)))
				want = vc_modN(w.X).Cmp(r) == 0
			}
			kh, kr, ks := append([]byte{}, hash...), vc_cp(r), vc_cp(sv)
			sig := &Signature{R: r, S: sv}
			if got := sig.Verify(hash, &PublicKey{Curve: S256(), X: vc_cp(q.X), Y: vc_cp(q.Y)}); got != want {
				vc_fail(t, "Verify of %x, %x for the hash %x and the key %x, %x is %v", r, sv, hash, q.X, q.Y, got)
			}
			if !bytes.Equal(kh, hash) || r.Cmp(kr) != 0 || sv.Cmp(ks) != 0 {
				vc_fail(t, "Verify changed its input %x, %x, %x", kh, kr, ks)
			}
		})
	}
	lastQ, lastH := vc_oG(), []byte{1}
	related := 0
	// altered: what is near an accepted signature, asked after it, and it again
	altered := func(r, sv *big.Int, hash []byte, q ECPoint) {
		if len(hash) == 0 {
			return
		}
		verify(r, sv, hash, q)
		flip := append([]byte{}, hash...)
		flip[s.intn(int64(len(flip)))] ^= 1 << uint(s.intn(8))
		for i := 0; i < 3; i++ {
			related++
			switch related % 14 {
			case 0:
				verify(r, sv, flip, q)
			case 1:
				verify(r, sv, hash, ECPoint{q.X, vc_sub(vc_oP, q.Y)})
			case 2:
				verify(r, vc_sub(vc_oN, sv), hash, q)
			case 3:
				verify(vc_sub(vc_oN, r), sv, hash, q)
			case 4:
				verify(sv, r, hash, q)
			case 5:
				verify(vc_add(r, vc_oN), sv, hash, q)
			case 6:
				verify(r, vc_add(sv, vc_oN), hash, q)
			case 7:
				verify(vc_bi(0), sv, hash, q)
			case 8:
				verify(r, vc_bi(0), hash, q)
			case 9:
				verify(vc_neg(r), vc_neg(sv), hash, q)
			case 10:
				verify(r, vc_add(sv, vc_bi(1)), hash, q)
			case 11:
				verify(vc_add(r, vc_bi(1)), sv, hash, q)
			case 12:
				verify(r, sv, hash, lastQ)
			case 13:
				verify(r, sv, lastH, q)
			}
		}
		verify(r, sv, hash, q)
		lastQ, lastH = q, hash
	}
	sign := func(d *big.Int, hash []byte) {
		vc_begin("signing %x with the key %x", hash, d)
		vc_guard(t, func() {
			priv, pub := PrivKeyFromBytes(S256(), vc_be32(d))
			kh := append([]byte{}, hash...)
			sig, err := priv.Sign(hash)
			if err != nil {
				vc_fail(t, "Sign(%x) with %x: %v", hash, d, err)
				return
			}
			e := vc_oHash(hash)
			k := vc_oNonce(d, hash)
			r := vc_modN(vc_oMul(vc_oG(), k).X)
			sv := vc_mulN(vc_inv(k), vc_addN(e, vc_mulN(r, d)))
			if sv.Cmp(vc_oHalf) > 0 {
				sv = vc_sub(vc_oN, sv)
			}
			if sig.R.Cmp(r) != 0 || sig.S.Cmp(sv) != 0 {
				vc_fail(t, "Sign(%x) with %x is %x, %x, not %x, %x", hash, d, sig.R, sig.S, r, sv)
			}
			if len(hash) > 0 && !sig.Verify(hash, pub) { // crypto/ecdsa takes no empty hash
				vc_fail(t, "Sign(%x) with %x does not verify", hash, d)
			}
			altered(sig.R, sig.S, hash, ECPoint{vc_cp(pub.X), vc_cp(pub.Y)})
			again, err := priv.Sign(append([]byte{}, hash...))
			if err != nil || !again.IsEqual(sig) {
				vc_fail(t, "Sign(%x) with %x gives something else the second time", hash, d)
			}
			for _, c := range []bool{true, false} {
				b, err := SignCompact(S256(), priv, hash, c)
				if err != nil {
					vc_fail(t, "SignCompact(%x, %v) with %x: %v", hash, c, d, err)
					continue
				}
				if len(b) != 65 || !bytes.Equal(b[1:], vc_cat(vc_be32(r), vc_be32(sv))) {
					vc_fail(t, "SignCompact(%x, %v) with %x is %x, and r = %x, s = %x", hash, c, d, b, r, sv)
					continue
				}
				if len(hash) > 0 {
					flip := append([]byte{}, hash...)
					flip[s.intn(int64(len(flip)))] ^= 1 << uint(s.intn(8))
					recov(b, flip)
					q := append([]byte{}, b...)
					q[0] ^= 1 << uint(s.intn(3))
					recov(q, hash)
				}
				pk, flag, err := RecoverCompact(S256(), b, hash)
				if err != nil || !pk.IsEqual(pub) || flag != c {
					vc_fail(t, "SignCompact(%x, %v) with %x is %x, from which RecoverCompact gives %v, %v, %v", hash, c, d, b, pk, flag, err)
				}
			}
			if priv.D.Cmp(d) != 0 || !bytes.Equal(hash, kh) || priv.X.Cmp(pub.X) != 0 || priv.Y.Cmp(pub.Y) != 0 {
				vc_fail(t, "signing %x with %x changed the key or the hash", kh, d)
			}
		})
	}
	hashOf := func(n int) []byte {
		h := make([]byte, n)
		s.Read(h)
		switch s.intn(6) {
		case 0:
			for i := range h {
				h[i] = 0xff
			}
		case 1:
			for i := 0; i < n && i < int(s.intn(34)); i++ {
				h[i] = 0
			}
		}
		return h
	}
	keys := []*big.Int{vc_bi(1), vc_bi(2), vc_bi(3), vc_bi(255), vc_bi(256), vc_sub(vc_oN, vc_bi(1)), vc_sub(vc_oN, vc_bi(2)), vc_oHalf, vc_add(vc_oHalf, vc_bi(1)), new(big.Int).Rsh(vc_oN, 8), new(big.Int).Rsh(vc_oN, 128)}
	for _, d := range keys {
		for _, n := range []int{0, 1, 31, 32, 33} {
			sign(d, hashOf(n))
		}
		sign(d, make([]byte, 32))
		sign(d, vc_be32(vc_oN))
		sign(d, vc_be32(vc_sub(vc_oN, vc_bi(1))))
		sign(d, vc_cat(vc_be32(vc_oN), []byte{1}))
		// s and r with leading zeros
		priv, _ := PrivKeyFromBytes(S256(), vc_be32(d))
		short := map[bool]int{}
		for i := 0; i < 600 && len(short) < 2; i++ {
			h := hashOf(32)
			if sig, err := priv.Sign(h); err == nil {
				for is, v := range map[bool]*big.Int{false: sig.R, true: sig.S} {
					if v.BitLen() <= 248 && short[is] == 0 {
						short[is]++
						sign(d, h)
					}
				}
			}
		}
	}
	header := func() byte { return byte(25 + s.intn(12)) }
	for i := 0; i < 256; i++ {
		r, sv := s.below(vc_oN), s.nonzero()
		if i&1 == 1 {
			r = s.below(vc_sub(vc_oP, vc_oN))
		}
		recov(vc_cat([]byte{byte(i)}, vc_be32(r), vc_be32(sv)), hashOf(32))
	}
	// coordinates from the order on: r + N is the one
	for i, n := int64(0), 0; n < 8; i++ {
		x := vc_add(vc_oN, vc_bi(i))
		if i > 40 {
			x = vc_add(vc_oN, s.below(vc_sub(vc_oP, vc_oN)))
		}
		if vc_oRoot(x) == nil || x.Cmp(vc_oN) == 0 {
			continue
		}
		n++
		for h := byte(26); h < 36; h++ {
			recov(vc_cat([]byte{h}, vc_be32(vc_sub(x, vc_oN)), vc_be32(s.nonzero())), hashOf(32))
		}
	}
	// components at the edges of the range
	for _, r := range []*big.Int{vc_bi(0), vc_bi(1), vc_bi(2), vc_bi(4), vc_sub(vc_oN, vc_bi(1)), vc_oN, vc_add(vc_oN, vc_bi(1)), vc_sub(vc_oP, vc_oN), vc_sub(vc_sub(vc_oP, vc_oN), vc_bi(1)), vc_sub(vc_oP, vc_bi(1)), vc_oP, vc_modP(vc_oGx)} {
		for _, sv := range []*big.Int{vc_bi(0), vc_bi(1), vc_oHalf, vc_sub(vc_oN, vc_bi(1)), vc_oN, vc_add(vc_oN, vc_bi(1)), vc_sub(new(big.Int).Lsh(vc_bi(1), 256), vc_bi(1))} {
			for h := byte(27); h < 35; h += byte(1 + s.intn(2)) {
				recov(vc_cat([]byte{h}, vc_be32(r), vc_be32(sv)), hashOf(int(s.intn(40))))
			}
		}
	}
	// R = k*G and s = e/k: the identity
	for i := 0; i < 12; i++ {
		k, h := s.nonzero(), hashOf(32)
		R := vc_oMul(vc_oG(), k)
		sv := vc_mulN(vc_oHash(h), vc_inv(k))
		if R.X.Cmp(vc_oN) >= 0 {
			continue
		}
		for it := byte(0); it < 2; it++ {
			recov(vc_cat([]byte{27 + it + 4*byte(i&1)}, vc_be32(R.X), vc_be32(sv)), h)
		}
	}
	for n := 0; n < 140; n++ {
		b := make([]byte, n)
		s.Read(b)
		if n > 0 {
			b[0] = header()
		}
		recov(b, hashOf(32))
	}
	oldD, oldH := vc_bi(1), []byte{1}
	for i := 0; !vc_over(vc_budget()) && (vcDeep || i < 150); i++ {
		d := s.nonzero()
		if i%4 == 0 {
			d = vc_modN(d.Rsh(d, uint(8*s.intn(32))))
		}
		if d.Sign() != 0 {
			h := hashOf(int(s.intn(66)))
			sign(d, h)
			switch i % 5 {
			case 0:
				sign(vc_sub(vc_oN, d), h)
			case 1:
				sign(s.nonzero(), h)
			case 2:
				sign(d, append(append([]byte{}, h...), 1))
				sign(d, append([]byte{0}, h...))
			case 3:
				sign(oldD, h)
				sign(d, oldH)
			}
			oldD, oldH = d, h
		}
		b := make([]byte, 65)
		s.Read(b)
		b[0] = header()
		recov(b, hashOf(int(s.intn(66))))
	}
}
