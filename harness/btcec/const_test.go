package btcec

import (
	"crypto/sha256"
	"math/big"
	"testing"
)

func vc_div2(a *big.Int) *big.Int { return new(big.Int).Rsh(a, 1) }

// oSecond: the published second generator, x = SHA-256(Gx + 2) with even y
func vc_oSecond() ECPoint {
	b := make([]byte, 32)
	vc_add(vc_oGx, vc_bi(2)).FillBytes(b)
	h := sha256.Sum256(b)
	x := new(big.Int).SetBytes(h[:])
	y := new(big.Int).Exp(x, vc_bi(3), vc_oP)
	y.Add(y, vc_bi(7))
	y.ModSqrt(y.Mod(y, vc_oP), vc_oP)
	if y.Bit(0) == 1 {
		y.Sub(vc_oP, y)
	}
	return ECPoint{x, y}
}

func TestVC_C06(t *testing.T) {
	c := S256()
	vc_begin("curve parameters")
	pr := c.Params()
	for n, v := range map[string][2]*big.Int{"P": {pr.P, vc_oP}, "N": {pr.N, vc_oN}, "B": {pr.B, vc_bi(7)}, "Gx": {pr.Gx, vc_oGx}, "Gy": {pr.Gy, vc_oGy},
		"BitSize": {vc_bi(int64(pr.BitSize)), vc_bi(256)}, "H": {vc_bi(int64(c.H)), vc_bi(1)}, "QPlus1Div4": {c.QPlus1Div4(), vc_div2(vc_div2(vc_add(vc_oP, vc_bi(1))))}} {
		if v[0] == nil || v[0].Cmp(v[1]) != 0 {
			vc_fail(t, "parameter %s is %x", n, v[0])
		}
	}
	if !vc_oOn(pr.Gx, pr.Gy) {
		vc_fail(t, "the base point is not on the curve")
	}
	for i := uint(0); i < 256; i++ {
		for _, m := range []int64{1, 0x55, 0xff} {
			k := new(big.Int).Lsh(vc_bi(m), i)
			if k.BitLen() > 256 {
				continue
			}
			vc_begin("tables at %x", k)
			vc_guard(t, func() {
				x, y := c.ScalarBaseMult(k.Bytes())
				vc_wantXY(t, x, y, vc_oMul(vc_oG(), k), "ScalarBaseMult(%x)", k)
				x, y = c.ScalarBaseMultH(k.Bytes())
				vc_wantXY(t, x, y, vc_oMul(vc_oSecond(), k), "ScalarBaseMultH(%x)", k)
			})
		}
	}
	vc_internal(t, "C06")
}
