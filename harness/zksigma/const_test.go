package zksigma

import (
	"crypto/sha256"
	"math/big"
	"testing"
)

func TestVC_C06(t *testing.T) {
	vc_begin("generators")
	b := make([]byte, 32)
	vc_add(vc_oGx, vc_bi(2)).FillBytes(b)
	h := sha256.Sum256(b)
	x := new(big.Int).SetBytes(h[:])
	if !vc_same(TestCurve.G, vc_oG()) {
		vc_fail(t, "G is (%x, %x)", TestCurve.G.X, TestCurve.G.Y)
	}
	if TestCurve.H.X == nil || TestCurve.H.X.Cmp(x) != 0 || TestCurve.H.Y.Bit(0) != 0 || !vc_oOn(TestCurve.H.X, TestCurve.H.Y) {
		vc_fail(t, "H is (%x, %x)", TestCurve.H.X, TestCurve.H.Y)
	}
	if n := TestCurve.C.Params().N; n.Cmp(vc_oN) != 0 {
		vc_fail(t, "the order is %x", n)
	}
	if len(TestCurve.HPoints) != 64 {
		vc_fail(t, "there are %d range generators", len(TestCurve.HPoints))
	}
	for i, p := range TestCurve.HPoints {
		vc_begin("range generator %d", i)
		if w := vc_oMul(vc_oG(), new(big.Int).Lsh(vc_bi(1), uint(i))); !vc_same(p, w) {
			vc_fail(t, "HPoints[%d] is (%x, %x), not 2^%d G", i, p.X, p.Y, i)
		}
	}
	if BigZero.Sign() != 0 || !vc_same(Zero, ECPoint{vc_bi(0), vc_bi(0)}) {
		vc_fail(t, "the zero values are %v, %v", BigZero, Zero)
	}
}
