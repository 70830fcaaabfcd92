package zksigma

import (
	"fmt"
	"math/big"
	"testing"
)

// snap keeps the values of operands to see whether they change
type vc_snap struct {
	pts  []ECPoint
	ints []*big.Int
	old  []string
}

func (k *vc_snap) of() []string {
	var r []string
	for _, p := range k.pts {
		r = append(r, fmt.Sprint(p.X, ",", p.Y))
	}
	for _, i := range k.ints {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

func vc_take(pts []ECPoint, ints ...*big.Int) *vc_snap {
	k := &vc_snap{pts: append(append([]ECPoint{}, pts...), TestCurve.G, TestCurve.H, Zero, ECPoint{TestCurve.C.Params().Gx, TestCurve.C.Params().Gy}), ints: append(append([]*big.Int{}, ints...),
		BigZero, TestCurve.C.Params().N, TestCurve.C.Params().P)}
	k.old = k.of()
	return k
}

func (k *vc_snap) check(t *testing.T, what string) {
	for i, v := range k.of() {
		if v != k.old[i] {
			vc_fail(t, "%s changed an operand or a constant from %s to %s", what, k.old[i], v)
		}
	}
}

func vc_canonical(p ECPoint) bool {
	return p.X != nil && p.Y != nil && p.X.Sign() >= 0 && p.Y.Sign() >= 0 && p.X.Cmp(vc_oP) < 0 && p.Y.Cmp(vc_oP) < 0
}

func vc_wantPt(t *testing.T, got ECPoint, want vc_vec, format string, a ...interface{}) {
	if !vc_same(got, want.pt()) {
		vc_fail(t, "%s gives (%v, %v), the group element is (%v, %v)", fmt.Sprintf(format, a...), got.X, got.Y, want.pt().X, want.pt().Y)
	}
}

// shared returns p with the coordinates of the library's own objects, where they are those of p
func vc_shared(v vc_vec, p ECPoint) ECPoint {
	for _, q := range []ECPoint{TestCurve.G, TestCurve.H, Zero, TestCurve.HPoints[1], {TestCurve.C.Params().Gx, TestCurve.C.Params().Gy}} {
		if p.X.Cmp(q.X) == 0 {
			p.X = q.X
		}
		if p.Y.Cmp(q.Y) == 0 {
			p.Y = q.Y
		}
	}
	return p
}

func TestVC_C01(t *testing.T) {
	s := vc_newStream("C01")
	edges := vcEdges()
	one := func(a, b vc_vec, k *big.Int) {
		A, B := a.pt(), b.pt()
		kk := vc_cp(k)
		// the same values in shared storage
		switch s.intn(6) {
		case 0:
			A, B = vc_shared(a, A), vc_shared(b, B)
		case 1:
			A, B = vc_shared(a, A), vc_shared(b, B)
			if A.X.Cmp(B.X) == 0 {
				B.X = A.X
			}
			if A.Y.Cmp(B.Y) == 0 {
				B.Y = A.Y
			}
			if A.X.Cmp(kk) == 0 {
				kk = A.X
			}
			if kk.Cmp(TestCurve.C.Params().N) == 0 {
				kk = TestCurve.C.Params().N
			}
		}
		vc_begin("a=%v b=%v k=%v", a, b, k)
		vc_guard(t, func() {
			sn := vc_take([]ECPoint{A, B}, kk)
			vc_wantPt(t, TestCurve.Add(A, B), a.add(b), "Add(%v, %v)", a, b)
			vc_wantPt(t, TestCurve.Sub(A, B), a.sub(b), "Sub(%v, %v)", a, b)
			vc_wantPt(t, TestCurve.Neg(A), a.mul(vc_bi(-1)), "Neg(%v)", a)
			vc_wantPt(t, TestCurve.Mult(A, kk), a.mul(k), "Mult(%v, %v)", a, k)
			vc_wantPt(t, TestCurve.Add(A, A), a.add(a), "Add(%v, same)", a)
			vc_wantPt(t, TestCurve.Sub(A, A), vc_gv(vc_bi(0)), "Sub(%v, same)", a)
			vc_wantPt(t, TestCurve.Add(A, TestCurve.Neg(A)), vc_gv(vc_bi(0)), "Add(%v, its inverse)", a)
			for _, q := range []ECPoint{B, A, a.pt(), {A.X, B.Y}, {B.X, A.Y}, {A.X, vc_oNeg(A).Y}, {vc_add(A.X, vc_oP), A.Y}, {A.X, vc_neg2(A.Y)}} {
				w := A.X.Cmp(q.X) == 0 && A.Y.Cmp(q.Y) == 0
				if A.Equal(q) != w || q.Equal(A) != w {
					vc_fail(t, "Equal of (%v, %v) and (%v, %v) is %v / %v", A.X, A.Y, q.X, q.Y, A.Equal(q), q.Equal(A))
				}
			}
			sn.check(t, vcCur)
		})
	}
	pv := vc_pointVecs(s, 16)
	for _, a := range pv {
		for i, b := range pv {
			one(a, b, edges[(i*7)%len(edges)])
		}
	}
	for _, a := range []vc_vec{vc_gv(vc_bi(1)), vc_hv(vc_bi(1)), vc_gv(vc_bi(-1)), {vc_bi(3), vc_bi(5)}, vc_gv(vc_bi(0))} {
		for _, k := range edges {
			one(a, a.mul(k), k)
		}
	}
	type oldCase struct {
		a, b vc_vec
		k    *big.Int
	}
	var old []oldCase
	n := 0
	for !vc_over(vc_budget()) {
		a := s.vecAny()
		b := s.vecAny()
		switch s.intn(8) {
		case 0:
			b = a
		case 1:
			b = a.mul(vc_bi(-1))
		case 2:
			b = vc_gv(vc_bi(0))
		case 3:
			a = vc_gv(vc_bi(0))
		case 4:
			b = a.mul(vcLambda)
		}
		k := s.scalar()
		if s.intn(3) == 0 {
			k = vc_neg2(k)
		}
		one(a, b, k)
		switch s.intn(12) {
		case 0:
			a = [...]vc_vec{vc_gv(vc_bi(1)), vc_hv(vc_bi(1)), vc_gv(vc_bi(-1)), vc_hv(vc_bi(-1)), vc_hv(vc_bi(2)), vc_gv(vc_bi(0))}[s.intn(6)]
		case 1:
			b = [...]vc_vec{vc_gv(vc_bi(1)), vc_hv(vc_bi(1)), vc_gv(vc_bi(-1)), vc_hv(vc_bi(-1)), vc_hv(vc_bi(2)), vc_gv(vc_bi(0))}[s.intn(6)]
		case 2:
			b = a.mul(vc_bi(-1))
			k = vc_cp(a.pt().X)
		}
		// what a call leaves behind must not change the next: related inputs in a row, and earlier ones again
		switch n++; n % 4 {
		case 0:
			one(a.mul(vc_bi(-1)), b, k)
			one(a, b.mul(vc_bi(-1)), k)
		case 1:
			one(a, b, vc_neg2(k))
			one(b, a, k)
		case 2:
			one(a, a.mul(vcLambda), new(big.Int).Xor(k, new(big.Int).Lsh(vc_bi(1), uint(s.intn(256)))))
			one(a.mul(vcLambda), b, k)
		}
		if len(old) < 8 {
			old = append(old, oldCase{a, b, k})
		} else {
			o := &old[s.intn(8)]
			one(o.a, o.b, o.k)
			one(o.a, b, k)
			*o = oldCase{a, b, k}
		}
	}
}

func TestVC_C05(t *testing.T) {
	s := vc_newStream("C05")
	edges := vcEdges()
	one := func(v, r *big.Int, key vc_vec) {
		vc_begin("v=%v r=%v key=%v", v, r, key)
		vc_guard(t, func() {
			K := key.pt()
			sn := vc_take([]ECPoint{K}, v, r)
			com := vc_gv(v).add(vc_hv(r))
			C := PedCommitR(TestCurve, v, r)
			vc_wantPt(t, C, com, "PedCommitR(%v, %v)", v, r)
			for _, x := range []struct{ v, r *big.Int }{{v, r}, {vc_add(v, vc_bi(1)), r}, {v, vc_add(r, vc_bi(1))}, {r, v}, {vc_add(v, vc_oN), r}, {v, vc_sub(r, vc_oN)}, {vc_neg2(v), r}, {v, vc_neg2(r)}, {vc_neg2(v), vc_neg2(r)}, {vc_bi(0), vc_bi(0)}, {s.scalar(), s.scalar()}} {
				w := vc_gv(x.v).add(vc_hv(x.r))
				want := vc_same(w.pt(), com.pt())
				if g := Open(TestCurve, x.v, x.r, com.pt()); g != want {
					vc_fail(t, "Open(%v, %v) of the commitment to (%v, %v) is %v", x.v, x.r, v, r, g)
				}
			}
			for _, q := range []ECPoint{vc_oNeg(com.pt()), {com.pt().X, vc_bi(0)}, {vc_bi(0), com.pt().Y}, {vc_bi(0), vc_bi(0)}, {vc_add(com.pt().X, vc_oP), com.pt().Y}, {com.pt().Y, com.pt().X}} {
				if g := Open(TestCurve, v, r, q); g != vc_same(q, com.pt()) {
					vc_fail(t, "Open(%v, %v) of (%v, %v) is %v", v, r, q.X, q.Y, g)
				}
			}
			vc_wantPt(t, CommitR(TestCurve, K, r), key.mul(r), "CommitR(%v, %v)", key, r)
			rt := key.mul(r).pt()
			for _, x := range []*big.Int{r, vc_add(r, vc_oN), vc_add(r, vc_bi(1)), vc_neg2(r), vc_bi(0), v, vc_sub(r, vc_bi(256))} {
				want := vc_same(key.mul(x).pt(), rt)
				if g := VerifyR(TestCurve, rt, K, x); g != want {
					vc_fail(t, "VerifyR(%v of %v, %v) is %v", r, key, x, g)
				}
			}
			for _, q := range []ECPoint{vc_oNeg(rt), {rt.X, vc_bi(0)}, {vc_bi(0), rt.Y}, {vc_bi(0), vc_bi(0)}, com.pt()} {
				if g := VerifyR(TestCurve, q, K, r); g != vc_same(q, rt) {
					vc_fail(t, "VerifyR of (%v, %v) for %v and %v is %v", q.X, q.Y, key, r, g)
				}
			}
			sn.check(t, vcCur)
		})
		vc_begin("PedCommit and KeyGen: v=%v draw=%v base=%v", v, r, key)
		vc_guard(t, func() {
			for _, d := range []*big.Int{vc_modN(r), vc_bi(0), vc_bi(1), vc_sub(vc_oN, vc_bi(1))} {
				vc_withReader(&vc_drawReader{vals: []*big.Int{d}, s: s}, func() {
					C, rr, err := PedCommit(TestCurve, v)
					if err != nil || rr == nil {
						vc_fail(t, "PedCommit(%v) fails: %v", v, err)
						return
					}
					vc_wantPt(t, C, vc_gv(v).add(vc_hv(rr)), "PedCommit(%v) with randomness %v", v, rr)
					if rr.Sign() < 0 || rr.Cmp(vc_oN) >= 0 {
						vc_fail(t, "PedCommit(%v) returns the randomness %v", v, rr)
					}
					if !Open(TestCurve, v, rr, C) {
						vc_fail(t, "Open refuses the commitment made by PedCommit(%v) with %v", v, rr)
					}
				})
				vc_withReader(&vc_drawReader{vals: []*big.Int{d}, s: s}, func() {
					pk, sk := KeyGen(TestCurve.C, key.pt())
					if sk == nil || sk.Sign() < 0 || sk.Cmp(vc_oN) >= 0 {
						vc_fail(t, "KeyGen returns the secret %v", sk)
						return
					}
					vc_wantPt(t, pk, key.mul(sk), "KeyGen(%v) with secret %v", key, sk)
				})
			}
		})
	}
	pv := vc_pointVecs(s, 12)
	for i, v := range edges {
		one(v, edges[(i*5+3)%len(edges)], pv[i%len(pv)])
		if vc_over(3 * vc_budget()) {
			break
		}
	}
	n := 0
	ov, or, okey := vc_bi(1), vc_bi(1), vc_gv(vc_bi(1))
	for !vc_over(vc_budget()) {
		v, r := s.scalar(), s.scalar()
		if s.intn(4) == 0 {
			v = vc_neg2(v)
		}
		if s.intn(4) == 0 {
			r = vc_neg2(r)
		}
		key := s.vecAny()
		one(v, r, key)
		switch n++; n % 4 {
		case 0:
			one(vc_neg2(v), r, key.mul(vc_bi(-1)))
		case 1:
			one(v, vc_neg2(r), key)
		case 2:
			one(r, v, key)
		case 3:
			one(new(big.Int).Xor(v, new(big.Int).Lsh(vc_bi(1), uint(s.intn(256)))), r, key)
		}
		if n%8 == 5 {
			// the digits of the two numbers, split elsewhere
			a, b := vc_modN(v), vc_modN(r)
			for _, base := range []int{10, 16} {
				d := a.Text(base) + b.Text(base)
				if at := 1 + s.intn(int64(len(d)-1)); d[at] != '0' {
					x, _ := new(big.Int).SetString(d[:at], base)
					y, _ := new(big.Int).SetString(d[at:], base)
					if x.Cmp(vc_oN) < 0 && y.Cmp(vc_oN) < 0 {
						one(a, b, key)
						one(x, y, key)
					}
				}
			}
			d := vc_bi(2 + s.intn(9))
			one(d, vc_bi(11), key)
			one(new(big.Int).Add(vc_mul(d, vc_bi(10)), vc_bi(1)), vc_bi(1), key)
			one(new(big.Int).Lsh(d, 8), vc_bi(1), key)
			one(d, vc_bi(1), key)
		}
		if n%8 == 7 {
			one(ov, or, okey)
			one(ov, r, key)
			ov, or, okey = v, r, key
		}
	}
}
