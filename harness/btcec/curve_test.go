package btcec

import (
	"fmt"
	"math/big"
	"testing"
)

func vc_canonical(x, y *big.Int) bool {
	return x != nil && y != nil && x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(vc_oP) < 0 && y.Cmp(vc_oP) < 0
}

func vc_wantXY(t *testing.T, x, y *big.Int, want ECPoint, format string, a ...interface{}) {
	if x == nil || y == nil || x.Cmp(want.X) != 0 || y.Cmp(want.Y) != 0 {
		vc_fail(t, "%s gives (%v, %v), the group element is (%v, %v)", fmt.Sprintf(format, a...), x, y, want.X, want.Y)
	}
}

func vc_internal(t *testing.T, name string) {
	if f := vcInternal[name]; f != nil {
		f(t)
	}
}

var vc_oBeta = vc_hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
var vc_oLambda = vc_hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")

// related multiples: pairs that take every branch of the addition formulas
func vc_related(s *vc_stream, a vc_vec) []vc_vec {
	return []vc_vec{a, a.mul(vc_bi(-1)), a.mul(vc_oLambda), a.mul(vc_neg(vc_oLambda)), a.mul(vc_mul(vc_oLambda, vc_oLambda)), a.mul(vc_bi(2)), a.mul(vc_bi(-2)), vc_gv(vc_bi(0)), vc_gv(vc_bi(1)), vc_gv(s.scalar()), vc_hv(s.scalar())}
}

func TestVC_C02(t *testing.T) {
	s := vc_newStream("C02")
	c := S256()
	pair := func(a, b vc_vec) {
		A, B := a.pt(), b.pt()
		vc_begin("Add of %v and %v", a, b)
		vc_guard(t, func() {
			x, y := c.Add(A.X, A.Y, B.X, B.Y)
			vc_wantXY(t, x, y, a.add(b).pt(), "Add of %v and %v", a, b)
			if !vc_same(A, a.pt()) || !vc_same(B, b.pt()) {
				vc_fail(t, "Add of %v and %v changes an operand", a, b)
			}
			x, y = c.Add(A.X, A.Y, A.X, A.Y)
			vc_wantXY(t, x, y, a.add(a).pt(), "Add of %v and itself", a)
			x, y = c.Double(A.X, A.Y)
			vc_wantXY(t, x, y, a.add(a).pt(), "Double of %v", a)
		})
	}
	on := func(x, y *big.Int) {
		vc_begin("IsOnCurve(%v, %v)", x, y)
		vc_guard(t, func() {
			if got := c.IsOnCurve(x, y); got != vc_oOn(x, y) {
				vc_fail(t, "IsOnCurve(%v, %v) is %v", x, y, got)
			}
		})
	}
	top := new(big.Int).Lsh(vc_bi(1), 256)
	coords := func(p ECPoint) {
		on(p.X, p.Y)
		on(p.X, vc_sub(vc_oP, p.Y))
		on(p.X, vc_add(p.Y, vc_bi(1)))
		on(vc_add(p.X, vc_bi(1)), p.Y)
		x := vc_mul(p.X, vc_oBeta)
		on(x.Mod(x, vc_oP), p.Y)
		for _, q := range []ECPoint{{vc_add(p.X, vc_oP), p.Y}, {p.X, vc_add(p.Y, vc_oP)}} {
			if q.X.Cmp(top) < 0 && q.Y.Cmp(top) < 0 {
				on(q.X, q.Y)
			}
		}
	}
	pts := vc_pointVecs(s, 24)
	for i, a := range pts {
		coords(a.pt())
		for j, b := range pts {
			if i < 9 || j < 9 {
				pair(a, b)
			}
		}
		for _, b := range vc_related(s, a) {
			pair(a, b)
		}
	}
	on(vc_bi(0), vc_bi(0))
	// x coordinates below 2^256 - P, which have a second representation
	for x := int64(0); x < 400; x++ {
		r := vc_add(new(big.Int).Exp(vc_bi(x), vc_bi(3), vc_oP), vc_bi(7))
		y := new(big.Int).ModSqrt(r, vc_oP)
		if y == nil {
			on(vc_bi(x), vc_bi(x+1))
			continue
		}
		on(vc_bi(x), y)
		on(vc_add(vc_bi(x), vc_oP), y)
		on(vc_add(vc_bi(x), vc_oP), vc_sub(vc_oP, y))
		on(vc_bi(x), vc_add(y, vc_bi(1)))
	}
	for y := int64(0); y < 200; y++ {
		if x := vc_cubeRoot(vc_sub(vc_bi(y*y), vc_bi(7))); x != nil {
			on(x, vc_bi(y))
			on(x, vc_add(vc_bi(y), vc_oP))
		}
		on(vc_sub(top, vc_bi(y)), vc_sub(top, vc_bi(1)))
	}
	vc_internal(t, "C02")
	for !vc_over(vc_budget()) {
		a := vc_gv(s.scalar())
		b := vc_related(s, a)[s.intn(11)]
		pair(a, b)
		coords(b.pt())
		on(s.below(top), s.below(top))
	}
}

// cubeRoot is a cube root modulo P, or nil (P = 1 mod 3; P - 1 = 3 * m with m prime to 3)
func vc_cubeRoot(v *big.Int) *big.Int {
	v = new(big.Int).Mod(v, vc_oP)
	m := new(big.Int).Div(vc_sub(vc_oP, vc_bi(1)), vc_bi(3))
	e := new(big.Int).ModInverse(vc_bi(3), m)
	if e == nil {
		return nil
	}
	r := new(big.Int).Exp(v, e, vc_oP)
	for i := 0; i < 3; i++ {
		if new(big.Int).Exp(r, vc_bi(3), vc_oP).Cmp(v) == 0 {
			return r
		}
		r = vc_mul(r, vc_oBeta)
		r.Mod(r, vc_oP)
	}
	return nil
}

func TestVC_C03(t *testing.T) {
	s := vc_newStream("C03")
	c := S256()
	plain := func(a vc_vec, k []byte) {
		A := a.pt()
		n := new(big.Int).SetBytes(k)
		old := append([]byte{}, k...)
		vc_begin("scalar %x (%d bytes), point %v", k, len(k), a)
		vc_guard(t, func() {
			x, y := c.ScalarMult(A.X, A.Y, k)
			vc_wantXY(t, x, y, a.mul(n).pt(), "ScalarMult of %v by %x", a, old)
			if string(old) != string(k) || !vc_same(A, a.pt()) {
				vc_fail(t, "ScalarMult of %v by %x changes an operand", a, old)
			}
		})
	}
	// what a call leaves behind must not change the next: related inputs in a row
	calls := 0
	one := func(a vc_vec, k []byte) {
		plain(a, k)
		switch calls++; calls % 6 {
		case 0:
			plain(a.mul(vc_bi(-1)), k)
		case 1:
			plain(a.mul(vc_oLambda), k)
		case 2:
			if len(k) > 0 {
				q := append([]byte{}, k...)
				q[s.intn(int64(len(q)))] ^= byte(1 + s.intn(255))
				plain(a, q)
			}
		case 3:
			plain(a, append([]byte{0}, k...))
			plain(a, k)
		}
	}
	base := func(k []byte) {
		n := new(big.Int).SetBytes(k)
		old := append([]byte{}, k...)
		vc_begin("base scalar %x (%d bytes)", k, len(k))
		vc_guard(t, func() {
			x, y := c.ScalarBaseMult(k)
			vc_wantXY(t, x, y, vc_gv(n).pt(), "ScalarBaseMult by %x", old)
			x, y = c.ScalarBaseMultH(k)
			vc_wantXY(t, x, y, vc_hv(n).pt(), "ScalarBaseMultH by %x", old)
			if string(old) != string(k) {
				vc_fail(t, "multiplication by %x changes the scalar", old)
			}
		})
	}
	pts := []vc_vec{vc_gv(vc_bi(1)), vc_gv(vc_bi(0)), vc_hv(vc_bi(1)), vc_gv(s.below(vc_oN)), {vc_bi(3), vc_bi(5)}}
	var ks [][]byte
	for _, e := range vcEdges() {
		if e.Sign() >= 0 {
			ks = append(ks, e.Bytes())
		}
	}
	// scalars whose halves are special: a + b*lambda for short a, b
	halves := []*big.Int{vc_bi(0), vc_bi(1), vc_bi(2), vc_bi(3), vc_bi(0x7f), vc_bi(0x80), vc_bi(0xff), vc_bi(0x100), vc_bi(0xffff), new(big.Int).Lsh(vc_bi(1), 127), vc_sub(new(big.Int).Lsh(vc_bi(1), 127), vc_bi(1)),
		vc_sub(new(big.Int).Lsh(vc_bi(1), 120), vc_bi(1)), new(big.Int).Lsh(vc_bi(0xff), 112), vc_hexInt("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"), vc_hexInt("D5555555555555555555555555555555"),
		vc_hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"), vc_hexInt("FF00000000000000"), vc_hexInt("5555555555555555"), vc_hexInt("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFF")}
	comb := func(a, b *big.Int) {
		for _, sg := range [][2]int64{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}} {
			k := vc_modN(vc_add(vc_mul(a, vc_bi(sg[0])), vc_mul(vc_mul(b, vc_bi(sg[1])), vc_oLambda)))
			ks = append(ks, k.Bytes())
		}
	}
	for i, a := range halves {
		for j, b := range halves {
			if i < 4 || j < 4 || i == j || s.intn(4) == 0 {
				comb(a, b)
			}
		}
	}
	// scalars from the order up, where the table sums pass through equal and opposite points
	for i := int64(-3); i < 520; i++ {
		base(vc_add(vc_oN, vc_bi(i)).Bytes())
	}
	for i := 0; i < 64; i++ {
		v := new(big.Int).Lsh(vc_bi(1), 256)
		base(vc_sub(v, vc_bi(s.intn(1<<16)+1)).Bytes())
		base(vc_add(vc_oN, new(big.Int).Lsh(vc_bi(1+s.intn(511)), uint(8*s.intn(16)))).Bytes())
	}
	for n := 0; n <= 40; n++ {
		k := make([]byte, n)
		s.Read(k)
		ks = append(ks, append([]byte{}, k...))
		z := append(make([]byte, n), k...)
		ks = append(ks, z)
		if n > 0 {
			f := make([]byte, n)
			for i := range f {
				f[i] = 0xff
			}
			ks = append(ks, f, append(append([]byte{}, make([]byte, n-1)...), 1), append([]byte{1}, make([]byte, n-1)...), append([]byte{0x80}, make([]byte, n-1)...), make([]byte, n))
		}
	}
	for _, n := range []int{50, 64, 65, 100, 255, 300} {
		k := make([]byte, n)
		s.Read(k)
		ks = append(ks, k)
	}
	for i, k := range ks {
		one(pts[i%len(pts)], k)
		if i%3 == 0 {
			base(k)
		}
		if vc_over(vc_budget() * 2) {
			break
		}
	}
	// each byte value at some position of the tables
	for i := 0; i < 256; i++ {
		k := make([]byte, 32)
		k[i%32] = byte(i)
		k[(i*7+3)%32] = byte(255 - i)
		base(k)
	}
	vc_internal(t, "C03")
	for !vc_over(vc_budget() * 2) {
		a := pts[s.intn(5)]
		switch s.intn(4) {
		case 0:
			one(a, vc_modN(s.scalar()).Bytes())
		case 1:
			ks = nil
			comb(s.below(new(big.Int).Lsh(vc_bi(1), uint(1+s.intn(130)))), s.below(new(big.Int).Lsh(vc_bi(1), uint(1+s.intn(130)))))
			for _, k := range ks {
				one(a, k)
			}
		case 2:
			k := make([]byte, s.intn(70))
			s.Read(k)
			one(a, k)
			base(k)
		default:
			// runs of ones and zeros
			k := new(big.Int)
			for b := 0; b < 256; {
				n := int(1 + s.intn(20))
				if s.intn(2) == 0 {
					for i := 0; i < n; i++ {
						k.SetBit(k, b+i, 1)
					}
				}
				b += n
			}
			one(a, k.Bytes())
			base(k.Bytes())
		}
	}
}

func TestVC_C04(t *testing.T) { vc_internal(t, "C04") }
