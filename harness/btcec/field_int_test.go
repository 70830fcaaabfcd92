package btcec

import (
	"fmt"
	"math/big"
	"testing"
)

func init() {
	vcInternal["C02"] = vcJacobian
	vcInternal["C03"] = vcDigits
	vcInternal["C04"] = vcField
}

func vc_fVal(f *fieldVal) *big.Int {
	r := new(big.Int)
	for i := 9; i >= 0; i-- {
		r.Lsh(r, 26)
		r.Add(r, vc_bi(int64(f.n[i])))
	}
	return r
}

func vc_fMod(v *big.Int) *big.Int { return new(big.Int).Mod(v, vc_oP) }

// fWords: words within the magnitude, most of them extreme
func vc_fWords(s *vc_stream, mag int64) fieldVal {
	var f fieldVal
	mode := s.intn(6)
	for i := range f.n {
		top := mag * (1<<26 - 1)
		if i == 9 {
			top = mag * (1<<22 - 1)
		}
		switch {
		case mode == 0:
			f.n[i] = uint32(top)
		case mode == 1 || s.intn(2) == 0:
			f.n[i] = uint32(s.intn(top + 1))
		case s.intn(3) == 0:
			f.n[i] = uint32(top - s.intn(3))
		case s.intn(3) == 0:
			f.n[i] = uint32(s.intn(3))
		case s.intn(2) == 0:
			k := s.intn(mag) + 1
			f.n[i] = uint32(k*((top+1)/mag) - 1)
			if int64(f.n[i]) > top {
				f.n[i] = uint32(top)
			}
		default:
			f.n[i] = 0
		}
	}
	if mode == 4 {
		// nearly every word full or empty, so that carries run through
		m := uint32(1<<26 - 1)
		p := []uint32{m - 976, m - 64, m, m, m, m, m, m, m, 1<<22 - 1}
		for i := range f.n {
			full := m
			if i == 9 {
				full = 1<<22 - 1
			}
			switch s.intn(12) {
			case 0:
				f.n[i] = 0
			case 1:
				f.n[i] = 1
			case 2:
				f.n[i] = full - uint32(s.intn(3))
			case 3:
				f.n[i] = full - uint32([]int64{62, 63, 64, 65, 976, 977, 978}[s.intn(7)])
			case 4:
				f.n[i] = p[i] + uint32(s.intn(3)) - 1
			case 5:
				f.n[i] = uint32(s.intn(int64(full) + 1))
			case 6:
				f.n[i] = uint32(int64(full)*mag - s.intn(3))
			case 7, 8:
				f.n[i] = p[i]
			default:
				f.n[i] = full
			}
			if uint64(f.n[i]) > uint64(mag)*uint64(full) {
				f.n[i] = full
			}
		}
	}
	if mode == 5 {
		// close to a multiple of the prime
		k := s.intn(mag) + 1
		v := vc_add(vc_mul(vc_oP, vc_bi(k)), vc_bi(s.intn(7)-3))
		vc_fSplit(&f, v, mag)
	}
	return f
}

// fSplit writes v in words, excess in random places within the magnitude
func vc_fSplit(f *fieldVal, v *big.Int, mag int64) {
	m := new(big.Int).Set(v)
	for i := range f.n {
		f.n[i] = uint32(new(big.Int).And(m, vc_bi(1<<26-1)).Int64())
		m.Rsh(m, 26)
	}
	f.n[9] += uint32(m.Int64() << 26)
}

func vc_fNorm(f *fieldVal) bool {
	for i := 0; i < 9; i++ {
		if f.n[i] >= 1<<26 {
			return false
		}
	}
	return f.n[9] < 1<<22 && vc_fVal(f).Cmp(vc_oP) < 0
}

func vcField(t *testing.T) {
	s := vc_newStream("C04")
	check := func(op string, r *fieldVal, want *big.Int, ins ...fieldVal) {
		var in [][10]uint32
		for _, f := range ins {
			in = append(in, f.n)
		}
		if vc_fMod(vc_fVal(r)).Cmp(vc_fMod(want)) != 0 {
			vc_fail(t, "%s of %v gives the value %x, it is %x", op, in, vc_fMod(vc_fVal(r)), vc_fMod(want))
			return
		}
		// and it normalises to the unique representative
		n := *r
		n.Normalize()
		if !vc_fNorm(&n) || vc_fVal(&n).Cmp(vc_fMod(want)) != 0 {
			vc_fail(t, "%s of %v: the result %v normalises to %v", op, in, r.n, n.n)
		}
	}
	kept := func(op string, p *fieldVal, old fieldVal) {
		if *p != old {
			vc_fail(t, "%s changes its operand from %v to %v", op, old.n, p.n)
		}
	}
	// the documented limits: factors of magnitude 8, values of magnitude 63 are more than any use needs
	for i := 0; !vc_over(vc_budget()) || i < 2000; i++ {
		m1, m2 := 1+s.intn(8), 1+s.intn(8)
		a, b := vc_fWords(s, m1), vc_fWords(s, m2)
		va, vb := vc_fVal(&a), vc_fVal(&b)
		vc_begin("a=%v b=%v", a.n, b.n)
		vc_guard(t, func() {
			var r fieldVal
			x, y := a, b
			r = vc_fWords(s, 3)
			check("Mul2", r.Mul2(&x, &y), vc_mul(va, vb), a, b)
			kept("Mul2", &x, a)
			kept("Mul2", &y, b)
			check("Mul2 of a value by itself", r.Mul2(&x, &x), vc_mul(va, va), a)
			kept("Mul2", &x, a)
			r = a
			check("Mul2 into the second factor", r.Mul2(&y, &r), vc_mul(va, vb), b, a)
			r = a
			check("Mul2 into the only factor", r.Mul2(&r, &r), vc_mul(va, va), a)
			r = a
			check("Mul", r.Mul(&y), vc_mul(va, vb), a, b)
			r = a
			check("Mul by itself", r.Mul(&r), vc_mul(va, va), a)
			r = b
			check("SquareVal", r.SquareVal(&x), vc_mul(va, va), a)
			kept("SquareVal", &x, a)
			r = a
			check("Square", r.Square(), vc_mul(va, va), a)
			r = vc_fWords(s, 3)
			check("Add2", r.Add2(&x, &y), vc_add(va, vb), a, b)
			kept("Add2", &x, a)
			kept("Add2", &y, b)
			r = a
			check("Add", r.Add(&y), vc_add(va, vb), a, b)
			kept("Add", &y, b)
			r = a
			check("Add of itself", r.Add(&r), vc_add(va, va), a)
			r = vc_fWords(s, 3)
			m := uint32(m1 + s.intn(3))
			check(fmt.Sprintf("NegateVal(%d)", m), r.NegateVal(&x, m), new(big.Int).Neg(va), a)
			kept("NegateVal", &x, a)
			r = a
			check(fmt.Sprintf("Negate(%d)", m), r.Negate(m), new(big.Int).Neg(va), a)
			k := uint(1 + s.intn(28/m1))
			r = a
			check(fmt.Sprintf("MulInt(%d)", k), r.MulInt(k), vc_mul(va, vc_bi(int64(k))), a)
			k = uint(s.intn(1 << 26))
			if s.intn(3) == 0 {
				k = 1<<26 - 1
			}
			r = a
			check(fmt.Sprintf("AddInt(%d)", k), r.AddInt(k), vc_add(va, vc_bi(int64(k))), a)
			check(fmt.Sprintf("SetInt(%d)", k), r.SetInt(k), vc_bi(int64(k)))
			r = a
			check("Normalize", r.Normalize(), va, a)
			if vc_fVal(&r).Cmp(vc_fMod(va)) != 0 || !vc_fNorm(&r) {
				vc_fail(t, "Normalize of %v gives %v", a.n, r.n)
			}
			n, z := r, r
			check("Set", z.Set(&x), va, a)
			kept("Set", &x, a)
			if n.IsZero() != (vc_fMod(va).Sign() == 0) || n.IsOdd() != (vc_fMod(va).Bit(0) == 1) {
				vc_fail(t, "IsZero or IsOdd of %v is wrong", n.n)
			}
			q := b
			q.Normalize()
			if n.Equals(&q) != (vc_fMod(va).Cmp(vc_fMod(vb)) == 0) || !n.Equals(&n) {
				vc_fail(t, "Equals of %v and %v is wrong", n.n, q.n)
			}
			w := n
			w.n[s.intn(10)] ^= 1 << uint(s.intn(22))
			if n.Equals(&w) {
				vc_fail(t, "Equals of %v and %v is true", n.n, w.n)
			}
			if s.intn(8) == 0 {
				r = a
				got := r.Inverse()
				want := new(big.Int).ModInverse(vc_fMod(va), vc_oP)
				if want == nil {
					want = vc_bi(0)
				}
				check("Inverse", got, want, a)
			}
			bytes := n.Bytes()
			if new(big.Int).SetBytes(bytes[:]).Cmp(vc_fMod(va)) != 0 {
				vc_fail(t, "Bytes of %v gives %x", n.n, *bytes)
			}
			var pb [32]byte
			for i := range pb {
				pb[i] = byte(s.intn(256))
			}
			n.PutBytes(&pb)
			if pb != *bytes {
				vc_fail(t, "PutBytes of %v gives %x", n.n, pb)
			}
			raw := make([]byte, s.intn(37))
			s.Read(raw)
			if s.intn(2) == 0 {
				for i := range raw {
					raw[i] = 0xff
				}
			}
			first := raw
			if len(first) > 32 {
				first = first[:32]
			}
			r = a
			check(fmt.Sprintf("SetByteSlice(%x)", raw), r.SetByteSlice(raw), new(big.Int).SetBytes(first))
			r = a
			check(fmt.Sprintf("SetHex(%x)", raw), r.SetHex(fmt.Sprintf("%x", raw)), new(big.Int).SetBytes(first))
			if len(raw) >= 32 {
				var b32 [32]byte
				copy(b32[:], raw)
				r = a
				check(fmt.Sprintf("SetBytes(%x)", b32), r.SetBytes(&b32), new(big.Int).SetBytes(b32[:]))
			}
			r.Zero()
			if r != (fieldVal{}) {
				vc_fail(t, "Zero gives %v", r.n)
			}
			// sums of many terms, negations of large magnitude
			big1 := vc_fWords(s, 28)
			vb1 := vc_fVal(&big1)
			r = big1
			check("Normalize", r.Normalize(), vb1, big1)
			check("NegateVal(28)", r.NegateVal(&big1, 28), new(big.Int).Neg(vb1), big1)
			r = big1
			check("Add", r.Add(&y), vc_add(vb1, vb), big1, b)
		})
	}
}

func vc_fOf(v *big.Int) *fieldVal { return new(fieldVal).SetByteSlice(vc_fMod(v).Bytes()) }

// jacobian representation of the point with coordinate z
func vc_jOf(p ECPoint, z *big.Int) [3]*fieldVal {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return [3]*fieldVal{vc_fOf(vc_bi(0)), vc_fOf(vc_bi(0)), vc_fOf(vc_bi(0))}
	}
	z2 := vc_mul(z, z)
	return [3]*fieldVal{vc_fOf(vc_mul(p.X, z2)), vc_fOf(vc_mul(p.Y, vc_mul(z2, z))), vc_fOf(z)}
}

func vcJacobian(t *testing.T) {
	s := vc_newStream("C02 internal")
	c := S256()
	zs := func() *big.Int {
		switch s.intn(4) {
		case 0:
			return vc_bi(1)
		case 1:
			return vc_bi(2)
		case 2:
			return vc_sub(vc_oP, vc_bi(1+s.intn(2)))
		}
		return vc_add(s.below(vc_sub(vc_oP, vc_bi(1))), vc_bi(1))
	}
	out := func(p [3]fieldVal) ECPoint {
		x, y := c.fieldJacobianToBigAffine(&p[0], &p[1], &p[2])
		if !vc_canonical(x, y) {
			vc_fail(t, "coordinates not canonical: %v, %v", x, y)
		}
		return ECPoint{x, y}
	}
	n := 600
	if vcDeep {
		n = 20000
	}
	for i := 0; i < n; i++ {
		a := vc_gv(s.scalar())
		if i%7 == 0 {
			a = vc_gv(vc_bi(0))
		}
		b := vc_related(s, a)[s.intn(11)]
		z1, z2 := zs(), zs()
		if s.intn(3) == 0 {
			z2 = z1
		}
		vc_begin("addJacobian of %v with z=%v and %v with z=%v", a, z1, b, z2)
		vc_guard(t, func() {
			p, q := vc_jOf(a.pt(), z1), vc_jOf(b.pt(), z2)
			var r [3]fieldVal
			c.addJacobian(p[0], p[1], p[2], q[0], q[1], q[2], &r[0], &r[1], &r[2])
			if g := out(r); !vc_same(g, a.add(b).pt()) {
				vc_fail(t, "addJacobian of %v with z=%v and %v with z=%v gives %v", a, z1, b, z2, g)
			}
			p, q = vc_jOf(a.pt(), z1), vc_jOf(b.pt(), z2)
			c.addJacobian(p[0], p[1], p[2], q[0], q[1], q[2], p[0], p[1], p[2])
			if g := out([3]fieldVal{*p[0], *p[1], *p[2]}); !vc_same(g, a.add(b).pt()) {
				vc_fail(t, "addJacobian of %v with z=%v and %v with z=%v in place gives %v", a, z1, b, z2, g)
			}
			p = vc_jOf(a.pt(), z1)
			c.doubleJacobian(p[0], p[1], p[2], &r[0], &r[1], &r[2])
			if g := out(r); !vc_same(g, a.add(a).pt()) {
				vc_fail(t, "doubleJacobian of %v with z=%v gives %v", a, z1, g)
			}
			p = vc_jOf(a.pt(), z1)
			c.doubleJacobian(p[0], p[1], p[2], p[0], p[1], p[2])
			// unnormalised results are operands again
			q = vc_jOf(b.pt(), z2)
			c.addJacobian(p[0], p[1], p[2], q[0], q[1], q[2], p[0], p[1], p[2])
			c.doubleJacobian(p[0], p[1], p[2], p[0], p[1], p[2])
			if g := out([3]fieldVal{*p[0], *p[1], *p[2]}); !vc_same(g, a.mul(vc_bi(4)).add(b.mul(vc_bi(2))).pt()) {
				vc_fail(t, "2*(2*%v (z=%v) + %v (z=%v)) gives %v", a, z1, b, z2, g)
			}
		})
	}
}

func vc_signed(pos, neg []byte) (*big.Int, bool) {
	p, n := new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg)
	return vc_sub(p, n), new(big.Int).And(p, n).Sign() == 0
}

func vcDigits(t *testing.T) {
	s := vc_newStream("C03 internal")
	c := S256()
	naf := func(k []byte) {
		old := append([]byte{}, k...)
		vc_begin("NAF(%x)", k)
		vc_guard(t, func() {
			p, n := NAF(k)
			v, disjoint := vc_signed(p, n)
			if v.Cmp(new(big.Int).SetBytes(old)) != 0 || !disjoint || len(p) != len(n) {
				vc_fail(t, "NAF(%x) gives %x and %x", old, p, n)
			}
		})
	}
	split := func(k []byte) {
		vc_begin("splitK(%x)", k)
		vc_guard(t, func() {
			a, b, sa, sb := c.splitK(k)
			v := vc_mul(new(big.Int).SetBytes(a), vc_bi(int64(sa)))
			v.Add(v, vc_mul(vc_mul(new(big.Int).SetBytes(b), vc_bi(int64(sb))), vc_oLambda))
			if vc_modN(v).Cmp(vc_modN(new(big.Int).SetBytes(k))) != 0 {
				vc_fail(t, "splitK(%x) gives %d*%x and %d*%x", k, sa, a, sb, b)
			}
			naf(a)
			naf(b)
		})
	}
	for i := 0; i < 65536; i += 1 + int(s.intn(7)) {
		naf([]byte{byte(i >> 8), byte(i)})
	}
	for i := 0; i < 256; i++ {
		naf([]byte{byte(i)})
		naf([]byte{byte(i), 0xff, 0xff, byte(i)})
	}
	naf(nil)
	n := 3000
	if vcDeep {
		n = 100000
	}
	for i := 0; i < n; i++ {
		k := make([]byte, s.intn(33))
		s.Read(k)
		split(k)
		split(vc_modN(s.scalar()).Bytes())
		m := make([]byte, s.intn(60))
		s.Read(m)
		r := c.moduloReduce(append([]byte{}, m...))
		if len(r) > 32 || vc_modN(new(big.Int).SetBytes(r)).Cmp(vc_modN(new(big.Int).SetBytes(m))) != 0 {
			vc_fail(t, "moduloReduce(%x) gives %x", m, r)
		}
	}
}
