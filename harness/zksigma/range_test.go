package zksigma

import (
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"testing"
)

// yieldReader gives way at random, so that goroutines interleave in other ways
type vc_yieldReader struct {
	r io.Reader
	s *vc_stream
}

func (y *vc_yieldReader) Read(p []byte) (int, error) {
	n := y.s.intn(4)
	k, err := y.r.Read(p)
	for i := int64(0); i < n; i++ {
		runtime.Gosched()
	}
	return k, err
}

func TestVC_C21(t *testing.T) {
	s := vc_newStream("21")
	lim := new(big.Int).Lsh(vc_bi(1), 40)
	var pool []*big.Int
	for k := uint(0); k <= 42; k++ {
		b := new(big.Int).Lsh(vc_bi(1), k)
		pool = append(pool, b, vc_sub(b, vc_bi(1)), vc_add(b, vc_bi(1)))
	}
	for _, k := range []uint{63, 64, 65, 128, 255, 256, 257} {
		b := new(big.Int).Lsh(vc_bi(1), k)
		pool = append(pool, b, vc_sub(b, vc_bi(1)), vc_add(b, vc_bi(1)), new(big.Int).Neg(b))
	}
	pool = append(pool, vc_bi(-1), vc_bi(-2), vc_bi(-5), vc_neg2i(lim), vc_sub(vc_neg2i(lim), vc_bi(1)), vc_cp(vc_oN), vc_add(vc_oN, vc_bi(5)), vc_sub(vc_oN, vc_bi(1)), vc_neg2i(vc_oN),
		vc_sub(vc_bi(5), vc_oN), vc_mul(vc_oN, vc_bi(2)), vc_hexInt("AAAAAAAAAA"), vc_hexInt("5555555555"), vc_hexInt("FFFFFFFF"), vc_hexInt("100000000FF"), vc_hexInt("FF00000000"))
	pool = append(pool, vcConsts()...)
	one := func(v *big.Int, r io.Reader) {
		want := v.Sign() >= 0 && v.Cmp(lim) < 0
		vc_begin("range proof of %v", v)
		vc_guard(t, func() {
			var p *RangeProof
			var rr *big.Int
			var err error
			in := vc_cp(v)
			vc_withReader(r, func() { p, rr, err = NewRangeProof(TestCurve, in) })
			if !want {
				if err == nil || p != nil || rr != nil {
					vc_fail(t, "a range proof is made for %v (error %v)", v, err)
				}
				return
			}
			if err != nil || p == nil || rr == nil {
				vc_fail(t, "no range proof for %v: %v", v, err)
				return
			}
			if ok, err := p.Verify(TestCurve, vc_vec{vc_modN(v), vc_modN(rr)}.pt()); !ok || err != nil {
				vc_fail(t, "the range proof of %v is refused for its commitment: %s", v, vc_boolErr(ok, err))
			}
		})
	}
	locked := func() io.Reader {
		return &vc_lockReader{r: &vc_yieldReader{vc_newStream(fmt.Sprint("r", s.intn(1<<60))), vc_newStream("y")}}
	}
	n1 := vc_sub(vc_oN, vc_bi(1))
	for i := 0; !vc_over(vc_budget()); i++ {
		var v *big.Int
		switch {
		case i < len(pool):
			v = pool[i]
		case s.intn(8) == 0:
			v = pool[s.intn(int64(len(pool)))]
		case s.intn(10) == 0:
			v = s.scalar()
		default:
			v = s.below(lim)
		}
		r := locked()
		if i%5 == 3 {
			d := []*big.Int{vc_bi(1), n1, vc_bi(2)}[s.intn(3)]
			r = &vc_drawReader{vals: []*big.Int{d, d, vc_bi(1), s.below(vc_oN), n1}, s: vc_newStream("z" + fmt.Sprint(i))}
		}
		runtime.GOMAXPROCS([]int{1, 2, 8, 3}[i%4])
		one(v, r)
	}
	runtime.GOMAXPROCS(8)
}

func vc_neg2i(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

// ---------------------------------------------------------------- exactness

type vc_ring struct {
	C       []vc_vec
	S       []*big.Int
	E       *big.Int
	agg, cm vc_vec
}

func (r vc_ring) clone() vc_ring {
	n := vc_ring{append([]vc_vec{}, r.C...), nil, vc_cp(r.E), r.agg, r.cm}
	for _, s := range r.S {
		n.S = append(n.S, vc_cp(s))
	}
	return n
}

func (r vc_ring) String() string {
	return fmt.Sprintf("C=%v S=%v E=%v aggregate=%v commitment=%v", r.C, r.S, r.E, r.agg, r.cm)
}

func vc_h256(p ECPoint) *big.Int {
	h := sha256.Sum256(append(append([]byte{}, p.X.Bytes()...), p.Y.Bytes()...))
	return new(big.Int).SetBytes(h[:])
}

func vc_gen2(i int) vc_vec { return vc_gv(new(big.Int).Lsh(vc_bi(1), uint(i))) }

func vc_ringE(R []vc_vec, drop int) *big.Int {
	h := sha256.New()
	for i, v := range R {
		if i != drop {
			p := v.pt()
			h.Write(p.X.Bytes())
			h.Write(p.Y.Bytes())
		}
	}
	return vc_modN(new(big.Int).SetBytes(h.Sum(nil)))
}

func (r vc_ring) holds() bool {
	var R []vc_vec
	sum := vc_gv(vc_bi(0))
	if len(r.C) > 64 {
		return false
	}
	if !r.agg.eq(r.cm) {
		return false
	}
	for i := range r.C {
		sum = sum.add(r.C[i])
	}
	if !sum.eq(r.agg) {
		return false
	}
	for i := range r.C {
		tot := vc_hv(r.S[i]).sub(r.C[i].sub(vc_gen2(i)).mul(r.E))
		R = append(R, r.C[i].mul(vc_h256(tot.pt())))
	}
	return vc_ringE(R, -1).Cmp(r.E) == 0
}

// prove makes a ring proof of the bits; tweak[i] multiplies the ring point of i before hashing;
// drop is left out of the hash.
func vc_ringProve(s *vc_stream, bits []bool, drop int, tweak map[int]*big.Int) vc_ring {
	n := len(bits)
	r := vc_ring{C: make([]vc_vec, n), S: make([]*big.Int, n)}
	k := make([]*big.Int, n)
	v := make([]*big.Int, n)
	R := make([]vc_vec, n)
	for i := range bits {
		k[i], v[i] = s.nonzero(), s.nonzero()
		if bits[i] {
			r.C[i] = vc_gen2(i).add(vc_hv(v[i]))
			R[i] = r.C[i].mul(vc_h256(vc_hv(k[i]).pt()))
		} else {
			R[i] = vc_hv(k[i])
		}
	}
	hashed := append([]vc_vec{}, R...)
	for i, q := range tweak {
		hashed[i] = hashed[i].mul(q)
	}
	r.E = vc_ringE(hashed, drop)
	r.agg = vc_gv(vc_bi(0))
	for i := range bits {
		if bits[i] {
			r.S[i] = vc_addN(k[i], vc_mul(r.E, v[i]))
		} else {
			j := s.nonzero()
			ei := vc_h256(vc_hv(j).add(vc_gen2(i).mul(r.E)).pt())
			kk := vc_mulN(k[i], vc_inv(ei))
			r.C[i] = vc_hv(kk)
			r.S[i] = vc_addN(j, vc_mul(r.E, kk))
		}
		r.agg = r.agg.add(r.C[i])
	}
	r.cm = r.agg
	return r
}

func (r vc_ring) proof() *RangeProof {
	p := &RangeProof{ProofAggregate: r.agg.pt(), ProofE: vc_cp(r.E)}
	for i := range r.C {
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{C: r.C[i].pt(), S: vc_cp(r.S[i])})
	}
	return p
}

func TestVC_C22(t *testing.T) {
	s := vc_newStream("22")
	try := func(what string, r vc_ring) {
		want := r.holds()
		vc_begin("%s: %v", what, r)
		vc_guard(t, func() {
			ok, err := vc_reuse(r.proof()).(*RangeProof).Verify(TestCurve, r.cm.pt())
			if ok != want || (err == nil) != want {
				x := r.String()
				if len(x) > 1500 {
					x = x[:1500] + "..."
				}
				vc_fail(t, "%s (%d entries): Verify gives %s, the relation says %v%s; %s", what, len(r.C), vc_boolErr(ok, err), want, vcReused, x)
			}
		})
	}
	for round := 0; !vc_over(vc_budget()); round++ {
		n := int(s.intn(5))
		switch round {
		case 0:
			n = 3
		case 1:
			n = 40
		case 2:
			n = 64
		case 3:
			n = 65
		case 4:
			n = 41
		}
		if round > 4 && s.intn(30) == 0 {
			n = int(5 + s.intn(60))
		}
		if round == 5 {
			// more entries than generators, each well formed
			for _, m := range []int{65, 66, 80, 128} {
				r := vc_ring{E: vc_bi(1), agg: vc_gv(vc_bi(0)), cm: vc_gv(vc_bi(0))}
				for i := 0; i < m; i++ {
					r.C, r.S = append(r.C, vc_gv(vc_bi(0))), append(r.S, vc_bi(0))
				}
				r.E = vc_ringE(r.C, -1)
				try("too many entries", r)
			}
		}
		bits := make([]bool, n)
		for i := range bits {
			bits[i] = s.intn(2) == 0
		}
		big40 := n > 8
		a := vc_ringProve(s, bits, -1, nil)
		try("honest ring proof", a)
		b := a.clone()
		b.E = vc_add(b.E, vc_oN)
		try("challenge plus the order", b)
		b = a.clone()
		b.E = vc_addN(b.E, vc_bi(1))
		try("another challenge", b)
		b = a.clone()
		b.agg = b.agg.add(vc_gv(vc_bi(1)))
		try("another aggregate", b)
		b = a.clone()
		b.cm = b.cm.add(vc_gv(vc_bi(1)))
		try("another commitment", b)
		for j, k := range vc_factors(s) {
			if round > 0 && s.intn(5) != 0 && !(j == 0 && round < 8) {
				continue
			}
			b = a.clone()
			b.cm = b.cm.mul(k)
			try("commitment multiplied", b)
			b = a.clone()
			b.agg = b.agg.mul(k)
			try("aggregate multiplied", b)
			b.cm = b.agg
			try("aggregate and commitment multiplied", b)
		}
		b = a.clone()
		b.agg = s.vecAny()
		b.cm = b.agg
		try("aggregate and commitment replaced", b)
		if n == 0 {
			continue
		}
		idx := []int{int(s.intn(int64(n)))}
		if n <= 8 {
			idx = nil
			for i := 0; i < n; i++ {
				idx = append(idx, i)
			}
		} else {
			idx = append(idx, n-1, 0)
			if n > 40 {
				idx = append(idx, 40)
			}
		}
		for _, i := range idx {
			b = a.clone()
			b.S[i] = vc_add(b.S[i], vc_oN)
			try("response plus the order", b)
			b = a.clone()
			b.S[i] = vc_sub(b.S[i], vc_mul(vc_oN, vc_bi(2)))
			try("response minus twice the order", b)
			b = a.clone()
			b.S[i] = vc_addN(b.S[i], vc_bi(1))
			try("another response", b)
			b = a.clone()
			b.S[i] = s.below(vc_oN)
			try("a random response", b)
			b = a.clone()
			old := b.C[i]
			b.C[i] = b.C[i].mul(vc_factors(s)[s.intn(7)])
			try("another entry", b)
			b.agg = b.agg.sub(old).add(b.C[i])
			b.cm = b.agg
			try("another entry, sum adapted", b)
			// the entry's value is not a bit and its ring point does not enter the hash
			b = vc_ringProve(s, bits, i, nil)
			try("ring point left out of the hash", b)
			b.agg = b.agg.sub(b.C[i])
			b.C[i] = vc_vec{s.below(vc_oN), s.below(vc_oN)}
			b.agg = b.agg.add(b.C[i])
			b.cm = b.agg
			try("free entry left out of the hash", b)
			if !bits[i] {
				for _, q := range []*big.Int{vc_bi(-1), vcLambda} {
					// ring point known up to a factor: R' = qR has C' = qC and S' = j + q*(S - j)
					k := s.nonzero()
					c := vc_ringProveTweaked(s, bits, i, k, q)
					try("ring point hashed up to the factor "+q.Text(16), c)
				}
			}
			// entry missing
			if !big40 || i == idx[0] {
				for what := 0; what < 3; what++ {
					p := a.proof()
					switch what {
					case 0:
						p.ProofTuples[i].C = ECPoint{nil, nil}
					case 1:
						p.ProofTuples[i].S = nil
					case 2:
						p.ProofTuples[i] = rangeProofTuple{}
					}
					vc_begin("range proof with missing part %d of entry %d of %d", what, i, n)
					vc_guard(t, func() {
						if ok, err := p.Verify(TestCurve, a.cm.pt()); ok || err == nil {
							vc_fail(t, "range proof with missing part %d of entry %d of %d gives %s", what, i, n, vc_boolErr(ok, err))
						}
					})
				}
			}
			// an entry that is forged with the gap at a fixed challenge: ring closed at index i only by chance
			b = a.clone()
			b.C[i] = b.C[i].add(vc_gen2(i))
			b.agg = b.agg.add(vc_gen2(i))
			b.cm = b.agg
			try("entry shifted by its generator", b)
		}
		if n > 1 {
			i := int(s.intn(int64(n - 1)))
			b = a.clone()
			b.C[i], b.C[i+1], b.S[i], b.S[i+1] = b.C[i+1], b.C[i], b.S[i+1], b.S[i]
			try("entries swapped", b)
			b = a.clone()
			b.C, b.S = b.C[:n-1], b.S[:n-1]
			try("last entry removed", b)
			b.agg = a.agg.sub(a.C[n-1])
			b.cm = b.agg
			try("last entry removed, sum adapted", b)
			b = a.clone()
			b.C, b.S = b.C[1:], b.S[1:]
			try("first entry removed", b)
			d := s.below(vc_oN)
			b = a.clone()
			b.C[i], b.C[i+1] = b.C[i].add(vc_hv(d)), b.C[i+1].sub(vc_hv(d))
			try("entries shifted in opposite ways", b)
		}
		b = a.clone()
		b.C, b.S = append(b.C, vc_gv(vc_bi(0))), append(b.S, vc_bi(0))
		try("identity entry appended", b)
		// fewer generators than entries
		if n > 1 && n < 65 {
			z := TestCurve
			z.HPoints = z.HPoints[:n-1]
			vc_begin("range proof of %d entries with %d generators", n, n-1)
			vc_guard(t, func() {
				if ok, err := a.proof().Verify(z, a.cm.pt()); ok || err == nil {
					vc_fail(t, "range proof of %d entries with %d generators gives %s", n, n-1, vc_boolErr(ok, err))
				}
			})
		}
	}
}

// ringProveTweaked hashes R_i = k*H for the zero bit i and answers for q*R_i.
func vc_ringProveTweaked(s *vc_stream, bits []bool, i int, k, q *big.Int) vc_ring {
	n := len(bits)
	r := vc_ring{C: make([]vc_vec, n), S: make([]*big.Int, n)}
	ks := make([]*big.Int, n)
	vs := make([]*big.Int, n)
	R := make([]vc_vec, n)
	for x := range bits {
		ks[x], vs[x] = s.nonzero(), s.nonzero()
		if bits[x] {
			r.C[x] = vc_gen2(x).add(vc_hv(vs[x]))
			R[x] = r.C[x].mul(vc_h256(vc_hv(ks[x]).pt()))
		} else {
			R[x] = vc_hv(ks[x])
		}
	}
	r.E = vc_ringE(R, -1)
	r.agg = vc_gv(vc_bi(0))
	for x := range bits {
		if bits[x] {
			r.S[x] = vc_addN(ks[x], vc_mul(r.E, vs[x]))
		} else {
			j := s.nonzero()
			ei := vc_h256(vc_hv(j).add(vc_gen2(x).mul(r.E)).pt())
			kk := vc_mulN(ks[x], vc_inv(ei))
			if x == i {
				kk = vc_mulN(kk, q)
			}
			r.C[x] = vc_hv(kk)
			r.S[x] = vc_addN(j, vc_mul(r.E, kk))
		}
		r.agg = r.agg.add(r.C[x])
	}
	r.cm = r.agg
	return r
}
