package zksigma

import (
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"testing"
)

// ---------------------------------------------------------------- exactness

// tryTr compares the verifier with the reference on one transcript.
func vc_tryTr(t *testing.T, p *vc_sigma, what string, x vc_tr) bool {
	want := p.holds(x)
	vc_begin("%s: %s", what, vc_describe(p, x))
	vc_guard(t, func() {
		ok, err := p.verify(x)
		if ok != want || (err == nil) != want {
			vc_fail(t, "%s: Verify gives %s, the relation %s%s; %s", what, vc_boolErr(ok, err), map[bool]string{true: "holds", false: "does not hold"}[want], vcReused, vc_describe(p, x))
		}
	})
	return want
}

func vc_finishTr(p *vc_sigma, x vc_tr, f func(*big.Int)) {
	c := p.hash(x)
	x.S[p.chal] = c
	f(vc_cp(c))
}

func vc_exactness(t *testing.T, name string) {
	p := vc_sigmas()[name]
	s := vc_newStream("exact" + name)
	accepted := 0
	for round := 0; !vc_over(vc_budget()); round++ {
		st, w := p.truth(s)
		st.S["w"] = w
		x := st.clone()
		f := p.honest(s, x)
		// honest, plus shifts of the scalars by the order
		vc_finishTr(p, x, f)
		if vc_tryTr(t, p, "honest transcript", x) {
			accepted++
		}
		all := append(append([]string{}, p.resp...), p.chal)
		if name == "ABC" {
			all = append(all, "dc", "dc1", "dc2", "ds1", "ds2")
		}
		for _, k := range all {
			for _, d := range []*big.Int{vc_oN, vc_neg2(vc_oN), vc_mul(vc_oN, vc_bi(3)), vc_bi(1), vc_bi(-1), s.below(vc_oN), new(big.Int).Lsh(vc_bi(1), uint(s.intn(256)))} {
				if round > 1 && s.intn(3) > 0 {
					continue
				}
				y := x.clone()
				y.S[k] = vc_add(y.S[k], d)
				vc_tryTr(t, p, "scalar "+k+" shifted by "+d.Text(16), y)
			}
			if round%3 == 0 {
				for _, v := range []*big.Int{vc_bi(0), vc_bi(1), vc_oN, vc_neg2(x.S[k])} {
					y := x.clone()
					y.S[k] = vc_cp(v)
					vc_tryTr(t, p, "scalar "+k+" replaced", y)
				}
			}
		}
		// two scalars changed together
		if len(all) > 1 {
			a, b := all[s.intn(int64(len(all)))], all[s.intn(int64(len(all)))]
			d := s.below(vc_oN)
			y := x.clone()
			y.S[a], y.S[b] = vc_addN(y.S[a], d), vc_subN(y.S[b], d)
			vc_tryTr(t, p, "scalars "+a+", "+b+" shifted in opposite ways", y)
			y = x.clone()
			y.S[a], y.S[b] = y.S[b], y.S[a]
			vc_tryTr(t, p, "scalars "+a+", "+b+" swapped", y)
		}
		// altered points under the same challenge
		var pts []string
		pts = append(append(pts, p.stmt...), p.commit...)
		if name == "GSPFS" {
			pts = append(pts, "base")
		}
		if name == "ABC" {
			pts = append(pts, "dT1", "dT2")
		}
		for _, k := range pts {
			for _, q := range vc_factors(s) {
				if round > 0 && s.intn(3) > 0 {
					continue
				}
				y := x.clone()
				y.P[k] = y.P[k].mul(q)
				vc_tryTr(t, p, "point "+k+" multiplied by "+q.Text(16), y)
			}
			y := x.clone()
			y.P[k] = y.P[k].add(s.vecAny())
			vc_tryTr(t, p, "point "+k+" shifted", y)
		}
		// commitments off in one equation, with the challenge computed for them
		for _, k := range p.commit {
			for _, q := range vc_factors(s) {
				if round > 0 && s.intn(3) > 0 {
					continue
				}
				y := st.clone()
				f := p.honest(s, y)
				y.P[k] = y.P[k].mul(q)
				if name == "ABC" {
					vc_abcDj(s, y)
				}
				vc_finishTr(p, y, f)
				vc_tryTr(t, p, "commitment "+k+" multiplied by "+q.Text(16)+" before hashing", y)
			}
			y := st.clone()
			f := p.honest(s, y)
			y.P[k] = y.P[k].add(s.vecAny())
			if name == "ABC" {
				vc_abcDj(s, y)
			}
			vc_finishTr(p, y, f)
			vc_tryTr(t, p, "commitment "+k+" shifted before hashing", y)
		}
		// a false statement with honest commitments
		for _, k := range p.stmt {
			y := st.clone()
			switch s.intn(3) {
			case 0:
				y.P[k] = y.P[k].mul(vc_factors(s)[s.intn(7)])
			case 1:
				y.P[k] = y.P[k].add(s.vecAny())
			default:
				y.P[k] = s.vecAny()
			}
			f := p.honest(s, y)
			vc_finishTr(p, y, f)
			vc_tryTr(t, p, "statement with another "+k, y)
		}
		// equations hold for a challenge that is not the hash, or is the hash of less than the transcript
		for _, k := range vc_solvers(p) {
			solve := p.solve[k]
			y := x.clone()
			y.S[p.chal] = s.below(vc_oN)
			if solve(y) {
				vc_tryTr(t, p, "challenge chosen freely, "+k+" fitted", y)
			}
			y = x.clone()
			for _, c := range p.commit {
				y.P[c] = vc_vec{s.below(vc_oN), s.below(vc_oN)}
			}
			if name == "ABC" {
				y.P["C"] = vc_gv(vc_bi(1)).add(vc_hv(s.below(vc_oN)))
			}
			for _, r := range p.resp {
				y.S[r] = s.below(vc_oN)
			}
			vc_forge(t, p, s, y, k)
		}
		vc_forgePairs(t, p, s, x)
		if name == "Disjunctive" || name == "ABC" {
			vc_free(t, p, s, x)
		}
		for _, r := range p.resp {
			// the first bytes of the scalar are zero
			if round%4 == 0 {
				y := x.clone()
				y.S[r] = vc_bi(0)
				p.solve[p.commit[len(p.commit)-1]](y)
				vc_finishTr(p, y, func(*big.Int) {})
				vc_tryTr(t, p, "zero response", y)
			}
		}
	}
	if accepted == 0 {
		vc_fail(t, "no honest transcript was accepted by the reference")
	}
}

func vc_neg2(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

// solvers in a fixed order, so that a run depends on its seed alone
func vc_solvers(p *vc_sigma) []string {
	var r []string
	for k := range p.solve {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// forge builds a transcript that passes when component k is left out of the hash
func vc_forge(t *testing.T, p *vc_sigma, s *vc_stream, y vc_tr, k string) {
	z := y.clone()
	switch p.name {
	case "Equivalence":
		// the other equation fixes the response: give the other side a witness
		o := map[byte]string{'1': "2", '2': "1"}[k[1]]
		u, w := s.below(vc_oN), s.below(vc_oN)
		z.P["r"+o] = z.P["b"+o].mul(w)
		z.P["T"+o] = z.P["b"+o].mul(u)
		if z.P["b"+k[1:]].isZero() && k[0] != 'b' {
			z.P["b"+k[1:]] = vc_gv(s.below(vc_oN))
		}
		c := p.hashWithout(z, k)
		z.S["c"], z.S["s"] = c, vc_addN(u, vc_mul(c, w))
	case "Consistency":
		c := p.hashWithout(z, k)
		z.S["c"] = c
		if k == "T1" || k == "CM" {
			// the second equation fixes s2
			u, r := s.below(vc_oN), s.below(vc_oN)
			z.P["T2"], z.P["Tok"] = z.P["pk"].mul(u), z.P["pk"].mul(r)
			c = p.hashWithout(z, k)
			z.S["c"], z.S["s2"] = c, vc_addN(u, vc_mul(c, r))
		} else {
			v, r := s.below(vc_oN), s.below(vc_oN)
			u1, u2 := s.below(vc_oN), s.below(vc_oN)
			z.P["CM"], z.P["T1"] = vc_vec{v, r}, vc_vec{u1, u2}
			c = p.hashWithout(z, k)
			z.S["c"], z.S["s1"], z.S["s2"] = c, vc_addN(u1, vc_mul(c, v)), vc_addN(u2, vc_mul(c, r))
		}
	case "Disjunctive":
		o := map[byte]string{'1': "2", '2': "1"}[k[1]]
		// the other side is simulated
		z.S["c"+o], z.S["s"+o] = s.below(vc_oN), s.below(vc_oN)
		z.P["T"+o] = z.P["b"+o].mul(z.S["s"+o]).sub(z.P["r"+o].mul(z.S["c"+o]))
		z.S["c"] = p.hashWithout(z, k)
	case "ABC":
		G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
		switch k {
		case "T1", "CM":
			// the second equation: B = b*G + ub*H, T2 = a*G.. with honest structure for any v
			u1, u3, ub, uc := s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.below(vc_oN)
			v := s.nonzero()
			z.P["B"], z.P["C"] = G.mul(vc_inv(v)).add(H.mul(ub)), G.add(H.mul(uc))
			z.P["T2"] = z.P["B"].mul(u1).add(H.mul(u3))
			c := p.hashWithout(z, k)
			z.S["c"], z.S["j"], z.S["l"] = c, vc_addN(u1, vc_mul(v, c)), vc_addN(u3, vc_mul(vc_sub(uc, vc_mul(v, ub)), c))
		case "Tok":
			u1, u3, ub, uc := s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.below(vc_oN)
			v := s.nonzero()
			z.P["B"], z.P["C"] = G.mul(vc_inv(v)).add(H.mul(ub)), G.add(H.mul(uc))
			z.P["T2"] = z.P["B"].mul(u1).add(H.mul(u3))
			c := p.hashWithout(z, k)
			z.S["c"], z.S["j"], z.S["l"] = c, vc_addN(u1, vc_mul(v, c)), vc_addN(u3, vc_mul(vc_sub(uc, vc_mul(v, ub)), c))
			z.S["k"] = s.nonzero()
		default: // T2, B, C: the first equation is honest
			v, r, sk := s.nonzero(), s.nonzero(), s.nonzero()
			u1, u2 := s.below(vc_oN), s.below(vc_oN)
			z.P["CM"], z.P["Tok"] = G.mul(v).add(H.mul(r)), H.mul(vc_mulN(r, sk))
			z.P["T1"] = G.mul(u1).add(z.P["Tok"].mul(u2))
			if k == "C" {
				// C must come out as G + uc*H: B = b*G + ub*H with j*b - t2 = c; T2 = t2*G + ..
				z.P["B"] = G.mul(vc_inv(v)).add(H.mul(s.below(vc_oN)))
				z.P["T2"] = z.P["B"].mul(u1).add(H.mul(s.below(vc_oN)))
			}
			c := p.hashWithout(z, k)
			z.S["c"], z.S["j"], z.S["k"] = c, vc_addN(u1, vc_mul(v, c)), vc_addN(u2, vc_mul(vc_inv(sk), c))
		}
	default:
		z.S[p.chal] = p.hashWithout(z, k)
	}
	if !p.solve[k](z) {
		return
	}
	vc_tryTr(t, p, "challenge that leaves out "+k, z)
}

// forgePairs: like forge, but a component enters only in part (its x coordinate, or up to sign)
func vc_forgePairs(t *testing.T, p *vc_sigma, s *vc_stream, x vc_tr) {
	for _, k := range p.order {
		if k == "G" || k == "H" || p.name == "ABC" {
			continue
		}
		for _, q := range []*big.Int{vc_bi(-1), vcLambda} {
			y := x.clone()
			c := p.hash(x)
			y.P[k] = y.P[k].mul(q)
			y.S[p.chal] = c
			// make the equations hold again with the first response that can
			for _, kk := range vc_solvers(p) {
				solve := p.solve[kk]
				if kk == k {
					continue
				}
				z := y.clone()
				if solve(z) {
					vc_tryTr(t, p, "point "+k+" multiplied by "+q.Text(16)+" and "+kk+" fitted", z)
				}
			}
		}
	}
}

// free: both sides of a disjunction simulated, shares that do not add up
func vc_free(t *testing.T, p *vc_sigma, s *vc_stream, x vc_tr) {
	y := x.clone()
	d := vc_tr{y.P, y.S}
	if p.name == "ABC" {
		d = vc_djOf(y)
	}
	for i := 0; i < 5; i++ {
		z := vc_tr{map[string]vc_vec{}, map[string]*big.Int{}}
		z = d.clone()
		c1, c2, s1, s2 := s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.below(vc_oN)
		z.S["c1"], z.S["c2"], z.S["s1"], z.S["s2"] = c1, c2, s1, s2
		z.P["T1"] = z.P["b1"].mul(s1).sub(z.P["r1"].mul(c1))
		z.P["T2"] = z.P["b2"].mul(s2).sub(z.P["r2"].mul(c2))
		dj := vc_disjSigma()
		c := dj.hash(z)
		z.S["c"] = c
		switch i {
		case 1:
			z.S["c"] = vc_addN(c1, c2) // the shares add up, but not to the hash
		case 2:
			z.S["c"] = c1
		case 3:
			z.S["c"] = new(big.Int).Xor(c1, c2)
		case 4:
			z.S["c"] = vc_add(c1, c2)
		}
		w := z
		if p.name == "ABC" {
			w = x.clone()
			w.P["dT1"], w.P["dT2"] = z.P["T1"], z.P["T2"]
			for _, k := range []string{"c", "c1", "c2", "s1", "s2"} {
				w.S["d"+k] = z.S[k]
			}
		}
		vc_tryTr(t, p, "both sides of the disjunction simulated", w)
	}
	if p.name == "ABC" {
		// an embedded proof for something else
		for _, alt := range []func(w vc_tr){
			func(w vc_tr) { w.P["C"] = w.P["C"].add(vc_gv(vc_bi(1))) },
			func(w vc_tr) { w.P["C"] = w.P["C"].sub(vc_gv(vc_bi(1))) },
			func(w vc_tr) { w.P["C"] = w.P["C"].mul(vc_bi(2)) },
			func(w vc_tr) { w.P["CM"], w.P["Tok"] = w.P["CM"].mul(vc_bi(2)), w.P["Tok"].mul(vc_bi(2)) },
			func(w vc_tr) { w.P["CM"], w.P["Tok"] = w.P["Tok"], w.P["CM"] },
		} {
			w := x.clone()
			alt(w)
			vc_abcDj(s, w)
			w.P["C"], w.P["CM"], w.P["Tok"] = x.P["C"], x.P["CM"], x.P["Tok"]
			vc_tryTr(t, p, "embedded proof for another statement", w)
		}
		// C = c*G + uc*H for c other than 0 and 1, with both equations satisfied
		for _, cv := range []*big.Int{vc_bi(0), vc_bi(1), vc_bi(2), vc_bi(-1), s.below(vc_oN)} {
			G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
			w := vc_newTr()
			w.P["G"], w.P["H"] = G, H
			v, r, sk := s.nonzero(), s.nonzero(), s.nonzero()
			u1, u2, u3, ub, uc := s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.below(vc_oN)
			w.P["CM"], w.P["Tok"] = G.mul(v).add(H.mul(r)), H.mul(vc_mulN(r, sk))
			w.P["B"], w.P["C"] = G.mul(vc_mulN(cv, vc_inv(v))).add(H.mul(ub)), G.mul(cv).add(H.mul(uc))
			w.P["CToken"] = vc_gv(vc_bi(0))
			w.P["T1"] = G.mul(u1).add(w.P["Tok"].mul(u2))
			w.P["T2"] = w.P["B"].mul(u1).add(H.mul(u3))
			w.S["dw"], w.S["dside"] = uc, vc_bi(1)
			vc_abcDj(s, w)
			c := p.hash(w)
			w.S["c"], w.S["j"], w.S["k"], w.S["l"] = c, vc_addN(u1, vc_mul(v, c)), vc_addN(u2, vc_mul(vc_inv(sk), c)), vc_addN(u3, vc_mul(vc_sub(uc, vc_mul(v, ub)), c))
			vc_tryTr(t, p, "C commits to "+cv.Text(16), w)
		}
	}
}

func TestVC_C11(t *testing.T) { vc_exactness(t, "GSPFS") }
func TestVC_C13(t *testing.T) { vc_exactness(t, "Equivalence") }
func TestVC_C15(t *testing.T) { vc_exactness(t, "Consistency") }
func TestVC_C17(t *testing.T) { vc_exactness(t, "Disjunctive") }
func TestVC_C19(t *testing.T) { vc_exactness(t, "ABC") }

// ---------------------------------------------------------------- completeness

type vc_proverCase struct {
	name string
	want bool // the statement is true
	make func() (interface{}, error)
	ok   func(p interface{}) (bool, error)
}

func vc_runCase(t *testing.T, c vc_proverCase, r io.Reader) {
	vc_begin("%s", c.name)
	vc_guard(t, func() {
		var p interface{}
		var err error
		vc_withReader(r, func() { p, err = c.make() })
		if !c.want {
			if err == nil || !vc_isNilOrZero(p) {
				vc_fail(t, "a false statement yields a proof (error %v): %s", err, c.name)
			}
			return
		}
		if err != nil || vc_isNilOrZero(p) || reflect.ValueOf(p).IsNil() {
			vc_fail(t, "a true statement yields no proof (error %v): %s", err, c.name)
			return
		}
		ok, err := c.ok(p)
		if !ok || err != nil {
			vc_fail(t, "the proof of a true statement is refused, Verify gives %s: %s", vc_boolErr(ok, err), c.name)
		}
	})
}

func vc_scalarPool(s *vc_stream) []*big.Int {
	return append(append([]*big.Int{}, vcEdges()...), s.below(vc_oN), s.below(vc_oN), new(big.Int).Neg(s.below(vc_oN)), vc_add(vc_oN, s.below(vc_oN)), vc_mul(s.below(vc_oN), vc_oN), s.below(new(big.Int).Lsh(vc_bi(1), 500)))
}

func vc_pick(s *vc_stream, p []*big.Int) *big.Int { return vc_cp(p[s.intn(int64(len(p)))]) }

// relatedReaders: prover randomness related to the given witness values
func vc_relatedReaders(s *vc_stream, ws ...*big.Int) []io.Reader {
	r := vc_proverReaders(s)
	for _, w := range ws {
		m := vc_modN(w)
		r = append(r, &vc_drawReader{vals: []*big.Int{m, m, m}, s: s}, &vc_drawReader{vals: []*big.Int{vc_neg(m), m, vc_neg(m)}, s: s})
	}
	return r
}

func vc_cases(t *testing.T, name string, gen func(s *vc_stream, i int) (vc_proverCase, []*big.Int)) {
	s := vc_newStream("complete" + name)
	for i := 0; !vc_over(vc_budget()); i++ {
		c, ws := gen(s, i)
		rs := vc_relatedReaders(s, ws...)
		r := rs[0]
		if i%3 == 1 {
			r = rs[s.intn(int64(len(rs)))]
		}
		vc_runCase(t, c, r)
	}
}

// falsify returns a point other than p, near it
func vc_falsify(s *vc_stream, p vc_vec) vc_vec {
	for {
		var q vc_vec
		switch s.intn(4) {
		case 0:
			q = p.mul(vc_factors(s)[s.intn(7)])
		case 1:
			q = p.add(s.vecAny())
		case 2:
			q = p.add(vc_gv(vc_bi(1)))
		default:
			q = s.vecAny()
		}
		if !q.eq(p) {
			return q
		}
	}
}

func TestVC_C10(t *testing.T) {
	s0 := vc_newStream("pool10")
	pool := vc_scalarPool(s0)
	vc_cases(t, "GSPFS", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		x := vc_pick(s, pool)
		if i < len(pool) {
			x = vc_cp(pool[i])
		}
		base := vc_gv(vc_bi(1))
		useG := s.intn(3) == 0
		if !useG {
			base = s.vecAny()
		}
		A := base.mul(x)
		want := true
		if s.intn(3) == 0 {
			A, want = vc_falsify(s, A), false
		}
		n := fmt.Sprintf("GSPFS base=%v A=%v x=%v", base, A, x)
		return vc_proverCase{n, want, func() (interface{}, error) {
			if useG {
				return vc_wrap(NewGSPFSProof(TestCurve, A.pt(), x))
			}
			return vc_wrap(NewGSPFSProofBase(TestCurve, base.pt(), A.pt(), x))
		}, func(p interface{}) (bool, error) { return p.(*GSPFSProof).Verify(TestCurve, A.pt()) }}, []*big.Int{x}
	})
}

func vc_wrap(p interface{}, err error) (interface{}, error) { return p, err }

func TestVC_C12(t *testing.T) {
	pool := vc_scalarPool(vc_newStream("pool12"))
	vc_cases(t, "Equivalence", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		x := vc_pick(s, pool)
		b1, b2 := s.vecAny(), s.vecAny()
		if s.intn(6) == 0 {
			b2 = b1
		}
		r1, r2 := b1.mul(x), b2.mul(x)
		want := true
		switch s.intn(6) {
		case 0:
			r1, want = vc_falsify(s, r1), false
		case 1:
			r2, want = vc_falsify(s, r2), false
		case 2:
			// both related, by different scalars
			y := s.scalar()
			r2 = b2.mul(y)
			want = r2.eq(b2.mul(x))
		}
		n := fmt.Sprintf("Equivalence b1=%v r1=%v b2=%v r2=%v x=%v", b1, r1, b2, r2, x)
		return vc_proverCase{n, want, func() (interface{}, error) {
			return vc_wrap(NewEquivalenceProof(TestCurve, b1.pt(), r1.pt(), b2.pt(), r2.pt(), x))
		}, func(p interface{}) (bool, error) {
			return p.(*EquivalenceProof).Verify(TestCurve, b1.pt(), r1.pt(), b2.pt(), r2.pt())
		}}, []*big.Int{x}
	})
}

func TestVC_C14(t *testing.T) {
	pool := vc_scalarPool(vc_newStream("pool14"))
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	vc_cases(t, "Consistency", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		v, r := vc_pick(s, pool), vc_pick(s, pool)
		pk := s.vecAny()
		if s.intn(3) == 0 {
			pk = vc_hv(s.scalar())
		}
		CM, Tok := G.mul(v).add(H.mul(r)), pk.mul(r)
		want := true
		switch s.intn(6) {
		case 0:
			CM, want = vc_falsify(s, CM), false
		case 1:
			Tok, want = vc_falsify(s, Tok), false
		case 2:
			CM = G.mul(v).add(H.mul(s.scalar()))
			want = CM.eq(G.mul(v).add(H.mul(r)))
		}
		n := fmt.Sprintf("Consistency CM=%v Tok=%v pk=%v v=%v r=%v", CM, Tok, pk, v, r)
		return vc_proverCase{n, want, func() (interface{}, error) {
			return vc_wrap(NewConsistencyProof(TestCurve, CM.pt(), Tok.pt(), pk.pt(), v, r))
		}, func(p interface{}) (bool, error) {
			return p.(*ConsistencyProof).Verify(TestCurve, CM.pt(), Tok.pt(), pk.pt())
		}}, []*big.Int{v, r}
	})
}

func TestVC_C16(t *testing.T) {
	pool := vc_scalarPool(vc_newStream("pool16"))
	vc_cases(t, "Disjunctive", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		x := vc_pick(s, pool)
		b := []vc_vec{s.vecAny(), s.vecAny()}
		if s.intn(5) == 0 {
			b[1] = b[0]
		}
		side := int(s.intn(2))
		r := []vc_vec{{}, {}}
		r[side] = b[side].mul(x)
		switch s.intn(4) {
		case 0:
			r[1-side] = b[1-side].mul(s.scalar())
		case 1:
			r[1-side] = b[1-side].mul(x)
		case 2:
			r[1-side] = vc_gv(vc_bi(0))
		default:
			r[1-side] = s.vecAny()
		}
		want := true
		opt := Side(side)
		switch s.intn(6) {
		case 0:
			r[side], want = vc_falsify(s, r[side]), false
		case 1:
			opt, want = Side([]int64{2, -1, 3, 7, 1 << 31, -1 << 62, 256}[s.intn(7)]), false
		case 2:
			// the chosen side is false, the other true
			opt = Side(1 - side)
			want = r[1-side].eq(b[1-side].mul(x))
		}
		n := fmt.Sprintf("Disjunctive b1=%v r1=%v b2=%v r2=%v x=%v side=%d", b[0], r[0], b[1], r[1], x, opt)
		return vc_proverCase{n, want, func() (interface{}, error) {
			return vc_wrap(NewDisjunctiveProof(TestCurve, b[0].pt(), r[0].pt(), b[1].pt(), r[1].pt(), x, opt))
		}, func(p interface{}) (bool, error) {
			return p.(*DisjunctiveProof).Verify(TestCurve, b[0].pt(), r[0].pt(), b[1].pt(), r[1].pt())
		}}, []*big.Int{x}
	})
}

func TestVC_C18(t *testing.T) {
	pool := vc_scalarPool(vc_newStream("pool18"))
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	vc_cases(t, "ABC", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		v, r, sk := vc_pick(s, pool), vc_pick(s, pool), vc_pick(s, pool)
		if s.intn(3) == 0 {
			v = []*big.Int{vc_bi(0), vc_oN, vc_neg2(vc_oN), vc_mul(vc_oN, vc_bi(7))}[s.intn(4)]
		}
		if s.intn(3) > 0 {
			sk = s.nonzero()
		}
		CM, Tok := G.mul(v).add(H.mul(r)), H.mul(vc_mulN(r, sk))
		opt := Left
		if vc_modN(v).Sign() != 0 {
			opt = Right
		}
		want := vc_modN(sk).Sign() != 0
		switch s.intn(5) {
		case 0:
			opt, want = 1-opt, false
		case 1:
			opt, want = Side([]int64{2, -1, 3, 7, 1 << 31, -1 << 62, 256}[s.intn(7)]), false
		}
		n := fmt.Sprintf("ABC v=%v r=%v sk=%v side=%d", v, r, sk, opt)
		return vc_proverCase{n, want, func() (interface{}, error) {
			return vc_wrap(NewABCProof(TestCurve, CM.pt(), Tok.pt(), v, sk, opt))
		}, func(p interface{}) (bool, error) { return p.(*ABCProof).Verify(TestCurve, CM.pt(), Tok.pt()) }}, []*big.Int{v, r, sk}
	})
}

func TestVC_C20(t *testing.T) {
	pool := vc_scalarPool(vc_newStream("pool20"))
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	// the recorded finding: an ABC proof of the left side passes as an inequality proof
	s0 := vc_newStream("finding20")
	for i := 0; i < 2; i++ {
		r, sk := s0.below(vc_oN), s0.below(vc_oN)
		CM, Tok := vc_hv(r), vc_hv(vc_mulN(r, sk))
		vc_begin("ABC Left as inequality")
		vc_guard(t, func() {
			p, err := NewABCProof(TestCurve, CM.pt(), Tok.pt(), vc_bi(0), sk, Left)
			if err != nil {
				return
			}
			if ok, _ := (*InequalityProof)(p).Verify(TestCurve, CM.pt(), Tok.pt()); ok {
				vc_fail(t, "[left-abc] InequalityProof.Verify accepts NewABCProof(A-B, TokA-TokB, 0, sk, Left) for equal values; r=%v sk=%v", r, sk)
			}
		})
	}
	vc_cases(t, "Inequality", func(s *vc_stream, i int) (vc_proverCase, []*big.Int) {
		a, b := vc_pick(s, pool), vc_pick(s, pool)
		ra, rb, sk := vc_pick(s, pool), vc_pick(s, pool), vc_pick(s, pool)
		switch s.intn(6) {
		case 0:
			b = vc_cp(a)
		case 1:
			b = vc_add(a, vc_mul(vc_oN, vc_bi(s.intn(5)-2)))
		case 2:
			b = vc_add(a, vc_bi(s.intn(3)-1))
		}
		if s.intn(4) > 0 {
			sk = s.nonzero()
		}
		A, B := G.mul(a).add(H.mul(ra)), G.mul(b).add(H.mul(rb))
		TA, TB := H.mul(vc_mulN(ra, sk)), H.mul(vc_mulN(rb, sk))
		want := vc_modN(sk).Sign() != 0 && vc_modN(a).Cmp(vc_modN(b)) != 0
		n := fmt.Sprintf("Inequality a=%v b=%v ra=%v rb=%v sk=%v", a, b, ra, rb, sk)
		return vc_proverCase{n, want, func() (interface{}, error) {
			return vc_wrap(NewInequalityProof(TestCurve, A.pt(), B.pt(), TA.pt(), TB.pt(), a, b, sk))
		}, func(p interface{}) (bool, error) {
			return p.(*InequalityProof).Verify(TestCurve, A.sub(B).pt(), TA.sub(TB).pt())
		}}, []*big.Int{ra, rb, sk}
	})
}
