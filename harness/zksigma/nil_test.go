package zksigma

import (
	"math/big"
	"testing"
)

func TestVC_C29(t *testing.T) {
	s := vc_newStream("29")
	pt := func() ECPoint { return s.vecAny().pt() }
	big1 := func() *big.Int { return s.scalar() }
	check := func(name string, mustFail bool, f func() (bool, error)) {
		vc_begin("%s", name)
		vc_guard(t, func() {
			ok, err := f()
			if ok != (err == nil) {
				vc_fail(t, "%s: Verify gives %s", name, vc_boolErr(ok, err))
			}
			if mustFail && (ok || err == nil) {
				vc_fail(t, "%s: accepted, Verify gives %s", name, vc_boolErr(ok, err))
			}
		})
	}
	for i := 0; !vc_over(vc_budget()); i++ {
		a, b, c, d := pt(), pt(), pt(), pt()
		if i%5 == 0 {
			a = Zero
		}
		check("nil GSPFSProof", true, func() (bool, error) { return (*GSPFSProof)(nil).Verify(TestCurve, a) })
		check("nil EquivalenceProof", true, func() (bool, error) { return (*EquivalenceProof)(nil).Verify(TestCurve, a, b, c, d) })
		check("nil ConsistencyProof", true, func() (bool, error) { return (*ConsistencyProof)(nil).Verify(TestCurve, a, b, c) })
		check("nil DisjunctiveProof", true, func() (bool, error) { return (*DisjunctiveProof)(nil).Verify(TestCurve, a, b, c, d) })
		check("nil ABCProof", true, func() (bool, error) { return (*ABCProof)(nil).Verify(TestCurve, a, b) })
		check("nil InequalityProof", true, func() (bool, error) { return (*InequalityProof)(nil).Verify(TestCurve, a, b) })
		check("nil RangeProof", true, func() (bool, error) { return (*RangeProof)(nil).Verify(TestCurve, a) })

		// arbitrary complete proofs, right and wrong
		for _, p := range vc_sigmas() {
			st, w := p.truth(s)
			st.S["w"] = w
			x := st.clone()
			f := p.honest(s, x)
			vc_finishTr(p, x, f)
			check("honest "+vc_describe(p, x), false, func() (bool, error) { return p.verify(x) })
			y := x.clone()
			// fail each check of the verifier in turn
			switch s.intn(4) {
			case 0:
				k := p.commit[s.intn(int64(len(p.commit)))]
				y.P[k] = s.vecAny()
				y.S[p.chal] = p.hash(y)
			case 1:
				k := p.resp[s.intn(int64(len(p.resp)))]
				y.S[k] = big1()
			case 2:
				y.S[p.chal] = big1()
			default:
				k := p.stmt[s.intn(int64(len(p.stmt)))]
				y.P[k] = s.vecAny()
				f := p.honest(s, y)
				vc_finishTr(p, y, f)
			}
			check("altered "+vc_describe(p, y), false, func() (bool, error) { return p.verify(y) })
			if p.name == "ABC" {
				check("altered inequality "+vc_describe(p, y), false, func() (bool, error) {
					return (*InequalityProof)(vc_abcProofOf(y)).Verify(TestCurve, y.P["CM"].pt(), y.P["Tok"].pt())
				})
			}
		}
		n := int(s.intn(6))
		if i%40 == 7 {
			n = 66
		}
		bits := make([]bool, n)
		for k := range bits {
			bits[k] = s.intn(2) == 0
		}
		if n <= 6 {
			r := vc_ringProve(s, bits, -1, nil)
			switch s.intn(6) {
			case 0:
				r.E = big1()
			case 1:
				r.agg = s.vecAny()
			case 2:
				r.cm = s.vecAny()
			case 3:
				if n > 0 {
					r.S[s.intn(int64(n))] = big1()
				}
			case 4:
				if n > 0 {
					r.C[s.intn(int64(n))] = s.vecAny()
				}
			}
			check("range "+r.String(), false, func() (bool, error) { return r.proof().Verify(TestCurve, r.cm.pt()) })
		} else {
			p := &RangeProof{ProofAggregate: a, ProofE: vc_bi(1), ProofTuples: make([]rangeProofTuple, n)}
			for k := range p.ProofTuples {
				p.ProofTuples[k] = rangeProofTuple{C: a, S: vc_bi(3)}
			}
			check("range with 66 entries", true, func() (bool, error) { return p.Verify(TestCurve, b) })
		}
	}
}
