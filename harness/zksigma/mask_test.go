package zksigma

import (
	"fmt"
	"math/big"
	"testing"
)

// bitStat watches a family of scalars that should be uniform below the order.
type vc_bitStat struct {
	and, or *big.Int
	n       int
	seen    map[string]string
}

var vcStats = map[string]*vc_bitStat{}

func vc_note(t *testing.T, name string, v *big.Int) {
	b := vcStats[name]
	if b == nil {
		b = &vc_bitStat{and: new(big.Int).Sub(new(big.Int).Lsh(vc_bi(1), 256), vc_bi(1)), or: vc_bi(0), seen: map[string]string{}}
		vcStats[name] = b
	}
	if v.Sign() < 0 || v.Cmp(vc_oN) >= 0 {
		vc_fail(t, "%s = %v is not reduced modulo the group order; %s", name, v, vcCur)
		return
	}
	b.and.And(b.and, v)
	b.or.Or(b.or, v)
	b.n++
	if c, ok := b.seen[v.String()]; ok {
		vc_fail(t, "%s takes the value %v twice: %s and %s", name, v, c, vcCur)
	}
	b.seen[v.String()] = vcCur
}

func vc_endStats(t *testing.T) {
	for name, b := range vcStats {
		if b.n < 64 {
			continue
		}
		for i := 0; i < 256; i++ {
			if b.and.Bit(i) == 1 || b.or.Bit(i) == 0 {
				vc_fail(t, "%s: bit %d is the same in %d proofs with independent randomness", name, i, b.n)
				break
			}
		}
	}
}

func vc_distinct(t *testing.T, what string, vs map[string]*big.Int) {
	seen := map[string]string{}
	for k, v := range vs {
		m := vc_modN(v).String()
		if o, ok := seen[m]; ok {
			vc_fail(t, "masks %s and %s of %s are equal (%s); %s", k, o, what, m, vcCur)
			return
		}
		seen[m] = k
		n := vc_neg(v).String()
		if o, ok := seen[n]; ok && o != k {
			vc_fail(t, "masks %s and %s of %s are opposite; %s", k, o, what, vcCur)
			return
		}
	}
}

func vc_distinctPts(t *testing.T, what string, vs map[string]ECPoint) {
	seen := map[string]string{}
	for k, v := range vs {
		for _, q := range []ECPoint{v, vc_oNeg(v)} {
			m := q.X.Text(16) + "," + q.Y.Text(16)
			if o, ok := seen[m]; ok && o != k {
				vc_fail(t, "masking points %s and %s of %s agree up to sign; %s", k, o, what, vcCur)
				return
			}
			seen[m] = k
		}
	}
}

// related: one mask a small multiple of another
func vc_related(t *testing.T, what string, vs map[string]*big.Int) {
	for a, x := range vs {
		for b, y := range vs {
			if a == b || vc_modN(x).Sign() == 0 || vc_modN(y).Sign() == 0 {
				continue
			}
			m := vc_bi(0)
			for k := int64(1); k <= 20; k++ {
				m = vc_addN(m, x)
				for d := int64(-8); d <= 8; d++ {
					w := vc_addN(m, vc_bi(d))
					if w.Cmp(vc_modN(y)) == 0 || vc_modN(vc_neg2i(w)).Cmp(vc_modN(y)) == 0 {
						vc_fail(t, "mask %s of %s is %d times mask %s and %d, up to sign; %s", b, what, k, a, d, vcCur)
						return
					}
				}
			}
		}
	}
}

// enough: n independent masks below the order take 32 random bytes each
func vc_enough(t *testing.T, what string, r *vc_lockReader, n int) {
	if r.b < 32*n {
		vc_fail(t, "%s: %d masks from %d random bytes; %s", what, n, r.b, vcCur)
	}
}

type vc_maskRun struct {
	name  string
	masks map[string]*big.Int // recovered with the witness
	pub   map[string]*big.Int // published scalars
}

func vc_maskedProofs(s *vc_stream, wit []*big.Int) []func() (*vc_maskRun, error) {
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	x, v, r := vc_modN(wit[0]), vc_modN(wit[1]), vc_modN(wit[2])
	sk := wit[3]
	b1, b2 := vc_gv(s.nonzero()), vc_hv(s.nonzero())
	M := func(kv ...interface{}) map[string]*big.Int {
		m := map[string]*big.Int{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(*big.Int)
		}
		return m
	}
	var out []func() (*vc_maskRun, error)
	out = append(out, func() (*vc_maskRun, error) {
		p, err := NewGSPFSProofBase(TestCurve, b1.pt(), b1.mul(x).pt(), x)
		if err != nil {
			return nil, err
		}
		return &vc_maskRun{"GSPFS", M("u", vc_addN(p.HiddenValue, vc_mul(p.Challenge, x))), M("s", p.HiddenValue)}, nil
	}, func() (*vc_maskRun, error) {
		p, err := NewEquivalenceProof(TestCurve, b1.pt(), b1.mul(x).pt(), b2.pt(), b2.mul(x).pt(), x)
		if err != nil {
			return nil, err
		}
		return &vc_maskRun{"Equivalence", M("u", vc_subN(p.HiddenValue, vc_mul(p.Challenge, x))), M("s", p.HiddenValue)}, nil
	}, func() (*vc_maskRun, error) {
		pk := H.mul(sk)
		p, err := NewConsistencyProof(TestCurve, G.mul(v).add(H.mul(r)).pt(), pk.mul(r).pt(), pk.pt(), v, r)
		if err != nil {
			return nil, err
		}
		return &vc_maskRun{"Consistency", M("u1", vc_subN(p.S1, vc_mul(p.Challenge, v)), "u2", vc_subN(p.S2, vc_mul(p.Challenge, r))), M("s1", p.S1, "s2", p.S2)}, nil
	})
	for _, side := range []Side{Left, Right} {
		side := side
		out = append(out, func() (*vc_maskRun, error) {
			b := []vc_vec{b1, b2}
			rs := []vc_vec{{}, {}}
			rs[side] = b[side].mul(x)
			rs[1-side] = b[1-side].mul(v)
			p, err := NewDisjunctiveProof(TestCurve, b[0].pt(), rs[0].pt(), b[1].pt(), rs[1].pt(), x, side)
			if err != nil {
				return nil, err
			}
			c, ss := []*big.Int{p.C1, p.C2}, []*big.Int{p.S1, p.S2}
			return &vc_maskRun{fmt.Sprintf("Disjunctive side %d", side), M("u1", vc_subN(ss[side], vc_mul(c[side], x)), "u2", ss[1-side], "u3", c[1-side]),
				M("c1", p.C1, "c2", p.C2, "s1", p.S1, "s2", p.S2)}, nil
		})
	}
	return out
}

func TestVC_C23(t *testing.T) {
	s := vc_newStream("23")
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	edge := []*big.Int{vc_bi(0), vc_bi(1), vc_sub(vc_oN, vc_bi(1)), vc_bi(2), new(big.Int).Lsh(vc_bi(1), 255), vc_add(vc_oN, vc_bi(3)), vc_neg2i(vc_bi(1)), vc_hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF")}
	n1 := vc_sub(vc_oN, vc_bi(1))
	for round := 0; round < 70 || !vc_over(vc_budget()); round++ {
		if vc_over(vc_budget() * 2.5) {
			break
		}
		wit := []*big.Int{edge[round%len(edge)], edge[(round/2)%len(edge)], edge[(round/3)%len(edge)], s.nonzero()}
		if round%2 == 1 {
			wit = []*big.Int{s.below(vc_oN), s.below(vc_oN), s.below(vc_oN), s.nonzero()}
		}
		for _, f := range vc_maskedProofs(s, wit) {
			// independent randomness
			vc_begin("masks, witness %v", wit)
			vc_guard(t, func() {
				rd := &vc_lockReader{r: vc_newStream(fmt.Sprint("mask", round, s.intn(1<<62)))}
				vc_withReader(rd, func() {
					m, err := f()
					if err != nil {
						vc_fail(t, "no proof: %v; witness %v", err, wit)
						return
					}
					vcCur = m.name + " " + vcCur
					vc_distinct(t, m.name, m.masks)
					vc_related(t, m.name, m.masks)
					vc_enough(t, m.name, rd, len(m.masks))
					for k, v := range m.masks {
						vc_note(t, m.name+" mask "+k, v)
					}
					for k, v := range m.pub {
						vc_note(t, m.name+" scalar "+k, v)
					}
				})
			})
			// given draws come out as masks: the whole range is used, both ends included
			for _, d := range [][]*big.Int{{n1, n1, n1}, {vc_bi(0), vc_bi(0), vc_bi(0)}, {vc_bi(1), n1, vc_bi(0)}, {vc_bi(5), s.below(vc_oN), new(big.Int).Rsh(vc_oN, 1)}} {
				if round > 4 && s.intn(8) > 0 {
					continue
				}
				vc_begin("masks for the draws %v, witness %v", d, wit)
				vc_guard(t, func() {
					r := &vc_drawReader{vals: append([]*big.Int{}, d...), s: vc_newStream(fmt.Sprint("dr", round))}
					vc_withReader(r, func() {
						m, err := f()
						if err != nil {
							vc_fail(t, "no proof for the draws %v: %v", d, err)
							return
						}
						left := map[string]int{}
						used := len(d) - len(r.vals)
						if used < len(m.masks) {
							return // drawn in another way
						}
						for _, v := range d[:len(m.masks)] {
							left[v.String()]++
						}
						for k, v := range m.masks {
							if left[vc_modN(v).String()] == 0 {
								vc_fail(t, "%s: mask %s = %v is none of the draws %v; witness %v", m.name, k, v, d, wit)
								break
							}
							left[vc_modN(v).String()]--
						}
						for k, v := range m.pub {
							if v.Sign() < 0 || v.Cmp(vc_oN) >= 0 {
								vc_fail(t, "%s: %s = %v is not reduced", m.name, k, v)
							}
						}
					})
				})
			}
		}
		// ABC and inequality
		for kind := 0; kind < 3; kind++ {
			v, r, sk := vc_modN(wit[1]), s.nonzero(), s.nonzero()
			if kind == 0 {
				v = vc_bi(0)
			} else if v.Sign() == 0 {
				v = vc_bi(1)
			}
			CM, Tok := G.mul(v).add(H.mul(r)), H.mul(vc_mulN(r, sk))
			vc_begin("ABC masks kind %d, v=%v r=%v sk=%v", kind, v, r, sk)
			vc_guard(t, func() {
				rd := &vc_lockReader{r: vc_newStream(fmt.Sprint("abc", round, kind, s.intn(1<<62)))}
				vc_withReader(rd, func() {
					var p *ABCProof
					var err error
					name := []string{"ABC left", "ABC right", "Inequality"}[kind]
					switch kind {
					case 0:
						p, err = NewABCProof(TestCurve, CM.pt(), Tok.pt(), v, sk, Left)
					case 1:
						p, err = NewABCProof(TestCurve, CM.pt(), Tok.pt(), v, sk, Right)
					default:
						var q *InequalityProof
						q, err = NewInequalityProof(TestCurve, CM.add(G).pt(), G.pt(), Tok.pt(), Zero, vc_add(v, vc_bi(1)), vc_bi(1), sk)
						p = (*ABCProof)(q)
					}
					if err != nil {
						vc_fail(t, "no proof: %v", err)
						return
					}
					d := p.disjuncAC
					for k, x := range map[string]*big.Int{"j": p.j, "k": p.k, "l": p.l, "c1": d.C1, "c2": d.C2, "s1": d.S1, "s2": d.S2} {
						vc_note(t, name+" scalar "+k, x)
					}
					u1, u2 := vc_subN(p.j, vc_mul(v, p.Challenge)), vc_subN(p.k, vc_mul(vc_inv(sk), p.Challenge))
					vc_note(t, name+" mask u1", u1)
					vc_note(t, name+" mask u2", u2)
					vc_note(t, name+" B", vc_modN(p.B.X))
					vc_note(t, name+" C", vc_modN(p.C.X))
					iv, cv := vc_bi(0), vc_bi(0)
					if kind > 0 {
						iv, cv = vc_inv(v), vc_bi(1)
					}
					ub := vc_oSub(p.B, vc_oMul(vc_oG(), iv))
					uc := vc_oSub(p.C, vc_oMul(vc_oG(), cv))
					u3 := vc_oSub(p.T2, vc_oMul(p.B, u1))
					pts := map[string]ECPoint{"u1": vc_oMul(vcH, u1), "u2": vc_oMul(vcH, u2), "u3": u3, "ub": ub, "uc": uc}
					// the embedded proof
					if kind == 0 {
						pts["d1"] = vc_oMul(vcH, vc_subN(d.S1, vc_mul(d.C1, sk)))
						pts["d2"], pts["d3"] = vc_oMul(vcH, d.S2), vc_oMul(vcH, d.C2)
					} else {
						pts["d1"] = d.T2 // u1*H
						pts["d2"], pts["d3"] = vc_oMul(vcH, d.S1), vc_oMul(vcH, d.C1)
					}
					vc_distinctPts(t, name, pts)
					vc_enough(t, name, rd, len(pts))
				})
			})
		}
		if round%8 == 0 {
			val := []*big.Int{vc_bi(0), vc_hexInt("FFFFFFFFFF"), s.below(new(big.Int).Lsh(vc_bi(1), 40)), vc_hexInt("AAAAAAAAAA")}[(round/8)%4]
			vc_begin("range masks, value %v", val)
			vc_guard(t, func() {
				rd := &vc_lockReader{r: vc_newStream(fmt.Sprint("rg", round, s.intn(1<<62)))}
				vc_withReader(rd, func() {
					p, _, err := NewRangeProof(TestCurve, val)
					if err != nil {
						vc_fail(t, "no range proof: %v", err)
						return
					}
					pts := map[string]ECPoint{}
					for i, tp := range p.ProofTuples {
						vc_note(t, "range response", tp.S)
						vc_note(t, fmt.Sprintf("range commitment, bit %d", val.Bit(i)), vc_modN(tp.C.X))
						if val.Bit(i) == 1 {
							vH := vc_oSub(tp.C, vc_gen2(i).pt())
							pts[fmt.Sprint("v", i)] = vH
							pts[fmt.Sprint("k", i)] = vc_oSub(vc_oMul(vcH, tp.S), vc_oMul(vH, p.ProofE))
						} else {
							jH := vc_oSub(vc_oMul(vcH, tp.S), vc_oMul(tp.C, p.ProofE))
							pts[fmt.Sprint("j", i)] = jH
							pts[fmt.Sprint("k", i)] = vc_oMul(tp.C, vc_h256(vc_oAdd(jH, vc_oMul(vc_gen2(i).pt(), p.ProofE))))
							pts[fmt.Sprint("C", i)] = tp.C
						}
					}
					vc_distinctPts(t, "range", pts)
					vc_enough(t, "range", rd, 2*len(p.ProofTuples))
				})
			})
		}
		// commitments
		vc_begin("PedCommit masks")
		vc_guard(t, func() {
			vc_withReader(vc_newStream(fmt.Sprint("pc", round, s.intn(1<<62))), func() {
				if _, r, err := PedCommit(TestCurve, wit[0]); err == nil {
					vc_note(t, "PedCommit randomness", r)
				}
			})
		})
	}
	vc_endStats(t)
}
