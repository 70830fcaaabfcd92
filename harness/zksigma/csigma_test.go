package zksigma

// Reference relations of the sigma protocols on points with known representation (g*G + h*H).

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
)

func vcChal(ps ...ECPoint) *big.Int {
	h := sha256.New()
	for _, p := range ps {
		h.Write(p.X.Bytes())
		h.Write(p.Y.Bytes())
	}
	return vc_modN(new(big.Int).SetBytes(h.Sum(nil)))
}

func vchal(vs ...vc_vec) *big.Int {
	var ps []ECPoint
	for _, v := range vs {
		ps = append(ps, v.pt())
	}
	return vcChal(ps...)
}

func (v vc_vec) eq(w vc_vec) bool {
	return vc_modN(v.g).Cmp(vc_modN(w.g)) == 0 && vc_modN(v.h).Cmp(vc_modN(w.h)) == 0
}
func (v vc_vec) isZero() bool { return v.eq(vc_gv(vc_bi(0))) }

// tr is one transcript: named points and scalars
type vc_tr struct {
	P map[string]vc_vec
	S map[string]*big.Int
}

func vc_newTr() vc_tr { return vc_tr{map[string]vc_vec{}, map[string]*big.Int{}} }

func (t vc_tr) clone() vc_tr {
	r := vc_newTr()
	for k, v := range t.P {
		r.P[k] = v
	}
	for k, v := range t.S {
		r.S[k] = vc_cp(v)
	}
	return r
}

func (t vc_tr) String() string {
	var ks []string
	for k := range t.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + "=" + t.P[k].String() + " "
	}
	ks = nil
	for k := range t.S {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += k + "=" + t.S[k].Text(16) + " "
	}
	return s
}

// sigma describes one protocol.
type vc_sigma struct {
	name   string
	order  []string // points in the hash, in order
	stmt   []string // the statement's points
	chal   string   // name of the challenge scalar
	resp   []string // other scalars
	commit []string // commitments of the proof
	// eqs returns lhs_i, rhs_i of the verification equations for a challenge
	eqs    func(t vc_tr) [][2]vc_vec
	extra  func(t vc_tr) bool
	verify func(t vc_tr) (bool, error)
	// random statement with witness: true statements
	truth func(s *vc_stream) (vc_tr, *big.Int)
	// honest simulates commitments: fills P[commit], returns a function that fills the responses for a challenge
	honest func(s *vc_stream, t vc_tr) func(c *big.Int)
	solve  map[string]func(t vc_tr) bool // recompute that component from the others and the challenge so that the equations hold
}

func (p *vc_sigma) hash(t vc_tr) *big.Int {
	var vs []vc_vec
	for _, n := range p.order {
		vs = append(vs, t.P[n])
	}
	return vchal(vs...)
}

func (p *vc_sigma) hashWithout(t vc_tr, drop string) *big.Int {
	var vs []vc_vec
	for _, n := range p.order {
		if n != drop {
			vs = append(vs, t.P[n])
		}
	}
	return vchal(vs...)
}

func (p *vc_sigma) holds(t vc_tr) bool {
	for _, e := range p.eqs(t) {
		if !e[0].eq(e[1]) {
			return false
		}
	}
	if p.extra != nil && !p.extra(t) {
		return false
	}
	return p.hash(t).Cmp(t.S[p.chal]) == 0
}

func vc_mkPt(m map[string]vc_vec, k string) ECPoint { return m[k].pt() }

// cheap constructors of points: s.vecAny
func (s *vc_stream) vecAny() vc_vec {
	ps := vc_pointVecs(s, 8)
	switch s.intn(4) {
	case 0:
		return ps[s.intn(int64(len(ps)))]
	case 1:
		return vc_gv(s.scalar())
	case 2:
		return vc_hv(s.scalar())
	}
	return vc_vec{vc_modN(s.scalar()), vc_modN(s.scalar())}
}

var vcLambda = vc_hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")

func vc_factors(s *vc_stream) []*big.Int {
	return []*big.Int{vc_bi(-1), vcLambda, vc_mulN(vcLambda, vcLambda), vc_neg(vcLambda), vc_bi(2), vc_bi(0), s.below(vc_oN)}
}

func vc_gspfsSigma() *vc_sigma {
	p := &vc_sigma{name: "GSPFS", order: []string{"base", "A", "T"}, stmt: []string{"A"}, chal: "c", resp: []string{"s"}, commit: []string{"T"}}
	p.eqs = func(t vc_tr) [][2]vc_vec {
		return [][2]vc_vec{{t.P["base"].mul(t.S["s"]).add(t.P["A"].mul(t.S["c"])), t.P["T"]}}
	}
	p.verify = func(t vc_tr) (bool, error) {
		pr := vc_reuse(&GSPFSProof{t.P["base"].pt(), t.P["T"].pt(), t.S["s"], t.S["c"]}).(*GSPFSProof)
		return pr.Verify(TestCurve, t.P["A"].pt())
	}
	p.truth = func(s *vc_stream) (vc_tr, *big.Int) {
		t := vc_newTr()
		x := s.scalar()
		t.P["base"] = s.vecAny()
		t.P["A"] = t.P["base"].mul(x)
		return t, x
	}
	p.honest = func(s *vc_stream, t vc_tr) func(c *big.Int) {
		// the witness is in S["w"]
		u := s.scalarRed()
		w := t.S["w"]
		t.P["T"] = t.P["base"].mul(u)
		return func(c *big.Int) { t.S["s"] = vc_subN(u, vc_mul(c, w)) }
	}
	p.solve = map[string]func(t vc_tr) bool{
		"T": func(t vc_tr) bool {
			t.P["T"] = t.P["base"].mul(t.S["s"]).add(t.P["A"].mul(t.S["c"]))
			return true
		},
		"A": func(t vc_tr) bool {
			if vc_modN(t.S["c"]).Sign() == 0 {
				return false
			}
			t.P["A"] = t.P["T"].sub(t.P["base"].mul(t.S["s"])).mul(vc_inv(t.S["c"]))
			return true
		},
		"base": func(t vc_tr) bool {
			if vc_modN(t.S["s"]).Sign() == 0 {
				return false
			}
			t.P["base"] = t.P["T"].sub(t.P["A"].mul(t.S["c"])).mul(vc_inv(t.S["s"]))
			return true
		},
	}
	return p
}

func vc_equivSigma() *vc_sigma {
	p := &vc_sigma{name: "Equivalence", order: []string{"b1", "r1", "b2", "r2", "T1", "T2"}, stmt: []string{"b1", "r1", "b2", "r2"}, chal: "c",
		resp: []string{"s"}, commit: []string{"T1", "T2"}}
	p.eqs = func(t vc_tr) [][2]vc_vec {
		s, c := t.S["s"], t.S["c"]
		return [][2]vc_vec{{t.P["b1"].mul(s), t.P["T1"].add(t.P["r1"].mul(c))}, {t.P["b2"].mul(s), t.P["T2"].add(t.P["r2"].mul(c))}}
	}
	p.verify = func(t vc_tr) (bool, error) {
		pr := vc_reuse(&EquivalenceProof{t.P["T1"].pt(), t.P["T2"].pt(), t.S["c"], t.S["s"]}).(*EquivalenceProof)
		return pr.Verify(TestCurve, t.P["b1"].pt(), t.P["r1"].pt(), t.P["b2"].pt(), t.P["r2"].pt())
	}
	p.truth = func(s *vc_stream) (vc_tr, *big.Int) {
		t := vc_newTr()
		x := s.scalar()
		t.P["b1"], t.P["b2"] = s.vecAny(), s.vecAny()
		t.P["r1"], t.P["r2"] = t.P["b1"].mul(x), t.P["b2"].mul(x)
		return t, x
	}
	p.honest = func(s *vc_stream, t vc_tr) func(c *big.Int) {
		u := s.scalarRed()
		w := t.S["w"]
		t.P["T1"], t.P["T2"] = t.P["b1"].mul(u), t.P["b2"].mul(u)
		return func(c *big.Int) { t.S["s"] = vc_addN(u, vc_mul(c, w)) }
	}
	p.solve = map[string]func(t vc_tr) bool{}
	for _, i := range []string{"1", "2"} {
		i := i
		p.solve["T"+i] = func(t vc_tr) bool {
			t.P["T"+i] = t.P["b"+i].mul(t.S["s"]).sub(t.P["r"+i].mul(t.S["c"]))
			return true
		}
		p.solve["r"+i] = func(t vc_tr) bool {
			if vc_modN(t.S["c"]).Sign() == 0 {
				return false
			}
			t.P["r"+i] = t.P["b"+i].mul(t.S["s"]).sub(t.P["T"+i]).mul(vc_inv(t.S["c"]))
			return true
		}
		p.solve["b"+i] = func(t vc_tr) bool {
			if vc_modN(t.S["s"]).Sign() == 0 {
				return false
			}
			t.P["b"+i] = t.P["T"+i].add(t.P["r"+i].mul(t.S["c"])).mul(vc_inv(t.S["s"]))
			return true
		}
	}
	return p
}

func vc_consSigma() *vc_sigma {
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	p := &vc_sigma{name: "Consistency", order: []string{"G", "H", "CM", "Tok", "pk", "T1", "T2"}, stmt: []string{"CM", "Tok", "pk"}, chal: "c",
		resp: []string{"s1", "s2"}, commit: []string{"T1", "T2"}}
	p.eqs = func(t vc_tr) [][2]vc_vec {
		s1, s2, c := t.S["s1"], t.S["s2"], t.S["c"]
		return [][2]vc_vec{{G.mul(s1).add(H.mul(s2)), t.P["T1"].add(t.P["CM"].mul(c))}, {t.P["pk"].mul(s2), t.P["T2"].add(t.P["Tok"].mul(c))}}
	}
	p.verify = func(t vc_tr) (bool, error) {
		pr := vc_reuse(&ConsistencyProof{t.P["T1"].pt(), t.P["T2"].pt(), t.S["c"], t.S["s1"], t.S["s2"]}).(*ConsistencyProof)
		return pr.Verify(TestCurve, t.P["CM"].pt(), t.P["Tok"].pt(), t.P["pk"].pt())
	}
	p.truth = func(s *vc_stream) (vc_tr, *big.Int) {
		t := vc_newTr()
		t.P["G"], t.P["H"] = G, H
		v, r := s.scalar(), s.scalar()
		if s.intn(2) == 0 {
			t.P["pk"] = vc_hv(s.scalar())
		} else {
			t.P["pk"] = s.vecAny()
		}
		t.P["CM"], t.P["Tok"] = G.mul(v).add(H.mul(r)), t.P["pk"].mul(r)
		t.S["v"] = v
		return t, r
	}
	p.honest = func(s *vc_stream, t vc_tr) func(c *big.Int) {
		u1, u2 := s.scalarRed(), s.scalarRed()
		w, v := t.S["w"], t.S["v"]
		t.P["T1"], t.P["T2"] = G.mul(u1).add(H.mul(u2)), t.P["pk"].mul(u2)
		return func(c *big.Int) { t.S["s1"], t.S["s2"] = vc_addN(u1, vc_mul(c, v)), vc_addN(u2, vc_mul(c, w)) }
	}
	p.solve = map[string]func(t vc_tr) bool{
		"T1": func(t vc_tr) bool {
			t.P["T1"] = G.mul(t.S["s1"]).add(H.mul(t.S["s2"])).sub(t.P["CM"].mul(t.S["c"]))
			return true
		},
		"T2": func(t vc_tr) bool { t.P["T2"] = t.P["pk"].mul(t.S["s2"]).sub(t.P["Tok"].mul(t.S["c"])); return true },
		"CM": func(t vc_tr) bool {
			if vc_modN(t.S["c"]).Sign() == 0 {
				return false
			}
			t.P["CM"] = G.mul(t.S["s1"]).add(H.mul(t.S["s2"])).sub(t.P["T1"]).mul(vc_inv(t.S["c"]))
			return true
		},
		"Tok": func(t vc_tr) bool {
			if vc_modN(t.S["c"]).Sign() == 0 {
				return false
			}
			t.P["Tok"] = t.P["pk"].mul(t.S["s2"]).sub(t.P["T2"]).mul(vc_inv(t.S["c"]))
			return true
		},
		"pk": func(t vc_tr) bool {
			if vc_modN(t.S["s2"]).Sign() == 0 {
				return false
			}
			t.P["pk"] = t.P["T2"].add(t.P["Tok"].mul(t.S["c"])).mul(vc_inv(t.S["s2"]))
			return true
		},
	}
	return p
}

func vc_djEqs(t vc_tr, c1, c2, s1, s2 *big.Int) [][2]vc_vec {
	return [][2]vc_vec{{t.P["T1"].add(t.P["r1"].mul(c1)), t.P["b1"].mul(s1)}, {t.P["T2"].add(t.P["r2"].mul(c2)), t.P["b2"].mul(s2)}}
}

func vc_disjSigma() *vc_sigma {
	p := &vc_sigma{name: "Disjunctive", order: []string{"b1", "r1", "b2", "r2", "T1", "T2"}, stmt: []string{"b1", "r1", "b2", "r2"}, chal: "c",
		resp: []string{"c1", "c2", "s1", "s2"}, commit: []string{"T1", "T2"}}
	p.eqs = func(t vc_tr) [][2]vc_vec { return vc_djEqs(t, t.S["c1"], t.S["c2"], t.S["s1"], t.S["s2"]) }
	p.extra = func(t vc_tr) bool { return vc_addN(t.S["c1"], t.S["c2"]).Cmp(t.S["c"]) == 0 }
	p.verify = func(t vc_tr) (bool, error) {
		pr := vc_reuse(&DisjunctiveProof{t.P["T1"].pt(), t.P["T2"].pt(), t.S["c"], t.S["c1"], t.S["c2"], t.S["s1"], t.S["s2"]}).(*DisjunctiveProof)
		return pr.Verify(TestCurve, t.P["b1"].pt(), t.P["r1"].pt(), t.P["b2"].pt(), t.P["r2"].pt())
	}
	p.truth = func(s *vc_stream) (vc_tr, *big.Int) {
		t := vc_newTr()
		x := s.scalar()
		t.P["b1"], t.P["b2"] = s.vecAny(), s.vecAny()
		side := s.intn(2)
		t.S["side"] = vc_bi(side)
		other := func(b vc_vec) vc_vec {
			if s.intn(2) == 0 {
				return b.mul(s.scalar())
			}
			return s.vecAny()
		}
		if side == 0 {
			t.P["r1"], t.P["r2"] = t.P["b1"].mul(x), other(t.P["b2"])
		} else {
			t.P["r1"], t.P["r2"] = other(t.P["b1"]), t.P["b2"].mul(x)
		}
		return t, x
	}
	p.honest = func(s *vc_stream, t vc_tr) func(c *big.Int) {
		u1, u2, u3 := s.scalarRed(), s.scalarRed(), s.scalarRed()
		w := t.S["w"]
		a, b := "1", "2"
		if t.S["side"].Sign() != 0 {
			a, b = "2", "1"
		}
		t.P["T"+a] = t.P["b"+a].mul(u1)
		t.P["T"+b] = t.P["b"+b].mul(u2).sub(t.P["r"+b].mul(u3))
		return func(c *big.Int) {
			d := vc_subN(c, u3)
			t.S["c"+a], t.S["c"+b] = d, u3
			t.S["s"+a], t.S["s"+b] = vc_addN(u1, vc_mul(d, w)), u2
		}
	}
	p.solve = map[string]func(t vc_tr) bool{}
	for _, i := range []string{"1", "2"} {
		i := i
		o := map[string]string{"1": "2", "2": "1"}[i]
		fix := func(t vc_tr) { t.S["c"+i] = vc_subN(t.S["c"], t.S["c"+o]) }
		p.solve["T"+i] = func(t vc_tr) bool {
			fix(t)
			t.P["T"+i] = t.P["b"+i].mul(t.S["s"+i]).sub(t.P["r"+i].mul(t.S["c"+i]))
			return true
		}
		p.solve["r"+i] = func(t vc_tr) bool {
			fix(t)
			if t.S["c"+i].Sign() == 0 {
				return false
			}
			t.P["r"+i] = t.P["b"+i].mul(t.S["s"+i]).sub(t.P["T"+i]).mul(vc_inv(t.S["c"+i]))
			return true
		}
		p.solve["b"+i] = func(t vc_tr) bool {
			fix(t)
			if vc_modN(t.S["s"+i]).Sign() == 0 {
				return false
			}
			t.P["b"+i] = t.P["T"+i].add(t.P["r"+i].mul(t.S["c"+i])).mul(vc_inv(t.S["s"+i]))
			return true
		}
	}
	return p
}

// the ABC proof carries a disjunctive proof, whose parts are named dT1, dT2, dc, dc1, dc2, ds1, ds2
func vc_djOf(t vc_tr) vc_tr {
	d := vc_newTr()
	d.P["b1"], d.P["r1"], d.P["b2"], d.P["r2"] = t.P["CM"], t.P["Tok"], vc_hv(vc_bi(1)), t.P["C"].sub(vc_gv(vc_bi(1)))
	d.P["T1"], d.P["T2"] = t.P["dT1"], t.P["dT2"]
	for _, k := range []string{"c", "c1", "c2", "s1", "s2"} {
		d.S[k] = t.S["d"+k]
	}
	return d
}

// abcDj makes a valid embedded disjunctive proof when the Right side is provable (C = G + uc*H)
// or the Left side is (Tok = x*CM); uc or x is in S["dw"], side in S["dside"].
func vc_abcDj(s *vc_stream, t vc_tr) {
	dj := vc_disjSigma()
	d := vc_newTr()
	d.P["b1"], d.P["r1"], d.P["b2"], d.P["r2"] = t.P["CM"], t.P["Tok"], vc_hv(vc_bi(1)), t.P["C"].sub(vc_gv(vc_bi(1)))
	d.S["w"], d.S["side"] = t.S["dw"], t.S["dside"]
	f := dj.honest(s, d)
	d.S["c"] = dj.hash(d)
	f(d.S["c"])
	t.P["dT1"], t.P["dT2"] = d.P["T1"], d.P["T2"]
	for _, k := range []string{"c", "c1", "c2", "s1", "s2"} {
		t.S["d"+k] = d.S[k]
	}
}

func vc_abcProofOf(t vc_tr) *ABCProof {
	d := &DisjunctiveProof{t.P["dT1"].pt(), t.P["dT2"].pt(), t.S["dc"], t.S["dc1"], t.S["dc2"], t.S["ds1"], t.S["ds2"]}
	return &ABCProof{B: t.P["B"].pt(), C: t.P["C"].pt(), T1: t.P["T1"].pt(), T2: t.P["T2"].pt(), Challenge: t.S["c"],
		j: t.S["j"], k: t.S["k"], l: t.S["l"], CToken: t.P["CToken"].pt(), disjuncAC: d}
}

func vc_abcSigma() *vc_sigma {
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	p := &vc_sigma{name: "ABC", order: []string{"G", "H", "CM", "Tok", "B", "C", "T1", "T2"}, stmt: []string{"CM", "Tok"}, chal: "c",
		resp: []string{"j", "k", "l"}, commit: []string{"B", "C", "T1", "T2"}}
	dj := vc_disjSigma()
	p.eqs = func(t vc_tr) [][2]vc_vec {
		c := t.S["c"]
		return [][2]vc_vec{{t.P["CM"].mul(c).add(t.P["T1"]), G.mul(t.S["j"]).add(t.P["Tok"].mul(t.S["k"]))},
			{t.P["C"].mul(c).add(t.P["T2"]), t.P["B"].mul(t.S["j"]).add(H.mul(t.S["l"]))}}
	}
	p.extra = func(t vc_tr) bool { return dj.holds(vc_djOf(t)) }
	p.verify = func(t vc_tr) (bool, error) {
		return vc_reuse(vc_abcProofOf(t)).(*ABCProof).Verify(TestCurve, t.P["CM"].pt(), t.P["Tok"].pt())
	}
	p.truth = func(s *vc_stream) (vc_tr, *big.Int) {
		t := vc_newTr()
		t.P["G"], t.P["H"] = G, H
		v, r, sk := s.scalar(), s.scalar(), s.nonzero()
		if s.intn(4) == 0 {
			v = vc_bi(0)
		}
		t.P["CM"], t.P["Tok"] = G.mul(v).add(H.mul(r)), H.mul(vc_mulN(r, sk))
		t.S["v"], t.S["r"] = v, r
		return t, sk
	}
	p.honest = func(s *vc_stream, t vc_tr) func(c *big.Int) {
		u1, u2, u3, ub, uc := s.scalarRed(), s.scalarRed(), s.scalarRed(), s.scalarRed(), s.scalarRed()
		v, sk := vc_modN(t.S["v"]), t.S["w"]
		if v.Sign() == 0 {
			t.P["B"], t.P["C"] = H.mul(ub), H.mul(uc)
			t.S["dw"], t.S["dside"] = sk, vc_bi(0)
		} else {
			t.P["B"], t.P["C"] = G.mul(vc_inv(v)).add(H.mul(ub)), G.add(H.mul(uc))
			t.S["dw"], t.S["dside"] = uc, vc_bi(1)
		}
		t.P["CToken"] = H.mul(vc_mulN(sk, uc))
		t.P["T1"] = G.mul(u1).add(t.P["Tok"].mul(u2))
		t.P["T2"] = t.P["B"].mul(u1).add(H.mul(u3))
		vc_abcDj(s, t)
		return func(c *big.Int) {
			t.S["j"] = vc_addN(u1, vc_mul(v, c))
			t.S["k"] = vc_addN(u2, vc_mul(vc_inv(sk), c))
			t.S["l"] = vc_addN(u3, vc_mul(vc_sub(uc, vc_mul(v, ub)), c))
		}
	}
	// the embedded proof is redone after the outer component changed; possible when C = G + uc*H
	redo := func(t vc_tr) bool {
		d := t.P["C"].sub(G)
		if d.g.Sign() != 0 {
			return false
		}
		t.S["dw"], t.S["dside"] = d.h, vc_bi(1)
		vc_abcDj(vc_newStream("redo"), t)
		return true
	}
	ic := func(t vc_tr) *big.Int {
		if vc_modN(t.S["c"]).Sign() == 0 {
			return nil
		}
		return vc_inv(t.S["c"])
	}
	p.solve = map[string]func(t vc_tr) bool{
		"T1": func(t vc_tr) bool {
			t.P["T1"] = G.mul(t.S["j"]).add(t.P["Tok"].mul(t.S["k"])).sub(t.P["CM"].mul(t.S["c"]))
			return redo(t)
		},
		"T2": func(t vc_tr) bool {
			t.P["T2"] = t.P["B"].mul(t.S["j"]).add(H.mul(t.S["l"])).sub(t.P["C"].mul(t.S["c"]))
			return redo(t)
		},
		"CM": func(t vc_tr) bool {
			if ic(t) == nil {
				return false
			}
			t.P["CM"] = G.mul(t.S["j"]).add(t.P["Tok"].mul(t.S["k"])).sub(t.P["T1"]).mul(ic(t))
			return redo(t)
		},
		"Tok": func(t vc_tr) bool {
			if vc_modN(t.S["k"]).Sign() == 0 {
				return false
			}
			t.P["Tok"] = t.P["CM"].mul(t.S["c"]).add(t.P["T1"]).sub(G.mul(t.S["j"])).mul(vc_inv(t.S["k"]))
			return redo(t)
		},
		"B": func(t vc_tr) bool {
			if vc_modN(t.S["j"]).Sign() == 0 {
				return false
			}
			t.P["B"] = t.P["C"].mul(t.S["c"]).add(t.P["T2"]).sub(H.mul(t.S["l"])).mul(vc_inv(t.S["j"]))
			return redo(t)
		},
		"C": func(t vc_tr) bool {
			if ic(t) == nil {
				return false
			}
			t.P["C"] = t.P["B"].mul(t.S["j"]).add(H.mul(t.S["l"])).sub(t.P["T2"]).mul(ic(t))
			return redo(t)
		},
	}
	return p
}

func vc_sigmas() map[string]*vc_sigma {
	r := map[string]*vc_sigma{}
	for _, p := range []*vc_sigma{vc_gspfsSigma(), vc_equivSigma(), vc_consSigma(), vc_disjSigma(), vc_abcSigma()} {
		r[p.name] = p
	}
	return r
}

func vc_describe(p *vc_sigma, t vc_tr) string {
	return fmt.Sprintf("%s transcript %s", p.name, t.String())
}
