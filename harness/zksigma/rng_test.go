package zksigma

import (
	"fmt"
	"io"
	"math/big"
	"runtime"
	"testing"
	"time"
)

// statements for every randomised operation
type vc_op struct {
	name string
	f    func() (interface{}, error)
}

func vc_randomised(s *vc_stream) []vc_op {
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	x, v, r, sk := s.nonzero(), s.nonzero(), s.nonzero(), s.nonzero()
	b1, b2 := s.vecAny(), s.vecAny()
	pk := H.mul(sk)
	CM, Tok := G.mul(v).add(H.mul(r)), pk.mul(r)
	C0, Tok0 := H.mul(r), pk.mul(r)
	bitsv := s.below(new(big.Int).Lsh(vc_bi(1), 40))
	rng := func(val *big.Int) func() (interface{}, error) {
		return func() (interface{}, error) {
			p, rr, err := NewRangeProof(TestCurve, val)
			if err != nil && rr != nil {
				return rr, err
			}
			return p, err
		}
	}
	a := vc_add(v, vc_bi(1))
	return []vc_op{
		{"PedCommit", func() (interface{}, error) {
			p, rr, err := PedCommit(TestCurve, v)
			if rr != nil {
				return rr, err
			}
			if err != nil && p.X != nil && !(p.X.Sign() == 0 && p.Y.Sign() == 0) {
				return p, err
			}
			return nil, err
		}},
		{"NewGSPFSProof", func() (interface{}, error) { return vc_wrap2(NewGSPFSProof(TestCurve, G.mul(x).pt(), x)) }},
		{"NewGSPFSProofBase", func() (interface{}, error) { return vc_wrap2(NewGSPFSProofBase(TestCurve, b1.pt(), b1.mul(x).pt(), x)) }},
		{"NewEquivalenceProof", func() (interface{}, error) {
			return vc_wrap2(NewEquivalenceProof(TestCurve, b1.pt(), b1.mul(x).pt(), b2.pt(), b2.mul(x).pt(), x))
		}},
		{"NewConsistencyProof", func() (interface{}, error) {
			return vc_wrap2(NewConsistencyProof(TestCurve, CM.pt(), Tok.pt(), pk.pt(), v, r))
		}},
		{"NewDisjunctiveProof left", func() (interface{}, error) {
			return vc_wrap2(NewDisjunctiveProof(TestCurve, b1.pt(), b1.mul(x).pt(), b2.pt(), G.pt(), x, Left))
		}},
		{"NewDisjunctiveProof right", func() (interface{}, error) {
			return vc_wrap2(NewDisjunctiveProof(TestCurve, b1.pt(), G.pt(), b2.pt(), b2.mul(x).pt(), x, Right))
		}},
		{"NewABCProof right", func() (interface{}, error) { return vc_wrap2(NewABCProof(TestCurve, CM.pt(), Tok.pt(), v, sk, Right)) }},
		{"NewABCProof left", func() (interface{}, error) {
			return vc_wrap2(NewABCProof(TestCurve, C0.pt(), Tok0.pt(), vc_bi(0), sk, Left))
		}},
		{"NewInequalityProof", func() (interface{}, error) {
			return vc_wrap2(NewInequalityProof(TestCurve, G.mul(a).add(H.mul(r)).pt(), G.mul(v).pt(), Tok.pt(), vc_gv(vc_bi(0)).pt(), a, v, sk))
		}},
		{fmt.Sprintf("NewRangeProof %v", bitsv), rng(bitsv)},
		{"NewRangeProof 2^40-1", rng(vc_hexInt("FFFFFFFFFF"))},
		{"NewRangeProof 0", rng(vc_bi(0))},
	}
}

func vc_wrap2(p interface{}, err error) (interface{}, error) { return p, err }

// flaky fails the draws in [from, to)
type vc_flaky struct {
	n, from, to int
	s           *vc_stream
	kind        int
	hit         int
	vc_lockReader
}

func (f *vc_flaky) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.n-1 >= f.from && f.n-1 < f.to {
		f.hit++
		switch f.kind {
		case 1:
			if len(p) > 1 {
				f.s.Read(p[:len(p)-1])
				return len(p) - 1, vc_errVC
			}
		case 2:
			return 0, io.EOF
		case 3:
			return 0, io.ErrUnexpectedEOF
		case 4:
			for i := range p {
				p[i] = 0
			}
			return 0, vc_errVC
		}
		return 0, vc_errVC
	}
	return f.s.Read(p)
}

// dribble gives one byte at a time
type vc_dribble struct{ vc_lockReader }

func (d *vc_dribble) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return d.vc_lockReader.Read(p[:1])
}

func TestVC_C28(t *testing.T) {
	s := vc_newStream("28")
	for round := 0; !vc_over(vc_budget()) || round == 0; round++ {
		ops := vc_randomised(s)
		for _, o := range ops {
			// how many draws there are
			c := &vc_lockReader{r: vc_newStream("count")}
			vc_begin("%s", o.name)
			vc_guard(t, func() {
				vc_withReader(c, func() {
					p, err := o.f()
					if err != nil || vc_isNilOrZero(p) {
						vc_fail(t, "%s does not succeed with a working source: %v", o.name, err)
					}
				})
			})
			n := c.n
			if n == 0 {
				vc_fail(t, "%s draws no randomness", o.name)
			}
			for d := 0; d < n; d++ {
				if n > 20 && round == 0 && d > 3 && d < n-3 && s.intn(4) > 0 {
					continue
				}
				if n > 20 && vc_over(vc_budget()*1.5) {
					break
				}
				to := 1 << 30
				if s.intn(2) == 0 {
					to = d + 1
				}
				f := &vc_flaky{from: d, to: to, s: vc_newStream(fmt.Sprint("f", round, d)), kind: int(s.intn(5))}
				g0 := runtime.NumGoroutine()
				vc_begin("%s with the random source failing from draw %d to %d (kind %d)", o.name, d, to, f.kind)
				vc_guard(t, func() {
					var p interface{}
					var err error
					vc_withReader(f, func() { p, err = o.f() })
					if f.hit == 0 {
						return
					}
					if err == nil || !vc_isNilOrZero(p) {
						vc_fail(t, "%s with the random source failing from draw %d to %d (kind %d) returns a result; error: %v", o.name, d, to, f.kind, err)
					}
				})
				for k := 0; k < 200 && runtime.NumGoroutine() > g0; k++ {
					time.Sleep(5 * time.Millisecond)
				}
				if runtime.NumGoroutine() > g0 {
					vc_fail(t, "%s leaks goroutines when the random source fails from draw %d", o.name, d)
				}
			}
			vc_begin("%s with a source that gives single bytes", o.name)
			vc_guard(t, func() {
				vc_withReader(&vc_dribble{vc_lockReader{r: vc_newStream(fmt.Sprint("d", round))}}, func() {
					p, err := o.f()
					if err != nil || vc_isNilOrZero(p) {
						vc_fail(t, "%s fails with a source that gives single bytes: %v", o.name, err)
					}
				})
			})
		}
	}
}
