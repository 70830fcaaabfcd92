package zksigma

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sync"
	"testing"
)

// deep writes out everything reachable from v, unused capacity included.
func vc_deep(w io.Writer, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		if seen[v.Pointer()] {
			fmt.Fprint(w, "seen;")
			return
		}
		seen[v.Pointer()] = true
		vc_deep(w, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		vc_deep(w, v.Elem(), seen)
	case reflect.Struct:
		fmt.Fprint(w, "{")
		for i := 0; i < v.NumField(); i++ {
			vc_deep(w, v.Field(i), seen)
		}
		fmt.Fprint(w, "}")
	case reflect.Slice:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		n := v.Len()
		fmt.Fprintf(w, "%d[", n)
		if v.Type().Elem().Kind() == reflect.Uint8 && v.CanInterface() {
			v = v.Slice(0, v.Cap())
			fmt.Fprintf(w, "%x", v.Bytes())
		} else {
			for i := 0; i < n; i++ {
				vc_deep(w, v.Index(i), seen)
			}
		}
		fmt.Fprint(w, "]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vc_deep(w, v.Index(i), seen)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		var b [9]byte
		x := v.Uint()
		for i := range b[:8] {
			b[i] = byte(x >> (8 * uint(i)))
		}
		b[8] = ';'
		w.Write(b[:])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%d;", v.Int())
	case reflect.Bool:
		fmt.Fprintf(w, "%v;", v.Bool())
	case reflect.String:
		fmt.Fprintf(w, "%q;", v.String())
	}
}

func vc_deepOf(x ...interface{}) string {
	h := sha256.New()
	w := bufio.NewWriterSize(h, 1<<16)
	seen := map[uintptr]bool{}
	for _, v := range x {
		vc_deep(w, reflect.ValueOf(v), seen)
	}
	w.Flush()
	return fmt.Sprintf("%x", h.Sum(nil))
}

type vc_kept struct {
	what, hash string
	v          interface{}
}

// keeper holds what existed so far with what it was then.
type vc_keeper struct{ ks []vc_kept }

func (k *vc_keeper) add(what string, v interface{}) {
	k.ks = append(k.ks, vc_kept{what, vc_deepOf(v), v})
}

func (k *vc_keeper) check(t *testing.T, after string) {
	for i := range k.ks {
		if h := vc_deepOf(k.ks[i].v); h != k.ks[i].hash {
			vc_fail(t, "%s is changed by %s", k.ks[i].what, after)
			k.ks[i].hash = h
		}
	}
}

func vc_spare(b []byte) []byte {
	r := make([]byte, len(b), len(b)+64)
	copy(r, b)
	s := r[:cap(r)]
	for i := len(b); i < len(s); i++ {
		s[i] = 0xa5
	}
	return r
}

type vc_fop struct {
	name string
	f    func() interface{}
}

// frameRun runs the operations one by one, comparing all that existed before, and then at the same time on the same
// arguments under the race detector.
func vc_frameRun(t *testing.T, k *vc_keeper, ops []vc_fop, big *vc_keeper, rounds int, first bool) {
	call := func(o vc_fop) (r interface{}) {
		defer func() {
			if e := recover(); e != nil {
				r = nil // C27 is about what is written
			}
		}()
		return o.f()
	}
	one := func() {
		for _, o := range ops {
			vc_begin("%s", o.name)
			r := call(o)
			k.check(t, o.name)
			if r != nil {
				k.add("the result of "+o.name, r)
			}
		}
		vc_begin("shared state after a round")
		big.check(t, "the operations on these arguments")
	}
	if first {
		one()
	} else {
		// each operation for the first time, by several goroutines at once
		for _, o := range ops {
			o := o
			vc_begin("%s, first use by several goroutines at once", o.name)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					call(o)
				}()
			}
			close(start)
			wg.Wait()
			k.check(t, o.name)
		}
		defer one()
	}
	for n := 0; n < rounds; n++ {
		vc_begin("concurrent use, round %d", n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := range ops {
					call(ops[(i*(2*g+1)+g*7)%len(ops)])
				}
			}(g)
		}
		close(start)
		wg.Wait()
		k.check(t, "concurrent operations")
	}
}

func TestVC_C27(t *testing.T) {
	s := vc_newStream("frame")
	big0 := &vc_keeper{}
	big0.add("TestCurve (curve parameters and tables included)", &TestCurve)
	k0 := &vc_keeper{}
	k0.add("TestCurve.G", &TestCurve.G)
	k0.add("TestCurve.H", &TestCurve.H)
	k0.add("TestCurve.HPoints", TestCurve.HPoints)
	k0.add("the curve parameters", TestCurve.C.Params())
	k0.add("Zero", &Zero)
	for i := 0; !vc_over(vc_budget()) && i < 400; i++ {
		k := &vc_keeper{append([]vc_kept(nil), k0.ks...)}
		vc_frameRun(t, k, vc_frameOps(s, i, k), big0, 1, i%2 == 1)
	}
}

func vc_frameOps(s *vc_stream, i int, k *vc_keeper) []vc_fop {
	G, H := vc_gv(vc_bi(1)), vc_hv(vc_bi(1))
	x, v, r, sk := s.nonzero(), s.nonzero(), s.nonzero(), s.nonzero()
	if i%4 == 1 { // arguments that are not reduced, or negative
		x, v, r = vc_add(x, vc_oN), vc_sub(v, vc_oN), vc_add(r, vc_mul(vc_oN, vc_bi(5)))
	}
	if i%4 == 2 {
		x, v, r = vc_bi(s.intn(3)), vc_bi(s.intn(300)), vc_bi(s.intn(70000))
	}
	b1v, b2v := s.vecAny(), s.vecAny()
	pkv := H.mul(sk)
	CMv, Tokv := G.mul(v).add(H.mul(r)), pkv.mul(r)
	P := map[string]ECPoint{
		"b1": b1v.pt(), "b2": b2v.pt(), "x1": b1v.mul(x).pt(), "x2": b2v.mul(x).pt(), "pk": pkv.pt(), "CM": CMv.pt(), "Tok": Tokv.pt(),
		"C0": H.mul(r).pt(), "xG": G.mul(x).pt(), "a": CMv.add(G).pt(), "b": G.mul(v).pt(), "zero": vc_gv(vc_bi(0)).pt(),
		"neg": vc_oNeg(b1v.pt()),
	}
	for n, p := range P {
		c := ECPoint{vc_cp(p.X), vc_cp(p.Y)}
		P[n] = c
		k.add("point "+n, &c)
	}
	I := map[string]*big.Int{"x": x, "v": v, "r": r, "sk": sk, "v+1": vc_add(v, vc_bi(1)), "small": s.below(new(big.Int).Lsh(vc_bi(1), 40)), "zero": vc_bi(0), "-x": vc_neg2f(x)}
	for n, c := range I {
		k.add("integer "+n, c)
	}
	x, v, r, sk = I["x"], I["v"], I["r"], I["sk"]
	Z := TestCurve
	two := func(a interface{}, err error) interface{} {
		if err != nil {
			return nil
		}
		return a
	}
	pt := func(p ECPoint) interface{} { return &p }
	msg := [][]byte{vc_spare([]byte{1, 2, 3}), vc_spare(nil), vc_spare(P["b1"].Bytes())}
	k.add("hash input", msg)
	ops := []vc_fop{
		{"Mult", func() interface{} { return pt(Z.Mult(P["b1"], x)) }},
		{"Mult -x", func() interface{} { return pt(Z.Mult(P["b2"], I["-x"])) }},
		{"Mult of G", func() interface{} { return pt(Z.Mult(Z.G, v)) }},
		{"Mult of H", func() interface{} { return pt(Z.Mult(Z.H, v)) }},
		{"Add", func() interface{} { return pt(Z.Add(P["b1"], P["b2"])) }},
		{"Add same", func() interface{} { return pt(Z.Add(P["b1"], P["b1"])) }},
		{"Add zero", func() interface{} { return pt(Z.Add(P["zero"], P["b1"])) }},
		{"Add Zero", func() interface{} { return pt(Z.Add(P["b1"], Zero)) }},
		{"Sub", func() interface{} { return pt(Z.Sub(P["b1"], P["b2"])) }},
		{"Sub same", func() interface{} { return pt(Z.Sub(P["b1"], P["b1"])) }},
		{"Neg", func() interface{} { return pt(Z.Neg(P["b1"])) }},
		{"Neg of G", func() interface{} { return pt(Z.Neg(Z.G)) }},
		{"Neg of H", func() interface{} { return pt(Z.Neg(Z.H)) }},
		{"Sub of H", func() interface{} { return pt(Z.Sub(P["b1"], Z.H)) }},
		{"Sub from H", func() interface{} { return pt(Z.Sub(Z.H, P["b1"])) }},
		{"Sub of G", func() interface{} { return pt(Z.Sub(P["b2"], Z.G)) }},
		{"Add of G", func() interface{} { return pt(Z.Add(P["b2"], Z.G)) }},
		{"Add of H", func() interface{} { return pt(Z.Add(Z.H, P["b1"])) }},
		{"Add of G and H", func() interface{} { return pt(Z.Add(Z.G, Z.H)) }},
		{"Sub Zero", func() interface{} { return pt(Z.Sub(Zero, P["b1"])) }},
		{"Neg of Zero", func() interface{} { return pt(Z.Neg(Zero)) }},
		{"Add inverse", func() interface{} { return pt(Z.Add(P["b1"], P["neg"])) }},
		{"Mult of H by the order", func() interface{} { return pt(Z.Mult(Z.H, Z.C.Params().N)) }},
		{"Mult of a double", func() interface{} { return pt(Z.Mult(Z.HPoints[1], x)) }},
		{"Neg of zero", func() interface{} { return pt(Z.Neg(P["zero"])) }},
		{"Equal", func() interface{} { P["b1"].Equal(P["b2"]); return nil }},
		{"Bytes", func() interface{} { return P["b1"].Bytes() }},
		{"Bytes of G", func() interface{} { return Z.G.Bytes() }},
		{"PedCommit", func() interface{} { p, rr, _ := PedCommit(Z, v); return []interface{}{&p, rr} }},
		{"PedCommitR", func() interface{} { return pt(PedCommitR(Z, v, r)) }},
		{"Open", func() interface{} { Open(Z, v, r, P["CM"]); return nil }},
		{"Open wrong", func() interface{} { Open(Z, v, x, P["CM"]); return nil }},
		{"CommitR", func() interface{} { return pt(CommitR(Z, P["pk"], r)) }},
		{"VerifyR", func() interface{} { VerifyR(Z, P["Tok"], P["pk"], r); return nil }},
		{"KeyGen", func() interface{} { p, a := KeyGen(Z.C, Z.H); return []interface{}{&p, a} }},
		{"GenerateChallenge", func() interface{} { return GenerateChallenge(Z, msg...) }},
		{"WriteBigInt, ReadBigInt", func() interface{} {
			var b bytes.Buffer
			WriteBigInt(&b, x)
			return two(ReadBigInt(bytes.NewReader(b.Bytes())))
		}},
		{"WriteECPoint, ReadECPoint", func() interface{} {
			var b bytes.Buffer
			WriteECPoint(&b, P["b1"])
			p, err := ReadECPoint(bytes.NewReader(b.Bytes()))
			if err != nil {
				return nil
			}
			return &p
		}},
	}
	// provers, and for a proof of each kind its verifier, its encoding and its reading
	type made struct {
		name string
		mk   func() (interface{}, error)
		ver  func(p interface{})
		from func(b []byte) interface{}
	}
	ms := []made{
		{"GSPFS", func() (interface{}, error) { return vc_nilify(NewGSPFSProof(Z, P["xG"], x)) },
			func(p interface{}) { p.(*GSPFSProof).Verify(Z, P["xG"]); p.(*GSPFSProof).Verify(Z, P["b1"]) },
			func(b []byte) interface{} { return two(NewGSPFSProofFromBytes(b)) }},
		{"GSPFS with a base", func() (interface{}, error) { return vc_nilify(NewGSPFSProofBase(Z, P["b1"], P["x1"], x)) },
			func(p interface{}) { p.(*GSPFSProof).Verify(Z, P["x1"]) },
			func(b []byte) interface{} { return two(NewGSPFSProofFromBytes(b)) }},
		{"Equivalence", func() (interface{}, error) {
			return vc_nilify(NewEquivalenceProof(Z, P["b1"], P["x1"], P["b2"], P["x2"], x))
		},
			func(p interface{}) {
				p.(*EquivalenceProof).Verify(Z, P["b1"], P["x1"], P["b2"], P["x2"])
				p.(*EquivalenceProof).Verify(Z, P["b1"], P["x2"], P["b2"], P["x2"])
			},
			func(b []byte) interface{} { return two(NewEquivalenceProofFromBytes(b)) }},
		{"Consistency", func() (interface{}, error) {
			return vc_nilify(NewConsistencyProof(Z, P["CM"], P["Tok"], P["pk"], v, r))
		},
			func(p interface{}) {
				p.(*ConsistencyProof).Verify(Z, P["CM"], P["Tok"], P["pk"])
				p.(*ConsistencyProof).Verify(Z, P["CM"], P["CM"], P["pk"])
			},
			func(b []byte) interface{} { return two(NewConsistencyProofFromBytes(b)) }},
		{"Disjunctive left", func() (interface{}, error) {
			return vc_nilify(NewDisjunctiveProof(Z, P["b1"], P["x1"], P["b2"], P["pk"], x, Left))
		},
			func(p interface{}) {
				p.(*DisjunctiveProof).Verify(Z, P["b1"], P["x1"], P["b2"], P["pk"])
				p.(*DisjunctiveProof).Verify(Z, P["b1"], P["x1"], P["b2"], P["b2"])
			},
			func(b []byte) interface{} { return two(NewDisjunctiveProofFromBytes(b)) }},
		{"Disjunctive right", func() (interface{}, error) {
			return vc_nilify(NewDisjunctiveProof(Z, P["b1"], P["pk"], P["b2"], P["x2"], x, Right))
		},
			func(p interface{}) { p.(*DisjunctiveProof).Verify(Z, P["b1"], P["pk"], P["b2"], P["x2"]) },
			func(b []byte) interface{} { return two(NewDisjunctiveProofFromBytes(b)) }},
		{"ABC right", func() (interface{}, error) { return vc_nilify(NewABCProof(Z, P["CM"], P["Tok"], v, sk, Right)) },
			func(p interface{}) {
				p.(*ABCProof).Verify(Z, P["CM"], P["Tok"])
				p.(*ABCProof).Verify(Z, P["CM"], P["CM"])
			},
			func(b []byte) interface{} { return two(NewABCProofFromBytes(b)) }},
		{"ABC left", func() (interface{}, error) { return vc_nilify(NewABCProof(Z, P["C0"], P["Tok"], I["zero"], sk, Left)) },
			func(p interface{}) { p.(*ABCProof).Verify(Z, P["C0"], P["Tok"]) },
			func(b []byte) interface{} { return two(NewABCProofFromBytes(b)) }},
		{"Inequality", func() (interface{}, error) {
			return vc_nilify(NewInequalityProof(Z, P["a"], P["b"], P["Tok"], P["zero"], I["v+1"], v, sk))
		}, func(p interface{}) { p.(*InequalityProof).Verify(Z, Z.Sub(P["a"], P["b"]), P["Tok"]) }, nil},
	}
	if i%3 == 0 {
		ms = append(ms, made{"Range", func() (interface{}, error) { p, _, err := NewRangeProof(Z, I["small"]); return vc_nilify(p, err) },
			func(p interface{}) {
				p.(*RangeProof).Verify(Z, p.(*RangeProof).ProofAggregate)
				p.(*RangeProof).Verify(Z, P["b1"])
			},
			func(b []byte) interface{} { return two(NewRangeProofFromBytes(b)) }})
	}
	for _, m := range ms {
		m := m
		ops = append(ops, vc_fop{"New " + m.name, func() interface{} { p, _ := m.mk(); return p }})
		p, err := m.mk()
		if err != nil || p == nil {
			continue
		}
		k.add(m.name+" proof", p)
		ops = append(ops, vc_fop{"Verify " + m.name, func() interface{} { m.ver(p); return nil }})
		if m.from == nil {
			continue
		}
		bs := p.(interface{ Bytes() []byte }).Bytes()
		b := vc_spare(bs)
		k.add(m.name+" encoding", b)
		ops = append(ops, vc_fop{"Bytes " + m.name, func() interface{} { return p.(interface{ Bytes() []byte }).Bytes() }},
			vc_fop{"FromBytes " + m.name, func() interface{} { return m.from(b) }})
	}
	return ops
}

func vc_neg2f(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

func vc_nilify(p interface{}, err error) (interface{}, error) {
	if p == nil || reflect.ValueOf(p).IsNil() {
		return nil, err
	}
	return p, err
}
