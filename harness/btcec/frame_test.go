package btcec

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sync"
	"testing"
)

// deep writes out everything reachable from v, unused capacity included.
func vc_deep(w io.Writer, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		if seen[v.Pointer()] {
			fmt.Fprint(w, "seen;")
			return
		}
		seen[v.Pointer()] = true
		vc_deep(w, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		vc_deep(w, v.Elem(), seen)
	case reflect.Struct:
		fmt.Fprint(w, "{")
		for i := 0; i < v.NumField(); i++ {
			vc_deep(w, v.Field(i), seen)
		}
		fmt.Fprint(w, "}")
	case reflect.Slice:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		n := v.Len()
		fmt.Fprintf(w, "%d[", n)
		if v.Type().Elem().Kind() == reflect.Uint8 && v.CanInterface() {
			v = v.Slice(0, v.Cap())
			fmt.Fprintf(w, "%x", v.Bytes())
		} else {
			for i := 0; i < n; i++ {
				vc_deep(w, v.Index(i), seen)
			}
		}
		fmt.Fprint(w, "]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vc_deep(w, v.Index(i), seen)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		var b [9]byte
		x := v.Uint()
		for i := range b[:8] {
			b[i] = byte(x >> (8 * uint(i)))
		}
		b[8] = ';'
		w.Write(b[:])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%d;", v.Int())
	case reflect.Bool:
		fmt.Fprintf(w, "%v;", v.Bool())
	case reflect.String:
		fmt.Fprintf(w, "%q;", v.String())
	}
}

func vc_deepOf(x ...interface{}) string {
	h := sha256.New()
	w := bufio.NewWriterSize(h, 1<<16)
	seen := map[uintptr]bool{}
	for _, v := range x {
		vc_deep(w, reflect.ValueOf(v), seen)
	}
	w.Flush()
	return fmt.Sprintf("%x", h.Sum(nil))
}

type vc_kept struct {
	what, hash string
	v          interface{}
}

// keeper holds what existed so far with what it was then.
type vc_keeper struct{ ks []vc_kept }

func (k *vc_keeper) add(what string, v interface{}) {
	k.ks = append(k.ks, vc_kept{what, vc_deepOf(v), v})
}

func (k *vc_keeper) check(t *testing.T, after string) {
	for i := range k.ks {
		if h := vc_deepOf(k.ks[i].v); h != k.ks[i].hash {
			vc_fail(t, "%s is changed by %s", k.ks[i].what, after)
			k.ks[i].hash = h
		}
	}
}

func vc_spare(b []byte) []byte {
	r := make([]byte, len(b), len(b)+64)
	copy(r, b)
	s := r[:cap(r)]
	for i := len(b); i < len(s); i++ {
		s[i] = 0xa5
	}
	return r
}

type vc_fop struct {
	name string
	f    func() interface{}
}

// frameRun runs the operations one by one, comparing all that existed before, and then at the same time on the same
// arguments under the race detector.
func vc_frameRun(t *testing.T, k *vc_keeper, ops []vc_fop, big *vc_keeper, rounds int, first bool) {
	call := func(o vc_fop) (r interface{}) {
		defer func() {
			if e := recover(); e != nil {
				r = nil // C27 is about what is written
			}
		}()
		return o.f()
	}
	one := func() {
		for _, o := range ops {
			vc_begin("%s", o.name)
			r := call(o)
			k.check(t, o.name)
			if r != nil {
				k.add("the result of "+o.name, r)
			}
		}
		vc_begin("shared state after a round")
		big.check(t, "the operations on these arguments")
	}
	if first {
		one()
	} else {
		// each operation for the first time, by several goroutines at once
		for _, o := range ops {
			o := o
			vc_begin("%s, first use by several goroutines at once", o.name)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					call(o)
				}()
			}
			close(start)
			wg.Wait()
			k.check(t, o.name)
		}
		defer one()
	}
	for n := 0; n < rounds; n++ {
		vc_begin("concurrent use, round %d", n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := range ops {
					call(ops[(i*(2*g+1)+g*7)%len(ops)])
				}
			}(g)
		}
		close(start)
		wg.Wait()
		k.check(t, "concurrent operations")
	}
}

// vc_first is the first use of the curve, by several goroutines at once; variables are initialised before init runs.
var vc_first = func() bool {
	var first sync.WaitGroup
	for i := 0; i < 8; i++ {
		first.Add(1)
		go func() {
			defer first.Done()
			S256().ScalarBaseMult([]byte{3})
		}()
	}
	first.Wait()
	return true
}()

func TestVC_C27(t *testing.T) {
	s := vc_newStream("frame")
	big0 := &vc_keeper{}
	big0.add("the curve with its tables", S256())
	k0 := &vc_keeper{}
	k0.add("the curve parameters", S256().Params())
	for i := 0; !vc_over(vc_budget()) && i < 600; i++ {
		k := &vc_keeper{append([]vc_kept(nil), k0.ks...)}
		vc_frameRun(t, k, vc_frameOps(s, i, k), big0, 1, i%2 == 1)
	}
}

func vc_frameOps(s *vc_stream, i int, k *vc_keeper) []vc_fop {
	c := S256()
	p1, p2 := vc_gv(s.nonzero()).pt(), vc_hv(s.nonzero()).pt()
	if i%4 == 1 {
		p2 = ECPoint{vc_bi(0), vc_bi(0)}
	}
	if i%4 == 2 {
		p2 = vc_oNeg(p1)
	}
	if i%8 == 3 {
		p1 = ECPoint{vc_cp(c.Gx), vc_cp(c.Gy)}
	}
	p1, p2 = ECPoint{vc_cp(p1.X), vc_cp(p1.Y)}, ECPoint{vc_cp(p2.X), vc_cp(p2.Y)}
	k.add("point p1", &p1)
	k.add("point p2", &p2)
	sc := s.scalar()
	kb := vc_spare(sc.Bytes())
	long := vc_spare(append([]byte{1, 0, 0, 7}, sc.Bytes()...))
	k.add("scalar bytes", kb)
	k.add("long scalar bytes", long)
	two := func(a, b *big.Int) interface{} { return []*big.Int{a, b} }
	d := s.nonzero()
	db := vc_spare(d.FillBytes(make([]byte, 32)))
	if i%5 == 4 {
		db = vc_spare(new(big.Int).Rsh(d, 40).Bytes())
	}
	k.add("private key bytes", db)
	priv, pub := PrivKeyFromBytes(c, db)
	k.add("private key", []interface{}{priv.D, priv.X, priv.Y})
	k.add("public key", []interface{}{pub.X, pub.Y})
	hl := []int{32, 0, 20, 64, 31}[i%5]
	h := make([]byte, hl)
	s.Read(h)
	h = vc_spare(h)
	k.add("hash", h)
	msg := make([]byte, s.intn(50))
	s.Read(msg)
	msg = vc_spare(msg)
	k.add("plaintext", msg)
	ops := []vc_fop{
		{"Add", func() interface{} { return two(c.Add(p1.X, p1.Y, p2.X, p2.Y)) }},
		{"Add same", func() interface{} { return two(c.Add(p1.X, p1.Y, p1.X, p1.Y)) }},
		{"Add swapped", func() interface{} { return two(c.Add(p2.X, p2.Y, p1.X, p1.Y)) }},
		{"Double", func() interface{} { return two(c.Double(p1.X, p1.Y)) }},
		{"Double of G", func() interface{} { return two(c.Double(c.Gx, c.Gy)) }},
		{"IsOnCurve", func() interface{} { c.IsOnCurve(p1.X, p1.Y); return nil }},
		{"ScalarMult", func() interface{} { return two(c.ScalarMult(p1.X, p1.Y, kb)) }},
		{"ScalarMult of G", func() interface{} { return two(c.ScalarMult(c.Gx, c.Gy, kb)) }},
		{"ScalarMult long", func() interface{} { return two(c.ScalarMult(p1.X, p1.Y, long)) }},
		{"ScalarBaseMult", func() interface{} { return two(c.ScalarBaseMult(kb)) }},
		{"ScalarBaseMultH", func() interface{} { return two(c.ScalarBaseMultH(kb)) }},
		{"ScalarBaseMult long", func() interface{} { return two(c.ScalarBaseMult(long)) }},
		{"ScalarBaseMultH long", func() interface{} { return two(c.ScalarBaseMultH(long)) }},
		{"NAF", func() interface{} { a, b := NAF(kb); return [][]byte{a, b} }},
		{"PrivKeyFromBytes", func() interface{} { a, b := PrivKeyFromBytes(c, db); return []*big.Int{a.D, b.X, b.Y} }},
		{"PrivateKey.Serialize", func() interface{} { return priv.Serialize() }},
		{"GenerateSharedSecret", func() interface{} { return GenerateSharedSecret(priv, pub) }},
		{"Encrypt, Decrypt", func() interface{} {
			x, err := Encrypt(pub, msg)
			if err != nil {
				return nil
			}
			y, _ := Decrypt(priv, x)
			return [][]byte{x, y}
		}},
	}
	for n, f := range map[string]func() []byte{"compressed": pub.SerializeCompressed, "uncompressed": pub.SerializeUncompressed, "hybrid": pub.SerializeHybrid} {
		f := f
		b := vc_spare(f())
		k.add(n+" public key", b)
		ops = append(ops, vc_fop{"Serialize " + n, func() interface{} { return f() }}, vc_fop{"ParsePubKey " + n, func() interface{} {
			p, err := ParsePubKey(b, c)
			if err != nil {
				return nil
			}
			return []*big.Int{p.X, p.Y}
		}})
	}
	if enc, err := Encrypt(pub, msg); err == nil {
		enc = vc_spare(enc)
		k.add("ciphertext", enc)
		bad := vc_spare(enc)
		if len(bad) > 0 {
			bad[len(bad)-1] ^= 1
		}
		k.add("altered ciphertext", bad)
		ops = append(ops, vc_fop{"Decrypt", func() interface{} { r, _ := Decrypt(priv, enc); return r }},
			vc_fop{"Decrypt altered", func() interface{} { r, _ := Decrypt(priv, bad); return r }})
	}
	if sig, err := priv.Sign(h); err == nil {
		k.add("signature", []*big.Int{sig.R, sig.S})
		b := vc_spare(sig.Serialize())
		k.add("signature encoding", b)
		high := &Signature{R: vc_cp(sig.R), S: vc_sub(vc_oN, sig.S)}
		k.add("high signature", []*big.Int{high.R, high.S})
		ops = append(ops, vc_fop{"Sign", func() interface{} {
			g, err := priv.Sign(h)
			if err != nil {
				return nil
			}
			return []*big.Int{g.R, g.S}
		}}, vc_fop{"Signature.Serialize", func() interface{} { return sig.Serialize() }},
			vc_fop{"Signature.Serialize high", func() interface{} { return high.Serialize() }},
			vc_fop{"Signature.Verify", func() interface{} { sig.Verify(h, pub); return nil }},
			vc_fop{"IsEqual", func() interface{} { sig.IsEqual(high); return nil }},
			vc_fop{"ParseSignature", func() interface{} {
				g, err := ParseSignature(b, c)
				if err != nil {
					return nil
				}
				return []*big.Int{g.R, g.S}
			}}, vc_fop{"ParseDERSignature", func() interface{} {
				g, err := ParseDERSignature(b, c)
				if err != nil {
					return nil
				}
				return []*big.Int{g.R, g.S}
			}})
	}
	if cs, err := SignCompact(c, priv, h, i%2 == 0); err == nil {
		cs = vc_spare(cs)
		k.add("compact signature", cs)
		ops = append(ops, vc_fop{"SignCompact", func() interface{} { r, _ := SignCompact(c, priv, h, i%2 == 0); return r }},
			vc_fop{"RecoverCompact", func() interface{} {
				p, _, err := RecoverCompact(c, cs, h)
				if err != nil {
					return nil
				}
				return []*big.Int{p.X, p.Y}
			}})
	}
	return ops
}
