package zksigma

// Common parts of the replay and conformance harness.  It runs the real code on concrete
// inputs and compares with an oracle of its own (math/big arithmetic on secp256k1).

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	vcSeed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	vcDeep    = os.Getenv("VC_TIER") == "thorough"
	vcMu      sync.Mutex
	vcCur     string
	vcAt      = time.Now()
	vcFails   int
	vcCases   int
	vcStart   = time.Now()
)

func vc_hexInt(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return r
}

var (
	vc_oP  = vc_hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	vc_oN  = vc_hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	vc_oGx = vc_hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	vc_oGy = vc_hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

func vc_bi(n int64) *big.Int        { return big.NewInt(n) }
func vc_cp(a *big.Int) *big.Int     { return new(big.Int).Set(a) }
func vc_add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func vc_sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func vc_mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func vc_modN(a *big.Int) *big.Int   { return new(big.Int).Mod(a, vc_oN) }

// inv is 0 for multiples of the order
func vc_inv(a *big.Int) *big.Int {
	if r := new(big.Int).ModInverse(vc_modN(a), vc_oN); r != nil {
		return r
	}
	return vc_bi(0)
}

func vc_mulN(a ...*big.Int) *big.Int {
	r := vc_bi(1)
	for _, x := range a {
		r = vc_modN(vc_mul(r, x))
	}
	return r
}
func vc_addN(a ...*big.Int) *big.Int {
	r := vc_bi(0)
	for _, x := range a {
		r = vc_modN(vc_add(r, x))
	}
	return r
}
func vc_neg(a *big.Int) *big.Int     { return vc_modN(new(big.Int).Neg(a)) }
func vc_subN(a, b *big.Int) *big.Int { return vc_modN(vc_sub(a, b)) }

// ---------------------------------------------------------------- oracle group

type vc_jac struct{ x, y, z *big.Int } // z = 0: identity

func vc_oDouble(p vc_jac) vc_jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
	}
	m := func(a, b *big.Int) *big.Int { r := vc_mul(a, b); return r.Mod(r, vc_oP) }
	a := m(p.x, p.x)
	b := m(p.y, p.y)
	c := m(b, b)
	d := vc_add(p.x, b)
	d = vc_sub(vc_sub(m(d, d), a), c)
	d.Lsh(d, 1)
	d.Mod(d, vc_oP)
	e := vc_mul(a, vc_bi(3))
	f := m(e, e)
	x := vc_sub(f, new(big.Int).Lsh(d, 1))
	x.Mod(x, vc_oP)
	y := vc_sub(vc_mul(e, vc_sub(d, x)), new(big.Int).Lsh(c, 3))
	y.Mod(y, vc_oP)
	z := vc_mul(p.y, p.z)
	z.Lsh(z, 1)
	z.Mod(z, vc_oP)
	return vc_jac{x, y, z}
}

func vc_oAddJ(p, q vc_jac) vc_jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	m := func(a, b *big.Int) *big.Int { r := vc_mul(a, b); return r.Mod(r, vc_oP) }
	z1z1, z2z2 := m(p.z, p.z), m(q.z, q.z)
	u1, u2 := m(p.x, z2z2), m(q.x, z1z1)
	s1, s2 := m(m(p.y, q.z), z2z2), m(m(q.y, p.z), z1z1)
	h, r := vc_sub(u2, u1), vc_sub(s2, s1)
	h.Mod(h, vc_oP)
	r.Mod(r, vc_oP)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return vc_oDouble(p)
		}
		return vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
	}
	hh := m(h, h)
	hhh := m(h, hh)
	v := m(u1, hh)
	x := vc_sub(vc_sub(m(r, r), hhh), new(big.Int).Lsh(v, 1))
	x.Mod(x, vc_oP)
	y := vc_sub(vc_mul(r, vc_sub(v, x)), vc_mul(s1, hhh))
	y.Mod(y, vc_oP)
	return vc_jac{x, y, m(m(p.z, q.z), h)}
}

func vc_toJ(p ECPoint) vc_jac {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
	}
	return vc_jac{p.X, p.Y, vc_bi(1)}
}

func vc_fromJ(p vc_jac) ECPoint {
	if p.z.Sign() == 0 {
		return ECPoint{vc_bi(0), vc_bi(0)}
	}
	zi := new(big.Int).ModInverse(p.z, vc_oP)
	z2 := vc_mul(zi, zi)
	z2.Mod(z2, vc_oP)
	x := vc_mul(p.x, z2)
	x.Mod(x, vc_oP)
	y := vc_mul(vc_mul(p.y, z2), zi)
	y.Mod(y, vc_oP)
	return ECPoint{x, y}
}

func vc_oMulJ(p vc_jac, k *big.Int) vc_jac {
	k = vc_modN(k)
	r := vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = vc_oDouble(r)
		if k.Bit(i) == 1 {
			r = vc_oAddJ(r, p)
		}
	}
	return r
}

func vc_oMul(p ECPoint, k *big.Int) ECPoint { return vc_fromJ(vc_oMulJ(vc_toJ(p), k)) }
func vc_oAdd(p, q ECPoint) ECPoint          { return vc_fromJ(vc_oAddJ(vc_toJ(p), vc_toJ(q))) }
func vc_oNeg(p ECPoint) ECPoint {
	y := vc_sub(vc_oP, p.Y)
	return ECPoint{vc_cp(p.X), y.Mod(y, vc_oP)}
}
func vc_oSub(p, q ECPoint) ECPoint { return vc_oAdd(p, vc_oNeg(q)) }

func vc_oOn(x, y *big.Int) bool {
	l := vc_mul(y, y)
	r := vc_add(vc_mul(vc_mul(x, x), x), vc_bi(7))
	l.Sub(l, r)
	return l.Mod(l, vc_oP).Sign() == 0
}

func vc_same(p, q ECPoint) bool {
	return p.X != nil && p.Y != nil && q.X != nil && q.Y != nil && p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func vc_oG() ECPoint { return ECPoint{vc_cp(vc_oGx), vc_cp(vc_oGy)} }

var vcH ECPoint

func init() { vcH = ECPoint{vc_cp(TestCurve.H.X), vc_cp(TestCurve.H.Y)} }

// tables of the multiples d*16^i, made with the oracle's own addition
type vc_oTab [64][16]vc_jac

var (
	vcTabOnce      sync.Once
	vcTabG, vcTabH *vc_oTab
)

func vc_oTable(p ECPoint) *vc_oTab {
	t := new(vc_oTab)
	b := vc_toJ(p)
	for i := range t {
		t[i][0] = vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
		for d := 1; d < 16; d++ {
			t[i][d] = vc_toJ(vc_fromJ(vc_oAddJ(t[i][d-1], b)))
		}
		b = vc_oAddJ(t[i][15], b)
	}
	return t
}

func vc_oFixed(t *vc_oTab, k *big.Int, r vc_jac) vc_jac {
	k = vc_modN(k)
	for i := range t {
		d := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if d != 0 {
			r = vc_oAddJ(r, t[i][d])
		}
	}
	return r
}

// vec is g*G + h*H
type vc_vec struct{ g, h *big.Int }

var vcPts sync.Map

func (v vc_vec) pt() ECPoint {
	k := vc_modN(v.g).String() + "," + vc_modN(v.h).String()
	if p, ok := vcPts.Load(k); ok {
		q := p.(ECPoint)
		return ECPoint{vc_cp(q.X), vc_cp(q.Y)}
	}
	vcTabOnce.Do(func() { vcTabG, vcTabH = vc_oTable(vc_oG()), vc_oTable(vcH) })
	q := vc_fromJ(vc_oFixed(vcTabH, v.h, vc_oFixed(vcTabG, v.g, vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)})))
	vcPts.Store(k, q)
	return ECPoint{vc_cp(q.X), vc_cp(q.Y)}
}
func vc_gv(g *big.Int) vc_vec          { return vc_vec{vc_modN(g), vc_bi(0)} }
func vc_hv(h *big.Int) vc_vec          { return vc_vec{vc_bi(0), vc_modN(h)} }
func (v vc_vec) add(w vc_vec) vc_vec   { return vc_vec{vc_addN(v.g, w.g), vc_addN(v.h, w.h)} }
func (v vc_vec) sub(w vc_vec) vc_vec   { return vc_vec{vc_subN(v.g, w.g), vc_subN(v.h, w.h)} }
func (v vc_vec) mul(k *big.Int) vc_vec { return vc_vec{vc_mulN(v.g, k), vc_mulN(v.h, k)} }
func (v vc_vec) String() string        { return "(" + v.g.Text(16) + ")G+(" + v.h.Text(16) + ")H" }

// ---------------------------------------------------------------- reporting

func vc_begin(format string, a ...interface{}) {
	vcMu.Lock()
	vcCur = fmt.Sprintf(format, a...)
	vcAt = time.Now()
	vcCases++
	vcMu.Unlock()
	if f := os.Getenv("VC_CASEFILE"); f != "" {
		os.WriteFile(f, []byte(vcCur), 0644)
	}
}

func vc_fail(t *testing.T, format string, a ...interface{}) {
	vcMu.Lock()
	defer vcMu.Unlock()
	vcFails++
	t.Fail()
	if vcFails <= 20 {
		fmt.Printf("\nVCFAIL|%s|%s\n", t.Name(), strings.Replace(fmt.Sprintf(format, a...), "\n", " ", -1))
	}
}

// guard runs f and reports a panic.
func vc_guard(t *testing.T, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			at := ""
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_vc") && strings.Contains(l, "zksigma") {
					at = strings.TrimSpace(l)
					break
				}
			}
			vc_fail(t, "panic: %v at %s; case: %s", r, at, vcCur)
		}
	}()
	f()
}

func TestMain(m *testing.M) {
	go func() {
		for {
			time.Sleep(2 * time.Second)
			vcMu.Lock()
			if time.Since(vcAt) > 60*time.Second && vcCur != "" {
				fmt.Printf("\nVCFAIL|hang|no answer within 60 s; case: %s\n", vcCur)
				os.Exit(1)
			}
			vcMu.Unlock()
		}
	}()
	c := m.Run()
	fmt.Printf("\nVCDONE|%d\n", vcCases)
	os.Exit(c)
}

func vc_over(sec float64) bool { return time.Since(vcStart).Seconds() > sec }

func vc_budget() float64 {
	if vcDeep {
		return 240
	}
	return 14
}

// ---------------------------------------------------------------- proof objects

var vcPool = map[reflect.Type]interface{}{}
var vcPoolN int
var vcReused string

// vc_reuse: every other proof is put into an object that has held other proofs of its
// kind before, and was verified with them: a verdict must be about the contents.
func vc_reuse(p interface{}) interface{} {
	vcPoolN++
	vcReused = ""
	if vcPoolN%2 == 0 {
		return p
	}
	t := reflect.TypeOf(p)
	q, ok := vcPool[t]
	if !ok {
		vcPool[t] = p
		return p
	}
	reflect.ValueOf(q).Elem().Set(reflect.ValueOf(p).Elem())
	vcReused = " (in an object that held other proofs before)"
	return q
}

// ---------------------------------------------------------------- deterministic randomness

type vc_stream struct {
	k   []byte
	n   uint64
	buf []byte
}

func (s *vc_stream) Read(p []byte) (int, error) {
	for i := range p {
		if len(s.buf) == 0 {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], s.n)
			s.n++
			h := sha256.Sum256(append(append([]byte{}, s.k...), b[:]...))
			s.buf = h[:]
		}
		p[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(p), nil
}

func vc_newStream(name string) *vc_stream {
	return &vc_stream{k: []byte(fmt.Sprintf("%d/%s", vcSeed, name))}
}

func (s *vc_stream) intn(n int64) int64 {
	var b [8]byte
	s.Read(b[:])
	return int64(binary.BigEndian.Uint64(b[:]) % uint64(n))
}

func (s *vc_stream) below(m *big.Int) *big.Int {
	b := make([]byte, (m.BitLen()+7)/8+8)
	s.Read(b)
	r := new(big.Int).SetBytes(b)
	return r.Mod(r, m)
}

func (s *vc_stream) scalar() *big.Int {
	switch s.intn(4) {
	case 0:
		return s.below(new(big.Int).Lsh(vc_bi(1), uint(1+s.intn(256))))
	case 1:
		e := vcEdges()
		return e[s.intn(int64(len(e)))]
	}
	return s.below(vc_oN)
}

func (s *vc_stream) nonzero() *big.Int {
	for {
		if r := vc_modN(s.scalar()); r.Sign() != 0 {
			return r
		}
	}
}

// draws hands out given values to rand.Int(rand.Reader, N), then a stream.
type vc_drawReader struct {
	vals []*big.Int
	cur  []byte
	s    *vc_stream
	mu   sync.Mutex
}

func (d *vc_drawReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if len(p) == 32 && len(d.vals) > 0 {
		d.vals[0].FillBytes(p)
		d.vals = d.vals[1:]
		return 32, nil
	}
	return d.s.Read(p)
}

var vc_errVC = errors.New("random source failed")

type vc_failReader struct {
	left int
	s    *vc_stream
	mu   sync.Mutex
	part bool
	hit  int
}

func (f *vc_failReader) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.left == 0 {
		f.hit++
		if f.part && len(p) > 1 {
			f.s.Read(p[:1])
			return 1, vc_errVC
		}
		return 0, vc_errVC
	}
	f.left--
	return f.s.Read(p)
}

type vc_lockReader struct {
	mu sync.Mutex
	r  io.Reader
	n  int
	b  int // bytes
}

func (l *vc_lockReader) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	l.b += len(p)
	return l.r.Read(p)
}

func vc_withReader(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

// ---------------------------------------------------------------- values

var vcEdgeCache []*big.Int

func vcConsts() []*big.Int {
	var r []*big.Int
	for _, s := range strings.Split(os.Getenv("VC_CONSTS"), ",") {
		if v, ok := new(big.Int).SetString(s, 10); ok {
			r = append(r, v)
		}
	}
	return r
}

// vcEdges: integers of every kind, negative and beyond the order included
func vcEdges() []*big.Int {
	if vcEdgeCache != nil {
		return vcEdgeCache
	}
	seen := map[string]bool{}
	var r []*big.Int
	put := func(v *big.Int) {
		if !seen[v.String()] {
			seen[v.String()] = true
			r = append(r, v)
		}
	}
	for _, i := range []int64{0, 1, 2, 3, -1, -2, 5, 7, 255, 256, 1 << 40, 1<<40 - 1} {
		put(vc_bi(i))
	}
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		put(vc_add(vc_oN, vc_bi(d)))
	}
	put(vc_mul(vc_oN, vc_bi(2)))
	put(vc_mul(vc_oN, vc_bi(-1)))
	put(vc_sub(vc_mul(vc_oN, vc_bi(-1)), vc_bi(1)))
	put(vc_add(vc_mul(vc_oN, vc_bi(5)), vc_bi(3)))
	put(new(big.Int).Rsh(vc_oN, 1))
	put(vc_add(new(big.Int).Rsh(vc_oN, 1), vc_bi(1)))
	put(vc_cp(vc_oP))
	for _, k := range []uint{31, 32, 52, 63, 64, 127, 128, 129, 192, 248, 254, 255, 256, 257, 300, 512} {
		put(new(big.Int).Lsh(vc_bi(1), k))
		put(vc_sub(new(big.Int).Lsh(vc_bi(1), k), vc_bi(1)))
	}
	put(vc_hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72"))
	put(vc_subN(vc_bi(0), vc_hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")))
	put(vc_hexInt("00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF00FF"))
	put(vc_hexInt("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"))
	put(vc_hexInt("5555555555555555555555555555555555555555555555555555555555555555"))
	put(vc_hexInt("0000000000000000000000000000000100000000000000000000000000000000"))
	for _, v := range vcConsts() {
		put(v)
	}
	vcEdgeCache = r
	return r
}

// pointVecs: points of every kind, identity first
func vc_pointVecs(s *vc_stream, n int) []vc_vec {
	r := []vc_vec{vc_gv(vc_bi(0)), vc_gv(vc_bi(1)), vc_gv(vc_bi(-1)), vc_hv(vc_bi(1)), vc_hv(vc_bi(-1)), vc_gv(vc_bi(2)), {vc_bi(1), vc_bi(1)}, {vc_bi(1), vc_modN(vc_bi(-1))}}
	for len(r) < n {
		switch s.intn(3) {
		case 0:
			r = append(r, vc_gv(s.scalar()))
		case 1:
			r = append(r, vc_hv(s.scalar()))
		default:
			r = append(r, vc_vec{vc_modN(s.scalar()), vc_modN(s.scalar())})
		}
	}
	return r
}

// readers for the provers: a stream, and streams that begin with special draws
func vc_proverReaders(s *vc_stream) []io.Reader {
	d := func(v ...*big.Int) io.Reader { return &vc_drawReader{vals: v, s: s} }
	n1 := vc_sub(vc_oN, vc_bi(1))
	return []io.Reader{d(), d(vc_bi(0)), d(vc_bi(1), vc_bi(1), vc_bi(1), vc_bi(1), vc_bi(1)), d(n1, n1, n1, n1, n1),
		d(vc_bi(0), vc_bi(0), vc_bi(0), vc_bi(0), vc_bi(0), vc_bi(0), vc_bi(0), vc_bi(0)), d(s.scalarRed(), vc_bi(0), s.scalarRed(), n1, vc_bi(0), vc_bi(2))}
}

func (s *vc_stream) scalarRed() *big.Int { return vc_modN(s.scalar()) }

func vc_isNilOrZero(x interface{}) bool {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return true
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return true
		}
		return v.Elem().IsZero()
	}
	return v.IsZero()
}

func vc_boolErr(ok bool, err error) string { return fmt.Sprintf("(%v, %v)", ok, err) }
