package btcec

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"math/big"
	"testing"
)

type vc_noReader struct{ n int }

func (r *vc_noReader) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, errors.New("no randomness")
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	for i := range p {
		p[i] = byte(r.n + 3*i + 1)
	}
	r.n -= len(p)
	return len(p), nil
}

// oKeys derives both keys from the x coordinate of d*Q
func vc_oKeys(d *big.Int, q ECPoint) (ke, km []byte) {
	h := sha512.Sum512(vc_oMul(q, d).X.Bytes())
	return h[:32], h[32:]
}

func vc_oEncrypt(d, e *big.Int, iv, padded []byte) []byte {
	ke, km := vc_oKeys(d, vc_oMul(vc_oG(), e))
	E := vc_oMul(vc_oG(), e)
	blk, _ := aes.NewCipher(ke)
	ct := make([]byte, len(padded))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(ct, padded)
	b := vc_cat(iv, []byte{2, 0xca, 0, 32}, vc_be32(E.X), []byte{0, 32}, vc_be32(E.Y), ct)
	m := hmac.New(sha256.New, km)
	m.Write(b)
	return m.Sum(b)
}

// oDecrypt is nil if there is no data that was authenticated
func vc_oDecrypt(d *big.Int, b []byte) (pt []byte, ok bool) {
	if len(b) < 134 || (len(b)-118)%16 != 0 || !bytes.Equal(b[16:20], []byte{2, 0xca, 0, 32}) || !bytes.Equal(b[52:54], []byte{0, 32}) {
		return nil, false
	}
	x, y := new(big.Int).SetBytes(b[20:52]), new(big.Int).SetBytes(b[54:86])
	if x.Cmp(vc_oP) >= 0 || y.Cmp(vc_oP) >= 0 || !vc_oOn(x, y) {
		return nil, false
	}
	ke, km := vc_oKeys(d, ECPoint{x, y})
	m := hmac.New(sha256.New, km)
	m.Write(b[:len(b)-32])
	if !bytes.Equal(m.Sum(nil), b[len(b)-32:]) {
		return nil, false
	}
	blk, _ := aes.NewCipher(ke)
	pt = make([]byte, len(b)-118)
	cipher.NewCBCDecrypter(blk, b[:16]).CryptBlocks(pt, b[86:len(b)-32])
	return pt, true
}

func TestVC_C33(t *testing.T) {
	s := vc_newStream("C33")
	decrypt := func(d *big.Int, b []byte) {
		vc_begin("Decrypt of %x with the key %x", b, d)
		vc_guard(t, func() {
			priv, _ := PrivKeyFromBytes(S256(), vc_be32(d))
			keep := append([]byte{}, b...)
			out, err := Decrypt(priv, b)
			if !bytes.Equal(keep, b) || priv.D.Cmp(d) != 0 {
				vc_fail(t, "Decrypt changed its input %x", keep)
			}
			pt, ok := vc_oDecrypt(d, keep)
			switch {
			case err != nil && out != nil:
				vc_fail(t, "Decrypt(%x) with %x: data with the error %v", b, d, err)
			case err == nil && !ok:
				vc_fail(t, "Decrypt(%x) with %x returns data that was not authenticated", b, d)
			case err == nil && !bytes.HasPrefix(pt, out):
				vc_fail(t, "Decrypt(%x) with %x is %x, and the padded data is %x", b, d, out, pt)
			case ok:
				n := int(pt[len(pt)-1])
				good := n > 0 && n <= 16 && bytes.Equal(pt[len(pt)-n:], bytes.Repeat([]byte{byte(n)}, n))
				if good && (err != nil || len(out) != len(pt)-n) {
					vc_fail(t, "Decrypt(%x) with %x is %x, %v, not %x", b, d, out, err, pt[:len(pt)-n])
				}
			}
		})
	}
	encrypt := func(d *big.Int, in []byte) []byte {
		vc_begin("Encrypt of %x for the key %x", in, d)
		var b []byte
		vc_guard(t, func() {
			priv, pub := PrivKeyFromBytes(S256(), vc_be32(d))
			X, Y := vc_cp(pub.X), vc_cp(pub.Y)
			// spare room that must stay as it is
			room := bytes.Repeat([]byte{0xa5}, 40)
			buf := append(append([]byte{}, in...), room...)
			data := buf[:len(in):len(buf)]
			var err error
			b, err = Encrypt(pub, data)
			if err != nil {
				vc_fail(t, "Encrypt(%x): %v", in, err)
				return
			}
			if !bytes.Equal(buf, append(append([]byte{}, in...), room...)) || X.Cmp(pub.X) != 0 || Y.Cmp(pub.Y) != 0 {
				vc_fail(t, "Encrypt(%x) changed the caller's data to %x", in, buf)
			}
			pt, ok := vc_oDecrypt(d, b)
			n := 16 - len(in)%16
			if !ok || !bytes.Equal(pt, append(append([]byte{}, in...), bytes.Repeat([]byte{byte(n)}, n)...)) {
				vc_fail(t, "Encrypt(%x) for the key %x is %x", in, d, b)
			}
			keep := append([]byte{}, b...)
			out, err := Decrypt(priv, b)
			if err != nil || !bytes.Equal(out, in) {
				vc_fail(t, "Encrypt(%x) for the key %x is %x, which is decrypted to %x, %v", in, d, b, out, err)
			}
			if !bytes.Equal(keep, b) {
				vc_fail(t, "Decrypt changed its input %x", keep)
			}
			c, err := Encrypt(pub, data)
			if err == nil && (bytes.Equal(c[:16], b[:16]) || bytes.Equal(c[20:52], b[20:52])) {
				vc_fail(t, "Encrypt uses its vector or its key twice")
			}
		})
		return b
	}
	data := func(n int) []byte {
		b := make([]byte, n)
		s.Read(b)
		if n > 0 && s.intn(3) == 0 {
			b[n-1] = byte(s.intn(20))
		}
		return b
	}
	keys := []*big.Int{vc_bi(1), vc_bi(2), vc_sub(vc_oN, vc_bi(1)), vc_oHalf, new(big.Int).Rsh(vc_oN, 8), new(big.Int).Rsh(vc_oN, 200), s.nonzero()}
	for n := 0; n < 100; n++ {
		encrypt(keys[n%len(keys)], data(n))
	}
	encrypt(s.nonzero(), data(4096))
	encrypt(s.nonzero(), data(5003))
	// secrets with leading zeros, both sides
	for i := 0; i < 400; i++ {
		d, e := s.nonzero(), s.nonzero()
		p1, q1 := PrivKeyFromBytes(S256(), vc_be32(d))
		p2, q2 := PrivKeyFromBytes(S256(), vc_be32(e))
		vc_begin("shared secret of %x and %x", d, e)
		vc_guard(t, func() {
			a, b := GenerateSharedSecret(p1, q2), GenerateSharedSecret(p2, q1)
			if !bytes.Equal(a, b) {
				vc_fail(t, "the shared secrets of %x and %x differ: %x, %x", d, e, a, b)
			}
			if i < 30 || len(a) < 32 {
				if w := vc_oMul(vc_oMul(vc_oG(), d), e).X; !bytes.Equal(a, w.Bytes()) {
					vc_fail(t, "the shared secret of %x and %x is %x, not %x", d, e, a, w)
				}
			}
		})
	}
	// one secret after another: keys that share a coordinate or a factor
	for i := 0; i < 20; i++ {
		d, e := s.nonzero(), s.nonzero()
		for _, w := range [][2]*big.Int{{d, e}, {vc_addN(d, vc_bi(1)), e}, {d, vc_sub(vc_oN, e)}, {e, e}, {d, d}, {d, e}} {
			priv, _ := PrivKeyFromBytes(S256(), vc_be32(w[0]))
			_, pub := PrivKeyFromBytes(S256(), vc_be32(w[1]))
			vc_begin("shared secret of %x and %x", w[0], w[1])
			vc_guard(t, func() {
				if a, x := GenerateSharedSecret(priv, pub), vc_oMul(vc_oG(), vc_mulN(w[0], w[1])).X; !bytes.Equal(a, x.Bytes()) {
					vc_fail(t, "the shared secret of %x and %x is %x, not %x", w[0], w[1], a, x)
				}
			})
		}
	}
	// authenticated data with every last byte
	for v := 0; v < 256; v++ {
		d, e := keys[v%len(keys)], s.nonzero()
		pt := data(16 * (1 + int(s.intn(3))))
		pt[len(pt)-1] = byte(v)
		if v%2 == 0 && v > 0 && v <= 16 {
			copy(pt[len(pt)-v:], bytes.Repeat([]byte{byte(v)}, v))
		}
		decrypt(d, vc_oEncrypt(d, e, data(16), pt))
	}
	// every single changed byte of a small message, and changed lengths
	d := s.nonzero()
	b := vc_oEncrypt(d, s.nonzero(), data(16), bytes.Repeat([]byte{16}, 16))
	for i := range b {
		c := append([]byte{}, b...)
		c[i] ^= 1 << uint(s.intn(8))
		decrypt(d, c)
	}
	decrypt(vc_addN(d, vc_bi(1)), b)
	for n := 0; n < len(b)+40; n++ {
		c := append(append([]byte{}, b...), data(40)...)[:n]
		decrypt(d, c)
		// authenticated, but with blocks missing or broken
		if n >= 118 {
			x := append([]byte{}, b[:86]...)
			x = append(x, data(n-118)...)
			_, km := vc_oKeys(d, ECPoint{new(big.Int).SetBytes(x[20:52]), new(big.Int).SetBytes(x[54:86])})
			m := hmac.New(sha256.New, km)
			m.Write(x)
			decrypt(d, m.Sum(x))
		}
	}
	// points that are none, and codes over other bytes
	for i := 0; i < 60; i++ {
		c := append([]byte{}, b...)
		switch i % 4 {
		case 0:
			s.Read(c[20:52])
		case 1:
			copy(c[20:52], vc_be32(vc_oP))
		case 2:
			copy(c[54:86], vc_be32(vc_sub(vc_oP, new(big.Int).SetBytes(c[54:86]))))
		case 3:
			copy(c[20:52], make([]byte, 32))
			copy(c[54:86], make([]byte, 32))
		}
		x, y := new(big.Int).SetBytes(c[20:52]), new(big.Int).SetBytes(c[54:86])
		km := make([]byte, 32)
		if vc_oOn(x, y) && y.Cmp(vc_oP) < 0 {
			_, km = vc_oKeys(d, ECPoint{x, y})
		} else {
			h := sha512.Sum512(nil)
			km = h[32:]
		}
		from := 0
		if i >= 30 {
			from = []int{16, 20, 86, 1}[int(s.intn(4))]
		}
		m := hmac.New(sha256.New, km)
		m.Write(c[from : len(c)-32])
		copy(c[len(c)-32:], m.Sum(nil))
		decrypt(d, c)
	}
	for i := 0; !vc_over(vc_budget()) && (vcDeep || i < 300); i++ {
		d := s.nonzero()
		b := encrypt(d, data(int(s.intn(300))))
		if len(b) > 0 {
			b[int(s.intn(int64(len(b))))] ^= byte(1 + s.intn(255))
			decrypt(d, b)
		}
		c := data(int(s.intn(300)))
		if len(c) > 90 {
			copy(c[16:], []byte{2, 0xca, 0, 32})
			copy(c[52:], []byte{0, 32})
			q := vc_oMul(vc_oG(), s.nonzero())
			copy(c[20:], vc_be32(q.X))
			copy(c[54:], vc_be32(q.Y))
		}
		decrypt(d, c)
	}
	// no randomness: an error and no data; last, because crypto/rand.Read ends the process
	for n := 0; n < 120; n += 1 + int(s.intn(9)) {
		vc_begin("Encrypt with %d random bytes", n)
		vc_guard(t, func() {
			_, pub := PrivKeyFromBytes(S256(), vc_be32(d))
			old := rand.Reader
			rand.Reader = &vc_noReader{n}
			out, err := Encrypt(pub, []byte("data"))
			rand.Reader = old
			if err != nil && out != nil {
				vc_fail(t, "Encrypt: data with the error %v", err)
			}
			if err == nil && n < 16 {
				vc_fail(t, "Encrypt with %d random bytes does not fail", n)
			}
		})
	}
}
