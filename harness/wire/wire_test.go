package wire

import (
	"bytes"
	"errors"
	"io"
	"runtime"
	"sync"
	"testing"
	"testing/iotest"
)

var vc_errVC = errors.New("injected error")

func vc_oEnc(v uint64) []byte {
	n := 0
	var r []byte
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v < 1<<16:
		r, n = []byte{0xfd}, 2
	case v < 1<<32:
		r, n = []byte{0xfe}, 4
	default:
		r, n = []byte{0xff}, 8
	}
	for i := 0; i < n; i++ {
		r = append(r, byte(v>>uint(8*i)))
	}
	return r
}

// oDec: value and size of the canonical encoding at the front, size 0 if there is none
func vc_oDec(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	n := map[byte]int{0xfd: 2, 0xfe: 4, 0xff: 8}[b[0]]
	if n == 0 {
		return uint64(b[0]), 1
	}
	if len(b) < 1+n {
		return 0, 0
	}
	var v uint64
	for i := n; i > 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	if len(vc_oEnc(v)) != 1+n {
		return 0, 0
	}
	return v, 1 + n
}

// failWriter accepts n bytes and then fails, short or not at all
type vc_failWriter struct {
	bytes.Buffer
	calls int
}

func (f *vc_failWriter) Write(p []byte) (int, error) {
	f.calls--
	if f.calls < 0 {
		return 0, vc_errVC
	}
	return f.Buffer.Write(p)
}

func vc_values(s *vc_stream, n int) []uint64 {
	var r []uint64
	for _, b := range []uint64{0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0xfffc, 0xfffd, 0xffff, 0x10000, 0x10001, 0xfffffffe, 0xffffffff, 1 << 32, 1<<32 + 1, 1 << 48, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1} {
		r = append(r, b)
	}
	for i := 0; i < n; i++ {
		r = append(r, s.u64()>>uint(s.intn(64)))
	}
	return r
}

func vc_readers(b []byte) map[string]io.Reader {
	return map[string]io.Reader{"plain": bytes.NewReader(b), "one byte": iotest.OneByteReader(bytes.NewReader(b)), "data with EOF": iotest.DataErrReader(bytes.NewReader(b)),
		"half": iotest.HalfReader(bytes.NewReader(b)), "error after it": io.MultiReader(bytes.NewReader(b), iotest.ErrReader(vc_errVC))}
}

func vc_alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func TestVC_C26(t *testing.T) {
	s := vc_newStream("C26")
	write := func(v uint64) {
		vc_begin("the integer %d", v)
		vc_guard(t, func() {
			e := vc_oEnc(v)
			var buf bytes.Buffer
			if err := WriteVarInt(&buf, v); err != nil || !bytes.Equal(buf.Bytes(), e) {
				vc_fail(t, "WriteVarInt(%#x) writes %x, error %v; the canonical encoding is %x", v, buf.Bytes(), err, e)
			}
			if n := VarIntSerializeSize(v); n != len(e) {
				vc_fail(t, "VarIntSerializeSize(%#x) is %d, the encoding has %d bytes", v, n, len(e))
			}
			for c := 0; c < 3; c++ {
				w := &vc_failWriter{calls: c}
				err := WriteVarInt(w, v)
				if (err == nil) != bytes.Equal(w.Bytes(), e) {
					vc_fail(t, "WriteVarInt(%#x) to a writer that fails at call %d writes %x and returns %v", v, c, w.Bytes(), err)
				}
			}
		})
	}
	read := func(b []byte) {
		vc_begin("the bytes %x", b)
		vc_guard(t, func() {
			v, n := vc_oDec(b)
			for name, r := range vc_readers(b) {
				got, err := ReadVarInt(r)
				if (err == nil) != (n > 0) || err == nil && got != v {
					vc_fail(t, "ReadVarInt(%x) (%s) gives %#x, error %v; expected %#x, size %d", b, name, got, err, v, n)
				}
				if err == nil && name != "error after it" {
					if rest, _ := io.ReadAll(r); !bytes.Equal(rest, b[n:]) {
						vc_fail(t, "ReadVarInt(%x) (%s) leaves %x", b, name, rest)
					}
				}
			}
		})
	}
	arrays := func(data []byte, limit uint32) {
		vc_begin("an array of %d bytes, limit %d", len(data), limit)
		vc_guard(t, func() {
			var buf bytes.Buffer
			orig := append([]byte{}, data...)
			err := WriteVarBytes(&buf, data)
			want := append(vc_oEnc(uint64(len(data))), data...)
			if err != nil || !bytes.Equal(buf.Bytes(), want) {
				vc_fail(t, "WriteVarBytes of %d bytes writes %d bytes, error %v", len(data), buf.Len(), err)
			}
			if !bytes.Equal(orig, data) {
				vc_fail(t, "WriteVarBytes changes its argument")
			}
			for name, r := range vc_readers(append(append([]byte{}, want...), 7, 8, 9)) {
				got, err := ReadVarBytes(r, limit, "x")
				ok := uint64(len(data)) <= uint64(limit)
				if (err == nil) != ok || ok && !bytes.Equal(got, data) || !ok && got != nil {
					vc_fail(t, "ReadVarBytes (%s) of %d bytes with limit %d: %d bytes, error %v", name, len(data), limit, len(got), err)
				}
				if err == nil && name != "error after it" {
					if rest, _ := io.ReadAll(r); !bytes.Equal(rest, []byte{7, 8, 9}) {
						vc_fail(t, "ReadVarBytes (%s) leaves %x", name, rest)
					}
				}
			}
			for c := 0; c < 4; c++ {
				w := &vc_failWriter{calls: c}
				err := WriteVarBytes(w, data)
				if (err == nil) != bytes.Equal(w.Bytes(), want) && len(data) > 0 {
					vc_fail(t, "WriteVarBytes of %d bytes to a writer that fails at call %d writes %d bytes and returns %v", len(data), c, w.Len(), err)
				}
			}
			step := 1 + len(want)/50
			for i := 0; i < len(want); i += step {
				for _, r := range []io.Reader{bytes.NewReader(want[:i]), io.MultiReader(bytes.NewReader(want[:i]), iotest.ErrReader(vc_errVC))} {
					if got, err := ReadVarBytes(r, 1<<31, "x"); err == nil {
						vc_fail(t, "ReadVarBytes accepts %d of %d bytes and gives %d", i, len(want), len(got))
					}
				}
			}
		})
	}
	limits := func(n uint64, limit uint32) {
		vc_begin("announced length %d, limit %d", n, limit)
		vc_guard(t, func() {
			in := append(vc_oEnc(n), make([]byte, 40)...)
			var err error
			var got []byte
			m := vc_alloc(func() { got, err = ReadVarBytes(bytes.NewReader(in), limit, "x") })
			ok := n <= uint64(limit) && n <= 40
			if (err == nil) != ok || ok && uint64(len(got)) != n {
				vc_fail(t, "ReadVarBytes with announced length %d, limit %d and 40 bytes of data: %d bytes, error %v", n, limit, len(got), err)
			}
			if n > uint64(limit) && m > 1<<19 {
				vc_fail(t, "ReadVarBytes with announced length %d beyond the limit %d allocates %d bytes", n, limit, m)
			}
		})
	}
	for i := 0; i < 256; i++ {
		read([]byte{byte(i)})
		read([]byte{byte(i), 0})
	}
	read(nil)
	for _, v := range vc_values(s, 2000) {
		write(v)
		e := vc_oEnc(v)
		read(append(e, 5, 6))
		for i := 0; i < len(e); i++ {
			read(e[:i])
		}
		// the same value in a longer form
		for _, d := range []struct {
			b byte
			n int
		}{{0xfd, 2}, {0xfe, 4}, {0xff, 8}} {
			b := []byte{d.b}
			for i := 0; i < d.n; i++ {
				b = append(b, byte(v>>uint(8*i)))
			}
			read(b)
		}
	}
	for v := uint64(0); v < 1<<16; v += 1 + uint64(s.intn(3)) {
		write(v)
		read([]byte{0xfd, byte(v), byte(v >> 8), 1})
		if vc_over(vc_budget()) {
			break
		}
	}
	for _, n := range []int{0, 1, 2, 31, 32, 33, 252, 253, 254, 255, 256, 1000, 65535, 65536, 65537} {
		d := make([]byte, n)
		s.Read(d)
		for _, l := range []uint32{0, 1, 32, uint32(n), uint32(n) + 1, 1<<32 - 1} {
			arrays(d, l)
		}
		if n > 0 {
			arrays(d, uint32(n)-1)
		}
	}
	for _, v := range vc_values(s, 30) {
		for _, l := range []uint32{0, 1, 39, 40, 41, 252, 253, 65535, 1 << 20} {
			limits(v, l)
		}
	}
	for _, l := range []uint32{1, 40, 1 << 20, 1 << 31, 1<<32 - 1} {
		for d := uint64(1); d < 3; d++ {
			limits(uint64(l)+d, l)
		}
	}
	// shared free list: concurrent use gives the results of separate use
	var wg sync.WaitGroup
	vc_begin("concurrent use")
	for g := 0; g < 8; g++ {
		st := vc_newStream("C26/" + string(rune('a'+g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vc_guard(t, func() {
				var kept, was [][]byte
				for i, v := range vc_values(st, 4000) {
					var buf bytes.Buffer
					if i%4 == 0 {
						d := make([]byte, st.intn(100))
						st.Read(d)
						WriteVarBytes(&buf, d)
						got, err := ReadVarBytes(&buf, 100, "x")
						if err != nil || !bytes.Equal(got, d) {
							vc_fail(t, "concurrently, the array %x is read back as %x, error %v", d, got, err)
						}
						kept, was = append(kept, got), append(was, d)
						for k := range kept {
							if k > len(kept)-5 && !bytes.Equal(kept[k], was[k]) {
								vc_fail(t, "the array %x became %x when another was read or written", was[k], kept[k])
							}
						}
					}
					WriteVarInt(&buf, v)
					enc := append([]byte{}, buf.Bytes()...)
					got, err := ReadVarInt(&buf)
					if err != nil || got != v || !bytes.Equal(enc, vc_oEnc(v)) {
						vc_fail(t, "concurrently, %#x is written as %x and read back as %#x, error %v", v, enc, got, err)
					}
				}
			})
		}()
	}
	wg.Wait()
	for !vc_over(vc_budget()) {
		b := make([]byte, s.intn(12))
		s.Read(b)
		if len(b) > 0 && s.intn(2) == 0 {
			b[0] = []byte{0xfd, 0xfe, 0xff}[s.intn(3)]
			for i := 1; i < len(b); i++ {
				if s.intn(2) == 0 {
					b[i] = 0
				}
			}
		}
		read(b)
		write(s.u64() >> uint(s.intn(64)))
	}
}
