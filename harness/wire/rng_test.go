package wire

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"io"
	"testing"
	"testing/iotest"
)

func TestVC_C28(t *testing.T) {
	s := vc_newStream("C28")
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for i := 0; i < 3000; i++ {
		b := make([]byte, 8+s.intn(8))
		s.Read(b)
		n := len(b)
		if i%2 == 1 {
			n = int(s.intn(8))
		}
		vc_begin("RandomUint64 with %d random bytes %x", n, b)
		vc_guard(t, func() {
			var r io.Reader = bytes.NewReader(b[:n])
			switch i % 3 {
			case 1:
				r = iotest.OneByteReader(r)
			case 2:
				r = io.MultiReader(r, iotest.ErrReader(vc_errVC))
			}
			rand.Reader = r
			v, err := RandomUint64()
			rand.Reader = old
			if n < 8 && (err == nil || v != 0) {
				vc_fail(t, "RandomUint64 with %d random bytes returns %d, %v", n, v, err)
			}
			if n >= 8 && (err != nil || v != binary.BigEndian.Uint64(b) && v != binary.LittleEndian.Uint64(b)) {
				vc_fail(t, "RandomUint64 from %x returns %#x, %v", b, v, err)
			}
		})
	}
}
