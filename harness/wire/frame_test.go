package wire

import (
	"bytes"
	"io"
	"sync"
	"testing"
)

func TestVC_C27(t *testing.T) {
	s := vc_newStream("frame")
	for round := 0; !vc_over(vc_budget()) && round < 3000; round++ {
		vc_begin("concurrent use of the variable-length encodings, round %d", round)
		vs := vc_values(s, 12)
		shared := make([]byte, 40, 80)
		s.Read(shared)
		for i := 40; i < 80; i++ {
			shared[:80][i] = 0xa5
		}
		keep := append([]byte(nil), shared[:80]...)
		var encs [][]byte
		for _, v := range vs {
			encs = append(encs, vc_oEnc(v))
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						vc_fail(t, "panic: %v", e)
					}
				}()
				<-start
				for i := range vs {
					j := (i*(g+1) + g) % len(vs)
					v := vs[j]
					var b bytes.Buffer
					if err := WriteVarInt(&b, v); err != nil || !bytes.Equal(b.Bytes(), encs[j]) {
						vc_fail(t, "concurrent WriteVarInt(%d) gives %x, error %v", v, b.Bytes(), err)
					}
					for _, r := range vc_readers(encs[j]) {
						if w, err := ReadVarInt(r); err != nil || w != v {
							vc_fail(t, "concurrent ReadVarInt of %x gives %d, error %v", encs[j], w, err)
						}
					}
					if _, err := ReadVarInt(bytes.NewReader(encs[j][:len(encs[j])-1])); err == nil {
						vc_fail(t, "ReadVarInt of a cut %x gives no error", encs[j])
					}
					b.Reset()
					if err := WriteVarBytes(&b, shared[:j*3%41]); err != nil {
						vc_fail(t, "WriteVarBytes: %v", err)
					}
					r, err := ReadVarBytes(io.Reader(&b), 1000, "x")
					if err != nil || !bytes.Equal(r, shared[:j*3%41]) {
						vc_fail(t, "concurrent ReadVarBytes gives %x, want %x", r, shared[:j*3%41])
					}
					if len(r) > 0 {
						r[0] ^= 0xff // the caller's own
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		if !bytes.Equal(keep, shared[:80]) {
			vc_fail(t, "the written byte array changed from %x to %x", keep, shared[:80])
		}
	}
}
