package wire

// Reporting and input generation for the replay and conformance harness.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	vcSeed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	vcDeep    = os.Getenv("VC_TIER") == "thorough"
	vcMu      sync.Mutex
	vcCur     string
	vcAt      = time.Now()
	vcFails   int
	vcCases   int
	vcStart   = time.Now()
)

func vc_begin(format string, a ...interface{}) {
	vcMu.Lock()
	vcCur = fmt.Sprintf(format, a...)
	vcAt = time.Now()
	vcCases++
	vcMu.Unlock()
}

func vc_fail(t *testing.T, format string, a ...interface{}) {
	vcMu.Lock()
	defer vcMu.Unlock()
	vcFails++
	t.Fail()
	if vcFails <= 20 {
		fmt.Printf("\nVCFAIL|%s|%s\n", t.Name(), strings.Replace(fmt.Sprintf(format, a...), "\n", " ", -1))
	}
}

func vc_guard(t *testing.T, f func()) {
	defer func() {
		if r := recover(); r != nil {
			at := ""
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_vc") && strings.Contains(l, "zksigma") {
					at = strings.TrimSpace(l)
					break
				}
			}
			vc_fail(t, "panic: %v at %s; case: %s", r, at, vcCur)
		}
	}()
	f()
}

func TestMain(m *testing.M) {
	go func() {
		for {
			time.Sleep(2 * time.Second)
			vcMu.Lock()
			if time.Since(vcAt) > 60*time.Second && vcCur != "" {
				fmt.Printf("\nVCFAIL|hang|no answer within 60 s; case: %s\n", vcCur)
				os.Exit(1)
			}
			vcMu.Unlock()
		}
	}()
	c := m.Run()
	fmt.Printf("\nVCDONE|%d\n", vcCases)
	os.Exit(c)
}

func vc_over(sec float64) bool { return time.Since(vcStart).Seconds() > sec }

func vc_budget() float64 {
	if vcDeep {
		return 60
	}
	return 5
}

type vc_stream struct {
	k   []byte
	n   uint64
	buf []byte
}

func vc_newStream(name string) *vc_stream {
	return &vc_stream{k: []byte(fmt.Sprintf("%d/%s", vcSeed, name))}
}

func (s *vc_stream) Read(p []byte) (int, error) {
	for i := range p {
		if len(s.buf) == 0 {
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], s.n)
			s.n++
			h := sha256.Sum256(append(append([]byte{}, s.k...), c[:]...))
			s.buf = h[:]
		}
		p[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(p), nil
}

func (s *vc_stream) u64() uint64 {
	var b [8]byte
	s.Read(b[:])
	return binary.BigEndian.Uint64(b[:])
}

func (s *vc_stream) intn(n int64) int64 { return int64(s.u64() % uint64(n)) }
