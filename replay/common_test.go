package modbus

// Replay harness: runs the real code against independent oracles. It uses
// exported names and names the repository's own tests use, nothing else.
//
// Environment: VP_OUT (result file), VP_SEED, VP_BUDGET_MS, VP_HINTS (numbers
// from the verifier's counterexamples, mixed into the generated values).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vpRun struct {
	t        *testing.T
	prop     string
	rng      *rand.Rand
	end      time.Time
	seed     int64
	hints    []uint64
	evals    int
	distinct map[uint64]bool
	rule     string
	samples  []string
	cur      string
	addr     func(addr uint16) uint16 // where generated calls go, if set
	slave    func(id byte) byte
	failed   bool
	failMsg  string
	err      string
}

type vpResult struct {
	Ran      bool     `json:"ran"`
	Evals    int      `json:"evaluations"`
	Distinct int      `json:"distinct"`
	Rule     string   `json:"rule"`
	Samples  []string `json:"samples"`
	Fail     string   `json:"fail"`
	Input    string   `json:"input"`
	Err      string   `json:"err"`
}

type vpStop struct{}

func vpStart(t *testing.T, prop, rule string) *vpRun {
	r := &vpRun{t: t, prop: prop, rule: rule, distinct: map[uint64]bool{}}
	r.seed = 1
	if n, err := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64); err == nil {
		r.seed = n
	}
	r.rng = rand.New(rand.NewSource(r.seed))
	ms := 1500
	if n, err := strconv.Atoi(os.Getenv("VP_BUDGET_MS")); err == nil {
		ms = n
	}
	r.end = time.Now().Add(time.Duration(ms) * time.Millisecond)
	for _, s := range strings.Split(os.Getenv("VP_HINTS"), ",") {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			r.hints = append(r.hints, n)
		}
	}
	return r
}

// run executes body, which ends by returning or by fail.
func (r *vpRun) run(body func()) {
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vpStop); ok {
					return
				}
				st := string(debug.Stack())
				r.failMsg = fmt.Sprintf("panic: %v\n%s", e, st)
				// a panic raised by the harness' own code says nothing about the code under test
				if vpHarnessPanic(st) {
					r.err = r.failMsg
					return
				}
				r.failed = true
			}
		}()
		body()
	}()
	res := vpResult{Ran: true, Evals: r.evals, Distinct: len(r.distinct), Rule: r.rule, Samples: r.samples, Err: r.err}
	if r.failed {
		res.Fail, res.Input = r.failMsg, r.cur
		if res.Fail == "" {
			res.Fail = "failed"
		}
	}
	if f := os.Getenv("VP_OUT"); f != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(f, b, 0o644)
	}
	if r.failed {
		r.t.Fatalf("VPFAIL %s: input %s: %s", r.prop, r.cur, r.failMsg)
	}
}

// vpHarnessPanic: the innermost frame outside the runtime belongs to the harness.
func vpHarnessPanic(st string) bool {
	i := strings.Index(st, "\npanic(")
	if i < 0 {
		return false
	}
	ls := strings.Split(st[i+1:], "\n")
	for j := 1; j < len(ls); j += 2 {
		f := ls[j]
		if strings.Contains(f, "/src/runtime/") || strings.Contains(f, "/src/sync/") || strings.Contains(f, "/src/internal/") {
			continue
		}
		return strings.Contains(f, "zz_verif_") || strings.Contains(f, "/verif/replay/")
	}
	return false
}

func (r *vpRun) more() bool { return time.Now().Before(r.end) }

// in starts a case; the text names it completely.
func (r *vpRun) in(format string, a ...interface{}) {
	r.evals++
	r.cur = fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(r.cur))
	if len(r.distinct) < 1<<20 {
		r.distinct[h.Sum64()] = true
	}
	if len(r.samples) < 4 || (len(r.samples) < 8 && r.rng.Intn(500) == 0) {
		s := r.cur
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		r.samples = append(r.samples, s)
	}
}

func (r *vpRun) fail(format string, a ...interface{}) {
	r.failed = true
	r.failMsg = fmt.Sprintf(format, a...)
	panic(vpStop{})
}

func (r *vpRun) check(ok bool, format string, a ...interface{}) {
	if !ok {
		r.fail(format, a...)
	}
}

var vpEdge = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 246, 247, 248, 250, 252, 253, 254, 255, 256, 257, 500, 1000, 1967, 1968, 1969, 1999, 2000, 2001, 4096, 32767, 32768, 65279, 65280, 65528, 65533, 65534, 65535}

// n draws from lo..hi, favouring boundaries and the hinted values.
func (r *vpRun) n(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch r.rng.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2, 3:
		if v := vpEdge[r.rng.Intn(len(vpEdge))]; v >= lo && v <= hi {
			return v
		}
	case 4:
		if len(r.hints) > 0 {
			v := r.hints[r.rng.Intn(len(r.hints))]
			if v <= uint64(1<<40) && int(v) >= lo && int(v) <= hi {
				return int(v)
			}
		}
	case 5:
		if hi-lo > 12 {
			return lo + r.rng.Intn(12)
		}
	case 6:
		if hi-lo > 12 {
			return hi - r.rng.Intn(12)
		}
	}
	return lo + r.rng.Intn(hi-lo+1)
}

func (r *vpRun) u16() uint16 { return uint16(r.n(0, 65535)) }

func (r *vpRun) byte() byte {
	switch r.rng.Intn(6) {
	case 0:
		return []byte{0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x0d, ':', 'F'}[r.rng.Intn(9)]
	case 1:
		if len(r.hints) > 0 {
			return byte(r.hints[r.rng.Intn(len(r.hints))])
		}
	}
	return byte(r.rng.Intn(256))
}

func (r *vpRun) bytes(n int) []byte {
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = r.byte()
	}
	return b
}

func (r *vpRun) words(n int) []uint16 {
	b := make([]uint16, n)
	for i := range b {
		b[i] = uint16(r.byte())<<8 | uint16(r.byte())
	}
	return b
}

func (r *vpRun) coin() bool { return r.rng.Intn(2) == 0 }

func vpSameBytes(a, b []byte) bool { return string(a) == string(b) }

func vpSameWords(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vpIsExc(err error, code byte) bool {
	e, ok := err.(*ExceptionError)
	return ok && e != nil && e.ExceptionCode == code
}

// vpTry runs f and returns the panic, if any.
func vpTry(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func vpCRC(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xa001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func vpLRC(b []byte) byte {
	s := byte(0)
	for _, x := range b {
		s += x
	}
	return -s
}

func vpRTU(slave byte, pdu []byte) []byte {
	f := append([]byte{slave}, pdu...)
	c := vpCRC(f)
	return append(f, byte(c), byte(c>>8))
}

func vpASCII(slave byte, pdu []byte) []byte {
	f := append([]byte{slave}, pdu...)
	f = append(f, vpLRC(f))
	return []byte(":" + strings.ToUpper(fmt.Sprintf("%x", f)) + "\r\n")
}

func vpTCP(tid uint16, unit byte, pdu []byte) []byte {
	n := len(pdu) + 1
	return append([]byte{byte(tid >> 8), byte(tid), 0, 0, byte(n >> 8), byte(n), unit}, pdu...)
}
