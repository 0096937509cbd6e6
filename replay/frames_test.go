package modbus

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVP_C09(t *testing.T) {
	r := vpStart(t, "C09", "byte strings of boundary and random lengths; non-trivial: at least one byte. All 65536 two-byte strings; 60 processes in which 8 goroutines use the function for the first time at once")
	r.run(func() {
		// first use of the function from several goroutines at once, each time in a new process
		if os.Getenv("VP_CRC_CHILD") == "" {
			for k := 0; k < 60; k++ {
				cmd := exec.Command(os.Args[0], "-test.run=^TestVP_C09$", "-test.timeout=20s")
				cmd.Env = append(os.Environ(), "VP_CRC_CHILD=1", "VP_OUT=")
				out, err := cmd.CombinedOutput()
				r.in("first use from 8 goroutines at once, process %d", k)
				if x, ok := err.(*exec.ExitError); ok {
					r.check(x.ExitCode() != 7 && !bytes.Contains(out, []byte("panic: ")), "%s", out)
				}
			}
		} else {
			var wg sync.WaitGroup
			var ready int32
			got := make([]uint16, 8)
			in := make([][]byte, 8)
			for i := range got {
				in[i] = []byte{byte(37 * i), 2, 200, byte(255 - i)}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					atomic.AddInt32(&ready, 1)
					for t := time.Now(); atomic.LoadInt32(&ready) < 8 && time.Since(t) < time.Second; {
					}
					got[i] = CRC16(in[i])
				}(i)
			}
			wg.Wait()
			for i := range got {
				if got[i] != vpCRC(in[i]) {
					fmt.Printf("first use from 8 goroutines at once: CRC16(%x) = %#x, want %#x\n", in[i], got[i], vpCRC(in[i]))
					os.Exit(7)
				}
			}
			os.Exit(0)
		}
		for i := 0; i < 65536; i++ {
			b := []byte{byte(i >> 8), byte(i)}
			r.in("%x", b)
			r.check(CRC16(b) == vpCRC(b), "CRC16 = %#x, want %#x", CRC16(b), vpCRC(b))
		}
		for r.more() {
			b := r.bytes(r.n(0, 300))
			r.in("%x", b)
			o := append([]byte(nil), b...)
			g := CRC16(b)
			r.check(g == vpCRC(b), "CRC16 = %#x, want %#x", g, vpCRC(b))
			r.check(vpSameBytes(o, b), "the argument was changed")
		}
	})
}

func TestVP_C08(t *testing.T) {
	r := vpStart(t, "C08", "RTU frames: PDUs of every size class encoded and decoded; valid, damaged and random byte strings decoded")
	r.run(func() {
		f := &protocolFrame{make([]byte, 0, rtuAduMaxSize)}
		for r.more() {
			id, fc, d := r.byte(), r.byte(), r.bytes(r.n(0, 260))
			r.in("encode slave %d function %d data %x", id, fc, d)
			g, err := f.encodeRTUFrame(id, ProtocolDataUnit{fc, d})
			want := vpRTU(id, append([]byte{fc}, d...))
			if len(d) > 252 {
				r.check(err != nil, "a PDU of %d bytes was encoded", len(d)+1)
			} else {
				r.check(err == nil && vpSameBytes(g, want), "frame %x (%v), want %x", g, err, want)
			}
			if len(d) > 600 {
				continue
			}
			switch r.rng.Intn(6) {
			case 0:
				want = r.bytes(r.n(0, 12))
			case 1:
				want[r.rng.Intn(len(want))] ^= 1 << uint(r.rng.Intn(8))
			case 2:
				want = vpRTU(id, d)
			case 3:
				want = want[:r.rng.Intn(len(want)+1)]
			}
			r.in("decode %x", want)
			keep := append([]byte(nil), want...)
			n := len(keep)
			ok := n >= 4 && uint16(keep[n-2])|uint16(keep[n-1])<<8 == vpCRC(keep[:n-2])
			gi, gp, err := decodeRTUFrame(want)
			r.check((err == nil) == ok, "error is %v, valid is %v", err, ok)
			if ok {
				r.check(gi == keep[0] && vpSameBytes(gp, keep[1:n-2]), "decoded slave %d pdu %x", gi, gp)
			}
		}
	})
}

func TestVP_C10(t *testing.T) {
	r := vpStart(t, "C10", "ASCII frames: PDUs of every size class encoded and decoded; valid, damaged and random byte strings decoded")
	r.run(func() {
		f := &protocolFrame{make([]byte, 0, asciiCharacterMaxSize)}
		for r.more() {
			id, fc, d := r.byte(), r.byte(), r.bytes(r.n(0, 260))
			r.in("encode slave %d function %d data %x", id, fc, d)
			g, err := f.encodeASCIIFrame(id, ProtocolDataUnit{fc, d})
			want := vpASCII(id, append([]byte{fc}, d...))
			if len(d) > 252 {
				r.check(err != nil, "a PDU of %d bytes was encoded", len(d)+1)
			} else {
				r.check(err == nil && vpSameBytes(g, want), "frame %q (%v), want %q", g, err, want)
			}
			if len(d) > 600 {
				continue
			}
			switch r.rng.Intn(9) {
			case 0:
				want = r.bytes(r.n(0, 14))
			case 1:
				want[r.rng.Intn(len(want))] ^= 1 << uint(r.rng.Intn(8))
			case 2:
				want[r.rng.Intn(len(want))] = "0123456789abcdefABCDEF:\r\ngG@`/"[r.rng.Intn(30)]
			case 3:
				want = want[:r.rng.Intn(len(want)+1)]
			case 4: // lower case
				for i := range want {
					if want[i] >= 'A' && want[i] <= 'F' {
						want[i] += 32
					}
				}
			case 5: // too short a body, otherwise correct
				b := r.bytes(r.rng.Intn(3))
				b = append(b, vpLRC(b))
				want = []byte(":" + strings.ToUpper(fmt.Sprintf("%x", b)) + "\r\n")
			case 6: // an extra character
				want = append(want[:3:3], append([]byte{'0'}, want[3:]...)...)
			}
			r.in("decode %q", want)
			keep := append([]byte(nil), want...)
			n := len(keep)
			ok := n >= 9 && n%2 == 1 && keep[0] == ':' && keep[n-2] == '\r' && keep[n-1] == '\n'
			var raw []byte
			if ok {
				raw, err = hex.DecodeString(string(keep[1 : n-2]))
				ok = err == nil && vpLRC(raw[:len(raw)-1]) == raw[len(raw)-1]
			}
			gi, gp, err := decodeASCIIFrame(want)
			r.check((err == nil) == ok, "error is %v, valid is %v", err, ok)
			if ok {
				r.check(gi == raw[0] && vpSameBytes(gp, raw[1:len(raw)-1]), "decoded slave %d pdu %x", gi, gp)
			}
		}
	})
}

func TestVP_C11(t *testing.T) {
	r := vpStart(t, "C11", "byte strings pushed in one or several calls, after a reset of a used or fresh LRC")
	r.run(func() {
		for r.more() {
			b := r.bytes(r.n(0, 300))
			l := new(LRC)
			if r.coin() {
				l.Push(r.bytes(5)...)
			}
			l.Reset()
			cuts := []int{}
			for i := 0; i < len(b); {
				n := r.n(0, len(b)-i)
				if r.rng.Intn(4) == 0 {
					n = len(b) - i
				}
				l.Push(b[i : i+n]...)
				cuts = append(cuts, n)
				i += n
			}
			r.in("%x pushed in pieces %v", b, cuts)
			g := l.Value()
			r.check(g == vpLRC(b), "LRC = %#x, want %#x", g, vpLRC(b))
			r.check(l.Value() == g, "a second Value differs")
		}
	})
}

func TestVP_C12(t *testing.T) {
	r := vpStart(t, "C12", "TCP frames: PDUs of every size class encoded and decoded; valid, damaged and random byte strings decoded")
	r.run(func() {
		f := &protocolFrame{make([]byte, 0, tcpAduMaxSize)}
		for r.more() {
			tid, id, fc, d := r.u16(), r.byte(), r.byte(), r.bytes(r.n(0, 260))
			r.in("encode transaction %d unit %d function %d data %x", tid, id, fc, d)
			h, g, err := f.encodeTCPFrame(tid, id, ProtocolDataUnit{fc, d})
			want := vpTCP(tid, id, append([]byte{fc}, d...))
			if len(d) > 252 {
				r.check(err != nil, "a PDU of %d bytes was encoded", len(d)+1)
			} else {
				r.check(err == nil && vpSameBytes(g, want), "frame %x (%v), want %x", g, err, want)
				r.check(h == protocolTCPHeader{tid, 0, uint16(len(d) + 2), id}, "header %+v", h)
			}
			if len(d) > 252 {
				continue
			}
			switch r.rng.Intn(6) {
			case 0:
				want = r.bytes(r.n(0, 14))
			case 1:
				want[r.rng.Intn(len(want))] ^= 1 << uint(r.rng.Intn(8))
			case 2:
				want[4+r.rng.Intn(2)] = r.byte()
			case 3:
				want = want[:r.rng.Intn(len(want)+1)]
			}
			if len(want) > 260 {
				want = want[:260]
			}
			r.in("decode %x", want)
			keep := append([]byte(nil), want...)
			n := len(keep)
			ok := n >= 8 && int(keep[4])<<8|int(keep[5]) == n-6
			gh, gp, err := decodeTCPFrame(want)
			r.check((err == nil) == ok, "error is %v, valid is %v", err, ok)
			if ok {
				wh := protocolTCPHeader{uint16(keep[0])<<8 | uint16(keep[1]), uint16(keep[2])<<8 | uint16(keep[3]), uint16(n - 6), keep[6]}
				r.check(gh == wh && vpSameBytes(gp, keep[7:]), "decoded %+v pdu %x, want %+v %x", gh, gp, wh, keep[7:])
			}
		}
	})
}
