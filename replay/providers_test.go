package modbus

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"
)

// race: C29
// race: C07

// match plays exchanges with right, damaged and foreign answers.
func vpMatch(r *vpRun, kind string) {
	p := vpProvider(kind)
	for r.more() {
		req := r.reqPDU()
		if r.rng.Intn(8) == 0 {
			req = append([]byte{r.byte()}, r.bytes(r.rng.Intn(8))...)
			if kind == "rtu" && (len(req) < 5 || vpRTULen(vpRTU(1, req)) > 40) {
				continue // a short request does not tell how long its answer is
			}
		}
		slave := r.byte()
		full := false // the answer is one whole frame of the length the request implies
		x := r.exchange(kind, p, slave, req, r.coin(), func(tid uint16) ([]byte, string) {
			from := slave
			pdu := r.normalPDU(req)
			full = true
			switch r.rng.Intn(8) {
			case 0, 1:
				pdu = []byte{req[0] | 0x80, byte(r.rng.Intn(13))}
				if r.rng.Intn(6) == 0 {
					pdu[1] = r.byte()
				}
				if r.rng.Intn(8) == 0 && kind != "rtu" {
					pdu = append(pdu, r.bytes(2)...)
				}
			case 2:
				pdu[0] = r.byte()
			case 3:
				from = r.byte()
			case 4:
				pdu = pdu[:1]
				full = kind != "rtu"
			case 5:
				tid += uint16(1 + r.rng.Intn(3))
			}
			b := vpFrame(kind, tid, from, pdu)
			switch r.rng.Intn(8) {
			case 0:
				b[r.rng.Intn(len(b))] ^= 1 << uint(r.rng.Intn(8))
			case 1:
				b = b[:r.rng.Intn(len(b)+1)]
				full = false
			case 2:
				if kind == "tcp" {
					b[r.rng.Intn(8)] = r.byte()
				}
			}
			return b, ""
		})
		r.in("%s", x.desc)
		r.check(x.p == nil, "panic: %v", x.p)
		got := x.c.consumed
		from, pdu, ok := vpParse(kind, got)
		if kind == "tcp" && ok {
			ok = got[0] == x.frame[0] && got[1] == x.frame[1] && got[2] == 0 && got[3] == 0
		}
		ok = ok && from == slave
		good := ok && pdu[0] == req[0] && len(pdu) >= 2
		if x.err == nil {
			r.check(good, "accepted an answer that does not match: received %x", got)
			r.check(vpSameBytes(x.pdu, pdu), "result pdu %x, received %x", x.pdu, pdu)
			continue
		}
		if !full || !vpSameBytes(got, x.reply) {
			continue
		}
		r.check(!good || len(pdu) > 253, "a matching answer was refused: %v", x.err)
		if ok && req[0] < 0x80 && pdu[0] == req[0]|0x80 && len(pdu) >= 2 {
			r.check(vpIsExc(x.err, pdu[1]), "error is %#v (%v), want the Modbus exception %d", x.err, x.err, pdu[1])
		}
	}
}

func TestVP_C05(t *testing.T) {
	r := vpStart(t, "C05", "RTU and ASCII exchanges over a scripted port, answers right, foreign, damaged, exceptional or cut short")
	r.run(func() {
		var i uint32
		var mu sync.Mutex
		r.fork(96, func(s *vpRun) {
			mu.Lock()
			i++
			n := i
			mu.Unlock()
			if n%8 == 0 {
				vpMatch(s, "ascii")
			} else {
				vpMatch(s, "rtu")
			}
		})
	})
}

func TestVP_C06(t *testing.T) {
	r := vpStart(t, "C06", "TCP exchanges over a scripted connection, answers right, foreign (transaction, protocol, unit, function), damaged, exceptional or cut short")
	r.run(func() { vpMatch(r, "tcp") })
}

func TestVP_C07(t *testing.T) {
	r := vpStart(t, "C07", "runs of 65700 consecutive exchanges by Send, by SendPdu and mixed, and exchanges from several goroutines, whose request transaction ids are compared")
	r.run(func() {
		// several goroutines on one provider
		for round := 0; round < 3; round++ {
			p := NewTCPClientProvider("127.0.0.1:1")
			c := &vpConn{}
			seen := map[uint16]int{}
			n := 0
			c.reply = func(f []byte) [][]byte {
				seen[uint16(f[0])<<8|uint16(f[1])]++
				n++
				return [][]byte{vpTCP(uint16(f[0])<<8|uint16(f[1]), f[6], []byte{f[7], 2, 0, 1})}
			}
			r.plug(p, c)
			r.in("8 goroutines x 400 exchanges, Send and SendPdu mixed")
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for k := 0; k < 400; k++ {
						if (g+k)%2 == 0 {
							p.SendPdu(1, []byte{3, 0, 0, 0, 1})
						} else {
							p.Send(1, ProtocolDataUnit{3, []byte{0, 0, 0, 1}})
						}
					}
				}(g)
			}
			wg.Wait()
			for id, k := range seen {
				r.check(k == 1, "transaction id %d was used by %d of the %d requests", id, k, n)
			}
		}
		if testing.Short() {
			return
		}
		// three times through all 65536 ids: by Send, by SendPdu, and mixed
		stop := r.end.Add(20 * time.Second)
		for _, kind := range []string{"Send", "SendPdu", "mixed"} {
			p := NewTCPClientProvider("127.0.0.1:1")
			c := &vpConn{}
			last, have := uint16(0), false
			c.reply = func(f []byte) [][]byte {
				tid := uint16(f[0])<<8 | uint16(f[1])
				if have && tid != last+1 {
					r.check(false, "transaction id %d follows %d", tid, last)
				}
				last, have = tid, true
				switch r.rng.Intn(8) {
				case 0: // exception
					return [][]byte{vpTCP(tid, f[6], []byte{f[7] | 0x80, 2})}
				case 1: // late answer of another request
					return [][]byte{vpTCP(tid-1, f[6], []byte{f[7], 2, 0, 1})}
				case 2:
					return nil
				}
				return [][]byte{vpTCP(tid, f[6], []byte{f[7], 2, 0, 1})}
			}
			r.plug(p, c)
			pdu, req := []byte{3, 0, 0, 0, 1}, ProtocolDataUnit{3, []byte{0, 0, 0, 1}}
			for i := 0; i < 65700 && (i%64 != 0 || time.Now().Before(stop)); i++ {
				if i%1000 == 0 || i > 65400 {
					r.in("exchange %d, %s, after transaction id %d", i, kind, last)
				}
				c.wrote, c.consumed, c.chunks = nil, nil, nil
				if c.closed > 0 { // the provider gave the connection up
					c.closed = 0
					r.plug(p, c)
				}
				before, l := have, last
				if kind == "SendPdu" || kind == "mixed" && r.coin() {
					p.SendPdu(1, pdu)
				} else {
					p.Send(1, req)
				}
				if before && last != l+1 {
					r.in("exchange %d, %s, after transaction id %d", i, kind, l)
					r.check(false, "the exchange used transaction id %d after %d", last, l)
				}
			}
		}
	})
}

func TestVP_C13(t *testing.T) {
	r := vpStart(t, "C13", "raw TCP exchanges against byte streams: whole frames, several frames, announced lengths 0..65535, short and broken streams, all segmentations, write failures")
	r.run(func() {
		for r.more() {
			p := NewTCPClientProvider("127.0.0.1:1")
			req := r.bytes(r.n(0, 270))
			n := r.n(0, 300)
			switch r.rng.Intn(6) {
			case 0:
				n = r.n(0, 3)
			case 1:
				n = r.n(250, 260)
			case 2:
				n = r.n(0, 65535)
			}
			s := append(r.bytes(4), byte(n>>8), byte(n))
			extra := n + r.n(-3, 20)
			if n > 300 {
				extra = r.n(0, 400)
			}
			s = append(s, r.bytes(extra)...)
			if r.rng.Intn(5) == 0 {
				s = s[:r.rng.Intn(len(s)+1)]
			}
			c := &vpConn{end: r.endErr(false)}
			if r.rng.Intn(10) == 0 {
				c.werr, c.wpart = errors.New("write failed"), r.rng.Intn(4)
			}
			c.reply = func([]byte) [][]byte { return r.segment(s) }
			r.plug(p, c)
			r.in("request %x, stream %x then %v, write error %v", req, s, c.end, c.werr)
			var res []byte
			var err error
			pn := vpTry(func() { res, err = p.SendRawFrame(req) })
			r.check(pn == nil, "panic: %v", pn)
			if c.werr != nil {
				r.check(err != nil && len(res) == 0, "write failed, but the result is %x, %v", res, err)
				r.check(c.nreads == 0, "the write failed, but the connection was read")
				continue
			}
			r.check(vpSameBytes(c.wrote, req), "wrote %x", c.wrote)
			ok := len(s) >= 7 && n >= 1 && n <= 254 && len(s) >= 6+n
			if ok {
				r.check(err == nil && vpSameBytes(res, s[:6+n]), "result %x, %v, want %x", res, err, s[:6+n])
				r.check(len(c.consumed) == 6+n, "%d bytes consumed, the frame has %d", len(c.consumed), 6+n)
			} else {
				r.check(err != nil && len(res) == 0, "must fail, result %x", res)
			}
			if c.closed == 0 && ok { // the frames of the stream, one by one
				c.chunks, c.consumed, c.wrote = nil, nil, nil
			}
			r.check(vpSoon(func() { p.IsConnected() }), "the provider is locked up")
		}
	})
}

func TestVP_C14(t *testing.T) {
	r := vpStart(t, "C14", "raw RTU exchanges over a scripted port: requests of any length, answers normal, exceptional, FIFO, foreign, short, in all segmentations")
	r.run(func() {
		r.fork(128, func(r *vpRun) {
			p := NewRTUClientProvider()
			for r.more() {
				req := vpRTU(r.byte(), r.reqPDU())
				switch r.rng.Intn(8) {
				case 0:
					req = r.bytes(r.n(0, 6))
				case 1:
					req = r.bytes(r.n(4, 12))
				case 2:
					if len(req) >= 6 { // larger quantities
						req[4], req[5] = 0, byte(r.n(1, 125))
					}
				}
				want := 4
				if len(req) >= 4 {
					want = vpRTULen(req)
				}
				if want > 256 && r.rng.Intn(3000) > 0 || len(req) > 40 {
					continue
				}
				fc := byte(0)
				if len(req) > 1 {
					fc = req[1]
				}
				var s []byte
				full := false
				switch r.rng.Intn(8) {
				case 0, 1, 2:
					n := want
					if fc == 24 {
						k := r.rng.Intn(8)
						s = append([]byte{r.byte(), fc}, vpBE(uint16(2+2*k), uint16(k))...)
						s = append(s, r.bytes(2*k+2)...)
					} else {
						s = append([]byte{r.byte(), fc}, r.bytes(n-2)...)
					}
					full = len(s) >= 4 && len(s) <= 256
				case 3, 4:
					s = append([]byte{r.byte(), fc | 0x80}, r.bytes(3)...)
					full = fc < 0x80
				case 5:
					s = append([]byte{r.byte(), r.byte()}, r.bytes(r.n(0, 12))...)
				case 6:
					s = append([]byte{r.byte(), fc}, r.bytes(r.n(0, want))...)
				case 7:
					s = append([]byte{r.byte(), fc}, r.bytes(r.n(0, 300))...)
				}
				if r.rng.Intn(6) == 0 {
					s = s[:r.rng.Intn(len(s)+1)]
					full = false
				}
				c := &vpConn{end: r.endErr(true)}
				if r.rng.Intn(12) == 0 {
					c.werr, c.wpart = errors.New("write failed"), r.rng.Intn(4)
				}
				c.reply = func([]byte) [][]byte { return r.segment(s) }
				r.plug(p, c)
				r.in("request %x, answer %x then %v, write error %v", req, s, c.end, c.werr)
				var res []byte
				var err error
				pn := vpTry(func() { res, err = p.SendRawFrame(req) })
				r.check(pn == nil, "panic: %v", pn)
				if len(req) < 4 {
					r.check(err != nil && c.nwrites == 0, "a request of %d bytes was sent", len(req))
					continue
				}
				if c.werr != nil {
					r.check(err != nil && res == nil, "write failed, but the result is %x, %v", res, err)
					continue
				}
				r.check(vpSameBytes(c.wrote, req), "wrote %x", c.wrote)
				got := c.consumed
				if err != nil {
					r.check(len(res) == 0, "error %v with result %x", err, res)
					r.check(!full, "an answer of the implied length was refused: %v", err)
					continue
				}
				r.check(vpSameBytes(res, got), "result %x, received %x", res, got)
				r.check(len(got) >= 4 && len(got) <= 256, "an answer of %d bytes was accepted", len(got))
				switch {
				case got[1] == fc && fc == 24:
					n := 6 + int(got[2])<<8 | int(got[3])
					n = 6 + (int(got[2])<<8 | int(got[3]))
					r.check(len(got) >= n || n > 256, "%d bytes accepted, the FIFO answer announces %d", len(got), n)
				case got[1] == fc:
					r.check(len(got) >= want || want > 256, "%d bytes accepted, the request implies %d", len(got), want)
				case got[1] == fc|0x80:
					r.check(len(got) >= 5, "an exception of %d bytes was accepted", len(got))
				default:
					r.fail("an answer with function code %d was accepted for %d", got[1], fc)
				}
			}
		})
	})
}

func TestVP_C15(t *testing.T) {
	r := vpStart(t, "C15", "raw ASCII exchanges over a scripted port: answers ended by CR LF at every place, unended, over-long, with read and write errors, in all segmentations")
	r.run(func() {
		p := NewASCIIClientProvider()
		for r.more() {
			req := r.bytes(r.n(0, 520))
			s := r.bytes(r.n(0, 40))
			if r.rng.Intn(6) == 0 {
				s = r.bytes(r.n(500, 530))
			}
			if r.rng.Intn(3) == 0 {
				s = vpASCII(r.byte(), r.bytes(r.n(1, 253)))
			}
			if r.coin() {
				s = append(s, '\r', '\n')
			}
			c := &vpConn{end: r.endErr(true)}
			if r.rng.Intn(8) == 0 {
				c.werr, c.wpart = errors.New("write failed"), r.rng.Intn(4)
			}
			segs := r.segment(s)
			c.reply = func([]byte) [][]byte { return segs }
			// after an answer that is complete nothing more may be read
			over := false
			c.hook = func(ev string, n int) {
				g := len(c.consumed)
				if ev == "read" && n > 0 && (g >= 513 || g > 3 && c.consumed[g-2] == '\r' && c.consumed[g-1] == '\n') {
					over = true
				}
			}
			r.plug(p, c)
			r.in("request %x, answer %q in %d pieces then %v, write error %v", req, s, len(segs), c.end, c.werr)
			var res []byte
			var err error
			pn := vpTry(func() { res, err = p.SendRawFrame(req) })
			r.check(pn == nil, "panic: %v", pn)
			if c.werr != nil {
				r.check(err != nil && res == nil, "write failed, but the result is %x, %v", res, err)
				r.check(c.closed > 0 && !p.IsConnected(), "the write failed, but the port was not closed")
				r.check(c.nreads == 0, "the write failed, but the port was read")
				continue
			}
			r.check(vpSameBytes(c.wrote, req), "wrote %x", c.wrote)
			r.check(c.nreads > 0, "the answer was not read")
			g := len(c.consumed)
			done := g >= 513 || g > 3 && c.consumed[g-2] == '\r' && c.consumed[g-1] == '\n'
			r.check(!over, "read on after the answer was complete")
			if err != nil {
				r.check(res == nil, "error %v with result %x", err, res)
				r.check(!done, "a complete answer was refused: %v", err)
				continue
			}
			r.check(vpSameBytes(res, c.consumed), "result %q, received %q", res, c.consumed)
			r.check(g <= 513 && done, "%d bytes accepted: %q", g, res)
		}
	})
}

func TestVP_C30(t *testing.T) {
	r := vpStart(t, "C30", "SendPdu of the three providers with PDUs of 0 to 300 bytes, every boundary size, answered or not")
	kinds := []string{"tcp", "ascii", "rtu"}
	one := func(r *vpRun, kind string, p ClientProvider, size int) {
		req := r.bytes(size)
		if size > 0 && r.coin() {
			req[0] = byte(r.n(0, 127))
		}
		if kind == "rtu" && size >= 5 && r.coin() {
			req[0], req[3], req[4] = 3, 0, 1
		}
		if kind == "rtu" && size >= 1 && size <= 253 && vpRTULen(vpRTU(1, req)) > 300 {
			req[0] = 100
		}
		keep := append([]byte(nil), req...)
		slave := r.byte()
		var ans []byte
		x := r.exchange(kind, p, slave, req, true, func(tid uint16) ([]byte, string) {
			n := r.n(1, 252)
			if kind == "rtu" {
				n = vpRTULen(vpRTU(1, req)) - 4
				if n < 1 {
					n = 1
				}
				if req[0] == 24 {
					ans = append(append([]byte{24}, vpBE(2, 0)...))
					return vpRTU(slave, ans), ""
				}
			}
			if n > 252 {
				n = 252
			}
			ans = append([]byte{req[0]}, r.bytes(n)...)
			return vpFrame(kind, tid, slave, ans), ""
		})
		if len(x.desc) > 900 {
			x.desc = x.desc[:900]
		}
		r.in("%s", x.desc)
		r.check(x.p == nil, "panic: %v", x.p)
		r.check(vpSameBytes(keep, req), "the caller's pdu was changed")
		if size < 1 || size > 253 {
			r.check(x.err != nil && x.pdu == nil && x.c.nwrites == 0, "a pdu of %d bytes was not refused: %v", size, x.err)
			return
		}
		r.check(x.c.nwrites == 1 && vpSameBytes(x.c.wrote, x.frame), "%d frames were written (error %v)", x.c.nwrites, x.err)
		f := x.frame
		tid := uint16(0)
		if len(f) > 1 {
			tid = uint16(f[0])<<8 | uint16(f[1])
		}
		r.check(vpSameBytes(f, vpFrame(kind, tid, slave, keep)), "the frame written is %x", f)
		if vpSameBytes(x.c.consumed, x.reply) && x.err == nil {
			r.check(vpSameBytes(x.pdu, ans), "result %x, want %x", x.pdu, ans)
		}
		// the RTU provider reads what the request implies
		if kind != "rtu" || req[0] == 24 || vpRTULen(f) == len(x.reply) {
			r.check(x.err == nil || len(x.reply) > 256 && kind == "rtu", "a right answer was refused: %v", x.err)
		}
	}
	r.run(func() {
		r.fork(64, func(r *vpRun) {
			ps := []ClientProvider{vpProvider("tcp"), vpProvider("ascii"), vpProvider("rtu")}
			for i := 0; r.more(); i++ {
				k := 0
				size := r.n(0, 300)
				if m := r.rng.Intn(12); m == 0 {
					k = 2
				} else if m < 5 {
					k = 1
				}
				if i == 0 {
					size = []int{0, 1, 252, 253, 254}[r.rng.Intn(5)]
					k = r.rng.Intn(3)
				}
				one(r, kinds[k], ps[k], size)
			}
		})
	})
}

func TestVP_C29(t *testing.T) {
	r := vpStart(t, "C29", "concurrent exchanges, connects, closes and status queries on one provider, over a port that detects interleaving; lifecycle sequences against a listener; every error path followed by a status query")
	r.run(func() {
		// one exchange at a time
		for _, kind := range []string{"tcp", "ascii", "rtu"} {
			for round := 0; round < 3; round++ {
				p := vpProvider(kind)
				c := &vpConn{}
				var mu sync.Mutex
				busy := false
				bad := ""
				c.reply = func(f []byte) [][]byte {
					mu.Lock()
					if busy {
						bad = "a request was written before the previous exchange was over"
					}
					busy = true
					mu.Unlock()
					slave, pdu, _ := vpParse(kind, f)
					tid := uint16(f[0])<<8 | uint16(f[1])
					return [][]byte{vpFrame(kind, tid, slave, pdu)[:4], vpFrame(kind, tid, slave, pdu)[4:]}
				}
				c.hook = func(ev string, n int) {
					runtime.Gosched()
					if ev == "read" {
						c.mu.Lock()
						if len(c.chunks) == 1 {
							mu.Lock()
							busy = false
							mu.Unlock()
						}
						c.mu.Unlock()
					}
				}
				r.plug(p, c)
				r.in("%s: 6 goroutines x 12 exchanges with distinct requests, with status queries", kind)
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						for k := 0; k < 12; k++ {
							req := []byte{5, byte(g), byte(k), 0, byte(round)}
							var res []byte
							var err error
							switch k % 3 {
							case 0:
								res, err = p.SendPdu(byte(g+1), req)
							case 1:
								var d ProtocolDataUnit
								d, err = p.Send(byte(g+1), ProtocolDataUnit{req[0], req[1:]})
								res = append([]byte{d.FuncCode}, d.Data...)
							case 2:
								f := vpFrame(kind, 7, byte(g+1), req)
								var a []byte
								a, err = p.SendRawFrame(f)
								_, res, _ = vpParse(kind, a)
							}
							if !p.IsConnected() {
								mu.Lock()
								bad = "status query says not connected while a connection is held"
								mu.Unlock()
							}
							if err != nil || !vpSameBytes(res, req) {
								mu.Lock()
								bad = fmt.Sprintf("request %x was answered %x, %v", req, res, err)
								mu.Unlock()
							}
						}
					}(g)
				}
				r.check(vpSoon(wg.Wait), "the exchanges do not finish")
				mu.Lock()
				b := bad
				mu.Unlock()
				r.check(b == "", "%s", b)
			}
		}
		// a status query, connect or close waits for the exchange under way
		for _, kind := range []string{"tcp", "ascii", "rtu"} {
			for _, op := range []string{"Close", "Connect", "IsConnected", "SendPdu"} {
				p := vpProvider(kind)
				c := &vpConn{block: make(chan struct{})}
				started := make(chan struct{})
				var once sync.Once
				c.hook = func(ev string, n int) {
					if ev == "read" {
						once.Do(func() { close(started) })
					}
				}
				r.plug(p, c)
				r.in("%s: %s during an exchange", kind, op)
				go p.SendPdu(1, []byte{5, 0, 0, 0, 0})
				<-started
				done := make(chan struct{})
				go func() {
					switch op {
					case "Close":
						p.Close()
					case "Connect":
						p.Connect()
					case "IsConnected":
						p.IsConnected()
					case "SendPdu":
						p.SendPdu(1, []byte{5, 1, 1, 1, 1})
					}
					close(done)
				}()
				early := false
				select {
				case <-done:
					early = true
				case <-time.After(30 * time.Millisecond):
				}
				close(c.block)
				r.check(!early, "%s did not wait for the exchange under way", op)
				<-done
			}
		}
		// lifecycle against a real listener
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			defer l.Close()
			acc := make(chan net.Conn, 1000)
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					acc <- c
				}
			}()
			count := func(want int) int {
				n := 0
				for {
					select {
					case c := <-acc:
						n++
						defer c.Close()
					case <-time.After(map[bool]time.Duration{true: 60 * time.Millisecond, false: 5 * time.Second}[n >= want]):
						return n
					}
				}
			}
			for i := 0; i < 3; i++ {
				p := NewTCPClientProvider(l.Addr().String())
				r.in("TCP: connect concurrently, connect again, close twice, reconnect")
				r.check(!p.IsConnected(), "connected before any connect")
				var wg sync.WaitGroup
				for g := 0; g < 5; g++ {
					wg.Add(1)
					go func() { defer wg.Done(); p.Connect() }()
				}
				wg.Wait()
				r.check(p.IsConnected(), "not connected after Connect")
				r.check(p.Connect() == nil, "Connect of a connected provider fails")
				n := count(1)
				r.check(n == 1, "%d connections were dialed for one provider", n)
				r.check(p.Close() == nil && !p.IsConnected(), "still connected after Close")
				r.check(p.Close() == nil && !p.IsConnected(), "a repeated Close fails")
				r.check(p.Connect() == nil && p.IsConnected(), "reconnecting fails")
				n = count(1)
				r.check(n == 1, "%d connections were dialed when reconnecting", n)
				p.Close()
			}
		}
		// a failed connect leaves the provider unconnected; an exchange then sends nothing
		dead, err := net.Listen("tcp", "127.0.0.1:0")
		addr := "127.0.0.1:1"
		if err == nil {
			addr = dead.Addr().String()
			dead.Close()
		}
		for _, p := range []ClientProvider{NewTCPClientProvider(addr), NewRTUClientProvider(), NewASCIIClientProvider()} {
			r.in("%T: connect to nothing", p)
			r.check(p.Connect() != nil && !p.IsConnected(), "Connect to nothing succeeded")
			_, err := p.SendPdu(1, []byte{5, 0, 0, 0, 0})
			r.check(err != nil && !p.IsConnected(), "an exchange without connection succeeded")
			r.check(p.Close() == nil, "Close of an unconnected provider fails")
		}
		// no path leaves the lock behind
		if e := time.Now().Add(2 * time.Second); r.end.Before(e) {
			r.end = e
		}
		r.fork(32, func(r *vpRun) {
			for r.more() {
				kind := []string{"tcp", "ascii", "tcp", "ascii", "tcp", "ascii", "rtu"}[r.rng.Intn(7)]
				p := vpProvider(kind)
				c := &vpConn{end: r.endErr(kind != "tcp")}
				if r.rng.Intn(4) == 0 {
					c.werr = errors.New("write failed")
				}
				if r.rng.Intn(5) == 0 {
					c.derr = errors.New("deadline failed")
				}
				req := r.reqPDU()
				if r.rng.Intn(6) == 0 {
					req = r.bytes(r.n(0, 300))
					if kind == "rtu" {
						req = []byte{100, 1, 2}[:r.n(0, 3)]
					}
				}
				raw := req
				if kind == "rtu" && len(req) > 3 { // the time the announced answer takes is waited for
					raw = vpRTU(1, req)
				}
				s := r.bytes(r.n(0, 20))
				if kind == "tcp" && r.coin() {
					s = append([]byte{0, 1, 0, 0}, byte(r.rng.Intn(2)), byte(r.n(0, 255)))
					s = append(s, r.bytes(12)...)
				}
				c.reply = func([]byte) [][]byte { return r.segment(s) }
				r.plug(p, c)
				r.in("%s request %x answered %x then %v, write error %v, deadline error %v", kind, req, s, c.end, c.werr, c.derr)
				pn := vpTry(func() {
					switch r.rng.Intn(3) {
					case 0:
						p.SendPdu(1, req)
					case 1:
						if len(req) > 0 {
							p.Send(1, ProtocolDataUnit{req[0], req[1:]})
						}
					case 2:
						p.SendRawFrame(raw)
					}
				})
				r.check(pn == nil, "panic: %v", pn)
				held := false
				r.check(vpSoon(func() { held = p.IsConnected() }), "the provider's lock is still held after the call")
				r.check(held == (c.closed == 0), "status query says %v, connection closed %d times", held, c.closed)
				r.check(vpSoon(func() { p.Close() }) && !p.IsConnected() && c.closed == 1, "Close leaves the connection (closed %d times)", c.closed)
			}
		})
	})
}
