package modbus

import (
	"runtime"
	"runtime/debug"
	"testing"
)

// race: C28

func TestVP_C28(t *testing.T) {
	r := vpStart(t, "C28", "exchanges ending on every path; earlier results are compared after later exchanges, the frame pools are inspected, concurrent exchanges of many providers run under the race detector")
	r.run(func() {
		kinds := []string{"tcp", "ascii", "rtu"}
		step := func(r *vpRun, kind string, p ClientProvider) *vpExchange {
			req := r.reqPDU()
			switch r.rng.Intn(6) {
			case 0:
				req = append(req, r.bytes(300)...)
			case 1:
				if kind != "rtu" {
					req = append(req[:1:1], r.bytes(252)...)
				}
			}
			slave := r.byte()
			return r.exchange(kind, p, slave, req, r.coin(), func(tid uint16) ([]byte, string) {
				pdu := r.normalPDU(req)
				b := vpFrame(kind, tid, slave, pdu)
				if r.rng.Intn(4) == 0 {
					b[r.rng.Intn(len(b))] ^= 4
				}
				if r.rng.Intn(5) == 0 {
					b = b[:r.rng.Intn(len(b))]
				}
				return b, ""
			})
		}
		// results stay as they were, requests are whole, pools hold each frame once
		r.fork(48, func(r *vpRun) {
			type kept struct{ res, copy []byte }
			var old []kept
			ps := []ClientProvider{vpProvider("tcp"), vpProvider("ascii"), vpProvider("rtu")}
			pools := []*pool{r.poolOf(ps[0]), r.poolOf(ps[1]), r.poolOf(ps[2])}
			for r.more() {
				k := r.rng.Intn(13)
				if k == 12 {
					k = 2
				} else {
					k %= 2
				}
				x := step(r, kinds[k], ps[k])
				r.in("%s", x.desc)
				r.check(x.p == nil, "panic: %v", x.p)
				if x.frame != nil && len(x.req) >= 1 {
					tid := uint16(x.frame[0])<<8 | uint16(x.frame[1])
					r.check(vpSameBytes(x.frame, vpFrame(kinds[k], tid, x.slave, x.req)), "the frame written is %x", x.frame)
				}
				for _, o := range old {
					r.check(vpSameBytes(o.res, o.copy), "an earlier result changed from %x to %x", o.copy, o.res)
				}
				if x.err == nil && len(x.pdu) > 0 {
					if r.coin() { // results belong to the caller
						for i := range x.pdu {
							x.pdu[i] ^= 0xff
						}
					}
					old = append(old, kept{x.pdu, append([]byte(nil), x.pdu...)})
					if len(old) > 20 {
						old = old[1:]
					}
				}
				if r.rng.Intn(4) == 0 {
					var fs []*protocolFrame
					for i := 0; i < 6; i++ {
						f := pools[k].get()
						for _, g := range fs {
							r.check(f != g, "the pool hands out one frame twice")
						}
						fs = append(fs, f)
					}
					for _, f := range fs {
						pools[k].put(f)
					}
				}
			}
		})
		// every exchange gives its frame back: with one P and no collection the pool is exact
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		if vpRace {
			return
		}
		for k := range kinds {
			p := vpProvider(kinds[k])
			pl := r.poolOf(p)
			for mode := 0; mode < 6; mode++ {
				for _, via := range []bool{false, true} {
					lost := 0
					for i := 0; i < 12; i++ {
						f := pl.get()
						pl.put(f)
						req := []byte{5, 0, 1, 0xff, 0}
						if mode == 5 {
							req = append(req, make([]byte, 300)...)
						}
						x := r.exchange(kinds[k], p, 1, req, via, func(tid uint16) ([]byte, string) {
							pdu := []byte{5, 0, 1, 0xff, 0}
							switch mode {
							case 1:
								pdu[0] = 0x85
							case 2:
								b := vpFrame(kinds[k], tid, 1, pdu)
								b[len(b)-1] ^= 1
								b[1] ^= 1
								return b, ""
							case 3:
								return nil, ""
							case 4:
								return vpFrame(kinds[k], tid+1, 2, pdu), ""
							}
							return vpFrame(kinds[k], tid, 1, pdu), ""
						})
						r.in("pool balance, %s", x.desc)
						if g := pl.get(); g != f {
							lost++
						} else {
							pl.put(g)
						}
					}
					r.check(lost < 10, "the exchange does not give its frame back")
				}
			}
		}
	})
}
