package modbus

import (
	"fmt"
	"testing"
)

// TestVP_C35: exchanges fail in every way a peer can make them fail; what is
// left of them arrives later. Once the peer answers each request at once and
// correctly, exchanges have to succeed again.
func TestVP_C35(t *testing.T) {
	r := vpStart(t, "C35", "exchanges of a TCP provider whose answers come late, in part, twice, damaged or not at all; then a peer that answers correctly; the second exchange after that, at the latest, has to succeed on whatever connection the provider is left with")
	r.run(func() {
		for r.more() {
			vpRecover(r)
		}
	})
}

func vpRecover(r *vpRun) {
	p := NewTCPClientProvider("127.0.0.1:1")
	hist := ""
	var c *vpConn
	var late []byte // sent by the peer on this connection, not there yet
	bad := true
	fresh := func() {
		c, late = &vpConn{}, nil
		cc := c
		c.reply = func(f []byte) [][]byte {
			if len(f) < 8 {
				return nil
			}
			pdu := []byte{f[7], 2, f[0], f[1]}
			if r.rng.Intn(4) == 0 {
				pdu = []byte{f[7] | 0x80, 2}
			}
			tid := uint16(f[0])<<8 | uint16(f[1])
			ans := vpTCP(tid, f[6], pdu)
			if !bad {
				// leftovers first, then the answer
				b := append(append([]byte(nil), late...), ans...)
				late = nil
				return r.segment(b)
			}
			late = append([]byte(nil), late...)
			switch k := r.rng.Intn(9); k {
			case 0: // late
				hist += "late answer; "
				late = append(late, ans...)
				return nil
			case 1: // the rest is late
				n := r.rng.Intn(len(ans))
				hist += fmt.Sprintf("answer of %d bytes late after %d; ", len(ans), n)
				late = append(late, ans[n:]...)
				return r.segment(ans[:n])
			case 2: // twice
				hist += "answer sent twice; "
				return r.segment(append(append([]byte(nil), ans...), ans...))
			case 3: // twice, the second one late
				hist += "answer sent twice, once late; "
				late = append(late, ans...)
				return r.segment(ans)
			case 4: // an old answer first
				old := tid - uint16(1+r.rng.Intn(3))
				if r.coin() {
					old = tid ^ 1<<uint(r.rng.Intn(16))
				}
				hist += fmt.Sprintf("answer after one with id %#x instead of %#x; ", old, tid)
				return r.segment(append(vpTCP(old, f[6], []byte{f[7], 2, 9, 9}), ans...))
			case 5: // a header that announces nonsense, then the answer
				h := vpTCP(tid, f[6], nil)[:7]
				h[4], h[5] = []byte{0, 0, 1, 255}[r.rng.Intn(4)], []byte{0, 0, 0, 255}[r.rng.Intn(4)]
				hist += fmt.Sprintf("header %x before the answer; ", h)
				return r.segment(append(h, ans...))
			case 6:
				hist += "no answer; "
				return nil
			case 7: // a frame without a function code, then the answer
				h := vpTCP(tid+uint16(r.rng.Intn(2)), f[6], nil)
				hist += fmt.Sprintf("frame %x before the answer; ", h)
				return r.segment(append(h, ans...))
			}
			if r.coin() {
				hist += "right answer; "
				return r.segment(ans)
			}
			hist += "write fails; "
			cc.werr, cc.wpart = vpNetTimeout, r.rng.Intn(len(f)+1)
			return nil
		}
	}
	fresh()
	r.plug(p, c)
	stuck := ""
	one := func(i int) (err error) {
		if c.closed > 0 {
			r.check(!p.IsConnected(), "the provider keeps a connection it closed")
			fresh()
			r.plug(p, c)
		}
		c.chunks = append(c.chunks, r.segment(late)...)
		late = nil
		cc, had, sent := c, len(c.consumed), len(c.wrote)
		if r.coin() {
			_, err = p.Send(7, ProtocolDataUnit{3, []byte{0, byte(i), 0, 1}})
		} else {
			_, err = p.SendPdu(7, []byte{3, 0, byte(i), 0, 1})
		}
		if cc.closed == 0 && p.IsConnected() && len(cc.wrote) > sent+1 {
			u := cc.consumed[had:]
			if len(u) < 8 || len(u) != 6+int(u[4])<<8+int(u[5]) || u[0] != cc.wrote[sent] || u[1] != cc.wrote[sent+1] {
				stuck = fmt.Sprintf("it stays connected after an exchange with request %x that consumed %x (error: %v)", cc.wrote[sent:], u, err)
			}
		}
		return
	}
	n := r.n(1, 5)
	for i := 0; i < n; i++ {
		r.in("peer: %s", hist)
		if p := vpTry(func() { one(i) }); p != nil {
			r.check(false, "exchange %d panics: %v", i, p)
		}
		r.in("peer: %s", hist)
		r.check(stuck == "", "%s", stuck)
	}
	bad = false
	if c.werr != nil && c.closed == 0 {
		c.werr = nil
	}
	r.in("peer: %sfrom then on every request is answered correctly at once", hist)
	var err error
	for i := 0; i < 3; i++ {
		err = one(100 + i)
		if _, ok := err.(*ExceptionError); ok {
			err = nil
		}
		if err == nil && i > 0 {
			return
		}
	}
	r.check(false, "after that, exchanges go on failing: %v", err)
}
