package modbus

// needs: session_test.go
// needs: client_test.go

import "testing"

func TestVP_C26(t *testing.T) {
	r := vpStart(t, "C26", "one to twelve client operations per run against nodes of a server session, over a connection that delivers the bytes in any pieces; every result and all tables compared with the protocol's")
	r.run(func() {
		for r.more() {
			vpEndToEnd(r)
		}
	})
}

func vpEndToEnd(r *vpRun) {
	v := &vpSrv{s: NewTCPServerSpecial(), tabs: map[byte]*vpTable{}}
	var ids []byte
	base := [4]int{}
	for k := range base {
		base[k] = r.n(0, 200)
		if r.rng.Intn(6) == 0 {
			base[k] = 65535 - r.n(0, 150)
		}
	}
	for k := 0; k < 2; k++ {
		id := byte(1 + r.rng.Intn(247))
		q := func(k, big int) (uint16, uint16) {
			n := r.n(0, 60)
			if r.coin() {
				n = r.n(big/2, big)
			}
			if base[k]+n > 65536 {
				n = 65536 - base[k]
			}
			return uint16(base[k]), uint16(n)
		}
		cs, cn := q(0, 2100)
		ds, dn := q(1, 2100)
		is, in := q(2, 150)
		hs, hn := q(3, 150)
		t := vpMkTable(id, cs, cn, ds, dn, is, in, hs, hn)
		t.fill(r)
		v.tabs[id] = t
		v.s.AddNodes(t.node)
		v.desc += t.desc + " "
		ids = append(ids, id)
	}
	r.slave = func(b byte) byte { return ids[int(b)%len(ids)] }
	r.addr = func(a uint16) uint16 {
		if r.rng.Intn(8) == 0 {
			return a
		}
		x := base[r.rng.Intn(4)] + r.n(-1, 80)
		if x < 0 {
			x = 0
		}
		if x > 65535 {
			x = 65535
		}
		return uint16(x)
	}
	defer func() { r.slave, r.addr = nil, nil }()

	var hist string
	var sp interface{}
	ended := true
	c := &vpConn{}
	c.reply = func(req []byte) [][]byte {
		s := &vpConn{chunks: r.segment(req), end: r.sessEnd()}
		sp, ended = v.run(r, s)
		return r.segment(s.wrote)
	}
	p := NewTCPClientProvider("127.0.0.1:1")
	r.plug(p, c)
	cl := NewClient(p)
	for i := r.n(1, 12); i > 0; i-- {
		call := vpGenCall(r, true)
		if call.kind == vpFIFO {
			continue
		}
		t := v.tabs[call.slave]
		hist += call.desc + "; "
		r.in("%s filled; %s", v.desc, hist)
		want, exc := t.serve(call.fc, call.req)
		b, w, err, cp := call.run(cl)
		r.check(sp == nil && ended, "the session panics (%v) or does not end with its connection", sp)
		r.check(cp == nil, "the client panics: %v", cp)
		if exc != 0 {
			r.check(exc == 2, "the oracle answers exception %d", exc)
			r.check(vpIsExc(err, 2), "the span is outside the node's table; error %v, want exception 2", err)
		} else {
			r.check(err == nil, "the span is in the node's table; error %v", err)
			if call.kind == vpRead {
				if call.words {
					b = vpWordBytes(w)
				}
				r.check(vpSameBytes(b, want[1:]), "the read returns %x, want %x", b, want[1:])
			}
		}
		for _, t := range v.tabs {
			t.same(r, "afterwards")
		}
	}
}
