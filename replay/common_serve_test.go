package modbus

// What the protocol says a server does with a request: answer data or exception code, effect on the tables.

func vpU16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// serve carries the request out on the oracle.
func (t *vpTable) serve(fc byte, d []byte) (ans []byte, exc byte) {
	switch fc {
	case 1, 2:
		if len(d) != 4 {
			return nil, 3
		}
		a, q := vpU16(d), vpU16(d[2:])
		if q < 1 || q > 2000 {
			return nil, 3
		}
		s, tab := t.cs, t.c
		if fc == 2 {
			s, tab = t.ds, t.d
		}
		if !vpIn(a, q, s, len(tab)) {
			return nil, 2
		}
		o := vpPackBits(tab[a-int(s) : a-int(s)+q])
		return append([]byte{byte(len(o))}, o...), 0
	case 3, 4:
		if len(d) != 4 {
			return nil, 3
		}
		a, q := vpU16(d), vpU16(d[2:])
		if q < 1 || q > 125 {
			return nil, 3
		}
		s, tab := t.hs, t.h
		if fc == 4 {
			s, tab = t.is, t.i
		}
		if !vpIn(a, q, s, len(tab)) {
			return nil, 2
		}
		o := vpWordBytes(tab[a-int(s) : a-int(s)+q])
		return append([]byte{byte(len(o))}, o...), 0
	case 5:
		if len(d) != 4 {
			return nil, 3
		}
		a, v := vpU16(d), vpU16(d[2:])
		if v != 0 && v != 0xFF00 {
			return nil, 3
		}
		if !vpIn(a, 1, t.cs, len(t.c)) {
			return nil, 2
		}
		t.c[a-int(t.cs)] = v != 0
		return append([]byte(nil), d...), 0
	case 15:
		if len(d) < 5 {
			return nil, 3
		}
		a, q := vpU16(d), vpU16(d[2:])
		if q < 1 || q > 1968 || int(d[4]) != (q+7)/8 || len(d) != 5+(q+7)/8 {
			return nil, 3
		}
		if !vpIn(a, q, t.cs, len(t.c)) {
			return nil, 2
		}
		for i := 0; i < q; i++ {
			t.c[a-int(t.cs)+i] = d[5+i/8]>>uint(i%8)&1 == 1
		}
		return append([]byte(nil), d[:4]...), 0
	case 6:
		if len(d) != 4 {
			return nil, 3
		}
		a := vpU16(d)
		if !vpIn(a, 1, t.hs, len(t.h)) {
			return nil, 2
		}
		t.h[a-int(t.hs)] = uint16(vpU16(d[2:]))
		return append([]byte(nil), d...), 0
	case 16:
		if len(d) < 5 {
			return nil, 3
		}
		a, q := vpU16(d), vpU16(d[2:])
		if q < 1 || q > 123 || int(d[4]) != 2*q || len(d) != 5+2*q {
			return nil, 3
		}
		if !vpIn(a, q, t.hs, len(t.h)) {
			return nil, 2
		}
		for i := 0; i < q; i++ {
			t.h[a-int(t.hs)+i] = uint16(vpU16(d[5+2*i:]))
		}
		return append([]byte(nil), d[:4]...), 0
	case 22:
		if len(d) != 6 {
			return nil, 3
		}
		a := vpU16(d)
		if !vpIn(a, 1, t.hs, len(t.h)) {
			return nil, 2
		}
		and, or := uint16(vpU16(d[2:])), uint16(vpU16(d[4:]))
		p := &t.h[a-int(t.hs)]
		*p = *p&and | or&^and
		return append([]byte(nil), d...), 0
	case 23:
		if len(d) < 9 {
			return nil, 3
		}
		ra, rq, wa, wq := vpU16(d), vpU16(d[2:]), vpU16(d[4:]), vpU16(d[6:])
		if rq < 1 || rq > 125 || wq < 1 || wq > 121 || int(d[8]) != 2*wq || len(d) != 9+2*wq {
			return nil, 3
		}
		if !vpIn(ra, rq, t.hs, len(t.h)) || !vpIn(wa, wq, t.hs, len(t.h)) {
			return nil, 2
		}
		for i := 0; i < wq; i++ {
			t.h[wa-int(t.hs)+i] = uint16(vpU16(d[9+2*i:]))
		}
		o := vpWordBytes(t.h[ra-int(t.hs) : ra-int(t.hs)+rq])
		return append([]byte{byte(len(o))}, o...), 0
	}
	return nil, 1
}

var vpCodes = []byte{1, 2, 3, 4, 5, 6, 15, 16, 22, 23}

// request draws a request for function fc, near the tables of t; mostly well formed.
func (t *vpTable) request(r *vpRun, fc byte) []byte {
	span := func(s uint16, n, max int) (uint16, uint16) {
		a, q := t.addr(r, s, n)
		if r.rng.Intn(3) > 0 {
			if int(q) > max {
				q = uint16(max)
			}
			if q == 0 {
				q = 1
			}
		}
		return a, q
	}
	var d []byte
	switch fc {
	case 1:
		a, q := span(t.cs, len(t.c), 2000)
		d = vpBE(a, q)
	case 2:
		a, q := span(t.ds, len(t.d), 2000)
		d = vpBE(a, q)
	case 3:
		a, q := span(t.hs, len(t.h), 125)
		d = vpBE(a, q)
	case 4:
		a, q := span(t.is, len(t.i), 125)
		d = vpBE(a, q)
	case 5:
		a, _ := span(t.cs, len(t.c), 1)
		v := []uint16{0, 0xFF00, 0, 0xFF00, 0, 0xFF00, 1, 0x00FF, 0xFFFF, 0xFF01}[r.rng.Intn(10)]
		d = vpBE(a, v)
	case 15:
		a, q := span(t.cs, len(t.c), 1968)
		n := (int(q) + 7) / 8
		if n > 246 && r.rng.Intn(4) > 0 {
			n = 246
		}
		d = append(append(vpBE(a, q), byte(n)), r.bytes(n)...)
	case 6:
		a, _ := span(t.hs, len(t.h), 1)
		d = vpBE(a, r.u16())
	case 16:
		a, q := span(t.hs, len(t.h), 123)
		n := 2 * int(q)
		if n > 300 {
			n = 246
		}
		d = append(append(vpBE(a, q), byte(n)), r.bytes(n)...)
	case 22:
		a, _ := span(t.hs, len(t.h), 1)
		d = vpBE(a, r.u16(), r.u16())
	case 23:
		a, q := span(t.hs, len(t.h), 125)
		b, p := span(t.hs, len(t.h), 121)
		n := 2 * int(p)
		if n > 300 {
			n = 242
		}
		d = append(append(vpBE(a, q, b, p), byte(n)), r.bytes(n)...)
	}
	switch r.rng.Intn(9) {
	case 0:
		if len(d) > 0 {
			d = d[:len(d)-1]
		}
	case 1:
		d = append(d, r.byte())
	case 2:
		d = r.bytes(r.n(0, 12))
	case 3: // wrong byte count
		k := 4
		if fc == 23 {
			k = 8
		}
		if len(d) > k {
			d[k] = r.byte()
		}
	case 4: // quantity at the limits
		if len(d) >= 4 {
			q := []int{0, 1, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 1968, 1969, 2000, 2001, 32769, 32768, 65535}[r.rng.Intn(19)]
			d[2], d[3] = byte(q>>8), byte(q)
			if len(d) > 4 && r.coin() {
				n := 2 * q
				if fc == 15 {
					n = (q + 7) / 8
				}
				if n > 260 {
					n = n % 256
				}
				if fc == 23 {
					d = append(d[:4:4], vpBE(d2(d, 4), uint16(q))...)
				} else {
					d = d[:4:4]
				}
				d = append(append(d, byte(n)), r.bytes(n)...)
			}
		}
	}
	return d
}

func d2(d []byte, i int) uint16 {
	if len(d) < i+2 {
		return 0
	}
	return uint16(vpU16(d[i:]))
}

// fill puts random content into all tables of node and oracle.
func (t *vpTable) fill(r *vpRun) {
	ok := func(s uint16, n int) bool { return n > 0 && int(s)+n <= 65536 }
	for i := range t.c {
		t.c[i] = r.coin()
	}
	for i := range t.d {
		t.d[i] = r.coin()
	}
	for i := range t.h {
		t.h[i] = r.u16()
	}
	for i := range t.i {
		t.i[i] = r.u16()
	}
	if len(t.c) > 0 && t.node.WriteCoils(t.cs, uint16(len(t.c)), vpPackBits(t.c)) != nil {
		for i := range t.c {
			t.c[i] = false
		}
	}
	if len(t.d) > 0 && t.node.WriteDiscretes(t.ds, uint16(len(t.d)), vpPackBits(t.d)) != nil {
		for i := range t.d {
			t.d[i] = false
		}
	}
	if len(t.h) > 0 && t.node.WriteHoldings(t.hs, t.h) != nil {
		for i := range t.h {
			t.h[i] = 0
		}
	}
	if len(t.i) > 0 && t.node.WriteInputs(t.is, t.i) != nil {
		for i := range t.i {
			t.i[i] = 0
		}
	}
	_ = ok
}
