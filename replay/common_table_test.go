package modbus

import "fmt"

// vpTable is the oracle: plain slices, one element per bit or register.
type vpTable struct {
	cs, ds, is, hs uint16
	c, d           []bool
	i, h           []uint16
	pc, pd         int // storage bits
	node           *NodeRegister
	desc           string
}

func vpNewTable(r *vpRun) *vpTable {
	q := func() (uint16, uint16) {
		var s, n int
		switch r.rng.Intn(6) {
		case 0:
			n = r.n(0, 20)
			s = 65536 - n - r.rng.Intn(3)
			if s < 0 {
				s = 0
			}
			if s > 65535 {
				s = 65535
			}
		case 1:
			s, n = r.n(0, 65535), r.n(0, 65535)
		default:
			s, n = r.n(0, 40), r.n(0, 80)
		}
		return uint16(s), uint16(n)
	}
	cs, cn := q()
	ds, dn := q()
	is, in := q()
	hs, hn := q()
	return vpMkTable(1, cs, cn, ds, dn, is, in, hs, hn)
}

func vpMkTable(slave byte, cs, cn, ds, dn, is, in, hs, hn uint16) *vpTable {
	t := &vpTable{cs: cs, ds: ds, is: is, hs: hs, c: make([]bool, cn), d: make([]bool, dn), i: make([]uint16, in), h: make([]uint16, hn)}
	t.node = NewNodeRegister(slave, cs, cn, ds, dn, is, in, hs, hn)
	t.desc = fmt.Sprintf("NewNodeRegister(%d, coils %d+%d, discretes %d+%d, inputs %d+%d, holdings %d+%d)", slave, cs, cn, ds, dn, is, in, hs, hn)
	return t
}

func vpIn(addr, q int, s uint16, n int) bool { return addr >= int(s) && addr+q <= int(s)+n }

// addr draws an address near the table.
func (t *vpTable) addr(r *vpRun, s uint16, n int) (uint16, uint16) {
	a := int(s) + r.n(-3, n+3)
	q := r.n(0, n+3)
	if r.rng.Intn(3) > 0 && n > 0 {
		a = int(s) + r.rng.Intn(n)
		q = r.n(0, n-(a-int(s)))
	}
	if r.rng.Intn(12) == 0 {
		a, q = r.n(0, 65535), r.n(0, 65535)
	}
	if a < 0 || a > 65535 {
		a = r.n(0, 65535)
	}
	if q > 65535 {
		q = 65535
	}
	return uint16(a), uint16(q)
}

func vpPackBits(b []bool) []byte {
	o := make([]byte, (len(b)+7)/8)
	for i, v := range b {
		if v {
			o[i/8] |= 1 << uint(i%8)
		}
	}
	return o
}

func vpWordBytes(w []uint16) []byte {
	o := []byte{}
	for _, v := range w {
		o = append(o, byte(v>>8), byte(v))
	}
	return o
}

// same compares the whole contents of the node with the oracle.
func (t *vpTable) same(r *vpRun, what string) {
	if n := len(t.c); n > 0 {
		g, err := t.node.ReadCoils(t.cs, uint16(n))
		if !(err != nil && int(t.cs)+n > 65536) {
			r.check(err == nil && vpSameBytes(g, vpPackBits(t.c)), "%s: coils are %x (%v), want %x", what, g, err, vpPackBits(t.c))
		}
	}
	if n := len(t.d); n > 0 {
		g, err := t.node.ReadDiscretes(t.ds, uint16(n))
		r.check(err == nil && vpSameBytes(g, vpPackBits(t.d)), "%s: discretes are %x (%v), want %x", what, g, err, vpPackBits(t.d))
	}
	if n := len(t.i); n > 0 {
		g, err := t.node.ReadInputs(t.is, uint16(n))
		r.check(err == nil && vpSameWords(g, t.i), "%s: inputs are %x (%v), want %x", what, g, err, t.i)
	}
	if n := len(t.h); n > 0 {
		g, err := t.node.ReadHoldings(t.hs, uint16(n))
		r.check(err == nil && vpSameWords(g, t.h), "%s: holdings are %x (%v), want %x", what, g, err, t.h)
	}
}

func vpBE(v ...uint16) []byte { return vpWordBytes(v) }
