package modbus

import (
	"errors"
	"fmt"
	"testing"
)

// vpStub is a ClientProvider that records what it is asked to send and answers as told.
type vpStub struct {
	ClientProvider
	n      int
	slave  byte
	fc     byte
	data   []byte
	answer func() ([]byte, error)
	during func()
}

func (s *vpStub) rec(slave, fc byte, data []byte) {
	s.n++
	s.slave, s.fc, s.data = slave, fc, append([]byte(nil), data...)
}

func (s *vpStub) Send(slave byte, req ProtocolDataUnit) (ProtocolDataUnit, error) {
	if s.during != nil { // another client's call happens while this one is on
		s.during()
	}
	s.rec(slave, req.FuncCode, req.Data)
	d, err := s.answer()
	return ProtocolDataUnit{req.FuncCode, d}, err
}

func (s *vpStub) SendPdu(slave byte, pdu []byte) ([]byte, error) {
	if len(pdu) == 0 {
		s.rec(slave, 0, nil)
		return nil, errors.New("empty pdu")
	}
	s.rec(slave, pdu[0], pdu[1:])
	d, err := s.answer()
	if err != nil {
		return nil, err
	}
	return append([]byte{pdu[0]}, d...), nil
}

func (s *vpStub) SendRawFrame([]byte) ([]byte, error) {
	s.n += 100
	return nil, errors.New("unexpected raw frame")
}

const (
	vpRead = iota
	vpWrite
	vpFIFO
)

// vpCall is one client call with what the protocol says about it.
type vpCall struct {
	name  string
	desc  string
	do    func(c Client) (bytes []byte, words []uint16, err error)
	words bool // the result is a word slice
	kind  int
	slave byte
	fc    byte
	req   []byte // request data
	ok    bool   // arguments within the limits (slave id apart)
	want  int    // payload bytes of a read
	echo  []byte
	arg   []byte
	argw  []uint16
}

// vpGenCall draws a call. good: arguments within the limits.
func vpGenCall(r *vpRun, good bool) *vpCall {
	c := &vpCall{slave: r.byte()}
	a := r.u16()
	if r.slave != nil {
		c.slave = r.slave(c.slave)
	}
	if r.addr != nil {
		a = r.addr(a)
	}
	q := func(max int) uint16 {
		if good || r.rng.Intn(3) > 0 {
			return uint16(r.n(1, max))
		}
		return uint16(r.n(0, 65535))
	}
	in := func(v uint16, max int) bool { return v >= 1 && int(v) <= max }
	val := func(n, unit int) []byte {
		if !good {
			switch r.rng.Intn(6) {
			case 0:
				n--
			case 1:
				n++
			case 2:
				n = r.n(0, 300)
			}
		}
		if n > 70000 {
			n = 70000
		}
		return r.bytes(n)
	}
	id := c.slave
	switch k := r.rng.Intn(14); k {
	case 0, 1:
		n := q(2000)
		c.ok, c.want = in(n, 2000), (int(n)+7)/8
		c.req = vpBE(a, n)
		if k == 0 {
			c.name, c.fc = "ReadCoils", 1
			c.do = func(cl Client) ([]byte, []uint16, error) { b, e := cl.ReadCoils(id, a, n); return b, nil, e }
		} else {
			c.name, c.fc = "ReadDiscreteInputs", 2
			c.do = func(cl Client) ([]byte, []uint16, error) { b, e := cl.ReadDiscreteInputs(id, a, n); return b, nil, e }
		}
		c.desc = fmt.Sprintf("%s(%d, %d, %d)", c.name, id, a, n)
	case 2, 3, 4, 5:
		n := q(125)
		c.ok, c.want = in(n, 125), 2*int(n)
		c.req = vpBE(a, n)
		switch k {
		case 2:
			c.name, c.fc = "ReadInputRegistersBytes", 4
			c.do = func(cl Client) ([]byte, []uint16, error) {
				b, e := cl.ReadInputRegistersBytes(id, a, n)
				return b, nil, e
			}
		case 3:
			c.name, c.fc, c.words = "ReadInputRegisters", 4, true
			c.do = func(cl Client) ([]byte, []uint16, error) {
				w, e := cl.ReadInputRegisters(id, a, n)
				return nil, w, e
			}
		case 4:
			c.name, c.fc = "ReadHoldingRegistersBytes", 3
			c.do = func(cl Client) ([]byte, []uint16, error) {
				b, e := cl.ReadHoldingRegistersBytes(id, a, n)
				return b, nil, e
			}
		case 5:
			c.name, c.fc, c.words = "ReadHoldingRegisters", 3, true
			c.do = func(cl Client) ([]byte, []uint16, error) {
				w, e := cl.ReadHoldingRegisters(id, a, n)
				return nil, w, e
			}
		}
		c.desc = fmt.Sprintf("%s(%d, %d, %d)", c.name, id, a, n)
	case 6:
		on := r.coin()
		v := uint16(0)
		if on {
			v = 0xFF00
		}
		c.name, c.fc, c.kind, c.ok = "WriteSingleCoil", 5, vpWrite, true
		c.req = vpBE(a, v)
		c.echo = c.req
		c.desc = fmt.Sprintf("WriteSingleCoil(%d, %d, %v)", id, a, on)
		c.do = func(cl Client) ([]byte, []uint16, error) { return nil, nil, cl.WriteSingleCoil(id, a, on) }
	case 7:
		n := q(1968)
		nb := (int(n) + 7) / 8
		b := val(nb, 1)
		if good && r.coin() {
			b = append(b, r.bytes(r.n(0, 20))...)
		}
		c.name, c.fc, c.kind, c.arg = "WriteMultipleCoils", 15, vpWrite, b
		c.ok = in(n, 1968) && len(b) >= nb
		if c.ok {
			c.req = append(append(vpBE(a, n), byte(nb)), b[:nb]...)
		}
		c.echo = vpBE(a, n)
		c.desc = fmt.Sprintf("WriteMultipleCoils(%d, %d, %d, %d bytes %x)", id, a, n, len(b), b)
		c.do = func(cl Client) ([]byte, []uint16, error) { return nil, nil, cl.WriteMultipleCoils(id, a, n, b) }
	case 8:
		v := r.u16()
		c.name, c.fc, c.kind, c.ok = "WriteSingleRegister", 6, vpWrite, true
		c.req = vpBE(a, v)
		c.echo = c.req
		c.desc = fmt.Sprintf("WriteSingleRegister(%d, %d, %d)", id, a, v)
		c.do = func(cl Client) ([]byte, []uint16, error) { return nil, nil, cl.WriteSingleRegister(id, a, v) }
	case 9, 10:
		n := q(123)
		b := val(2*int(n), 2)
		c.fc, c.kind = 16, vpWrite
		c.echo = vpBE(a, n)
		if k == 9 {
			c.name = "WriteMultipleRegistersBytes"
			c.arg = b
			c.do = func(cl Client) ([]byte, []uint16, error) {
				return nil, nil, cl.WriteMultipleRegistersBytes(id, a, n, b)
			}
		} else {
			b = b[:len(b)/2*2]
			w := make([]uint16, len(b)/2)
			for i := range w {
				w[i] = uint16(b[2*i])<<8 | uint16(b[2*i+1])
			}
			c.name = "WriteMultipleRegisters"
			c.argw = w
			c.do = func(cl Client) ([]byte, []uint16, error) {
				return nil, nil, cl.WriteMultipleRegisters(id, a, n, w)
			}
		}
		c.ok = in(n, 123) && len(b) == 2*int(n)
		if c.ok {
			c.req = append(append(vpBE(a, n), byte(len(b))), b...)
		}
		c.desc = fmt.Sprintf("%s(%d, %d, %d, %d bytes %x)", c.name, id, a, n, len(b), b)
	case 11, 12:
		n, m := q(125), q(121)
		wa := r.u16()
		if r.addr != nil {
			wa = r.addr(wa)
		}
		b := val(2*int(m), 2)
		c.fc, c.arg = 23, b
		c.ok, c.want = in(n, 125) && in(m, 121) && len(b) == 2*int(m), 2*int(n)
		if c.ok {
			c.req = append(append(vpBE(a, n, wa, m), byte(len(b))), b...)
		}
		if k == 11 {
			c.name = "ReadWriteMultipleRegistersBytes"
			c.do = func(cl Client) ([]byte, []uint16, error) {
				x, e := cl.ReadWriteMultipleRegistersBytes(id, a, n, wa, m, b)
				return x, nil, e
			}
		} else {
			c.name, c.words = "ReadWriteMultipleRegisters", true
			c.do = func(cl Client) ([]byte, []uint16, error) {
				x, e := cl.ReadWriteMultipleRegisters(id, a, n, wa, m, b)
				return nil, x, e
			}
		}
		c.desc = fmt.Sprintf("%s(%d, %d, %d, %d, %d, %d bytes %x)", c.name, id, a, n, wa, m, len(b), b)
	case 13:
		if r.coin() {
			and, or := r.u16(), r.u16()
			c.name, c.fc, c.kind, c.ok = "MaskWriteRegister", 22, vpWrite, true
			c.req = vpBE(a, and, or)
			c.echo = c.req
			c.desc = fmt.Sprintf("MaskWriteRegister(%d, %d, %#x, %#x)", id, a, and, or)
			c.do = func(cl Client) ([]byte, []uint16, error) { return nil, nil, cl.MaskWriteRegister(id, a, and, or) }
		} else {
			c.name, c.fc, c.kind, c.ok = "ReadFIFOQueue", 24, vpFIFO, true
			c.req = vpBE(a)
			c.desc = fmt.Sprintf("ReadFIFOQueue(%d, %d)", id, a)
			c.do = func(cl Client) ([]byte, []uint16, error) { b, e := cl.ReadFIFOQueue(id, a); return b, nil, e }
		}
	}
	return c
}

// vpClient builds a client with the given limits (or the defaults).
func vpClient(r *vpRun, s *vpStub) (cl Client, min, max byte, desc string) {
	min, max = 1, 247
	var opts []Option
	if r.rng.Intn(3) == 0 {
		min = r.byte()
		opts = append(opts, WithAddressMin(min))
	}
	if r.rng.Intn(3) == 0 {
		max = r.byte()
		opts = append(opts, WithAddressMax(max))
	}
	return NewClient(s, opts...), min, max, fmt.Sprintf("limits %d..%d ", min, max)
}

// allowed: the slave id is one this kind of call may use.
func (c *vpCall) allowed(min, max byte) bool {
	if c.kind == vpWrite {
		return c.slave <= max
	}
	return c.slave >= min && c.slave <= max
}

// right is the answer of a correct server.
func (c *vpCall) right(r *vpRun) []byte {
	switch c.kind {
	case vpWrite:
		return append([]byte(nil), c.echo...)
	case vpFIFO:
		n := r.n(0, 31)
		return append(vpBE(uint16(2+2*n), uint16(n)), r.bytes(2*n)...)
	}
	return append([]byte{byte(c.want)}, r.bytes(c.want)...)
}

// payload: what a read must return for this answer, ok false if it must fail.
func (c *vpCall) payload(d []byte) ([]byte, bool) {
	if c.kind == vpFIFO {
		if len(d) < 4 {
			return nil, false
		}
		bc, n := int(d[0])<<8|int(d[1]), int(d[2])<<8|int(d[3])
		if bc != len(d)-2 || n > 31 || bc != 2+2*n {
			return nil, false
		}
		return d[4:], true
	}
	if len(d) < 1 || int(d[0]) != len(d)-1 || int(d[0]) != c.want {
		return nil, false
	}
	return d[1:], true
}

func (c *vpCall) run(cl Client) (b []byte, w []uint16, err error, p interface{}) {
	p = vpTry(func() { b, w, err = c.do(cl) })
	return
}

func TestVP_C01(t *testing.T) {
	r := vpStart(t, "C01", "calls of all client operations with arguments inside the limits; non-trivial: the call reaches the provider")
	r.run(func() {
		for r.more() {
			s := &vpStub{}
			c := vpGenCall(r, true)
			if c.slave == 0 && c.kind != vpWrite || c.slave > 247 {
				continue
			}
			r.in("%s", c.desc)
			arg := append([]byte(nil), c.arg...)
			argw := append([]uint16(nil), c.argw...)
			s.answer = func() ([]byte, error) {
				if r.coin() {
					return nil, errors.New("no answer")
				}
				return c.right(r), nil
			}
			if r.rng.Intn(4) == 0 {
				o := vpGenCall(r, true)
				r.in("%s; meanwhile on another client: %s", c.desc, o.desc)
				s.during = func() {
					o.run(NewClient(&vpStub{answer: func() ([]byte, error) { return nil, errors.New("no answer") }}))
				}
			}
			_, _, _, p := c.run(NewClient(s))
			r.check(p == nil, "panic: %v", p)
			r.check(s.n == 1, "%d requests were sent, want 1", s.n)
			r.check(s.slave == c.slave, "request addressed to %d, want %d", s.slave, c.slave)
			r.check(s.fc == c.fc && vpSameBytes(s.data, c.req), "request is function %d data %x, want function %d data %x", s.fc, s.data, c.fc, c.req)
			r.check(vpSameBytes(arg, c.arg) && vpSameWords(argw, c.argw), "the caller's value was changed")
		}
	})
}

func TestVP_C02(t *testing.T) {
	r := vpStart(t, "C02", "calls with slave ids, limits, quantities and value sizes inside and outside the protocol limits")
	r.run(func() {
		for r.more() {
			s := &vpStub{}
			cl, min, max, d := vpClient(r, s)
			c := vpGenCall(r, r.rng.Intn(3) == 0)
			r.in("%s%s", d, c.desc)
			s.answer = func() ([]byte, error) { return c.right(r), nil }
			b, w, err, p := c.run(cl)
			r.check(p == nil, "panic: %v", p)
			if c.allowed(min, max) && c.ok {
				r.check(s.n > 0, "refused without sending: %v", err)
				r.check(err == nil, "a correct answer was refused: %v", err)
			} else {
				r.check(s.n == 0, "a request was sent: function %d data %x", s.fc, s.data)
				r.check(err != nil && b == nil && w == nil, "not refused: %x %x %v", b, w, err)
			}
		}
	})
}

// vpDamage changes an answer.
func vpDamage(r *vpRun, d []byte) []byte {
	d = append([]byte(nil), d...)
	switch r.rng.Intn(8) {
	case 0:
		if len(d) > 1 {
			d = d[:len(d)-1]
		}
	case 1:
		d = append(d, r.byte())
	case 2:
		d = r.bytes(r.n(1, 12))
	case 3:
		d = d[:1+r.rng.Intn(len(d))]
	case 4, 5:
		d[r.rng.Intn(len(d))] = r.byte()
	case 6: // consistent count, other length
		n := r.n(0, 255)
		d = append([]byte{byte(n)}, r.bytes(n)...)
	case 7: // consistent as a FIFO answer
		n := r.n(0, 40)
		d = append(vpBE(uint16(2+2*n), uint16(n)), r.bytes(2*n)...)
		if r.coin() {
			d[3] = r.byte()
		}
	}
	if len(d) == 0 {
		d = []byte{0}
	}
	return d
}

func vpAnswers(r *vpRun, writes bool) {
	for r.more() {
		s := &vpStub{}
		c := vpGenCall(r, true)
		if (c.kind == vpWrite) != writes {
			continue
		}
		if c.slave == 0 || c.slave > 247 {
			c.slave = 1
			continue
		}
		var ans []byte
		var fail error
		ans = c.right(r)
		if r.rng.Intn(4) > 0 {
			ans = vpDamage(r, ans)
		}
		if r.rng.Intn(12) == 0 {
			fail = errors.New("transport failure")
			if r.coin() {
				ans = nil
			}
		}
		keep := append([]byte(nil), ans...)
		s.answer = func() ([]byte, error) { return ans, fail }
		r.in("%s answered %x, %v", c.desc, ans, fail)
		b, w, err, p := c.run(NewClient(s))
		r.check(p == nil, "panic: %v", p)
		if writes {
			want := fail == nil && vpSameBytes(keep, c.echo)
			r.check((err == nil) == want, "error is %v, but success must be %v (echo %x)", err, want, c.echo)
			continue
		}
		pay, ok := c.payload(keep)
		if fail != nil {
			ok = false
		}
		if !ok {
			r.check(err != nil && b == nil && w == nil, "must fail without a result, got %x %x %v", b, w, err)
			continue
		}
		r.check(err == nil, "a consistent answer was refused: %v", err)
		if c.words {
			b = vpWordBytes(w)
		}
		r.check(vpSameBytes(b, pay), "result is %x, want %x", b, pay)
	}
}

func TestVP_C03(t *testing.T) {
	r := vpStart(t, "C03", "reads answered with correct, damaged and random response data")
	r.run(func() { vpAnswers(r, false) })
}

func TestVP_C04(t *testing.T) {
	r := vpStart(t, "C04", "writes answered with exact, damaged and random echoes, and provider errors")
	r.run(func() { vpAnswers(r, true) })
}
