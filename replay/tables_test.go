package modbus

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"
)

// op runs one operation on node and oracle. kinds: which tables.
func (t *vpTable) op(r *vpRun, bits, regs bool) {
	k := r.rng.Intn(16)
	for {
		isBit := k < 8
		if isBit && bits || !isBit && regs {
			break
		}
		k = r.rng.Intn(16)
	}
	nd := t.node
	bad := func(err error, why string) {
		r.check(vpIsExc(err, 2), "%s: error %v, want illegal data address", why, err)
	}
	bitOps := func(s uint16, tb []bool, wr func(a, q uint16, v []byte) error, rd func(a, q uint16) ([]byte, error), wr1 func(uint16, bool) error, rd1 func(uint16) (bool, error), sub int, name string) {
		a, q := t.addr(r, s, len(tb))
		switch sub {
		case 0:
			v := r.bytes((int(q)+7)/8 + r.rng.Intn(3) - r.rng.Intn(2))
			if r.rng.Intn(3) > 0 {
				v = r.bytes((int(q) + 7) / 8)
			}
			r.in("%s; Write%s(%d, %d, %x)", t.desc, name, a, q, v)
			o := append([]byte(nil), v...)
			err := wr(a, q, v)
			r.check(vpSameBytes(v, o), "the argument was changed")
			if vpIn(int(a), int(q), s, len(tb)) && len(v)*8 >= int(q) {
				r.check(err == nil, "in range: error %v", err)
				for i := 0; i < int(q); i++ {
					tb[int(a)-int(s)+i] = v[i/8]>>uint(i%8)&1 == 1
				}
			} else {
				bad(err, "out of range or short value")
			}
		case 1:
			r.in("%s; Read%s(%d, %d)", t.desc, name, a, q)
			g, err := rd(a, q)
			if vpIn(int(a), int(q), s, len(tb)) {
				w := vpPackBits(tb[int(a)-int(s) : int(a)-int(s)+int(q)])
				r.check(err == nil && vpSameBytes(g, w), "got %x (%v), want %x", g, err, w)
			} else {
				bad(err, "out of range")
				r.check(len(g) == 0, "data %x with an error", g)
			}
		case 2:
			v := r.coin()
			r.in("%s; WriteSingle%s(%d, %v)", t.desc, name, a, v)
			err := wr1(a, v)
			if vpIn(int(a), 1, s, len(tb)) {
				r.check(err == nil, "in range: error %v", err)
				tb[int(a)-int(s)] = v
			} else {
				bad(err, "out of range")
			}
		default:
			r.in("%s; ReadSingle%s(%d)", t.desc, name, a)
			g, err := rd1(a)
			if vpIn(int(a), 1, s, len(tb)) {
				r.check(err == nil && g == tb[int(a)-int(s)], "got %v (%v), want %v", g, err, tb[int(a)-int(s)])
			} else {
				bad(err, "out of range")
			}
		}
	}
	regOps := func(s uint16, tb []uint16, wrB func(a, q uint16, v []byte) error, wr func(a uint16, v []uint16) error, rdB func(a, q uint16) ([]byte, error), rd func(a, q uint16) ([]uint16, error), sub int, name string) {
		a, q := t.addr(r, s, len(tb))
		switch sub {
		case 0:
			v := r.bytes(int(q) * 2)
			if r.rng.Intn(6) == 0 {
				v = r.bytes(r.n(0, int(q)*2+2))
			}
			r.in("%s; Write%sBytes(%d, %d, %x)", t.desc, name, a, q, v)
			o := append([]byte(nil), v...)
			err := wrB(a, q, v)
			r.check(vpSameBytes(v, o), "the argument was changed")
			if vpIn(int(a), int(q), s, len(tb)) && len(v) == int(q)*2 {
				r.check(err == nil, "in range: error %v", err)
				for i := 0; i < int(q); i++ {
					tb[int(a)-int(s)+i] = uint16(v[2*i])<<8 | uint16(v[2*i+1])
				}
			} else {
				bad(err, "out of range or wrong value length")
			}
		case 1:
			v := r.words(int(q))
			r.in("%s; Write%s(%d, %x)", t.desc, name, a, v)
			o := append([]uint16(nil), v...)
			err := wr(a, v)
			r.check(vpSameWords(v, o), "the argument was changed")
			if vpIn(int(a), int(q), s, len(tb)) {
				r.check(err == nil, "in range: error %v", err)
				copy(tb[int(a)-int(s):], v)
				for i := range v {
					v[i] ^= 0xa5a5 // the node must not keep a reference
				}
			} else {
				bad(err, "out of range")
			}
		case 2:
			r.in("%s; Read%sBytes(%d, %d)", t.desc, name, a, q)
			g, err := rdB(a, q)
			if vpIn(int(a), int(q), s, len(tb)) {
				w := vpWordBytes(tb[int(a)-int(s) : int(a)-int(s)+int(q)])
				r.check(err == nil && vpSameBytes(g, w), "got %x (%v), want %x", g, err, w)
				for i := range g {
					g[i] ^= 0x5a
				}
			} else {
				bad(err, "out of range")
			}
		default:
			r.in("%s; Read%s(%d, %d)", t.desc, name, a, q)
			g, err := rd(a, q)
			if vpIn(int(a), int(q), s, len(tb)) {
				w := tb[int(a)-int(s) : int(a)-int(s)+int(q)]
				r.check(err == nil && vpSameWords(g, w), "got %x (%v), want %x", g, err, w)
				for i := range g {
					g[i] ^= 0x5a5a
				}
			} else {
				bad(err, "out of range")
			}
		}
	}
	switch k / 4 {
	case 0:
		bitOps(t.cs, t.c, nd.WriteCoils, nd.ReadCoils, nd.WriteSingleCoil, nd.ReadSingleCoil, k%4, "Coils")
	case 1:
		bitOps(t.ds, t.d, nd.WriteDiscretes, nd.ReadDiscretes, nd.WriteSingleDiscrete, nd.ReadSingleDiscrete, k%4, "Discretes")
	case 2:
		regOps(t.hs, t.h, nd.WriteHoldingsBytes, nd.WriteHoldings, nd.ReadHoldingsBytes, nd.ReadHoldings, k%4, "Holdings")
	default:
		regOps(t.is, t.i, nd.WriteInputsBytes, nd.WriteInputs, nd.ReadInputsBytes, nd.ReadInputs, k%4, "Inputs")
	}
}

// vpTables runs sequences of operations on nodes of many shapes.
func vpTables(r *vpRun, bits, regs bool) {
	for r.more() {
		t := vpNewTable(r)
		small := len(t.c)+len(t.d)+len(t.i)+len(t.h) < 2000
		n := 40
		if !small {
			n = 4
		}
		for i := 0; i < n; i++ {
			t.op(r, bits, regs)
			if small {
				t.same(r, "after the operation")
			}
		}
		t.same(r, "at the end of the sequence")
	}
}

func TestVP_C16(t *testing.T) {
	r := vpStart(t, "C16", "sequences of bit-table operations on nodes with random bases and sizes (also at the top of the address space), whole node compared with an oracle after each; all (start, count, value bit) writes on a 20-bit table")
	r.run(func() {
		for s := 0; s < 20; s++ {
			for n := 0; s+n <= 20; n++ {
				tb := vpMkTable(1, 5, 20, 3, 20, 0, 0, 0, 0)
				v := []byte{0xa5, 0x3c, 0xf1}
				for i := range tb.c {
					tb.c[i], tb.d[i] = i%3 == 0, i%3 != 0
				}
				tb.node.WriteCoils(5, 20, vpPackBits(tb.c))
				tb.node.WriteDiscretes(3, 20, vpPackBits(tb.d))
				r.in("%s; WriteCoils/WriteDiscretes(base+%d, %d, %x)", tb.desc, s, n, v)
				e1 := tb.node.WriteCoils(uint16(5+s), uint16(n), v)
				e2 := tb.node.WriteDiscretes(uint16(3+s), uint16(n), v)
				r.check(e1 == nil && e2 == nil, "errors %v %v", e1, e2)
				for i := 0; i < n; i++ {
					tb.c[s+i] = v[i/8]>>uint(i%8)&1 == 1
					tb.d[s+i] = tb.c[s+i]
				}
				tb.same(r, "after the writes")
				g, err := tb.node.ReadCoils(uint16(5+s), uint16(n))
				r.check(err == nil && vpSameBytes(g, vpPackBits(tb.c[s:s+n])), "ReadCoils(base+%d, %d) = %x %v", s, n, g, err)
				g, err = tb.node.ReadDiscretes(uint16(3+s), uint16(n))
				r.check(err == nil && vpSameBytes(g, vpPackBits(tb.d[s:s+n])), "ReadDiscretes(base+%d, %d) = %x %v", s, n, g, err)
			}
		}
		vpTables(r, true, false)
	})
}

func TestVP_C17(t *testing.T) {
	r := vpStart(t, "C17", "sequences of register-table operations on nodes with random bases and sizes (also at the top of the address space), whole node compared with an oracle after each; returned slices are overwritten")
	r.run(func() { vpTables(r, false, true) })
}

func TestVP_C18(t *testing.T) {
	r := vpStart(t, "C18", "mask writes with random and single-bit masks on random nodes, directly and as function 22 requests; whole node compared with an oracle")
	r.run(func() {
		for r.more() {
			tb := vpNewTable(r)
			if len(tb.h) > 3000 {
				continue
			}
			for i := 0; i < 20; i++ {
				v := r.words(len(tb.h))
				if len(v) > 0 && int(tb.hs)+len(v) <= 65536 {
					if tb.node.WriteHoldings(tb.hs, v) == nil {
						copy(tb.h, v)
					}
				}
				a, _ := tb.addr(r, tb.hs, len(tb.h))
				and, or := r.u16(), r.u16()
				if r.coin() {
					and, or = 1<<uint(r.rng.Intn(16)), 1<<uint(r.rng.Intn(16))
				}
				r.in("%s holdings %x; MaskWriteHolding(%d, and %#x, or %#x)", tb.desc, tb.h, a, and, or)
				var err error
				if i%2 == 0 {
					err = tb.node.MaskWriteHolding(a, and, or)
				} else { // the same through the server's function 22
					_, err = funcMaskWriteRegisters(tb.node, append(make([]byte, 0, 260), byte(a>>8), byte(a), byte(and>>8), byte(and), byte(or>>8), byte(or)))
				}
				if vpIn(int(a), 1, tb.hs, len(tb.h)) {
					r.check(err == nil, "in range: error %v", err)
					p := &tb.h[int(a)-int(tb.hs)]
					*p = *p&and | or&^and
				} else {
					r.check(vpIsExc(err, 2), "out of range: error %v", err)
				}
				tb.same(r, "after the mask write")
			}
		}
	})
}

func TestVP_C19(t *testing.T) {
	r := vpStart(t, "C19", "operations with addresses and counts around and far beyond the table bounds (sums beyond 65535 included); whole node compared with an oracle")
	r.run(func() {
		for _, b := range []struct{ s, n uint16 }{{0, 0}, {0, 10}, {65530, 6}, {65526, 10}, {65535, 1}, {100, 50}, {65000, 1000}, {1, 65535}, {0, 65535}} {
			tb := vpMkTable(1, b.s, b.n, b.s, b.n, b.s, b.n, b.s, b.n)
			for _, a := range []int{0, 1, 9, 10, 11, 99, 100, 149, 150, 65525, 65526, 65529, 65530, 65534, 65535} {
				for _, q := range []int{0, 1, 2, 6, 7, 10, 11, 50, 51, 65535, 65530, 65526, 16, 32} {
					r.in("%s; all operations at (%d, %d)", tb.desc, a, q)
					A, Q := uint16(a), uint16(q)
					in := vpIn(a, q, b.s, int(b.n))
					one := vpIn(a, 1, b.s, int(b.n))
					chk := func(name string, in bool, err error) {
						if in {
							r.check(err == nil, "%s in range: %v", name, err)
						} else {
							r.check(vpIsExc(err, 2), "%s out of range: %v", name, err)
						}
					}
					n := tb.node
					chk("WriteCoils", in, n.WriteCoils(A, Q, make([]byte, (q+7)/8)))
					chk("WriteDiscretes", in, n.WriteDiscretes(A, Q, make([]byte, (q+7)/8)))
					chk("WriteHoldingsBytes", in, n.WriteHoldingsBytes(A, Q, make([]byte, 2*q)))
					chk("WriteInputsBytes", in, n.WriteInputsBytes(A, Q, make([]byte, 2*q)))
					chk("WriteHoldings", in, n.WriteHoldings(A, make([]uint16, q)))
					chk("WriteInputs", in, n.WriteInputs(A, make([]uint16, q)))
					chk("MaskWriteHolding", one, n.MaskWriteHolding(A, 0, 0))
					chk("WriteSingleCoil", one, n.WriteSingleCoil(A, false))
					chk("WriteSingleDiscrete", one, n.WriteSingleDiscrete(A, false))
					_, err := n.ReadCoils(A, Q)
					chk("ReadCoils", in, err)
					_, err = n.ReadDiscretes(A, Q)
					chk("ReadDiscretes", in, err)
					_, err = n.ReadHoldings(A, Q)
					chk("ReadHoldings", in, err)
					_, err = n.ReadInputs(A, Q)
					chk("ReadInputs", in, err)
					_, err = n.ReadHoldingsBytes(A, Q)
					chk("ReadHoldingsBytes", in, err)
					_, err = n.ReadInputsBytes(A, Q)
					chk("ReadInputsBytes", in, err)
					_, err = n.ReadSingleCoil(A)
					chk("ReadSingleCoil", one, err)
					_, err = n.ReadSingleDiscrete(A)
					chk("ReadSingleDiscrete", one, err)
				}
			}
			// more values than there are addresses
			for _, q := range []int{65536, 65537, 65542, 65546, 70000, 131072} {
				v, vb := make([]uint16, q), make([]byte, 2*q)
				for i := range v {
					v[i], vb[2*i] = uint16(i)|0xa000, 0xa5
				}
				for _, a := range []int{0, 1, 100, 65000, 65526, 65530, 65535, int(b.s)} {
					r.in("%s; writes of %d values at %d", tb.desc, q, a)
					r.check(vpIsExc(tb.node.WriteHoldings(uint16(a), v), 2), "WriteHoldings out of range: no exception")
					r.check(vpIsExc(tb.node.WriteInputs(uint16(a), v), 2), "WriteInputs out of range: no exception")
					r.check(vpIsExc(tb.node.WriteHoldingsBytes(uint16(a), uint16(q), vb), 2), "WriteHoldingsBytes of %d bytes: no exception", len(vb))
					r.check(vpIsExc(tb.node.WriteInputsBytes(uint16(a), uint16(q), vb), 2), "WriteInputsBytes of %d bytes: no exception", len(vb))
				}
				tb.same(r, "after the refused writes")
			}
		}
		vpTables(r, true, true)
	})
}

// race: C20
func TestVP_C20(t *testing.T) {
	r := vpStart(t, "C20", "goroutines hammer one node; every read must see whole writes only (race detector on)")
	r.run(func() {
		blocked := func(what string, f func()) {
			done := make(chan struct{})
			go func() { f(); close(done) }()
			select {
			case <-done:
			case <-time.After(30 * time.Second):
				buf := make([]byte, 4000)
				r.check(false, "%s: a call never returned:\n%s", what, buf[:runtime.Stack(buf, true)])
			}
		}
		// refused and accepted operations leave the node unlocked
		nd0 := NewNodeRegister(1, 3, 20, 3, 20, 3, 20, 3, 20)
		for _, a := range []uint16{0, 3, 10, 22, 23, 65535} {
			for _, q := range []uint16{0, 1, 13, 21, 65535} {
				b, w := make([]byte, 2*int(q)), make([]uint16, q)
				for name, f := range map[string]func(){
					"WriteCoils": func() { nd0.WriteCoils(a, q, b) }, "WriteDiscretes": func() { nd0.WriteDiscretes(a, q, b) },
					"WriteCoils, no values": func() { nd0.WriteCoils(a, q, nil) }, "WriteDiscretes, no values": func() { nd0.WriteDiscretes(a, q, nil) },
					"WriteHoldingsBytes": func() { nd0.WriteHoldingsBytes(a, q, b) }, "WriteInputsBytes": func() { nd0.WriteInputsBytes(a, q, b) },
					"WriteHoldingsBytes, no values": func() { nd0.WriteHoldingsBytes(a, q, nil) }, "WriteInputsBytes, no values": func() { nd0.WriteInputsBytes(a, q, nil) },
					"WriteHoldings": func() { nd0.WriteHoldings(a, w) }, "WriteInputs": func() { nd0.WriteInputs(a, w) },
					"ReadCoils": func() { nd0.ReadCoils(a, q) }, "ReadDiscretes": func() { nd0.ReadDiscretes(a, q) },
					"ReadHoldings": func() { nd0.ReadHoldings(a, q) }, "ReadInputs": func() { nd0.ReadInputs(a, q) },
					"ReadHoldingsBytes": func() { nd0.ReadHoldingsBytes(a, q) }, "ReadInputsBytes": func() { nd0.ReadInputsBytes(a, q) },
					"MaskWriteHolding": func() { nd0.MaskWriteHolding(a, q, q) }, "SlaveID": func() { nd0.SlaveID() },
					"ReadSingleCoil": func() { nd0.ReadSingleCoil(a) }, "ReadSingleDiscrete": func() { nd0.ReadSingleDiscrete(a) },
					"WriteSingleCoil": func() { nd0.WriteSingleCoil(a, true) }, "WriteSingleDiscrete": func() { nd0.WriteSingleDiscrete(a, true) },
				} {
					r.in("coils, discretes, inputs, holdings 3+20: %s at (%d, %d), then SetSlaveID", name, a, q)
					blocked("afterwards", func() { f(); nd0.SetSlaveID(7) })
				}
			}
		}
		for r.more() {
			const N = 24
			nd := NewNodeRegister(1, 3, N*8, 5, N*8, 7, N, 9, N)
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			note := func(f string, a ...interface{}) {
				mu.Lock()
				if bad == "" {
					bad = fmt.Sprintf(f, a...)
				}
				mu.Unlock()
			}
			r.in("8 writers and 8 readers on one node, 60 rounds, seed %d", r.rng.Int63())
			fill := func(b byte, n int) []byte {
				v := make([]byte, n)
				for i := range v {
					v[i] = b
				}
				return v
			}
			uni := func(what string, b []byte, err error) {
				if err != nil {
					note("%s: %v", what, err)
					return
				}
				for _, x := range b {
					if x != b[0] {
						note("%s saw a partial write: %x", what, b)
						return
					}
				}
			}
			for g := 0; g < 4; g++ {
				wg.Add(4)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						v := byte(0xff * (i & 1))
						nd.WriteCoils(3, N*8, fill(v, N))
						nd.WriteDiscretes(5, N*8, fill(v, N))
						w := make([]uint16, N)
						for j := range w {
							w[j] = uint16(v)<<8 | uint16(v)
						}
						nd.WriteInputs(7, w)
						nd.WriteHoldingsBytes(9, N, fill(v, 2*N))
						nd.SetSlaveID(byte(i))
					}
				}(g)
				go func() {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						b, err := nd.ReadCoils(3, N*8)
						uni("ReadCoils", b, err)
						b, err = nd.ReadDiscretes(5, N*8)
						uni("ReadDiscretes", b, err)
						b, err = nd.ReadInputsBytes(7, N)
						uni("ReadInputsBytes", b, err)
						b, err = nd.ReadHoldingsBytes(9, N)
						uni("ReadHoldingsBytes", b, err)
					}
				}()
				go func() {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						w, err := nd.ReadHoldings(9, N)
						uni("ReadHoldings", vpWordBytes(w), err)
						w, err = nd.ReadInputs(7, N)
						uni("ReadInputs", vpWordBytes(w), err)
						nd.SlaveID()
						nd.ReadSingleCoil(4)
						nd.ReadSingleDiscrete(6)
					}
				}()
				go func() {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						nd.WriteInputsBytes(7, N, fill(byte(0xff*(i&1)), 2*N))
						w := make([]uint16, N)
						nd.WriteHoldings(9, w)
						nd.CoilsAddrParam()
						nd.HoldingAddrParam()
						nd.DiscreteParam()
						nd.InputAddrParam()
					}
				}()
			}
			blocked("concurrent operations", wg.Wait)
			r.check(bad == "", "%s", bad)
			// read-modify-write: disjoint masks from concurrent writers all survive
			nd = NewNodeRegister(1, 0, 16, 0, 16, 0, 1, 0, 1)
			for b := 0; b < 16; b++ {
				wg.Add(1)
				go func(b uint) {
					defer wg.Done()
					for i := 0; i < 40; i++ {
						nd.MaskWriteHolding(0, ^uint16(1<<b), 1<<b)
						nd.WriteSingleCoil(uint16(b), true)
						nd.WriteSingleDiscrete(uint16(b), true)
					}
				}(uint(b))
			}
			blocked("concurrent operations", wg.Wait)
			w, _ := nd.ReadHoldings(0, 1)
			c, _ := nd.ReadCoils(0, 16)
			d, _ := nd.ReadDiscretes(0, 16)
			r.check(w[0] == 0xffff && c[0] == 0xff && c[1] == 0xff && d[0] == 0xff && d[1] == 0xff, "a concurrent update was lost: %x %x %x", w, c, d)
		}
	})
}

func TestVP_C21(t *testing.T) {
	r := vpStart(t, "C21", "constructor arguments at boundaries and at random; every element read back")
	r.run(func() {
		for r.more() {
			tb := vpNewTable(r)
			r.in("%s", tb.desc)
			n := tb.node
			r.check(n.SlaveID() == 1, "slave id %d", n.SlaveID())
			a, q := n.CoilsAddrParam()
			r.check(a == tb.cs && int(q) == len(tb.c), "CoilsAddrParam %d %d", a, q)
			a, q = n.DiscreteParam()
			r.check(a == tb.ds && int(q) == len(tb.d), "DiscreteParam %d %d", a, q)
			a, q = n.InputAddrParam()
			r.check(a == tb.is && int(q) == len(tb.i), "InputAddrParam %d %d", a, q)
			a, q = n.HoldingAddrParam()
			r.check(a == tb.hs && int(q) == len(tb.h), "HoldingAddrParam %d %d", a, q)
			id := r.byte()
			n.SetSlaveID(id)
			r.check(n.SlaveID() == id, "SetSlaveID(%d) then SlaveID() = %d", id, n.SlaveID())
			for _, tab := range []struct {
				s  uint16
				n  int
				nm string
				f  func(a, q uint16) (interface{}, error)
			}{
				{tb.cs, len(tb.c), "coils", func(a, q uint16) (interface{}, error) { return n.ReadCoils(a, q) }},
				{tb.ds, len(tb.d), "discretes", func(a, q uint16) (interface{}, error) { return n.ReadDiscretes(a, q) }},
				{tb.is, len(tb.i), "inputs", func(a, q uint16) (interface{}, error) { return n.ReadInputs(a, q) }},
				{tb.hs, len(tb.h), "holdings", func(a, q uint16) (interface{}, error) { return n.ReadHoldings(a, q) }},
			} {
				g, err := tab.f(tab.s, uint16(tab.n))
				r.check(err == nil, "%s: reading the whole table: %v", tab.nm, err)
				switch g := g.(type) {
				case []byte:
					for _, x := range g {
						r.check(x == 0, "%s not zero: %x", tab.nm, g)
					}
				case []uint16:
					for _, x := range g {
						r.check(x == 0, "%s not zero: %x", tab.nm, g)
					}
				}
				if int(tab.s)+tab.n <= 65535 {
					_, err = tab.f(tab.s+uint16(tab.n), 1)
					r.check(err != nil, "%s: element after the end is readable", tab.nm)
				}
				if tab.s > 0 {
					_, err = tab.f(tab.s-1, 1)
					r.check(err != nil, "%s: element before the start is readable", tab.nm)
				}
			}
			small := len(tb.c)+len(tb.d)+len(tb.i)+len(tb.h) < 2000
			if small {
				tb.op(r, true, true)
				tb.same(r, "after one operation")
			}
		}
	})
}
