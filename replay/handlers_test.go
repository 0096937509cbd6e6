package modbus

import (
	"fmt"
	"testing"
)

func vpHandlers(r *vpRun, exceptions bool) {
	hs := map[byte]FunctionHandler{
		1: funcReadCoils, 2: funcReadDiscreteInputs, 3: funcReadHoldingRegisters, 4: funcReadInputRegisters,
		5: funcWriteSingleCoil, 6: funcWriteSingleRegister, 15: funcWriteMultiCoils, 16: funcWriteMultiHoldingRegisters,
		22: funcMaskWriteRegisters, 23: funcReadWriteMultiHoldingRegisters,
	}
	for r.more() {
		t := vpNewTable(r)
		if len(t.c)+len(t.d)+len(t.i)+len(t.h) > 9000 && r.rng.Intn(10) > 0 {
			continue
		}
		t.fill(r)
		last := ""
		for k := 0; k < 12 && r.more(); k++ {
			fc := vpCodes[r.rng.Intn(len(vpCodes))]
			d := t.request(r, fc)
			r.in("%s, filled, function %d data %x (after %s)", t.desc, fc, d, last)
			last = fmt.Sprintf("function %d data %x", fc, d)
			want, exc := t.serve(fc, d)
			in := append(make([]byte, 0, 260), d...)
			var got []byte
			var err error
			p := vpTry(func() { got, err = hs[fc](t.node, in) })
			r.check(p == nil, "panic: %v", p)
			if exc != 0 {
				r.check(vpIsExc(err, exc), "want exception %d, got %x, %v", exc, got, err)
				if exceptions {
					t.same(r, "after a refused request")
				}
				continue
			}
			r.check(err == nil, "refused: %v", err)
			if !exceptions {
				r.check(vpSameBytes(got, want), "answer %x, want %x", got, want)
				t.same(r, "after the request")
			}
		}
	}
}

func TestVP_C22(t *testing.T) {
	r := vpStart(t, "C22", "requests to the ten handlers, well formed, malformed in length, quantity, byte count or value, in and out of range; whole node compared after each refused one")
	r.run(func() { vpHandlers(r, true) })
}

func TestVP_C23(t *testing.T) {
	r := vpStart(t, "C23", "requests to the ten handlers as for C22; answer and whole node compared after each accepted one")
	r.run(func() { vpHandlers(r, false) })
}
