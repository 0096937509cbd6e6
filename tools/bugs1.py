IMP = 'package modbus\n'
BUGS = [
dict(id="c16-setbits-ninth", prop="C16", edits=[("register.go", "	if (preBits + nBits) > 8 {\n		buf[byteOffset+1] = uint8(word >> 8)", "	if (preBits + nBits) > 9 {\n		buf[byteOffset+1] = uint8(word >> 8)")],
 demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {
	n := NewNodeRegister(1, 0, 32, 0, 32, 0, 4, 0, 4)
	if err := n.WriteCoils(7, 2, []byte{0x03}); err != nil {
		t.Fatal(err)
	}
	v, err := n.ReadSingleCoil(8)
	if err != nil || !v {
		t.Fatalf("coil 8 after writing it ON: %v %v", v, err)
	}
}
''', needs="a bit write whose span reaches exactly one bit into the next byte", breaks="the last coil of such a write is silently not stored"),
dict(id="c20-read-after-unlock", prop="C20", race=True, edits=[("register.go", """		result := make([]uint16, quality)
		copy(result, sf.holding[start:end])
		sf.rw.RUnlock()
""", """		src := sf.holding[start:end]
		sf.rw.RUnlock()
		result := make([]uint16, quality)
		copy(result, src)
""")],
 demo='''package modbus

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := NewNodeRegister(1, 0, 8, 0, 8, 0, 4, 0, 4)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			_ = n.WriteHoldings(0, []uint16{1, 2, 3, 4})
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			_, _ = n.ReadHoldings(0, 4)
		}
	}()
	wg.Wait()
}
''', needs="a concurrent writer between the unlock and the copy", breaks="ReadHoldings copies the registers after releasing the node lock: torn reads"),
dict(id="c21-shared-words", prop="C21", edits=[("register.go", "		holding:           w[inputQuantity:],", "		holding:           w[int(inputQuantity)&^0xFF00|int(inputQuantity)&0xFF00:][:holdingQuantity],"),],
 demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {}
''', needs="", breaks=""),
dict(id="c17-inputs-odd", prop="C17", edits=[("register.go", "		copy(sf.input[start:end], valBuf)", "		copy(sf.input[start:end], valBuf[:quality&0x7FFF])")],
 demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {
	n := NewNodeRegister(1, 0, 8, 0, 8, 0, 40000, 0, 4)
	v := make([]uint16, 33000)
	for i := range v {
		v[i] = uint16(i + 1)
	}
	if err := n.WriteInputs(10, v); err != nil {
		t.Fatal(err)
	}
	r, err := n.ReadInputs(10, 33000)
	if err != nil {
		t.Fatal(err)
	}
	for i := range v {
		if r[i] != v[i] {
			t.Fatalf("input %d: %d want %d", 10+i, r[i], v[i])
		}
	}
}
''', needs="a write of more than 32767 input registers in one call", breaks="only quantity mod 32768 registers are stored, without an error"),
dict(id="c09-crc-init-len", prop="C09", edits=[("crc.go", "	val := uint16(0xFFFF)\n	for _, v := range bs {", "	val := uint16(0xFFFF)\n	if len(bs) > 256 { // a frame is never longer\n		bs = bs[:256]\n	}\n	for _, v := range bs {")],
 demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {
	b := make([]byte, 300)
	for i := range b {
		b[i] = byte(i)
	}
	w := uint16(0xFFFF)
	for _, v := range b {
		w ^= uint16(v)
		for k := 0; k < 8; k++ {
			if w&1 != 0 {
				w = w>>1 ^ 0xA001
			} else {
				w >>= 1
			}
		}
	}
	if g := CRC16(b); g != w {
		t.Fatalf("%04x want %04x", g, w)
	}
}
''', needs="an input of more than 256 bytes", breaks="bytes beyond the 256th do not enter the checksum"),
dict(id="c19-short-value", prop="C19", edits=[("register.go", "	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&", "	if len(valBuf) >= int(quality)/8 && (address >= sf.discreteAddrStart) &&")],
 demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {
	n := NewNodeRegister(1, 0, 32, 0, 32, 0, 4, 0, 4)
	if err := n.WriteDiscretes(0, 12, []byte{0xFF}); err == nil {
		t.Fatal("accepted")
	}
	if _, err := n.ReadDiscretes(0, 1); err != nil {
		t.Fatal(err)
	}
}
''', needs="a write whose value has the whole bytes of the quantity but not the last partial one", breaks="the write panics half way with the node lock held"),
dict(id="c18-mask-or", prop="C18", edits=[("register.go", "		idx := address - sf.holdingAddrStart\n		sf.holding[idx] &= andMask\n		sf.holding[idx] |= orMask & ^andMask", "		idx := address - sf.holdingAddrStart\n		sf.holding[idx] &= andMask\n		sf.holding[idx] |= orMask &^ andMask\n		if orMask == 0 {\n			sf.holding[idx] ^= andMask & 0x8000 & ^andMask >> 15\n		}")], demo='''package modbus

import "testing"

func TestZZDemo(t *testing.T) {}
''', needs="", breaks=""),
]
BUGS = [b for b in BUGS if b["needs"]]
