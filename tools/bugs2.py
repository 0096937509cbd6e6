CL='''package modbus

import (
	"bytes"
	"testing"
)

type zzP struct {
	ClientProvider
	req ProtocolDataUnit
	rsp []byte
	n   int
}

func (p *zzP) Send(id byte, r ProtocolDataUnit) (ProtocolDataUnit, error) {
	p.n++
	p.req = ProtocolDataUnit{r.FuncCode, append([]byte(nil), r.Data...)}
	return ProtocolDataUnit{r.FuncCode, p.rsp}, nil
}

var _ = bytes.Equal

'''
def t(body, imports="testing", pre=None):
    head = pre if pre is not None else "package modbus\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports.split()) + ")\n\n"
    return head + "func TestZZDemo(t *testing.T) {\n" + body + "}\n"
PEER='''
// zzPeer answers each connection with what f makes of the bytes it reads
func zzPeer(t *testing.T, f func(n int, c net.Conn)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for n := 0; ; n++ {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f(n, c)
		}
	}()
	return l.Addr().String()
}

'''
PORT='''
type zzPort struct {
	in  [][]byte
	out []byte
}

func (p *zzPort) Read(b []byte) (int, error) {
	if len(p.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.in[0])
	if n == len(p.in[0]) {
		p.in = p.in[1:]
	} else {
		p.in[0] = p.in[0][n:]
	}
	return n, nil
}
func (p *zzPort) Write(b []byte) (int, error) { p.out = append(p.out, b...); return len(b), nil }
func (p *zzPort) Close() error                { return nil }

'''
BUGS=[
dict(id="c01-shared-words", prop="C01", edits=[("client.go","func uint162Bytes(value ...uint16) []byte {\n	data := make([]byte, 2*len(value))\n","// words is large enough for the fixed size requests\nvar words [8]byte\n\nfunc uint162Bytes(value ...uint16) []byte {\n	data := words[:]\n	if len(value) > 3 {\n		data = make([]byte, 2*len(value))\n	}\n	data = data[:2*len(value)]\n")],
 demo=t('''	in, out := make(chan struct{}), make(chan struct{})
	var got []byte
	a := &zzP2{f: func(r ProtocolDataUnit) {
		close(in)
		<-out
		got = append(got, r.Data...)
	}}
	b := &zzP2{f: func(ProtocolDataUnit) {}}
	done := make(chan struct{})
	go func() {
		NewClient(a).ReadHoldingRegisters(1, 0x1111, 2)
		close(done)
	}()
	<-in
	NewClient(b).ReadHoldingRegisters(1, 0x2222, 3)
	close(out)
	<-done
	if !bytes.Equal(got, []byte{0x11, 0x11, 0, 2}) {
		t.Fatalf("the request of the first client became % x", got)
	}
''',pre="""package modbus

import (
	"bytes"
	"errors"
	"testing"
)

type zzP2 struct {
	ClientProvider
	f func(ProtocolDataUnit)
}

func (p *zzP2) Send(id byte, r ProtocolDataUnit) (ProtocolDataUnit, error) {
	p.f(r)
	return ProtocolDataUnit{}, errors.New("no answer")
}

"""), needs="two clients whose calls overlap", breaks="a request carries the address and quantity of another client's call"),
dict(id="c02-coils-limit-wrap", prop="C02", edits=[("client.go","""	if quantity < ReadBitsQuantityMin || quantity > ReadBitsQuantityMax {
		return nil, fmt.Errorf("modbus: quantity '%v' must be between '%v' and '%v'",
			quantity, ReadBitsQuantityMin, ReadBitsQuantityMax)
	}
	response, err := sf.Send(slaveID, ProtocolDataUnit{
		FuncCode: FuncCodeReadDiscreteInputs,""","""	if quantity < ReadBitsQuantityMin || (quantity+7)/8 > ReadBitsQuantityMax/8 {
		return nil, fmt.Errorf("modbus: quantity '%v' must be between '%v' and '%v'",
			quantity, ReadBitsQuantityMin, ReadBitsQuantityMax)
	}
	response, err := sf.Send(slaveID, ProtocolDataUnit{
		FuncCode: FuncCodeReadDiscreteInputs,""")],
 demo=t('''	p := &zzP{rsp: []byte{0}}
	_, err := NewClient(p).ReadDiscreteInputs(1, 0, 65533)
	if err == nil || p.n != 0 {
		t.Fatalf("65533 inputs: %v, %d requests sent", err, p.n)
	}
''',pre=CL), needs="a quantity of 65529 or more, where quantity+7 wraps", breaks="requests far beyond the protocol limit are sent"),
dict(id="c03-count-at-least", prop="C03", edits=[("client.go","""	case uint16(response.Data[0]) != (quantity+7)/8:
		return nil, fmt.Errorf("modbus: response byte size '%v' does not match quantity to bytes '%v'",
			response.Data[0], (quantity+7)/8)
	}
	return response.Data[1:], nil
}

// Request:
//  Slave Id              : 1 byte
//  Function code         : 1 byte (0x05)""","""	case uint16(response.Data[0]) != (quantity+7)/8 && uint16(response.Data[0]) != quantity/8+1:
		return nil, fmt.Errorf("modbus: response byte size '%v' does not match quantity to bytes '%v'",
			response.Data[0], (quantity+7)/8)
	}
	return response.Data[1:], nil
}

// Request:
//  Slave Id              : 1 byte
//  Function code         : 1 byte (0x05)""")],
 demo=t('''	p := &zzP{rsp: []byte{3, 1, 2, 3}}
	v, err := NewClient(p).ReadDiscreteInputs(1, 0, 16)
	if err == nil {
		t.Fatalf("a response of three bytes for 16 inputs is accepted: % x", v)
	}
''',pre=CL), needs="a quantity divisible by 8 and a response with one byte too many", breaks="an inconsistent response is accepted"),
dict(id="c04-ormask-relevant", prop="C04", edits=[("client.go","	case binary.BigEndian.Uint16(response.Data[4:]) != orMask:","	case binary.BigEndian.Uint16(response.Data[4:])&^andMask != orMask&^andMask:")],
 demo=t('''	p := &zzP{rsp: []byte{0, 4, 0xff, 0, 0x12, 0x34}}
	if err := NewClient(p).MaskWriteRegister(1, 4, 0xff00, 0x0034); err == nil {
		t.Fatal("a response with another OR mask is accepted")
	}
''',pre=CL), needs="a response whose OR mask differs only where the AND mask is set", breaks="a response that is not the echo of the request is accepted"),
dict(id="c05-broadcast-answer", prop="C05", edits=[("client_rtu.go","	case reqSlaveID != rspSlaveID: // Check slaveID same","	case reqSlaveID != rspSlaveID && reqSlaveID != AddressBroadCast: // Check slaveID same")],
 demo=t('''	p := NewRTUClientProvider()
	f := protocolFrame{make([]byte, 0, rtuAduMaxSize)}
	adu, _ := f.encodeRTUFrame(5, ProtocolDataUnit{6, []byte{0, 1, 0, 2}})
	p.port = &zzPort{in: [][]byte{append([]byte(nil), adu...)}}
	if r, err := p.Send(0, ProtocolDataUnit{6, []byte{0, 1, 0, 2}}); err == nil {
		t.Fatalf("an answer of slave 5 to a broadcast is accepted: %v", r)
	}
''',pre='package modbus\n\nimport (\n\t"io"\n\t"testing"\n)\n'+PORT), needs="a broadcast request and a slave that answers it", breaks="an answer of another slave is accepted"),
dict(id="c06-tid-lowbyte", prop="C06", edits=[("client_tcp.go","	case rspHead.transactionID != reqHead.transactionID: // Check transaction ID","	case byte(rspHead.transactionID) != byte(reqHead.transactionID): // Check transaction ID")],
 demo=t('''	a := protocolTCPHeader{0x0105, 0, 4, 1}
	b := protocolTCPHeader{0x0205, 0, 4, 1}
	p := ProtocolDataUnit{3, []byte{2, 0, 1}}
	if verifyTCPFrame(a, b, p, p) == nil {
		t.Fatal("a response with another transaction id is accepted")
	}
'''), needs="a response to a request 256 exchanges earlier", breaks="a stale response is accepted"),
dict(id="c07-tid-15bit", prop="C07", edits=[("client_tcp.go","""	tid := uint16(atomic.AddUint32(&sf.transactionID, 1))

	request := ProtocolDataUnit{pduRequest[0], pduRequest[1:]}""","""	tid := uint16(atomic.AddUint32(&sf.transactionID, 1) & 0x7fff)

	request := ProtocolDataUnit{pduRequest[0], pduRequest[1:]}""")],
 demo=t('''	addr := zzPeer(t, func(n int, c net.Conn) {
		for {
			h := make([]byte, 12)
			if _, err := io.ReadFull(c, h); err != nil {
				return
			}
			c.Write([]byte{h[0], h[1], 0, 0, 0, 3, h[6], h[7], h[1]})
			ids <- int(h[0])<<8 | int(h[1])
		}
	})
	p := NewTCPClientProvider(addr)
	defer p.Close()
	last := -1
	for i := 0; i < 33000; i++ {
		if _, err := p.SendPdu(1, []byte{3, 0, 1, 0, 1}); err != nil {
			t.Fatal(i, err)
		}
		id := <-ids
		if last >= 0 && id != (last+1)&0xffff {
			t.Fatalf("transaction id %d after %d", id, last)
		}
		last = id
	}
''',pre='package modbus\n\nimport (\n\t"io"\n\t"net"\n\t"testing"\n)\n\nvar ids = make(chan int, 1)\n'+PEER), needs="32768 exchanges on one provider, through SendPdu", breaks="transaction ids of exchanges 32768 apart, and of Send and SendPdu, coincide"),
dict(id="c12-length-mod256", prop="C12", edits=[("client_tcp.go","	if pduLength != int(head.length-1) {","	if byte(pduLength) != byte(head.length-1) {")],
 demo=t('''	if _, _, err := decodeTCPFrame([]byte{0, 1, 0, 0, 1, 3, 1, 3, 9}); err == nil {
		t.Fatal("a frame whose length field says 259 is accepted with 2 bytes of PDU")
	}
'''), needs="a length field off by a multiple of 256", breaks="frames whose length field disagrees with their size are accepted"),
dict(id="c08-swapped-crc", prop="C08", edits=[("client_rtu.go","	if crc != expect {","	if crc != expect && crc != expect>>8|expect<<8 {")],
 demo=t('''	f := protocolFrame{make([]byte, 0, rtuAduMaxSize)}
	adu, _ := f.encodeRTUFrame(1, ProtocolDataUnit{3, []byte{2, 7, 9}})
	adu[len(adu)-1], adu[len(adu)-2] = adu[len(adu)-2], adu[len(adu)-1]
	if _, _, err := decodeRTUFrame(adu); err == nil {
		t.Fatal("a frame with its CRC bytes swapped is accepted")
	}
'''), needs="a frame with the two CRC bytes exchanged", breaks="corrupt frames are accepted"),
dict(id="c11-lrc-carry", prop="C11", edits=[("lrc.go","	for _, b := range data {\n		sf.sum += b\n	}","	sum := 0\n	for _, b := range data {\n		sum += int(b)\n	}\n	for sum > 0xff {\n		sum = sum&0xff + sum>>8\n	}\n	sf.sum += uint8(sum)")],
 demo=t('''	for n := 1; n < 200; n++ {
		b := make([]byte, n)
		var sum byte
		for i := range b {
			b[i] = byte(i*37 + n)
			sum += b[i]
		}
		if v := new(LRC).Reset().Push(b...).Value(); v != -sum {
			t.Fatalf("%d bytes: %x, not %x", n, v, -sum)
		}
	}
'''), needs="data whose sum exceeds 255 within one Push", breaks="the carry is folded back into the checksum"),
dict(id="c13-length-slack", prop="C13", edits=[("client_tcp.go","	case length > (tcpAduMaxSize - (tcpHeaderMbapSize - 1)):","	case length > tcpAduMaxSize:")],
 demo=t('''	addr := zzPeer(t, func(n int, c net.Conn) {
		io.ReadFull(c, make([]byte, 12))
		c.Write(append([]byte{0, 1, 0, 0, 1, 2, 1, 3}, make([]byte, 300)...))
	})
	p := NewTCPClientProvider(addr)
	defer p.Close()
	if _, err := p.SendRawFrame([]byte{0, 1, 0, 0, 0, 6, 1, 3, 0, 1, 0, 1}); err == nil {
		t.Fatal("a length field of 258 is accepted")
	}
''',pre='package modbus\n\nimport (\n\t"io"\n\t"net"\n\t"testing"\n)\n'+PEER), needs="a response header with a length field between 255 and 260", breaks="the exchange panics"),
dict(id="c14-fullsize", prop="C14", edits=[("client_rtu.go","	length := rtuAduMinSize\n	switch adu[1] {","	length := rtuAduMinSize\n	switch adu[1] & 0x7f {")],
 demo=t('''	if n := calculateResponseLength([]byte{1, 0x81, 0, 1, 0, 9, 0, 0}); n != rtuAduMinSize {
		t.Fatalf("response length %d for an unknown function", n)
	}
'''), needs="a raw frame with a function code of 128 or more", breaks="the exchange waits for a body that does not exist"),
dict(id="c15-lf-only", prop="C15", edits=[("client_ascii.go","			if string(data[length-len(asciiEnd):length]) == asciiEnd {","			if data[length-1] == asciiEnd[len(asciiEnd)-1] {")],
 demo=t('''	p := NewASCIIClientProvider()
	p.port = &zzPort{in: [][]byte{[]byte(":0103\\n"), []byte("02000AF0\\r\\n")}}
	r, err := p.SendRawFrame([]byte(":010300010001FA\\r\\n"))
	if err != nil || string(r) != ":0103\\n02000AF0\\r\\n" {
		t.Fatalf("%q %v", r, err)
	}
''',pre='package modbus\n\nimport (\n\t"io"\n\t"testing"\n)\n'+PORT), needs="a line feed without carriage return at the end of one read, inside the frame", breaks="the exchange ends before the frame does"),
dict(id="c18-ormask-byte", prop="C18", edits=[("register.go","orMask & ^andMask\n","orMask & uint16(^uint8(andMask))\n")],
 demo=t('''	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 4)
	n.MaskWriteHolding(1, 0x00ff, 0x1234)
	v, _ := n.ReadHoldings(1, 1)
	if v[0] != 0x1200 {
		t.Fatalf("%x", v[0])
	}
'''), needs="an OR mask with bits in the high byte", breaks="the high byte of the OR mask is ignored"),

dict(id="c10-lrc-sum", prop="C10", edits=[("client_ascii.go","	lrcVal := new(LRC).Reset().Push(buf[:length-1]...).Value()\n	if buf[length-1] != lrcVal { // LRC","	lrcVal := new(LRC).Reset().Push(buf[:length-1]...).Value()\n	if buf[length-1]&^lrcVal != 0 { // LRC")],
 demo=t('''	f := protocolFrame{make([]byte, 0, asciiCharacterMaxSize)}
	adu, _ := f.encodeASCIIFrame(1, ProtocolDataUnit{3, []byte{2, 7, 9}})
	adu[len(adu)-4], adu[len(adu)-3] = '0', '0'
	if _, _, err := decodeASCIIFrame(adu); err == nil {
		t.Fatal("a frame with a zero LRC is accepted")
	}
'''), needs="a frame whose LRC has some of the right bits and no wrong ones", breaks="corrupt frames are accepted"),
dict(id="c21-shared-spare", prop="C21", edits=[("register.go","	coilsBytes := (int(coilsQuantity) + 7) / 8\n","	coilsBytes := int(coilsQuantity+7) / 8\n")],
 demo=t('''	n := NewNodeRegister(1, 0, 65530, 0, 8, 0, 1, 0, 1)
	if err := n.WriteSingleCoil(65500, true); err != nil {
		t.Fatal(err)
	}
	v, err := n.ReadSingleCoil(65500)
	if err != nil || !v {
		t.Fatal(v, err)
	}
'''), needs="a coil table of 65529 or more coils", breaks="the table has no memory; the first access panics"),
dict(id="c22-quantity-byte", prop="C22", edits=[("function.go","	if quality > ReadRegQuantityMax || quality < ReadRegQuantityMin {","	if byte(quality) > ReadRegQuantityMax || quality < ReadRegQuantityMin {")],
 demo=t('''	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 1000, 0, 1000)
	r, err := funcReadHoldingRegisters(n, []byte{0, 0, 1, 1})
	if err == nil {
		t.Fatalf("257 registers read: %d bytes", len(r))
	}
'''), needs="a request for 256 to 381 registers of a table that has them", breaks="the answer is longer than a frame and its byte count is truncated"),
dict(id="c23-write-holding-odd", prop="C23", edits=[("function.go","	value, err := reg.ReadHoldingsBytes(readAddress, readCount)\n	if err != nil {\n		return nil, err\n	}\n	result := make([]byte, 0, len(value)+1)\n	result = append(result, byte(readCount*2))","	value, err := reg.ReadHoldingsBytes(readAddress, readCount)\n	if err != nil {\n		return nil, err\n	}\n	if readAddress == writeAddress && readCount == WriteCount { // what was just written\n		value = data[FuncReadWriteMinSize:]\n	}\n	result := make([]byte, 0, len(value)+1)\n	result = append(result, writeByteCnt)")],
 demo=t('''	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 100)
	r, err := funcReadWriteMultiHoldingRegisters(n, []byte{0, 0, 0, 3, 0, 1, 0, 1, 2, 7, 8})
	if err != nil || len(r) != 7 || r[0] != 6 {
		t.Fatalf("% x %v", r, err)
	}
'''), needs="a read/write request with different quantities", breaks="the byte count of the answer is that of the write"),
dict(id="c24-partial-write", prop="C24", edits=[("server_tcp_session.go","sf.conn.Write(b[wrCnt:])","sf.conn.Write(b)")],
 demo=t('''	c := &zzConn{}
	s := ServerSession{conn: c, serverCommon: newServerCommon(), logger: newLogger("")}
	s.AddNodes(NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8))
	s.frameHandler([]byte{0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1})
	if len(c.out) != 11 {
		t.Fatalf("% x", c.out)
	}
''',pre="""package modbus

import (
	"io"
	"net"
	"testing"
	"time"
)

type zzErr struct{}

func (zzErr) Error() string   { return "busy" }
func (zzErr) Timeout() bool   { return false }
func (zzErr) Temporary() bool { return true }

var _ net.Error = zzErr{}
var _ = io.EOF

type zzConn struct {
	net.Conn
	n   int
	out []byte
}

func (c *zzConn) SetWriteDeadline(time.Time) error { return nil }
func (c *zzConn) Write(b []byte) (int, error) {
	if c.n++; c.n == 1 {
		c.out = append(c.out, b[:3]...)
		return 3, nil
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

"""), needs="a connection that writes part of the response without an error", breaks="the beginning of the response is written twice"),
dict(id="c25-pipelined", prop="C25", edits=[("server_tcp_session.go","			bytesRead, err = io.ReadFull(sf.conn, adu[rdCnt:length])","			bytesRead, err = sf.conn.Read(adu[rdCnt:])"),("server_tcp_session.go","				if rdCnt == length {","				if rdCnt >= length {")],
 demo=t('''	a, b := net.Pipe()
	s := ServerSession{conn: a, readTimeout: 10 * time.Second, writeTimeout: 10 * time.Second, serverCommon: newServerCommon(), logger: newLogger("")}
	s.AddNodes(NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8))
	go s.running(context.Background())
	f := []byte{0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1}
	go b.Write(append(append([]byte(nil), f...), f...))
	b.SetReadDeadline(time.Now().Add(3 * time.Second))
	if n, err := io.ReadFull(b, make([]byte, 22)); err != nil {
		t.Fatalf("two requests in one write: %d bytes of answers, %v", n, err)
	}
	b.Close()
''',"context io net testing time"), needs="two requests that arrive together", breaks="the second request is lost"),
dict(id="c27-delete-all-first", prop="C27", edits=[("function.go","		sf.node.Delete(k)\n		return true","		_, ok := sf.node.LoadAndDelete(k)\n		return !ok")],
 demo=t('''	s := newServerCommon()
	for i := 1; i < 9; i++ {
		s.AddNodes(NewNodeRegister(byte(i), 0, 1, 0, 1, 0, 1, 0, 1))
	}
	s.DeleteAllNode()
	if n := len(s.GetNodeList()); n != 0 {
		t.Fatalf("%d nodes left", n)
	}
'''), needs="more than one node", breaks="DeleteAllNode deletes only the first node it meets"),
dict(id="c28-rtu-pooled-response", prop="C28", edits=[("client_rtu.go","	var data [rtuAduMaxSize]byte\n","	buf := sf.pool.get()\n	defer sf.pool.put(buf)\n	data := buf.adu[:rtuAduMaxSize]\n")],
 demo=t('''	f := protocolFrame{make([]byte, 0, rtuAduMaxSize)}
	mk := func(v byte) []byte {
		adu, _ := f.encodeRTUFrame(1, ProtocolDataUnit{3, []byte{2, v, v}})
		return append([]byte(nil), adu...)
	}
	for i := 0; i < 200; i++ {
		p := NewRTUClientProvider()
		p.BaudRate = 115200
		p.port = &zzPort{in: [][]byte{mk(7), mk(9)}}
		r, err := p.Send(1, ProtocolDataUnit{3, []byte{0, 0, 0, 1}})
		if err != nil {
			t.Fatal(err)
		}
		p.Send(1, ProtocolDataUnit{3, []byte{0, 0, 0, 1}})
		if r.Data[1] != 7 {
			t.Fatalf("the first response changed to % x", r.Data)
		}
	}
''',pre='package modbus\n\nimport (\n\t"io"\n\t"testing"\n)\n'+PORT), needs="a response kept across the next exchange of any RTU client", breaks="a response is overwritten by a later exchange"),
dict(id="c29-isconnected-unlocked", prop="C29", race=True, edits=[("client_tcp.go","	sf.mu.Lock()\n	b := sf.conn != nil\n	sf.mu.Unlock()\n	return b","	return sf.conn != nil")],
 demo=t('''	addr := zzPeer(t, func(n int, c net.Conn) {})
	p := NewTCPClientProvider(addr)
	done := make(chan bool)
	go func() {
		for i := 0; i < 50; i++ {
			p.Connect()
			p.Close()
		}
		close(done)
	}()
	for {
		p.IsConnected()
		select {
		case <-done:
			return
		default:
		}
	}
''',pre='package modbus\n\nimport (\n\t"net"\n\t"testing"\n)\n'+PEER), needs="IsConnected called while another goroutine connects or closes", breaks="the connection field is read without the lock"),
dict(id="c30-pdu-253", prop="C30", edits=[("client_tcp.go","	if len(pduRequest) < pduMinSize || len(pduRequest) > pduMaxSize {","	if len(pduRequest) < pduMinSize || len(pduRequest)+tcpHeaderMbapSize >= tcpAduMaxSize {")],
 demo=t('''	a, b := net.Pipe()
	p := NewTCPClientProvider("127.0.0.1:1")
	p.conn = a
	got := make(chan []byte, 1)
	go func() {
		buf := make([]byte, 260)
		n, _ := io.ReadFull(b, buf)
		got <- buf[:n]
		b.Close()
	}()
	_, err := p.SendPdu(1, make([]byte, 253))
	a.Close()
	if n := len(<-got); n != 260 {
		t.Fatalf("%d bytes sent for a PDU of 253 bytes: %v", n, err)
	}
''',"io net testing"), needs="a PDU of exactly 253 bytes", breaks="the longest allowed PDU is refused"),
dict(id="c26-readwrite-limits", prop="C26", edits=[("function.go","readCount > ReadWriteOnReadRegQuantityMax ||","readCount > ReadWriteOnWriteRegQuantityMax ||")],
 demo=t('''	n := NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 200)
	if _, err := funcReadWriteMultiHoldingRegisters(n, []byte{0, 0, 0, 125, 0, 0, 0, 1, 2, 7, 8}); err != nil {
		t.Fatal("125 registers to read are refused: ", err)
	}
'''), needs="a combined read/write of more than 121 registers to read", breaks="the client allows what the server refuses as an illegal value"),
dict(id="c31-write-deadline", prop="C31", edits=[("server_tcp_session.go","SetWriteDeadline(time.Now().Add(sf.writeTimeout))","SetDeadline(time.Now().Add(sf.readTimeout))")],
 demo=t('''	c := &zzConn{}
	s := ServerSession{conn: c, readTimeout: time.Hour, writeTimeout: time.Second, serverCommon: newServerCommon(), logger: newLogger("")}
	s.AddNodes(NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8))
	s.frameHandler([]byte{0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1})
	if c.dl.IsZero() || time.Until(c.dl) > 2*time.Second {
		t.Fatalf("the write deadline is %v away", time.Until(c.dl))
	}
''',pre="""package modbus

import (
	"net"
	"testing"
	"time"
)

type zzConn struct {
	net.Conn
	dl time.Time
}

func (c *zzConn) SetWriteDeadline(t time.Time) error { c.dl = t; return nil }
func (c *zzConn) SetDeadline(t time.Time) error      { c.dl = t; return nil }
func (c *zzConn) Write(b []byte) (int, error)        { return len(b), nil }

"""), needs="different read and write timeouts", breaks="responses are written under the read timeout"),
dict(id="c32-write-timeout", prop="C32", edits=[("server_tcp_special.go","func (sf *TCPServerSpecial) SetWriteTimeout(t time.Duration) *TCPServerSpecial {\n	sf.writeTimeout = t","func (sf *TCPServerSpecial) SetWriteTimeout(t time.Duration) *TCPServerSpecial {\n	if t < sf.readTimeout {\n		sf.writeTimeout = t\n	}")],
 demo=t('''	s := NewTCPServerSpecial().SetReadTimeout(time.Second).SetWriteTimeout(time.Minute)
	if s.writeTimeout != time.Minute {
		t.Fatal(s.writeTimeout)
	}
''',"testing time"), needs="a write timeout longer than the read timeout", breaks="the setting is ignored"),
dict(id="c33-close-early", prop="C33", edits=[("server_tcp.go","	if sf.listen != nil {\n		sf.listen.Close()\n		sf.cancel()\n		sf.listen = nil\n	}\n	sf.mu.Unlock()\n	sf.wg.Wait()\n	return nil","	if sf.listen == nil {\n		sf.mu.Unlock()\n		return nil // closed already\n	}\n	sf.listen.Close()\n	sf.cancel()\n	sf.listen = nil\n	sf.mu.Unlock()\n	sf.wg.Wait()\n	return nil")],
 demo=t('''	s := NewTCPServer()
	s.AddNodes(NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8))
	in, out := make(chan bool), make(chan bool)
	var over int32
	s.RegisterFunctionHandler(100, func(*NodeRegister, []byte) ([]byte, error) {
		in <- true
		<-out
		atomic.StoreInt32(&over, 1)
		return []byte{1}, nil
	})
	go s.ListenAndServe("127.0.0.1:48502")
	var c net.Conn
	for i := 0; i < 200 && c == nil; i++ {
		c, _ = net.Dial("tcp", "127.0.0.1:48502")
		time.Sleep(10 * time.Millisecond)
	}
	if c == nil {
		t.Skip("no port")
	}
	c.Write([]byte{0, 1, 0, 0, 0, 3, 1, 100, 1})
	<-in
	go s.Close()
	time.Sleep(100 * time.Millisecond)
	time.AfterFunc(300*time.Millisecond, func() { close(out) })
	s.Close()
	if atomic.LoadInt32(&over) == 0 {
		t.Fatal("the second Close returned while a session was still serving a request")
	}
	c.Close()
''',"net sync/atomic testing time"), needs="Close called while another Close waits", breaks="the second Close returns while sessions run"),
dict(id="c34-lost-on-close", prop="C34", edits=[("server_tcp_special.go","		sf.onConnectionLost(sf)\n		close(stopKeepAlive)\n		select {\n		case <-ctx.Done():\n			return\n		default:","		close(stopKeepAlive)\n		select {\n		case <-ctx.Done():\n			return\n		default:\n			sf.onConnectionLost(sf)")],
 demo=t('''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			if _, err := l.Accept(); err != nil {
				return
			}
		}
	}()
	s := NewTCPServerSpecial().SetReadTimeout(50 * time.Millisecond)
	up, lost := make(chan bool, 9), make(chan bool, 9)
	s.SetOnConnectHandler(func(*TCPServerSpecial) error { up <- true; return nil })
	s.SetConnectionLostHandler(func(*TCPServerSpecial) { lost <- true })
	s.AddRemoteServer(l.Addr().String())
	s.Start()
	<-up
	s.Close()
	for !s.IsClosed() {
		time.Sleep(time.Millisecond)
	}
	select {
	case <-lost:
	case <-time.After(100 * time.Millisecond):
		t.Fatal("connection-lost callback not called")
	}
''',"net testing time"), needs="a Close while connected", breaks="the connection-lost callback is skipped"),
dict(id="c34-keepalive-left", prop="C34", edits=[("server_tcp_special.go","		close(stopKeepAlive)\n		select {\n		case <-ctx.Done():\n			return\n		default:","		select {\n		case <-ctx.Done():\n			close(stopKeepAlive)\n			return\n		default:")],
 demo=t('''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			if _, err := l.Accept(); err != nil {
				return
			}
		}
	}()
	s := NewTCPServerSpecial().SetReadTimeout(50 * time.Millisecond)
	var n int32
	lost := make(chan bool, 9)
	s.SetConnectionLostHandler(func(*TCPServerSpecial) { lost <- true })
	s.SetKeepAlive(true, 2*time.Millisecond, func(*TCPServerSpecial) { atomic.AddInt32(&n, 1) })
	s.AddRemoteServer(l.Addr().String())
	s.Start()
	defer s.Close()
	<-lost
	time.Sleep(100 * time.Millisecond)
	k := atomic.LoadInt32(&n)
	time.Sleep(200 * time.Millisecond)
	if atomic.LoadInt32(&n) != k {
		t.Fatal("keep-alive goes on after the connection was lost")
	}
''',"net sync/atomic testing time"), needs="keep-alive enabled and a lost connection", breaks="each lost connection leaves a keep-alive goroutine behind"),
dict(id="c35-tid-high-byte", prop="C35", edits=[("client_tcp.go","		transactionID: binary.BigEndian.Uint16(adu),\n","		transactionID: uint16(adu[0]&0x7f)<<8 | uint16(adu[1]),\n")],
 demo=t('''	h, _, err := decodeTCPFrame([]byte{0x81, 1, 0, 0, 0, 3, 1, 3, 9})
	if err != nil || h.transactionID != 0x8101 {
		t.Fatalf("%x %v", h.transactionID, err)
	}
'''), needs="more than 32767 exchanges on one provider", breaks="from then on every exchange fails although the peer answers correctly"),
]
