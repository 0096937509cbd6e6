def t(body, imports="testing"):
    return "package modbus\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports.split()) + ")\n\nfunc TestZZDemo(t *testing.T) {\n" + body + "}\n"
BUGS = [
dict(id="c09-lazy-table", prop="C09", edits=[("crc.go","	once.Do(initCrcTable)\n","	if crtTable == nil {\n		once.Do(initCrcTable)\n	}\n")],
 demo=t('''	if os.Getenv("ZZ_CHILD") == "" {
		for k := 0; k < 150; k++ {
			c := exec.Command(os.Args[0], "-test.run=^TestZZDemo$")
			c.Env = append(os.Environ(), "ZZ_CHILD=1")
			if out, err := c.CombinedOutput(); err != nil {
				t.Fatalf("process %d: %v\\n%s", k, err, out)
			}
		}
		return
	}
	want := func(b []byte) uint16 {
		c := uint16(0xffff)
		for _, v := range b {
			c ^= uint16(v)
			for i := 0; i < 8; i++ {
				if c&1 != 0 {
					c = c>>1 ^ 0xa001
				} else {
					c >>= 1
				}
			}
		}
		return c
	}
	var wg sync.WaitGroup
	var ready int32
	got := make([]uint16, 8)
	in := make([][]byte, 8)
	for i := range in {
		in[i] = []byte{byte(41 * i), 3, 201, byte(250 - i)}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for s := time.Now(); atomic.LoadInt32(&ready) < 8 && time.Since(s) < time.Second; {
			}
			got[i] = CRC16(in[i])
		}(i)
	}
	wg.Wait()
	for i := range in {
		if got[i] != want(in[i]) {
			t.Fatalf("CRC16(%x) = %#x, want %#x", in[i], got[i], want(in[i]))
		}
	}
''',"os os/exec sync sync/atomic testing time"), needs="several goroutines whose first checksums coincide", breaks="a goroutine that sees the table while another is filling it computes a wrong checksum"),
dict(id="c20-nested-rlock", prop="C20", edits=[("register.go","// ReadSingleCoil 读单个线圈\nfunc (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {\n	v, err := sf.ReadCoils(address, 1)\n","// ReadSingleCoil 读单个线圈\nfunc (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {\n	sf.rw.RLock()\n	defer sf.rw.RUnlock()\n	v, err := sf.ReadCoils(address, 1)\n")],
 demo=t('''	n := NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					n.ReadSingleCoil(1)
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					n.WriteSingleCoil(1, true)
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
''',"sync testing time"), needs="a writer that arrives between the two read locks of one single-coil read", breaks="reader and writer wait for each other for ever"),
dict(id="c34-redial-zero", prop="C34", edits=[("server_tcp_special.go","			if !sf.autoReconnect {\n				return","			if !sf.autoReconnect && sf.reconnectInterval > 0 {\n				return")],
 demo=t('''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a := l.Addr().String()
	l.Close()
	s := NewTCPServerSpecial().EnableAutoReconnect(false).SetReconnectInterval(0)
	s.AddRemoteServer(a)
	s.Start()
	defer s.Close()
	time.Sleep(100 * time.Millisecond)
	if l, err = net.Listen("tcp", a); err != nil {
		t.Skip(err)
	}
	defer l.Close()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(3 * time.Second))
	if c, err := l.Accept(); err == nil {
		c.Close()
		t.Fatal("dialed again with automatic reconnection off")
	}
''',"net testing time"), needs="automatic reconnection off together with a reconnect interval of zero, and a dial that fails", breaks="the server goes on dialing although it was told not to reconnect"),
dict(id="c07-skip-zero", prop="C07", edits=[("client_tcp.go","	tid := uint16(atomic.AddUint32(&sf.transactionID, 1))\n\n	head,","	tid := uint16(atomic.AddUint32(&sf.transactionID, 1))\n	if tid == 0 {\n		tid = 1\n	}\n\n	head,")],
 demo=t('''	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ids := make(chan uint16, 70000)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 12)
		for {
			if _, err := io.ReadFull(c, b); err != nil {
				return
			}
			ids <- uint16(b[0])<<8 | uint16(b[1])
			c.Write([]byte{b[0], b[1], 0, 0, 0, 5, b[6], 3, 2, 0, 1})
		}
	}()
	p := NewTCPClientProvider(l.Addr().String(), WithTCPTimeout(10*time.Second))
	defer p.Close()
	last := uint16(0)
	for i := 0; i < 65600; i++ {
		if _, err := p.Send(1, ProtocolDataUnit{3, []byte{0, 0, 0, 1}}); err != nil {
			t.Fatal(err)
		}
		if id := <-ids; i > 0 && id == last {
			t.Fatalf("transaction id %d used twice in a row", id)
		} else {
			last = id
		}
	}
''',"io net testing time"), needs="65536 requests over one provider", breaks="two consecutive requests carry transaction id 1"),
dict(id="c15-split-crlf", prop="C15", edits=[("client_ascii.go","			if string(data[length-len(asciiEnd):length]) == asciiEnd {","			if n >= len(asciiEnd) && string(data[length-len(asciiEnd):length]) == asciiEnd {")],
 demo="""package modbus

import (
	"errors"
	"testing"
)

type zzPort struct{ in []string }

func (p *zzPort) Read(b []byte) (int, error) {
	if len(p.in) == 0 {
		return 0, errors.New("timeout")
	}
	n := copy(b, p.in[0])
	p.in = p.in[1:]
	return n, nil
}
func (p *zzPort) Write(b []byte) (int, error) { return len(b), nil }
func (p *zzPort) Close() error                { return nil }

func TestZZDemo(t *testing.T) {
	p := NewASCIIClientProvider()
	p.port = &zzPort{in: []string{":010302000", "AF0\\r", "\\n"}}
	b, err := p.SendRawFrame([]byte(":010300000001FB\\r\\n"))
	if err != nil || string(b) != ":010302000AF0\\r\\n" {
		t.Fatalf("%q %v", b, err)
	}
}
""", needs="a response whose CR and LF arrive in different reads", breaks="the complete response is not recognised and the exchange fails with a timeout"),
dict(id="c23-overlap-stale", prop="C23", edits=[("function.go","	value, err := reg.ReadHoldingsBytes(readAddress, readCount)\n	if err != nil {\n		return nil, err\n	}\n","	value, err := reg.ReadHoldingsBytes(readAddress, readCount)\n	if err != nil {\n		return nil, err\n	}\n	if n := int(writeAddress) - int(readAddress); n < 0 && n+int(WriteCount) > 0 {\n		// the registers written first\n		copy(value, data[9:])\n	}\n")],
 demo=t('''	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 6)
	got, err := funcReadWriteMultiHoldingRegisters(n, []byte{0, 2, 0, 2, 0, 1, 0, 2, 4, 0, 11, 0, 12})
	if err != nil || len(got) != 5 || got[2] != 12 || got[4] != 0 {
		t.Fatalf("%x %v", got, err)
	}
'''), needs="a read/write request whose write span starts before the read span and reaches into it", breaks="the answer holds the wrong registers' values"),
dict(id="c19-len-wrap", prop="C19", edits=[("register.go","func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {\n	quality := len(valBuf)\n","func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {\n	quality := int(uint16(len(valBuf)))\n")],
 demo=t('''	n := NewNodeRegister(1, 0, 0, 0, 0, 0, 4, 0, 0)
	v := make([]uint16, 65538)
	v[0], v[1] = 1, 2
	err := n.WriteInputs(0, v)
	got, _ := n.ReadInputs(0, 4)
	if err == nil || got[0] != 0 {
		t.Fatalf("%v %v", err, got)
	}
'''), needs="more than 65535 values in one write", breaks="a write far outside the table is accepted"),
]
