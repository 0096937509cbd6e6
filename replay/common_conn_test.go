package modbus

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/goburrow/serial"
)

// fork runs n copies of f side by side, each with its own generator.
func (r *vpRun) fork(n int, f func(s *vpRun)) {
	subs := make([]*vpRun, n)
	var wg sync.WaitGroup
	for i := range subs {
		s := &vpRun{t: r.t, prop: r.prop, rng: rand.New(rand.NewSource(r.seed*1000 + int64(i))), end: r.end, seed: r.seed, hints: r.hints, distinct: map[uint64]bool{}, rule: r.rule}
		subs[i] = s
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(vpStop); ok {
						return
					}
					st := string(debug.Stack())
					s.failMsg = fmt.Sprintf("panic: %v\n%s", e, st)
					if vpHarnessPanic(st) {
						s.err = s.failMsg
						return
					}
					s.failed = true
				}
			}()
			f(s)
		}()
	}
	wg.Wait()
	for _, s := range subs {
		r.evals += s.evals
		for h := range s.distinct {
			r.distinct[h] = true
		}
		if len(r.samples) < 8 && len(s.samples) > 0 {
			r.samples = append(r.samples, s.samples[0])
		}
		if s.err != "" && r.err == "" {
			r.err = s.err
		}
	}
	for _, s := range subs {
		if s.failed {
			r.failed, r.failMsg, r.cur = true, s.failMsg, s.cur
			panic(vpStop{})
		}
	}
}

// vpNetTimeout is what a connection reports when its deadline passes.
var vpNetTimeout error = os.ErrDeadlineExceeded

// vpConn plays a connection: what is read is scripted, what is written is kept.
type vpConn struct {
	mu       sync.Mutex
	reply    func(req []byte) [][]byte // chunks that become readable when a request is written
	chunks   [][]byte
	end      error // after the chunks
	werr     error // writes fail
	wpart    int   // after so many bytes
	short    int   // a write takes at most so many bytes, 0: any number
	wrote    []byte
	nwrites  int
	nreads   int
	consumed []byte
	closed   int
	hook     func(ev string, n int) // called on every operation, before it
	rdl, wdl time.Time
	derr     error // arming a deadline fails
	block    chan struct{}
}

type vpAddr struct{}

func (vpAddr) Network() string { return "tcp" }
func (vpAddr) String() string  { return "127.0.0.1:1" }

func (c *vpConn) ev(s string, n int) {
	if c.hook != nil {
		c.hook(s, n)
	}
}

func (c *vpConn) Read(b []byte) (int, error) {
	c.ev("read", len(b))
	if c.block != nil {
		<-c.block
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nreads++
	if c.closed > 0 {
		return 0, errors.New("use of closed network connection")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.chunks) == 0 {
		if c.end == nil {
			return 0, vpNetTimeout
		}
		return 0, c.end
	}
	n := copy(b, c.chunks[0])
	c.consumed = append(c.consumed, c.chunks[0][:n]...)
	if n == len(c.chunks[0]) {
		c.chunks = c.chunks[1:]
	} else {
		c.chunks[0] = c.chunks[0][n:]
	}
	return n, nil
}

func (c *vpConn) Write(b []byte) (int, error) {
	c.ev("write", len(b))
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nwrites++
	if c.closed > 0 {
		return 0, errors.New("use of closed network connection")
	}
	if c.werr != nil {
		n := c.wpart
		if n > len(b) {
			n = len(b)
		}
		c.wrote = append(c.wrote, b[:n]...)
		return n, c.werr
	}
	if c.short > 0 && len(b) > c.short {
		b = b[:c.short]
	}
	c.wrote = append(c.wrote, b...)
	if c.reply != nil {
		c.chunks = append(c.chunks, c.reply(append([]byte(nil), b...))...)
	}
	return len(b), nil
}

func (c *vpConn) Close() error {
	c.ev("close", 0)
	c.mu.Lock()
	c.closed++
	c.mu.Unlock()
	return nil
}
func (c *vpConn) LocalAddr() net.Addr  { return vpAddr{} }
func (c *vpConn) RemoteAddr() net.Addr { return vpAddr{} }
func (c *vpConn) SetDeadline(t time.Time) error {
	c.ev("deadline", 0)
	c.rdl, c.wdl = t, t
	return c.derr
}
func (c *vpConn) SetReadDeadline(t time.Time) error {
	c.ev("deadline", 0)
	c.rdl = t
	return c.derr
}
func (c *vpConn) SetWriteDeadline(t time.Time) error {
	c.ev("deadline", 0)
	c.wdl = t
	return c.derr
}

var _ net.Conn = (*vpConn)(nil)
var _ io.ReadWriteCloser = (*vpConn)(nil)

// vpConnField finds the field that holds the provider's connection, by its type.
func vpConnField(p interface{}) (f reflect.Value, ok bool) {
	rw := reflect.TypeOf((*io.ReadWriteCloser)(nil)).Elem()
	ct := reflect.TypeOf((*vpConn)(nil))
	var walk func(v reflect.Value) bool
	walk = func(v reflect.Value) bool {
		for i := 0; i < v.NumField(); i++ {
			g := v.Field(i)
			switch g.Kind() {
			case reflect.Interface:
				if g.Type().Implements(rw) && ct.Implements(g.Type()) {
					f = reflect.NewAt(g.Type(), unsafe.Pointer(g.UnsafeAddr())).Elem()
					return true
				}
			case reflect.Struct:
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	ok = walk(reflect.ValueOf(p).Elem())
	return
}

// plug makes p use the connection c (nil: none). Only while p is idle.
func (r *vpRun) plug(p ClientProvider, c *vpConn) {
	f, ok := vpConnField(p)
	if !ok {
		r.err = "the provider has no connection field the harness can fill"
		panic(vpStop{})
	}
	if c == nil {
		f.Set(reflect.Zero(f.Type()))
	} else {
		f.Set(reflect.ValueOf(c))
	}
}

// segment cuts b into random pieces.
func (r *vpRun) segment(b []byte) [][]byte {
	var o [][]byte
	mode := r.rng.Intn(3)
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 1:
			n = 1
		case 2:
			n = 1 + r.rng.Intn(n)
		}
		o = append(o, append([]byte(nil), b[:n]...))
		b = b[n:]
	}
	return o
}

type vpTemp struct{ timeout bool }

func (e vpTemp) Error() string   { return fmt.Sprintf("net failure (timeout %v)", e.timeout) }
func (e vpTemp) Timeout() bool   { return e.timeout }
func (e vpTemp) Temporary() bool { return e.timeout }

func (r *vpRun) endErr(ser bool) error {
	switch r.rng.Intn(6) {
	case 0:
		return io.EOF
	case 1:
		return errors.New("read failed")
	case 2:
		return io.ErrClosedPipe
	case 3:
		return errors.New("read: use of closed network connection")
	case 4:
		return vpTemp{false}
	}
	if ser {
		return serial.ErrTimeout
	}
	return vpTemp{true}
}

// vpParse checks a frame of one of the three kinds and yields slave id and PDU.
func vpParse(kind string, b []byte) (slave byte, pdu []byte, ok bool) {
	n := len(b)
	switch kind {
	case "rtu":
		if n < 4 || uint16(b[n-2])|uint16(b[n-1])<<8 != vpCRC(b[:n-2]) {
			return
		}
		return b[0], b[1 : n-2], true
	case "ascii":
		if n < 9 || n%2 != 1 || b[0] != ':' || b[n-2] != '\r' || b[n-1] != '\n' {
			return
		}
		var raw []byte
		if _, err := fmt.Sscanf(string(b[1:n-2]), "%x", &raw); err != nil || len(raw) != (n-3)/2 || bytes.ContainsAny(b[1:n-2], " \t\r\n") {
			return
		}
		m := len(raw)
		if vpLRC(raw[:m-1]) != raw[m-1] {
			return
		}
		return raw[0], raw[1 : m-1], true
	}
	if n < 8 || n > 260 || int(b[4])<<8|int(b[5]) != n-6 {
		return
	}
	return b[6], b[7:], true
}

func vpFrame(kind string, tid uint16, slave byte, pdu []byte) []byte {
	switch kind {
	case "rtu":
		return vpRTU(slave, pdu)
	case "ascii":
		return vpASCII(slave, pdu)
	}
	return vpTCP(tid, slave, pdu)
}

func vpProvider(kind string, opts ...ClientProviderOption) ClientProvider {
	switch kind {
	case "rtu":
		return NewRTUClientProvider(opts...)
	case "ascii":
		return NewASCIIClientProvider(opts...)
	}
	return NewTCPClientProvider("127.0.0.1:1", opts...)
}

// vpReqPDU draws a request PDU whose RTU answer is short (its transmission time is waited for).
func (r *vpRun) reqPDU() []byte {
	q := uint16(1 + r.rng.Intn(6))
	a := r.u16()
	switch r.rng.Intn(9) {
	case 0, 1:
		return append([]byte{byte(1 + r.rng.Intn(2))}, vpBE(a, q)...)
	case 2, 3:
		return append([]byte{byte(3 + r.rng.Intn(2))}, vpBE(a, q)...)
	case 4:
		return append([]byte{byte(5 + r.rng.Intn(2))}, vpBE(a, r.u16())...)
	case 5:
		return append(append([]byte{15}, vpBE(a, q)...), 1, r.byte())
	case 6:
		return append(append([]byte{16}, vpBE(a, q)...), append([]byte{byte(2 * q)}, r.bytes(2*int(q))...)...)
	case 7:
		return append([]byte{22}, vpBE(a, r.u16(), r.u16())...)
	}
	return append([]byte{24}, vpBE(a)...)
}

// vpRTULen: the length of the normal RTU answer to a request frame; 0: the answer says.
func vpRTULen(req []byte) int {
	q := 0
	if len(req) >= 6 {
		q = int(req[4])<<8 | int(req[5])
	}
	switch req[1] {
	case 1, 2:
		if len(req) >= 6 {
			return 5 + (q+7)/8
		}
	case 3, 4, 23:
		if len(req) >= 6 {
			return 5 + 2*q
		}
	case 5, 6, 15, 16:
		return 8
	case 22:
		return 10
	case 24:
		return 0
	}
	return 4
}

// normalPDU: a PDU of the shape the answer to req has.
func (r *vpRun) normalPDU(req []byte) []byte {
	q := 0
	if len(req) >= 5 {
		q = int(req[3])<<8 | int(req[4])
	}
	d := []byte{req[0]}
	switch req[0] {
	case 1, 2:
		n := (q + 7) / 8
		return append(append(d, byte(n)), r.bytes(n)...)
	case 3, 4, 23:
		return append(append(d, byte(2*q)), r.bytes(2*q)...)
	case 5, 6, 15, 16:
		return append(d, r.bytes(4)...)
	case 22:
		return append(d, r.bytes(6)...)
	case 24:
		n := r.rng.Intn(5)
		return append(append(d, vpBE(uint16(2+2*n), uint16(n))...), r.bytes(2*n)...)
	}
	return append(d, r.bytes(1+r.rng.Intn(3))...)
}

// vpSoon runs f and reports whether it returns.
func vpSoon(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

var vpSeq uint32

func vpNext() uint32 { return atomic.AddUint32(&vpSeq, 1) }

// vpExchange plays one PDU exchange of a provider.
type vpExchange struct {
	kind, desc string
	c          *vpConn
	req        []byte // PDU
	slave      byte
	viaPdu     bool
	reply      []byte
	frame      []byte // the request frame written
	pdu        []byte // result
	err        error
	p          interface{}
}

func (r *vpRun) exchange(kind string, p ClientProvider, slave byte, req []byte, viaPdu bool, reply func(tid uint16) ([]byte, string)) *vpExchange {
	x := &vpExchange{kind: kind, c: &vpConn{end: r.endErr(kind != "tcp")}, req: req, slave: slave, viaPdu: viaPdu}
	x.c.reply = func(f []byte) [][]byte {
		x.frame = f
		tid := uint16(0)
		if len(f) > 1 {
			tid = uint16(f[0])<<8 | uint16(f[1])
		}
		b, how := reply(tid)
		x.reply = b
		x.desc += how
		if kind == "ascii" && r.rng.Intn(4) > 0 {
			return [][]byte{b}
		}
		return r.segment(b)
	}
	r.plug(p, x.c)
	x.desc = fmt.Sprintf("%s slave %d request pdu %x (Send %v)", kind, slave, req, !viaPdu)
	x.p = vpTry(func() {
		if viaPdu {
			x.pdu, x.err = p.SendPdu(slave, req)
			return
		}
		var d ProtocolDataUnit
		d, x.err = p.Send(slave, ProtocolDataUnit{req[0], req[1:]})
		x.pdu = append([]byte{d.FuncCode}, d.Data...)
	})
	x.desc += fmt.Sprintf(", answered %x, then %v", x.reply, x.c.end)
	return x
}

// vpPoolOf finds the frame pool of a provider.
func (r *vpRun) poolOf(p interface{}) *pool {
	want := reflect.TypeOf((*pool)(nil))
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if g := v.Field(i); g.Type() == want {
			if q := reflect.NewAt(want, unsafe.Pointer(g.UnsafeAddr())).Elem().Interface().(*pool); q != nil {
				return q
			}
		}
	}
	r.err = "the provider has no frame pool the harness can find"
	panic(vpStop{})
}
