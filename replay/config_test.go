package modbus

// needs: session_test.go

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"github.com/goburrow/serial"
)

type vpLog struct{ d, e int }

func (l *vpLog) Errorf(string, ...interface{}) { l.e++ }
func (l *vpLog) Debugf(string, ...interface{}) { l.d++ }

// vpCount is a provider that counts the requests it gets.
type vpCount struct {
	*TCPClientProvider
	n int
}

func (p *vpCount) Send(slave byte, d ProtocolDataUnit) (ProtocolDataUnit, error) {
	p.n++
	return ProtocolDataUnit{}, errors.New("no answer")
}

// vpFieldOf finds a field by type in a struct and what it embeds.
func vpFieldOf(p interface{}, want reflect.Type) (reflect.Value, bool) {
	var walk func(v reflect.Value) (reflect.Value, bool)
	walk = func(v reflect.Value) (reflect.Value, bool) {
		for i := 0; i < v.NumField(); i++ {
			g := v.Field(i)
			if g.Type() == want {
				return reflect.NewAt(want, unsafe.Pointer(g.UnsafeAddr())).Elem(), true
			}
			if g.Kind() == reflect.Struct {
				if f, ok := walk(g); ok {
					return f, true
				}
			}
		}
		return reflect.Value{}, false
	}
	return walk(reflect.ValueOf(p).Elem())
}

// vpScalars lists the plain fields of a struct and what it embeds.
func vpScalars(p interface{}) map[string]string {
	m := map[string]string{}
	var walk func(pre string, v reflect.Value)
	walk = func(pre string, v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			g, n := v.Field(i), pre+v.Type().Field(i).Name
			switch g.Kind() {
			case reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint32, reflect.Uint8, reflect.String:
				m[n] = fmt.Sprint(g)
			case reflect.Func, reflect.Ptr, reflect.Map, reflect.UnsafePointer:
				m[n] = fmt.Sprint(g.Pointer())
			case reflect.Struct:
				if g.Type().PkgPath() == "github.com/things-go/go-modbus" {
					walk(n+".", g)
				}
			}
		}
	}
	walk("", reflect.ValueOf(p).Elem())
	return m
}

// changed names the fields that differ.
func vpChanged(a, b map[string]string) (d []string) {
	for k := range a {
		if a[k] != b[k] {
			d = append(d, k)
		}
	}
	return
}

func vpLimits(r *vpRun) {
	p := &vpCount{TCPClientProvider: NewTCPClientProvider("127.0.0.1:1")}
	lo, hi := byte(1), byte(247)
	var opts []Option
	desc := ""
	for i := r.rng.Intn(4); i > 0; i-- {
		v := byte(r.n(0, 255))
		if r.coin() {
			opts, lo = append(opts, WithAddressMin(v)), v
			desc += fmt.Sprintf(" WithAddressMin(%d)", v)
		} else {
			opts, hi = append(opts, WithAddressMax(v)), v
			desc += fmt.Sprintf(" WithAddressMax(%d)", v)
		}
	}
	c := NewClient(p, opts...)
	for i := 0; i < 6; i++ {
		id := byte(r.n(0, 255))
		switch r.rng.Intn(4) {
		case 0:
			id = lo
		case 1:
			id = hi
		case 2:
			id = lo - 1
		case 3:
			id = hi + 1
		}
		r.in("NewClient with%s: read from slave %d", desc, id)
		p.n = 0
		c.ReadHoldingRegisters(id, 1, 1)
		r.check((p.n == 1) == (id >= lo && id <= hi), "%d requests sent, limits %d..%d", p.n, lo, hi)
	}
}

func vpLogging(r *vpRun) {
	kind := []string{"tcp", "rtu", "ascii"}[r.rng.Intn(3)]
	base := &vpLog{}
	logs := []*vpLog{base, {}, {}}
	cur, on := 0, false
	opts := []ClientProviderOption{WithLogProvider(base)}
	desc := " A"
	for i := r.rng.Intn(5); i > 0; i-- {
		switch r.rng.Intn(4) {
		case 0:
			opts, on = append(opts, WithEnableLogger()), true
			desc += " enable"
		case 1:
			opts = append(opts, WithLogProvider(nil))
			desc += " nil"
		case 2:
			opts, cur = append(opts, WithLogProvider(logs[1])), 1
			desc += " B"
		case 3:
			opts = append(opts, WithTCPTimeout(time.Second))
			desc += " timeout"
		}
	}
	p := vpProvider(kind, opts...)
	if r.rng.Intn(3) == 0 {
		on = r.coin()
		p.LogMode(on)
		desc += fmt.Sprintf(" LogMode(%v)", on)
	}
	r.in("%s provider with loggers%s exchanges a request", kind, desc)
	c := &vpConn{end: io.EOF}
	c.reply = func(f []byte) [][]byte {
		if kind == "tcp" {
			return [][]byte{vpTCP(uint16(f[0])<<8|uint16(f[1]), 1, []byte{6, 0, 1, 0, 2})}
		}
		return [][]byte{vpFrame(kind, 0, 1, []byte{6, 0, 1, 0, 2})}
	}
	r.plug(p, c)
	p.SendPdu(1, []byte{6, 0, 1, 0, 2})
	for i, l := range logs {
		got := l.d+l.e > 0
		r.check(got == (on && i == cur), "logger %c gets %d messages; logging %v, last logger %c", 'A'+i, l.d+l.e, on, 'A'+cur)
	}
}

func vpServerLogging(r *vpRun) {
	v := vpNewSrv(r)
	l := &vpLog{}
	v.s.setLogProvider(l)
	on := false
	if r.coin() {
		on = r.coin()
		v.s.LogMode(on)
	}
	if r.coin() {
		v.s.setLogProvider(nil)
	}
	f := v.frame(r, false)
	r.in("%s; logging %v; a session reads %x", v.desc, on, f)
	p, _ := v.run(r, &vpConn{chunks: [][]byte{f}, end: io.EOF})
	r.check(p == nil, "panic: %v", p)
	r.check((l.d+l.e > 0) == on, "%d messages with logging %v", l.d+l.e, on)
}

func vpSerialCfg(r *vpRun) {
	cfg := serial.Config{Address: fmt.Sprintf("/dev/vp%d", r.rng.Intn(9)), BaudRate: r.n(0, 115200), DataBits: r.n(5, 8), StopBits: r.n(1, 2), Parity: []string{"N", "E", "O", ""}[r.rng.Intn(4)], Timeout: time.Duration(r.n(0, 5000)) * time.Millisecond}
	kind := []string{"rtu", "ascii"}[r.rng.Intn(2)]
	opts := []ClientProviderOption{WithSerialConfig(cfg)}
	if r.coin() {
		opts = append(opts, WithTCPTimeout(7*time.Second), WithEnableLogger())
	}
	r.in("%s provider, serial configuration %+v", kind, cfg)
	p := vpProvider(kind, opts...)
	if f, ok := vpFieldOf(p, reflect.TypeOf(cfg)); ok {
		r.check(reflect.DeepEqual(f.Interface(), cfg), "it keeps %+v", f.Interface())
	}
}

// field reads a scalar field by name, if there is one.
func vpField(p interface{}, name string) (string, bool) {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() {
		return "", false
	}
	if f.Kind() == reflect.Func || f.Kind() == reflect.Ptr {
		return fmt.Sprint(f.Pointer()), true
	}
	return fmt.Sprint(f), true
}

func vpServerCfg(r *vpRun) {
	want := func(p interface{}, m map[string]string, set string, f func()) {
		a := vpScalars(p)
		f()
		b := vpScalars(p)
		for n := range m {
			if _, ok := vpField(p, n); !ok {
				return // kept elsewhere: the harness cannot tell
			}
		}
		for _, k := range vpChanged(a, b) {
			known := false
			for n := range m {
				known = known || k == n || k == "ServerSession."+n
			}
			r.check(known, "%s changes %s from %s to %s", set, k, a[k], b[k])
		}
		for n, v := range m {
			if g, ok := vpField(p, n); ok && v != "*" {
				r.check(g == v, "%s: %s is %s, want %s", set, n, g, v)
			}
		}
	}
	t := time.Duration(r.n(-5, 100000)) * time.Millisecond
	if r.rng.Intn(4) == 0 {
		t = 0
	}
	ts := fmt.Sprint(int64(t))
	a, b := NewTCPServer(), NewTCPServerSpecial()
	r.in("setters of the two servers with %v", t)
	for _, p := range []interface{}{a, b} {
		want(p, map[string]string{"readTimeout": "60000000000", "writeTimeout": "1000000000"}, "a new server", func() {})
	}
	want(b, map[string]string{"connectTimeout": "15000000000", "reconnectInterval": "60000000000", "keepAliveInterval": "30000000000", "autoReconnect": "true", "enableKeepAlive": "false"}, "a new server", func() {})
	for i := 0; i < 6; i++ {
		switch r.rng.Intn(10) {
		case 0:
			want(a, map[string]string{"readTimeout": ts}, "SetReadTimeout", func() { r.check(a.SetReadTimeout(t) == a, "another server returned") })
		case 1:
			want(a, map[string]string{"writeTimeout": ts}, "SetWriteTimeout", func() { r.check(a.SetWriteTimeout(t) == a, "another server returned") })
		case 2:
			want(b, map[string]string{"readTimeout": ts}, "SetReadTimeout", func() { r.check(b.SetReadTimeout(t) == b, "another server returned") })
		case 3:
			want(b, map[string]string{"writeTimeout": ts}, "SetWriteTimeout", func() { r.check(b.SetWriteTimeout(t) == b, "another server returned") })
		case 4:
			want(b, map[string]string{"connectTimeout": ts}, "SetConnectTimeout", func() { r.check(b.SetConnectTimeout(t) == b, "another server returned") })
		case 5:
			want(b, map[string]string{"reconnectInterval": ts}, "SetReconnectInterval", func() { r.check(b.SetReconnectInterval(t) == b, "another server returned") })
		case 6:
			on := r.coin()
			want(b, map[string]string{"autoReconnect": fmt.Sprint(on)}, "EnableAutoReconnect", func() { r.check(b.EnableAutoReconnect(on) == b, "another server returned") })
		case 7:
			on := r.coin()
			w := map[string]string{"enableKeepAlive": fmt.Sprint(on)}
			if t > 0 {
				w["keepAliveInterval"] = ts
			}
			var f OnKeepAliveHandler
			if r.coin() {
				f = func(*TCPServerSpecial) {}
				w["onKeepAlive"] = fmt.Sprint(reflect.ValueOf(f).Pointer())
			}
			want(b, w, "SetKeepAlive", func() { b.SetKeepAlive(on, t, f) })
		case 8:
			want(b, nil, "SetOnConnectHandler(nil)", func() { b.SetOnConnectHandler(nil) })
			f := func(*TCPServerSpecial) error { return nil }
			want(b, map[string]string{"onConnect": fmt.Sprint(reflect.ValueOf(f).Pointer())}, "SetOnConnectHandler", func() { b.SetOnConnectHandler(f) })
		case 9:
			want(b, nil, "SetConnectionLostHandler(nil)", func() { b.SetConnectionLostHandler(nil) })
			f := func(*TCPServerSpecial) {}
			want(b, map[string]string{"onConnectionLost": fmt.Sprint(reflect.ValueOf(f).Pointer())}, "SetConnectionLostHandler", func() { b.SetConnectionLostHandler(f) })
		}
	}
}

func vpTCPDefault(r *vpRun) {
	to := time.Second
	var opts []ClientProviderOption
	if r.coin() {
		for k := 1 + r.rng.Intn(2); k > 0; k-- { // the last one counts
			to = time.Duration(r.n(1, 9000)) * time.Millisecond
			switch r.rng.Intn(5) {
			case 0:
				to = 0
			case 1:
				to = -to
			}
			opts = append(opts, WithTCPTimeout(to))
		}
	}
	if r.coin() {
		opts = append(opts, WithSerialConfig(serial.Config{Timeout: 3 * time.Hour}))
	}
	p := NewTCPClientProvider("127.0.0.1:1", opts...)
	c := &vpConn{end: io.EOF}
	var d time.Time
	wrote := false
	c.hook = func(ev string, n int) {
		if ev == "write" && !wrote {
			wrote, d = true, c.wdl
		}
	}
	r.plug(p, c)
	r.in("a TCP provider with %d options, timeout %v", len(opts), to)
	t0 := time.Now()
	p.SendPdu(1, []byte{6, 0, 1, 0, 2})
	t1 := time.Now()
	if to <= 0 {
		r.check(wrote && d.IsZero(), "it writes under a deadline of %v from the start, timeout %v", d.Sub(t0), to)
		return
	}
	r.check(wrote && !d.Before(t0.Add(to)) && !d.After(t1.Add(to)), "it writes under a deadline of %v from the start, timeout %v", d.Sub(t0), to)
}

func TestVP_C32(t *testing.T) {
	r := vpStart(t, "C32", "random option lists for clients and providers and random setter sequences on the servers, observed through requests sent, deadlines armed, log messages and the stored fields")
	r.run(func() {
		for r.more() {
			switch r.rng.Intn(6) {
			case 0:
				vpLimits(r)
			case 1:
				vpLogging(r)
			case 2:
				vpServerLogging(r)
			case 3:
				vpSerialCfg(r)
			case 4:
				vpServerCfg(r)
			case 5:
				vpTCPDefault(r)
			}
		}
	})
}

func TestVP_C27(t *testing.T) {
	r := vpStart(t, "C27", "random sequences of node and handler registrations on a server, compared with plain maps after every step; handler dispatch through a session")
	r.run(func() {
		for r.more() {
			if r.rng.Intn(3) > 0 {
				vpRegistry(r)
			} else {
				vpDispatch(r)
			}
		}
	})
}

func vpRegistry(r *vpRun) {
	s := NewTCPServer()
	m := map[byte]*NodeRegister{}
	desc := ""
	for i := 0; i < 12; i++ {
		id := byte(r.n(0, 9))
		if r.rng.Intn(5) == 0 {
			id = r.byte()
		}
		switch r.rng.Intn(8) {
		case 0, 1, 2, 3:
			var ns []*NodeRegister
			desc += " Add("
			for k := r.rng.Intn(6); k > 0; k-- {
				id := byte(r.n(0, 9))
				nd := NewNodeRegister(id, 0, 1, 0, 1, 0, 1, 0, 1)
				ns, m[id] = append(ns, nd), nd
				desc += fmt.Sprintf(" %d", id)
			}
			desc += ")"
			s.AddNodes(ns...)
		case 4, 5:
			desc += fmt.Sprintf(" Delete(%d)", id)
			s.DeleteNode(id)
			delete(m, id)
		case 6:
			if r.coin() {
				desc += " DeleteAll"
				s.DeleteAllNode()
				m = map[byte]*NodeRegister{}
			}
		case 7: // a node under another id from now on
			if nd := m[id]; nd != nil && r.coin() {
				desc += fmt.Sprintf(" SetSlaveID(%d->%d) Add", id, id+1)
				nd.SetSlaveID(id + 1)
				s.AddNodes(nd)
				m[id+1] = nd
			}
		}
		r.in("a server after%s", desc)
		for k := 0; k < 256; k++ {
			g, err := s.GetNode(byte(k))
			if w := m[byte(k)]; w != nil {
				r.check(err == nil && g == w, "GetNode(%d) gives %p, %v, want %p", k, g, err, w)
			} else {
				r.check(err != nil && g == nil, "GetNode(%d) gives %p, %v, want an error", k, g, err)
			}
		}
		l := s.GetNodeList()
		r.check(len(l) == len(m), "GetNodeList has %d nodes, want %d", len(l), len(m))
		left := map[*NodeRegister]int{}
		for _, nd := range m {
			left[nd]++
		}
		for _, nd := range l {
			left[nd]--
			r.check(left[nd] >= 0, "GetNodeList has a node too many")
		}
		seen := map[byte]bool{}
		s.Range(func(id byte, nd *NodeRegister) bool {
			r.check(m[id] == nd && !seen[id], "Range yields %d %p (again %v)", id, nd, seen[id])
			seen[id] = true
			return true
		})
		r.check(len(seen) == len(m), "Range yields %d nodes, want %d", len(seen), len(m))
		n, stop := 0, 1+r.rng.Intn(3)
		s.Range(func(byte, *NodeRegister) bool { n++; return n < stop })
		w := len(m)
		if w > stop {
			w = stop
		}
		r.check(n == w, "Range goes on after false: %d calls, want %d", n, w)
	}
}

func vpDispatch(r *vpRun) {
	s := NewTCPServerSpecial()
	tab := vpMkTable(1, 0, 20, 0, 20, 0, 20, 0, 20)
	tab.fill(r)
	s.AddNodes(tab.node)
	mark := map[byte]byte{}
	desc := ""
	for i := r.rng.Intn(5); i > 0; i-- {
		fc := vpCodes[r.rng.Intn(len(vpCodes))]
		if r.coin() {
			fc = byte(r.n(1, 127))
		}
		if r.rng.Intn(4) == 0 {
			desc += fmt.Sprintf(" register %d nil,", fc)
			s.RegisterFunctionHandler(fc, nil)
			continue
		}
		k := r.byte()
		mark[fc] = k
		desc += fmt.Sprintf(" register %d,", fc)
		s.RegisterFunctionHandler(fc, func(*NodeRegister, []byte) ([]byte, error) { return []byte{0xC0, k}, nil })
	}
	var in, want []byte
	for i := 0; i < 4; i++ {
		fc := vpCodes[r.rng.Intn(len(vpCodes))]
		if r.coin() {
			fc = byte(r.n(0, 255))
		}
		d := tab.request(r, fc)
		if len(d) > 252 {
			d = d[:252]
		}
		f := vpTCP(uint16(i), 1, append([]byte{fc}, d...))
		in = append(in, f...)
		if k, ok := mark[fc]; ok {
			want = append(want, vpTCP(uint16(i), 1, []byte{fc, 0xC0, k})...)
			continue
		}
		ans, exc := tab.serve(fc, d)
		pdu := append([]byte{fc}, ans...)
		if exc != 0 {
			pdu = []byte{fc | 0x80, exc}
		}
		want = append(want, vpTCP(uint16(i), 1, pdu)...)
	}
	v := &vpSrv{s: s}
	c := &vpConn{chunks: [][]byte{in}, end: io.EOF}
	r.in("a server (%s), %s a session reads %x", tab.desc, desc, in)
	p, _ := v.run(r, c)
	r.check(p == nil, "panic: %v", p)
	r.check(vpSameBytes(c.wrote, want), "it answers %x, want %x", c.wrote, want)
	tab.same(r, "after the session")
}
