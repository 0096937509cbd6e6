package modbus

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"testing"
	"time"
	"unsafe"
)

// vpSrv is a server with two nodes, some handlers of the caller's, and the oracle for all of it.
type vpSrv struct {
	s      *TCPServerSpecial
	tabs   map[byte]*vpTable
	desc   string
	served int // times one of the caller's handlers ran
	wantN  int
}

// handler kinds of the caller's
const (
	vpHData = iota
	vpHExc
	vpHErr
	vpHNilExc
	vpHPanic
	vpHAlias
	vpHEmpty
	vpHLong
	vpHWrapped
	vpHKinds
)

var vpCustom = [vpHKinds]byte{100, 0, 127, 80, 65, 42, 99, 30, 7}

func vpNewSrv(r *vpRun) *vpSrv {
	v := &vpSrv{s: NewTCPServerSpecial(), tabs: map[byte]*vpTable{}}
	a, b := byte(r.n(0, 255)), byte(r.n(0, 255))
	for _, id := range []byte{a, b} {
		q := func() (uint16, uint16) { return uint16(r.n(0, 40)), uint16(r.n(0, 80)) }
		cs, cn := q()
		ds, dn := q()
		is, in := q()
		hs, hn := q()
		if r.rng.Intn(5) == 0 {
			cn, dn, in, hn = 2100, 2100, 130, 130
		}
		t := vpMkTable(id, cs, cn, ds, dn, is, in, hs, hn)
		t.fill(r)
		v.tabs[id] = t
		v.s.AddNodes(t.node)
		v.desc += t.desc + " "
	}
	v.s.RegisterFunctionHandler(vpCustom[vpHData], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return []byte{byte(len(d)), 0xAB}, nil
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHExc], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return []byte{1, 2, 3}, &ExceptionError{ExceptionCode: byte(len(d))}
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHErr], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return nil, errors.New("handler error")
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHNilExc], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return nil, (*ExceptionError)(nil)
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHPanic], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		panic("handler panics")
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHAlias], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return d[len(d)/2:], nil
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHEmpty], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return nil, nil
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHLong], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return make([]byte, 252), nil
	})
	v.s.RegisterFunctionHandler(vpCustom[vpHWrapped], func(_ *NodeRegister, d []byte) ([]byte, error) {
		v.served++
		return d, fmt.Errorf("failed with %d bytes", len(d))
	})
	return v
}

// answer: what the server has to write for one complete frame.
func (v *vpSrv) answer(f []byte) []byte {
	t := v.tabs[f[6]]
	if t == nil {
		return nil
	}
	fc, d := f[7], f[8:]
	var ans []byte
	exc := byte(0)
	isExc := false
	mine := true
	switch fc {
	case vpCustom[vpHData]:
		ans = []byte{byte(len(d)), 0xAB}
	case vpCustom[vpHExc]:
		exc, isExc = byte(len(d)), true
	case vpCustom[vpHErr], vpCustom[vpHNilExc], vpCustom[vpHWrapped]:
		exc, isExc = 4, true
	case vpCustom[vpHPanic]:
		v.wantN++
		return nil
	case vpCustom[vpHAlias]:
		ans = append([]byte(nil), d[len(d)/2:]...)
	case vpCustom[vpHEmpty]:
	case vpCustom[vpHLong]:
		ans = make([]byte, 252)
	default:
		mine = false
		ans, exc = t.serve(fc, d)
		isExc = exc != 0
	}
	if mine {
		v.wantN++
	}
	pdu := append([]byte{fc}, ans...)
	if isExc {
		pdu = []byte{fc | 0x80, exc}
	}
	o := vpTCP(uint16(f[0])<<8|uint16(f[1]), f[6], pdu)
	return o
}

// stream: what the server has to write for a whole byte stream.
func (v *vpSrv) stream(b []byte) (out []byte) {
	for {
		if len(b) < 7 {
			return
		}
		if vpU16(b[2:]) != 0 {
			b = b[7:]
			continue
		}
		n := vpU16(b[4:]) + 6
		if n < 8 || n > 260 || len(b) < n {
			return
		}
		out = append(out, v.answer(b[:n])...)
		b = b[n:]
	}
}

// run plays a connection to the server's session until the session ends.
func (v *vpSrv) run(r *vpRun, c net.Conn) (p interface{}, ended bool) {
	var sess *ServerSession = &v.s.ServerSession
	f := reflect.ValueOf(sess).Elem()
	ct := reflect.TypeOf((*net.Conn)(nil)).Elem()
	ok := false
	for i := 0; i < f.NumField(); i++ {
		if g := f.Field(i); g.Type() == ct {
			reflect.NewAt(ct, unsafe.Pointer(g.UnsafeAddr())).Elem().Set(reflect.ValueOf(c))
			ok = true
		}
	}
	if !ok {
		r.err = "the session has no connection field the harness can fill"
		panic(vpStop{})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ended = vpSoon(func() { p = vpTry(func() { sess.running(ctx) }) })
	return
}

// frame draws a request frame; hostile: with broken headers, too.
func (v *vpSrv) frame(r *vpRun, hostile bool) []byte {
	var ids []byte
	for id := range v.tabs {
		ids = append(ids, id)
	}
	if len(ids) > 1 && ids[0] > ids[1] {
		ids[0], ids[1] = ids[1], ids[0]
	}
	id := ids[r.rng.Intn(len(ids))]
	t := v.tabs[id]
	if r.rng.Intn(6) == 0 {
		id = byte(r.n(0, 255))
	}
	fc := vpCodes[r.rng.Intn(len(vpCodes))]
	var d []byte
	switch r.rng.Intn(6) {
	case 0:
		fc = vpCustom[r.rng.Intn(len(vpCustom))]
		d = r.bytes(r.n(0, 252))
	case 1:
		fc = r.byte()
		d = r.bytes(r.n(0, 252))
	default:
		d = t.request(r, fc)
	}
	if len(d) > 252 {
		d = d[:252]
	}
	f := vpTCP(r.u16(), id, append([]byte{fc}, d...))
	if hostile {
		switch r.rng.Intn(10) {
		case 0:
			f[2], f[3] = r.byte(), r.byte()
		case 1:
			n := []int{0, 1, 2, 3, 253, 254, 255, 256, 0xFFFF, 0x8000, 1 + len(d), 3 + len(d)}[r.rng.Intn(12)]
			f[4], f[5] = byte(n>>8), byte(n)
		case 2:
			f = r.bytes(r.n(0, 30))
		case 3:
			f = append(r.bytes(7), f...)
			f[2] = 1 + byte(r.rng.Intn(255))
		case 4:
			f = f[:r.rng.Intn(len(f)+1)]
		case 5: // exactly the longest frame
			f = vpTCP(r.u16(), id, append([]byte{fc}, r.bytes(252)...))
		case 6: // one byte more than the longest
			f = vpTCP(r.u16(), id, append([]byte{fc}, r.bytes(253)...))
		}
	}
	return f
}

func (r *vpRun) sessEnd() error {
	return []error{io.EOF, errors.New("read failed"), vpNetTimeout, vpTemp{true}, vpTemp{false}, errors.New("read: use of closed network connection")}[r.rng.Intn(6)]
}

func vpSessions(r *vpRun, hostile bool) {
	for r.more() {
		v := vpNewSrv(r)
		var in []byte
		k := r.n(0, 6)
		if !hostile {
			k = 1 + r.rng.Intn(3)
		}
		for i := 0; i < k; i++ {
			in = append(in, v.frame(r, hostile)...)
		}
		segs := r.segment(in)
		c := &vpConn{chunks: segs, end: r.sessEnd()}
		if r.rng.Intn(5) == 0 {
			c.short = 1 + r.rng.Intn(30)
		}
		r.in("%s filled; a session reads %x in %d pieces, then %v; writes take at most %d bytes (0: all)", v.desc, in, len(segs), c.end, c.short)
		want := v.stream(in)
		p, ended := v.run(r, c)
		r.check(p == nil, "the session panics: %v", p)
		r.check(ended, "the session does not end with its connection")
		r.check(vpSameBytes(c.wrote, want), "it writes %x, want %x", c.wrote, want)
		r.check(v.served == v.wantN, "%d calls of the registered handlers, want %d", v.served, v.wantN)
		for _, t := range v.tabs {
			t.same(r, "after the session")
		}
		r.check(c.closed > 0, "the connection is not closed")
	}
}

func TestVP_C24(t *testing.T) {
	r := vpStart(t, "C24", "sessions over one to three request frames for known and unknown nodes, standard, registered and unregistered functions, any segmentation; all bytes written and all tables compared")
	r.run(func() { vpSessions(r, false) })
}

func TestVP_C25(t *testing.T) {
	r := vpStart(t, "C25", "sessions over streams of request frames, frames with broken headers, random bytes and cut-off frames, any segmentation; all bytes written and all tables compared")
	r.run(func() { vpSessions(r, true) })
}

func TestVP_C31(t *testing.T) {
	r := vpStart(t, "C31", "exchanges of a TCP client provider and sessions of a server over a recording connection; the deadline in force checked at every read and write")
	r.run(func() {
		for r.more() {
			to := []time.Duration{time.Second, 250 * time.Millisecond, time.Hour, 3 * time.Second}[r.rng.Intn(4)]
			if r.coin() {
				vpClientDeadlines(r)
			} else {
				vpSessionDeadlines(r, to)
			}
		}
	})
}

func vpClientDeadlines(r *vpRun) {
	to := time.Duration(r.n(1, 5000)) * time.Millisecond
	if r.rng.Intn(4) == 0 {
		to = -time.Duration(r.rng.Intn(2)) * time.Second
	}
	p := NewTCPClientProvider("127.0.0.1:1", WithTCPTimeout(to))
	c := &vpConn{end: r.endErr(false)}
	s := append(r.bytes(4), byte(r.rng.Intn(2)), byte(r.n(0, 255)))
	s = append(s, r.bytes(r.n(0, 300))...)
	c.reply = func([]byte) [][]byte { return r.segment(s) }
	r.plug(p, c)
	for rep := 0; rep < 2; rep++ {
		bad := ""
		start := time.Now()
		reads := 0
		if rep == 1 && r.rng.Intn(40) == 0 {
			time.Sleep(3 * time.Millisecond)
		}
		c.hook = func(ev string, n int) {
			now := time.Now()
			d := c.wdl
			if ev == "read" {
				d = c.rdl
				reads++
			} else if ev != "write" {
				return
			}
			if to > 0 {
				// in force, armed by this exchange, and not further ahead than the timeout
				if d.IsZero() || d.After(now.Add(to)) || d.Before(start) || d.After(now) && d.Before(start.Add(to)) {
					bad = fmt.Sprintf("%s %d under deadline %v from the start of the exchange, timeout %v", ev, n, d.Sub(start), to)
				}
			} else if !d.IsZero() && d.After(now) {
				bad = fmt.Sprintf("%s %d under a deadline although no timeout is configured", ev, n)
			}
		}
		r.in("timeout %v, stream %x then %v, exchange %d", to, s, c.end, rep)
		if r.coin() {
			p.SendRawFrame(vpTCP(1, 1, []byte{3, 0, 0, 0, 1}))
		} else {
			p.SendPdu(1, []byte{3, 0, 0, 0, 1})
		}
		r.check(bad == "", "%s", bad)
		if c.closed > 0 {
			break
		}
		// stale deadlines must not serve the next exchange
		c.rdl, c.wdl = start.Add(-time.Hour), start.Add(-time.Hour)
		if to > 0 && r.coin() {
			c.rdl, c.wdl = time.Time{}, time.Time{}
		}
	}
}

func vpSessionDeadlines(r *vpRun, to time.Duration) {
	v := vpNewSrv(r)
	wt := []time.Duration{time.Second, 100 * time.Millisecond, time.Hour, 2 * time.Second}[r.rng.Intn(4)]
	v.s.SetReadTimeout(to).SetWriteTimeout(wt)
	var in []byte
	for i := 0; i < 1+r.rng.Intn(4); i++ {
		in = append(in, v.frame(r, r.rng.Intn(4) == 0)...)
	}
	c := &vpConn{chunks: r.segment(in), end: r.sessEnd()}
	if r.rng.Intn(4) == 0 {
		c.short = 1 + r.rng.Intn(20)
	}
	start := time.Now()
	last, from := start, start // the last transfer, the one before the present buffer
	had, wanted := 0, 0
	bad := ""
	c.hook = func(ev string, n int) {
		if ev != "read" && ev != "write" || bad != "" {
			return
		}
		now := time.Now()
		d, t := c.rdl, to
		if ev == "write" {
			d, t = c.wdl, wt
		}
		// reads that go on filling the same buffer may share a deadline
		if ev == "write" || wanted == len(c.consumed)-had {
			from = last
		}
		had, wanted = len(c.consumed), n
		if ev == "write" {
			wanted = 0
		}
		if d.IsZero() {
			bad = fmt.Sprintf("a %s without a deadline", ev)
		} else if d.Before(from.Add(t)) || d.After(now.Add(t)) {
			bad = fmt.Sprintf("a %s under a deadline %v from now, timeout %v", ev, d.Sub(now), t)
		}
		last = now
	}
	r.in("%s; a session with timeouts %v / %v reads %x", v.desc, to, wt, in)
	p, ended := v.run(r, c)
	r.check(p == nil, "panic: %v", p)
	r.check(ended, "the session does not end with its connection")
	r.check(bad == "", "%s", bad)
}
