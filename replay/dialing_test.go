package modbus

// race: C34

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVP_C34(t *testing.T) {
	r := vpStart(t, "C34", "dialing servers against remotes on the loopback interface that are not there at first, drop connections or keep them, with connect callbacks that refuse, keep-alive on or off, closed at random moments, also right after Start, and started again")
	r.run(func() {
		for r.more() {
			const n = 32
			var ps [n]*vpDialing
			var wg sync.WaitGroup
			for i := range ps {
				p := &vpDialing{
					host:    fmt.Sprintf("127.%d.%d.%d:0", r.n(1, 200), r.n(0, 250), r.n(1, 250)),
					auto:    !r.coin() || r.coin(),
					late:    r.n(0, 3) == 0,
					refuse:  r.n(0, 3),
					drops:   r.n(0, 2),
					keep:    r.coin(),
					tick:    time.Duration(r.n(2, 6)) * time.Millisecond,
					again:   r.coin(),
					early:   r.n(0, 3) == 0,
					delay:   time.Duration(r.n(0, 3000)) * time.Microsecond,
					twice:   r.coin(),
					restart: r.n(0, 3) == 0,
				}
				if r.n(0, 2) == 0 {
					p.refuse = 0
				}
				if r.n(0, 4) == 0 {
					p.delay = 0
				}
				if !p.auto {
					p.refuse, p.drops = 0, 0
				}
				ps[i] = p
			}
			for _, p := range ps {
				wg.Add(1)
				go func(p *vpDialing) {
					defer wg.Done()
					p.go1()
				}(p)
			}
			wg.Wait()
			for _, p := range ps {
				r.in("%s", p)
				r.check(p.bad == "", "%s", p.bad)
			}
		}
	})
}

type vpDialing struct {
	skip, quiet                                    bool
	kept                                           int
	alive                                          *int32
	host                                           string
	auto, late, keep, again, early, twice, restart bool
	refuse, drops                                  int
	tick, delay                                    time.Duration
	bad                                            string
	mu                                             sync.Mutex
	connects, oks, losts, keeps, accepts, ends     int
	conns                                          []net.Conn
	l                                              net.Listener
	s                                              *TCPServerSpecial
}

func (p *vpDialing) String() string {
	return fmt.Sprintf("automatic reconnection %v, remote there only after a while %v, %d refused connects, %d dropped connections, keep-alive %v every %v, a second Start %v, Close %v after Start %v (twice %v), started again %v",
		p.auto, p.late, p.refuse, p.drops, p.keep, p.tick, p.again, p.delay, p.early, p.twice, p.restart)
}

func (p *vpDialing) fail(f string, a ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
}

// until waits for a condition, at most half a minute.
func (p *vpDialing) until(what string, f func() bool) bool {
	end := time.Now().Add(30 * time.Second)
	for {
		p.mu.Lock()
		ok, bad := f(), p.bad != ""
		p.mu.Unlock()
		if ok {
			return true
		}
		if bad {
			return false
		}
		if time.Now().After(end) {
			p.fail("%s: not within 30 s", what)
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func (p *vpDialing) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.accepts++
		p.conns = append(p.conns, c)
		p.mu.Unlock()
		go func() {
			// ends when the dialing server closes its side, or we close ours
			io.Copy(io.Discard, c)
			p.mu.Lock()
			p.ends++
			p.mu.Unlock()
		}()
		go func() { // requests: one at once, then every 50 ms
			for {
				if _, err := c.Write(vpTCP(7, 1, []byte{100, 1})); err != nil {
					return
				}
				time.Sleep(50 * time.Millisecond)
			}
		}()
	}
}

func (p *vpDialing) go1() {
	l, err := net.Listen("tcp", p.host)
	if err != nil {
		p.skip = true
		return
	}
	addr := l.Addr().String()
	if p.late {
		l.Close()
	} else {
		p.l = l
		go p.serve(l)
	}
	defer func() {
		if p.l != nil {
			p.l.Close()
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		for _, c := range p.conns {
			c.Close()
		}
	}()
	s := NewTCPServerSpecial()
	p.s = s
	var inside, kept int32
	p.alive = &kept
	s.AddNodes(NewNodeRegister(1, 0, 10, 0, 10, 0, 10, 0, 10))
	s.RegisterFunctionHandler(100, func(*NodeRegister, []byte) ([]byte, error) {
		atomic.AddInt32(&inside, 1)
		if !s.IsConnected() || s.IsClosed() {
			p.fail("a request is served while IsConnected is %v and IsClosed is %v", s.IsConnected(), s.IsClosed())
		}
		return []byte{1}, nil
	})
	s.SetReadTimeout(15 * time.Second)
	s.SetConnectTimeout(5 * time.Second)
	if p.auto || !p.again {
		s.SetReconnectInterval(3 * time.Millisecond)
	} else {
		s.SetReconnectInterval(0)
	}
	s.EnableAutoReconnect(p.auto)
	s.SetKeepAlive(p.keep, p.tick, func(c *TCPServerSpecial) {
		atomic.AddInt32(&kept, 1)
		p.mu.Lock()
		oks := p.oks
		p.mu.Unlock()
		if !p.keep || oks == 0 || c != s {
			p.fail("the keep-alive handler is called (enabled %v) after %d connections", p.keep, oks)
		}
	})
	s.SetOnConnectHandler(func(c *TCPServerSpecial) error {
		up, down := s.IsConnected(), s.IsClosed()
		p.mu.Lock()
		defer p.mu.Unlock()
		p.connects++
		if n := int(atomic.LoadInt32(&kept)); p.bad == "" && p.quiet && n != p.kept {
			p.bad = fmt.Sprintf("%d calls of the keep-alive handler between the loss of a connection and the next one", n-p.kept)
		}
		p.quiet = false
		if p.bad == "" && (p.oks != p.losts || up || down || c != s) {
			p.bad = fmt.Sprintf("connect callback after %d connections and %d connection-lost callbacks, connected %v, closed %v", p.oks, p.losts, up, down)
		}
		if p.connects <= p.refuse {
			return errors.New("refused")
		}
		p.oks++
		return nil
	})
	s.SetConnectionLostHandler(func(c *TCPServerSpecial) {
		up, down := s.IsConnected(), s.IsClosed()
		p.mu.Lock()
		defer p.mu.Unlock()
		p.losts++
		if p.bad == "" && (p.oks != p.losts || up || down || c != s) {
			p.bad = fmt.Sprintf("connection-lost callback number %d after %d connections, connected %v, closed %v", p.losts, p.oks, up, down)
		}
	})
	if s.Start() == nil {
		p.fail("Start without a remote server succeeds")
		return
	}
	if !s.IsClosed() {
		p.fail("not closed before Start")
		return
	}
	if err := s.AddRemoteServer("tcp://" + addr); err != nil {
		p.fail("AddRemoteServer: %v", err)
		return
	}
	start := func() bool {
		if err := s.Start(); err != nil {
			p.fail("Start: %v", err)
			return false
		}
		if p.again {
			if err := s.Start(); err != nil {
				p.fail("second Start: %v", err)
				return false
			}
		}
		return true
	}
	if !start() {
		return
	}
	if p.early {
		if p.delay > 0 {
			time.Sleep(p.delay)
		}
		p.close()
		return
	}
	if p.late {
		time.Sleep(10 * time.Millisecond)
		if !p.auto { // the first dial fails, and that is the end
			if !p.until("the server without automatic reconnection stops after a failed dial", s.IsClosed) {
				return
			}
		}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			p.skip = true
			p.close()
			return
		}
		p.l = l
		go p.serve(l)
		if !p.auto {
			time.Sleep(30 * time.Millisecond)
			p.mu.Lock()
			n := p.accepts + p.connects
			p.mu.Unlock()
			if n > 0 {
				p.fail("a server without automatic reconnection dials again after a failed dial")
			}
			return
		}
	}
	for k := 0; ; k++ {
		was := atomic.LoadInt32(&inside)
		if !p.until(fmt.Sprintf("connection number %d is established", k+1), func() bool { return p.oks == k+1 }) {
			return
		}
		if !p.until("a connected server answers", func() bool { return atomic.LoadInt32(&inside) > was }) {
			return
		}
		if p.keep {
			was := atomic.LoadInt32(&kept)
			if !p.until("keep-alive handler called", func() bool { return atomic.LoadInt32(&kept) > was }) {
				return
			}
		}
		p.mu.Lock()
		if p.bad == "" && (p.accepts != p.connects || p.losts != k || p.connects != p.refuse+k+1) {
			p.bad = fmt.Sprintf("during connection number %d: %d connections accepted by the remote, %d connect callbacks (%d to be refused), %d connection-lost callbacks", k+1, p.accepts, p.connects, p.refuse, p.losts)
		}
		p.mu.Unlock()
		if !p.until("refused and lost connections are closed", func() bool { return p.ends >= p.accepts-1 }) {
			return
		}
		if k >= p.drops {
			break
		}
		p.mu.Lock()
		c := p.conns[len(p.conns)-1]
		p.mu.Unlock()
		c.Close()
		if !p.until("connection-lost callback called", func() bool { return p.losts == k+1 }) {
			return
		}
		time.Sleep(150 * time.Millisecond)
		p.mu.Lock()
		p.quiet = p.oks == k+1
		p.kept = int(atomic.LoadInt32(&kept))
		p.mu.Unlock()
	}
	time.Sleep(p.delay)
	if !p.close() {
		return
	}
	if p.restart {
		p.mu.Lock()
		oks := p.oks
		p.mu.Unlock()
		if start() && p.until("a server started again connects", func() bool { return p.oks == oks+1 }) {
			p.close()
		}
	}
}

// close closes the server, waits for its end and sees that nothing follows.
func (p *vpDialing) close() bool {
	if p.twice {
		go p.s.Close()
	}
	if err := p.s.Close(); err != nil {
		p.fail("Close: %v", err)
	}
	if !p.until("the closed server stops", p.s.IsClosed) {
		return false
	}
	if !p.until("the connections of a closed server are closed", func() bool { return p.ends == p.accepts }) {
		return false
	}
	time.Sleep(100 * time.Millisecond) // what the remote has not accepted yet
	k := atomic.LoadInt32(p.alive)
	p.mu.Lock()
	a, c, l := p.accepts, p.connects, p.losts
	if p.bad == "" && p.oks != p.losts {
		p.bad = fmt.Sprintf("%d connections and %d connection-lost callbacks when the server has stopped", p.oks, p.losts)
	}
	p.mu.Unlock()
	time.Sleep(60 * time.Millisecond)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.bad == "" && (p.accepts != a || p.connects != c || p.losts != l || !p.s.IsClosed()) {
		p.bad = fmt.Sprintf("after the server has stopped: %d more connections, %d more connect callbacks", p.accepts-a, p.connects-c)
	}
	if n := atomic.LoadInt32(p.alive); p.bad == "" && n != k {
		p.bad = fmt.Sprintf("%d calls of the keep-alive handler after the server has stopped", n-k)
	}
	return p.bad == ""
}
