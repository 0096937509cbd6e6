package modbus

// race: C33

import (
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVP_C33(t *testing.T) {
	r := vpStart(t, "C33", "servers on the loopback interface closed, once or twice at a time, while clients connect, send requests and wait in a slow handler; afterwards nothing may run, answer or listen")
	r.run(func() {
		for r.more() {
			vpCloseServer(r)
		}
	})
}

func vpCloseServer(r *vpRun) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.err = err.Error()
		panic(vpStop{})
	}
	addr := l.Addr().String()
	l.Close()
	s := NewTCPServer()
	s.SetReadTimeout(time.Duration(r.n(1, 40)) * time.Millisecond)
	s.AddNodes(NewNodeRegister(1, 0, 10, 0, 10, 0, 10, 0, 10))
	var inside, calls int32
	slow := time.Duration(r.n(0, 30)) * time.Millisecond
	s.RegisterFunctionHandler(100, func(*NodeRegister, []byte) ([]byte, error) {
		atomic.AddInt32(&inside, 1)
		time.Sleep(slow)
		atomic.AddInt32(&calls, 1)
		atomic.AddInt32(&inside, -1)
		return []byte{1}, nil
	})
	served := make(chan error, 1)
	go func() { served <- s.ListenAndServe(addr) }()
	var first net.Conn
	for i := 0; ; i++ {
		if first, err = net.Dial("tcp", addr); err == nil {
			break
		}
		select {
		case <-served: // the port was taken by someone else
			return
		case <-time.After(time.Millisecond):
		}
		if i > 2000 {
			r.err = "the server does not listen"
			panic(vpStop{})
		}
	}
	var mu sync.Mutex
	conns := []net.Conn{first}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	n := r.n(0, 4)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				c, err := net.Dial("tcp", addr)
				if err != nil {
					return
				}
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
				if (g+k)%2 == 0 {
					c.Write(vpTCP(uint16(k), 1, []byte{100, 1, 2}))
				}
				if k > 12 {
					return
				}
			}
		}(g)
	}
	delay := time.Duration(r.n(0, 3000)) * time.Microsecond
	twice := r.coin()
	r.in("%d clients connect while the server is closed after %v (twice at a time: %v), slow handler %v", n, delay, twice, slow)
	busy := r.coin() // a client that never stops asking
	first.Write(vpTCP(9, 1, []byte{100}))
	go func() {
		for busy {
			if _, err := first.Write(vpTCP(9, 1, []byte{100})); err != nil {
				return
			}
			time.Sleep(time.Millisecond)
		}
	}()
	go io.Copy(ioutil.Discard, first)
	time.Sleep(delay)
	done := make(chan struct{}, 2)
	bad := make(chan string, 2)
	closer := func() {
		s.Close()
		if k := atomic.LoadInt32(&inside); k != 0 {
			bad <- fmt.Sprintf("Close returned while %d sessions were serving a request", k)
		}
		done <- struct{}{}
	}
	closers := 1
	go closer()
	if twice {
		closers++
		go closer()
	}
	for i := 0; i < closers; i++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			r.check(false, "sessions go on and Close does not return within 20 s (a client that never stops asking: %v)", busy)
		}
	}
	after := atomic.LoadInt32(&calls)
	select {
	case m := <-bad:
		r.check(false, "%s", m)
	default:
	}
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		r.check(!strings.Contains(g, "ServerSession).running("), "a session runs after Close returned: %s", g)
	}
	close(stop)
	c, err := net.Dial("tcp", addr)
	if err == nil {
		c.Write(vpTCP(7, 1, []byte{100}))
		c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		k, _ := io.ReadFull(c, buf[:1])
		c.Close()
		r.check(k == 0, "a connection made after Close returned is answered")
	}
	wg.Wait()
	// nothing that comes now is answered
	for _, c := range conns {
		c.Write(vpTCP(8, 1, []byte{100}))
	}
	time.Sleep(2 * time.Millisecond)
	r.check(atomic.LoadInt32(&calls) == after && atomic.LoadInt32(&inside) == 0, "requests were served after Close returned")
	for _, c := range conns {
		c.Close()
	}
	select {
	case <-served:
	case <-time.After(10 * time.Second):
		r.check(false, "the listener is still open after Close")
	}
}
