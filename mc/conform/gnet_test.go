// Package conform compares the stand-ins for the network (package fake) with the real thing: gnet v2 and net.Conn over
// the loopback network. Every program of a handler and every script of a peer within the bounds is run on both, step by
// step, and what handler and peer saw must be the same.
package conform

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/panjf2000/gnet/v2"

	"verif/mc/fake"
	"verif/mc/rt"
)

// program is what a handler does with the events of a connection.
type program struct {
	Open  int // 0 nothing, 1 greets, 2 closes, 3 greets and closes
	Read  int // at every OnTraffic, see read()
	Act   int // at the At-th OnTraffic, see act()
	At    int
	Close bool // the At-th OnTraffic returns Close
}

// script is what the peer does: numbers of octets to send; -1 closes, -2 resets, -3.. acts on the connection from another
// goroutine (-3 AsyncWrite, -4 Wake, -5 Close).
type script []int

type testcase struct {
	P program
	S script
}

type side struct {
	mu     sync.Mutex
	log    []string
	got    []byte
	closed bool // the peer sees the connection closed
	left   bool // the peer itself has closed
	conn   gnet.Conn
	traf   int
}

func (s *side) say(f string, a ...any) {
	s.mu.Lock()
	s.log = append(s.log, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *side) view() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	v := append([]string(nil), s.log...)
	end := fmt.Sprintf("got %x", s.got)
	if s.closed && !s.left {
		end += " closed"
	}
	return append(v, end)
}

// handler runs a program; the events of connection n go to pick(n).
type handler struct {
	gnet.BuiltinEventEngine
	ready chan struct{}
	pick  func() (*side, program)
	by    map[gnet.Conn]*both
}

type both struct {
	s *side
	p program
}

func (h *handler) OnBoot(gnet.Engine) gnet.Action {
	if h.ready != nil {
		close(h.ready)
	}
	return gnet.None
}

func (h *handler) OnOpen(c gnet.Conn) ([]byte, gnet.Action) {
	s, p := h.pick()
	s.conn = c
	h.by[c] = &both{s, p}
	c.SetContext("context")
	s.say("open")
	var out []byte
	if p.Open&1 == 1 {
		out = []byte{0xA0, 0xA1}
	}
	if p.Open&2 == 2 {
		return out, gnet.Close
	}
	return out, gnet.None
}

func (h *handler) OnClose(c gnet.Conn, err error) gnet.Action {
	b := h.by[c]
	delete(h.by, c)
	b.s.say("close err=%v ctx=%v remote=%v", err != nil, c.Context(), c.RemoteAddr() != nil)
	return gnet.None
}

func (h *handler) OnTraffic(c gnet.Conn) gnet.Action {
	b := h.by[c]
	s, p := b.s, b.p
	s.traf++
	s.say("traffic %d", c.InboundBuffered())
	read(s, c, p.Read)
	if s.traf != p.At {
		return gnet.None
	}
	act(s, c, p.Act)
	if p.Close {
		return gnet.Close
	}
	return gnet.None
}

const reads = 12

func read(s *side, c gnet.Conn, k int) {
	b := func(what string, p []byte, err error) {
		s.say("%s %x %v left %d", what, p, err, c.InboundBuffered())
	}
	switch k {
	case 0:
		p, err := c.Next(-1)
		b("next(-1)", p, err)
	case 1: // leaves everything
	case 2:
		p, err := c.Next(2)
		b("next(2)", p, err)
	case 3:
		p, err := c.Next(4)
		b("next(4)", p, err)
		p, err = c.Next(1)
		b("next(1)", p, err)
	case 4:
		p, err := c.Peek(3)
		b("peek(3)", p, err)
		n, err := c.Discard(2)
		s.say("discard(2) %d %v left %d", n, err, c.InboundBuffered())
	case 5:
		p, err := c.Peek(-1)
		b("peek(-1)", p, err)
		n, err := c.Discard(1)
		s.say("discard(1) %d %v left %d", n, err, c.InboundBuffered())
		p, err = c.Peek(2)
		b("peek(2)", p, err)
	case 6:
		p := make([]byte, 3)
		n, err := c.Read(p)
		b("read(3)", p[:max(n, 0)], err)
	case 7:
		n, err := c.Discard(4)
		s.say("discard(4) %d %v left %d", n, err, c.InboundBuffered())
	case 8:
		n, err := c.Discard(-1)
		s.say("discard(-1) %d %v left %d", n, err, c.InboundBuffered())
	case 9: // the loop of a decoder: length in the first octet
		for c.InboundBuffered() > 0 {
			p, _ := c.Peek(1)
			l := int(p[0]&3) + 1
			if c.InboundBuffered() < l {
				break
			}
			q, err := c.Next(l)
			b("packet", q, err)
		}
	case 11: // leaves much behind for the ring buffer to wrap around
		for i := 0; i < 3 && c.InboundBuffered() >= 400; i++ {
			p, err := c.Peek(350)
			b("peek(350)", p, err)
			p, err = c.Next(400)
			b("next(400)", p, err)
		}
	case 10:
		p, err := c.Peek(100)
		b("peek(100)", p, err)
		p, err = c.Peek(1)
		b("peek(1)", p, err)
	}
}

const acts = 12

func act(s *side, c gnet.Conn, k int) {
	cb := func(gnet.Conn) error { s.say("callback"); return nil }
	switch k {
	case 0:
	case 1:
		n, err := c.Write([]byte{1, 2})
		s.say("write %d %v", n, err)
	case 2:
		s.say("asyncwrite %v", c.AsyncWrite([]byte{3, 4}, nil))
	case 3:
		s.say("asyncwrite %v", c.AsyncWrite([]byte{5}, cb))
		n, err := c.Write([]byte{6})
		s.say("write %d %v", n, err)
	case 4:
		s.say("wake %v", c.Wake(nil))
	case 5:
		s.say("closing %v", c.Close())
	case 6:
		s.say("asyncwrite %v", c.AsyncWrite([]byte{7}, cb))
		s.say("closing %v", c.Close())
	case 7:
		s.say("closing %v", c.Close())
		s.say("asyncwrite %v", c.AsyncWrite([]byte{8}, nil))
	case 8:
		s.say("asyncwrite %v", c.AsyncWrite([]byte{9}, func(c gnet.Conn) error { s.say("closing %v", c.Close()); return nil }))
	case 9:
		s.say("asyncwrite %v", c.AsyncWrite([]byte{10}, nil))
		s.say("wake %v", c.Wake(nil))
	case 10:
		s.say("closing %v", c.Close())
		s.say("wake %v", c.Wake(nil))
	case 11:
		n, err := c.Writev([][]byte{{1}, {2, 3}})
		s.say("writev %d %v", n, err)
		s.say("asyncwritev %v", c.AsyncWritev([][]byte{{4}, {5, 6}}, cb))
	}
}

// outside acts on the connection from a goroutine that is not its event loop.
func outside(s *side, k int) {
	s.mu.Lock()
	c := s.conn
	s.mu.Unlock()
	if c == nil {
		return
	}
	switch k {
	case -3:
		_ = c.AsyncWrite([]byte{0xB0}, nil)
	case -4:
		_ = c.Wake(nil)
	case -5:
		_ = c.Close()
	}
}

func octets(from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x11*(from+i) + 1)
	}
	return b
}

func cases() (cs []testcase) {
	var scripts []script
	var grow func(s script, n int)
	grow = func(s script, n int) {
		scripts = append(scripts, append(script(nil), s...))
		for _, end := range []int{-1, -2, -5} {
			scripts = append(scripts, append(append(script(nil), s...), end, -3, -4))
		}
		if n == 0 {
			return
		}
		for _, k := range []int{1, 3, 8, -3, -4} {
			grow(append(append(script(nil), s...), k), n-1)
		}
	}
	depth := 2
	if os.Getenv("VERIF_TIER") == "thorough" {
		depth = 3
	}
	grow(nil, depth)
	// long streams
	var runs func(s script, n int, of []int, rs []int)
	runs = func(s script, n int, of []int, rs []int) {
		if len(s) > depth {
			for _, r := range rs {
				cs = append(cs, testcase{program{Read: r}, append(script(nil), s...)})
			}
		}
		for _, k := range of {
			if n > 0 {
				runs(append(append(script(nil), s...), k), n-1, of, rs)
			}
		}
	}
	runs(nil, 5, []int{1, 3, 8}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
	runs(nil, 7, []int{300, 700}, []int{1, 4, 9, 11})
	for o := 0; o < 4; o++ {
		for _, s := range scripts {
			if o > 0 && len(s) <= 4 {
				cs = append(cs, testcase{program{Open: o}, s})
			}
		}
	}
	for _, s := range scripts {
		for r := 0; r < reads; r++ {
			for a := 0; a < acts; a++ {
				for at := 1; at <= 2; at++ {
					for _, c := range []bool{false, true} {
						if a == 0 && !c && at == 2 || r > 1 && r != 4 && r != 9 && a > 0 {
							continue
						}
						cs = append(cs, testcase{program{0, r, a, at, c}, s})
					}
				}
			}
		}
	}
	return
}

// model runs a case on the stand-in; it returns the view after every step.
func model(c testcase) (views [][]string, bad string) {
	r := rt.Explore(rt.Options{MaxExecs: 1, NoReplay: true}, func(e *rt.Exec) {
		s := &side{}
		h := &handler{by: map[gnet.Conn]*both{}, pick: func() (*side, program) { return s, c.P }}
		g := fake.NewEngine(e, h, 1)
		g.Keep = true
		conn := g.Connect()
		conn.Attach(func(b []byte) {
			s.mu.Lock()
			s.got = append(s.got, b...)
			s.mu.Unlock()
		}, func() {
			s.mu.Lock()
			s.closed = true
			s.mu.Unlock()
		})
		rt.Sleep(time.Second)
		views = append(views, s.view())
		sent := 0
		for _, k := range c.S {
			switch {
			case k > 0:
				conn.Send(octets(sent, k))
				sent += k
			case k == -1, k == -2:
				if !s.closed {
					s.left = true
				}
				if k == -1 {
					conn.Hangup()
				} else {
					conn.Reset()
				}
			default:
				outside(s, k)
			}
			rt.Sleep(time.Second)
			views = append(views, s.view())
		}
	})
	if r.Bad != nil {
		bad = fmt.Sprint(r.Bad.Crashes, r.Bad.Stuck)
	}
	return
}

type lane struct {
	h    *handler
	addr string
	mu   sync.Mutex
	s    *side
	p    program
}

func newLane(t *testing.T) *lane {
	l := &lane{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	l.addr = ln.Addr().String()
	ln.Close()
	l.h = &handler{by: map[gnet.Conn]*both{}, ready: make(chan struct{}), pick: func() (*side, program) {
		l.mu.Lock()
		defer l.mu.Unlock()
		return l.s, l.p
	}}
	go func() { _ = gnet.Run(l.h, "tcp://"+l.addr, gnet.WithNumEventLoop(1), gnet.WithReuseAddr(true)) }()
	<-l.h.ready
	return l
}

// real runs a case on gnet and compares it with the views of the model.
func (l *lane) real(c testcase, want [][]string, patience time.Duration) error {
	s := &side{}
	l.mu.Lock()
	l.s, l.p = s, c.P
	l.mu.Unlock()
	conn, err := net.Dial("tcp", l.addr)
	if err != nil {
		return err
	}
	go func() {
		b := make([]byte, 1024)
		for {
			n, err := conn.Read(b)
			s.mu.Lock()
			s.got = append(s.got, b[:n]...)
			if err != nil {
				s.closed = true
			}
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	defer conn.Close()
	settle := func(i int) error {
		w := want[i]
		for end := time.Now().Add(patience); ; {
			if reflect.DeepEqual(s.view(), w) {
				return nil
			}
			if time.Now().After(end) {
				return fmt.Errorf("after step %d:\n  real  %q\n  model %q", i, s.view(), w)
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	if err := settle(0); err != nil {
		return err
	}
	sent := 0
	for i, k := range c.S {
		switch {
		case k > 0:
			_, _ = conn.Write(octets(sent, k))
			sent += k
		case k == -1, k == -2:
			s.mu.Lock()
			if !s.closed {
				s.left = true
			}
			s.mu.Unlock()
			if k == -2 {
				_ = conn.(*net.TCPConn).SetLinger(0)
			}
			conn.Close()
		default:
			outside(s, k)
		}
		if err := settle(i + 1); err != nil {
			return err
		}
	}
	time.Sleep(2 * time.Millisecond)
	return settle(len(c.S))
}

type report struct {
	Cases   int `json:"cases"`
	Steps   int `json:"steps_compared"`
	Retried int `json:"retried"`
	Differ  int `json:"differing"`
}

func TestGnet(t *testing.T) {
	cs := cases()
	views := make([][][]string, len(cs))
	synctest.Test(t, func(t *testing.T) {
		for i, c := range cs {
			v, bad := model(c)
			if bad != "" {
				t.Fatalf("case %+v: the stand-in failed: %s", c, bad)
			}
			views[i] = v
		}
	})
	work := make(chan int, len(cs))
	for i := range cs {
		work <- i
	}
	close(work)
	var wg sync.WaitGroup
	var mu sync.Mutex
	rep := report{Cases: len(cs)}
	fails := 0
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := newLane(t)
			for i := range work {
				err := l.real(cs[i], views[i], 300*time.Millisecond)
				again := false
				if err != nil { // a busy machine: once more, with patience
					again = true
					time.Sleep(time.Second)
					err = l.real(cs[i], views[i], 3*time.Second)
				}
				mu.Lock()
				rep.Steps += len(views[i])
				if again {
					rep.Retried++
				}
				if err != nil {
					if fails++; fails <= 20 {
						t.Errorf("case %+v: %v", cs[i], err)
					}
				}
				stop := fails > 200
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	if fails > 0 {
		t.Errorf("%d of %d cases differ", fails, len(cs))
	}
	rep.Differ = fails
	b, _ := json.Marshal(rep)
	fmt.Println("gnet", string(b))
}
