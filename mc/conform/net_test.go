package conform

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif/mc/fake"
	"verif/mc/rt"
)

// What happens to a client's end of a connection, one step after another.
const (
	push3 = iota // the peer sends three octets
	peerFin
	peerRst
	read2
	read9
	write2
	closing
	dlPast // SetReadDeadline in the past
	dlNone
	dlSoon // SetDeadline soon
	steps
)

var names = []string{"push3", "fin", "rst", "read2", "read9", "write2", "close", "deadline past", "deadline none", "deadline soon"}

func kind(err error) string {
	var ne net.Error
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	case errors.Is(err, os.ErrDeadlineExceeded):
		if errors.As(err, &ne) && ne.Timeout() {
			return "timeout"
		}
		return "deadline, not a timeout"
	case errors.Is(err, syscall.ECONNRESET), errors.Is(err, syscall.EPIPE):
		return "broken"
	}
	return err.Error()
}

// drive runs the steps on c; peer performs the steps of the peer and out tells what it has received.
func drive(c net.Conn, seq []int, soon time.Duration, peer func(k int)) (log []string) {
	for _, k := range seq {
		switch k {
		case push3, peerFin, peerRst:
			peer(k)
		case read2, read9:
			b := make([]byte, map[int]int{read2: 2, read9: 9}[k])
			n, err := c.Read(b)
			log = append(log, fmt.Sprintf("%s: %x %s", names[k], b[:n], kind(err)))
		case write2:
			n, err := c.Write([]byte{1, 2})
			log = append(log, fmt.Sprintf("%s: %d %s", names[k], n, kind(err)))
		case closing:
			log = append(log, fmt.Sprintf("%s: %s", names[k], kind(c.Close())))
		case dlPast:
			_ = c.SetReadDeadline(time.Now().Add(-time.Second))
		case dlNone:
			_ = c.SetDeadline(time.Time{})
		case dlSoon:
			_ = c.SetDeadline(time.Now().Add(soon))
		}
	}
	return
}

// blocks tells whether a sequence leaves the domain: a read that would wait for ever, or whose outcome is a matter of time.
func blocks(seq []int) bool {
	have, fin, rst, closed, dl := 0, false, false, false, false
	for _, k := range seq {
		switch k {
		case push3, peerFin, peerRst:
			if fin || rst || closed {
				return true // the peer has gone, or nobody is there to see it
			}
			switch k {
			case push3:
				have += 3
			case peerFin:
				fin = true
			default:
				rst = true
			}
		case read2, read9:
			if have == 0 && !fin && !rst && !closed && !dl {
				return true
			}
			if !closed {
				have = max(0, have-map[int]int{read2: 2, read9: 9}[k])
			}
		case write2:
		case closing:
			closed = true
		case dlPast, dlSoon:
			dl = true
		case dlNone:
			dl = false
		}
	}
	return false
}

// usable tells whether a sequence is worth a run: a deadline "soon" only counts when a read that may have to wait for it
// follows at once, the last step must show something, and what a broken connection answers after its first error is left
// out: that is a matter of the kernel.
func usable(seq []int) bool {
	have, rst, broken, closed := 0, false, false, false
	for i, k := range seq {
		switch k {
		case push3:
			have += 3
		case peerRst:
			rst = true
		case closing:
			closed = true
		case read2, read9, write2:
			if closed {
				break
			}
			if broken {
				return false
			}
			if rst && (k == write2 || have == 0) {
				broken = true
			}
			if k != write2 {
				have = max(0, have-map[int]int{read2: 2, read9: 9}[k])
			}
		case dlSoon:
			if i == len(seq)-1 || seq[i+1] != read2 {
				return false
			}
		}
	}
	if n := len(seq); n > 0 {
		switch seq[n-1] {
		case read2, read9, write2, closing:
		default:
			return false // nothing to see
		}
	}
	return !blocks(seq)
}

func TestNet(t *testing.T) {
	depth := 5
	if os.Getenv("VERIF_TIER") == "thorough" {
		depth = 6
	}
	var seqs [][]int
	var grow func(s []int)
	grow = func(s []int) {
		if len(s) > 0 && usable(s) {
			seqs = append(seqs, append([]int(nil), s...))
		}
		if len(s) == depth {
			return
		}
		for k := 0; k < steps; k++ {
			n := append(append([]int(nil), s...), k)
			if !blocks(n) {
				grow(n)
			}
		}
	}
	grow(nil)
	want := make([][]string, len(seqs))
	synctest.Test(t, func(t *testing.T) {
		for i, seq := range seqs {
			r := rt.Explore(rt.Options{MaxExecs: 1, NoReplay: true}, func(e *rt.Exec) {
				c := fake.NewEnd(e, 1)
				n := 0
				for _, k := range seq {
					c.Join() // TCP joins what has arrived by the time of a read
					want[i] = append(want[i], drive(c, []int{k}, time.Second, func(k int) {
						switch k {
						case push3:
							c.Push(octets(n, 3))
							n += 3
						case peerFin:
							c.EOF()
						default:
							c.RST()
						}
					})...)
				}
				var b []byte
				for _, w := range c.Writes {
					b = append(b, w.Data...)
				}
				if c.Unread() || c.Broken() {
					return // closing with unread octets resets the connection: the peer may lose what was written
				}
				want[i] = append(want[i], fmt.Sprintf("peer got %x", b))
			})
			if r.Bad != nil {
				t.Fatalf("%v: the stand-in failed: %v", seq, r.Bad)
			}
		}
	})
	var wg sync.WaitGroup
	var mu sync.Mutex
	fails := 0
	work := make(chan int, len(seqs))
	for i := range seqs {
		work <- i
	}
	close(work)
	for k := 0; k < 32; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Error(err)
				return
			}
			defer ln.Close()
			for i := range work {
				var got []string
				for _, pause := range []time.Duration{time.Millisecond, 50 * time.Millisecond} {
					got = realNet(ln, seqs[i], pause)
					got = got[:min(len(got), len(want[i]))]
					if reflect.DeepEqual(got, want[i]) {
						break
					}
				}
				if !reflect.DeepEqual(got, want[i]) {
					mu.Lock()
					if fails++; fails <= 20 {
						var s []string
						for _, k := range seqs[i] {
							s = append(s, names[k])
						}
						t.Errorf("%q\n  real  %q\n  model %q", s, got, want[i])
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if fails > 0 {
		t.Errorf("%d of %d sequences differ", fails, len(seqs))
	}
	b, _ := json.Marshal(map[string]int{"sequences": len(seqs), "depth": depth, "differing": fails})
	fmt.Println("net", string(b))
}

func realNet(ln net.Listener, seq []int, pause time.Duration) []string {
	c, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		return []string{err.Error()}
	}
	defer c.Close()
	p, err := ln.Accept()
	if err != nil {
		return []string{err.Error()}
	}
	n := 0
	left := false
	log := drive(c, seq, 20*time.Millisecond, func(k int) {
		switch k {
		case push3:
			_, _ = p.Write(octets(n, 3))
			n += 3
		case peerFin:
			_ = p.(*net.TCPConn).CloseWrite()
		case peerRst:
			_ = p.(*net.TCPConn).SetLinger(0)
			p.Close()
			left = true
		}
		time.Sleep(pause)
	})
	var b []byte
	if !left {
		_ = c.Close()
		_ = p.SetReadDeadline(time.Now().Add(time.Second))
		b, _ = io.ReadAll(p)
		p.Close()
	}
	return append(log, fmt.Sprintf("peer got %x", b))
}
