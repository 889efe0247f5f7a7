package rt

import (
	"errors"
	"math/rand"
	"net"
	"runtime"
	"time"
)

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if mode == kill {
		runtime.Goexit()
	}
	if d <= 0 {
		if e := Active(); e != nil {
			e.Point("sleep 0")
		}
		return
	}
	t := handoff("sleep")
	if t == nil {
		time.Sleep(d)
		return
	}
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-t.killc:
		tm.Stop()
		runtime.Goexit()
	}
	t.back()
}

// AfterFunc is time.AfterFunc with f in a managed thread.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	e := Active()
	if e == nil {
		return time.AfterFunc(d, f)
	}
	name := "timer " + caller(2)
	var vc vclock
	if e.cur != nil {
		vc = e.cur.fork()
	}
	if d <= 0 { // due at once: the thread is there before anything else happens
		e.spawn(name, f)
		t := time.AfterFunc(time.Hour, func() {})
		t.Stop()
		return t
	}
	return time.AfterFunc(d, func() {
		if mode != run || x != e {
			return
		}
		e.mu.Lock()
		t := e.newThread(name)
		t.vc = append(vclock(nil), vc...)
		t.tick()
		t.state = real
		idle := e.ctlIdle
		e.mu.Unlock()
		t.state = parked
		if idle {
			e.signal()
		}
		t.main(f)
	})
}

// Gosched is runtime.Gosched: a point that lets the others run.
func Gosched() {
	if e := Active(); e != nil {
		Sleep(time.Nanosecond)
		return
	}
	runtime.Gosched()
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	e := Active()
	if e == nil || e.cur == nil {
		if mode == kill {
			select {
			case v, ok := <-ch:
				return v, ok
			default:
				runtime.Goexit()
			}
		}
		v, ok := <-ch
		return v, ok
	}
	e.Point("receive")
	select {
	case v, ok := <-ch:
		e.dirty = true
		if !ok || cap(ch) == 0 {
			e.Observe(word(ch))
		}
		return v, ok
	default:
	}
	t := handoff("receive")
	var v T
	var ok bool
	select {
	case v, ok = <-ch:
	case <-t.killc:
		runtime.Goexit()
	}
	t.back()
	if !ok || cap(ch) == 0 {
		e.Observe(word(ch))
	}
	return v, ok
}

// SendTo is ch <- v, in two steps so that v is converted to the element type.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		e := Active()
		if e == nil || e.cur == nil {
			if mode == kill {
				select {
				case ch <- v:
				default:
				}
				return
			}
			ch <- v
			return
		}
		e.Point("send")
		if cap(ch) == 0 {
			e.Publish(word(ch))
		}
		select {
		case ch <- v:
			e.dirty = true
			return
		default:
		}
		t := handoff("send")
		select {
		case ch <- v:
		case <-t.killc:
			runtime.Goexit()
		}
		t.back()
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if e := Active(); e != nil && e.cur != nil {
		e.Point("close")
		e.dirty = true
		e.Publish(word(ch))
	}
	if mode == kill {
		defer func() { _ = recover() }()
	}
	close(ch)
}

// Tok marks a thread inside a select statement.
type Tok struct{ t *Thread }

// SelB is called before a select without default.
func SelB() Tok {
	e := Active()
	if e == nil || e.cur == nil {
		return Tok{}
	}
	e.Point("select")
	return Tok{handoff("select")}
}

// SelP is called before a select with a default case.
func SelP() Tok {
	e := Active()
	if e == nil || e.cur == nil {
		return Tok{}
	}
	e.Point("select")
	return Tok{}
}

// Kill is an extra case of a rewritten select.
func (k Tok) Kill() <-chan struct{} {
	if k.t == nil {
		return nil
	}
	return k.t.killc
}

// Exit ends an unwound thread.
func (k Tok) Exit() { runtime.Goexit() }

// SelA is called at the start of each case.
func (k Tok) SelA() {
	if k.t != nil {
		k.t.back()
		return
	}
	if e := Active(); e != nil {
		e.dirty = true
	}
}

// Rand answers a draw of a random number below n.
func Rand(n int) (int, bool) {
	e := Active()
	if e == nil {
		return 0, false
	}
	if e.Rand != nil {
		return e.Rand(n), true
	}
	return 0, true
}

// NetDial is net.Dial.
func NetDial(network, addr string) (net.Conn, error) {
	if e := Active(); e != nil {
		if e.Dial == nil {
			return nil, errors.New("dial: no network here")
		}
		e.Point("dial")
		return e.Dial(network, addr)
	}
	if mode == kill {
		runtime.Goexit()
	}
	return net.Dial(network, addr)
}

// NetDialTimeout is net.DialTimeout.
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

func RandIntn(n int) int {
	if v, ok := Rand(n); ok {
		if n <= 0 {
			panic("invalid argument to Intn")
		}
		return v
	}
	return rand.Intn(n)
}

func RandInt() int             { return RandIntn(1 << 30) }
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }
func RandFloat64() float64     { return float64(RandIntn(1<<20)) / (1 << 20) }
func RandFloat32() float32     { return float32(RandIntn(1<<20)) / (1 << 20) }

// NumCPU stands for runtime.NumCPU: the same on every machine.
func NumCPU() int {
	if Active() != nil {
		return 8
	}
	return runtime.NumCPU()
}
