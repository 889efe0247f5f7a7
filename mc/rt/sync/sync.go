// Package sync stands for the standard package in instrumented code.
package sync

import (
	real "sync"

	"verif/mc/rt"
)

type Locker = real.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	mu   real.Mutex
	held bool
	e    *rt.Exec
}

type mready Mutex

func (m *mready) Ready() bool { return !m.held || m.e != rt.Active() }

func (m *Mutex) Lock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.Lock()
		}
		return
	}
	e.WaitFor("lock", (*mready)(m))
	m.held, m.e = true, e
	e.Acquired(m, false)
}

func (m *Mutex) TryLock() bool {
	e := rt.Active()
	if e == nil {
		return rt.Killing() || m.mu.TryLock()
	}
	e.Point("trylock")
	if !(*mready)(m).Ready() {
		return false
	}
	m.held, m.e = true, e
	e.Acquired(m, false)
	return true
}

func (m *Mutex) Unlock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.Unlock()
		}
		return
	}
	if !m.held || m.e != e {
		e.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	e.Released(m, false)
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	mu      real.RWMutex
	w       bool
	r       int
	waiting int // writers waiting: new readers wait behind them
	e       *rt.Exec
}

func (m *RWMutex) fresh(e *rt.Exec) {
	if m.e != e {
		m.e, m.w, m.r, m.waiting = e, false, 0, 0
	}
}

type wready RWMutex
type rready RWMutex

func (m *wready) Ready() bool { return !m.w && m.r == 0 }
func (m *rready) Ready() bool { return !m.w && m.waiting == 0 }

func (m *RWMutex) Lock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.Lock()
		}
		return
	}
	m.fresh(e)
	e.Point("lock")
	if !(*wready)(m).Ready() {
		m.waiting++
		e.WaitFor("lock", (*wready)(m))
		m.waiting--
	}
	m.w = true
	e.Acquired(m, false)
}

func (m *RWMutex) TryLock() bool {
	e := rt.Active()
	if e == nil {
		return rt.Killing() || m.mu.TryLock()
	}
	m.fresh(e)
	e.Point("trylock")
	if !(*wready)(m).Ready() {
		return false
	}
	m.w = true
	e.Acquired(m, false)
	return true
}

func (m *RWMutex) Unlock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.Unlock()
		}
		return
	}
	m.fresh(e)
	if !m.w {
		e.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	e.Released(m, false)
}

func (m *RWMutex) RLock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.RLock()
		}
		return
	}
	m.fresh(e)
	e.WaitFor("rlock", (*rready)(m))
	m.r++
	e.Acquired(m, true)
}

func (m *RWMutex) TryRLock() bool {
	e := rt.Active()
	if e == nil {
		return rt.Killing() || m.mu.TryRLock()
	}
	m.fresh(e)
	e.Point("tryrlock")
	if !(*rready)(m).Ready() {
		return false
	}
	m.r++
	e.Acquired(m, true)
	return true
}

func (m *RWMutex) RUnlock() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			m.mu.RUnlock()
		}
		return
	}
	m.fresh(e)
	if m.r == 0 {
		e.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	e.Released(m, true)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup waits for a count to reach zero.
type WaitGroup struct {
	wg real.WaitGroup
	n  int
	e  *rt.Exec
}

type wgready WaitGroup

func (w *wgready) Ready() bool { return w.n <= 0 }

func (w *WaitGroup) Add(d int) {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			w.wg.Add(d)
		}
		return
	}
	if w.e != e {
		w.e, w.n = e, 0
	}
	e.Point("waitgroup add")
	if d < 0 {
		e.Publish(w)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			w.wg.Wait()
		}
		return
	}
	if w.e != e {
		w.e, w.n = e, 0
	}
	e.WaitFor("waitgroup wait", (*wgready)(w))
	e.Observe(w)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done int
}

var onceGen = 1

// ResetOnces makes every Once run again (to drive one-time initialisation a second time).
func ResetOnces() { onceGen++ }

func (o *Once) Do(f func()) {
	if rt.Active() == nil && rt.Killing() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done != onceGen {
		defer func() {
			o.done = onceGen
			if e := rt.Active(); e != nil {
				e.Publish(o)
			}
		}()
		f()
	}
	if e := rt.Active(); e != nil {
		e.Observe(o)
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	mu real.Mutex
	ws []*cw
	rc *real.Cond
}

type cw struct{ ok bool }

func (w *cw) Ready() bool { return w.ok }

func NewCond(l Locker) *Cond { return &Cond{L: l, rc: real.NewCond(l)} }

func (c *Cond) Wait() {
	e := rt.Active()
	if e == nil {
		if !rt.Killing() {
			c.rc.Wait()
		}
		return
	}
	w := &cw{}
	c.ws = append(c.ws, w)
	c.L.Unlock()
	e.WaitFor("cond wait", w)
	c.L.Lock()
}

func (c *Cond) Signal() {
	e := rt.Active()
	if e == nil {
		c.rc.Signal()
		return
	}
	e.Point("cond signal")
	if len(c.ws) > 0 {
		c.ws[0].ok = true
		c.ws = c.ws[1:]
	}
}

func (c *Cond) Broadcast() {
	e := rt.Active()
	if e == nil {
		c.rc.Broadcast()
		return
	}
	e.Point("cond broadcast")
	for _, w := range c.ws {
		w.ok = true
	}
	c.ws = nil
}

// Pool is a free list.
type Pool struct {
	New func() any
	mu  real.Mutex
	s   []any
}

func (p *Pool) Get() any {
	if e := rt.Active(); e != nil {
		e.Point("pool get")
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if e := rt.Active(); e != nil {
		e.Point("pool put")
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.s = append(p.s, v)
}
