// Package ants stands for github.com/panjf2000/ants/v2 in instrumented code: the same pool, with every task in a managed
// thread and the pool's own locking taken as atomic.
package ants

import (
	"fmt"
	"runtime/debug"
	"strings"
	real "sync"
	"time"

	orig "github.com/panjf2000/ants/v2"

	"verif/mc/rt"
)

type (
	Option  = orig.Option
	Options = orig.Options
	Logger  = orig.Logger
)

const (
	DefaultAntsPoolSize      = orig.DefaultAntsPoolSize
	DefaultCleanIntervalTime = orig.DefaultCleanIntervalTime
	OPENED                   = orig.OPENED
	CLOSED                   = orig.CLOSED
)

var (
	ErrLackPoolFunc        = orig.ErrLackPoolFunc
	ErrInvalidPoolExpiry   = orig.ErrInvalidPoolExpiry
	ErrPoolClosed          = orig.ErrPoolClosed
	ErrPoolOverload        = orig.ErrPoolOverload
	ErrInvalidPreAllocSize = orig.ErrInvalidPreAllocSize

	WithOptions          = orig.WithOptions
	WithExpiryDuration   = orig.WithExpiryDuration
	WithPreAlloc         = orig.WithPreAlloc
	WithMaxBlockingTasks = orig.WithMaxBlockingTasks
	WithNonblocking      = orig.WithNonblocking
	WithPanicHandler     = orig.WithPanicHandler
	WithLogger           = orig.WithLogger
)

// Pool is a bounded pool of workers.
type Pool struct {
	mu      real.Mutex
	cond    *real.Cond
	cap     int
	busy    int
	blocked int
	closed  bool
	ws      []*waiter
	o       Options
}

type waiter struct{ woken bool }

func (w *waiter) Ready() bool { return w.woken }

func NewPool(size int, options ...Option) (*Pool, error) {
	var o Options
	for _, f := range options {
		f(&o)
	}
	if size <= 0 {
		size = -1
	}
	if o.ExpiryDuration < 0 {
		return nil, ErrInvalidPoolExpiry
	}
	if o.PreAlloc && size == -1 {
		return nil, ErrInvalidPreAllocSize
	}
	p := &Pool{cap: size, o: o}
	p.cond = real.NewCond(&p.mu)
	if e := rt.Active(); e != nil {
		e.Pools = append(e.Pools, p)
	}
	return p, nil
}

// Unreleased counts the pools made in an execution and not released; each holds a goroutine of the real library.
func Unreleased(e *rt.Exec) (n int) {
	for _, x := range e.Pools {
		if p, ok := x.(*Pool); ok && !p.closed {
			n++
		}
	}
	return
}

func (p *Pool) free() bool { return p.cap < 0 || p.busy < p.cap }

func (p *Pool) wakeOne() {
	if len(p.ws) > 0 {
		p.ws[0].woken = true
		p.ws = p.ws[1:]
	}
}

func (p *Pool) wakeAll() {
	for _, w := range p.ws {
		w.woken = true
	}
	p.ws = nil
}

func (p *Pool) start(task func()) {
	p.busy++
	f := func() {
		defer func() {
			r := recover()
			e := rt.Active()
			if e == nil {
				p.mu.Lock()
				defer p.mu.Unlock()
			}
			p.busy--
			if r != nil && e != nil {
				rt.WorkerPanic(fmt.Sprint(r), stack())
			}
			if r != nil && p.o.PanicHandler != nil && !rt.Killing() {
				p.o.PanicHandler(r)
			}
			if p.closed {
				p.wakeAll()
			} else {
				p.wakeOne()
			}
			p.cond.Broadcast()
		}()
		task()
	}
	if e := rt.Active(); e != nil {
		e.Go("", f)
	} else if !rt.Killing() {
		go f()
	}
}

func stack() string {
	st := string(debug.Stack())
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	return st
}

// Submit hands a task to the pool.
func (p *Pool) Submit(task func()) error {
	e := rt.Active()
	if e == nil {
		if rt.Killing() {
			return ErrPoolClosed
		}
		return p.submitReal(task)
	}
	e.Point("pool submit")
	if p.closed {
		return ErrPoolClosed
	}
	e.Point("pool submit")
	if p.free() {
		p.start(task)
		return nil
	}
	if p.o.Nonblocking {
		return ErrPoolOverload
	}
	for {
		if p.o.MaxBlockingTasks != 0 && p.blocked >= p.o.MaxBlockingTasks {
			return ErrPoolOverload
		}
		p.blocked++
		w := &waiter{}
		p.ws = append(p.ws, w)
		e.WaitFor("pool wait", w)
		p.blocked--
		if p.busy == 0 && p.closed {
			return ErrPoolOverload
		}
		if p.free() {
			p.start(task)
			return nil
		}
	}
}

func (p *Pool) submitReal(task func()) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return ErrPoolClosed
	}
	for !p.free() {
		if p.o.Nonblocking || (p.o.MaxBlockingTasks != 0 && p.blocked >= p.o.MaxBlockingTasks) {
			return ErrPoolOverload
		}
		p.blocked++
		p.cond.Wait()
		p.blocked--
		if p.closed && p.busy == 0 {
			return ErrPoolOverload
		}
	}
	p.start(task)
	return nil
}

func (p *Pool) Running() int { return p.busy }

func (p *Pool) Free() int {
	if p.cap < 0 {
		return -1
	}
	return p.cap - p.busy
}

func (p *Pool) Waiting() int   { return p.blocked }
func (p *Pool) Cap() int       { return p.cap }
func (p *Pool) IsClosed() bool { return p.closed }

func (p *Pool) Tune(n int) {
	if p.cap == -1 || n <= 0 || p.o.PreAlloc {
		return
	}
	p.cap = n
	p.wakeAll()
	p.cond.Broadcast()
}

// Release closes the pool.
func (p *Pool) Release() {
	if e := rt.Active(); e != nil {
		e.Point("pool release")
	}
	p.closed = true
	p.wakeAll()
	p.cond.Broadcast()
}

func (p *Pool) ReleaseTimeout(d time.Duration) error {
	p.Release()
	for d > 0 && p.busy > 0 {
		rt.Sleep(10 * time.Millisecond)
		d -= 10 * time.Millisecond
	}
	return nil
}

func (p *Pool) Reboot() { p.closed = false }

var def, _ = NewPool(DefaultAntsPoolSize)

func Submit(task func()) error { return def.Submit(task) }
func Running() int             { return def.Running() }
func Cap() int                 { return def.Cap() }
func Free() int                { return def.Free() }
func Release()                 { def.Release() }
func Reboot()                  { def.Reboot() }
