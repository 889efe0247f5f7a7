// Package rt is a controlled scheduler for instrumented Go code. Every goroutine started through Go is a managed thread,
// exactly one of which runs at a time; at each visible operation the scheduler decides which thread goes on. The whole
// execution lives in a testing/synctest bubble: time is virtual and moves only when no thread can run.
package rt

import (
	"fmt"
	"net"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

const (
	pass = iota // no execution: the shims behave like the packages they stand for
	run         // an execution is being explored
	kill        // leftovers of an execution are being unwound
)

var (
	mode int
	x    *Exec
)

const (
	running = iota
	parked  // waits for the scheduler
	real    // handed control back and is (or may be) blocked in a real operation
	done
)

// Waiter is a condition a parked thread waits for.
type Waiter interface{ Ready() bool }

// Thread is one managed goroutine.
type Thread struct {
	id    int
	name  string
	e     *Exec
	wake  chan bool // true: go on; false: unwind
	killc chan struct{}
	wait  Waiter
	fn    func() bool
	state int
	idle  bool // runs only when nothing else can
	op    string
	ex    []any // locks held exclusively
	sh    []any // locks held shared
	vc    vclock
}

// Crash is a panic, fatal error or failed assertion in an execution.
type Crash struct {
	Kind   string `json:"kind"`
	Thread string `json:"thread"`
	Msg    string `json:"msg"`
	Stack  string `json:"stack,omitempty"`
}

type node struct {
	n, taken int32
	kind     int8 // cost model: 0 free, 1 flat, 2 the option's index
}

func (c node) cost(i int32) int {
	if i == 0 || c.kind == 0 {
		return 0
	}
	if c.kind == 1 {
		return 1
	}
	return int(i)
}

// Exec is one execution.
type Exec struct {
	mu      sync.Mutex
	live    []*Thread
	opts    []*Thread
	nextID  int
	cur     *Thread
	last    int
	ctl     chan struct{}
	ctlIdle bool
	dirty   bool
	over    bool
	calm    bool

	path []node
	pos  int
	div  bool

	steps    int
	idleAt   int // steps when the clock last moved
	maxSteps int
	horizon  time.Duration
	bodyDone bool

	Start    time.Time
	crashes  []Crash
	stuck    []string
	limit    bool
	foreign  string // blocked where the scheduler cannot see it
	spin     int
	tracing  bool
	trace    []string
	Notes    []string
	Panics   []Crash // panics swallowed by a pool
	Pools    []any   // the pools made during the execution
	notesKey uint64
	// Rand answers the random numbers drawn by the code under test; nil means 0.
	Rand func(n int) int
	// Dial answers net.Dial of the code under test.
	Dial func(network, addr string) (net.Conn, error)

	objs map[objKey]*objState
	pub  map[any]vclock
}

// Progress counts scheduling steps, for a watchdog.
var Progress atomic.Int64

// Active returns the execution being explored, or nil.
func Active() *Exec {
	if mode == run {
		return x
	}
	return nil
}

// Busy tells whether an execution is under way.
func Busy() bool { return mode != pass }

// Killing tells whether leftovers are being unwound; shims then do nothing.
func Killing() bool { return mode == kill }

func (e *Exec) newThread(name string) *Thread {
	t := &Thread{id: e.nextID, name: name, e: e, wake: make(chan bool, 1), killc: make(chan struct{}), state: parked}
	e.nextID++
	if e.cur != nil {
		t.vc = e.cur.fork()
	}
	t.tick()
	e.live = append(e.live, t)
	return t
}

// Go starts a managed thread (the instrumented form of the go statement).
func Go(f func()) {
	if mode == kill {
		return
	}
	e := Active()
	if e == nil {
		go f()
		return
	}
	e.spawn("", f)
	e.Point("go")
}

// Go starts a named thread of the scenario.
func (e *Exec) Go(name string, f func()) { e.spawn(name, f) }

func (e *Exec) spawn(name string, f func()) *Thread {
	if name == "" {
		name = caller(3)
	}
	t := e.newThread(name)
	go t.main(f)
	return t
}

func caller(skip int) string {
	for i := skip; i < skip+12; i++ {
		_, file, line, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if strings.Contains(file, "/mc/rt/") {
			continue
		}
		if k := strings.LastIndex(file, "/"); k >= 0 {
			if j := strings.LastIndex(file[:k], "/"); j >= 0 {
				file = file[j+1:]
			}
		}
		return fmt.Sprintf("%s:%d", file, line)
	}
	return "?"
}

type abort struct{}

func (t *Thread) main(f func()) {
	defer func() {
		if r := recover(); r != nil && mode == run && x == t.e {
			if _, ok := r.(abort); !ok {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				t.e.crashes = append(t.e.crashes, Crash{"panic", t.name, fmt.Sprint(r), st})
			}
		}
		t.finish()
	}()
	if !<-t.wake {
		return
	}
	f()
}

func (t *Thread) finish() {
	e := t.e
	if mode != run || x != e || e.cur != t {
		e.mu.Lock()
		t.state = done
		e.mu.Unlock()
		return
	}
	t.state = done
	for i, l := range e.live {
		if l == t {
			e.live = append(e.live[:i], e.live[i+1:]...)
			break
		}
	}
	if e.over {
		e.cur = nil
		e.signal()
		return
	}
	e.settle()
	e.switchTo(e.pick())
}

func (e *Exec) settle() {
	if e.dirty {
		e.dirty = false
		synctest.Wait()
	}
}

// Dirty tells the scheduler that another goroutine may have been woken.
func (e *Exec) Dirty() { e.dirty = true }

func (e *Exec) signal() {
	select {
	case e.ctl <- struct{}{}:
	default:
	}
}

func (e *Exec) switchTo(n *Thread) {
	if n == nil {
		e.cur = nil
		e.signal()
		return
	}
	e.grant(n)
}

func (e *Exec) grant(n *Thread) {
	e.cur = n
	e.last = n.id
	n.state = running
	n.wait, n.fn = nil, nil
	n.wake <- true
}

func (t *Thread) await() {
	if !<-t.wake {
		runtime.Goexit()
	}
}

func (t *Thread) ready() bool {
	if t.state != parked {
		return false
	}
	if t.wait != nil {
		return t.wait.Ready()
	}
	if t.fn != nil {
		return t.fn()
	}
	return true
}

// pick chooses the thread to run next; nil when none can.
func (e *Exec) pick() *Thread {
	opts := e.opts[:0]
	n := len(e.live)
	s := 0
	for s < n && e.live[s].id < e.last {
		s++
	}
	for k := 0; k < n; k++ {
		t := e.live[(s+k)%n]
		if !t.idle && t.ready() {
			opts = append(opts, t)
		}
	}
	e.opts = opts
	if len(opts) == 0 {
		for _, t := range e.live {
			if t.idle && t.ready() {
				return t
			}
		}
		return nil
	}
	i := 0
	if len(opts) > 1 {
		i = e.decide(len(opts), 2)
	}
	t := opts[i]
	if e.tracing {
		if len(e.trace) >= 8000 { // the beginning and the end are shown
			e.trace = append(e.trace[:100], e.trace[len(e.trace)-300:]...)
		}
		e.trace = append(e.trace, t.name+": "+t.op)
	}
	return t
}

// Calm(true) keeps to the default schedule until Calm(false): for preparing a scenario and looking at its result.
func (e *Exec) Calm(on bool) { e.calm = on }

func (e *Exec) decide(n int, kind int8) int {
	if e.calm && kind != 0 {
		return 0
	}
	p := e.pos
	e.pos++
	if p < len(e.path) {
		nd := e.path[p]
		if int(nd.n) != n || nd.kind != kind {
			e.div = true
			if int(nd.taken) >= n {
				return 0
			}
		}
		return int(nd.taken)
	}
	e.path = append(e.path, node{int32(n), 0, kind})
	return 0
}

// Choose is an environment choice among n; every option other than the first costs one deviation.
func (e *Exec) Choose(n int) int {
	if n < 2 {
		return 0
	}
	return e.decide(n, 1)
}

// ChooseFree is an environment choice among n whose options are all explored.
func (e *Exec) ChooseFree(n int) int {
	if n < 2 {
		return 0
	}
	return e.decide(n, 0)
}

// Point is a scheduling point of the running thread.
func (e *Exec) Point(op string) { e.wait(op, nil, nil) }

// WaitFor parks the running thread until w is ready.
func (e *Exec) WaitFor(op string, w Waiter) { e.wait(op, w, nil) }

// Until parks the running thread until f holds.
func (e *Exec) Until(op string, f func() bool) { e.wait(op, nil, f) }

func (e *Exec) wait(op string, w Waiter, f func() bool) {
	t := e.cur
	if t == nil {
		// not a managed thread: poll in virtual time
		for (w != nil && !w.Ready()) || (f != nil && !f()) {
			time.Sleep(time.Microsecond)
		}
		return
	}
	e.steps++
	e.spin = 0
	Progress.Add(1)
	if e.steps-e.idleAt > e.maxSteps || e.steps > 10*e.maxSteps || e.over {
		e.stop(t)
	}
	t.wait, t.fn = w, f
	if e.tracing {
		t.op = op + " at " + caller(3)
	}
	t.state = parked
	e.settle()
	n := e.pick()
	if n == t {
		t.state = running
		t.wait, t.fn = nil, nil
		e.last = t.id
		return
	}
	e.switchTo(n)
	t.await()
}

// stop ends the execution from inside thread t.
func (e *Exec) stop(t *Thread) {
	if !e.over {
		if e.steps-e.idleAt > e.maxSteps || e.spin > 0 {
			e.limit = true // nothing but steps, and the clock stands still
		} else {
			e.foreign = "an execution with too many steps"
		}
		e.over = true
	}
	t.state = parked
	e.cur = nil
	e.signal()
	t.await()
}

// handoff is called by the running thread before an operation that may block outside of the scheduler.
func handoff(op string) *Thread {
	e := Active()
	if e == nil || e.cur == nil {
		return nil
	}
	t := e.cur
	e.steps++
	if e.steps-e.idleAt > e.maxSteps || e.steps > 10*e.maxSteps {
		e.stop(t)
	}
	if e.tracing {
		t.op = op + " at " + caller(3)
	}
	t.state = real
	e.cur = nil
	e.signal()
	return t
}

// back is called after such an operation; it waits for the scheduler's permission to go on.
func (t *Thread) back() {
	if t == nil {
		return
	}
	e := t.e
	if mode == kill || x != e {
		runtime.Goexit()
	}
	e.mu.Lock()
	t.state = parked
	idle := e.ctlIdle
	e.mu.Unlock()
	if idle {
		e.signal()
	}
	t.await()
}

// Idle parks the running thread until no other thread can run (time does not move).
func (e *Exec) Idle() {
	t := e.cur
	t.idle = true
	t.state = parked
	if e.tracing {
		t.op = "idle"
	}
	e.settle()
	n := e.pick()
	if n != t {
		e.switchTo(n)
		t.await()
	} else {
		t.state = running
		e.last = t.id
	}
	t.idle = false
}

// Pass lets virtual time d go by and then waits until nothing else can run.
func (e *Exec) Pass(d time.Duration) {
	Sleep(d)
	e.Idle()
}

// Now is the virtual time since the start of the execution.
func (e *Exec) Now() time.Duration { return time.Since(e.Start) }

// Fail records a violation of the scenario's property.
func (e *Exec) Fail(format string, a ...any) {
	e.crashes = append(e.crashes, Crash{"violation", "", fmt.Sprintf(format, a...), ""})
}

// Fatal records what the runtime would end the process for.
func (e *Exec) Fatal(msg string) {
	name := "?"
	if e.cur != nil {
		name = e.cur.name
	}
	e.crashes = append(e.crashes, Crash{"fatal", name, msg, string(debug.Stack())})
	panic(abort{})
}

// Failed tells whether something was recorded.
func (e *Exec) Failed() bool { return len(e.crashes) > 0 }

// Crashes returns what was recorded so far.
func (e *Exec) Crashes() []Crash { return e.crashes }

// Note adds an observation; the sequence of notes is the outcome of the execution.
func (e *Exec) Note(format string, a ...any) { e.Notes = append(e.Notes, fmt.Sprintf(format, a...)) }

// Blocked lists the threads that are neither finished nor excluded by name.
func (e *Exec) Blocked(except func(name string) bool) (out []string) {
	for _, t := range e.live {
		if t == e.cur || t.state == done || (except != nil && except(t.name)) {
			continue
		}
		out = append(out, t.name)
	}
	return out
}

// Threads returns the number of live threads.
func (e *Exec) Threads() int { return len(e.live) }

// Cur returns the running thread's name.
func (e *Exec) CurName() string {
	if e.cur == nil {
		return "?"
	}
	return e.cur.name
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// exec runs body as the first thread under the decisions of path.
func exec(path []node, tracing bool, maxSteps int, horizon time.Duration, align time.Duration, body func(*Exec)) *Exec {
	if align > 0 {
		if d := time.Since(epoch) % align; d != 0 {
			time.Sleep(align - d)
		}
	}
	resetGlobals()
	e := &Exec{ctl: make(chan struct{}, 1), path: path, tracing: tracing, maxSteps: maxSteps, horizon: horizon, objs: map[objKey]*objState{}, pub: map[any]vclock{}}
	e.Start = time.Now()
	x, mode = e, run
	t0 := e.newThread("main")
	go t0.main(func() {
		defer func() { e.over = true }()
		body(e)
		e.bodyDone = true
	})
	timer := time.NewTimer(horizon)
	for !e.over {
		synctest.Wait()
		if e.cur != nil { // woken by a stray signal while a thread is blocked where the scheduler cannot see it
			e.foreign = "a thread blocked outside of the scheduler: " + e.cur.name
			break
		}
		e.dirty = false
		if n := e.pick(); n != nil {
			select {
			case <-e.ctl:
			default:
			}
			e.grant(n)
			<-e.ctl
			continue
		}
		e.mu.Lock()
		e.ctlIdle = true
		e.mu.Unlock()
		select {
		case <-e.ctl:
		case <-timer.C:
			e.over = true
		}
		e.idleAt = e.steps
		e.mu.Lock()
		e.ctlIdle = false
		e.mu.Unlock()
	}
	timer.Stop()
	synctest.Wait()
	mode = kill
	if !e.bodyDone {
		for _, t := range e.live {
			e.stuck = append(e.stuck, t.name+" ("+t.op+")")
		}
	}
	for round := 0; round < 3; round++ {
		for _, t := range append([]*Thread(nil), e.live...) {
			e.mu.Lock()
			st := t.state
			e.mu.Unlock()
			switch st {
			case parked:
				t.wake <- false
			case real:
				select {
				case <-t.killc:
				default:
					close(t.killc)
				}
			default:
				continue
			}
			synctest.Wait()
		}
	}
	e.cur = nil
	mode, x = pass, nil
	return e
}
