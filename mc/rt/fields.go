package rt

import (
	"sort"
	"unsafe"
)

// Accesses to shared fields become scheduling points only when, in some execution seen so far, two threads accessed the
// field, one of them to write, without a common lock and without being ordered by a start, a close, an unbuffered channel
// or a wait group; the search starts over when that set grows, so the reduction never hides a race it has seen.

type objKey struct {
	base  unsafe.Pointer
	class string
}

type objState struct {
	acc  []acc
	busy *Thread // a map write in progress
}

type acc struct {
	t     int
	clk   int32
	write bool
	locks []any
}

type vclock []int32

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) merge(w vclock) {
	for len(*v) < len(w) {
		*v = append(*v, 0)
	}
	for i, c := range w {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

// fork returns the clock of a thread that t starts.
func (t *Thread) fork() vclock {
	v := append(vclock(nil), t.vc...)
	t.tick()
	return v
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// Publish orders what the running thread has done before what a thread does after Observe of the same object.
func (e *Exec) Publish(o any) {
	if t := e.cur; t != nil {
		v := e.pub[o]
		v.merge(t.vc)
		e.pub[o] = v
		t.tick()
	}
}

// Observe is the other side of Publish.
func (e *Exec) Observe(o any) {
	if t := e.cur; t != nil {
		t.vc.merge(e.pub[o])
	}
}

var active = map[string]bool{}
var grown bool

// ActiveFields lists the fields whose accesses are scheduling points.
func ActiveFields() (out []string) {
	for k := range active {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func word(p any) unsafe.Pointer {
	type eface struct{ t, d unsafe.Pointer }
	return (*eface)(unsafe.Pointer(&p)).d
}

func (e *Exec) object(class string, base any) *objState {
	k := objKey{class: class}
	if base != nil {
		k.base = word(base)
	}
	o := e.objs[k]
	if o == nil {
		o = &objState{}
		e.objs[k] = o
	}
	return o
}

func (e *Exec) access(o *objState, class string, write bool) {
	t := e.cur
	if active[class] {
		return
	}
	own := -1
	for i := range o.acc {
		a := &o.acc[i]
		if a.t == t.id {
			if a.write == write && t.holds(a.locks, write) {
				own = i
			}
			continue
		}
		if !(a.write || write) || a.clk <= t.vc.at(a.t) || t.common(a.locks, write) {
			continue
		}
		active[class] = true
		grown = true
		return
	}
	clk := t.vc[t.id]
	if own >= 0 {
		o.acc[own].clk = clk
		return
	}
	locks := append([]any(nil), t.ex...)
	if !write {
		locks = append(locks, t.sh...)
	}
	if len(o.acc) >= 24 {
		o.acc = append(o.acc[:0], o.acc[1:]...)
	}
	o.acc = append(o.acc, acc{t.id, clk, write, locks})
}

// holds tells whether the locks held are exactly these.
func (t *Thread) holds(l []any, write bool) bool {
	n := len(t.ex)
	if !write {
		n += len(t.sh)
	}
	if n != len(l) {
		return false
	}
	for i := range l {
		if i < len(t.ex) {
			if l[i] != t.ex[i] {
				return false
			}
		} else if l[i] != t.sh[i-len(t.ex)] {
			return false
		}
	}
	return true
}

// common tells whether one of these locks is held.
func (t *Thread) common(l []any, write bool) bool {
	for _, x := range l {
		for _, y := range t.ex {
			if x == y {
				return true
			}
		}
		if !write {
			for _, y := range t.sh {
				if x == y {
					return true
				}
			}
		}
	}
	return false
}

// F announces an access to a field (base is the pointer to its struct, nil for a package variable).
func F(class string, write bool, base any) {
	e := Active()
	if e == nil || e.cur == nil {
		return
	}
	if active[class] {
		e.Point("field " + class)
	} else if e.spin++; e.spin > 20_000_000 {
		e.stop(e.cur)
	}
	e.access(e.object(class, base), class, write)
}

// FB is F inside a condition.
func FB(class string, write bool, base any) bool {
	F(class, write, base)
	return true
}

// MW announces the start of a write to a map, ME its end.
func MW(class string, base any) {
	e := Active()
	if e == nil || e.cur == nil {
		return
	}
	F(class, true, base)
	o := e.object(class, base)
	if o.busy != nil && o.busy != e.cur {
		e.Fatal("concurrent map writes: " + class)
	}
	if active[class] {
		o.busy = e.cur
		e.Point("map write " + class)
	}
}

// ME announces the end of a write to a map.
func ME(class string, base any) {
	e := Active()
	if e == nil || e.cur == nil {
		return
	}
	o := e.object(class, base)
	if o.busy == e.cur {
		o.busy = nil
	}
}

// MR announces a read of a map.
func MR(class string, base any) bool {
	e := Active()
	if e == nil || e.cur == nil {
		return true
	}
	F(class, false, base)
	if o := e.object(class, base); o.busy != nil && o.busy != e.cur {
		e.Fatal("concurrent map read and map write: " + class)
	}
	return true
}

// Acquired and Released keep the lock sets.
func (e *Exec) Acquired(l any, shared bool) {
	if t := e.cur; t != nil {
		if shared {
			t.sh = append(t.sh, l)
		} else {
			t.ex = append(t.ex, l)
		}
	}
}

func drop(s []any, l any) []any {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == l {
			return append(s[:i], s[i+1:]...)
		}
	}
	return s
}

// Released removes a lock from the set of the running thread.
func (e *Exec) Released(l any, shared bool) {
	if t := e.cur; t != nil {
		if shared {
			t.sh = drop(t.sh, l)
		} else {
			t.ex = drop(t.ex, l)
		}
	}
}

// WorkerPanic records a panic that a pool's handler swallowed.
func WorkerPanic(msg, stack string) {
	if e := Active(); e != nil {
		name := "?"
		if e.cur != nil {
			name = e.cur.name
		}
		e.Panics = append(e.Panics, Crash{"worker panic", name, msg, stack})
	}
}
