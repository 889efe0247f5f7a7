package sync

import (
	"sort"
	real "sync"

	"verif/mc/rt"
)

// Map is a concurrent map that keeps the order of insertion.
type Map struct {
	mu   real.Mutex
	m    map[any]*entry
	list []*entry
	dead int
	n    int
}

type entry struct {
	k, v any
	gone bool
	n    int
}

func (m *Map) pt(op string) {
	if e := rt.Active(); e != nil {
		e.Point(op)
	}
	m.mu.Lock()
}

func (m *Map) add(k, v any) {
	if m.m == nil {
		m.m = map[any]*entry{}
	}
	m.n++
	en := &entry{k: k, v: v, n: m.n}
	m.m[k] = en
	m.list = append(m.list, en)
}

func (m *Map) del(en *entry) {
	en.gone = true
	delete(m.m, en.k)
	m.dead++
	if m.dead > 32 && m.dead > len(m.list)/2 {
		var l []*entry
		for _, e := range m.list {
			if !e.gone {
				l = append(l, e)
			}
		}
		m.list, m.dead = l, 0
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.pt("map load")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil {
		return en.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.pt("map store")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil {
		old := en.v
		en.v = v
		return old, true
	}
	m.add(k, v)
	return nil, false
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("map loadorstore")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil {
		return en.v, true
	}
	m.add(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("map delete")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil {
		m.del(en)
		return en.v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.pt("map cas")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil && en.v == old {
		en.v = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.pt("map cad")
	defer m.mu.Unlock()
	if en := m.m[k]; en != nil && en.v == old {
		m.del(en)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.pt("map clear")
	defer m.mu.Unlock()
	for _, e := range m.list {
		e.gone = true
	}
	m.m, m.list, m.dead = nil, nil, 0
}

// Range visits the entries in the order of insertion, including those added meanwhile.
func (m *Map) Range(f func(k, v any) bool) {
	last := 0
	for {
		if last == 0 {
			m.pt("map range")
		} else {
			if m.after(last) == nil {
				return
			}
			m.pt("map range")
		}
		en := m.after(last)
		m.mu.Unlock()
		if en == nil {
			return
		}
		last = en.n
		if !f(en.k, en.v) {
			return
		}
	}
}

func (m *Map) after(n int) *entry {
	for i := sort.Search(len(m.list), func(i int) bool { return m.list[i].n > n }); i < len(m.list); i++ {
		if !m.list[i].gone {
			return m.list[i]
		}
	}
	return nil
}
