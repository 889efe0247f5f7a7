package registry

import (
	"fmt"
	"sort"
	"strings"

	ev "github.com/hrygo/gosms/event_manager"

	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
)

// A registry under test with a log of handler runs.
type reg struct {
	e    *rt.Exec
	runs []string
}

func (g *reg) h(name string) ev.Event {
	return func(args ...any) {
		g.runs = append(g.runs, fmt.Sprintf("%s%v", name, args))
	}
}

func (g *reg) take() string {
	s := strings.Join(g.runs, ";")
	g.runs = nil
	return s
}

func clean() {
	m := ev.CreateEventManage("")
	for _, p := range []string{"p_", "p_q_", "z_"} {
		for _, k := range []string{"a", "b", "c"} {
			m.Delete(p + k)
		}
	}
	for _, k := range []string{"a", "b", "c", "s", "t", "x", "y", "z"} {
		m.Delete(ev.ShutdownHookerPrefix + k)
	}
}

const sh = ev.ShutdownHookerPrefix

// every history of depth d over this alphabet
func registrySequences(d int) func(e *rt.Exec) {
	return func(e *rt.Exec) {
		clean()
		g := &reg{e: e}
		m1, m2 := ev.CreateEventManage("p_"), ev.CreateEventManage("p_q_")
		model := map[string][]string{}
		chans := map[string]<-chan bool{} // by key
		pending := map[string]bool{}
		var hist []string
		fail := func(format string, a ...any) {
			e.Fail("after %s: %s", strings.Join(hist, ", "), fmt.Sprintf(format, a...))
		}
		full := func(prefix, key string) string {
			if strings.HasPrefix(key, prefix) {
				return key
			}
			return prefix + key
		}
		register := func(prefix, key string, hs ...string) {
			hist = append(hist, fmt.Sprintf("register %s+%s%v", prefix, key, hs))
			var fs []ev.Event
			for _, h := range hs {
				fs = append(fs, g.h(h))
			}
			var got bool
			switch prefix {
			case "p_":
				got = m1.Register(key, fs...)
			case "p_q_":
				got = m2.Register(key, fs...)
			default:
				got = ev.RegisterShutdownHooker(key, fs...)
			}
			k := full(prefix, key)
			_, taken := model[k]
			want := !taken && len(hs) > 0
			if got != want {
				fail("register answered %v", got)
			}
			if want {
				model[k] = hs
			}
			if s := g.take(); s != "" {
				fail("registering ran %s", s)
			}
		}
		expect := func(k string, args string) (out []string) {
			for _, h := range model[k] {
				if c, ok := strings.CutPrefix(h, "chan "); ok {
					pending[c] = true
					continue
				}
				out = append(out, h+args)
			}
			return
		}
		call := func(prefix, key string, args ...any) {
			hist = append(hist, fmt.Sprintf("call %s+%s%v", prefix, key, args))
			m := m1
			if prefix == "p_q_" {
				m = m2
			}
			m.Call(key, args...)
			if got, want := g.take(), strings.Join(expect(full(prefix, key), fmt.Sprint(args)), ";"); got != want {
				fail("the call ran %q instead of %q", got, want)
			}
		}
		del := func(prefix, key string) {
			hist = append(hist, "delete "+prefix+"+"+key)
			if prefix == "p_q_" {
				m2.Delete(key)
			} else {
				m1.Delete(key)
			}
			delete(model, full(prefix, key))
			if s := g.take(); s != "" {
				fail("deleting ran %s", s)
			}
		}
		fuzzy := func(prefix string, f func()) {
			hist = append(hist, "fuzzy call "+prefix)
			f()
			var want []string
			for k := range model {
				if strings.HasPrefix(k, prefix) {
					want = append(want, expect(k, "[]")...)
				}
			}
			got := append([]string{}, g.runs...)
			g.runs = nil
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("it ran %v instead of %v", got, want)
			}
		}
		get := func(key string) {
			hist = append(hist, "get "+key)
			f, ok := m1.Get(key)
			_, have := model[full("p_", key)]
			if ok != have || ok != (f != nil) {
				fail("get answered %v", ok)
				return
			}
			if ok {
				f(7)
				if got, want := g.take(), strings.Join(expect(full("p_", key), "[7]"), ";"); got != want {
					fail("the event ran %q instead of %q", got, want)
				}
			}
		}
		addChan := func(key string) {
			hist = append(hist, "register channel "+key)
			k := sh + key
			_, taken := model[k]
			c := ev.RegisterShutdownHookerAddChan(key, g.h("hc"))
			if (c == nil) != taken {
				fail("channel nil: %v", c == nil)
			}
			if !taken {
				id := fmt.Sprintf("%s#%d", k, len(hist))
				model[k] = []string{"hc", "chan " + id}
				chans[id] = c
			}
		}
		drain := func() {
			hist = append(hist, "receive")
			for id, c := range chans {
				got := false
				select {
				case v, ok := <-c:
					got = v && ok
				default:
				}
				if got != pending[id] {
					fail("signal %v on %s", got, id)
				}
				pending[id] = false
			}
		}
		for i := 0; i < d && !e.Failed(); i++ {
			switch e.ChooseFree(18) {
			case 0:
				register("p_", "a", "h1")
			case 1:
				register("p_", "a", "h2", "h3")
			case 2:
				register("p_", "p_a", "h4")
			case 3:
				register("p_q_", "a", "h5")
			case 4:
				register("p_", "a")
			case 5:
				register("p_", "b", "h6")
			case 6:
				call("p_", "a", 1, "x")
			case 7:
				call("p_q_", "a")
			case 8:
				call("p_", "p_a", nil)
			case 9:
				del("p_", "a")
			case 10:
				del("p_q_", "p_q_a")
			case 11:
				get("a")
			case 12:
				fuzzy("p_", m1.FuzzyCall)
			case 13:
				register(sh, "s", "h7")
			case 14:
				addChan("s")
			case 15:
				addChan("c")
			case 16:
				fuzzy(sh, ev.GracefullyShutdown)
			case 17:
				drain()
			}
		}
		drain()
		if !e.Failed() {
			fuzzy(sh, ev.GracefullyShutdown)
			drain()
		}
		var ks []string
		for k := range model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		e.Note("%v", ks)
		clean()
	}
}

// one operation of a concurrent history
type rop struct {
	kind string // reg, call, get, del
	h    string
	from int
	to   int
	res  string
}

// linear tells whether some order of the operations that respects real time explains the answers of a map entry.
func linear(ops []*rop, cur string, used []bool, left int) bool {
	if left == 0 {
		return true
	}
	for i, o := range ops {
		if used[i] {
			continue
		}
		ok := true
		for j, p := range ops {
			if !used[j] && p.to < o.from {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		next, want := cur, ""
		switch o.kind {
		case "reg":
			want = fmt.Sprint(cur == "")
			if cur == "" {
				next = o.h
			}
		case "del":
			next = ""
		default:
			want = cur
		}
		if o.res != want {
			continue
		}
		used[i] = true
		if linear(ops, next, used, left-1) {
			return true
		}
		used[i] = false
	}
	return false
}

func registryThreads(initial string, threads [][]string) func(e *rt.Exec) {
	return func(e *rt.Exec) {
		clean()
		m := ev.CreateEventManage("p_")
		if initial != "" {
			m.Register("a", func(args ...any) { *(args[0].(*string)) += initial })
		}
		var ops []*rop
		clock, left := 0, len(threads)
		for t, list := range threads {
			t, list := t, list
			e.Go(string(rune('A'+t)), func() {
				for _, s := range list {
					o := &rop{}
					o.kind, o.h, _ = strings.Cut(s, " ")
					clock++
					o.from, o.to = clock, 1<<30
					ops = append(ops, o)
					switch o.kind {
					case "reg":
						h := o.h
						o.res = fmt.Sprint(m.Register("a", func(args ...any) { e.Point("handler"); *(args[0].(*string)) += h }))
					case "call":
						var ran string
						m.Call("a", &ran)
						o.res = ran
					case "get":
						if f, ok := m.Get("a"); ok {
							var ran string
							f(&ran)
							o.res = ran
						}
					case "del":
						m.Delete("a")
					}
					clock++
					o.to = clock
					e.Note("%c%s=%s", 'A'+t, s, o.res)
				}
				left--
			})
		}
		e.Until("threads", func() bool { return left == 0 })
		var s []string
		for _, o := range ops {
			s = append(s, fmt.Sprintf("%s %s [%d,%d] -> %q", o.kind, o.h, o.from, o.to, o.res))
		}
		if !linear(ops, initial, make([]bool, len(ops)), len(ops)) {
			e.Fail("no order of the operations explains the answers (initially %q): %s", initial, strings.Join(s, "; "))
		}
		clean()
	}
}

func p27(r *lib.R) (out []sched.Scenario) {
	add := func(name string, max int, f func(e *rt.Exec)) {
		out = append(out, sched.Scenario{Name: name, Max: max, Body: f})
	}
	// ChooseFree alone: everything is explored without deviations
	d := r.Pick(5, 6)
	out = append(out, sched.Scenario{Name: fmt.Sprintf("histories of %d operations", d), Wide: true, Body: registrySequences(d)})
	for i, s := range []struct {
		initial string
		threads [][]string
	}{
		{"", [][]string{{"reg 1"}, {"reg 2"}, {"call", "call"}}},
		{"", [][]string{{"reg 1", "del"}, {"reg 2", "get"}}},
		{"", [][]string{{"reg 1", "del", "reg 2"}, {"call", "call"}}},
		{"0", [][]string{{"del", "reg 2"}, {"reg 3", "call"}, {"get"}}},
		{"", [][]string{{"reg 1"}, {"reg 2"}, {"reg 3"}, {"del"}}},
		{"0", [][]string{{"del", "call"}, {"del", "reg 1"}, {"call"}}},
		{"0", [][]string{{"call", "del"}, {"get", "reg 1"}}},
	} {
		add(fmt.Sprintf("concurrent %d: %q %v", i, s.initial, s.threads), 0, registryThreads(s.initial, s.threads))
	}
	add("two shutdowns at once", 0, func(e *rt.Exec) {
		clean()
		n := map[string]int{}
		hook := func(k string) ev.Event { return func(...any) { e.Point("hook"); n[k]++; e.Point("hook") } }
		ev.RegisterShutdownHooker("x", hook("x"))
		ev.RegisterShutdownHooker("y", hook("y1"), hook("y2"))
		c := ev.RegisterShutdownHookerAddChan("c", hook("c"))
		ev.CreateEventManage("z_").Register("a", hook("other"))
		left := 4
		late := false
		for i := 0; i < 2; i++ {
			e.Go(fmt.Sprintf("shutdown %d", i), func() { ev.GracefullyShutdown(); left-- })
		}
		e.Go("waiter", func() {
			if !rt.Recv(c) {
				e.Fail("the signal is false or the channel closed")
			}
			e.Note("signal after %d hooks", n["x"]+n["y1"]+n["c"])
			left--
		})
		e.Go("late", func() { late = ev.RegisterShutdownHooker("z", hook("z")); left-- })
		e.Until("threads", func() bool { return left == 0 })
		for _, k := range []string{"x", "y1", "y2", "c"} {
			if n[k] != 2 {
				e.Fail("hook %s ran %d times in two shutdowns", k, n[k])
			}
		}
		if n["z"] > 2 || !late {
			e.Fail("late hook registered: %v, ran %d times", late, n["z"])
		}
		if n["other"] != 0 {
			e.Fail("a handler that is no hook ran in the shutdown")
		}
		n = map[string]int{}
		ev.GracefullyShutdown()
		if n["z"] != 1 || n["x"] != 1 || n["c"] != 1 {
			e.Fail("next shutdown ran %v", n)
		}
		clean()
	})
	add("channels of one name", 0, func(e *rt.Exec) {
		clean()
		var cs []<-chan bool
		left := 2
		ran := 0
		for i := 0; i < 2; i++ {
			e.Go(fmt.Sprintf("register %d", i), func() {
				c := ev.RegisterShutdownHookerAddChan("c", func(...any) { ran++ })
				if c != nil {
					cs = append(cs, c)
				}
				left--
			})
		}
		e.Until("threads", func() bool { return left == 0 })
		if len(cs) != 1 {
			e.Fail("%d channels for one name", len(cs))
			return
		}
		ev.GracefullyShutdown()
		ev.GracefullyShutdown() // nobody received in between
		if ran != 2 {
			e.Fail("the hook ran %d times", ran)
		}
		select {
		case v := <-cs[0]:
			if !v {
				e.Fail("closed instead of signalled")
			}
		default:
			e.Fail("no signal")
		}
		e.Note("ok")
		clean()
	})
	// prefixes and keys that contain each other
	words := []string{""}
	for i := 0; i < len(words) && len(words[i]) < 4; i++ {
		words = append(words, words[i]+"a", words[i]+"b")
	}
	prefixes := []string{"", "a", "b", "ab", "ba", "aa"}
	wipe := func() {
		m := ev.CreateEventManage("")
		for _, p := range prefixes {
			for _, k := range words {
				m.Delete(p + k)
			}
		}
	}
	full := func(p, k string) string {
		if strings.HasPrefix(k, p) {
			return k
		}
		return p + k
	}
	out = append(out, sched.Scenario{Name: "prefixes that contain each other", Wide: true, Body: func(e *rt.Exec) {
		clean()
		wipe()
		p1, k1 := prefixes[e.ChooseFree(len(prefixes))], words[e.ChooseFree(len(words))]
		for _, p2 := range prefixes {
			for _, k2 := range words {
				if len(k2) > r.Pick(2, 4) {
					continue
				}
				g := &reg{e: e}
				m1, m2 := ev.CreateEventManage(p1), ev.CreateEventManage(p2)
				f1, f2 := full(p1, k1), full(p2, k2)
				ctx := fmt.Sprintf("%q under %q and %q under %q", k1, p1, k2, p2)
				if !m1.Register(k1, g.h("1")) {
					e.Fail("%s: the first is refused", ctx)
				}
				if got := m2.Register(k2, g.h("2")); got != (f1 != f2) {
					e.Fail("%s: the second registration answers %v", ctx, got)
				}
				runs := func(f func(full string) bool) string {
					var l []string
					if f(f1) {
						l = append(l, "1[]")
					}
					if f1 != f2 && f(f2) {
						l = append(l, "2[]")
					}
					return strings.Join(l, ";")
				}
				for _, p := range prefixes {
					m := ev.CreateEventManage(p)
					m.FuzzyCall()
					sort.Strings(g.runs)
					if got, want := g.take(), runs(func(f string) bool { return strings.HasPrefix(f, p) }); got != want {
						e.Fail("%s: a fuzzy call with %q runs %q instead of %q", ctx, p, got, want)
					}
					for _, k := range []string{k1, k2, f1, f2} {
						m.Call(k)
						if got, want := g.take(), runs(func(f string) bool { return f == full(p, k) }); got != want {
							e.Fail("%s: a call of %q under %q runs %q instead of %q", ctx, k, p, got, want)
						}
						if _, got := m.Get(k); got != (full(p, k) == f1 || full(p, k) == f2) {
							e.Fail("%s: a look up of %q under %q answers %v", ctx, k, p, got)
						}
					}
				}
				ev.GracefullyShutdown()
				if got := g.take(); got != "" {
					e.Fail("%s: a shutdown runs %q", ctx, got)
				}
				m2.Delete(k2)
				m1.Call(k1)
				if got, want := g.take(), map[bool]string{true: "1[]"}[f1 != f2]; got != want {
					e.Fail("%s: after the second was deleted a call of the first runs %q", ctx, got)
				}
				m1.Delete(k1)
				ev.CreateEventManage("").FuzzyCall()
				if got := g.take(); got != "" {
					e.Fail("%s: after both were deleted %q runs", ctx, got)
				}
				if e.Failed() {
					return
				}
			}
		}
		e.Note("ok")
		wipe()
	}})
	// handlers out of one list of the caller's, which has room for more and is changed afterwards
	out = append(out, sched.Scenario{Name: "handlers from one list", Wide: true, Body: func(e *rt.Exec) {
		clean()
		g := &reg{e: e}
		list := make([]ev.Event, 0, 4)
		for i := 0; i < 4; i++ {
			list = append(list, g.h(fmt.Sprint("h", i)))
		}
		var want []string
		chans := map[string]<-chan bool{}
		var hist []string
		for _, k := range []string{"a", "b", "c"} {
			from := e.ChooseFree(2)
			to := from + 1 + e.ChooseFree(2)
			fs := list[from:to]
			how := e.ChooseFree(3)
			hist = append(hist, fmt.Sprintf("%s: handlers %d to %d as %d", k, from, to, how))
			ok := true
			switch how {
			case 0:
				ok = ev.RegisterShutdownHooker(k, fs...)
			case 1:
				ok = ev.CreateEventManage(sh).Register(k, fs...)
			default:
				chans[k] = ev.RegisterShutdownHookerAddChan(k, fs...)
				ok = chans[k] != nil
			}
			if !ok {
				e.Fail("%v: registration refused", hist)
				return
			}
			for i := from; i < to; i++ {
				want = append(want, fmt.Sprintf("h%d[]", i))
			}
		}
		if e.ChooseFree(2) == 1 {
			hist = append(hist, "the list is used again")
			for i := range list {
				list[i] = g.h("other")
			}
		}
		sort.Strings(want)
		for round := 0; round < 2; round++ {
			ev.GracefullyShutdown()
			sort.Strings(g.runs)
			if got := g.take(); got != strings.Join(want, ";") {
				e.Fail("%v: shutdown %d ran %s, not %v", hist, round+1, got, want)
				return
			}
			for k, c := range chans {
				select {
				case v := <-c:
					if !v {
						e.Fail("%v: channel %s closed instead of signalled", hist, k)
					}
				default:
					e.Fail("%v: channel %s is not signalled by shutdown %d", hist, k, round+1)
				}
			}
		}
		e.Note("%d", len(chans))
		clean()
	}})
	add("hooks that use the registry", 0, func(e *rt.Exec) {
		clean()
		n := map[string]int{}
		ev.RegisterShutdownHooker("x", func(...any) {
			n["x"]++
			ev.CreateEventManage(sh).Delete("x")
			ev.CreateEventManage("z_").Call("a")
		})
		ev.RegisterShutdownHooker("y", func(...any) {
			n["y"]++
			ev.CreateEventManage("z_").Register("b", func(...any) {})
			ev.CreateEventManage("z_").Get("b")
		})
		ev.CreateEventManage("z_").Register("a", func(...any) { n["a"]++ })
		left := 2
		e.Go("shutdown", func() { ev.GracefullyShutdown(); left-- })
		e.Go("delete", func() { ev.CreateEventManage("z_").Delete("a"); left-- })
		e.Until("threads", func() bool { return left == 0 })
		ev.GracefullyShutdown()
		if n["x"] != 1 || n["y"] != 2 || n["a"] > 1 {
			e.Fail("runs: %v", n)
		}
		e.Note("%v", n["a"])
		clean()
	})
	return
}
