package server

import (
	"fmt"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P16"] = sched.Check{Rule: "every schedule up to the stated number of deviations of connections opened and closed at once on one to three loops around the limit; every sequence of opens, closes of five kinds and logins to a depth against a counter",
		Scenarios: p16, Setup: setup, Quick: 3, Thorough: 6}
}

// heldConns counts the connections the server let in and has not closed.
func (w *world) heldConns() (n int) {
	for _, c := range w.g.Conns {
		if c.Held && !c.Closed {
			n++
		}
	}
	return
}

// count compares the server's numbers with the connections it holds, when nothing is going on.
func (w *world) count(ctx string) bool {
	n := w.heldConns()
	if k := w.s.ActiveSessions(); k != n {
		w.e.Fail("%s: the session counter is %d with %d connections (%s)", w.p, k, n, ctx)
		return false
	}
	if k := w.held(); k != n {
		w.e.Fail("%s: the server holds %d sessions with %d connections (%s)", w.p, k, n, ctx)
		return false
	}
	return true
}

func p16(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		if p == wire.CMPP30 && !r.Thorough() {
			continue // opening and closing know no version
		}
		a, b := ids(p)
		limit := func(w *world, m int) {
			w.g.Hook = func() {
				if n := w.heldConns(); n > m {
					w.e.Fail("%s: %d connections held, the limit is %d", p, n, m)
				}
			}
		}
		for _, x := range [][3]int{{2, 1, 1}, {2, 1, 2}, {3, 1, 2}, {3, 2, 2}, {3, 2, 3}, {4, 2, 2}, {2, 2, 2}} {
			n, m, loops := x[0], x[1], x[2]
			max := r.Pick(5, 8)
			if n > 2 {
				max = r.Pick(4, 6)
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %d opens for %d places on %d loops", p, n, m, loops), Max: max, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{sessions: m, loops: loops})
				limit(w, m)
				w.race()
				for i := 0; i < n; i++ {
					w.g.Connect()
				}
				w.calm()
				w.count("opened")
				held := 0
				for i, c := range w.g.Conns {
					if c.Held && !c.Closed {
						held++
						if st := w.login(c, a, uint32(5+i)); st != 0 || !w.serves(c, 9) {
							e.Fail("%s: a connection within the limit is not served (login: %d)", p, st)
						}
					} else if !c.Done || len(c.Writes) > 0 {
						e.Fail("%s: a connection beyond the limit is not closed at once", p)
					}
					e.Note("%v", c.Closed)
				}
				if held != min(n, m) {
					e.Fail("%s: %d of %d connections let in with a limit of %d", p, held, n, m)
				}
				w.count("logged in")
				w.race()
				for _, c := range w.g.Conns {
					c.Hangup()
				}
				w.calm()
				w.count("closed")
				w.gone()
			}})
		}
		leaves := map[string]func(c *fake.Conn){
			"hang up": func(c *fake.Conn) { c.Hangup() },
			"reset":   func(c *fake.Conn) { c.Reset() },
			"logout":  func(c *fake.Conn) { c.Send(p.TermReq(wire.S(9))) },
			"rubbish": func(c *fake.Conn) { c.Send(make([]byte, 12)) },
			"bad login": func(c *fake.Conn) {
				x := a
				x.Secret = "no"
				c.Send(p.LoginReq(x, wire.S(9)))
			},
		}
		for _, name := range []string{"hang up", "reset", "logout", "rubbish", "bad login"} {
			f := leaves[name]
			for m := 1; m <= 2; m++ {
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s open while another leaves by %s, %d places", p, name, m), Max: r.Pick(3, 6), Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{sessions: m, loops: 2})
					w.g.FailWrites = true
					limit(w, m)
					var c *fake.Conn
					for i := 0; i < m; i++ {
						c = w.g.Connect()
					}
					if st := w.login(c, a, 5); st != 0 {
						e.Fail("%s: login answered with %d", p, st)
					}
					w.race()
					f(c)
					d := w.g.Connect()
					x := w.g.Connect()
					d.Send(p.LoginReq(b, wire.S(7)))
					w.calm()
					if !c.Done {
						e.Fail("%s: still open after %s", p, name)
					}
					w.count(name)
					for _, y := range []*fake.Conn{d, x} {
						if y.Held == y.Closed {
							e.Fail("%s: connection neither held nor closed", p)
						}
					}
					if d.Held && x.Held {
						e.Fail("%s: two connections in one place", p)
					}
					e.Note("%v %v", d.Closed, x.Closed)
					if d.Held && w.told(d) != 0 {
						e.Fail("%s: a connection let in is not served", p)
					}
					e.Pass(2 * time.Second)
					// the place can be used again
					free := m - w.heldConns()
					for i := 0; i < 2; i++ {
						y := w.g.Connect()
						e.Idle()
						if y.Closed != (i >= free) {
							e.Fail("%s: %d places free and connection %d closed: %v", p, free, i+1, y.Closed)
						}
					}
					w.count("reused")
					w.hangup()
				}})
			}
		}
		// connections that leave as soon as they have come
		for _, name := range []string{"hang up", "reset", "rubbish"} {
			f := leaves[name]
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s come and go by %s", p, name), Max: r.Pick(3, 5), Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{sessions: 2, loops: 2})
				w.g.FailWrites = true
				limit(w, 2)
				w.race()
				x := w.g.Connect()
				c := w.g.Connect()
				f(c)
				d := w.g.Connect()
				f(d)
				w.calm()
				if !c.Done || !d.Done || x.Done {
					e.Fail("%s: %s: open after it left, or closed without leaving", p, name)
				}
				w.count(name)
				y := w.g.Connect()
				e.Idle()
				if y.Closed || !y.Held {
					e.Fail("%s: a connection is refused with one of two places taken", p)
				}
				w.count("reused")
				w.hangup()
			}})
		}
		// sequences
		depth := r.Pick(6, 8)
		for m := 1; m <= 3; m++ {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s sequences with %d places", p, m), Wide: true, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{sessions: m, loops: 2})
				var held []*fake.Conn
				var hist []string
				for i := 0; i < depth; i++ {
					op := e.ChooseFree(6)
					if op > 0 && len(held) == 0 {
						return
					}
					switch op {
					case 0:
						hist = append(hist, "open")
						c := w.g.Connect()
						e.Idle()
						if len(held) < m && (c.Closed || !c.Held) {
							e.Fail("%s: %v: a connection is refused with %d of %d places taken", p, hist, len(held), m)
							return
						}
						if len(held) >= m && (!c.Done || len(c.Writes) > 0) {
							e.Fail("%s: %v: a connection is let in with %d of %d places taken", p, hist, len(held), m)
							return
						}
						if len(held) < m {
							held = append(held, c)
						}
					case 1:
						hist = append(hist, "login")
						if st := w.login(held[len(held)-1], a, uint32(20+i)); st != 0 {
							e.Fail("%s: %v: answered with %d", p, hist, st)
							return
						}
					default:
						name := []string{"hang up", "reset", "logout", "rubbish"}[op-2]
						hist = append(hist, name)
						k := 0
						if op%2 == 0 {
							k = len(held) - 1
						}
						leaves[name](held[k])
						e.Idle()
						if !held[k].Done {
							e.Fail("%s: %v: still open", p, hist)
							return
						}
						held = append(held[:k:k], held[k+1:]...)
					}
					if !w.count(fmt.Sprint(hist)) {
						return
					}
					for _, c := range held {
						if c.Closed {
							e.Fail("%s: %v: another connection was closed", p, hist)
							return
						}
					}
				}
				w.panics()
			}})
		}
	}
	return
}
