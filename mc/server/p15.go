package server

import (
	"fmt"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P15"] = sched.Check{Rule: "every schedule up to the stated number of deviations of logins of one account on several connections and loops with disconnects and logouts at any moment; every sequence of logins and closes against a counter",
		Scenarios: p15, Setup: setup, Quick: 4, Thorough: 7}
}

func fullCode(p wire.Proto) uint32 { return map[string]uint32{"cmpp": 5, "sgip": 3, "smgp": 2}[p.Name] }

// loggedIn counts the open connections that were told their login succeeded.
func (w *world) loggedIn(but *fake.Conn) (n int) {
	for _, c := range w.g.Conns {
		if c != but && !c.Closed && w.told(c) == 0 {
			n++
		}
	}
	return
}

// told is the status of the last login response, -1 for none.
func (w *world) told(c *fake.Conn) int {
	st := -1
	for _, k := range w.pkts(c) {
		if k.Kind == wire.Login && k.Rsp {
			st = int(k.Status)
		}
	}
	return st
}

func p15(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		a, b := ids(p)
		full := int(fullCode(p))
		// n logins at once with room for m
		for _, x := range [][3]int{{2, 1, 1}, {2, 1, 2}, {3, 1, 2}, {3, 2, 2}, {3, 2, 3}, {2, 2, 2}, {4, 2, 2}} {
			n, m, loops := x[0], x[1], x[2]
			if p != wire.CMPP20 && !r.Thorough() && (x == [3]int{4, 2, 2} || x == [3]int{3, 2, 3}) {
				continue
			}
			max := r.Pick(3, 6)
			if n > 2 {
				max = r.Pick(2, 4)
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %d logins for %d places on %d loops", p, n, m, loops), Max: max, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{conns: m, loops: loops})
				var d *fake.Conn // of another account
				w.g.Hook = func() {
					if k := w.loggedIn(d); k > m {
						e.Fail("%s: %d sessions of an account logged in, %d allowed", p, k, m)
					}
				}
				for i := 0; i < n; i++ {
					w.g.Connect()
				}
				e.Idle()
				w.race()
				for i, c := range w.g.Conns {
					c.Send(p.LoginReq(a, wire.S(uint32(11+i))))
				}
				w.calm()
				in := 0
				for i, c := range w.g.Conns {
					st := w.told(c)
					switch {
					case st == 0 && !c.Closed:
						in++
						if !w.serves(c, 50) {
							e.Fail("%s: connection %d logged in but not served", p, i)
						}
					case st == full && c.Closed:
					default:
						e.Fail("%s: login beyond the limit on connection %d answered with %d, closed: %v", p, i, st, c.Closed)
					}
					e.Note("%d:%d", i, st)
				}
				if in != min(n, m) {
					e.Fail("%s: %d of %d logins accepted with %d places", p, in, n, m)
				}
				if k, ok := w.counted(a); ok && k != in {
					e.Fail("%s: the server counts %d sessions of the account, there are %d", p, k, in)
				}
				if k, ok := w.counted(b); ok && k != 0 {
					e.Fail("%s: the server counts %d sessions of an account without", p, k)
				}
				// another account is not concerned
				d = w.g.Connect()
				if st := w.login(d, b, 60); st != 0 {
					e.Fail("%s: the login of another account is answered with %d", p, st)
				}
				// a place given up can be used again
				for _, c := range w.g.Conns {
					if !c.Closed && c != d {
						c.Hangup()
						break
					}
				}
				e.Idle()
				if st := w.login(w.g.Connect(), a, 61); st != 0 {
					e.Fail("%s: a login after a place was given up is answered with %d", p, st)
				}
				w.g.Hook()
				if st := w.login(w.g.Connect(), a, 62); m <= n && st != full {
					e.Fail("%s: a login beyond the limit is answered with %d", p, st)
				}
				w.panics()
			}})
		}
		// accounts with ids that look alike are counted apart
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s ids that look alike", p), Wide: true, Opt: rt.Options{Horizon: time.Hour, MaxSteps: 1000000}, Body: func(e *rt.Exec) {
			m := 1 + e.ChooseFree(2)
			w := newWorld(e, p, conf{conns: m, sessions: 50})
			same := []wire.Account{a, b}
			n := len(a.Id)
			for _, id := range []string{a.Id[:n-1], a.Id[:1], "0" + a.Id[:n-1], a.Id[1:], a.Id[1:] + a.Id[:1], "A00001", "A0000B", "A"} {
				x := a
				x.Id, x.Login, x.Secret = id, id, "secret"+id[:1]
				w.account(x)
				same = append(same, x)
			}
			if p.Name == "sgip" {
				for _, id := range []string{a.Id + "0", a.Id + a.Id, a.Id + "0123456789"} {
					x := a
					x.Id, x.Login = id, id
					w.account(x)
					same = append(same, x)
				}
			}
			i := e.ChooseFree(len(same))
			same = append(same[i:len(same):len(same)], same[:i]...)
			if e.ChooseFree(2) == 1 {
				for i, j := 0, len(same)-1; i < j; i, j = i+1, j-1 {
					same[i], same[j] = same[j], same[i]
				}
			}
			for k := 0; k < m; k++ {
				for _, x := range same {
					if st := w.login(w.g.Connect(), x, uint32(11+k)); st != 0 {
						e.Fail("%s: login %d of account %q is answered with %d, %d allowed", p, k+1, x.Id, st, m)
						return
					}
				}
			}
			for _, x := range same {
				c := w.g.Connect()
				if st := w.login(c, x, 30); st != full || !c.Closed {
					e.Fail("%s: login %d of account %q is answered with %d, %d allowed", p, m+1, x.Id, st, m)
					return
				}
			}
			w.hangup()
			if st := w.login(w.g.Connect(), same[0], 31); st != 0 {
				e.Fail("%s: a login after all places were given up is answered with %d", p, st)
			}
			w.panics()
		}})
		// logins while the holder of the place goes away
		type leave struct {
			name string
			f    func(c *fake.Conn)
		}
		for _, l := range []leave{
			{"hangs up", func(c *fake.Conn) { c.Hangup() }},
			{"resets", func(c *fake.Conn) { c.Reset() }},
			{"logs out", func(c *fake.Conn) { c.Send(p.TermReq(wire.S(9))) }},
			{"sends rubbish", func(c *fake.Conn) { c.Send(make([]byte, 12)) }},
		} {
			for _, early := range []bool{false, true} {
				name := fmt.Sprintf("%s login while another %s", p, l.name)
				if early {
					name += " during its login"
				}
				out = append(out, sched.Scenario{Name: name, Max: r.Pick(3, 6), Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{conns: 1, loops: 2})
					w.g.FailWrites = true
					w.g.Hook = func() {
						if k := w.loggedIn(nil); k > 1 {
							e.Fail("%s: %d sessions of an account logged in, 1 allowed", p, k)
						}
					}
					c := w.g.Connect()
					d := w.g.Connect()
					e.Idle()
					if early {
						w.race()
					}
					c.Send(p.LoginReq(a, wire.S(5)))
					if !early {
						e.Idle()
						w.race()
					}
					l.f(c)
					d.Send(p.LoginReq(a, wire.S(6)))
					w.calm()
					st := w.told(d)
					if st != 0 && st != full || d.Closed != (st != 0) {
						e.Fail("%s: login answered with %d, closed: %v", p, st, d.Closed)
					}
					if !c.Closed { // a logout or rubbish before the login was complete closes too
						e.Fail("%s: the connection that left is open", p)
					}
					e.Note("%d %d", w.told(c), st)
					e.Pass(2 * time.Second)
					want := 0
					if st == 0 {
						want = 1
					}
					if k, ok := w.counted(a); ok && k != want {
						e.Fail("%s: the server counts %d sessions of the account, there are %d", p, k, want)
					}
					if st != 0 {
						if st := w.login(w.g.Connect(), a, 7); st != 0 {
							e.Fail("%s: a login after the place was given up is answered with %d", p, st)
						}
					}
					if st := w.login(w.g.Connect(), a, 8); st != full {
						e.Fail("%s: a login beyond the limit is answered with %d", p, st)
					}
					w.panics()
				}})
			}
		}
		// failed logins take no place
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s wrong login at the same time", p), Max: r.Pick(3, 6), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{conns: 1, loops: 2})
			c, d := w.g.Connect(), w.g.Connect()
			x := a
			x.Secret = "nothing"
			_, secret, _ := codes(p)
			e.Idle()
			w.race()
			c.Send(p.LoginReq(x, wire.S(5)))
			d.Send(p.LoginReq(a, wire.S(6)))
			w.calm()
			if st := w.told(c); st != secret || !c.Closed {
				e.Fail("%s: a wrong login is answered with %d, closed: %v", p, st, c.Closed)
			}
			if st := w.told(d); st != 0 || d.Closed {
				e.Fail("%s: a login within the limit is answered with %d, closed: %v", p, st, d.Closed)
			}
			w.panics()
		}})
		// a session that logs in again, also as another account, keeps one place
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s login again on the same connection", p), Max: r.Pick(2, 5), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{conns: 1, loops: 2})
			w.g.Hook = func() {
				for _, y := range []wire.Account{a, b} {
					if k, ok := w.counted(y); ok && k > 1 {
						e.Fail("%s: %d sessions of an account, 1 allowed", p, k)
					}
				}
			}
			c, d := w.g.Connect(), w.g.Connect()
			if st := w.login(c, a, 5); st != 0 {
				e.Fail("%s: login answered with %d", p, st)
			}
			w.race()
			c.Send(p.LoginReq([]wire.Account{a, b}[e.ChooseFree(2)], wire.S(6)))
			d.Send(p.LoginReq(b, wire.S(7)))
			w.calm()
			in := 0
			for _, x := range []*fake.Conn{c, d} {
				st := w.told(x)
				if st != 0 && st != full || x.Closed != (st != 0) {
					e.Fail("%s: login answered with %d, closed: %v", p, st, x.Closed)
				}
				if st == 0 {
					in++
				}
				e.Note("%d", st)
			}
			if k, ok := w.counted(a, b); ok && k != in {
				e.Fail("%s: the server counts %d sessions of the accounts, there are %d", p, k, in)
			}
			w.panics()
		}})
		// two logins under way on one connection, as different accounts, while others take the places
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s two logins on one connection", p), Max: r.Pick(2, 5), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{conns: 1, loops: 2})
			w.g.Hook = func() {
				for _, y := range []wire.Account{a, b} {
					if k, ok := w.counted(y); ok && k > 1 {
						e.Fail("%s: %d sessions of an account, 1 allowed", p, k)
					}
				}
			}
			c, d := w.g.Connect(), w.g.Connect()
			e.Idle()
			w.race()
			c.Send(p.LoginReq(a, wire.S(5)))
			c.Send(p.LoginReq(b, wire.S(6)))
			d.Send(p.LoginReq([]wire.Account{a, b}[e.ChooseFree(2)], wire.S(7)))
			w.calm()
			st := w.told(d)
			if st != 0 && st != full || d.Closed != (st != 0) {
				e.Fail("%s: login answered with %d, closed: %v", p, st, d.Closed)
			}
			w.g.Hook()
			ka, _ := w.counted(a)
			kb, ok := w.counted(b)
			open := 0
			for _, x := range []*fake.Conn{c, d} {
				if !x.Closed {
					open++
				}
			}
			if ok && ka+kb != open {
				e.Fail("%s: the server counts %d and %d sessions of the accounts, there are %d", p, ka, kb, open)
			}
			e.Note("%d %d", w.told(c), st)
			w.panics()
			w.hangup()
		}})
		// sequences of logins and closes, one after another
		depth := r.Pick(5, 7)
		for m := 1; m <= 2; m++ {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s sequences with %d places", p, m), Wide: true, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{conns: m, loops: 2})
				held := map[string][]*fake.Conn{}
				for i := 0; i < depth; i++ {
					switch op := e.ChooseFree(7); op {
					case 0, 1:
						x := []wire.Account{a, b}[op]
						c := w.g.Connect()
						st, want := w.login(c, x, 5), 0
						if len(held[x.Id]) == m {
							want = full
						}
						if st != want || c.Closed != (want != 0) {
							e.Fail("%s: login answered with %d (closed: %v) while %d of %d places are taken", p, st, c.Closed, len(held[x.Id]), m)
							return
						}
						if st == 0 {
							held[x.Id] = append(held[x.Id], c)
						}
					case 2, 3:
						h := held[a.Id]
						if len(h) == 0 {
							return
						}
						held[a.Id] = h[1:]
						if op == 2 {
							h[0].Hangup()
						} else {
							h[0].Send(p.TermReq(wire.S(9)))
						}
						e.Idle()
					case 4, 5, 6: // a session logs in again
						from, to := a, b
						if op == 5 {
							to = a
						} else if op == 6 {
							from, to = b, a
						}
						h := held[from.Id]
						if len(h) == 0 {
							return
						}
						c := h[0]
						held[from.Id] = h[1:]
						st, want := w.login(c, to, uint32(20+i)), 0
						if len(held[to.Id]) == m {
							want = full
						}
						if st != want || c.Closed != (want != 0) {
							e.Fail("%s: a login again of a session answered with %d (closed: %v) while %d of %d places are taken", p, st, c.Closed, len(held[to.Id]), m)
							return
						}
						if st == 0 {
							held[to.Id] = append(held[to.Id], c)
						}
					}
					for _, x := range []wire.Account{a, b} {
						if k, ok := w.counted(x); ok && k != len(held[x.Id]) {
							e.Fail("%s: the server counts %d sessions of the account, there are %d", p, k, len(held[x.Id]))
							return
						}
					}
				}
				w.panics()
			}})
		}
	}
	return
}

// counted is the number of sessions the server counts for accounts.
func (w *world) counted(as ...wire.Account) (n int, ok bool) {
	s, ok := any(w.s).(interface{ CountSessionByClientId(string) int })
	if !ok {
		return
	}
	for _, a := range as {
		n += s.CountSessionByClientId(a.Id)
	}
	return
}
