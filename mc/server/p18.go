package server

import (
	"fmt"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P18"] = sched.Check{Rule: "every sequence of client actions between the ticks of the server to a depth, against a model of activity and unanswered heartbeats, for several tick durations and limits; every schedule up to the stated number of deviations of a tick that meets traffic, answers, long processing and closes",
		Scenarios: p18, Setup: setup, Quick: 3, Thorough: 6}
}

// ticker lets the server tick as its engine does: at once and then after each delay it asks for.
func (w *world) ticker() (stop func()) {
	done := false
	w.e.Go("loop-ticker", func() { w.g.Tick(func() bool { return done }) })
	return func() { done = true }
}

// sent counts the requests of a kind the server has sent on a connection; last is the newest.
func (w *world) sent(c *fake.Conn, k wire.Kind) (n int, last wire.Pkt, at time.Duration) {
	for _, x := range w.timed(c) {
		if x.Kind == k && !x.Rsp {
			n++
			last, at = x.Pkt, x.at
		}
	}
	return
}

// live is the model of one session.
type live struct {
	in    bool
	last  time.Duration // client activity
	beats int           // sent
	open  int           // unanswered
	over  time.Duration // when it was to be ended
}

func p18(r *lib.R) (out []sched.Scenario) {
	day := rt.Options{Horizon: 24 * time.Hour, MaxSteps: 200000}
	const s = time.Second
	for _, p := range wire.All {
		a, b := ids(p)
		hasBeat := p.Has(wire.Active)
		// sequences
		type cfg struct {
			tick, force, at time.Duration
			depth           int
		}
		cfgs := []cfg{{45 * s, 200 * s, 20 * s, 6}, {45 * s, 1000 * s, 31 * s, 6}, {22 * s, 2 * time.Minute, 7 * s, 6}, {70 * s, 180 * s, 3 * s, 5}}
		for _, f := range cfgs {
			depth := f.depth
			if r.Thorough() {
				depth += 2
			}
			for _, logged := range []bool{true, false} {
				if p == wire.CMPP30 && !r.Thorough() && f != cfgs[0] {
					continue
				}
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s ticks every %v, limit %v, logged in: %v", p, f.tick, f.force, logged), Wide: true, Opt: day, Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{tick: f.tick, force: f.force})
					stop := w.ticker()
					e.Idle()
					t0 := e.Now()
					e.Pass(f.at / 2)
					var c *fake.Conn
					m := live{in: logged}
					if logged {
						c = w.in(a)
					} else {
						c = w.g.Connect()
						e.Idle()
					}
					m.last = e.Now()
					var hist []string
					bad := func(format string, args ...any) {
						e.Fail("%s, tick %v, limit %v, actions %v: %s", p, f.tick, f.force, hist, fmt.Sprintf(format, args...))
					}
					for i := 0; i < depth; i++ {
						// the tick at t0+(i+1)*tick comes first, then the action at .at after it
						at := t0 + time.Duration(i+1)*f.tick
						e.Pass(at - 1 - e.Now())
						if c.Closed {
							bad("closed before the tick at %v", at-t0)
							return
						}
						e.Pass(2)
						e.Idle()
						end := at-m.last > f.force || m.open > 2
						if !end && m.in && hasBeat && at-m.last > time.Minute {
							m.beats++
							m.open++
						}
						n, beat, when := w.sent(c, wire.Active)
						if n != m.beats || (n > 0 && when > at) {
							bad("%d heartbeats sent by the tick at %v, not %d", n, at-t0, m.beats)
							return
						}
						k, term, _ := w.sent(c, wire.Term)
						if end {
							if k != 1 || c.Closed {
								bad("%d logouts by the tick at %v and closed: %v, it was last active at %v with %d heartbeats unanswered", k, at-t0, c.Closed, m.last-t0, m.open)
								return
							}
							if e.ChooseFree(2) == 1 && m.in {
								hist = append(hist, "answers the logout")
								c.Send(p.TermRsp(term.Seq))
								e.Idle()
							}
							e.Pass(3 * s)
							if !c.Done {
								bad("not closed after the logout")
							}
							stop()
							w.gone0()
							return
						}
						if k != 0 || c.Closed {
							bad("ended by the tick at %v (%d logouts), it was last active at %v with %d heartbeats unanswered", at-t0, k, m.last-t0, m.open)
							return
						}
						// the action
						e.Pass(at + f.at - e.Now())
						acts := []string{"nothing"}
						if m.in {
							acts = append(acts, "submit", "delivery answer")
							if hasBeat {
								acts = append(acts, "heartbeat")
							}
							if m.open > 0 {
								acts = append(acts, "heartbeat answer")
							}
							if p == wire.SGIP {
								acts = append(acts[:2], "login again")
							}
						} else {
							acts = append(acts, "login", "part of a login")
						}
						act := acts[e.ChooseFree(len(acts))]
						hist = append(hist, act)
						x := uint32(100 + i)
						q := len(w.pkts(c))
						switch act {
						case "submit":
							c.Send(w.submit(x))
						case "heartbeat":
							c.Send(p.ActiveReq(wire.S(x)))
						case "heartbeat answer":
							c.Send(p.ActiveRsp(beat.Seq))
						case "delivery answer":
							c.Send(p.DeliverRsp(wire.S(x), make([]byte, p.IdLen()), 0))
						case "login", "login again":
							c.Send(p.LoginReq(a, wire.S(x)))
						case "part of a login":
							c.Send(p.LoginReq(a, wire.S(x))[:i+1]) // is no activity and spoils a login
						}
						e.Idle()
						switch act {
						case "submit", "heartbeat", "login", "login again":
							if len(w.pkts(c)) < q+1 || c.Closed {
								bad("not answered")
								return
							}
						}
						switch act {
						case "nothing":
						case "part of a login":
							// from here on nothing but silence
							c.Reset()
							e.Idle()
							stop()
							w.gone0()
							return
						default:
							m.last = e.Now()
							m.in = true
						}
						if act == "heartbeat answer" {
							m.open = 0
						}
						if act == "login again" {
							m.open = 0
						}
					}
					e.Note("lives")
					w.panics()
					stop()
				}})
			}
		}
		if p == wire.CMPP30 && !r.Thorough() {
			continue // ticks know no version
		}
		// activity counts from the moment it was received, however long its processing takes
		for _, what := range []string{"submit", "flow control", "failure", "heartbeat behind it"} {
			if !hasBeat && what == "heartbeat behind it" {
				continue
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s tick while in processing: %s", p, what), Max: r.Pick(2, 3), Opt: day, Body: func(e *rt.Exec) {
				k := conf{tick: time.Hour, force: 60 * s, ms: 40000, window: 1}
				switch what {
				case "flow control":
					k.rate = 1
				case "failure":
					k.success = -1
				}
				w := newWorld(e, p, k)
				c := w.in(a)
				switch what {
				case "flow control", "heartbeat behind it": // something in processing before
					e.Pass(30 * s)
					c.Send(w.submit(90))
				}
				e.Pass(59*s - e.Now()%s)
				w.race()
				x := w.submit(100)
				if what == "heartbeat behind it" {
					x = p.ActiveReq(wire.S(100))
				}
				c.Send(x)
				e.Idle()
				e.Pass(20 * s)
				tick(w)
				tick(w)
				w.calm()
				if n, _, _ := w.sent(c, wire.Term); n != 0 || c.Closed {
					e.Fail("%s: a session that sent a request 20 s ago (%s) is ended, the limit is a minute", p, what)
				}
				e.Pass(100 * s)
				w.panics()
				w.hangup()
			}})
		}
		// a tick meets traffic of a live session
		for _, meets := range []string{"submissions", "heartbeat", "answers", "open and login", "hang up", "reset", "logout"} {
			if !hasBeat && (meets == "heartbeat" || meets == "answers") {
				continue
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s tick meets %s", p, meets), Max: r.Pick(2, 4), Opt: day, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{tick: time.Hour, force: 5 * time.Minute, loops: 2, delivery: true})
				w.g.FailWrites = true
				c, d := w.in(a), w.in(b)
				e.Pass(70 * s)
				quiet := meets == "answers"
				if quiet {
					w.tickN(2, 10*s) // two heartbeats without an answer
				} else {
					w.serves(c, 80)
				}
				_, beat, _ := w.sent(c, wire.Active)
				w.race()
				tick(w)
				var x *fake.Conn
				switch meets {
				case "submissions":
					c.Send(append(w.submit(100), w.submit(101)...))
				case "heartbeat":
					c.Send(p.ActiveReq(wire.S(100)))
				case "answers":
					c.Send(p.ActiveRsp(beat.Seq))
				case "open and login":
					x = w.g.Connect()
					x.Send(p.LoginReq(a, wire.S(100)))
				case "hang up":
					c.Hangup()
				case "reset":
					c.Reset()
				case "logout":
					c.Send(p.TermReq(wire.S(100)))
				}
				if !quiet && r.Thorough() {
					tick(w)
				}
				w.calm()
				for i, y := range []*fake.Conn{c, d, x} {
					gone := i == 0 && (meets == "hang up" || meets == "reset" || meets == "logout")
					if y == nil {
						continue
					}
					if y.Closed != gone {
						e.Fail("%s: a tick meets %s: connection %d closed: %v", p, meets, i, y.Closed)
						return
					}
					if n, _, _ := w.sent(y, wire.Term); n != 0 {
						e.Fail("%s: a tick meets %s: live connection %d is sent a logout", p, meets, i)
					}
				}
				if quiet { // the answer counts: no end at the next ticks, d has not answered three
					n, _, _ := w.sent(c, wire.Active)
					if n < 2 || n > 3 {
						e.Fail("%s: %d heartbeats", p, n)
					}
					w.tickN(1, 10*s)
					if k, _, _ := w.sent(c, wire.Term); k != 0 {
						e.Fail("%s: a session that answered its heartbeat is ended", p)
					}
					if k, _, _ := w.sent(d, wire.Term); k == 0 {
						e.Fail("%s: a session with more than 2 unanswered heartbeats is not ended", p)
					}
					e.Pass(2 * s)
					if !d.Done || c.Closed {
						e.Fail("%s: closed: %v and of the session with unanswered heartbeats %v", p, c.Closed, d.Done)
					}
				} else if !w.serves(d, 200) {
					e.Fail("%s: a tick meets %s: the other session is not served", p, meets)
				}
				if x != nil && !w.serves(x, 201) {
					e.Fail("%s: a session that logged in at a tick is not served", p)
				}
				w.panics()
				w.hangup()
			}})
		}
		// sessions that are to be ended, together with a live one
		for _, meets := range []string{"nothing", "its request", "its logout", "its hang up", "its answer", "a second tick"} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s the end of a dead session meets %s", p, meets), Max: r.Pick(2, 4), Opt: day, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{tick: time.Hour, force: 5 * time.Minute, loops: 2})
				w.g.FailWrites = true
				c, d, u := w.in(a), w.in(b), w.g.Connect() // u never logs in
				e.Pass(5*time.Minute + s)
				if !w.serves(d, 80) {
					e.Fail("%s: not served", p)
				}
				w.race()
				tick(w)
				switch meets {
				case "its request":
					c.Send(w.submit(100))
				case "its logout":
					c.Send(p.TermReq(wire.S(100)))
				case "its hang up":
					c.Hangup()
				case "its answer":
					e.Until("logout", func() bool { n, _, _ := w.sent(c, wire.Term); return n > 0 })
					_, t, _ := w.sent(c, wire.Term)
					c.Send(p.TermRsp(t.Seq))
				case "a second tick":
					tick(w)
				}
				w.calm()
				n, _, _ := w.sent(c, wire.Term)
				switch meets {
				case "nothing", "its answer", "a second tick":
					if n == 0 {
						e.Fail("%s: a dead session is not sent a logout", p)
					}
				}
				e.Pass(2 * s)
				spared := meets == "its request" && n == 0 // the request came first
				if c.Done == spared || !u.Done {
					e.Fail("%s: the end of a dead session meets %s: closed %v, the one never logged in %v", p, meets, c.Done, u.Done)
				}
				if d.Closed || !w.serves(d, 200) {
					e.Fail("%s: the end of another session disturbs a live one", p)
				}
				if k, _, _ := w.sent(d, wire.Term); k != 0 {
					e.Fail("%s: a live session is sent a logout", p)
				}
				w.panics()
				w.hangup()
			}})
		}
	}
	return
}

// tick starts one tick of the server.
func tick(w *world) { w.e.Go("tick", func() { w.g.H.OnTick() }) }

// tickN runs ticks, the time passes after each.
func (w *world) tickN(n int, d time.Duration) {
	for i := 0; i < n; i++ {
		tick(w)
		w.e.Idle()
		w.e.Pass(d)
	}
}

// gone0 is gone for a world that ticks no more.
func (w *world) gone0() {
	w.e.Pass(2 * w.c.tick)
	w.gone()
}
