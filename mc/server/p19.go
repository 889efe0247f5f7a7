package server

import (
	"fmt"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P19"] = sched.Check{Rule: "every way and time of ending a connection against every load in processing, under every schedule up to the stated number of deviations; afterwards the sessions, counters, pools and tasks left are counted and another session is compared with its expected answers",
		Scenarios: p19, Setup: setup, Quick: 2, Thorough: 4}
}

// only checks that a connection was sent nothing but answers to its own requests.
func (w *world) only(c *fake.Conn, what string, seqs ...uint32) {
	want := map[wire.Seq]int{}
	for _, n := range seqs {
		want[w.seq(n)]++
	}
	mine := map[string]bool{}
	ks := w.pkts(c)
	for _, k := range ks {
		if k.Kind == wire.Submit && k.Rsp && k.Status == 0 {
			mine[string(k.Id)] = true
		}
	}
	for _, k := range ks {
		switch {
		case k.Rsp:
			if want[k.Seq] == 0 {
				w.e.Fail("%s: %s: a connection got %s, which answers nothing it sent", w.p, what, tag(k))
			}
			want[k.Seq]--
		case k.Of != "":
			if !mine[string(k.Of)] {
				w.e.Fail("%s: %s: a connection got a report of a message it did not submit", w.p, what)
			}
		}
	}
}

func p19(r *lib.R) (out []sched.Scenario) {
	const ms = time.Millisecond
	opt := rt.Options{Horizon: time.Hour, MaxSteps: 100000}
	for _, p := range wire.All {
		if p == wire.CMPP30 && !r.Thorough() {
			continue
		}
		a, b := ids(p)
		ends := []string{"hang up", "reset", "logout", "rubbish", "tick"}
		end := func(w *world, c *fake.Conn, how string) {
			switch how {
			case "hang up":
				c.Hangup()
			case "reset":
				c.Reset()
			case "logout":
				c.Send(p.TermReq(wire.S(99)))
			case "rubbish":
				c.Send(make([]byte, 12))
			case "tick":
				tick(w)
			}
		}
		loads := []struct {
			name   string
			window int
			n      int
			rate   int
			beats  int
		}{
			{"one", 2, 1, 1000000, 0},
			{"the window", 2, 2, 1000000, 1},
			{"a queue", 1, 2, 1000000, 1},
			{"a full pool", 1, 4, 1000000, 0},
			{"flow control", 1, 2, 1, 0},
		}
		for _, l := range loads {
			for _, how := range ends {
				max := 1
				if l.name == "one" || l.name == "flow control" && how != "tick" || l.name == "a queue" && how == "hang up" {
					max = 2
				}
				if r.Thorough() {
					max++
				}
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s ends %s in processing", p, how, l.name), Max: max, Opt: opt, Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{window: l.window, rate: l.rate, ms: 10, report: 20, force: 59 * time.Second, tick: time.Hour})
					w.g.FailWrites = true
					c := w.in(a)
					if how == "tick" {
						e.Pass(time.Minute)
					}
					d := w.in(b)
					times := []time.Duration{0, 5 * ms, 10 * ms, 15 * ms, 30 * ms, 35 * ms}
					at := times[e.ChooseFree(len(times))]
					w.race()
					if how == "tick" && at == 0 {
						end(w, c, how)
					}
					sent := []uint32{1, 99}
					for i := 0; i < l.n; i++ {
						c.Send(w.submit(uint32(100 + i)))
						sent = append(sent, uint32(100+i))
					}
					if p.Has(wire.Active) {
						for i := 0; i < l.beats; i++ {
							c.Send(p.ActiveReq(wire.S(uint32(150 + i))))
							sent = append(sent, uint32(150+i))
						}
					}
					d.Send(w.submit(500))
					if at > 0 {
						rt.Sleep(at)
						if how == "tick" { // a session with requests is alive, one that is logged out is not
							end(w, c, "logout")
						}
					}
					if how != "tick" {
						end(w, c, how)
					}
					e.Idle()
					e.Pass(2 * time.Second)
					w.calm()
					if !c.Done && how != "tick" {
						e.Fail("%s: %s did not close the connection", p, how)
					}
					w.only(c, how, sent...)
					w.only(d, how, 1, 500)
					st, _ := w.status(d, 500)
					if st != 0 || d.Closed || !w.serves(d, 501) {
						e.Fail("%s: %s of one connection disturbs another (answer %d, closed %v)", p, how, st, d.Closed)
					}
					if p.Name != "sgip" && w.reports(d) != 2 {
						e.Fail("%s: %s of one connection: another got %d reports for 2 messages", p, how, w.reports(d))
					}
					e.Note("%d", len(c.Writes))
					w.hangup()
				}})
			}
		}
		// a login in progress
		for _, how := range []string{"hang up", "reset", "rubbish"} {
			for _, good := range []bool{true, false} {
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s during a login (right: %v)", p, how, good), Max: r.Pick(5, 7), Opt: opt, Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{conns: 1, loops: 2})
					w.g.FailWrites = true
					c := w.g.Connect()
					d := w.in(b)
					x := a
					if !good {
						x.Secret = "no"
					}
					w.race()
					c.Send(p.LoginReq(x, wire.S(5)))
					end(w, c, how)
					w.calm()
					e.Pass(time.Second)
					if !c.Done {
						e.Fail("%s: %s during a login leaves the connection open", p, how)
					}
					// its place is free
					y := w.in(a)
					if !w.serves(y, 7) || !w.serves(d, 8) {
						e.Fail("%s: %s during a login disturbs others", p, how)
					}
					w.hangup()
				}})
			}
		}
		// logins again on the same connection
		for _, other := range []bool{false, true} {
			for _, how := range []string{"", "hang up", "reset", "logout"} {
				max := r.Pick(1, 3)
				if how == "" {
					max = r.Pick(2, 3)
				}
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s login again (another account: %v) while in processing, then %s", p, other, how), Max: max, Opt: opt, Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{window: 1, ms: 10, report: 20})
					w.g.FailWrites = true
					c := w.in(a)
					d := w.in(b)
					at := []time.Duration{0, 5 * ms, 15 * ms}[e.ChooseFree(3)]
					x := a
					if other {
						x = b
					}
					w.race()
					c.Send(append(w.submit(100), w.submit(101)...))
					if at > 0 {
						rt.Sleep(at)
					}
					c.Send(p.LoginReq(x, wire.S(7)))
					e.Idle()
					c.Send(w.submit(102))
					d.Send(w.submit(500))
					if how != "" {
						end(w, c, how)
					}
					e.Idle()
					e.Pass(2 * time.Second)
					w.calm()
					w.only(c, "login again", 1, 7, 100, 101, 102, 99)
					w.only(d, "login again", 1, 500)
					if how == "" {
						if c.Closed || !w.serves(c, 103) {
							e.Fail("%s: not served after a login again (closed: %v)", p, c.Closed)
						}
						if st, _ := w.status(c, 102); st != 0 {
							e.Fail("%s: a submission after a login again is answered with %d", p, st)
						}
					} else if !c.Done {
						e.Fail("%s: still open after %s", p, how)
					}
					if st, _ := w.status(d, 500); st != 0 || d.Closed || !w.serves(d, 501) {
						e.Fail("%s: a login again disturbs another session", p)
					}
					w.hangup()
				}})
			}
		}
		// many connections end at once
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s three connections end together", p), Max: r.Pick(3, 4), Opt: opt, Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{window: 1, ms: 10, report: 20, loops: 2})
			w.g.FailWrites = true
			c, d, x := w.in(a), w.in(b), w.g.Connect()
			w.race()
			c.Send(w.submit(100))
			d.Send(w.submit(200))
			end(w, c, "reset")
			end(w, d, "hang up")
			end(w, x, "rubbish")
			w.calm()
			w.gone()
		}})
	}
	return
}

// reports counts the status reports sent on a connection.
func (w *world) reports(c *fake.Conn) (n int) {
	for _, k := range w.pkts(c) {
		if k.Of != "" {
			n++
		}
	}
	return
}
