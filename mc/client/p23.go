package client

import (
	"fmt"
	"strings"
	"time"

	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P23"] = sched.Check{Rule: "every schedule up to the stated number of deviations of one to three closers against senders, health checks, arriving packets, logouts, the end of the stream, a stalled and a failing connection; every failure of a login at every octet",
		Scenarios: p23, Setup: setup, Quick: 5, Thorough: 9}
}

// shut checks that a session is closed for good.
func (w *world) shut(s *session.Session, c *fake.End, name string) {
	e := w.e
	e.Idle()
	if !c.Closed {
		e.Fail("%s %s: the connection is not closed", w.p, name)
	}
	if l := w.left(); len(l) > 0 {
		e.Fail("%s %s: threads are left after the close: %s", w.p, name, strings.Join(l, ", "))
	}
	if s.HealthCheck() {
		e.Fail("%s %s: a closed session counts as healthy", w.p, name)
	}
	n := len(c.Writes)
	for i := 0; i < 2; i++ {
		if r := s.Send("13800138000", "hello"); len(r) > 0 || len(c.Writes) > n {
			e.Fail("%s %s: a send over a closed session succeeds", w.p, name)
		}
		s.Close()
	}
	e.Pass(2 * time.Minute)
	if s.HealthCheck() {
		e.Fail("%s %s: a closed session counts as healthy later on", w.p, name)
	}
	if l := w.left(); len(l) > 0 {
		e.Fail("%s %s: threads are left after the close: %s", w.p, name, strings.Join(l, ", "))
	}
}

// actor is a thread against the closers.
type actor struct {
	name string
	// does returns a description of what happened, "" if nothing
	does func(w *world, s *session.Session, c *fake.End) string
	// closes: the session is closed without any closer
	closes bool
	prep   func(w *world, s *session.Session, c *fake.End)
}

func actors(p wire.Proto) (out []actor) {
	send := func(text string, n int) func(w *world, s *session.Session, c *fake.End) string {
		return func(w *world, s *session.Session, c *fake.End) string {
			before := len(w.pkts(c))
			r := s.Send("13800138000", text)
			subs := 0
			for _, k := range w.pkts(c)[before:] {
				if k.Kind == wire.Submit && !k.Rsp {
					subs++
				}
			}
			if len(r) > subs || len(r) > n {
				w.e.Fail("%s: a send of %d segments wrote %d and returned %d results", p, n, subs, len(r))
			}
			return fmt.Sprintf("%d of %d", len(r), subs)
		}
	}
	arrive := func(f func(c *fake.End)) func(w *world, s *session.Session, c *fake.End) string {
		return func(w *world, s *session.Session, c *fake.End) string {
			w.e.Point("arrival")
			f(c)
			return ""
		}
	}
	idle := func(w *world, s *session.Session, c *fake.End) { w.e.Pass(61 * time.Second) }
	stall := func(w *world, s *session.Session, c *fake.End) { c.Stalled = true }
	out = append(out,
		actor{name: "send", does: send("hello", 1)},
		actor{name: "send of two segments", does: send(strings.Repeat("x", 200), 2)},
		actor{name: "failing send", does: send("hello", 1), closes: true, prep: func(w *world, s *session.Session, c *fake.End) { c.FailAt = 2 }},
		actor{name: "failing second segment", does: send(strings.Repeat("x", 200), 2), closes: true, prep: func(w *world, s *session.Session, c *fake.End) { c.FailAt = 3 }},
		actor{name: "stalled send", does: send("hello", 1), prep: stall},
		actor{name: "check", does: func(w *world, s *session.Session, c *fake.End) string {
			return fmt.Sprint(s.HealthCheck(), s.LruPriority() > 0)
		}},
		actor{name: "count", does: func(w *world, s *session.Session, c *fake.End) string {
			s.AddCounter()
			s.ResetCounter()
			return ""
		}},
		actor{name: "logout", closes: true, does: arrive(func(c *fake.End) { c.Push(p.TermReq(wire.S(5))) })},
		actor{name: "answered logout", closes: true, does: arrive(func(c *fake.End) { c.Push(p.TermRsp(wire.S(5))) })},
		actor{name: "end of stream", closes: true, does: arrive(func(c *fake.End) { c.EOF() })},
		actor{name: "reset", closes: true, does: arrive(func(c *fake.End) { c.RST() })},
		actor{name: "bad length", closes: true, does: arrive(func(c *fake.End) { c.Push(setLen(stray(p, 3).b, 7)) })},
		actor{name: "response", does: arrive(func(c *fake.End) { c.Push(stray(p, 3).b) })},
	)
	if p.Has(wire.Active) {
		out = append(out,
			actor{name: "heartbeat", does: arrive(func(c *fake.End) { c.Push(act(p, 3).b) })},
			actor{name: "stalled heartbeat", does: arrive(func(c *fake.End) { c.Push(act(p, 3).b) }), prep: stall},
			actor{name: "delivery", does: arrive(func(c *fake.End) { c.Push(dlv(p, 3, "hello").b) })},
			actor{name: "delivery over a broken connection", closes: true, does: arrive(func(c *fake.End) { c.FailAt = 1; c.Push(dlv(p, 3, "hello").b) })},
			actor{name: "check after a minute", prep: idle, does: func(w *world, s *session.Session, c *fake.End) string {
				return fmt.Sprint(s.HealthCheck())
			}},
			actor{name: "stalled check after a minute", prep: func(w *world, s *session.Session, c *fake.End) { idle(w, s, c); stall(w, s, c) }, does: func(w *world, s *session.Session, c *fake.End) string {
				return fmt.Sprint(s.HealthCheck())
			}},
		)
	}
	return
}

func p23(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		as := actors(p)
		run := func(name string, closers, max int, with []actor) {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s, %d closers", p, name, closers), Max: max, Body: func(e *rt.Exec) {
				w := newWorld(e, p, nil)
				s, c := w.in()
				if s == nil {
					return
				}
				for _, a := range with {
					if a.prep != nil {
						a.prep(w, s, c)
					}
				}
				open := 0
				ended := 0
				n := 0
				got := make([]string, len(with))
				w.race()
				for i, a := range with {
					n++
					e.Go(a.name, func() {
						got[i] = a.does(w, s, c)
						ended++
					})
				}
				for i := 0; i < closers; i++ {
					n++
					e.Go(fmt.Sprintf("closer%d", i), func() {
						s.Close()
						if !c.Closed {
							open++
						}
						ended++
					})
				}
				w.calm()
				if ended != n {
					e.Fail("%s %s: %d of %d threads are stuck: %s", p, name, n-ended, n, strings.Join(w.left(), ", "))
				}
				if open > 0 {
					e.Fail("%s %s: Close returned with the connection open", p, name)
				}
				w.shut(s, c, name)
				e.Note("%s", strings.Join(got, ","))
			}})
		}
		run("nothing else", 3, r.Pick(5, 9), nil)
		for i, a := range as {
			run(a.name, 1, r.Pick(5, 9), as[i:i+1])
			run(a.name, 2, r.Pick(3, 6), as[i:i+1])
			if a.closes {
				run(a.name, 0, r.Pick(3, 6), as[i:i+1])
			}
		}
		// pairs
		for i, a := range as {
			for j, b := range as {
				if j <= i || a.prep != nil && b.prep != nil || r.Tier != "thorough" && p.Name == "cmpp" && p.Ver != 0x30 {
					continue
				}
				run(a.name+" and "+b.name, 1, r.Pick(2, 4), []actor{a, b})
			}
		}
		// failing logins
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s failing login", p), Wide: true, Body: func(e *rt.Exec) {
			w := newWorld(e, p, nil)
			c := w.end()
			what := e.ChooseFree(10)
			if what == 0 {
				c.FailAt = 1
			}
			q := w.dial(c)
			e.Idle()
			seq := wire.S(1)
			if what > 0 {
				ks := w.pkts(c)
				if len(ks) != 1 || ks[0].Kind != wire.Login {
					e.Fail("%s: a session does not begin with a login request: %v", p, ks)
					return
				}
				seq = ks[0].Seq
			}
			rsp := p.LoginRsp(seq, 0)
			name := ""
			switch what {
			case 0:
				name = "write"
			case 1: // the stream ends
				i := e.ChooseFree(len(rsp))
				c.Push(rsp[:i])
				c.EOF()
				name = fmt.Sprintf("end after %d octets", i)
			case 2: // reset
				i := e.ChooseFree(len(rsp))
				c.Push(rsp[:i])
				e.Idle()
				c.RST()
				name = fmt.Sprintf("reset after %d octets", i)
			case 3: // refused
				st := uint32(1 + e.ChooseFree(40))
				c.Push(p.LoginRsp(seq, st))
				name = fmt.Sprintf("status %d", st)
			case 4: // another command
				cmds := []uint32{0, 1, 0x80000002, 0x80000004, 0x80000008, 5, 0xffffffff}
				x := append([]byte(nil), rsp...)
				k := cmds[e.ChooseFree(len(cmds))]
				x[4], x[5], x[6], x[7] = byte(k>>24), byte(k>>16), byte(k>>8), byte(k)
				c.Push(x)
				name = fmt.Sprintf("command %#x", k)
			case 5: // another length
				ls := []uint32{0, 4, 11, 12, 13, uint32(len(rsp) - 1), uint32(len(rsp) + 1), 5120, 5121, 0xffffffff, 0x80000000 + uint32(len(rsp))}
				k := ls[e.ChooseFree(len(ls))]
				c.Push(setLen(rsp, k))
				c.Push(make([]byte, 40))
				c.EOF()
				name = fmt.Sprintf("length %d", k)
			case 6: // broken before any answer
				c.RST()
				name = "reset"
			case 7: // a large status in a wide field
				if p.String() == "cmpp20" || p.Name == "sgip" {
					c.Push(p.LoginRsp(seq, 255))
				} else {
					c.Push(p.LoginRsp(seq, []uint32{0x100, 0x10000, 0x1000000, 0xffffff00, 0xffffffff}[e.ChooseFree(5)]))
				}
				name = "large status"
			case 9: // no or half an answer
				i := e.ChooseFree(len(rsp))
				c.Push(rsp[:i])
				for n := 0; n < 36 && !q.done; n++ {
					e.Pass(5 * time.Second)
				}
				name = fmt.Sprintf("%d octets and no more", i)
			case 8: // something else comes first
				c.Push(p.TermReq(wire.S(9)))
				c.Push(rsp)
				c.EOF()
				name = "logout first"
			}
			e.Idle()
			if !q.done {
				e.Fail("%s: login with %s does not return", p, name)
			}
			if q.s != nil {
				e.Fail("%s: login with %s yields a session", p, name)
			}
			if !c.Closed {
				e.Fail("%s: login with %s leaves the connection open", p, name)
			}
			if l := w.left(); len(l) > 0 {
				e.Fail("%s: login with %s leaves threads: %v", p, name, l)
			}
		}})
	}
	out = append(out, sched.Scenario{Name: "no session", Once: true, Body: func(e *rt.Exec) {
		var s *session.Session
		s.Close()
		if s.HealthCheck() {
			e.Fail("no session counts as healthy")
		}
	}})
	return
}
