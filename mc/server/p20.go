package server

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P20"] = sched.Check{Rule: "every truncation, every substitution of an octet by a set of values, every extension of each kind of packet and every combination of header fields, before and after login, each followed by a look at this and another session; every sequence of connection events to a depth; schedules of rubbish against traffic and ticks",
		Scenarios: p20, Setup: setup, Quick: 2, Thorough: 4}
}

// answered counts the answers to a request, whatever else was sent.
func (w *world) answered(c *fake.Conn, kind wire.Kind, n uint32) (k, st int) {
	ps, rest := c.Packets()
	if len(rest) > 0 {
		w.e.Fail("%s: the server sent octets that are no packet: %x", w.p, rest)
	}
	st = -1
	for _, b := range ps {
		x := w.p.Parse(b.Data)
		if x.Err == "" && x.Kind == kind && x.Rsp && x.Seq == w.seq(n) {
			k++
			st = int(x.Status)
		}
	}
	return
}

// alive judges a connection that got odd octets: it is closed, or goes on being served.
func (w *world) alive(c *fake.Conn, sent []byte, loggedIn bool, acc wire.Account, ctx string) bool {
	e := w.e
	e.Idle()
	// a packet that says it is longer is waited for
	if n := declared(w.p, sent); n > len(sent) && n <= 5120 && !c.Closed {
		c.Send(make([]byte, n-len(sent)))
		e.Idle()
	}
	if c.Closed {
		if !c.Done {
			e.Fail("%s: %s: half closed", w.p, ctx)
			return false
		}
		return true
	}
	// a login comes first, again if it has been one
	if !loggedIn {
		c.Send(w.p.LoginReq(acc, wire.S(800)))
		e.Idle()
		if k, st := w.answered(c, wire.Login, 800); k != 1 || st != 0 || c.Closed {
			e.Fail("%s: %s: the connection stays open but a login gets %d answers (%d, closed: %v)", w.p, ctx, k, st, c.Closed)
			return false
		}
	}
	c.Send(w.submit(801))
	e.Idle()
	if w.c.ms > 0 {
		e.Pass(time.Duration(2*w.c.ms) * time.Millisecond)
	}
	if k, st := w.answered(c, wire.Submit, 801); k != 1 || st != 0 || c.Closed {
		e.Fail("%s: %s: the connection stays open but a submission gets %d answers (%d, closed: %v)", w.p, ctx, k, st, c.Closed)
		return false
	}
	return true
}

// declared is the length the (last) packet of some octets says it has, with all before.
func declared(p wire.Proto, b []byte) int {
	at := 0
	for {
		if len(b)-at < 12 {
			if at < len(b) {
				return at + 12
			}
			return at
		}
		n := int(binary.BigEndian.Uint32(b[at:]))
		if n < 12 || n > 5120 {
			return at
		}
		if at+n >= len(b) {
			return at + n
		}
		at += n
	}
}

type mut struct {
	name string
	b    []byte
	// bad: certainly malformed, to be closed without a success
	bad bool
}

func muts(p wire.Proto, name string, b []byte, vals []byte, all bool) (out []mut) {
	add := func(bad bool, x []byte, format string, args ...any) {
		out = append(out, mut{name + " " + fmt.Sprintf(format, args...), x, bad})
	}
	whole := name == "submit" || name == "login" // whose body must be there in full
	for n := 0; n < len(b); n++ {
		if n >= 12 {
			tail := 0
			if name == "submit" || p.Name == "sgip" {
				tail = 20 // an optional or reserved tail
			}
			add(whole && n < len(b)-tail, setLen(b[:n], uint32(n)), "cut to %d", n)
		}
	}
	for _, n := range []int{1, 2, 8, 20, 100, 1000} {
		add(false, setLen(append(b[:len(b):len(b)], make([]byte, n)...), uint32(len(b)+n)), "with %d more", n)
		x := append(b[:len(b):len(b)], make([]byte, n)...)
		for i := len(b); i < len(x); i++ {
			x[i] = 0xff
		}
		add(false, setLen(x, uint32(len(x))), "with %d more ff", n)
	}
	for i := 4; i < len(b); i++ {
		if all {
			for v := 0; v < 256; v++ {
				x := append([]byte(nil), b...)
				x[i] = byte(v)
				add(false, x, "octet %d = %02x", i, v)
			}
			continue
		}
		for _, v := range vals {
			if b[i] == v {
				continue
			}
			x := append([]byte(nil), b...)
			x[i] = v
			add(false, x, "octet %d = %02x", i, v)
		}
	}
	for _, n := range []uint32{0, 1, 4, 11, 12, 13, 16, 19, 20, 21, uint32(len(b) - 1), uint32(len(b) + 1), uint32(len(b) + 12), 5119, 5120, 5121, 1 << 16, 1 << 31, 1<<32 - 1} {
		add(n < 12 || n > 5120, setLen(b, n), "length %d", n)
	}
	return
}

func p20(r *lib.R) (out []sched.Scenario) {
	opt := rt.Options{Horizon: 24 * time.Hour, MaxSteps: 2000000}
	for _, p := range wire.All {
		a, b := ids(p)
		sub := p.SubmitReq(wire.S(700), "95566", "13800138000", "hello")
		base := []mut{
			{"login", p.LoginReq(a, wire.S(700)), false},
			{"submit", sub, false},
			{"logout", p.TermReq(wire.S(700)), false},
			{"logout answer", p.TermRsp(wire.S(700)), false},
			{"login answer", p.LoginRsp(wire.S(700), 0), false},
			{"submit answer", p.SubmitRsp(wire.S(700), make([]byte, p.IdLen()), 0), false},
			{"delivery answer", p.DeliverRsp(wire.S(700), make([]byte, p.IdLen()), 0), false},
		}
		if p.Has(wire.Active) {
			base = append(base, mut{"heartbeat", p.ActiveReq(wire.S(700)), false}, mut{"heartbeat answer", p.ActiveRsp(wire.S(700)), false})
			base = append(base, mut{"delivery", p.DeliverReq(wire.S(700), make([]byte, p.IdLen()), "13800138000", "95566", "hi"), false})
		}
		vals := []byte{0, 1, 2, 0x0d, 0x7f, 0x80, 0xff}
		for _, x := range base {
			all := r.Thorough()
			ms := muts(p, x.name, x.b, vals, all)
			const chunk = 40
			chunks := (len(ms) + chunk - 1) / chunk
			for _, loggedIn := range []bool{false, true} {
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s changed, logged in: %v", p, x.name, loggedIn), Wide: true, Opt: opt, Body: func(e *rt.Exec) {
					k := e.ChooseFree(chunks)
					w := newWorld(e, p, conf{})
					d := w.in(b)
					for i := k * chunk; i < len(ms) && i < (k+1)*chunk; i++ {
						m := ms[i]
						c := w.g.Connect()
						if loggedIn {
							if st := w.login(c, a, 1); st != 0 {
								e.Fail("%s: a login is answered with %d after odd octets on other connections", p, st)
								return
							}
						}
						c.Send(m.b)
						e.Idle()
						ctx := fmt.Sprintf("after %s (%x), logged in: %v", m.name, m.b, loggedIn)
						if m.bad && !c.Closed {
							e.Fail("%s: the connection is not closed %s", p, ctx)
							return
						}
						if m.bad || !loggedIn {
							if _, st := w.answered(c, wire.Submit, 700); st >= 0 {
								e.Fail("%s: a submission is answered %s", p, ctx)
								return
							}
						}
						// an accepted login makes it logged in
						in := loggedIn
						if _, st := w.answered(c, wire.Login, 700); st == 0 {
							in = true
							if m.bad {
								e.Fail("%s: a malformed login is accepted %s", p, ctx)
							}
						}
						if !w.alive(c, m.b, in, a, ctx) {
							return
						}
						w.panics()
						if !c.Closed {
							c.Reset()
							e.Idle()
						}
						if d.Closed {
							e.Fail("%s: another connection is closed %s", p, ctx)
							return
						}
						if i%8 == 7 {
							d.Send(w.submit(uint32(1000 + i)))
							e.Idle()
							if k, _ := w.answered(d, wire.Submit, uint32(1000+i)); k != 1 {
								e.Fail("%s: another session is not served any more %s or one of 7 before", p, ctx)
								return
							}
						}
					}
					if !w.serves(d, 900) {
						e.Fail("%s: another session is not served after changed packets", p)
					}
					w.hangup()
				}})
			}
		}
		// headers
		lens := []uint32{0, 1, 11, 12, 13, 16, 20, 21, 24, 39, 100, 200, 5120, 5121, 1<<31 + 12, 1<<32 - 1}
		var cmdv []uint32
		for i := uint32(0); i < 0x24; i++ {
			cmdv = append(cmdv, i, 0x80000000|i)
		}
		cmdv = append(cmdv, 0x1000, 0x80001000, 0x7fffffff, 0xffffffff, 0x01000000, 0x10000001)
		for _, loggedIn := range []bool{false, true} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s headers, logged in: %v", p, loggedIn), Wide: true, Opt: opt, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{})
				d := w.in(b)
				n := lens[e.ChooseFree(len(lens))]
				for i, cmd := range cmdv {
					for _, fill := range []byte{0, 0xff, '1'} {
						c := w.g.Connect()
						if loggedIn {
							w.login(c, a, 1)
						}
						k := 12
						if n <= 5120 && n > 12 {
							k = int(n)
						}
						x := make([]byte, k)
						for j := range x {
							x[j] = fill
						}
						binary.BigEndian.PutUint32(x, n)
						binary.BigEndian.PutUint32(x[4:], cmd)
						c.Send(x)
						e.Idle()
						ctx := fmt.Sprintf("after a packet of length %d, command %x, filled with %02x, logged in: %v", n, cmd, fill, loggedIn)
						if (n < 12 || n > 5120) && (!c.Closed || len(c.Writes) > 1) {
							e.Fail("%s: not closed at once %s", p, ctx)
							return
						}
						if len(c.Writes) > 0 && !loggedIn && cmd != 1 {
							e.Fail("%s: something was sent before a login %s", p, ctx)
							return
						}
						if !w.alive(c, x, loggedIn, a, ctx) {
							return
						}
						w.panics()
						if !c.Closed {
							c.Reset()
							e.Idle()
						}
						if d.Closed {
							e.Fail("%s: another connection is closed %s", p, ctx)
							return
						}
					}
					if k := uint32(1000 + i); i%8 == 7 {
						d.Send(w.submit(k))
						e.Idle()
						if n, _ := w.answered(d, wire.Submit, k); n != 1 {
							e.Fail("%s: another session is not served any more after odd headers", p)
							return
						}
					}
				}
				w.hangup()
			}})
		}
		// what the deliveries hold
		texts := [][]string{{}, {""}, {"x"}, {"_,_"}, {"_,_x"}, {"a_,_"}, {"a_,_b_,_c"}, {"_,__,_"}, {",", "_", "01_,_hello"}, {"01_,_你好，世界"},
			{strings.Repeat("9", 40) + "_,_hello"}, {"01_,_" + strings.Repeat("x", 140)}, {"01_,_" + strings.Repeat("你", 70)}, {"01_,_" + strings.Repeat("x", 200)}, {"01_,_" + strings.Repeat("x", 300)}, {"01_,_" + strings.Repeat("你", 100)}, {"01_,_" + strings.Repeat("你", 200)}}
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s contents of deliveries", p), Wide: true, Opt: opt, Body: func(e *rt.Exec) {
			ts := texts[e.ChooseFree(len(texts))]
			w := newWorld(e, p, conf{delivery: true, contents: ts, tick: time.Hour})
			which := 0
			e.Rand = func(n int) int {
				if n == len(ts) {
					return which % n
				}
				return 0
			}
			c, d := w.in(a), w.in(b)
			for ; which <= len(ts); which++ {
				tick(w)
				e.Idle()
				w.panics()
				for _, x := range []*fake.Conn{c, d} {
					if !w.serves(x, uint32(100+which)) {
						e.Fail("%s: a session is not served after a delivery of %q", p, ts)
						return
					}
				}
			}
			for _, x := range []*fake.Conn{c, d} {
				got, k := 0, 0
				for _, y := range w.pkts(x) {
					if y.Kind == wire.Deliver && !y.Rsp && y.Of == "" {
						got++
					}
				}
				for _, t := range ts {
					if strings.Contains(t, "_,_") {
						k++
					}
				}
				if got > which {
					e.Fail("%s: %d deliveries at %d ticks", p, got, which)
				}
				if k == len(ts) && k > 0 && p.Name != "sgip" && got == 0 {
					e.Note("no delivery of %q", ts)
				}
			}
			w.hangup()
		}})
		// sequences of events on two connections
		acts := []string{"open", "login", "wrong login", "submit", "part", "rubbish", "logout", "hang up", "reset", "tick", "time", "account gone"}
		depth := r.Pick(4, 5)
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s sequences of events", p), Wide: true, Opt: opt, Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{sessions: 3, force: 90 * time.Second, tick: time.Hour, delivery: true, ms: 1, report: 1})
			d := w.in(b)
			kept := w.st[p.Name+"_"+a.Id]
			var c *fake.Conn
			var hist []string
			in, part := false, false
			for i := 0; i < depth; i++ {
				act := acts[e.ChooseFree(len(acts))]
				hist = append(hist, act)
				if c == nil && act != "open" && act != "tick" && act != "time" && act != "account gone" {
					return
				}
				n := uint32(100 + i)
				switch act {
				case "open":
					c = w.g.Connect()
					in, part = false, false
				case "login":
					c.Send(p.LoginReq(a, wire.S(n)))
				case "wrong login":
					x := a
					x.Secret = "no"
					c.Send(p.LoginReq(x, wire.S(n)))
				case "submit":
					c.Send(w.submit(n))
				case "part":
					c.Send(w.submit(n)[:5+i*3])
					part = true
				case "rubbish":
					c.Send([]byte("GET / HTTP/1.1\r\n\r\n"))
				case "logout":
					c.Send(p.TermReq(wire.S(n)))
				case "hang up":
					c.Hangup()
				case "reset":
					c.Reset()
				case "account gone":
					delete(w.st, p.Name+"_"+a.Id)
				case "tick":
					tick(w)
				case "time":
					e.Pass(50 * time.Second)
					d.Send(w.submit(uint32(500 + i)))
				}
				if e.ChooseFree(2) == 0 {
					e.Idle()
				}
			}
			e.Idle()
			w.panics()
			e.Pass(3 * time.Second)
			if d.Closed || !w.serves(d, 900) {
				e.Fail("%s: %v: another session is not served (closed: %v)", p, hist, d.Closed)
				return
			}
			w.st[p.Name+"_"+a.Id] = kept
			if c != nil && !c.Closed && !part {
				if _, st := w.answered(c, wire.Login, 100); st == 0 {
					in = true
				}
				for i := uint32(0); i < uint32(depth); i++ {
					if _, st := w.answered(c, wire.Login, 100+i); st == 0 {
						in = true
					}
				}
				w.alive(c, nil, in, a, fmt.Sprint(hist))
			}
			w.panics()
			w.hangup()
		}})
		if p == wire.CMPP30 && !r.Thorough() {
			continue
		}
		// schedules
		for _, x := range []struct {
			name string
			b    []byte
		}{
			{"rubbish", []byte("GET / HTTP/1.1\r\n\r\n")},
			{"a truncated submission", setLen(sub[:60], 60)},
			{"a truncated login", setLen(p.LoginReq(a, wire.S(700))[:15], 15)},
			{"an unknown command", setCmd(sub, 0x55)},
			{"a server's packet", p.LoginRsp(wire.S(700), 0)},
		} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s schedules of %s with traffic and a tick", p, x.name), Max: r.Pick(1, 2), Opt: rt.Options{Horizon: time.Hour, MaxSteps: 100000}, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{loops: 2, window: 2, delivery: true, tick: time.Hour})
				w.g.FailWrites = true
				c, d, f := w.in(a), w.in(b), w.in(b)
				w.race()
				c.Send(append(w.submit(100), x.b...))
				d.Send(w.submit(101))
				f.Send(w.submit(102))
				tick(w)
				w.calm()
				w.panics()
				for i, y := range []*fake.Conn{d, f} {
					if k, st := w.answered(y, wire.Submit, uint32(101+i)); k != 1 || st != 0 || y.Closed {
						e.Fail("%s: %s on another connection: a submission gets %d answers (%d), closed: %v", p, x.name, k, st, y.Closed)
					}
				}
				w.alive(c, nil, true, a, "after "+x.name)
				w.hangup()
			}})
		}
	}
	return
}
