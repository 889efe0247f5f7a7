package client

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P21"] = sched.Check{Rule: "every way of cutting the server's stream, login response included, into two and three reads and octet by octet, and its end after every octet, against a model of the reaction; schedules of the receiver against senders",
		Scenarios: p21, Setup: setup, Quick: 2, Thorough: 4}
}

// effects of a packet on the session
const (
	goesOn = iota
	closes // when it is complete
	breaks // when its header is there
	spoils // malformed: may close the session, and if not, goes on
)

type packet struct {
	b      []byte
	want   string
	effect int
}

type stream struct {
	name string
	ps   []packet
}

// packets a server may send
func act(p wire.Proto, n uint32) packet {
	if !p.Has(wire.Active) {
		return stray(p, n)
	}
	return packet{b: p.ActiveReq(wire.S(n)), want: fmt.Sprintf("active-rsp#%d=0", n)}
}

func dlv(p wire.Proto, n uint32, text string) packet {
	if p.Name == "sgip" {
		return stray(p, n)
	}
	return packet{b: p.DeliverReq(wire.S(n), id(p, int(n)), "13800138000", "95566", text), want: fmt.Sprintf("deliver-rsp#%d=0%x", n, id(p, int(n)))}
}

func rpt(p wire.Proto, n uint32) packet {
	if p.Name == "sgip" {
		return stray(p, n)
	}
	return packet{b: p.ReportReq(wire.S(n), id(p, int(n)), id(p, 9), "DELIVRD", "13800138000", "95566"), want: fmt.Sprintf("deliver-rsp#%d=0%x", n, id(p, int(n)))}
}

// stray is a response to no submission.
func stray(p wire.Proto, n uint32) packet { return packet{b: p.SubmitRsp(wire.S(n), id(p, int(n)), 0)} }

func other(p wire.Proto, n uint32, size int) packet {
	return packet{b: p.Raw(0x00000777, wire.S(n), make([]byte, size-p.HeadLen()))}
}

func term(p wire.Proto, n uint32) packet {
	return packet{b: p.TermReq(wire.S(n)), want: fmt.Sprintf("logout-rsp#%d=0", n), effect: closes}
}

func streams(p wire.Proto) (out []stream) {
	add := func(name string, ps ...packet) { out = append(out, stream{name, ps}) }
	add("requests", act(p, 11), dlv(p, 12, "hello"), rpt(p, 13), stray(p, 14), act(p, 15))
	add("logout", act(p, 11), term(p, 12), act(p, 13))
	add("logout answered", dlv(p, 11, ""), packet{b: p.TermRsp(wire.S(12)), effect: closes}, act(p, 13))
	add("longest", dlv(p, 11, strings.Repeat("x", 140)), other(p, 12, 5120), act(p, 13), other(p, 14, p.HeadLen()))
	for _, n := range []uint32{0, 3, 11, 5121, 0xffffffff, 0x80000010} {
		add(fmt.Sprintf("length %d", n), act(p, 11), packet{b: setLen(stray(p, 12).b, n), effect: breaks}, act(p, 13))
	}
	if p.Name != "sgip" {
		d := dlv(p, 12, "hello").b
		add("short delivery", act(p, 11), packet{b: setLen(d[:len(d)-30], uint32(len(d)-30)), effect: spoils}, act(p, 13))
		add("empty delivery", act(p, 11), packet{b: setLen(d[:12], 12), effect: spoils}, act(p, 13))
	}
	s := stray(p, 12).b
	add("short response", act(p, 11), packet{b: setLen(s[:len(s)-9], uint32(len(s)-9)), effect: spoils}, act(p, 13))
	if p.Has(wire.Active) {
		add("answers", packet{b: p.LoginRsp(wire.S(9), 0)}, packet{b: p.ActiveRsp(wire.S(3))}, stray(p, 11), act(p, 12))
	}
	return
}

// expect is the reaction when the first n octets have arrived; kept is the one if a malformed packet is let through.
func (s stream) expect(n int) (want []string, closed, may bool, kept []string, keptClosed bool) {
	o := 0
	spoiled := false
	for _, x := range s.ps {
		if x.effect == breaks && n >= o+12 {
			keptClosed = true
			if !spoiled {
				closed = true
			}
			break
		}
		o += len(x.b)
		if o > n {
			break
		}
		if x.want != "" {
			kept = append(kept, x.want)
			if !spoiled {
				want = append(want, x.want)
			}
		}
		if x.effect == spoils {
			spoiled, closed = true, true
		}
		if x.effect == closes {
			keptClosed = true
			if !spoiled {
				closed = true
			}
			break
		}
	}
	return want, closed, spoiled, kept, keptClosed
}

func (s stream) bytes() (b []byte) {
	for _, x := range s.ps {
		b = append(b, x.b...)
	}
	return
}

func reaction(ks []wire.Pkt) string {
	var all []string
	for _, k := range ks {
		all = append(all, tag(k))
	}
	return strings.Join(all, " ")
}

// reads lets a login response and the stream arrive cut at the given offsets and compares after each; end: the stream ends
// there.
func (w *world) reads(s stream, cuts []int, end bool) {
	e, p := w.e, w.p
	c := w.end()
	q := w.dial(c)
	e.Idle()
	ks := w.pkts(c)
	if len(ks) != 1 || ks[0].Kind != wire.Login || ks[0].Rsp {
		e.Fail("%s: a session does not begin with a login request: %v", p, ks)
		return
	}
	l := p.LoginRsp(ks[0].Seq, 0)
	all := append(append([]byte(nil), l...), s.bytes()...)
	last := 0
	if !end {
		cuts = append(append([]int(nil), cuts...), len(all))
	}
	for _, x := range cuts {
		if x < last {
			continue
		}
		c.Push(all[last:x])
		last = x
		e.Idle()
		if x < len(l) {
			if q.done || c.Closed {
				e.Fail("%s: login ended after %d of %d octets of the response (closed: %v)", p, x, len(l), c.Closed)
				return
			}
			continue
		}
		if !q.done || q.s == nil {
			e.Fail("%s: no session after a successful login, response and stream cut at %v", p, cuts)
			return
		}
		if !w.compare(c, s, x-len(l), cuts, func() bool { return q.s.HealthCheck() }) {
			return
		}
	}
	if end {
		c.EOF()
		e.Idle()
		if !q.done {
			e.Fail("%s: the stream ended after %d octets and the login waits on", p, last)
		}
		if last < len(l) && q.s != nil {
			e.Fail("%s: a session without a complete login response", p)
		}
		if q.s != nil && q.s.HealthCheck() {
			e.Fail("%s: session is healthy after the end of the stream at %d", p, last)
		}
	}
	if end && !c.Closed {
		e.Fail("%s: the stream ended after %d octets and the connection is not closed", p, last)
	}
	if c.Closed {
		if l := w.left(); len(l) > 0 {
			e.Fail("%s: connection closed, threads are left: %v", p, l)
		}
	}
}

func (w *world) compare(c *fake.End, s stream, n int, cuts []int, healthy func() bool) bool {
	want, closed, may, kept, keptClosed := s.expect(n)
	got := reaction(w.pkts(c)[1:])
	if got == strings.Join(want, " ") && closed == c.Closed && healthy() == !closed {
		return true
	}
	if may && got == strings.Join(kept, " ") && keptClosed == c.Closed && healthy() == !keptClosed {
		return true
	}
	w.e.Fail("%s %s, cut at %v: after %d octets the reaction is [%s] closed=%v healthy=%v, not [%s] closed=%v", w.p, s.name, cuts, n, got, c.Closed, healthy(), strings.Join(want, " "), closed)
	return false
}

func edges(head int, s stream) (out []int) {
	n := head + len(s.bytes())
	seen := map[int]bool{}
	add := func(x int) {
		if x > 0 && x < n && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, d := range []int{1, 4, 11, 12, 13, 20} {
		add(d)
	}
	o := head
	for _, x := range s.ps {
		for _, d := range []int{-1, 0, 1, 4, 11, 12, 13, 20} {
			add(o + d)
		}
		o += len(x.b)
	}
	return append(out, n)
}

func places(n int, edge []int) (out []int) {
	if n <= 1500 {
		for i := 1; i <= n; i++ {
			out = append(out, i)
		}
		return
	}
	for i := 37; i <= n; i += 37 {
		out = append(out, i)
	}
	return append(out, edge...)
}

func p21(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		head := len(p.LoginRsp(wire.S(1), 0))
		for k, s := range streams(p) {
			n := head + len(s.bytes())
			edge := edges(head, s)
			at := places(n, edge)
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s in three reads", p, s.name), Wide: true, Body: func(e *rt.Exec) {
				i := at[e.ChooseFree(len(at))]
				j := n
				if r.Thorough() {
					j = at[e.ChooseFree(len(at))]
				} else if k < 3 {
					j = edge[e.ChooseFree(len(edge))]
				}
				if i > j {
					i, j = j, i
				}
				newWorld(e, p, nil).reads(s, []int{i, j}, false)
			}})
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s ends early", p, s.name), Wide: true, Body: func(e *rt.Exec) {
				i := at[e.ChooseFree(len(at))]
				j := 0
				if e.ChooseFree(2) == 1 {
					j = i / 2
				}
				newWorld(e, p, nil).reads(s, []int{j, i}, true)
			}})
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s octet by octet", p, s.name), Once: true, Opt: rt.Options{MaxSteps: 2000000}, Body: func(e *rt.Exec) {
				for _, d := range []int{1, 2, 3, 5, 7, 11, 12, 13} {
					var cuts []int
					for i := d; i < n; i += d {
						cuts = append(cuts, i)
					}
					newWorld(e, p, nil).reads(s, cuts, false)
				}
			}})
		}
		// packets cut short, of every kind and length: they may close the session, or it goes on
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s cut short", p), Wide: true, Body: func(e *rt.Exec) {
			w := newWorld(e, p, nil)
			full := [][]byte{p.LoginRsp(wire.S(12), 0), p.LoginRsp(wire.S(12), 1), stray(p, 12).b, p.TermReq(wire.S(12)), p.TermRsp(wire.S(12)), dlv(p, 12, "hello").b, rpt(p, 12).b}
			if p.Has(wire.Active) {
				full = append(full, p.ActiveReq(wire.S(12)), p.ActiveRsp(wire.S(12)))
			}
			b := full[e.ChooseFree(len(full))]
			n := 12 + e.ChooseFree(len(b)-11)
			bad := setLen(b[:n], uint32(n))
			sc, c := w.in()
			if sc == nil {
				return
			}
			a, z := stray(p, 11), stray(p, 13)
			if p.Has(wire.Active) {
				a, z = act(p, 11), act(p, 13)
			}
			one := e.ChooseFree(2) == 1
			if one {
				c.Push(append(append(append([]byte(nil), a.b...), bad...), z.b...))
			} else {
				for _, x := range [][]byte{a.b, bad, z.b} {
					c.Push(x)
					e.Idle()
				}
			}
			e.Idle()
			got := w.pkts(c)[1:]
			count := func(want string) (k int) {
				for _, x := range got {
					if tag(x) == want {
						k++
					}
				}
				return
			}
			if a.want != "" && (count(a.want) != 1 || !c.Closed && count(z.want) != 1) || sc.HealthCheck() == c.Closed {
				e.Fail("%s: after a packet cut short (%x): [%s], closed=%v healthy=%v", p, bad, reaction(got), c.Closed, sc.HealthCheck())
			}
			if c.Closed {
				if l := w.left(); len(l) > 0 {
					e.Fail("%s: connection closed, threads are left: %v", p, l)
				}
			}
			e.Note("%v %s", c.Closed, reaction(got))
		}})
		// a session that is left alone lives on
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s left alone", p), Wide: true, Opt: rt.Options{Horizon: 24 * time.Hour}, Body: func(e *rt.Exec) {
			times := []time.Duration{0, 5 * time.Second, 9 * time.Second, 11 * time.Second, 31 * time.Second, 62 * time.Second, 6 * time.Minute, 3 * time.Hour}
			w := newWorld(e, p, nil)
			sc, c := w.in()
			if sc == nil {
				return
			}
			answers := e.ChooseFree(2) == 1 // heartbeats of the client are answered
			sent := 0
			n := uint32(20)
			for i := 0; i < 2; i++ {
				if i > 0 && !r.Thorough() {
					times = []time.Duration{0, 11 * time.Second, 62 * time.Second}
				}
				e.Pass(times[e.ChooseFree(len(times))])
				subs := 0
				switch e.ChooseFree(4) {
				case 1:
					if !sc.HealthCheck() {
						e.Fail("%s: a session that nobody has closed is not healthy", p)
					}
				case 2:
					sc.Send("13800138000", "hello")
					sc.AddCounter()
					subs = 1
				case 3:
					n++
					c.Push(dlv(p, n, "hi").b)
				}
				e.Idle()
				if answers {
					for _, k := range w.pkts(c)[sent:] {
						if k.Kind == wire.Active && !k.Rsp {
							c.Push(p.ActiveRsp(k.Seq))
						}
					}
				}
				e.Pass(times[e.ChooseFree(len(times))])
				sent = len(w.pkts(c))
				n++
				x := act(p, n)
				c.Push(x.b)
				e.Idle()
				got := w.pkts(c)[sent:]
				if c.Closed || c.Unread() || !strings.Contains(reaction(got)+" ", x.want) {
					e.Fail("%s: a session left alone for a while does not answer a packet (%s; closed=%v, unread=%v)", p, reaction(got), c.Closed, c.Unread())
				}
				all := 0
				for _, k := range w.pkts(c) {
					if k.Kind == wire.Submit {
						all++
					}
				}
				if all < subs {
					e.Fail("%s: a submission is not sent", p)
				}
				if !sc.HealthCheck() {
					e.Fail("%s: a session that nobody has closed is not healthy", p)
				}
				sent = len(w.pkts(c))
			}
			e.Note("%s", reaction(w.pkts(c)))
		}})
		// the receiver against senders and health checks
		s := streams(p)[0]
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s receiver against senders", p), Max: r.Pick(3, 5), Body: func(e *rt.Exec) {
			w := newWorld(e, p, nil)
			sc, c := w.in()
			if sc == nil {
				return
			}
			all := s.bytes()
			w.race()
			e.Go("peer", func() {
				last := 0
				for _, x := range []int{13, len(s.ps[0].b) + 5, len(s.ps[0].b) + len(s.ps[1].b) + 12, len(all)} {
					e.Point("arrival")
					c.Push(all[last:x])
					last = x
				}
			})
			e.Go("sender", func() { sc.Send("13800138000", "hello") })
			e.Go("checker", func() {
				if !sc.HealthCheck() {
					e.Fail("%s: an open session is not healthy", p)
				}
			})
			w.calm()
			var got []wire.Pkt
			subs := 0
			for _, k := range w.pkts(c)[1:] {
				if k.Kind == wire.Submit && !k.Rsp {
					subs++
					continue
				}
				got = append(got, k)
			}
			want, _, _, _, _ := s.expect(len(all))
			if g := reaction(got); g != strings.Join(want, " ") || c.Closed || subs != 1 {
				e.Fail("%s: reaction [%s], %d submissions, closed=%v, not [%s]", p, g, subs, c.Closed, strings.Join(want, " "))
			}
			e.Note("%s", reaction(w.pkts(c)[1:]))
		}})
	}
	return
}
