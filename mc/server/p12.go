package server

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P12"] = sched.Check{Rule: "every way of cutting packet streams into two and three reads, octet by octet, interleaved with another connection, against the reaction to the same packets sent one by one and a model of it; schedules of reads against workers",
		Scenarios: p12, Setup: setup, Quick: 3, Thorough: 6}
}

// stream is a list of packets with the reaction each must have.
type stream struct {
	name string
	pkts [][]byte
	// what is answered to each packet
	want []string
	// the number of the packet that closes the connection once its first `head` octets are there, or -1
	closes int
	head   int
}

func streams(p wire.Proto) (out []stream) {
	_, b := ids(p)
	w := world{p: p}
	ok := func(n uint32) string {
		s := fmt.Sprintf("submit-rsp#%d=0", n)
		if p.Name != "sgip" {
			s = "report," + s
		}
		return s
	}
	type one struct {
		b    []byte
		want string
	}
	sub := func(n uint32) one { return one{w.submit(n), ok(n)} }
	act := func(n uint32) one {
		if !p.Has(wire.Active) {
			return sub(n)
		}
		return one{p.ActiveReq(wire.S(n)), fmt.Sprintf("active-rsp#%d=0", n)}
	}
	ack := func(n uint32) one {
		if !p.Has(wire.Active) {
			return sub(n)
		}
		return one{p.DeliverRsp(wire.S(n), make([]byte, p.IdLen()), 0), ""}
	}
	term := func(n uint32) one { return one{p.TermReq(wire.S(n)), fmt.Sprintf("logout-rsp#%d=0", n)} }
	long := func(n uint32) one {
		return one{p.SubmitReq(wire.S(n), "95566", "13800138000", strings.Repeat("x", 139)), ok(n)}
	}
	// commands that the server knows and leaves alone
	other := func(n uint32, size int) one {
		cmd := map[string]uint32{"cmpp": 6, "sgip": 4, "smgp": 0x80000002}[p.Name]
		return one{p.Raw(cmd, wire.S(n), make([]byte, size-p.HeadLen())), ""}
	}
	add := func(name string, closes, head int, ps ...one) {
		s := stream{name: name, closes: closes, head: head}
		for _, x := range ps {
			s.pkts = append(s.pkts, x.b)
			s.want = append(s.want, x.want)
		}
		out = append(out, s)
	}
	bad := func(x one) one { return one{x.b, ""} }
	add("requests", -1, 0, act(11), sub(12), ack(13), sub(14), act(15))
	add("logout", 0, len(p.TermReq(wire.S(1))), term(13)) // what is sent along with a logout races with it
	add("longest", -1, 0, long(11), other(12, 5120), act(13))
	for _, n := range []uint32{0, 11, 5121, 0xffffffff, 0x80000010} {
		add(fmt.Sprintf("length %d", n), 1, 12, act(11), one{setLen(w.submit(12), n), ""}, bad(sub(13)), bad(act(14)))
	}
	for _, n := range []uint32{0, 0x80000000, 0x77777777} {
		add(fmt.Sprintf("command %#x", n), 1, 12, sub(11), one{setCmd(w.submit(12), n), ""}, bad(act(13)))
		for _, l := range []int{p.HeadLen(), p.HeadLen() + 1} {
			add(fmt.Sprintf("command %#x in %d octets", n, l), 1, 12, sub(11), one{p.Raw(n, wire.S(12), make([]byte, l-p.HeadLen())), ""}, bad(act(13)))
		}
	}
	_ = b
	return
}

func (s stream) bytes() (b []byte) {
	for _, x := range s.pkts {
		b = append(b, x...)
	}
	return
}

// expect is the reaction when the first n octets have arrived.
func (s stream) expect(n int) (want string, closed bool) {
	var all []string
	o := 0
	for i, x := range s.pkts {
		if s.closes == i && n >= o+s.head {
			if s.head == len(x) && s.want[i] != "" {
				all = append(all, s.want[i])
			}
			closed = true
			break
		}
		o += len(x)
		if o > n {
			break
		}
		if s.want[i] != "" {
			all = append(all, strings.Split(s.want[i], ",")...)
		}
	}
	return norm(all), closed
}

func norm(all []string) string {
	m := map[string]int{}
	for _, x := range all {
		m[x]++
	}
	var ks []string
	for k, n := range m {
		ks = append(ks, fmt.Sprintf("%s×%d", k, n))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// within tells whether each element of a is one of b.
func within(a, b string) bool {
	m := map[string]bool{}
	for _, x := range strings.Split(b, " ") {
		m[x] = true
	}
	for _, x := range strings.Split(a, " ") {
		if x != "" && !m[x] {
			return false
		}
	}
	return true
}

func reaction(ks []wire.Pkt) string {
	var all []string
	for _, k := range ks {
		all = append(all, tag(k))
	}
	return norm(all)
}

// feed sends the stream cut at the given offsets and compares after each read.
func (w *world) feed(c *fake.Conn, s stream, from int, cuts []int) {
	all := s.bytes()
	k := len(w.pkts(c))
	last := 0
	for _, x := range append(append([]int(nil), cuts...), len(all)) {
		if x <= last {
			continue
		}
		c.Send(all[last:x])
		last = x
		w.e.Idle()
		if !w.check(c, s, x, k, cuts) {
			return
		}
	}
}

func (w *world) check(c *fake.Conn, s stream, n, k int, cuts []int) bool {
	want, closed := s.expect(n)
	got := reaction(w.pkts(c)[k:])
	if closed && c.Closed && s.want[s.closes] == "" && within(got, want) {
		return true // answers in the making when a bad header closes the connection may be lost
	}
	if got != want || closed != c.Closed {
		w.e.Fail("%s %s, cut at %v: after %d octets the reaction is [%s] closed=%v, not [%s] closed=%v", w.p, s.name, cuts, n, got, c.Closed, want, closed)
		return false
	}
	return true
}

func p12(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		a, b := ids(p)
		for _, s := range streams(p) {
			n := len(s.bytes())
			step := 1
			if n > 2000 {
				step = 37
			}
			edge := edges(s)
			// one cut at every octet, with a second one: at every place near the edges of packets, or anywhere
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s in three reads", p, s.name), Wide: true, Body: func(e *rt.Exec) {
				i := pos(e.ChooseFree(len(places(n, step, edge))), n, step, edge)
				var j int
				if r.Thorough() {
					j = pos(e.ChooseFree(len(places(n, step, edge))), n, step, edge)
				} else {
					j = edge[e.ChooseFree(len(edge))]
				}
				if i > j {
					i, j = j, i
				}
				w := newWorld(e, p, conf{})
				w.feed(w.in(a), s, 0, []int{i, j})
				w.panics()
			}})
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s octet by octet", p, s.name), Once: true, Opt: rt.Options{MaxSteps: 2000000}, Body: func(e *rt.Exec) {
				for _, d := range []int{1, 2, 3, 5, 7, 11, 12, 13} {
					w := newWorld(e, p, conf{})
					var cuts []int
					for i := d; i < n; i += d {
						cuts = append(cuts, i)
					}
					w.feed(w.in(a), s, 0, cuts)
					w.panics()
				}
			}})
		}
		// many packets in a read
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s many in one read", p), Wide: true, Opt: rt.Options{MaxSteps: 2000000}, Body: func(e *rt.Exec) {
			n := []int{9, 17, 33, 65, 129}[e.ChooseFree(5)]
			kind := e.ChooseFree(3)
			cut := e.ChooseFree(4)
			w := newWorld(e, p, conf{window: 500})
			c := w.in(a)
			k := len(w.pkts(c))
			s := stream{name: fmt.Sprintf("%d packets", n), closes: -1}
			for i := 0; i < n; i++ {
				if x := uint32(1000 + i); p.Has(wire.Active) && (kind == 0 || kind == 2 && i%2 == 0) {
					s.pkts = append(s.pkts, p.ActiveReq(wire.S(x)))
					s.want = append(s.want, fmt.Sprintf("active-rsp#%d=0", x))
				} else {
					s.pkts = append(s.pkts, w.submit(x))
					ok := fmt.Sprintf("submit-rsp#%d=0", x)
					if p.Name != "sgip" {
						ok = "report," + ok
					}
					s.want = append(s.want, ok)
				}
			}
			all := s.bytes()
			from := 0
			for _, x := range append([]int{}, []int{len(all), 7, len(all) / 2, len(all) - 3}[cut], len(all)) {
				if x > from {
					c.Send(all[from:x])
					from = x
					e.Idle()
					if !w.check(c, s, x, k, []int{x}) {
						return
					}
				}
			}
			w.panics()
		}})
		// the login request itself
		l := p.LoginReq(a, wire.S(7))
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s login in three reads", p), Wide: true, Body: func(e *rt.Exec) {
			i := e.ChooseFree(len(l))
			j := i + e.ChooseFree(len(l)-i)
			w := newWorld(e, p, conf{})
			c := w.g.Connect()
			last := 0
			for _, x := range []int{i, j, len(l)} {
				if x > last {
					c.Send(l[last:x])
					last = x
					e.Idle()
				}
				got, want := show(w.pkts(c)), ""
				if x == len(l) {
					want = "login-rsp#7=0"
				}
				if got != want || c.Closed {
					e.Fail("%s login cut at %d,%d: after %d octets [%s] closed=%v, not [%s]", p, i, j, x, got, c.Closed, want)
				}
			}
			w.panics()
		}})
		// a fragment of one connection, everything of another, the rest
		s := streams(p)[0]
		n := len(s.bytes())
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s two connections", p), Wide: true, Body: func(e *rt.Exec) {
			i := 1 + e.ChooseFree(n-1)
			w := newWorld(e, p, conf{})
			c, d := w.in(a), w.in(b)
			k, kd := len(w.pkts(c)), len(w.pkts(d))
			all := s.bytes()
			j := n - i
			c.Send(all[:i])
			d.Send(all[:j])
			e.Idle()
			ok := w.check(c, s, i, k, []int{i}) && w.check(d, s, j, kd, []int{j})
			if ok {
				d.Send(all[j:])
				c.Send(all[i:])
				e.Idle()
				w.check(c, s, n, k, []int{i})
				w.check(d, s, n, kd, []int{j})
			}
			w.panics()
		}})
		// reads while workers are busy with earlier packets, in every order the scheduler allows
		for _, s := range streams(p)[:1] {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s against workers", p, s.name), Max: r.Pick(2, 4), Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{})
				c := w.in(a)
				k := len(w.pkts(c))
				all := s.bytes()
				cuts := []int{13, len(s.pkts[0]) + 5, len(s.pkts[0]) + len(s.pkts[1]) + 12}
				last := 0
				w.race()
				for _, x := range append(cuts, len(all)) {
					c.Send(all[last:x])
					last = x
				}
				w.calm()
				w.check(c, s, len(all), k, cuts)
				w.panics()
				e.Note("%v", order(w.pkts(c)[k:]))
			}})
		}
	}
	return
}

func order(ks []wire.Pkt) (out []string) {
	for _, k := range ks {
		out = append(out, tag(k))
	}
	return
}

// edges are the offsets around the limits of packets and headers.
func edges(s stream) (out []int) {
	o := 0
	n := len(s.bytes())
	seen := map[int]bool{}
	add := func(x int) {
		if x > 0 && x < n && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range s.pkts {
		for _, d := range []int{-1, 0, 1, 4, 11, 12, 13, 20} {
			add(o + d)
		}
		o += len(x)
	}
	return append(out, n)
}

func places(n, step int, edge []int) (out []int) {
	if step == 1 {
		for i := 1; i <= n; i++ {
			out = append(out, i)
		}
		return
	}
	for i := step; i <= n; i += step {
		out = append(out, i)
	}
	return append(out, edge...)
}

func pos(i, n, step int, edge []int) int { return places(n, step, edge)[i] }
