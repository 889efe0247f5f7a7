package server

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P14"] = sched.Check{Rule: "every schedule up to the stated number of deviations of the workers of pipelined submissions, heartbeats and a logout on one and two sessions, with every outcome of the simulated failures, windows of one and more, and waits before responses and reports",
		Scenarios: p14, Setup: setup, Quick: 3, Thorough: 6}
}

// failCode is the code of a simulated failure, flowCode the one of flow control.
func failCode(p wire.Proto) uint32 {
	return map[string]uint32{"cmpp": 8, "sgip": 33, "smgp": 75}[p.Name]
}
func flowCode(p wire.Proto) uint32 {
	return map[string]uint32{"cmpp": 8, "sgip": 33, "smgp": 1}[p.Name]
}

// tally is what was answered on a connection.
type tally struct {
	w       *world
	c       *fake.Conn
	status  map[uint32]uint32 // of submissions, by sequence number
	ids     map[uint32]string
	reports map[string]int
	order   []string
}

// tally checks the answers to submissions, heartbeats and logouts since packet k: one each, in any order, with reports
// naming the id of an earlier response.
func (w *world) tally(c *fake.Conn, k int, subs, beats, outs []uint32, seen map[string]string) *tally {
	t := &tally{w: w, c: c, status: map[uint32]uint32{}, ids: map[uint32]string{}, reports: map[string]int{}}
	if seen == nil {
		seen = map[string]string{}
	}
	got := map[string]int{}
	byId := map[string]bool{}
	failed := map[string]bool{}
	for _, x := range w.pkts(c)[k:] {
		t.order = append(t.order, tag(x))
		if !x.Rsp {
			switch {
			case x.Of != "":
				t.reports[x.Of]++
				if !byId[x.Of] {
					w.e.Fail("%s: a report names message %s, which no response before it has", w.p, x.Of)
				}
				if failed[x.Of] {
					w.e.Fail("%s: a report for a failed submission", w.p)
				}
				if t.reports[x.Of] > 1 {
					w.e.Fail("%s: two reports for one message", w.p)
				}
			default:
				w.e.Fail("%s: %s sent without cause", w.p, x)
			}
			continue
		}
		if x.Seq != w.seq(x.Seq.C) {
			w.e.Fail("%s: response with a sequence number of nobody: %v", w.p, x.Seq)
		}
		key := fmt.Sprintf("%s#%d", x.Kind, x.Seq.C)
		got[key]++
		if x.Kind == wire.Submit {
			t.status[x.Seq.C], t.ids[x.Seq.C] = x.Status, x.Id
			if x.Status == 0 && w.p.Name != "sgip" {
				if strings.Trim(x.Id, "0") == "" {
					w.e.Fail("%s: successful submission %d without message id", w.p, x.Seq.C)
				}
				if o := seen[x.Id]; o != "" {
					w.e.Fail("%s: message id %s given to %s and to submission %d of connection %d", w.p, x.Id, o, x.Seq.C, c.N())
				}
				seen[x.Id] = fmt.Sprintf("submission %d of connection %d", x.Seq.C, c.N())
			}
			if x.Id != "" {
				byId[x.Id] = true
				failed[x.Id] = x.Status != 0
			}
		}
	}
	one := func(kind wire.Kind, ns []uint32) {
		for _, n := range ns {
			key := fmt.Sprintf("%s#%d", kind, n)
			if got[key] != 1 {
				w.e.Fail("%s: %d responses to %s %d on connection %d (closed: %v)", w.p, got[key], kind, n, c.N(), c.Closed)
			}
			delete(got, key)
		}
	}
	one(wire.Submit, subs)
	one(wire.Active, beats)
	one(wire.Term, outs)
	for key, n := range got {
		w.e.Fail("%s: %d responses %s to no request on connection %d", w.p, n, key, c.N())
	}
	return t
}

// reported checks that exactly the successful submissions have a report, or (some) at most those.
func (t *tally) reported(some bool) {
	for n, st := range t.status {
		want := 0
		if st == 0 && t.w.p.Name != "sgip" {
			want = 1
		}
		g := t.reports[t.ids[n]]
		if g > want || (g < want && !some) {
			t.w.e.Fail("%s: %d reports for submission %d with status %d", t.w.p, g, n, st)
		}
	}
}

func p14(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		a, b := ids(p)
		beat := p.Has(wire.Active)
		// submissions and a heartbeat at once
		type cs struct {
			name   string
			c      conf
			gap    time.Duration
			subs   int
			max    int
			single bool // all in one read
		}
		for _, x := range []cs{
			{name: "pipelined", subs: 3, max: r.Pick(2, 4)},
			{name: "in one read", subs: 3, max: r.Pick(2, 4), single: true},
			{name: "slow", c: conf{ms: 5, report: 20}, subs: 3, max: r.Pick(2, 4)},
			{name: "narrow", c: conf{ms: 5, report: 3, window: 1}, gap: time.Millisecond, subs: 3, max: r.Pick(2, 4)},
			{name: "two loops", c: conf{ms: 0, loops: 2}, subs: 2, max: r.Pick(2, 4)},
		} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s", p, x.name), Max: x.max, Body: func(e *rt.Exec) {
				w := newWorld(e, p, x.c)
				c := w.in(a)
				k := len(w.pkts(c))
				var subs, beats []uint32
				var all []byte
				w.race()
				send := func(b []byte) {
					if x.single {
						all = append(all, b...)
						return
					}
					c.Send(b)
					if x.gap > 0 {
						rt.Sleep(x.gap)
					}
				}
				for i := 0; i < x.subs; i++ {
					n := uint32(101 + i)
					subs = append(subs, n)
					send(w.submit(n))
					if i == 0 && beat {
						beats = append(beats, 201)
						send(p.ActiveReq(wire.S(201)))
					}
				}
				if x.single {
					c.Send(all)
				}
				e.Idle()
				e.Pass(300 * time.Millisecond)
				w.calm()
				t := w.tally(c, k, subs, beats, nil, nil)
				t.reported(false)
				for n, s := range t.status {
					if s != 0 {
						e.Fail("%s: submission %d failed with %d at full success rate and within the limits", p, n, s)
					}
				}
				e.Note("%v", t.order)
				k = len(w.pkts(c))
				c.Send(p.TermReq(wire.S(301)))
				e.Idle()
				w.tally(c, k, nil, nil, []uint32{301}, nil)
				if !c.Closed {
					e.Fail("%s: open after a logout", p)
				}
				w.gone()
			}})
		}
		// more submissions than workers and window
		for _, win := range []int{1, 2, 3} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s many, window %d", p, win), Max: 1, Opt: rt.Options{MaxSteps: 100000}, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{ms: 20, report: 30, window: win})
				c := w.in(a)
				k := len(w.pkts(c))
				var subs, beats []uint32
				w.race()
				for i := uint32(0); i < 12; i++ {
					subs = append(subs, 101+i)
					c.Send(w.submit(101 + i))
					if beat && i%4 == 0 {
						beats = append(beats, 201+i)
						c.Send(p.ActiveReq(wire.S(201 + i)))
					}
					rt.Sleep(time.Millisecond)
				}
				e.Idle()
				e.Pass(5 * time.Second)
				t := w.tally(c, k, subs, beats, nil, nil)
				t.reported(false)
				for n, s := range t.status {
					if s != 0 && s != flowCode(p) { // what piled up behind a full window may come at a rate beyond the limit
						e.Fail("%s: submission %d answered with %d", p, n, s)
					}
				}
				w.panics()
			}})
		}
		// submissions of every kind
		type kind struct {
			name   string
			b      func(n uint32) []byte
			report int // 0 not asked for, 1 asked for, else unclear
		}
		var kinds [][]kind
		for _, o := range p.Octets() {
			var ks []kind
			for _, v := range []byte{0, 1, 2, 3, 7, 9, 0x7f, 0x80, 0xff} {
				ask := 2
				if o.Name != "report" {
					ask = 1
				}
				ks = append(ks, kind{fmt.Sprintf("%s %d", o.Name, v), func(n uint32) []byte {
					x := w0(p).submit(n)
					x[o.At] = v
					return x
				}, ask})
			}
			kinds = append(kinds, ks)
		}
		for _, l := range []int{0, 1, 2, 7, 69, 70, 133, 134, 139, 140} {
			var ks []kind
			for _, k := range []int{1, 2, 3, 10, 50, 99} {
				ks = append(ks, kind{fmt.Sprintf("%d octets to %d", l, k), func(n uint32) []byte {
					return p.SubmitTo(wire.S(n), "95566", numbers(k), strings.Repeat("x", l))
				}, 1})
			}
			kinds = append(kinds, ks)
		}
		var srcs []kind
		for _, src := range []string{"", "9", "95566", "955661", "10086", "955660000000000000000", "abc"} {
			srcs = append(srcs, kind{fmt.Sprintf("from %q", src), func(n uint32) []byte { return p.SubmitReq(wire.S(n), src, "13800138000", "hello") }, 1})
		}
		for _, to := range []string{"1", "8613800138000", "10655000000000000000", "abc"} {
			srcs = append(srcs, kind{fmt.Sprintf("to %q", to), func(n uint32) []byte { return p.SubmitReq(wire.S(n), "95566", to, "hello") }, 1})
		}
		kinds = append(kinds, srcs)
		var nums []kind
		for _, n := range []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff} {
			nums = append(nums, kind{fmt.Sprintf("sequence number %d", n), func(uint32) []byte { return w0(p).submit(n) }, 1})
		}
		kinds = append(kinds, nums)
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s submissions of every kind", p), Wide: true, Opt: rt.Options{MaxSteps: 1000000}, Body: func(e *rt.Exec) {
			ks := kinds[e.ChooseFree(len(kinds))]
			together := e.ChooseFree(2) == 1
			w := newWorld(e, p, conf{window: 20, ms: 1, report: 1})
			c := w.in(a)
			one := func(k int, ks []kind, subs []uint32) bool {
				e.Idle()
				e.Pass(20 * time.Millisecond)
				if c.Closed {
					e.Fail("%s: the connection is closed after submissions (%v)", p, names(len(ks), func(i int) string { return ks[i].name }))
					return false
				}
				t := w.tally(c, k, subs, nil, nil, nil)
				t.reported(true)
				for i, x := range ks {
					if st := t.status[subs[i]]; st == 0 && x.report == 1 && p.Name != "sgip" && t.reports[t.ids[subs[i]]] != 1 {
						e.Fail("%s: %d reports for the submission of %s", p, t.reports[t.ids[subs[i]]], x.name)
						return false
					}
				}
				return true
			}
			k := len(w.pkts(c))
			var subs []uint32
			for i, x := range ks {
				b := x.b(uint32(101 + i))
				subs = append(subs, p.Parse(b).Seq.C)
				c.Send(b)
				if !together {
					if !one(k, ks[i:i+1], subs[i:]) {
						return
					}
					k = len(w.pkts(c))
				}
			}
			if together {
				one(k, ks, subs)
			}
			w.panics()
			if !w.serves(c, 9000) {
				e.Fail("%s: the session is not served after submissions (%v)", p, names(len(ks), func(i int) string { return ks[i].name }))
			}
			w.hangup()
		}})
		// settings at the ends of their ranges, or left out
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s settings", p), Wide: true, Opt: rt.Options{MaxSteps: 1000000}, Body: func(e *rt.Exec) {
			times := [][2]any{{0, 0}, {1, 1}, {0, 1}, {7, 7}, {2, 9}, {9, 2}, {nil, nil}, {3, nil}, {nil, 3}}[e.ChooseFree(9)]
			win, rate, rep := []int{0, 1, 2, 16}[e.ChooseFree(4)], []int{0, 1, 1000, 2000000}[e.ChooseFree(4)], []any{nil, 0, 5}[e.ChooseFree(3)]
			what := fmt.Sprintf("processing time %v, window %d, throughput %d, report after %v", times, win, rate, rep)
			w := newWorld(e, p, conf{})
			for k, v := range map[string]any{"MinSubmitRespMs": times[0], "MaxSubmitRespMs": times[1], "FixReportRespMs": rep} {
				w.cfg.Set("Server.Mock."+k, v)
			}
			x := w.st[p.Name+"_"+a.Id]
			x.MtWindowSize, x.Throughput = win, rate
			c := w.in(a)
			k := len(w.pkts(c))
			subs, acts := []uint32{101, 102, 103}, []uint32{201}
			if p.Name == "sgip" {
				acts = nil
			}
			for i, n := range subs {
				c.Send(w.submit(n))
				if i == 0 {
					for _, n := range acts {
						c.Send(p.ActiveReq(wire.S(n)))
					}
				}
				e.Idle()
				e.Pass(2 * time.Second)
			}
			if c.Closed {
				e.Fail("%s: %s: the connection is closed", p, what)
				return
			}
			t := w.tally(c, k, subs, acts, nil, nil)
			t.reported(true)
			for _, n := range subs {
				if st, ok := t.status[n]; !ok || st != 0 {
					e.Fail("%s: %s: a submission is answered with %d (answered %v)", p, what, st, ok)
				}
			}
			w.panics()
			w.hangup()
		}})
		// two sessions of one or two accounts at once
		for i, second := range []wire.Account{a, b} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s two sessions %d", p, i+1), Max: r.Pick(2, 3), Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{loops: 2})
				c, d := w.in(a), w.in(second)
				kc, kd := len(w.pkts(c)), len(w.pkts(d))
				w.race()
				for j := uint32(0); j < 2; j++ {
					c.Send(w.submit(101 + j))
					d.Send(w.submit(102 + j))
				}
				e.Idle()
				e.Pass(10 * time.Millisecond)
				seen := map[string]string{}
				t := w.tally(c, kc, []uint32{101, 102}, nil, nil, seen)
				u := w.tally(d, kd, []uint32{102, 103}, nil, nil, seen)
				t.reported(false)
				u.reported(false)
				w.panics()
				e.Note("%v %v", t.order, u.order)
			}})
		}
		// every outcome of the simulated failures
		for _, late := range []int{0, 7} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s failures, reports after %d ms", p, late), Max: r.Pick(1, 2), Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{success: 0.5, report: late})
				c := w.in(a)
				k := len(w.pkts(c))
				fails := 0
				e.Rand = func(n int) int {
					if n != 10000 {
						return 0
					}
					if e.ChooseFree(2) == 1 {
						fails++
						return n - 1
					}
					return 0
				}
				subs := []uint32{101, 102, 103}
				w.race()
				for _, n := range subs {
					c.Send(w.submit(n))
				}
				e.Idle()
				e.Pass(50 * time.Millisecond)
				t := w.tally(c, k, subs, nil, nil, nil)
				bad, good, rep := 0, 0, 0
				for n, s := range t.status {
					switch s {
					case 0:
						good++
					case failCode(p):
						bad++
					default:
						e.Fail("%s: submission %d answered with %d", p, n, s)
					}
				}
				t.reported(true)
				for range t.reports {
					rep++
				}
				want := bad
				if p.Name != "sgip" {
					want += good - rep
				}
				if want != fails {
					e.Fail("%s: %d failures and %d missing reports with %d simulated failures", p, bad, good-rep, fails)
				}
				w.panics()
				e.Note("%v", t.order)
			}})
		}
		// requests of a session that logs in again
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s login again", p), Max: r.Pick(2, 4), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{report: 2})
			c := w.in(a)
			k := len(w.pkts(c))
			w.race()
			c.Send(w.submit(101))
			c.Send(p.LoginReq(a, wire.S(401)))
			c.Send(w.submit(102))
			e.Idle()
			c.Send(w.submit(103))
			e.Idle()
			e.Pass(50 * time.Millisecond)
			w.calm()
			ks := w.pkts(c)[k:]
			logins := 0
			for _, x := range ks {
				if x.Kind == wire.Login {
					logins++
					if x.Status != 0 || x.Seq != w.seq(401) {
						e.Fail("%s: second login answered with %s", p, x)
					}
				}
			}
			if logins != 1 || c.Closed {
				e.Fail("%s: %d responses to the second login, closed: %v", p, logins, c.Closed)
			}
			t := w.tallySkip(c, k, []uint32{101, 102, 103})
			t.reported(false)
			w.panics()
			e.Note("%v", t.order)
			w.hangup()
		}})
		// a logout sent along: answered, nothing answered twice, nothing left behind
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s with logout", p), Max: r.Pick(2, 4), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{})
			c := w.in(a)
			k := len(w.pkts(c))
			w.race()
			c.Send(w.submit(101))
			c.Send(p.TermReq(wire.S(301)))
			c.Send(w.submit(102))
			e.Idle()
			e.Pass(time.Millisecond)
			w.calm()
			n := map[string]int{}
			for _, x := range w.pkts(c)[k:] {
				n[tag(x)]++
			}
			if n["logout-rsp#301=0"] != 1 || !c.Closed {
				e.Fail("%s: logout answered %d times, closed: %v", p, n["logout-rsp#301=0"], c.Closed)
			}
			for x, i := range n {
				if i > 1 && x != "report" {
					e.Fail("%s: %s sent %d times", p, x, i)
				}
			}
			e.Note("%v", order(w.pkts(c)[k:]))
			w.gone()
		}})
	}
	return
}

// w0 is a world for building packets only.
func w0(p wire.Proto) *world { return &world{p: p} }

// numbers are n numbers.
func numbers(n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("138001380%02d", i))
	}
	return
}

func names(n int, f func(int) string) string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, f(i))
	}
	return strings.Join(s, ", ")
}

// tallySkip is tally of submissions, without login responses.
func (w *world) tallySkip(c *fake.Conn, k int, subs []uint32) *tally {
	ws := c.Writes
	defer func() { c.Writes = ws }()
	ps, _ := c.Packets()
	c.Writes = nil
	for _, b := range ps[k:] {
		if w.p.Parse(b.Data).Kind != wire.Login {
			c.Writes = append(c.Writes, fake.Write{At: b.At, Data: b.Data})
		}
	}
	return w.tally(c, 0, subs, nil, nil, nil)
}
