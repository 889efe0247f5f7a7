package client

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/hrygo/gosms/event_manager"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P25"] = sched.Check{Rule: "every four digit prefix and every carrier set for the routing; all histories up to the stated depth of uses of up to three sessions, deaths, refused connections and logins and periods; every schedule up to the stated number of deviations of selectors, the periodic sort, replacement, deaths and the shutdown",
		Scenarios: p25, Setup: setup, Quick: 2, Thorough: 4}
}

// the numbers of the carriers, as they have been allotted
var allotted = map[string][]string{
	"cmpp": {"135", "136", "137", "138", "139", "147", "150", "151", "152", "157", "158", "159", "165", "172", "178", "182", "183", "184", "187", "188", "195", "197", "198",
		"1340", "1341", "1342", "1343", "1344", "1345", "1346", "1347", "1348", "1705"},
	"sgip": {"130", "131", "132", "145", "146", "155", "156", "166", "167", "171", "175", "176", "185", "186", "196", "1709"},
	"smgp": {"133", "149", "153", "162", "173", "174", "177", "180", "181", "189", "191", "193", "199", "1349", "1700"},
}

var segments = map[string]string{
	"cmpp": "^1(((3[56789]|47|5[012789]|65|7[28]|8[23478]|9[578])[0-9])|34[0-8]|705)[0-9]{7}$",
	"sgip": "^1(((3[012]|4[56]|5[56]|6[67]|7[156]|8[56]|9[6])[0-9])|709)[0-9]{7}$",
	"smgp": "^1(((33|49|53|62|7[347]|8[019]|9[139])[0-9])|349|700)[0-9]{7}$",
}

func carrier(phone string) string {
	if len(phone) != 11 || strings.Trim(phone, "0123456789") != "" {
		return ""
	}
	for isp, ps := range allotted {
		for _, p := range ps {
			if strings.HasPrefix(phone, p) {
				return isp
			}
		}
	}
	return ""
}

var isps = []string{"cmpp", "sgip", "smgp"}

func isp(p wire.Proto) string { return p.Name }

// pool is the sessions of one carrier.
type pool struct {
	w     *world
	p     wire.Proto
	site  *site
	max   int
	phone string
	end   map[*session.Session]*fake.End
	down  map[*fake.End]bool // broken by the gateway
	base  time.Duration
	waits []*wait
}

// newPool configures a carrier with max sessions (the default 2 if it is not positive).
func (w *world) newPool(p wire.Proto, max int) *pool {
	o := &pool{w: w, p: p, site: &site{p: p}, max: max, end: map[*session.Session]*fake.End{}, down: map[*fake.End]bool{}}
	m := map[string]*site{}
	for n, pre := range map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"} {
		w.cfg.Set(n+".address", n+":1")
		w.cfg.Set(n+".segment", "^"+pre+"[0-9]{8}$")
		w.cfg.Set(n+".max-conns", max)
		w.cfg.Set(n+".mt-window-size", 1000)
		w.cfg.Set(n+".throughput", 100000)
		w.cfg.Set(n+".tick-duration", time.Second)
		m[n+":1"] = &site{p: p, refuse: true}
		if n == isp(p) {
			m[n+":1"] = o.site
			o.phone = pre + "00000000"
		}
	}
	w.sites(m)
	if o.max <= 0 {
		o.max = 2
	}
	return o
}

// held is the number of sessions the client holds.
func (o *pool) held() (n int) {
	for _, c := range o.site.ends {
		if !c.Closed && !o.deaf(c) {
			n++
		}
	}
	return
}

func (o *pool) deaf(c *fake.End) bool { return o.w.rejected[c] }

// fit checks the number of sessions.
func (o *pool) fit() {
	if n := o.held(); n > o.max {
		o.w.e.Fail("%s: %d sessions are held, %d are configured", o.p, n, o.max)
	}
}

// known maps the sessions to their connections: which one a session writes to.
func (o *pool) of(s *session.Session) *fake.End {
	if c := o.end[s]; c != nil {
		return c
	}
	before := map[*fake.End]int{}
	for _, c := range o.w.ends {
		before[c] = len(c.Writes)
	}
	if rs := s.Send(o.phone, "x"); len(rs) != 1 {
		o.w.e.Fail("%s: a session that was handed out does not send", o.p)
	}
	for _, c := range o.w.ends {
		if len(c.Writes) > before[c] {
			o.end[s] = c
			return c
		}
	}
	return nil
}

// wait is a selection under way.
type wait struct {
	s    *session.Session
	done bool
}

func (o *pool) ask() *wait {
	q := &wait{}
	o.waits = append(o.waits, q)
	o.w.e.Go("select", func() { q.s = sms.SelectSession(o.phone); q.done = true })
	return q
}

func (o *pool) last() *wait {
	if len(o.waits) == 0 {
		return nil
	}
	return o.waits[len(o.waits)-1]
}

// healthy lists the connections that are up on both sides.
func (o *pool) healthy() (cs []*fake.End) {
	for _, c := range o.site.ends {
		if !c.Closed && !o.down[c] && !o.deaf(c) && !c.Stalled {
			cs = append(cs, c)
		}
	}
	return
}

// get selects a session; nil if it takes longer than allowed.
func (o *pool) get(within time.Duration) *session.Session {
	q := o.ask()
	o.w.e.Idle()
	if !q.done {
		o.w.e.Pass(within)
	}
	if !q.done {
		o.w.e.Fail("%s: no session is handed out within %v; %d are healthy", o.p, within, len(o.healthy()))
		return nil
	}
	if q.s == nil {
		o.w.e.Fail("%s: a selection within the limits returns nothing", o.p)
		return nil
	}
	c := o.of(q.s)
	if c == nil {
		o.w.e.Fail("%s: the session that was handed out has no connection", o.p)
		return nil
	}
	if c.Closed || o.down[c] {
		o.w.e.Fail("%s: a dead session is handed out", o.p)
	}
	return q.s
}

// kill breaks a connection.
func (o *pool) kill(c *fake.End, rst bool) {
	o.down[c] = true
	if rst {
		c.RST()
	} else {
		c.EOF()
	}
	o.w.e.Idle()
}

// full waits until all sessions are there and known.
func (o *pool) full() []*session.Session {
	e := o.w.e
	o.get(time.Millisecond)
	for i := 0; len(o.healthy()) < o.max; i++ {
		e.Pass(time.Second)
		if i > 3*o.max+6 {
			e.Fail("%s: %d of %d sessions are there after %d periods", o.p, len(o.healthy()), o.max, i)
			return nil
		}
	}
	e.Pass(2 * time.Second)
	// the least used come first: using the known ones shows the others
	for i := 0; ; i++ {
		s := o.get(time.Millisecond)
		if s == nil {
			return nil
		}
		var all []*session.Session
		for _, c := range o.healthy() {
			for k, x := range o.end {
				if x == c {
					all = append(all, k)
					k.AddCounter()
				}
			}
		}
		if len(all) >= o.max {
			return all
		}
		if i > 2*o.max {
			e.Fail("%s: only %d of %d sessions are ever handed out", o.p, len(all), o.max)
			return nil
		}
		e.Pass(time.Second)
	}
}

// finish: all sessions come back, the shutdown ends them all.
func (o *pool) finish() {
	e := o.w.e
	o.site.refuse, o.site.deaf, o.site.slow = false, false, false
	for _, c := range o.site.ends {
		// logins that are not answered are given up some time
		for i := 0; i < 36 && !c.Closed && o.deaf(c); i++ {
			e.Pass(5 * time.Second)
		}
		if !c.Closed && o.deaf(c) {
			e.Fail("%s: a login that is not answered is never given up", o.p)
		}
	}
	e.Pass(time.Duration(2*o.max+5) * time.Second)
	o.fit()
	if n := len(o.healthy()); n != o.max {
		e.Fail("%s: %d sessions are there in the end, %d are configured", o.p, n, o.max)
	}
	for i, q := range o.waits {
		if !q.done {
			e.Fail("%s: selection %d has not ended though there are sessions", o.p, i)
		}
	}
	o.get(time.Millisecond)
	event_manager.GracefullyShutdown()
	e.Idle()
	if n := o.held(); n > 0 {
		e.Fail("%s: %d sessions are open after the shutdown", o.p, n)
	}
	e.Pass(5 * time.Second)
	if n := o.held(); n > 0 {
		e.Fail("%s: %d sessions are open some time after the shutdown", o.p, n)
	}
}

func idx(all []*session.Session, s *session.Session) int {
	for i, x := range all {
		if x == s {
			return i
		}
	}
	return -1
}

func p25(r *lib.R) (out []sched.Scenario) {
	// --- routing ---
	out = append(out, sched.Scenario{Name: "routing of all prefixes", Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
		have := e.ChooseFree(8)
		first := e.ChooseFree(10)
		w := newWorld(e, wire.CMPP30, nil)
		m := map[string]*site{"cmpp:1": {p: wire.CMPP30}, "sgip:1": {p: wire.SGIP}, "smgp:1": {p: wire.SMGP}}
		for i, n := range isps {
			w.cfg.Set(n+".address", n+":1")
			w.cfg.Set(n+".segment", segments[n])
			w.cfg.Set(n+".max-conns", 1)
			w.cfg.Set(n+".mt-window-size", 1000000)
			w.cfg.Set(n+".throughput", 100000)
			w.cfg.Set(n+".tick-duration", time.Second)
			if have>>i&1 == 0 {
				w.cfg.Set(n+".client-id", "unknown")
			}
		}
		w.sites(m)
		of := map[*session.Session]string{}
		route := func(phone string) {
			s := sms.SelectSession(phone)
			want := carrier(phone)
			for i, n := range isps {
				if n == want && have>>i&1 == 0 {
					want = ""
				}
			}
			got := ""
			if s != nil {
				got = of[s]
				if got == "" {
					before := map[*site]int{}
					for _, x := range m {
						for _, c := range x.ends {
							before[x] += len(c.Writes)
						}
					}
					s.Send(phone, "x")
					for n, x := range m {
						k := 0
						for _, c := range x.ends {
							k += len(c.Writes)
						}
						if k > before[x] {
							got = n[:4]
						}
					}
					of[s] = got
				}
			}
			if got != want {
				e.Fail("the number %q goes to %q, it belongs to %q", phone, got, want)
			}
		}
		step := 1
		if have != 7 && !r.Thorough() {
			step = 7
		}
		for i := 0; i < 1000; i += step {
			route(fmt.Sprintf("%d%03d%07d", first, i, (i*7919)%10000000))
		}
		if first != 1 {
			return
		}
		for _, x := range []string{"13812345678", "13012345678", "13312345678"} {
			for n := 0; n < len(x); n++ {
				route(x[:n])
				route(x[:n] + "x" + x[n+1:])
				route(x[:n] + "0" + x[n:])
			}
			for _, pre := range []string{"86", "+86", "0086", " ", "\n", "0"} {
				route(pre + x)
			}
			for _, post := range []string{"\n", " ", "\x00", "0"} {
				route(x + post)
			}
		}
	}})
	// segments that overlap or are open
	segs := []string{"^138[0-9]{8}$", "^13", "8", ".*", "^$", "^(138|139)"}
	out = append(out, sched.Scenario{Name: "routing by any segments", Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
		w := newWorld(e, wire.CMPP30, nil)
		m := map[string]*site{"cmpp:1": {p: wire.CMPP30}, "sgip:1": {p: wire.SGIP}, "smgp:1": {p: wire.SMGP}}
		var rs []*regexp.Regexp
		for _, n := range isps {
			sg := segs[e.ChooseFree(len(segs))]
			rs = append(rs, regexp.MustCompile(sg))
			w.cfg.Set(n+".address", n+":1")
			w.cfg.Set(n+".segment", sg)
			w.cfg.Set(n+".max-conns", 1)
			w.cfg.Set(n+".mt-window-size", 1000)
			w.cfg.Set(n+".throughput", 100000)
			w.cfg.Set(n+".tick-duration", time.Second)
		}
		w.sites(m)
		for _, phone := range []string{"13800138000", "13000138000", "13900138000", "17000000000", "", "138"} {
			before := map[string]int{}
			for n, x := range m {
				for _, c := range x.ends {
					for _, k := range w.pkts(c) {
						if k.Kind == wire.Submit {
							before[n]++
						}
					}
				}
			}
			sms.Send("hello", phone)
			var to []string
			for i, n := range isps {
				x, k := m[n+":1"], 0
				for _, c := range x.ends {
					for _, q := range w.pkts(c) {
						if q.Kind == wire.Submit {
							k++
						}
					}
				}
				if k -= before[n+":1"]; k > 0 {
					to = append(to, n)
					if k != 1 || !rs[i].MatchString(phone) {
						e.Fail("a message to %q was submitted %d times to the carrier with the segment %s", phone, k, rs[i])
					}
				}
			}
			matches := 0
			for _, x := range rs {
				if x.MatchString(phone) {
					matches++
				}
			}
			if len(to) != min(matches, 1) {
				e.Fail("the number %q matches %d segments; its message went to %v", phone, matches, to)
			}
		}
	}})
	// a factory is the same one, whatever the case of its name
	out = append(out, sched.Scenario{Name: "factories", Once: true, Body: func(e *rt.Exec) {
		w := newWorld(e, wire.CMPP30, nil)
		o := w.newPool(wire.CMPP30, 2)
		a, b, c := sms.CreateSessionFactory("cmpp"), sms.CreateSessionFactory("CMPP"), sms.CreateSessionFactory("Cmpp")
		if a == nil || a != b || a != c || o.site.dials != 1 {
			e.Fail("a carrier has several factories")
		}
	}})
	// --- a carrier that is out of order does not stop the others ---
	type trouble struct {
		name string
		do   func(w *world, n string, s *site)
	}
	for _, t := range []trouble{
		{"refusing", func(w *world, n string, s *site) { s.refuse = true }},
		{"rejecting", func(w *world, n string, s *site) { s.deaf = true }},
		{"silent", func(w *world, n string, s *site) { s.slow = true }},
		{"unknown", func(w *world, n string, s *site) { w.cfg.Set(n+".client-id", "unknown") }},
		{"unreadable", func(w *world, n string, s *site) { w.cfg.Set(n+".segment", "^13[0-9{8}$") }},
		{"nowhere", func(w *world, n string, s *site) { w.cfg.Set(n+".address", "") }},
	} {
		out = append(out, sched.Scenario{Name: t.name + " carriers do not stop the others", Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			good := e.ChooseFree(3)
			early := e.ChooseFree(2) // the number of the bad carrier is asked for first
			w := newWorld(e, wire.CMPP30, nil)
			m := map[string]*site{"cmpp:1": {p: wire.CMPP30}, "sgip:1": {p: wire.SGIP}, "smgp:1": {p: wire.SMGP}}
			for i, n := range isps {
				w.cfg.Set(n+".address", n+":1")
				w.cfg.Set(n+".segment", segments[n])
				w.cfg.Set(n+".max-conns", 2)
				w.cfg.Set(n+".mt-window-size", 1000)
				w.cfg.Set(n+".throughput", 100000)
				w.cfg.Set(n+".tick-duration", time.Second)
				if i != good {
					t.do(w, n, m[n+":1"])
				}
			}
			w.sites(m)
			phones := []string{"13800138000", "13000138000", "13300138000"}
			if early == 1 {
				for i := range phones {
					if i != good {
						e.Go("bad", func() { sms.SelectSession(phones[i]) }) // waits
					}
				}
				e.Idle()
			}
			done := false
			e.Go("good", func() {
				if sms.SelectSession(phones[good]) == nil {
					e.Fail("a selection with a healthy carrier returns nothing")
				}
				done = true
			})
			for i := 0; i < 12 && !done; i++ {
				e.Pass(15 * time.Second)
			}
			if !done {
				e.Fail("%s gateways of other carriers block a selection forever", t.name)
			}
		}})
	}
	// --- the order of use ---
	for _, p := range []wire.Proto{wire.CMPP30, wire.SGIP, wire.SMGP} {
		depth := r.Pick(1, 3)
		if p.Name == "cmpp" {
			depth = r.Pick(2, 3)
		}
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s use of three sessions", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			type step struct {
				u  [3]int
				ev int
			}
			var hs []step
			gone := e.ChooseFree(4) // 1, 2, 3: one session is gone and the gateway refuses connections or logins or does not answer
			depth := depth
			if gone > 0 && !r.Thorough() {
				depth = 1
			}
			for i := 0; i < depth; i++ {
				v := e.ChooseFree(27)
				hs = append(hs, step{[3]int{v % 3, v / 3 % 3, v / 9}, e.ChooseFree(4)})
			}
			w := newWorld(e, p, nil)
			o := w.newPool(p, 3)
			all := o.full()
			if all == nil {
				return
			}
			note := ""
			if gone > 0 {
				o.site.refuse, o.site.deaf, o.site.slow = gone == 1, gone == 2, gone == 3
				o.kill(o.end[all[1]], false)
				e.Pass(2 * time.Second)
			}
			for _, h := range hs {
				e.Pass(time.Second) // what the setup has used is forgotten
				use := map[*session.Session]int{}
				var there []*session.Session
				k := 0
				for _, s := range all {
					c := o.end[s]
					if c.Closed || o.down[c] {
						continue
					}
					there = append(there, s)
					for i := 0; i < h.u[k%3]; i++ {
						s.Send(o.phone, "hello")
						s.AddCounter()
						use[s]++
					}
					k++
				}
				switch h.ev {
				case 1:
					o.site.refuse = !o.site.refuse
				case 2:
					o.site.deaf = !o.site.deaf
				}
				e.Pass(time.Second)
				o.fit()
				for n := 0; ; n++ {
					s := o.get(time.Millisecond)
					if s == nil {
						return
					}
					left := 0
					for _, x := range there {
						if c := o.end[x]; c.Closed || o.down[c] {
							continue
						}
						left++
						if use[x] < use[s] {
							e.Fail("%s: a session used %d times in the last period is handed out, another one only %d times", p, use[s], use[x])
						}
					}
					note += fmt.Sprint(use[s])
					if h.ev != 3 || left < 3-n || n == 1 {
						break
					}
					o.kill(o.end[s], n%2 == 1)
				}
				if h.ev == 3 && gone == 0 && !o.site.refuse && !o.site.deaf {
					e.Pass(8 * time.Second)
					if o.get(time.Millisecond) == nil {
						return
					}
					if all = o.full(); all == nil {
						return
					}
				}
				note += ","
			}
			o.finish()
			e.Note("%s", note)
		}})
	}
	// --- deaths and replacement ---
	maxes := []int{2, 3}
	if r.Thorough() {
		maxes = []int{-1, 0, 1, 2, 3, 4}
	}
	for _, p := range []wire.Proto{wire.CMPP30, wire.SGIP, wire.SMGP} {
		for _, max := range maxes {
			if max != 2 && p.Name != "cmpp" && !r.Thorough() {
				continue
			}
			depth := r.Pick(4, 5)
			if (max != 2 || p.Name != "cmpp") && !r.Thorough() {
				depth = 3
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s deaths and replacement of %d sessions", p, max), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				var hs []int
				for i := 0; i < depth; i++ {
					hs = append(hs, e.ChooseFree(9))
				}
				w := newWorld(e, p, nil)
				o := w.newPool(p, max)
				note := ""
				for i, h := range hs {
					switch h {
					case 0:
						if cs := o.healthy(); len(cs) > 0 {
							o.kill(cs[0], false)
						}
					case 1:
						if cs := o.healthy(); len(cs) > 0 {
							o.kill(cs[len(cs)-1], true)
						}
					case 2:
						for _, c := range o.healthy() {
							o.kill(c, false)
						}
					case 3:
						o.site.refuse = !o.site.refuse
					case 4:
						o.site.deaf = !o.site.deaf
					case 5:
						e.Pass(time.Second)
					case 6:
						e.Pass(3200 * time.Millisecond)
					case 8:
						o.site.slow = !o.site.slow
					case 7:
						// the gateway logs one out
						if cs := o.healthy(); len(cs) > 0 && p.Has(wire.Term) {
							o.down[cs[0]] = true
							cs[0].Push(p.TermReq(wire.S(uint32(i + 5))))
							e.Idle()
						}
					}
					o.fit()
					if len(o.healthy()) > 0 {
						o.get(10 * time.Millisecond)
					} else {
						// one that waits is enough
						q := o.last()
						if q == nil || q.done {
							q = o.ask()
						}
						e.Pass(10 * time.Millisecond)
						if q.done && len(o.healthy()) == 0 {
							e.Fail("%s: a session is handed out though none is healthy", p)
						}
					}
					note += fmt.Sprint(len(o.healthy()))
				}
				o.finish()
				e.Note("%s", note)
			}})
		}
	}
	// --- a gateway that does not read ---
	for _, p := range []wire.Proto{wire.CMPP20, wire.SMGP} {
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s stalled sessions", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			which := e.ChooseFree(2)
			age := []time.Duration{0, 30 * time.Second, 61 * time.Second, 3 * time.Minute}[e.ChooseFree(4)]
			w := newWorld(e, p, nil)
			o := w.newPool(p, 2)
			all := o.full()
			if all == nil {
				return
			}
			o.end[all[which]].Stalled = true
			for d := time.Duration(0); d < age; d += 10 * time.Second {
				e.Pass(10 * time.Second)
				// the other one is in use
				all[1-which].AddCounter()
			}
			q := o.ask()
			e.Pass(2 * time.Minute)
			if !q.done {
				e.Fail("%s: a session that does not take its heartbeat blocks the selection of another one", p)
			} else if q.s == nil || age > time.Minute && q.s == all[which] {
				e.Fail("%s: a session that did not take its heartbeat is handed out", p)
			}
		}})
	}
	// --- the shutdown while a session is being opened ---
	for _, p := range []wire.Proto{wire.CMPP30, wire.SGIP, wire.SMGP} {
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s shutdown while sessions are opened", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			max := 2 + e.ChooseFree(2)
			gone := e.ChooseFree(max + 1) // sessions that die before
			wait := []time.Duration{0, 500 * time.Millisecond, time.Second, 1500 * time.Millisecond, 2500 * time.Millisecond, 5 * time.Second}
			before, after := wait[e.ChooseFree(len(wait))], wait[e.ChooseFree(len(wait))]
			answer := e.ChooseFree(3) // accepted, rejected, not at all
			first := e.ChooseFree(2) == 1
			w := newWorld(e, p, nil)
			o := w.newPool(p, max)
			if first {
				sms.CreateSessionFactory(isp(p))
			} else if o.full() == nil {
				return
			}
			o.site.slow = true
			for i, c := range o.healthy() {
				if i < gone {
					o.kill(c, i%2 == 0)
				}
			}
			e.Pass(before)
			event_manager.GracefullyShutdown()
			e.Idle()
			e.Pass(after)
			dials := o.site.dials
			o.site.slow = false
			for _, c := range o.site.ends {
				if ks := w.pkts(c); !c.Closed && len(ks) == 1 && answer < 2 {
					w.rejected[c] = answer > 0
					c.Push(p.LoginRsp(ks[0].Seq, uint32(3*answer)))
				}
			}
			e.Idle()
			e.Pass(time.Minute)
			open := o.site.open()
			if open > 0 {
				e.Fail("%s: %d connections are open long after the shutdown", p, open)
			}
			if o.site.dials > dials && after > 2*time.Second {
				e.Fail("%s: connections are opened after the shutdown", p)
			}
			e.Note("%d %d", len(o.site.ends), o.site.dials-dials)
		}})
		// the periodic sort while a session is being opened
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s sort against replacement", p), Max: r.Pick(map[bool]int{true: 3, false: 2}[p.Name == "cmpp"], 4), Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			down := e.ChooseFree(2) == 1
			w := newWorld(e, p, nil)
			o := w.newPool(p, 2)
			created := e.Now()
			all := o.full()
			if all == nil {
				return
			}
			o.kill(o.end[all[0]], false)
			o.site.slow = true
			var c *fake.End
			for i := 0; i < 10 && c == nil; i++ {
				e.Pass(time.Second)
				for _, x := range o.site.ends {
					if !x.Closed && o.deaf(x) {
						c = x
					}
				}
			}
			if c == nil {
				e.Fail("%s: a dead session is not replaced", p)
				return
			}
			// up to the next period's end
			rest := time.Second - (e.Now()-created)%time.Second
			if rest > time.Millisecond {
				e.Pass(rest - time.Millisecond)
			}
			o.site.slow = false
			w.race()
			e.Go("gateway", func() {
				rt.Sleep(time.Millisecond)
				w.rejected[c] = false
				c.Push(p.LoginRsp(w.pkts(c)[0].Seq, 0))
			})
			if down {
				e.Go("shutdown", func() {
					rt.Sleep(time.Millisecond)
					event_manager.GracefullyShutdown()
				})
			}
			e.Pass(time.Millisecond)
			e.Pass(10 * time.Millisecond)
			w.calm()
			if down {
				e.Pass(time.Minute)
				if n := o.site.open(); n > 0 {
					e.Fail("%s: %d connections are open long after the shutdown", p, n)
				}
				return
			}
			o.fit()
			o.finish()
			if o.site.dials != 3 {
				e.Fail("%s: %d connections were opened for 2 sessions and one that died", p, o.site.dials)
			}
		}})
	}
	// --- throughput ---
	out = append(out, sched.Scenario{Name: "window and throughput", Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
		win := []int{1, 2, 3, 4, 0}[e.ChooseFree(5)]
		tps := []int{1, 4, 10, 1000, 0}[e.ChooseFree(5)]
		conns := e.ChooseFree(2)
		w := newWorld(e, wire.CMPP30, nil)
		o := w.newPool(wire.CMPP30, conns)
		w.cfg.Set("cmpp.mt-window-size", win)
		w.cfg.Set("cmpp.throughput", tps)
		// what is not configured is 16 and 100 per second
		if win == 0 {
			win = 16
		}
		if tps == 0 {
			tps = 100
		}
		gap := time.Second / time.Duration(tps)
		// credit, in units of a token's time
		credit := time.Duration(win) * gap
		var last time.Duration
		for i := 0; i < r.Pick(2, 4); i++ {
			n := 1
			if win < 5 {
				n += e.ChooseFree(win + 1)
			} else {
				n = []int{1, win, win + 1}[e.ChooseFree(3)]
			}
			pause := []time.Duration{0, gap / 2, gap, 5 * gap / 2, 100 * gap}[e.ChooseFree(5)]
			for k := 0; k < n; k++ {
				now := e.Now()
				if last > 0 {
					credit = min(credit+now-last, time.Duration(win)*gap)
				}
				last = now
				s := sms.SelectSession(o.phone)
				switch {
				case credit >= gap+time.Microsecond && s == nil:
					e.Fail("a selection within the window of %d and %d per second is refused", win, tps)
				case credit < gap-time.Microsecond && s != nil:
					e.Fail("a selection beyond the window of %d and %d per second is granted", win, tps)
				}
				if s != nil {
					credit -= gap
				}
			}
			if pause > 0 {
				e.Pass(pause)
			}
		}
	}})
	// --- schedules ---
	for _, p := range []wire.Proto{wire.CMPP30, wire.SGIP, wire.SMGP} {
		deep := func(q, t int) int { return r.Pick(q, t) }
		// first use
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s first use by three", p), Max: deep(2, 4), Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			w := newWorld(e, p, nil)
			o := w.newPool(p, 2)
			w.race()
			for i := 0; i < 2; i++ {
				o.ask()
			}
			e.Go("create", func() { sms.CreateSessionFactory(isp(p)) })
			w.calm()
			o.fit()
			for _, q := range o.waits {
				if !q.done || q.s == nil || o.of(q.s) == nil {
					e.Fail("%s: the first selections are not served", p)
				}
			}
			if o.site.dials != 1 {
				e.Fail("%s: the first use connects %d times at once", p, o.site.dials)
			}
			o.finish()
		}})
		type rival struct {
			name string
			do   func(o *pool, all []*session.Session)
			prep func(o *pool, all []*session.Session)
			down bool
		}
		rivals := []rival{
			{"a death", func(o *pool, all []*session.Session) {
				o.w.e.Point("death")
				o.down[o.end[all[0]]] = true
				o.end[all[0]].EOF()
			}, nil, false},
			{"deaths", func(o *pool, all []*session.Session) {
				for _, s := range all {
					o.w.e.Point("death")
					o.down[o.end[s]] = true
					o.end[s].RST()
				}
			}, nil, false},
			{"use", func(o *pool, all []*session.Session) {
				for _, s := range all {
					s.AddCounter()
				}
			}, nil, false},
			{"a dead session", func(o *pool, all []*session.Session) {}, func(o *pool, all []*session.Session) {
				o.kill(o.end[all[0]], false)
			}, false},
			{"dead sessions", func(o *pool, all []*session.Session) {}, func(o *pool, all []*session.Session) {
				o.kill(o.end[all[0]], false)
				o.kill(o.end[all[1]], false)
			}, false},
			{"a close by the user", func(o *pool, all []*session.Session) {
				o.down[o.end[all[1]]] = true
				all[1].Close()
			}, nil, false},
			{"the shutdown", func(o *pool, all []*session.Session) { event_manager.GracefullyShutdown() }, nil, true},
			{"the shutdown with a dead session", func(o *pool, all []*session.Session) { event_manager.GracefullyShutdown() }, func(o *pool, all []*session.Session) {
				o.kill(o.end[all[0]], false)
			}, true},
		}
		for _, v := range rivals {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s selection and sort against %s", p, v.name), Max: deep(2, 4), Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				w := newWorld(e, p, nil)
				o := w.newPool(p, 2)
				created := e.Now()
				all := o.full()
				if all == nil {
					return
				}
				// up to the next period's end
				rest := time.Second - (e.Now()-created)%time.Second
				if rest > time.Millisecond {
					e.Pass(rest - time.Millisecond)
				}
				if v.prep != nil {
					v.prep(o, all)
				}
				w.race()
				n, note := 2, ""
				if v.down {
					if n = 1; v.prep != nil {
						n = 0
					}
				}
				for i := 0; i < n; i++ {
					q := &wait{}
					o.waits = append(o.waits, q)
					e.Go("select", func() {
						rt.Sleep(time.Millisecond)
						dead := map[*fake.End]bool{}
						for _, c := range o.site.ends {
							if c.Closed {
								dead[c] = true
							}
						}
						s := sms.SelectSession(o.phone)
						if s == nil {
							e.Fail("%s: a selection within the limits returns nothing", p)
						} else if c := o.end[s]; c != nil && dead[c] {
							e.Fail("%s: a session that has been closed is handed out", p)
						}
						q.s, q.done = s, true
					})
				}
				e.Go("rival", func() {
					rt.Sleep(time.Millisecond)
					v.do(o, all)
				})
				e.Pass(time.Millisecond)
				e.Pass(10 * time.Millisecond)
				w.calm()
				o.fit()
				if v.down {
					// selections may wait in vain from now on
					e.Pass(2200 * time.Millisecond)
					if n := o.held(); n > 0 {
						e.Fail("%s: %d sessions are open after the shutdown", p, n)
					}
					for _, q := range o.waits {
						note += fmt.Sprint(q.done)
					}
					e.Note("%s", note)
					return
				}
				o.finish()
				for _, q := range o.waits {
					note += fmt.Sprint(idx(all, q.s))
				}
				e.Note("%d dials %s", o.site.dials, note)
			}})
		}
	}
	return
}
