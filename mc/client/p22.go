package client

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P22"] = sched.Check{Rule: "every order in which responses and reports of up to three messages arrive, with duplicates and strangers among them, and every schedule up to the stated number of deviations of senders, receivers and the server",
		Scenarios: p22, Setup: setup, Quick: 2, Thorough: 4}
}

// mail is a submission as the server sees it.
type mail struct {
	n         int
	c         *fake.End
	k         wire.Pkt
	status    uint32
	id        []byte
	stat      string
	responded int
	reported  int
	dupResp   int
	dupRep    int
}

// gateway answers the submissions of its connections.
type gateway struct {
	w     *world
	ends  []*fake.End
	seen  map[*fake.End]int
	mails []*mail
	next  int
	// fails lists the messages (in order of arrival) that are refused
	fails map[int]bool
	// ids, codes and stats replace the id, the status and the report text of a message
	ids   map[int][]byte
	codes map[int]uint32
	stats map[int]string
	// noise: the number of duplicates and strangers
	noise int
}

func (w *world) gateway(ends ...*fake.End) *gateway {
	return &gateway{w: w, ends: ends, seen: map[*fake.End]int{}, fails: map[int]bool{}}
}

var stats = []string{"DELIVRD", "EXPIRED", "UNDELIV", "REJECTD", "ACCEPTD"}

// look takes in what has been written.
func (g *gateway) look() {
	for _, c := range g.ends {
		ks := g.w.pkts(c)
		for _, k := range ks[g.seen[c]:] {
			if k.Kind == wire.Submit && !k.Rsp {
				n := len(g.mails)
				m := &mail{n: n, c: c, k: k, id: id(g.w.p, n+1), stat: stats[n%len(stats)]}
				if g.fails[n] {
					m.status = uint32(5 + n)
				}
				if x, ok := g.ids[n]; ok {
					m.id = x
				}
				if x, ok := g.codes[n]; ok {
					m.status = x
				}
				if x, ok := g.stats[n]; ok {
					m.stat = x
				}
				g.mails = append(g.mails, m)
			}
		}
		g.seen[c] = len(ks)
	}
}

func (g *gateway) seq() wire.Seq {
	g.next++
	return wire.S(uint32(1000 + g.next))
}

func (g *gateway) respond(m *mail) { m.c.Push(g.w.p.SubmitRsp(m.k.Seq, m.id, m.status)) }
func (g *gateway) report(m *mail) {
	m.c.Push(g.w.p.ReportReq(g.seq(), m.id, m.id, m.stat, m.k.To, "95566"))
}

// actions that the server may take now; noise is listed last
func (g *gateway) actions() (out []func()) {
	g.look()
	reports := g.w.p.Name != "sgip"
	for _, m := range g.mails {
		if m.responded == 0 {
			out = append(out, func() { m.responded++; g.respond(m) })
		} else if reports && m.status == 0 && m.reported == 0 {
			out = append(out, func() { m.reported++; g.report(m) })
		}
	}
	if g.noise > 0 {
		for _, m := range g.mails {
			if m.responded > 0 && m.dupResp == 0 {
				out = append(out, func() { m.dupResp++; g.noise--; g.respond(m) })
			}
			if m.reported > 0 && m.dupRep == 0 {
				out = append(out, func() { m.dupRep++; g.noise--; g.report(m) })
			}
		}
		out = append(out, func() {
			g.noise--
			g.ends[0].Push(g.w.p.SubmitRsp(g.seq(), id(g.w.p, 15), 77))
		})
		if reports {
			out = append(out, func() {
				g.noise--
				g.ends[0].Push(g.w.p.ReportReq(g.seq(), id(g.w.p, 14), id(g.w.p, 14), "BADSTAT", "13800138000", "95566"))
			})
		}
	}
	return
}

// serve answers until all n messages have all they get.
func (g *gateway) serve(n int) {
	e := g.w.e
	for {
		e.Until("gateway", func() bool { return len(g.actions()) > 0 || g.done(n) })
		acts := g.actions()
		if g.done(n) && g.noise == 0 {
			return
		}
		acts[e.ChooseFree(len(acts))]()
		e.Point("answered")
	}
}

func (g *gateway) done(n int) bool {
	if len(g.mails) < n {
		return false
	}
	for _, m := range g.mails {
		if m.responded == 0 || m.status == 0 && g.w.p.Name != "sgip" && m.reported == 0 {
			return false
		}
	}
	return true
}

func (m *mail) key(p wire.Proto) uint64 {
	if p.Name == "sgip" {
		return uint64(m.k.Seq.B)<<32 | uint64(m.k.Seq.C)
	}
	return uint64(m.k.Seq.C)
}

// check compares the results of a send to phone over c with what the server did with its messages.
func (g *gateway) check(phone string, results []any, segments int) {
	w := g.w
	e, p := w.e, w.p
	if len(results) != segments {
		e.Fail("%s: %d results for %d segments to %s", p, len(results), segments, phone)
		return
	}
	i := 0
	for _, m := range g.mails {
		if strings.TrimPrefix(m.k.To, "86") != phone {
			continue
		}
		if i >= len(results) {
			e.Fail("%s: more submissions to %s than results", p, phone)
			return
		}
		r, ok := results[i].(*session.Result)
		i++
		if !ok || r == nil {
			e.Fail("%s: a result is no result: %T", p, results[i-1])
			return
		}
		if r.Phone != phone || r.SequenceId != m.key(p) {
			e.Fail("%s: result %d to %s is of %s with sequence number %x, not %x", p, i, phone, r.Phone, r.SequenceId, m.key(p))
			continue
		}
		if m.responded == 0 {
			if !r.ResponseTime.IsZero() || r.MsgId != "" || r.Result != 0 {
				e.Fail("%s: the result to %s has a response nobody sent: %d %s", p, phone, r.Result, r.MsgId)
			}
			continue
		}
		if r.ResponseTime.IsZero() {
			e.Fail("%s: the result to %s lost its response", p, phone)
			continue
		}
		if r.Result != m.status {
			e.Fail("%s: the result to %s has status %d, not %d", p, phone, r.Result, m.status)
		}
		if p.Name != "sgip" && !strings.EqualFold(r.MsgId, hex.EncodeToString(m.id)) {
			e.Fail("%s: the result to %s has message id %s, not %x", p, phone, r.MsgId, m.id)
		}
		if p.Name == "sgip" && r.MsgId == "" {
			e.Fail("%s: the result to %s has no message id", p, phone)
		}
		want := ""
		if m.reported > 0 {
			want = m.stat
		}
		if r.Report != want || r.ReportTime.IsZero() != (want == "") {
			e.Fail("%s: the result to %s has report %q, not %q", p, phone, r.Report, want)
		}
	}
	if i != segments {
		e.Fail("%s: %d submissions to %s for %d segments", p, i, phone, segments)
	}
}

var phones = []string{"13800138001", "13800138002", "13800138003"}

func p22(r *lib.R) (out []sched.Scenario) {
	long := strings.Repeat("x", 200)
	type cs struct {
		name     string
		texts    []string
		sessions int
		noise    int
		fails    []int
		max      int
	}
	for _, p := range wire.All {
		for _, x := range []cs{
			{name: "one message", texts: []string{"hello"}, noise: 1, max: r.Pick(2, 4)},
			{name: "two messages", texts: []string{"hello", "world"}, max: r.Pick(2, 4)},
			{name: "one message alone", texts: []string{"hello"}, max: r.Pick(3, 6)},
			{name: "two messages, one refused", texts: []string{"hello", "world"}, fails: []int{0}, max: r.Pick(2, 3)},
			{name: "two segments", texts: []string{long}, noise: r.Pick(0, 1), max: r.Pick(2, 4)},
			{name: "long and short", texts: []string{long, "hello"}, max: r.Pick(1, 2)},
			{name: "two sessions", texts: []string{"hello", "world"}, sessions: 2, max: r.Pick(2, 3)},
			{name: "three messages", texts: []string{"one", "two", "three"}, max: r.Pick(1, 2)},
			{name: "noise", texts: []string{"hello", "world"}, noise: 2, max: r.Pick(1, 2)},
		} {
			if x.sessions == 0 {
				x.sessions = 1
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s", p, x.name), Max: x.max, Body: func(e *rt.Exec) {
				w := newWorld(e, p, nil)
				var ss []*session.Session
				var ends []*fake.End
				for i := 0; i < x.sessions; i++ {
					s, c := w.in()
					if s == nil {
						return
					}
					ss = append(ss, s)
					ends = append(ends, c)
				}
				g := w.gateway(ends...)
				g.noise = x.noise
				for _, n := range x.fails {
					g.fails[n] = true
				}
				n := 0
				segs := make([]int, len(x.texts))
				for i, t := range x.texts {
					segs[i] = 1
					if len(t) > 160 {
						segs[i] = 2
					}
					n += segs[i]
				}
				res := make([][]any, len(x.texts))
				ended := make([]bool, len(x.texts))
				w.race()
				served := false
				for i := range x.texts {
					e.Go(fmt.Sprintf("sender%d", i), func() {
						res[i] = ss[i%len(ss)].Send(phones[i], x.texts[i])
						ended[i] = true
					})
				}
				e.Go("gateway", func() { g.serve(n); served = true })
				w.calm()
				if !served {
					e.Fail("%s: %d of %d submissions arrived", p, len(g.mails), n)
				}
				for i := range x.texts {
					if !ended[i] {
						e.Fail("%s: a send does not return", p)
						return
					}
					g.check(phones[i], res[i], segs[i])
				}
				for i, c := range ends {
					if c.Closed || c.Unread() || !ss[i].HealthCheck() {
						e.Fail("%s: session %d is closed or does not read", p, i)
					}
				}
				// each delivery was answered
				acks, want := 0, 0
				for _, c := range ends {
					for _, k := range w.pkts(c) {
						if k.Kind == wire.Deliver && k.Rsp {
							acks++
						}
					}
				}
				if p.Name != "sgip" {
					want = g.next
					if x.noise > 0 {
						want = acks // strangers are counted with the sequence numbers
					}
				}
				if acks != want {
					e.Fail("%s: %d acknowledgements of %d deliveries", p, acks, want)
				}
				var o []string
				for _, m := range g.mails {
					o = append(o, fmt.Sprintf("%s:%d/%d", m.k.To[len(m.k.To)-1:], m.dupResp, m.dupRep))
				}
				e.Note("%s", strings.Join(o, " "))
			}})
		}
	}
	return append(out, values(r)...)
}

// values are the scenarios in which what the server says varies: ids, statuses and report texts.
func values(r *lib.R) (out []sched.Scenario) {
	octets := []byte{0x00, 0x01, 0x09, 0x0a, 0x20, 0x2c, 0x30, 0x3a, 0x41, 0x61, 0x7f, 0x80, 0xff}
	texts := []string{"DELIVRD", "EXPIRED", "DELETED", "UNDELIV", "ACCEPTD", "UNKNOWN", "REJECTD", "MA:0001", "MI:0000", "delivrd", "IC:0151", "0000000", "CB:0007"}
	for _, p := range wire.All {
		play := func(name string, n int, set func(e *rt.Exec, g *gateway)) {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s", p, name), Max: 0, Wide: true, Body: func(e *rt.Exec) {
				w := newWorld(e, p, nil)
				s, c := w.in()
				if s == nil {
					return
				}
				g := w.gateway(c)
				g.ids, g.codes, g.stats = map[int][]byte{}, map[int]uint32{}, map[int]string{}
				w.race()
				set(e, g)
				res := make([][]any, n)
				served, ended := false, 0
				for i := 0; i < n; i++ {
					e.Go(fmt.Sprintf("sender%d", i), func() { res[i] = s.Send(phones[i], "hello"); ended++ })
				}
				e.Go("gateway", func() { g.serve(n); served = true })
				w.calm()
				if !served || ended != n {
					e.Fail("%s: %d of %d submissions arrived, %d sends ended", p, len(g.mails), n, ended)
					return
				}
				for i := range res {
					g.check(phones[i], res[i], 1)
				}
				if c.Closed || c.Unread() || !s.HealthCheck() {
					e.Fail("%s: the session is closed or does not read", p)
				}
			}})
		}
		wide := 1
		if p.Name != "sgip" {
			play("ids", 2, func(e *rt.Exec, g *gateway) {
				// the second id is the first but for one octet
				a := id(p, 1)
				at := e.ChooseFree(len(a))
				x := e.ChooseFree(len(octets))
				y := (x + 1 + e.ChooseFree(r.Pick(2, len(octets)-1))) % len(octets)
				b := append([]byte(nil), a...)
				a[at], b[at] = octets[x], octets[y]
				g.ids[0], g.ids[1] = a, b
				e.Note("octet %d %02x/%02x", at, octets[x], octets[y])
			})
			play("ids of one octet", 1, func(e *rt.Exec, g *gateway) {
				a := make([]byte, p.IdLen())
				at := e.ChooseFree(len(a))
				a[at] = octets[1+e.ChooseFree(len(octets)-1)]
				g.ids[0] = a
				e.Note("%x", a)
			})
			play("report texts", 1, func(e *rt.Exec, g *gateway) {
				g.stats[0] = texts[e.ChooseFree(len(texts))]
				e.Note("%s", g.stats[0])
			})
			if p.String() != "cmpp20" {
				wide = 4
			}
		}
		play("statuses", 1, func(e *rt.Exec, g *gateway) {
			// every value of each octet of the status, and pairs of octets
			v := uint32(e.ChooseFree(256))
			if wide > 1 {
				v <<= 8 * uint(e.ChooseFree(wide))
				v |= []uint32{0, 1, 0x80, 0x0100, 0x01000000, 0xffffffff}[e.ChooseFree(6)]
			}
			g.codes[0] = v
			e.Note("%d", v)
		})
	}
	return
}
