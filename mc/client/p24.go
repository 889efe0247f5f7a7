package client

import (
	"fmt"
	"strings"
	"time"

	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P24"] = sched.Check{Rule: "all histories of sends (to one and several numbers, of long texts, to nobody), queries, and advances of the clock with expiry ticks up to the stated depth; all combinations of batch sizes around the hand-over limit; schedules of the expiry against sends, queries, responses and reports; all sizes of sends on all carriers through to the database, with the real driver",
		Scenarios: p24, Setup: setup, Extra: p24journal, Quick: 2, Thorough: 4}
}

const (
	expiry = 10 * time.Second
	period = time.Second
)

// routes is a configuration with a gateway for each carrier.
func routes(w *world, conns int) map[string]*site {
	m := map[string]*site{"cmpp:1": {p: wire.CMPP30}, "sgip:1": {p: wire.SGIP}, "smgp:1": {p: wire.SMGP}}
	if w.p.Name == "cmpp" {
		m["cmpp:1"].p = w.p
	}
	for n, pre := range map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"} {
		w.cfg.Set(n+".address", n+":1")
		w.cfg.Set(n+".segment", "^"+pre+"[0-9]{8}$")
		w.cfg.Set(n+".max-conns", conns)
		w.cfg.Set(n+".mt-window-size", 1000)
		w.cfg.Set(n+".throughput", 100000)
		w.cfg.Set(n+".tick-duration", time.Second)
	}
	w.cfg.Set("Cache.expire-time", expiry)
	w.cfg.Set("Cache.expire-check-duration", period)
	w.sites(m)
	return m
}

// sent is a bulk send and what it must have left.
type sent struct {
	id    int64
	at    time.Time
	want  []wire.Pkt // submissions, in order
	proto []wire.Proto
	// handed counts the hand-overs of each result
	res    []any
	handed map[any]int
}

// journal is the persistence handler.
type journal struct {
	w       *world
	batches [][]any
	copies  [][]any
	at      []time.Time
}

func (j *journal) handle(rs []any) {
	j.batches = append(j.batches, rs)
	j.copies = append(j.copies, append([]any(nil), rs...))
	j.at = append(j.at, time.Now())
}

// book keeps the sends of a scenario.
type book struct {
	w     *world
	m     map[string]*site
	sends []*sent
	j     *journal
	cut   map[*fake.End]int
	all   []wire.Pkt // submissions seen, by connection
}

func (w *world) book(conns int, handler bool) *book {
	b := &book{w: w, m: routes(w, conns), cut: map[*fake.End]int{}}
	if handler {
		b.j = &journal{w: w}
		sms.StartCacheExpireTicker(b.j.handle)
	} else {
		sms.StartCacheExpireTicker(nil)
	}
	return b
}

// answer lets the gateways answer submissions: 1 by responses, 2 by responses and reports.
func (b *book) answer(how int) {
	n := 0
	for _, x := range b.m {
		x.serve = func(c *fake.End, k wire.Pkt) {
			p := x.p
			switch {
			case k.Kind == wire.Active && !k.Rsp:
				c.Push(p.ActiveRsp(k.Seq))
			case k.Kind == wire.Submit && !k.Rsp && how > 0:
				n++
				c.Push(p.SubmitRsp(k.Seq, id(p, n), 0))
				if how > 1 && p.Name != "sgip" {
					c.Push(p.ReportReq(wire.S(uint32(100+n)), id(p, n), id(p, n), "DELIVRD", "13800138000", "95566"))
				}
			}
		}
	}
}

// fresh returns the submissions written since the last call.
func (b *book) fresh() (ks []wire.Pkt, ps []wire.Proto) {
	for _, c := range b.w.ends {
		all := b.w.pkts(c)
		for _, k := range all[b.cut[c]:] {
			if k.Kind == wire.Submit && !k.Rsp {
				ks = append(ks, k)
				ps = append(ps, b.w.of[c].p)
			}
		}
		b.cut[c] = len(all)
	}
	return
}

func seqKey(p wire.Proto, k wire.Pkt) uint64 {
	if p.Name == "sgip" {
		return uint64(k.Seq.B)<<32 | uint64(k.Seq.C)
	}
	return uint64(k.Seq.C)
}

// some: any number of segments may be sent.
const some = -2

// send sends and notes what has been written; only for one sender at a time.
func (b *book) send(text string, phones []string, segs int) *sent {
	e := b.w.e
	s := &sent{at: time.Now(), handed: map[any]int{}}
	s.id = sms.SendN(text, phones)
	ks, ps := b.fresh()
	// in the order of the numbers
	for _, ph := range phones {
		for i, k := range ks {
			if strings.TrimPrefix(k.To, "86") == ph {
				s.want = append(s.want, k)
				s.proto = append(s.proto, ps[i])
			}
		}
	}
	if len(s.want) != len(ks) {
		e.Fail("a send to %v wrote submissions to others", phones)
	}
	routed := 0
	for _, ph := range phones {
		if ph[:3] == "138" || ph[:3] == "130" || ph[:3] == "133" {
			routed++
		}
	}
	if segs > 0 && len(ks) != routed*segs || segs < 0 && segs != some && (len(ks) < routed || routed == 0 && len(ks) > 0) {
		e.Fail("a send to %d numbers of %d segments wrote %d submissions", routed, segs, len(ks))
	}
	b.note(s)
	return s
}

// note adds a send: its id must be a new one.
func (b *book) note(s *sent) {
	for _, o := range b.sends {
		if o.id == s.id && s.id != 0 {
			b.w.e.Fail("two sends have the query id %d", s.id)
		}
	}
	b.sends = append(b.sends, s)
}

// query checks what a query with the id of a send returns now.
func (b *book) query(s *sent) string {
	e := b.w.e
	age := time.Since(s.at)
	res := sms.Query(s.id)
	if len(res) == 0 {
		if len(s.want) > 0 && age <= expiry {
			e.Fail("the results of a send are gone after %v", age)
		}
		return "-"
	}
	if age > expiry+period+time.Millisecond {
		e.Fail("the results of a send are there after %v", age)
	}
	b.same(s, res)
	s.res = res
	return fmt.Sprint(len(res))
}

func (b *book) same(s *sent, res []any) {
	e := b.w.e
	if len(res) != len(s.want) {
		e.Fail("a query returns %d results for %d segments sent", len(res), len(s.want))
		return
	}
	for i, x := range res {
		r, ok := x.(*session.Result)
		if !ok || r == nil {
			e.Fail("a query returns a %T", x)
			return
		}
		if r.QueryId != s.id || r.Phone != strings.TrimPrefix(s.want[i].To, "86") || r.SequenceId != seqKey(s.proto[i], s.want[i]) {
			e.Fail("result %d of query %d is of query %d to %s with number %x, not to %s with %x", i, s.id, r.QueryId, r.Phone, r.SequenceId, s.want[i].To, seqKey(s.proto[i], s.want[i]))
		}
	}
}

// settle checks the hand-overs so far; final: nothing may be missing of what has expired.
func (b *book) settle() {
	e := b.w.e
	if b.j == nil {
		return
	}
	count := map[uint64]int{}
	first := map[uint64]time.Time{}
	total := 0
	for i, rs := range b.j.batches {
		if len(rs) != len(b.j.copies[i]) {
			e.Fail("a batch changed after it was handed over")
			continue
		}
		for k, x := range rs {
			if x != b.j.copies[i][k] {
				e.Fail("a batch changed after it was handed over")
			}
			r, ok := x.(*session.Result)
			if !ok || r == nil {
				e.Fail("a %T was handed over", x)
				continue
			}
			count[r.SequenceId]++
			first[r.SequenceId] = b.j.at[i]
			total++
		}
	}
	known := 0
	for _, s := range b.sends {
		age := time.Since(s.at)
		for i, k := range s.want {
			key := seqKey(s.proto[i], k)
			n := count[key]
			known += n
			if n > 1 {
				e.Fail("a result was handed over %d times", n)
			}
			if n == 0 && age > expiry+period+time.Millisecond {
				e.Fail("a result is expired since %v and was not handed over", age-expiry)
			}
			if n > 0 && first[key].Sub(s.at) <= expiry {
				e.Fail("a result was handed over after %v", first[key].Sub(s.at))
			}
		}
	}
	if known != total {
		e.Fail("%d results were handed over that nobody sent", total-known)
	}
}

// numbers
func nums(pre string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s%0*d", pre, 11-len(pre), i))
	}
	return
}

func p24(r *lib.R) (out []sched.Scenario) {
	long := strings.Repeat("x", 200)
	type op struct {
		name string
		do   func(b *book) string
	}
	send := func(name, text string, phones []string, segs int) op {
		return op{name, func(b *book) string { b.send(text, phones, segs); return name }}
	}
	pass := func(d time.Duration) op {
		return op{"+" + d.String(), func(b *book) string { b.w.e.Pass(d); return "" }}
	}
	ops := []op{
		send("one", "hello", nums("138", 1), 1),
		send("mixed", long, []string{"13000000001", "12345678901", "13300000001", "13800000002"}, 2),
		send("nobody", "hello", []string{"12345678901"}, 1),
		pass(4 * time.Second),
		pass(6500 * time.Millisecond),
		pass(12 * time.Second),
		{"empty", func(b *book) string {
			if id := sms.SendN("hello", nil); id != 0 {
				if rs := sms.Query(id); len(rs) != 0 {
					b.w.e.Fail("a send to nobody has results")
				}
			}
			return ""
		}},
		{"unknown", func(b *book) string {
			for _, id := range []int64{0, -1, 1, 1 << 62} {
				if rs := sms.Query(id); len(rs) != 0 {
					b.w.e.Fail("the unknown id %d has %d results", id, len(rs))
				}
			}
			return ""
		}},
	}
	depth := r.Pick(4, 5)
	for _, handler := range []bool{true, false} {
		depth := depth
		if !handler && !r.Thorough() {
			depth--
		}
		out = append(out, sched.Scenario{Name: fmt.Sprintf("histories, handler %v", handler), Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
			var hs []op
			ans := e.ChooseFree(3) // nothing, responses, responses and reports
			depth := depth
			if ans > 0 && !r.Thorough() {
				depth--
			}
			for i := 0; i < depth; i++ {
				hs = append(hs, ops[e.ChooseFree(len(ops))])
			}
			w := newWorld(e, wire.CMPP30, nil)
			b := w.book(1, handler)
			b.answer(ans)
			rt.Sleep(300 * time.Millisecond)
			o := ""
			for _, h := range hs {
				h.do(b)
				for _, s := range b.sends {
					o += b.query(s)
				}
				b.settle()
				o += ","
			}
			e.Pass(expiry + 2*period)
			for _, s := range b.sends {
				o += b.query(s)
			}
			b.settle()
			e.Note("%s", o)
		}})
	}
	// sizes around the hand-over limit, all expired at once or one after the other
	sizes := []int{0, 1, 62, 63, 64, 65, 130}
	if !r.Thorough() {
		sizes = []int{0, 1, 63, 64, 65}
	}
	out = append(out, sched.Scenario{Name: "batches", Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
		a, c, d := sizes[e.ChooseFree(len(sizes))], sizes[e.ChooseFree(len(sizes))], sizes[e.ChooseFree(len(sizes))]
		gap := []time.Duration{0, 1500 * time.Millisecond, 10 * time.Second}[e.ChooseFree(3)]
		w := newWorld(e, wire.CMPP30, nil)
		b := w.book(1, true)
		rt.Sleep(300 * time.Millisecond)
		for i, n := range []int{a, c, d} {
			if n == 0 {
				b.send("hello", []string{"12345678901"}, 1)
			} else {
				b.send("hello", nums(fmt.Sprintf("138%d", i), n), 1)
			}
			if gap > 0 {
				e.Pass(gap)
				b.settle()
			}
			for _, s := range b.sends {
				b.query(s)
			}
		}
		for i := 0; i < 14; i++ {
			e.Pass(period)
			for _, s := range b.sends {
				b.query(s)
			}
			b.settle()
		}
	}})
	// texts of any number of segments
	out = append(out, sched.Scenario{Name: "texts of many segments", Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
		n := e.ChooseFree(r.Pick(48, 200))
		handler, ans, wide := e.ChooseFree(2) == 1, e.ChooseFree(3), e.ChooseFree(2)
		w := newWorld(e, wire.CMPP30, nil)
		b := w.book(1, handler)
		b.answer(ans)
		rt.Sleep(300 * time.Millisecond)
		text := strings.Repeat("x", 100*n+1)
		if wide == 1 {
			text = strings.Repeat("短", 45*n+1)
		}
		pre := []string{"138", "130", "133"}
		s := b.send(text, []string{pre[n%3] + "00000001", "12345678901", pre[(n+1)%3] + "00000002"}, -1)
		if n > 4 && len(s.want) < n {
			e.Fail("a text of %d octets has been sent in %d segments", len(text), len(s.want)/2)
		}
		o := b.query(s)
		for i := 0; i < 14; i++ {
			e.Pass(period)
			b.query(s)
			b.settle()
		}
		e.Note("%s", o)
	}})
	// sends the connection breaks under
	for _, p := range []wire.Proto{wire.CMPP30, wire.CMPP20, wire.SGIP, wire.SMGP} {
		pre := map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"}[p.Name]
		out = append(out, sched.Scenario{Name: p.String() + " broken sends", Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
			phones := 1 + e.ChooseFree(3)
			segs := 1 + e.ChooseFree(3)
			at := 2 + e.ChooseFree(phones*segs)
			ans, handler := e.ChooseFree(3), e.ChooseFree(2) == 1
			w := newWorld(e, p, nil)
			b := w.book(1, handler)
			b.answer(ans)
			// the first connection breaks with its at-th write, the first is the login
			b.m[isp(p)+":1"].breaks = at
			rt.Sleep(300 * time.Millisecond)
			s := b.send(strings.Repeat("x", 150*segs-100), nums(pre, phones), some)
			if n := len(s.want); n < at-2 || n > phones*segs-1 {
				e.Fail("%s: %d of %d segments were sent although the connection broke at segment %d", p, n, phones*segs, at-1)
			}
			o := b.query(s)
			for i := 0; i < 14; i++ {
				e.Pass(period)
				b.query(s)
				b.settle()
			}
			e.Note("%s", o)
		}})
	}
	// numbers of every form, several times, and many of them
	for _, p := range []wire.Proto{wire.CMPP30, wire.CMPP20, wire.SGIP, wire.SMGP} {
		pre := map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"}[p.Name]
		forms := []string{pre + "00138000", "86" + pre + "00138000", "+86" + pre + "00138000", "0086" + pre + "00138000", pre, "8", "0", pre + "0013800000000", "86", "8686" + pre + "1", pre + "00138000 ", "abc"}
		out = append(out, sched.Scenario{Name: p.String() + " numbers of every form", Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
			w := newWorld(e, p, nil)
			b := w.book(1, true)
			b.answer(2)
			for _, n := range isps {
				w.cfg.Set(n+".segment", "^never$")
			}
			w.cfg.Set(isp(p)+".segment", ".*")
			w.cfg.Set(isp(p)+".mt-window-size", 100000)
			var phones []string
			segs := 1
			switch e.ChooseFree(2) {
			case 0: // every sequence of up to three
				for i := 0; i < 3; i++ {
					if k := e.ChooseFree(len(forms) + 1); k < len(forms) {
						phones = append(phones, forms[k])
					}
				}
				segs += e.ChooseFree(2)
			default:
				n := []int{10, 100, 127, 128, 254, 255, 256, 257, 600}[e.ChooseFree(9)]
				same := e.ChooseFree(2) == 1
				for i := 0; i < n; i++ {
					k := i
					if same {
						k = i / 3
					}
					phones = append(phones, fmt.Sprintf("%s%08d", pre, k))
				}
			}
			rt.Sleep(300 * time.Millisecond)
			q := sms.SendN(strings.Repeat("x", 200*segs-190), phones)
			ks, _ := b.fresh()
			res := sms.Query(q)
			if len(phones) > 0 && (len(res) != segs*len(phones) || len(ks) != len(res)) {
				e.Fail("%s: %d segments to %d numbers: %d submissions, %d results", p, segs, len(phones), len(ks), len(res))
				return
			}
			e.Pass(10 * time.Millisecond)
			for i, x := range res {
				r := x.(*session.Result)
				if r.Phone != phones[i/segs] || r.QueryId != q || r.SequenceId != seqKey(p, ks[i]) || r.MsgId == "" {
					e.Fail("%s: result %d is %+v, sent was number %x to %q", p, i, *r, seqKey(p, ks[i]), phones[i/segs])
					return
				}
			}
			e.Pass(expiry + 2*period)
			if len(sms.Query(q)) != 0 {
				e.Fail("%s: the results are not gone", p)
			}
			n := map[any]int{}
			for _, rs := range b.j.batches {
				for _, x := range rs {
					n[x]++
				}
			}
			for _, x := range res {
				if n[x] != 1 {
					e.Fail("%s: a result was handed over %d times", p, n[x])
				}
			}
			if len(n) != len(res) {
				e.Fail("%s: %d results were handed over instead of %d", p, len(n), len(res))
			}
			e.Note("%d", len(res))
		}})
	}
	// what has expired is forgotten: what arrives later changes neither it nor what is younger
	for _, p := range []wire.Proto{wire.CMPP30, wire.CMPP20, wire.SGIP, wire.SMGP} {
		pre := map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"}[p.Name]
		out = append(out, sched.Scenario{Name: p.String() + " late answers", Wide: true, Opt: rt.Options{Horizon: 10 * time.Minute}, Body: func(e *rt.Exec) {
			handler := e.ChooseFree(2) == 1
			young := e.ChooseFree(2) == 1
			early := e.ChooseFree(2) // the responses arrive in time, the reports do not
			n := 1 + e.ChooseFree(3)
			w := newWorld(e, p, nil)
			b := w.book(1, handler)
			rt.Sleep(300 * time.Millisecond)
			s := b.send("hello", nums(pre, n), 1)
			res := sms.Query(s.id)
			c := b.m[isp(p)+":1"].ends[0]
			respond := func(s *sent, from int) {
				for i, k := range s.want {
					c.Push(p.SubmitRsp(k.Seq, id(p, from+i), 0))
				}
				e.Pass(10 * time.Millisecond)
			}
			report := func(s *sent, from int) {
				for i := range s.want {
					if p.Name != "sgip" {
						c.Push(p.ReportReq(wire.S(uint32(100+from+i)), id(p, from+i), id(p, from+i), "DELIVRD", "13800138000", "95566"))
					}
				}
				e.Pass(10 * time.Millisecond)
			}
			if early == 1 {
				respond(s, 1)
			}
			var s2 *sent
			if young {
				e.Pass(8 * time.Second)
				s2 = b.send("hello", nums(pre+"5", n), 1)
				e.Pass(expiry + 2*period - 8*time.Second)
			} else {
				e.Pass(expiry + 2*period)
			}
			b.query(s)
			var was []session.Result
			for _, x := range res {
				was = append(was, *x.(*session.Result))
			}
			if early == 0 {
				respond(s, 1)
			}
			report(s, 1)
			for i, x := range res {
				if *x.(*session.Result) != was[i] {
					e.Fail("%s: an answer that arrived after the expiry changed a result", p)
				}
			}
			if young {
				respond(s2, 51)
				report(s2, 51)
				b.query(s2)
				for _, x := range sms.Query(s2.id) {
					if r := x.(*session.Result); r.MsgId == "" || p.Name != "sgip" && r.Report != "DELIVRD" {
						e.Fail("%s: a younger result has no answer or no report after an older one has expired", p)
					}
				}
			}
			b.settle()
			e.Note("%d %d", n, len(res))
		}})
	}
	// the default times
	out = append(out, sched.Scenario{Name: "default times", Once: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
		w := newWorld(e, wire.CMPP30, nil)
		b := w.book(1, true)
		w.cfg.Set("Cache.expire-time", 0)
		w.cfg.Set("Cache.expire-check-duration", 0)
		s := b.send("hello", nums("138", 2), 1)
		e.Pass(59 * time.Second)
		if rs := sms.Query(s.id); len(rs) != 2 {
			e.Fail("%d results are left after 59 s with the default expiry of a minute", len(rs))
		}
		e.Pass(3 * time.Second)
		if rs := sms.Query(s.id); len(rs) != 0 {
			e.Fail("%d results are left after 62 s with the default expiry of a minute", len(rs))
		}
		if len(b.j.batches) != 1 || len(b.j.batches[0]) != 2 {
			e.Fail("the results were not handed over once: %d", len(b.j.batches))
		}
	}})
	// expiry against sends and queries
	for _, p := range []wire.Proto{wire.CMPP30, wire.SGIP, wire.SMGP} {
		pre := map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"}[p.Name]
		deep := 3
		if p.Name == "smgp" {
			deep = 2
		}
		prep := func(e *rt.Exec) (*world, *book, *sent, *sent) {
			w := newWorld(e, p, nil)
			b := w.book(1, true)
			rt.Sleep(300 * time.Millisecond)
			old := b.send("hello", nums(pre, 2), 1)
			e.Pass(5 * time.Second)
			young := b.send("world", nums(pre+"1", 2), 1)
			e.Pass(4*time.Second + 600*time.Millisecond) // the next tick but one finds the old ones expired
			return w, b, old, young
		}
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s expiry against sends and queries", p), Max: r.Pick(deep, 5), Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			w, b, old, young := prep(e)
			at := 1100 * time.Millisecond // the time of the tick
			ids := make([]int64, 2)
			ended := 0
			w.race()
			for i := range ids {
				e.Go(fmt.Sprintf("sender%d", i), func() {
					rt.Sleep(at)
					ids[i] = sms.SendN("late", nums(fmt.Sprintf("%s2%d", pre, i), 1+i))
					if n := len(sms.Query(ids[i])); n != 1+i {
						e.Fail("%s: a query after a send to %d numbers has %d results", p, 1+i, n)
					}
					ended++
				})
			}
			e.Go("query", func() {
				rt.Sleep(at)
				n := len(sms.Query(old.id))
				if n != 0 && n != 2 {
					e.Fail("%s: a query at the expiry has %d of 2 results", p, n)
				}
				e.Note("%d", n)
				if n := len(sms.Query(young.id)); n != 2 {
					e.Fail("%s: a query before the expiry has %d of 2 results", p, n)
				}
				ended++
			})
			e.Pass(at)
			e.Pass(2 * time.Second)
			w.calm()
			if ended != 3 {
				e.Fail("%s: %d of 3 threads are stuck", p, 3-ended)
			}
			ks, ps := b.fresh()
			for i, id := range ids {
				s := &sent{id: id, at: e.Start.Add(e.Now() - 2*time.Second), handed: map[any]int{}}
				for k := range ks {
					if strings.HasPrefix(strings.TrimPrefix(ks[k].To, "86"), fmt.Sprintf("%s2%d", pre, i)) {
						s.want = append(s.want, ks[k])
						s.proto = append(s.proto, ps[k])
					}
				}
				b.note(s)
			}
			for _, s := range b.sends {
				b.query(s)
			}
			b.settle()
			e.Pass(20 * time.Second)
			for _, s := range b.sends {
				if len(sms.Query(s.id)) != 0 {
					e.Fail("%s: results are left long after their time", p)
				}
			}
			b.settle()
			e.Note("%d batches", len(b.j.batches))
		}})
		// expiry against responses and reports
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s expiry against responses and reports", p), Max: r.Pick(deep, 5), Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			w, b, old, young := prep(e)
			at := 1100 * time.Millisecond
			c := w.ends[len(w.ends)-1]
			for _, x := range w.ends {
				if w.of[x].p == p {
					c = x
				}
			}
			rs := sms.Query(young.id)
			w.race()
			e.Go("gateway", func() {
				rt.Sleep(at)
				for n, s := range []*sent{old, young} {
					for i, k := range s.want {
						e.Point("arrival")
						c.Push(p.SubmitRsp(k.Seq, id(p, 1+2*n+i), uint32(n)*uint32(i)*7))
					}
				}
				if p.Name == "sgip" {
					return
				}
				for n, s := range []*sent{old, young} {
					for i := range s.want {
						e.Point("arrival")
						c.Push(p.ReportReq(wire.S(uint32(50+2*n+i)), id(p, 1+2*n+i), id(p, 1+2*n+i), stats[2*n+i], "13800138000", "95566"))
					}
				}
			})
			e.Pass(at)
			e.Pass(time.Second)
			w.calm()
			if c.Closed || c.Unread() {
				e.Fail("%s: the session is closed or does not read", p)
			}
			for _, s := range b.sends {
				b.query(s)
			}
			b.settle()
			for i, x := range rs {
				m := x.(*session.Result)
				if m.Result != uint32(i)*7 || m.ResponseTime.IsZero() || m.MsgId == "" {
					e.Fail("%s: the expiry of another result lost the response: %d %q", p, m.Result, m.MsgId)
				}
				if p.Name != "sgip" && m.Report != stats[2+i] {
					e.Fail("%s: the expiry of another result lost the report: %q", p, m.Report)
				}
			}
			e.Pass(20 * time.Second)
			b.settle()
			e.Note("%d batches", len(b.j.batches))
		}})
	}
	return
}
