package server

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P17"] = sched.Check{Rule: "every sequence of arrival gaps to a depth against a token bucket, for several throughputs and windows; schedules of submissions against the window with the number in processing counted from the response times",
		Scenarios: p17, Setup: setup, Quick: 2, Thorough: 4}
}

// bucket is the model of the rate limit: one token every ev, at most burst.
type bucket struct {
	ev     time.Duration
	burst  int
	tokens time.Duration // in units of ev
	last   time.Duration
	init   bool
	close  bool // the last decision was at the edge
	took   bool
}

// follow takes over a decision at the edge.
func (b *bucket) follow(ok bool) {
	if ok && !b.took {
		b.tokens -= b.ev
	}
	if !ok && b.took {
		b.tokens += b.ev
	}
}

func (b *bucket) take(now time.Duration) bool {
	full := time.Duration(b.burst) * b.ev
	if !b.init {
		b.tokens, b.init = full, true
	} else {
		b.tokens += now - b.last
		if b.tokens > full {
			b.tokens = full
		}
	}
	b.last = now
	b.close = b.tokens > b.ev*999/1000 && b.tokens < b.ev*1001/1000
	b.took = b.tokens >= b.ev
	if b.took {
		b.tokens -= b.ev
	}
	return b.took
}

// asked is when the worker of a submission handed over its response.
func (w *world) asked(c *fake.Conn, n uint32) time.Duration {
	for _, x := range c.Asked {
		if k := w.p.Parse(x.Data); k.Err == "" && k.Kind == wire.Submit && k.Rsp && k.Seq == w.seq(n) {
			return x.At
		}
	}
	return -1
}

// status is the status of the response to a submission sent at a time, and when it was sent.
func (w *world) status(c *fake.Conn, n uint32) (st int, at time.Duration) {
	st = -1
	for _, k := range w.timed(c) {
		if k.Kind == wire.Submit && k.Rsp && k.Seq == w.seq(n) {
			if st >= 0 {
				w.e.Fail("%s: submission %d answered twice", w.p, n)
			}
			st, at = int(k.Status), k.at
		}
	}
	return
}

func p17(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		a, _ := ids(p)
		flow := int(flowCode(p))
		// the rate limit
		type rc struct{ rate, window int }
		rcs := []rc{{100, 1}, {100, 2}, {100, 4}, {3, 2}, {1000, 3}, {600, 1}, {30, 2}, {7000, 2}}
		for _, x := range rcs {
			ev := time.Duration(1000000/x.rate) * time.Microsecond
			gaps := []time.Duration{0, ev * 37 / 100, ev * 123 / 100, ev * 361 / 100}
			depth := r.Pick(5, 8)
			if p == wire.CMPP30 {
				depth--
			}
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s rate %d window %d", p, x.rate, x.window), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{rate: x.rate, window: x.window})
				c := w.in(a)
				b := bucket{ev: ev, burst: x.window}
				var hist []string
				for i := 0; i < depth+x.window; i++ {
					if i >= x.window { // the burst comes at once
						g := gaps[e.ChooseFree(len(gaps))]
						if g > 0 {
							e.Pass(g)
						}
						hist = append(hist, g.String())
					}
					n := uint32(100 + i)
					now := e.Now()
					c.Send(w.submit(n))
					e.Idle()
					st, at := w.status(c, n)
					want := flow
					if b.take(now) {
						want = 0
					}
					if b.close && time.Second%ev != 0 { // rates that are not exact in floating point: the edge may fall either way
						if st == 0 || st == flow {
							b.follow(st == 0)
							want = st
						}
					}
					if st != want || (st >= 0 && at != now) || c.Closed {
						e.Fail("%s: throughput %d, window %d: after %d at once and gaps %v submission %d is answered with %d after %v, not %d at once", p, x.rate, x.window, x.window, hist, i+1, st, at-now, want)
						return
					}
				}
				w.panics()
			}})
		}
		// a submission counts once, whatever it holds
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s submissions of every size", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			win := 1 + e.ChooseFree(3)
			to := []int{1, 2, 10, 99}[e.ChooseFree(4)]
			size := []int{0, 1, 70, 140}[e.ChooseFree(4)]
			o := e.ChooseFree(len(p.Octets()) + 1)
			w := newWorld(e, p, conf{rate: 10, window: win})
			c := w.in(a)
			n := uint32(100)
			send := func() (int, time.Duration) {
				b := p.SubmitTo(wire.S(n), "95566", numbers(to), strings.Repeat("x", size))
				what := ""
				if o > 0 && to == 1 {
					x := p.Octets()[o-1]
					b[x.At], what = 9, x.Name
				}
				at := e.Now()
				c.Send(b)
				e.Idle()
				st, t := w.status(c, n)
				n++
				if st != 0 && st != flow || t != at || c.Closed {
					e.Fail("%s: a submission of %d octets to %d numbers (%s) is answered with %d after %v, closed: %v", p, size, to, what, st, t-at, c.Closed)
				}
				return st, t
			}
			for round, k := range []int{win, 1, win} {
				for i := 0; i <= k; i++ {
					want := 0
					if i == k {
						want = flow
					}
					if st, _ := send(); st != want {
						e.Fail("%s: window %d, 10 per second, round %d: submission %d of %d octets to %d numbers is answered with %d", p, win, round, i+1, size, to, st)
						return
					}
				}
				e.Pass([]time.Duration{101 * time.Millisecond, time.Second, 0}[round])
			}
			w.panics()
		}})
		// the limits are per session
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s limits per session", p), Max: r.Pick(2, 4), Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{rate: 10, window: 2, loops: 2})
			c, d := w.in(a), w.in(a)
			w.race()
			for i := uint32(0); i < 3; i++ {
				c.Send(w.submit(100 + i))
				d.Send(w.submit(100 + i))
			}
			w.calm()
			for _, x := range []*fake.Conn{c, d} {
				ok, no := 0, 0
				for i := uint32(0); i < 3; i++ {
					switch st, _ := w.status(x, 100+i); st {
					case 0:
						ok++
					case flow:
						no++
					}
				}
				if ok != 2 || no != 1 {
					e.Fail("%s: of 3 submissions at once with window 2 on each of two sessions, %d are accepted and %d refused", p, ok, no)
				}
			}
			w.panics()
		}})
		// each session has the limits of its account, also after a login as another one
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s limits of the account", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			w := newWorld(e, p, conf{ms: 30})
			x, y := ids(p)
			rates, wins := []int{5, 20, 1000}, []int{1, 2, 4}
			lim := map[string][2]int{}
			for _, z := range []wire.Account{x, y} {
				cl := w.st[p.Name+"_"+z.Id]
				cl.Throughput, cl.MtWindowSize = rates[e.ChooseFree(len(rates))], wins[e.ChooseFree(len(wins))]
				lim[z.Id] = [2]int{cl.Throughput, cl.MtWindowSize}
			}
			order := [][]wire.Account{{x}, {y}, {x, y}, {y, x}, {x, y, x}}[e.ChooseFree(5)]
			c := w.g.Connect()
			n := uint32(100)
			for i, z := range order {
				if st := w.login(c, z, uint32(10+i)); st != 0 {
					e.Fail("%s: login answered with %d", p, st)
					return
				}
				e.Pass(2 * time.Second) // fills every bucket
				rate, win := lim[z.Id][0], lim[z.Id][1]
				ev := time.Second / time.Duration(rate)
				for round := 0; round < 2; round++ {
					want := win
					if round > 0 { // one more after its time
						e.Pass(ev*11/10 - 40*time.Millisecond)
						want = min(win, int((ev*11/10+0)/ev))
						if ev < 40*time.Millisecond {
							want = win
						}
					}
					t0, first, ok := e.Now(), n, 0
					for ; n < first+5; n++ {
						c.Send(w.submit(n))
					}
					e.Idle()
					e.Pass(40 * time.Millisecond)
					for k := first; k < n; k++ {
						st, at := w.status(c, k)
						switch {
						case st == 0 && at == t0+30*time.Millisecond:
							ok++
						case st == flow && at == t0:
						default:
							e.Fail("%s: logins %d, throughput %d, window %d: submission answered with %d after %v", p, i+1, rate, win, st, at-t0)
							return
						}
					}
					if ok != want {
						e.Fail("%s: login %d, throughput %d, window %d: %d of 5 submissions at once are accepted in round %d, not %d", p, i+1, rate, win, ok, round, want)
						return
					}
				}
			}
			e.Note("%v %d", lim, len(order))
			w.panics()
		}})
		// the window
		const d = 50 * time.Millisecond
		for win := 1; win <= 3; win++ {
			for _, rep := range []int{0, 30} {
				for _, gap := range []time.Duration{1100 * time.Microsecond, 7100 * time.Microsecond, 26 * time.Millisecond, 90 * time.Millisecond} {
					n := uint32(3*win + 3)
					max := 1
					if gap == 1100*time.Microsecond && (win < 2 || rep == 0 && win == 2) || r.Thorough() {
						max = r.Pick(2, 3)
					}
					out = append(out, sched.Scenario{Name: fmt.Sprintf("%s window %d, gap %v, report after %d ms", p, win, gap, rep), Max: max, Opt: rt.Options{MaxSteps: 100000}, Body: func(e *rt.Exec) {
						w := newWorld(e, p, conf{rate: 1000, window: win, ms: 50, report: rep})
						c := w.in(a)
						sent := map[uint32]time.Duration{}
						w.race()
						for i := uint32(0); i < n; i++ {
							sent[i] = e.Now()
							c.Send(w.submit(100 + i))
							rt.Sleep(gap)
						}
						e.Idle()
						e.Pass(time.Duration(n) * 100 * time.Millisecond)
						w.calm()
						var ends []time.Duration
						refused := 0
						for i := uint32(0); i < n; i++ {
							st, _ := w.status(c, 100+i)
							at := w.asked(c, 100+i) // a busy loop may send it later
							switch st {
							case 0:
								ends = append(ends, at)
								if at-sent[i] < d {
									e.Fail("%s: submission %d answered %v after it was sent, its processing takes %v", p, i, at-sent[i], d)
								}
								if int(i) < win && gap < d/4 && at != sent[i]+d {
									e.Fail("%s: submission %d within both limits was answered after %v, not %v", p, i, at-sent[i], d)
								}
							case flow:
								refused++
							default:
								e.Fail("%s: submission %d answered with %d", p, i, st)
							}
						}
						sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
						for i := 0; i+win < len(ends); i++ {
							if ends[i+win]-ends[i] < d {
								e.Fail("%s: window %d: %d submissions were in processing together (responses at %v)", p, win, win+1, ends)
								break
							}
						}
						if gap >= d+time.Duration(rep)*time.Millisecond && refused > 0 {
							e.Fail("%s: %d submissions within both limits were refused", p, refused)
						}
						if c.Closed || !w.serves(c, 900) {
							e.Fail("%s: the session is not served any more (closed: %v)", p, c.Closed)
						}
						e.Note("%d %d", len(ends), refused)
						w.panics()
						w.hangup()
					}})
				}
			}
		}
		// the window holds for submissions of every kind
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s window for submissions of every kind", p), Wide: true, Opt: rt.Options{MaxSteps: 100000, Horizon: time.Hour}, Body: func(e *rt.Exec) {
			win := 1 + e.ChooseFree(2)
			rep := []int{0, 30}[e.ChooseFree(2)]
			every := 1 + e.ChooseFree(2) // every one or every second one is of the kind
			k := e.ChooseFree(4*len(p.Octets()) + 4)
			to, size := 1, 70
			switch q := k - 4*len(p.Octets()); q {
			case 0:
				to = 99
			case 1:
				size = 0
			case 2:
				size = 140
			}
			w := newWorld(e, p, conf{rate: 1000, window: win, ms: 50, report: rep})
			c := w.in(a)
			n := 3*win + 3
			what := "plain"
			sent := map[int]time.Duration{}
			for i := 0; i < n; i++ {
				b := w.submit(uint32(100 + i))
				if i%every == every-1 {
					b = p.SubmitTo(wire.S(uint32(100+i)), "95566", numbers(to), strings.Repeat("x", size))
					what = fmt.Sprintf("%d octets to %d", size, to)
					if k < 4*len(p.Octets()) {
						o := p.Octets()[k/4]
						b[o.At] = []byte{0, 1, 2, 9}[k%4]
						what = fmt.Sprintf("%s %d", o.Name, b[o.At])
					}
				}
				sent[i] = e.Now()
				c.Send(b)
				e.Idle()
				e.Pass(1100 * time.Microsecond)
			}
			e.Pass(time.Duration(n) * 100 * time.Millisecond)
			var ends []time.Duration
			refused := 0
			for i := 0; i < n; i++ {
				st, _ := w.status(c, uint32(100+i))
				at := w.asked(c, uint32(100+i)) // a busy loop may send it later
				switch st {
				case 0:
					ends = append(ends, at)
					if at-sent[i] < d || i < win && at != sent[i]+d {
						e.Fail("%s: submission %d (%s) answered after %v, its processing takes %v", p, i, what, at-sent[i], d)
						return
					}
				case flow:
					refused++
				default:
					e.Fail("%s: submission %d (%s) answered with %d", p, i, what, st)
					return
				}
			}
			sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
			for i := 0; i+win < len(ends); i++ {
				if ends[i+win]-ends[i] < d {
					e.Fail("%s: window %d, submissions with %s: %d were in processing together (responses at %v)", p, win, what, win+1, ends)
					return
				}
			}
			e.Note("%d %d", len(ends), refused)
			if c.Closed || !w.serves(c, 900) {
				e.Fail("%s: the session is not served any more (closed: %v)", p, c.Closed)
			}
			w.panics()
		}})
		// a burst as big as the window is processed together
		for win := 1; win <= 4; win++ {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s burst of the window %d", p, win), Max: r.Pick(2, 3), Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{rate: 20, window: win, ms: 30})
				c := w.in(a)
				w.race()
				t0 := e.Now()
				for i := 0; i <= win; i++ {
					c.Send(w.submit(uint32(100 + i)))
				}
				e.Idle()
				e.Pass(100 * time.Millisecond)
				w.calm()
				ok := 0
				for i := 0; i <= win; i++ {
					st, at := w.status(c, uint32(100+i))
					if st == 0 {
						ok++
						if at != t0+30*time.Millisecond {
							e.Fail("%s: window %d: a submission of the burst was answered after %v", p, win, at-t0)
						}
					} else if st != flow || at != t0 {
						e.Fail("%s: window %d: the submission beyond the burst was answered with %d after %v", p, win, st, at-t0)
					}
				}
				if ok != win {
					e.Fail("%s: window %d: %d submissions of the burst were accepted", p, win, ok)
				}
				w.panics()
			}})
		}
	}
	return
}
