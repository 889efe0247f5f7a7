package e2e

import (
	"fmt"
	"strings"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/event_manager"
	sms "github.com/hrygo/gosms/smc_client"

	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P26"] = sched.Check{Rule: "every combination of the listed texts, numbers, options, protocols and timings; all histories up to the stated depth of sends, broken connections and pauses; every schedule up to the stated number of deviations of concurrent senders, the server's workers, the receivers and the shutdown",
		Scenarios: p26, Setup: setup, Quick: 2, Thorough: 3}
}

type text struct {
	s    string
	segs int // 0: any number
}

func texts() []text {
	return []text{
		{"hello", 1},
		{"", 0},
		{"x", 1},
		{strings.Repeat("x", 139), 0},
		{strings.Repeat("x", 140), 0},
		{strings.Repeat("x", 141), 0},
		{strings.Repeat("x", 159), 0},
		{strings.Repeat("x", 160), 0},
		{strings.Repeat("x", 161), 0},
		{strings.Repeat("0123456789", 60), 0},
		{"你好,世界", 1},
		{strings.Repeat("汉", 69), 0},
		{strings.Repeat("汉", 70), 0},
		{strings.Repeat("汉", 71), 0},
		{strings.Repeat("汉字", 200), 0},
		{"emoji 😀 and 文", 0},
		{"tab\tnewline\nreturn\r", 0},
		{"quote\"back\\slash{}[]^~|€@£$", 0},
		{"\x00\x01\x7f", 0},
		{"\xff\xfe broken", 0},
		{strings.Repeat("a汉", 100), 0},
	}
}

var phones = []string{"13800138000", "8613800138000", "10086", "1065512345678", "1", "123456789012345678901"}

func p26(r *lib.R) (out []sched.Scenario) {
	for _, p := range wire.All {
		// --- texts and numbers ---
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s texts, numbers, options", p), Wide: true, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
			ts := texts()
			t := ts[e.ChooseFree(len(ts))]
			phone := phones[e.ChooseFree(len(phones))]
			opt := e.ChooseFree(4)
			c := conf{ms: []int{0, 20}[e.ChooseFree(2)]}
			c.report = []int{0, 30}[e.ChooseFree(2)]
			w := newWorld(e, p, c)
			var os []codec.OptionFunc
			switch opt {
			case 1:
				os = append(os, codec.MtMsgLevel(3))
			case 2:
				os = append(os, codec.MtServiceId("other"), codec.MtFeeType("02"))
			case 3:
				os = append(os, codec.MtNeedReport(1), codec.MtValidTime("3h"))
			}
			id := w.send(t.s, phone, os...)
			e.Pass(time.Second)
			e.Note("%s", w.complete(id, phone, t.segs, w.mails()))
			w.end()
		}})

		// --- histories ---
		depth := r.Pick(3, 5)
		for _, c := range []conf{{conns: 1}, {conns: 2, loops: 2, ms: 20, report: 30, delivery: true, cut: 7}, {conns: 3, allowed: 2, ms: 5}} {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s histories with %d connections", p, c.conns), Wide: true, Opt: rt.Options{Horizon: 3 * time.Hour}, Body: func(e *rt.Exec) {
				var hs []int
				for i := 0; i < depth; i++ {
					hs = append(hs, e.ChooseFree(7))
				}
				w := newWorld(e, p, c)
				type done struct {
					id    int64
					phone string
					segs  int
				}
				var ds []done
				send := func(text, phone string, segs int) {
					ds = append(ds, done{w.send(text, phone), phone, segs})
				}
				check := func() {
					e.Pass(time.Second)
					ms := w.mails()
					for _, d := range ds {
						w.complete(d.id, d.phone, d.segs, ms)
					}
					want := min(c.conns, max(c.allowed, 1))
					if c.allowed == 0 {
						want = c.conns
					}
					if n := w.s.ActiveSessions(); n > want {
						e.Fail("%s: the server counts %d sessions of a client that may have %d", p, n, want)
					}
				}
				for _, h := range hs {
					switch h {
					case 0:
						send("hello", "13800138000", 1)
						check()
					case 1:
						send(strings.Repeat("汉字", 100), "13000138000", 0)
						send("world", "13300138000", 1)
						check()
					case 2:
						for i := 0; i < 20; i++ {
							send(fmt.Sprint("number ", i), fmt.Sprint(13800138000+i), 1)
						}
						check()
					case 3:
						w.cutAll(true)
					case 4:
						w.cutAll(false)
					case 5:
						e.Pass(65 * time.Second)
					case 6:
						e.Pass(11 * time.Minute)
					}
				}
				// what was broken is replaced
				e.Pass(8 * time.Second)
				send("last", "13900138000", 1)
				check()
				want := c.conns
				if c.allowed > 0 {
					want = min(want, c.allowed)
				}
				if n := w.s.ActiveSessions(); n != want {
					e.Fail("%s: the server counts %d sessions of a client that has %d", p, n, want)
				}
				w.end()
				e.Note("%d mails", len(ds))
			}})
		}
		// --- schedules ---
		for _, c := range []conf{{}, {ms: 10, report: 10}, {conns: 2, loops: 2}} {
			name := fmt.Sprintf("%s with %d ms, %d connections", p, c.ms, max(c.conns, 1))
			dev, first := r.Pick(1, 2), r.Pick(1, 2)
			if c == (conf{}) {
				dev, first = r.Pick(2, 3), r.Pick(1, 2)
			}
			start := func(e *rt.Exec) *world {
				w := newWorld(e, p, c)
				id := w.send("first", "13700138000")
				e.Pass(5 * time.Second)
				w.complete(id, "13700138000", 1, w.mails())
				return w
			}
			out = append(out, sched.Scenario{Name: name + ", two senders", Max: dev, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				w := start(e)
				w.race()
				ids := make([]int64, 2)
				ph := []string{"13800138000", "13900138000"}
				tx := []string{"hello", strings.Repeat("汉", 80)}
				segs := []int{1, 0}
				for i := range ids {
					e.Go(fmt.Sprint("sender", i), func() { ids[i] = w.send(tx[i], ph[i]) })
				}
				e.Pass(time.Duration(c.ms+c.report) * time.Millisecond)
				w.calm()
				e.Pass(time.Second)
				ms := w.mails()
				o := ""
				for i, id := range ids {
					o += w.complete(id, ph[i], segs[i], ms) + ","
				}
				for _, m := range ms {
					o += m.k.To[9:]
				}
				w.end()
				e.Note("%s", o)
			}})
			out = append(out, sched.Scenario{Name: name + ", the first sends", Max: first, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				w := newWorld(e, p, c)
				w.race()
				ids := make([]int64, 2)
				ph := []string{"13800138000", "13900138000"}
				for i := range ids {
					e.Go(fmt.Sprint("sender", i), func() { ids[i] = w.send("hello", ph[i]) })
				}
				e.Pass(time.Duration(c.ms+c.report) * time.Millisecond)
				w.calm()
				e.Pass(time.Second)
				ms := w.mails()
				for i, id := range ids {
					w.complete(id, ph[i], 1, ms)
				}
				w.end()
			}})
			out = append(out, sched.Scenario{Name: name + ", the shutdown against a sender", Max: dev, Opt: rt.Options{Horizon: time.Hour}, Body: func(e *rt.Exec) {
				w := start(e)
				w.race()
				e.Go("sender", func() {
					if s := sms.SelectSession("13800138000"); s != nil {
						s.Send("13800138000", "hello")
					}
				})
				e.Go("shutdown", func() {
					rt.Sleep(time.Duration(c.ms) * time.Millisecond)
					event_manager.GracefullyShutdown()
				})
				e.Pass(time.Duration(c.ms+c.report) * time.Millisecond)
				w.calm()
				e.Note("%d mails", len(w.mails()))
				w.gone()
			}})
		}
	}
	return
}
