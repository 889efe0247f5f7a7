package seqs

import (
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"
	msc "github.com/hrygo/gosms/msc_server"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/gosms/utils/snowflake"
	"github.com/hrygo/gosms/utils/snowflake32"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	rtsync "verif/mc/rt/sync"
	"verif/mc/sched"
)

// fields of an id as the published layout has them
type idf struct {
	time int64
	node string
	seq  int64
}

func (f idf) String() string { return fmt.Sprintf("%d/%s/%d", f.time, f.node, f.seq) }

// gen is a generator under test.
type gen struct {
	name string
	tick time.Duration // resolution of its clock, 0 for none
	make func(near int, seen map[string]string) func() (key string, f idf)
	node string
	// when answers the time field for a moment
	when func(t time.Time) int64
	max  int64 // last counter value
}

const msEpoch = 1577808000000

func split64(v int64) idf {
	return idf{v >> 22, fmt.Sprintf("%d.%d", v>>19&7, v>>12&127), v & 4095}
}

func split32(v int32) idf {
	return idf{int64(v >> 14), fmt.Sprintf("%d.%d", v>>12&3, v>>9&7), int64(v & 511)}
}

func splitCycle(v int32) idf {
	return idf{0, fmt.Sprintf("%d.%d", v>>29&3, v>>26&7), int64(v & (1<<26 - 1))}
}

func bcdDigits(b []byte) (s string, ok bool) {
	for _, c := range b {
		if c>>4 > 9 || c&15 > 9 {
			return "", false
		}
		s += string([]byte{'0' + c>>4, '0' + c&15})
	}
	return s, true
}

func num(s string) (n int64) {
	for _, c := range s {
		n = n*10 + int64(c-'0')
	}
	return
}

func splitBcd(b []byte) idf {
	s, ok := bcdDigits(b)
	if !ok || len(s) != 20 {
		return idf{-1, fmt.Sprintf("bad %x", b), -1}
	}
	return idf{num(s[6:14]), s[:6], num(s[14:])}
}

func monthTime(t time.Time) int64 {
	return int64(t.Month())*1e8 + int64(t.Day())*1e6 + int64(t.Hour())*1e4 + int64(t.Minute())*100 + int64(t.Second())
}

var (
	cycleNear *utils.CycleSequence
)

func gens() []gen {
	return []gen{
		{"snowflake64", time.Millisecond, func(near int, seen map[string]string) func() (string, idf) {
			g := snowflake.NewSnowflake(5, 77)
			for i := 0; near > 0 && i < 5000; i++ {
				v := g.NextVal()
				seen[fmt.Sprint(v)] = "an earlier call"
				if split64(v).seq == 4094 {
					break
				}
			}
			return func() (string, idf) { v := g.NextVal(); return fmt.Sprint(v), split64(v) }
		}, "5.77", func(t time.Time) int64 { return t.UnixMilli() - msEpoch }, 4095},
		{"snowflake32", time.Second, func(near int, seen map[string]string) func() (string, idf) {
			g := snowflake32.NewSnowflake(2, 6)
			for i := 0; near > 0 && i < 600; i++ {
				v := g.NextVal()
				seen[fmt.Sprint(v)] = "an earlier call"
				if split32(v).seq == 510 {
					break
				}
			}
			return func() (string, idf) { v := g.NextVal(); return fmt.Sprint(v), split32(v) }
		}, "2.6", func(t time.Time) int64 { return int64(t.Hour()*3600 + t.Minute()*60 + t.Second()) }, 511},
		{"cycle", 0, func(near int, seen map[string]string) func() (string, idf) {
			g := utils.NewCycleSequence(2, 6)
			if near > 0 {
				c := *cycleNear
				g = &c
			}
			return func() (string, idf) { v := g.NextVal(); return fmt.Sprint(v), splitCycle(v) }
		}, "2.6", func(time.Time) int64 { return 0 }, 1<<26 - 1},
		{"bcd", time.Minute, func(near int, seen map[string]string) func() (string, idf) {
			g := utils.NewBcdSequence("135791")
			return func() (string, idf) { v := g.NextVal(); return string(v), splitBcd(v) }
		}, "135791", func(t time.Time) int64 { return monthTime(t) / 100 }, 999999},
		{"sgip", time.Second, func(int, map[string]string) func() (string, idf) {
			g := sgip.Sequencer
			return func() (string, idf) {
				v := g.NextVal()
				if len(v) != 3 {
					return fmt.Sprint(v), idf{-1, "bad", -1}
				}
				return fmt.Sprint(v), idf{int64(v[1]), fmt.Sprint(v[0]), int64(v[2])}
			}
		}, "3037196688", monthTime, 1<<32 - 1},
	}
}

func p09setup() {
	// the clock of a bubble starts in 2000, before the epoch of the 64 bit ids
	time.Sleep(time.Date(2026, 12, 31, 23, 58, 59, 0, time.UTC).Sub(time.Now()))
}

func cyclePrep() {
	if cycleNear != nil {
		return
	}
	cycleNear = utils.NewCycleSequence(2, 6)
	for i := 0; i < 1<<26-2; i++ {
		cycleNear.NextVal()
	}
}

func (g *gen) check(e *rt.Exec, seen map[string]string, who, key string, f idf, from, to time.Time) {
	if p, dup := seen[key]; dup {
		e.Fail("%s: %s and %s got the same value %s", g.name, p, who, f)
	}
	seen[key] = who
	if f.node != g.node {
		e.Fail("%s: node of %s is %q, not %q", g.name, f, f.node, g.node)
	}
	if f.seq < 0 || f.seq > g.max {
		e.Fail("%s: counter of %s out of range", g.name, f)
	}
	if a, b := g.when(from), g.when(to); f.time != a && f.time != b && (f.time < a || f.time > b) {
		e.Fail("%s: time of %s outside %d..%d", g.name, f, a, b)
	}
}

func p09(r *lib.R) (out []sched.Scenario) {
	for _, g := range gens() {
		g := g
		for _, near := range []int{0, 1} {
			if near == 1 && (g.name == "bcd" || g.name == "sgip") {
				continue
			}
			for _, shape := range [][]int{{2, 2}, {1, 1, 1}, {2, 2, 1}} {
				near, shape := near, shape
				for _, clock := range []string{"", "moves", "jumps"} {
					clock, move := clock, clock == "moves"
					if clock != "" && g.tick == 0 {
						continue
					}
					name := fmt.Sprintf("%s near=%d callers=%v", g.name, near, shape)
					if clock != "" {
						name += " clock " + clock
					}
					var prep func()
					if g.name == "cycle" && near == 1 {
						prep = cyclePrep
					}
					out = append(out, sched.Scenario{Name: name, Prep: prep, Opt: rt.Options{Align: 2 * time.Minute, MaxSteps: 100000, Horizon: 5 * time.Minute}, Body: func(e *rt.Exec) {
						// close to the end of a tick, so that waiting for the next one is short
						if g.tick > 0 {
							rt.Sleep(g.tick - 20*time.Microsecond + time.Duration(near)*(20*time.Microsecond-50*time.Nanosecond))
						}
						seen := map[string]string{}
						next := g.make(near, seen)
						left, t0 := len(shape), int64(-1)
						for i, n := range shape {
							i, n := i, n
							who := string(rune('A' + i))
							e.Go(who, func() {
								for k := 0; k < n; k++ {
									if move {
										switch e.Choose(3) {
										case 1:
											rt.Sleep(30 * time.Nanosecond)
										case 2:
											rt.Sleep(g.tick)
										}
									}
									from := time.Now()
									key, f := next()
									if t0 < 0 {
										t0 = f.time
									}
									e.Note("%s%v", who, f.time == t0)
									g.check(e, seen, fmt.Sprintf("%s%d", who, k), key, f, from, time.Now())
								}
								left--
							})
						}
						if clock == "jumps" {
							// the next tick comes at any moment, also while callers are between two steps
							e.Go("clock", func() {
								for k := 0; k < 2; k++ {
									e.Point("tick")
									time.Sleep(g.tick) // nobody else runs meanwhile
								}
							})
						}
						e.Until("callers", func() bool { return left == 0 })
					}})
				}
			}
		}
	}
	out = append(out, p09seq(r)...)
	return
}

// quiet sequences: one thread, one execution each
func p09seq(r *lib.R) (out []sched.Scenario) {
	add := func(name string, f func(e *rt.Exec)) {
		out = append(out, sched.Scenario{Name: name, Once: true, Opt: rt.Options{MaxSteps: 1 << 40, Horizon: 250 * 366 * 24 * time.Hour}, Body: f})
	}
	deep := r.Thorough()
	add("cycle: complete period", func(e *rt.Exec) {
		nodes := [][2]int32{{3, 7}}
		if deep {
			nodes = [][2]int32{{3, 7}, {0, 0}, {1, 2}, {2, 5}}
		}
		for _, n := range nodes {
			bits := make([]uint64, 1<<20)
			g := utils.NewCycleSequence(n[0], n[1])
			for i := 0; i < 1<<26; i++ {
				v := g.NextVal()
				f := v & (1<<26 - 1)
				if v < 0 || v>>29&3 != n[0] || v>>26&7 != n[1] {
					e.Fail("cycle %v: value %#x does not have its layout after %d values", n, v, i)
					return
				}
				if bits[f>>6]>>(f&63)&1 != 0 {
					e.Fail("cycle %v: value %#x again after %d values", n, v, i)
					return
				}
				bits[f>>6] |= 1 << (f & 63)
			}
		}
		e.Note("complete")
	})
	add("cycle: every node", func(e *rt.Exec) {
		seen := map[int32]bool{}
		for d := int32(0); d < 4; d++ {
			for w := int32(0); w < 8; w++ {
				g := utils.NewCycleSequence(d, w)
				for i := 0; i < 200; i++ {
					v := g.NextVal()
					if v < 0 || seen[v] || v>>29&3 != d || v>>26&7 != w {
						e.Fail("cycle node %d.%d: value %#x", d, w, v)
						return
					}
					seen[v] = true
				}
			}
		}
		e.Note("%d ids", len(seen))
	})
	add("snowflake64: every node, clock boundaries", func(e *rt.Exec) {
		seen := map[int64]bool{}
		var gs []*snowflake.Snowflake
		for d := int64(0); d < 8; d++ {
			for w := int64(0); w < 128; w++ {
				gs = append(gs, snowflake.NewSnowflake(d, w))
			}
		}
		step := func(per int) {
			for i, g := range gs {
				for k := 0; k < per; k++ {
					t := time.Now().UnixMilli() - msEpoch
					v := g.NextVal()
					t2 := time.Now().UnixMilli() - msEpoch
					d, w := int64(i/128), int64(i%128)
					if v < 0 || seen[v] || v>>19&7 != d || v>>12&127 != w || v>>22 < t || v>>22 > t2 {
						e.Fail("snowflake64 node %d.%d at %d: value %#x", d, w, t, v)
						return
					}
					seen[v] = true
					p := snowflake.Parse(v)
					if p.Timestamp() != v>>22+msEpoch || p.DatacenterId() != d || p.WorkerId() != w || p.Sequence() != v&4095 {
						e.Fail("snowflake64: Parse(%#x) = %v", v, p)
						return
					}
					if g.Timestamp() != v>>22+msEpoch || g.DatacenterId() != d || g.WorkerId() != w || g.Sequence() != v&4095 || g.String() != fmt.Sprintf("%016x", v) {
						e.Fail("snowflake64: generator shows %v after %#x", g, v)
						return
					}
				}
			}
		}
		for i := 0; i < 3; i++ {
			step(2)
			time.Sleep(time.Millisecond)
		}
		// moments at which a bit of the time field changes
		for b := uint(38); b < 41 && !e.Failed(); b++ {
			for _, o := range []int64{-1, 0} {
				at := time.UnixMilli(msEpoch + 1<<b + o)
				if d := at.Sub(time.Now()); d > 0 {
					time.Sleep(d)
					step(1)
				}
			}
		}
		if d := time.UnixMilli(msEpoch + 1<<41 - 2).Sub(time.Now()); d > 0 {
			time.Sleep(d)
			step(1)
		}
		e.Note("%d ids", len(seen))
	})
	add("snowflake64: counter rolls over", func(e *rt.Exec) {
		seen := map[int64]bool{}
		g := snowflake.NewSnowflake(1, 1)
		for round := 0; round < 3; round++ {
			if d := time.Millisecond - time.Duration(time.Now().UnixNano()%1e6) - 100; d > 0 {
				time.Sleep(d)
			}
			for i := 0; i < 4096+5; i++ {
				v := g.NextVal()
				if v < 0 || seen[v] || v>>12&0x3ff != 1<<7|1 {
					e.Fail("snowflake64: value %#x again or malformed, number %d", v, i)
					return
				}
				seen[v] = true
			}
		}
		e.Note("%d ids", len(seen))
	})
	add("snowflake32: every node, every second of a day", func(e *rt.Exec) {
		n := 32
		var gs []*snowflake32.Snowflake
		for i := 0; i < n; i++ {
			gs = append(gs, snowflake32.NewSnowflake(int32(i/8), int32(i%8)))
		}
		bits := make([]uint64, 1<<25)
		if d := time.Now().Truncate(24 * time.Hour).Add(24 * time.Hour).Sub(time.Now()); d > 0 {
			time.Sleep(d)
		}
		for s := 0; s < 86400; s++ {
			per, list := 2, []int{s % n, (s + 7) % n}
			if s%3600 == 0 || s%3600 == 3599 {
				list = nil
				for i := 0; i < n; i++ {
					list = append(list, i)
				}
			}
			for _, i := range list {
				for k := 0; k < per; k++ {
					v := gs[i].NextVal()
					if v < 0 || v>>14 != int32(s) || v>>12&3 != int32(i/8) || v>>9&7 != int32(i%8) || bits[v>>6]>>(v&63)&1 != 0 {
						e.Fail("snowflake32 node %d.%d in second %d: value %#x", i/8, i%8, s, v)
						return
					}
					bits[v>>6] |= 1 << (v & 63)
					p := snowflake32.Parse(v)
					g := gs[i]
					if p.Seconds() != int32(s) || p.Datacenter() != int32(i/8) || p.Worker() != int32(i%8) || p.Sequence() != v&511 ||
						g.Seconds() != int32(s) || g.Datacenter() != int32(i/8) || g.Worker() != int32(i%8) || g.Sequence() != v&511 || g.String() != fmt.Sprintf("%08x", v) {
						e.Fail("snowflake32: Parse(%#x) = %v, generator shows %v", v, p, g)
						return
					}
				}
			}
			time.Sleep(time.Second)
		}
		e.Note("complete")
	})
	add("snowflake32: counter rolls over, also at midnight", func(e *rt.Exec) {
		for _, at := range []time.Duration{12 * time.Hour, 24*time.Hour - time.Second} {
			seen := map[int32]bool{}
			g := snowflake32.NewSnowflake(3, 1)
			day := time.Now().Truncate(24 * time.Hour).Add(24 * time.Hour)
			time.Sleep(day.Add(at + time.Second - 20*time.Microsecond).Sub(time.Now()))
			for i := 0; i < 512+3; i++ {
				v := g.NextVal()
				if v < 0 || seen[v] || v>>9&31 != 25 {
					e.Fail("snowflake32: value %#x again or malformed, number %d", v, i)
					return
				}
				seen[v] = true
			}
		}
		e.Note("complete")
	})
	add("bcd: worker numbers", func(e *rt.Exec) {
		step := 37
		if deep {
			step = 1
		}
		for n := 0; n < 1000000; n += step {
			s := fmt.Sprintf("%06d", n)
			if f := splitBcd(utils.NewBcdSequence(s).NextVal()); f.node != s {
				e.Fail("bcd: worker %s gives %s", s, f)
				return
			}
		}
		for n := 0; n < 10000; n++ {
			s := fmt.Sprint(n)
			if f := splitBcd(utils.NewBcdSequence(s).NextVal()); f.node != fmt.Sprintf("%06d", n) {
				e.Fail("bcd: worker %q gives %s", s, f)
				return
			}
		}
		e.Note("complete")
	})
	add("bcd: a million in one minute", func(e *rt.Exec) {
		if d := time.Minute - time.Duration(time.Now().UnixNano()%int64(time.Minute)); d > 0 {
			time.Sleep(d)
		}
		g := utils.NewBcdSequence("010203")
		seen := make([]bool, 1000000)
		want := monthTime(time.Now()) / 100
		for i := 0; i < 1000000; i++ {
			f := splitBcd(g.NextVal())
			if f.node != "010203" || f.time != want || f.seq < 0 || seen[f.seq] {
				e.Fail("bcd: %s again or malformed, number %d", f, i)
				return
			}
			seen[f.seq] = true
		}
		// the next minute starts afresh
		time.Sleep(time.Minute)
		f := splitBcd(g.NextVal())
		if f.time == want || f.node != "010203" {
			e.Fail("bcd: %s in the next minute", f)
		}
		e.Note("complete")
	})
	add("bcd: every minute of a year", func(e *rt.Exec) {
		g := utils.NewBcdSequence("654321")
		days := 366
		for i := 0; i < days*1440; i++ {
			a, b := splitBcd(g.NextVal()), splitBcd(g.NextVal())
			want := monthTime(time.Now()) / 100
			if a.time != want || b.time != want || a.node != "654321" || b.node != "654321" || a.seq == b.seq || a.seq < 0 || b.seq < 0 {
				e.Fail("bcd: %s and %s in minute %d", a, b, want)
				return
			}
			time.Sleep(time.Minute)
		}
		e.Note("complete")
	})
	add("sgip: every second of a day and minute of a year", func(e *rt.Exec) {
		seen := map[[2]uint32]bool{}
		one := func() bool {
			v := sgip.Sequencer.NextVal()
			k := [2]uint32{v[1], v[2]}
			if len(v) != 3 || v[0] != 3037196688 || int64(v[1]) != monthTime(time.Now()) || seen[k] {
				e.Fail("sgip: sequence %v at %d", v, monthTime(time.Now()))
				return false
			}
			seen[k] = true
			return true
		}
		for i := 0; i < 86400; i++ {
			if !one() || !one() {
				return
			}
			time.Sleep(time.Second)
		}
		for i := 0; i < 365*1440; i += 7 {
			if !one() {
				return
			}
			time.Sleep(7 * time.Minute)
		}
		e.Note("complete")
	})
	add("sgip: a hundred thousand in one second", func(e *rt.Exec) {
		seen := map[uint32]bool{}
		for i := 0; i < 100000; i++ {
			v := sgip.Sequencer.NextVal()
			if seen[v[2]] {
				e.Fail("sgip: %v again after %d", v, i)
				return
			}
			seen[v[2]] = true
		}
		e.Note("complete")
	})
	add("settings of the bootstraps", func(e *rt.Exec) {
		for _, n := range [][4]int64{{1, 2, 3, 4}, {7, 127, 3, 7}, {2, 100, 0, 5}, {0, 0, 0, 0}, {4, 64, 2, 1}} {
			for _, nb := range []string{"000001", "123456", "999999"} {
				node := 1000000000 + n[1]*1000 + n[0]
				cfg := fake.NewConfig("./", map[string]any{"Snowflake.B64.DC": n[0], "Snowflake.B64.Worker": n[1], "Snowflake.B32.DC": n[2], "Snowflake.B32.Worker": n[3], "Snowflake.BCD": nb, "Snowflake.SGIP": node})
				for side, init := range map[string]func(){"server": func() { msc.ConfigYml = cfg; msc.SeqInit() }, "client": func() { sms.ConfigYml = cfg; sms.SeqInit() }} {
					old := sgip.Sequencer
					sgip.Sequencer = nil
					rtsync.ResetOnces()
					init()
					if sgip.Sequencer == nil {
						sgip.Sequencer = old // initialised only once, by other means
					} else {
						if v := sgip.Sequencer.NextVal(); int64(v[0]) != node {
							e.Fail("%s: SGIP node %d instead of %d", side, v[0], node)
						}
					}
					if f := split64(codec.B64Seq.NextVal()); f.node != fmt.Sprintf("%d.%d", n[0], n[1]) {
						e.Fail("%s: 64 bit node %s instead of %d.%d", side, f.node, n[0], n[1])
					}
					if f := splitCycle(codec.B32Seq.NextVal()); f.node != fmt.Sprintf("%d.%d", n[2], n[3]) {
						e.Fail("%s: 32 bit node %s instead of %d.%d", side, f.node, n[2], n[3])
					}
					if f := splitBcd(codec.BcdSeq.NextVal()); f.node != nb {
						e.Fail("%s: BCD node %s instead of %s", side, f.node, nb)
					}
				}
			}
		}
		e.Note("complete")
	})
	return
}
