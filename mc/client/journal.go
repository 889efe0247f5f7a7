package client

import (
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hrygo/gosms/auth"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/fake/mongo"
	"verif/mc/lib"
	"verif/mc/wire"
)

// loopback is a gateway of a carrier on the loopback network; it answers submissions and reports on them.
func loopback(p wire.Proto, how func(k wire.Pkt) (status uint32, report bool)) (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	var mu sync.Mutex
	n := 0
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					h := make([]byte, 4)
					if _, err := io.ReadFull(c, h); err != nil {
						return
					}
					b := make([]byte, int(h[0])<<24|int(h[1])<<16|int(h[2])<<8|int(h[3]))
					copy(b, h)
					if _, err := io.ReadFull(c, b[4:]); err != nil {
						return
					}
					k := p.Parse(b)
					switch {
					case k.Rsp:
					case k.Kind == wire.Login:
						c.Write(p.LoginRsp(k.Seq, 0))
					case k.Kind == wire.Active:
						c.Write(p.ActiveRsp(k.Seq))
					case k.Kind == wire.Submit:
						mu.Lock()
						n++
						m := n
						mu.Unlock()
						st, rep := how(k)
						c.Write(p.SubmitRsp(k.Seq, id(p, m), st))
						if rep {
							c.Write(p.ReportReq(wire.S(uint32(100+m)), id(p, m), id(p, m), "DELIVRD", "13800138000", "95566"))
						}
					}
				}
			}()
		}
	}()
	return l.Addr().String(), nil
}

// p24journal sends over the loopback network and looks at what the persistence handler of the client writes to the database, a
// stand-in of which the real driver talks to: all sizes of sends, on all carriers, expired together and one after the other.
func p24journal(r *lib.R) {
	if r.Violated() || r.OverBudget() {
		return
	}
	srv, err := mongo.Start()
	if err != nil {
		r.Cap("no loopback network for the database: " + err.Error())
		return
	}
	os.Setenv("MONGO_USER", "u")
	os.Setenv("MONGO_PASSWD", "p")
	const key = "journal in a database"
	m := map[string]any{"PoolSize": 10, "Snowflake.B64.DC": 5, "Snowflake.B64.Worker": 77, "Snowflake.B32.DC": 2, "Snowflake.B32.Worker": 6,
		"Snowflake.BCD": "135791", "Snowflake.SGIP": 1037196688,
		"Mongo.URI": srv.URI(), "Mongo.ConnectTimeout": "60s", "Mongo.ReadTimeout": "60s", "Mongo.WriteTimeout": "60s", "Mongo.HeartbeatInterval": "60s", "Mongo.MinPoolSize": 1, "Mongo.MaxPoolSize": 4,
		"Cache.expire-time": 2 * time.Second, "Cache.expire-check-duration": 300 * time.Millisecond}
	st := store{}
	for n, pre := range map[string]string{"cmpp": "138", "sgip": "130", "smgp": "133"} {
		var p wire.Proto
		for _, q := range wire.All {
			if q.Name == n {
				p = q
			}
		}
		addr, err := loopback(p, func(k wire.Pkt) (uint32, bool) { return 0, n != "sgip" })
		if err != nil {
			r.Cap("no loopback network for the gateways: " + err.Error())
			return
		}
		c := account(p)
		st[n+"_"+c.ClientId] = c
		for k, v := range map[string]any{"client-id": c.ClientId, "address": addr, "segment": "^" + pre + "[0-9]{8}$", "max-conns": 1, "mt-window-size": 1000, "throughput": 100000, "tick-duration": time.Second} {
			m[n+"."+k] = v
		}
	}
	auth.Cache = st
	sms.ConfigYml = fake.NewConfig("", m)
	sms.SeqInit()
	sms.PersistenceSmsJournal()

	fail := func(format string, a ...any) {
		r.Fail(key, map[string]any{"what": "journal in a database: " + fmt.Sprintf(format, a...)})
	}
	// until waits for what must come true; the machine may be slow
	until := func(ok func() bool) bool {
		for end := time.Now().Add(60 * time.Second); !ok(); time.Sleep(20 * time.Millisecond) {
			if time.Now().After(end) {
				return false
			}
		}
		return true
	}
	type rec struct {
		phone, msg, report string
		query, result      int64
	}
	want := map[rec]int{}
	total := 0
	long := strings.Repeat("a long text. ", 30) // several segments
	send := func(text string, phones []string) {
		if r.Violated() {
			return
		}
		r.Case(fmt.Sprintf("journal: %d bytes to %d numbers from %s", len(text), len(phones), phones[0]))
		id := sms.SendN(text, phones)
		rs := sms.Query(id)
		if len(rs) < len(phones) {
			fail("%d numbers leave %d results", len(phones), len(rs))
			return
		}
		if !until(func() bool {
			for _, x := range rs {
				q := x.(*session.Result)
				if q.MsgId == "" || !strings.HasPrefix(q.Phone, "130") && q.Report == "" {
					return false
				}
			}
			return true
		}) {
			fail("the results of %d numbers are not complete", len(phones))
			return
		}
		for _, x := range rs {
			q := x.(*session.Result)
			want[rec{q.Phone, q.MsgId, q.Report, q.QueryId, int64(q.Result)}]++
			total++
		}
	}
	numbers := func(pre string, n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s%08d", pre, i))
		}
		return
	}
	settled := func() {
		if r.Violated() {
			return
		}
		if !until(func() bool { return len(srv.Inserted()) >= total }) {
			fail("of %d expired results only %d were written", total, len(srv.Inserted()))
			return
		}
		time.Sleep(700 * time.Millisecond) // two more ticks
		got := map[rec]int{}
		str := func(x any) string { s, _ := x.(string); return s }
		num := func(x any) int64 {
			switch v := x.(type) {
			case int32:
				return int64(v)
			case int64:
				return v
			}
			return -1
		}
		low := func(d bson.M) bson.M {
			o := bson.M{}
			for k, v := range d {
				o[strings.ToLower(k)] = v
			}
			return o
		}
		for _, d := range srv.Inserted() {
			d = low(d)
			k := rec{str(d["phone"]), str(d["msgid"]), str(d["report"]), num(d["queryid"]), num(d["result"])}
			got[k]++
			if want[k] != got[k] {
				fail("the record %+v was written %d times, %d such results expired", k, got[k], want[k])
				return
			}
			r.AddStates(1)
		}
		if len(srv.Inserted()) != total {
			fail("%d records were written for %d results", len(srv.Inserted()), total)
		}
		r.AddTransitions(total)
	}
	// each carrier, each size alone and together
	first := true
	for _, pre := range []string{"138", "130", "133"} {
		if first {
			// the first selection creates the factory
			if !until(func() bool { return sms.SelectSession("13800000000") != nil }) {
				fail("no session with the gateway")
				return
			}
			first = false
		}
		for _, n := range []int{1, 2, 3, 63} {
			send("short", numbers(pre, n))
		}
		send(long, numbers(pre, 1))
		send(long, numbers(pre, 33))
	}
	settled()
	for _, n := range []int{64, 65, 130} {
		send("short", numbers("138", n))
		settled()
	}
	var mixed []string
	for i := 0; i < 3; i++ {
		for _, pre := range []string{"138", "130", "133"} {
			mixed = append(mixed, fmt.Sprintf("%s%08d", pre, i))
		}
	}
	send(long, mixed)
	settled()
	r.Outcome(fmt.Sprintf("journal in a database: %d results", total))
}
