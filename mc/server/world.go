package server

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/hrygo/gosms/auth"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"

	"verif/mc/fake"
	"verif/mc/rt"
	"verif/mc/rt/ants"
	"verif/mc/wire"
)

// conf is the configuration of a server and its accounts.
type conf struct {
	loops    int
	sessions int
	conns    int // per account
	window   int
	rate     int // submissions per second
	ms       int // processing time
	report   int // time to the report
	success  float64
	force    time.Duration
	tick     time.Duration
	delivery bool
	contents []string // of deliveries
}

func (c conf) def() conf {
	d := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	d(&c.loops, 1)
	d(&c.sessions, 20)
	d(&c.conns, 10)
	d(&c.window, 8)
	d(&c.rate, 1000000)
	if c.contents == nil {
		c.contents = []string{"01_,_hello"}
	}
	if c.success == 0 {
		c.success = 1
	}
	if c.force == 0 {
		c.force = 10 * time.Minute
	}
	if c.tick == 0 {
		c.tick = 30 * time.Second
	}
	return c
}

type store map[string]*auth.Client

func (s store) Load() {}
func (s store) FindByCid(isp, cid string) *auth.Client {
	return s[strings.ToLower(isp)+"_"+cid]
}

// world is a server with its event loops and accounts.
type world struct {
	e   *rt.Exec
	p   wire.Proto
	c   conf
	cfg *fake.Config
	st  store
	s   *server.Server
	g   *fake.Engine
	ps0 int // pools of the server itself
}

// ids of the accounts A and B
func ids(p wire.Proto) (a, b wire.Account) {
	a = wire.Account{Id: "900001", Login: "900001", Secret: "secret01", Ver: p.Ver, Time: 102030405}
	b = wire.Account{Id: "900002", Login: "900002", Secret: "secret02", Ver: p.Ver, Time: 1231235959}
	if p.Name == "smgp" {
		a.Id, a.Login, b.Id, b.Login = "10000001", "10000001", "10000002", "10000002"
	}
	return
}

func newWorld(e *rt.Exec, p wire.Proto, c conf) *world {
	c = c.def()
	e.Calm(true)
	rt.Sleep(2 * time.Millisecond) // the id generator's millisecond is a fresh one
	w := &world{e: e, p: p, c: c, st: store{}}
	a, b := ids(p)
	w.account(a)
	w.account(b)
	auth.Cache = w.st
	w.cfg = fake.NewConfig("", map[string]any{
		"Server.TickDuration":               c.tick,
		"Server.ForceCloseConnTime":         c.force,
		"Server." + p.Name + ".Port":        9000,
		"Server." + p.Name + ".Multicore":   true,
		"Server." + p.Name + ".MaxSessions": c.sessions,
		"Server.Mock.SuccessRate":           c.success,
		"Server.Mock.MinSubmitRespMs":       c.ms,
		"Server.Mock.MaxSubmitRespMs":       c.ms + 1,
		"Server.Mock.FixReportRespMs":       c.report,
		"Server.Mock.Delivery.Enable":       c.delivery,
		"Server.Mock.Delivery.Rate":         1.0,
		"Server.Mock.Delivery.Contents":     c.contents,
		"Snowflake.B64.DC":                  5,
		"Snowflake.B64.Worker":              77,
		"Snowflake.B32.DC":                  2,
		"Snowflake.B32.Worker":              6,
		"Snowflake.BCD":                     "135791",
		"Snowflake.SGIP":                    1037196688,
	})
	bs.ConfigYml = w.cfg
	bs.SeqInit()
	w.s = server.New(p.Name)
	w.ps0 = ants.Unreleased(e)
	w.g = fake.NewEngine(e, w.s, c.loops)
	return w
}

// account adds an account to the store.
func (w *world) account(x wire.Account) {
	p, c := w.p, w.c
	w.st[p.Name+"_"+x.Id] = &auth.Client{ISP: p.Name, ClientId: x.Id, LoginName: x.Login, SharedSecret: x.Secret, Version: p.Ver,
		NeedReport: 1, SmsDisplayNo: "95566", ServiceId: "service", DefaultMsgLevel: 1, MaxConns: c.conns, MtWindowSize: c.window, Throughput: c.rate,
		FeeTerminalId: "10086", FeeType: "05", FeeCode: "free", MtValidDuration: 2 * time.Hour}
}

// race lets the scheduler deviate from here on, calm ends that when nothing is left to do.
func (w *world) race() { w.e.Calm(false) }
func (w *world) calm() {
	w.e.Idle()
	w.e.Calm(true)
}

// pkts parses what the server sent on a connection.
func (w *world) pkts(c *fake.Conn) (out []wire.Pkt) {
	ps, rest := c.Packets()
	for _, b := range ps {
		k := w.p.Parse(b.Data)
		if k.Err != "" {
			w.e.Fail("the server sent a packet that cannot be read: %s", k.Err)
		}
		out = append(out, k)
	}
	if len(rest) > 0 {
		w.e.Fail("the server sent octets that are no packet: %x", rest)
	}
	return
}

// timed is a packet with the time it was sent.
type timed struct {
	wire.Pkt
	at time.Duration
}

func (w *world) timed(c *fake.Conn) (out []timed) {
	w.pkts(c)
	ps, _ := c.Packets()
	for _, b := range ps {
		out = append(out, timed{w.p.Parse(b.Data), b.At})
	}
	return
}

// login logs in on a connection and waits for the answer; -1 stands for none.
func (w *world) login(c *fake.Conn, a wire.Account, seq uint32) int {
	n := len(w.pkts(c))
	c.Send(w.p.LoginReq(a, wire.S(seq)))
	w.e.Idle()
	for _, k := range w.pkts(c)[n:] {
		if k.Kind == wire.Login && k.Rsp && k.Seq == w.seq(seq) {
			return int(k.Status)
		}
	}
	return -1
}

// in opens a connection and logs in.
func (w *world) in(a wire.Account) *fake.Conn {
	c := w.g.Connect()
	if st := w.login(c, a, 1); st != 0 || c.Closed {
		w.e.Fail("a login with the right credentials on a fresh connection was answered with %d (closed: %v)", st, c.Closed)
	}
	return c
}

// seq is the sequence number as it comes back.
func (w *world) seq(n uint32) wire.Seq {
	if w.p.Name == "sgip" {
		return wire.S(n)
	}
	return wire.Seq{C: n}
}

func (w *world) submit(n uint32) []byte {
	return w.p.SubmitReq(wire.S(n), "95566", "13800138000", "hello")
}

// serves tells whether a logged-in connection answers a submission.
func (w *world) serves(c *fake.Conn, n uint32) bool {
	k := len(w.pkts(c))
	c.Send(w.submit(n))
	w.e.Idle()
	w.e.Pass(time.Duration(w.c.ms+w.c.report+1) * time.Millisecond)
	got := 0
	for _, x := range w.pkts(c)[k:] {
		if x.Kind == wire.Submit && x.Rsp && x.Seq == w.seq(n) {
			got++
		}
	}
	return got == 1 && !c.Closed
}

// panics reports panics of workers.
func (w *world) panics() {
	for _, x := range w.e.Panics {
		w.e.Fail("a worker panicked: %s\n%s", x.Msg, x.Stack)
	}
}

// held counts the sessions the server holds.
func (w *world) held() (n int) {
	w.s.SessionPool().Range(func(k, v any) bool { n++; return true })
	return
}

// hangup ends all connections and checks that nothing is left of them.
func (w *world) hangup(by ...func(*fake.Conn)) {
	for _, c := range w.g.Conns {
		if !c.Closed {
			c.Hangup()
		}
	}
	w.gone()
}

// gone waits for what is still going on and checks that nothing is left.
func (w *world) gone() {
	w.e.Idle()
	w.e.Pass(5 * time.Second)
	w.panics()
	for i, c := range w.g.Conns {
		if !c.Done {
			w.e.Fail("connection %d is not closed", i)
		}
	}
	if n := w.held(); n != 0 {
		w.e.Fail("%d sessions are left without a connection", n)
	}
	if n := w.s.ActiveSessions(); n != 0 {
		w.e.Fail("the session counter is %d without a connection", n)
	}
	if n := ants.Unreleased(w.e) - w.ps0; n != 0 {
		w.e.Fail("%d worker pools of closed sessions are not released", n)
	}
	if b := w.e.Blocked(fake.IsLoop); len(b) != 0 {
		w.e.Fail("tasks of closed sessions are left: %s", strings.Join(b, ", "))
	}
}

// show is the reaction as text: the packets in order of kind and sequence number.
func show(ks []wire.Pkt) string {
	var s []string
	for _, k := range ks {
		s = append(s, tag(k))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// tag is a packet without its ids.
func tag(k wire.Pkt) string {
	t := k.Kind.String()
	if k.Rsp {
		return fmt.Sprintf("%s-rsp#%d=%d", t, k.Seq.C, k.Status)
	}
	if k.Of != "" {
		return "report"
	}
	return t
}

func setLen(b []byte, n uint32) []byte {
	b = append([]byte(nil), b...)
	binary.BigEndian.PutUint32(b, n)
	return b
}

func setCmd(b []byte, n uint32) []byte {
	b = append([]byte(nil), b...)
	binary.BigEndian.PutUint32(b[4:], n)
	return b
}
