package e2e

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/event_manager"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/rt"
	"verif/mc/rt/ants"
	"verif/mc/wire"
)

type conf struct {
	loops    int
	conns    int // of the client
	allowed  int // connections per account at the server
	sessions int // of the server
	window   int
	ms       int // processing time
	report   int // time to the report
	force    time.Duration
	tick     time.Duration
	delivery bool
	// cut: the octets from the server arrive in portions of this size
	cut int
}

type store map[string]*auth.Client

func (s store) Load() {}
func (s store) FindByCid(isp, cid string) *auth.Client {
	return s[strings.ToLower(isp)+"_"+cid]
}

// link is a connection between the two.
type link struct {
	end *fake.End
	con *fake.Conn
}

type world struct {
	e     *rt.Exec
	p     wire.Proto
	c     conf
	s     *server.Server
	g     *fake.Engine
	links []*link
	ps0   int
	ids   map[int64]bool
	// refuse: no more connections
	refuse bool
}

func newWorld(e *rt.Exec, p wire.Proto, c conf) *world {
	e.Calm(true)
	rt.Sleep(2 * time.Millisecond)
	def := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	def(&c.loops, 1)
	def(&c.conns, 1)
	def(&c.allowed, 10)
	def(&c.sessions, 20)
	def(&c.window, 64)
	if c.force == 0 {
		c.force = 10 * time.Minute
	}
	if c.tick == 0 {
		c.tick = 30 * time.Second
	}
	w := &world{e: e, p: p, c: c, ids: map[int64]bool{}}
	id := "900001"
	if p.Name == "smgp" {
		id = "10000001"
	}
	auth.Cache = store{p.Name + "_" + id: &auth.Client{ISP: p.Name, ClientId: id, LoginName: id, SharedSecret: "secret01", Version: p.Ver,
		NeedReport: 1, SmsDisplayNo: "95566", ServiceId: "service", DefaultMsgLevel: 1, MaxConns: c.allowed, MtWindowSize: c.window, Throughput: 1000000,
		FeeTerminalId: "10086", FeeType: "05", FeeCode: "free", MtValidDuration: 2 * time.Hour}}
	seqs := map[string]any{
		"Snowflake.B64.DC":     5,
		"Snowflake.B64.Worker": 77,
		"Snowflake.B32.DC":     2,
		"Snowflake.B32.Worker": 6,
		"Snowflake.BCD":        "135791",
		"Snowflake.SGIP":       1037196688,
	}
	m := map[string]any{
		"Server.TickDuration":               c.tick,
		"Server.ForceCloseConnTime":         c.force,
		"Server." + p.Name + ".Port":        9000,
		"Server." + p.Name + ".Multicore":   true,
		"Server." + p.Name + ".MaxSessions": c.sessions,
		"Server.Mock.SuccessRate":           1.0,
		"Server.Mock.MinSubmitRespMs":       c.ms,
		"Server.Mock.MaxSubmitRespMs":       c.ms + 1,
		"Server.Mock.FixReportRespMs":       c.report,
		"Server.Mock.Delivery.Enable":       c.delivery,
		"Server.Mock.Delivery.Rate":         1.0,
		"Server.Mock.Delivery.Contents":     []string{"01_,_hello"},
	}
	n := map[string]any{"PoolSize": 10, p.Name + ".client-id": id, p.Name + ".address": "gateway:1", p.Name + ".segment": "^.*$",
		p.Name + ".max-conns": c.conns, p.Name + ".mt-window-size": 1000, p.Name + ".throughput": 100000, p.Name + ".tick-duration": time.Second,
		"Cache.expire-time": time.Hour, "Cache.expire-check-duration": time.Second}
	for k, v := range seqs {
		m[k], n[k] = v, v
	}
	bs.ConfigYml = fake.NewConfig("", m)
	bs.SeqInit()
	w.s = server.New(p.Name)
	w.ps0 = ants.Unreleased(e)
	w.g = fake.NewEngine(e, w.s, c.loops)
	// the client has a part of the numbers of its own, as if it were another process
	n["Snowflake.B64.DC"], n["Snowflake.B32.DC"] = 6, 1
	sms.ConfigYml = fake.NewConfig("", n)
	e.Dial = func(_, addr string) (net.Conn, error) {
		if addr != "gateway:1" || w.refuse {
			return nil, errors.New("connection refused")
		}
		return w.connect(), nil
	}
	return w
}

func (w *world) connect() net.Conn {
	k := &link{end: fake.NewEnd(w.e, len(w.links))}
	w.links = append(w.links, k)
	k.con = w.g.Connect()
	k.con.Attach(func(b []byte) {
		for w.c.cut > 0 && len(b) > w.c.cut {
			k.end.Push(b[:w.c.cut])
			b = b[w.c.cut:]
		}
		k.end.Push(b)
	}, func() { k.end.EOF() })
	k.end.OnWrite = k.con.Send
	k.end.OnClose = func() {
		if !k.con.Closed {
			k.con.Hangup()
		}
	}
	return k.end
}

func (w *world) race() { w.e.Calm(false) }
func (w *world) calm() {
	w.e.Idle()
	w.e.Calm(true)
}

// mail is a submission as it went over the wire, with what the server said of it.
type mail struct {
	k       wire.Pkt
	l       *link
	rsps    []wire.Pkt
	reports []wire.Pkt
}

// mails reads the wire.
func (w *world) mails() (ms []*mail) {
	for _, l := range w.links {
		up, rest := l.end.Packets()
		if len(rest) > 0 {
			w.e.Fail("%s: the client sent octets that are no packet: %x", w.p, rest)
		}
		at := map[wire.Seq]*mail{}
		for _, b := range up {
			k := w.p.Parse(b.Data)
			if k.Err != "" {
				w.e.Fail("%s: the client sent a packet that cannot be read: %s", w.p, k.Err)
			}
			if k.Kind == wire.Submit && !k.Rsp {
				m := &mail{k: k, l: l}
				if at[k.Seq] != nil {
					w.e.Fail("%s: two submissions have the same number", w.p)
				}
				at[k.Seq] = m
				ms = append(ms, m)
			}
		}
		down, rest := l.con.Packets()
		if len(rest) > 0 {
			w.e.Fail("%s: the server sent octets that are no packet: %x", w.p, rest)
		}
		of := map[string]*mail{}
		for _, b := range down {
			k := w.p.Parse(b.Data)
			switch {
			case k.Err != "":
				w.e.Fail("%s: the server sent a packet that cannot be read: %s", w.p, k.Err)
			case k.Kind == wire.Submit && k.Rsp:
				if m := at[k.Seq]; m == nil {
					w.e.Fail("%s: a response to no submission", w.p)
				} else {
					m.rsps = append(m.rsps, k)
					of[k.Id] = m
				}
			case k.Kind == wire.Deliver && k.Of != "":
				if m := of[k.Of]; m == nil {
					w.e.Fail("%s: a report of no submission", w.p)
				} else {
					m.reports = append(m.reports, k)
				}
			}
		}
	}
	return
}

// key is the number of a result.
func (w *world) key(m *mail) uint64 {
	if w.p.Name == "sgip" {
		return uint64(m.k.Seq.B)<<32 | uint64(m.k.Seq.C)
	}
	return uint64(m.k.Seq.C)
}

// send sends a message.
func (w *world) send(text, phone string, os ...codec.OptionFunc) int64 {
	id := sms.Send(text, phone, os...)
	if w.ids[id] {
		w.e.Fail("%s: two sends have the same id", w.p)
	}
	w.ids[id] = true
	return id
}

// complete checks that a send has ended well; it returns what happened.
func (w *world) complete(id int64, phone string, segs int, ms []*mail) string {
	e := w.e
	rs := sms.Query(id)
	if len(rs) == 0 || segs > 0 && len(rs) != segs {
		e.Fail("%s: a send of %d segments to %s has %d results", w.p, segs, phone, len(rs))
	}
	o := ""
	for i, x := range rs {
		r, ok := x.(*session.Result)
		if !ok || r == nil {
			e.Fail("%s: a %T as a result", w.p, x)
			continue
		}
		var m *mail
		for _, y := range ms {
			if w.key(y) == r.SequenceId {
				m = y
			}
		}
		if m == nil {
			e.Fail("%s: a result with the number %x, which was never sent", w.p, r.SequenceId)
			continue
		}
		if len(m.rsps) != 1 {
			e.Fail("%s: a submission has %d responses", w.p, len(m.rsps))
			continue
		}
		if r.QueryId != id || r.Phone != phone || strings.TrimPrefix(m.k.To, "86") != strings.TrimPrefix(phone, "86") {
			e.Fail("%s: result %d of the send %d to %s is of %d to %s, sent to %s", w.p, i, id, phone, r.QueryId, r.Phone, m.k.To)
		}
		if r.Result != 0 || r.ResponseTime.IsZero() || r.ResponseTime.Before(r.SendTime) {
			e.Fail("%s: the result of a message is %d, its response came at %v", w.p, r.Result, r.ResponseTime)
		}
		if w.p.Name == "sgip" {
			continue
		}
		if !strings.EqualFold(r.MsgId, m.rsps[0].Id) || r.MsgId == strings.Repeat("0", 2*w.p.IdLen()) {
			e.Fail("%s: the message id is %s, the server gave %s", w.p, r.MsgId, m.rsps[0].Id)
		}
		if len(m.reports) != 1 {
			e.Fail("%s: a message has %d reports", w.p, len(m.reports))
		} else if r.Report != m.reports[0].Stat || r.Report == "" || r.ReportTime.IsZero() {
			e.Fail("%s: the report is %q, the server sent %q", w.p, r.Report, m.reports[0].Stat)
		}
		o += "r"
	}
	return o
}

// cutAll breaks the connections that are open, on both sides.
func (w *world) cutAll(client bool) {
	for _, l := range w.links {
		if !l.end.Closed && !l.con.Closed {
			if client {
				l.end.RST()
				l.con.Reset()
			} else {
				l.con.Hangup()
			}
		}
	}
	w.e.Idle()
}

// up counts the connections that are open on both sides and logged in.
func (w *world) up() (n int) {
	for _, l := range w.links {
		if !l.end.Closed && !l.con.Closed {
			n++
		}
	}
	return
}

// end shuts the client down and looks for what is left.
func (w *world) end() {
	w.e.Idle()
	event_manager.GracefullyShutdown()
	w.gone()
}

func (w *world) gone() {
	e := w.e
	e.Idle()
	e.Pass(5 * time.Second)
	for _, x := range e.Panics {
		e.Fail("a worker panicked: %s\n%s", x.Msg, x.Stack)
	}
	for i, l := range w.links {
		if !l.end.Closed {
			e.Fail("%s: connection %d of the client is not closed after its shutdown", w.p, i)
		}
		if !l.con.Done {
			e.Fail("%s: connection %d of the server is not closed after the client's shutdown", w.p, i)
		}
	}
	n := 0
	w.s.SessionPool().Range(func(k, v any) bool { n++; return true })
	if n != 0 {
		e.Fail("%s: %d sessions are left at the server", w.p, n)
	}
	if n := w.s.ActiveSessions(); n != 0 {
		e.Fail("%s: the server counts %d sessions without a connection", w.p, n)
	}
	if n := ants.Unreleased(e) - w.ps0; n > 0 {
		e.Fail("%s: %d worker pools of closed sessions are not released", w.p, n)
	}
	for _, b := range e.Blocked(fake.IsLoop) {
		if strings.HasPrefix(b, "msc_server/") || strings.HasPrefix(b, "smc_client/session") || strings.HasPrefix(b, "msc_client/session/") {
			e.Fail("%s: a thread is left: %s", w.p, b)
		}
	}
}

