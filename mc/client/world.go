package client

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"

	"verif/mc/fake"
	"verif/mc/rt"
	"verif/mc/wire"
)

type store map[string]*auth.Client

func (s store) Load()                                  {}
func (s store) FindByCid(isp, cid string) *auth.Client { return s[isp+"_"+cid] }

// account of a protocol
func account(p wire.Proto) *auth.Client {
	c := &auth.Client{ISP: p.Name, ClientId: "900001", LoginName: "900001", SharedSecret: "secret01", Version: p.Ver,
		NeedReport: 1, SmsDisplayNo: "95566", ServiceId: "service", DefaultMsgLevel: 1, MaxConns: 10, MtWindowSize: 16, Throughput: 1000,
		FeeTerminalId: "10086", FeeType: "05", FeeCode: "free", MtValidDuration: 2 * time.Hour}
	if p.Name == "smgp" {
		c.ClientId, c.LoginName = "10000001", "10000001"
	}
	return c
}

func authConf(p wire.Proto) *codec.AuthConf {
	c := account(p)
	return &codec.AuthConf{ISP: c.ISP, ClientId: c.ClientId, LoginName: c.LoginName, SharedSecret: c.SharedSecret, Version: c.Version,
		NeedReport: c.NeedReport, SmsDisplayNo: c.SmsDisplayNo, ServiceId: c.ServiceId, DefaultMsgLevel: c.DefaultMsgLevel, FeeTerminalId: c.FeeTerminalId,
		FeeType: c.FeeType, FeeCode: c.FeeCode, MtValidDuration: c.MtValidDuration, MaxConns: c.MaxConns, MtWindowSize: c.MtWindowSize, Throughput: c.Throughput}
}

// world is a client with the connections it has opened.
type world struct {
	e    *rt.Exec
	p    wire.Proto
	cfg  *fake.Config
	ends []*fake.End
	of   map[*fake.End]*site
	// rejected: the login was refused, or not answered yet
	rejected map[*fake.End]bool
}

// site is a gateway's address: connections to it log in at once and are served as it says.
type site struct {
	p    wire.Proto
	ends []*fake.End
	// refuse: connections are refused, deaf: logins are refused
	refuse, deaf bool
	// slow: nothing is answered
	slow bool
	// breaks: the next connection breaks with that write
	breaks int
	// serve is called for every packet but logins
	serve func(c *fake.End, k wire.Pkt)
	dials int
}

// opened counts the connections that are open.
func (s *site) open() (n int) {
	for _, c := range s.ends {
		if !c.Closed {
			n++
		}
	}
	return
}

// sites lets the client dial gateways, one for each name of an address.
func (w *world) sites(m map[string]*site) {
	w.e.Dial = func(_, addr string) (net.Conn, error) {
		s := m[addr]
		if s == nil {
			return nil, errors.New("no such address " + addr)
		}
		s.dials++
		if s.refuse {
			return nil, errors.New("connection refused")
		}
		c := w.end()
		c.Addr = addr
		c.FailAt, s.breaks = s.breaks, 0
		w.of[c] = s
		s.ends = append(s.ends, c)
		w.rejected[c] = true
		c.OnWrite = func(b []byte) {
			if s.slow {
				return
			}
			k := s.p.Parse(b)
			switch {
			case k.Err != "":
				w.e.Fail("the client sent a packet that cannot be read: %s", k.Err)
			case k.Kind == wire.Login && !k.Rsp:
				st := uint32(0)
				if s.deaf {
					st = 3
				}
				w.rejected[c] = s.deaf
				c.Push(s.p.LoginRsp(k.Seq, st))
			case s.serve != nil:
				s.serve(c, k)
			case k.Kind == wire.Active && !k.Rsp:
				c.Push(s.p.ActiveRsp(k.Seq))
			}
		}
		return c, nil
	}
}

func newWorld(e *rt.Exec, p wire.Proto, conf map[string]any) *world {
	e.Calm(true)
	rt.Sleep(2 * time.Millisecond) // the id generator's millisecond is a fresh one
	w := &world{e: e, p: p, of: map[*fake.End]*site{}, rejected: map[*fake.End]bool{}}
	m := map[string]any{
		"PoolSize":             10,
		"Snowflake.B64.DC":     5,
		"Snowflake.B64.Worker": 77,
		"Snowflake.B32.DC":     2,
		"Snowflake.B32.Worker": 6,
		"Snowflake.BCD":        "135791",
		"Snowflake.SGIP":       1037196688,
	}
	st := store{}
	for _, q := range wire.All {
		if q.Name != "cmpp" || q == p || p.Name != "cmpp" {
			c := account(q)
			st[q.Name+"_"+c.ClientId] = c
			m[q.Name+".client-id"] = c.ClientId
		}
	}
	for k, v := range conf {
		m[k] = v
	}
	auth.Cache = st
	w.cfg = fake.NewConfig("", m)
	sms.ConfigYml = w.cfg
	sms.SeqInit()
	return w
}

// race lets the scheduler deviate from here on, calm ends that when nothing is left to do.
func (w *world) race() { w.e.Calm(false) }
func (w *world) calm() {
	w.e.Idle()
	w.e.Calm(true)
}

// end is a new connection.
func (w *world) end() *fake.End {
	c := fake.NewEnd(w.e, len(w.ends))
	w.ends = append(w.ends, c)
	return c
}

// dial starts a session on a connection in a thread of its own.
func (w *world) dial(c *fake.End) *pending {
	q := &pending{}
	w.e.Go("dial", func() {
		q.s = session.NewSession(w.p.Name, authConf(w.p), c)
		q.done = true
	})
	return q
}

type pending struct {
	s    *session.Session
	done bool
}

// in is a session that has logged in.
func (w *world) in() (*session.Session, *fake.End) {
	c := w.end()
	q := w.dial(c)
	w.e.Idle()
	ks := w.pkts(c)
	if len(ks) != 1 || ks[0].Kind != wire.Login || ks[0].Rsp {
		w.e.Fail("%s: a session does not begin with a login request: %v", w.p, ks)
		return nil, c
	}
	c.Push(w.p.LoginRsp(ks[0].Seq, 0))
	w.e.Idle()
	if !q.done || q.s == nil || c.Closed {
		w.e.Fail("%s: no session after a successful login (closed: %v)", w.p, c.Closed)
	}
	return q.s, c
}

// pkts parses what the client wrote on a connection.
func (w *world) pkts(c *fake.End) (out []wire.Pkt) {
	ps, rest := c.Packets()
	p := w.p
	if s := w.of[c]; s != nil {
		p = s.p
	}
	for _, b := range ps {
		k := p.Parse(b.Data)
		if k.Err != "" {
			w.e.Fail("the client sent a packet that cannot be read: %s", k.Err)
		}
		out = append(out, k)
	}
	if len(rest) > 0 {
		w.e.Fail("the client sent octets that are no packet: %x", rest)
	}
	return
}

// receivers are the threads that are left, apart from those of the scenario.
func (w *world) left(except ...string) []string {
	return w.e.Blocked(func(n string) bool {
		for _, x := range except {
			if n == x {
				return true
			}
		}
		return false
	})
}

func tag(k wire.Pkt) string {
	if k.Rsp {
		return fmt.Sprintf("%s-rsp#%d=%d%s", k.Kind, k.Seq.C, k.Status, k.Id)
	}
	return fmt.Sprintf("%s", k.Kind)
}

func setLen(b []byte, n uint32) []byte {
	b = append([]byte(nil), b...)
	binary.BigEndian.PutUint32(b, n)
	return b
}

func id(p wire.Proto, n int) []byte {
	b := make([]byte, p.IdLen())
	for i := range b {
		b[i] = byte(0x11*n + i)
	}
	return b
}
