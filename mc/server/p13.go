package server

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"verif/mc/fake"
	"verif/mc/lib"
	"verif/mc/rt"
	"verif/mc/sched"
	"verif/mc/wire"
)

func init() {
	checks["P13"] = sched.Check{Rule: "every sequence to a depth of logins (right, wrong secret, unknown account, wrong version, another account), requests and answers on a connection, against a model of the session's state; every schedule of packets sent along with a login",
		Scenarios: p13, Setup: setup, Quick: 3, Thorough: 6}
}

// act is something a client can send.
type act struct {
	name string
	send func(p wire.Proto, n uint32) []byte
	// login: the code it is answered with, and the account; other requests: what they are answered with once logged in
	login bool
	code  int
	acct  string
	want  string
	ends  bool // the connection is closed after it
}

func codes(p wire.Proto) (unknown, secret, version int) {
	switch p.Name {
	case "cmpp":
		return 2, 3, 4
	case "smgp":
		return 69, 21, 22
	}
	return 1, 1, -1
}

func acts(p wire.Proto) (out []act) {
	a, b := ids(p)
	unknown, secret, version := codes(p)
	lg := func(x wire.Account) func(p wire.Proto, n uint32) []byte {
		return func(p wire.Proto, n uint32) []byte { return p.LoginReq(x, wire.S(n)) }
	}
	with := func(f func(*wire.Account)) wire.Account {
		x := a
		f(&x)
		return x
	}
	out = append(out,
		act{name: "login A", send: lg(a), login: true, acct: a.Id},
		act{name: "login B", send: lg(b), login: true, acct: b.Id},
		act{name: "login wrong secret", send: lg(with(func(x *wire.Account) { x.Secret = "secret02" })), login: true, code: secret},
		act{name: "login empty secret", send: lg(with(func(x *wire.Account) { x.Secret = "" })), login: true, code: secret},
		act{name: "login unknown", send: lg(with(func(x *wire.Account) { x.Id, x.Login = "900003", "900003" })), login: true, code: unknown},
	)
	if p.Name == "smgp" {
		out[4].send = lg(with(func(x *wire.Account) { x.Id = "10000003" }))
	}
	if version >= 0 {
		v := byte(0x30)
		if p.Ver == 0x30 {
			v = 0x20
		}
		q := p
		q.Ver = v
		out = append(out, act{name: "login wrong version", send: func(_ wire.Proto, n uint32) []byte {
			return q.LoginReq(with(func(x *wire.Account) { x.Ver = v }), wire.S(n))
		}, login: true, code: version})
	}
	ok := "submit-rsp#%d=0"
	if p.Name != "sgip" {
		ok = "report," + ok
	}
	out = append(out,
		act{name: "submit", send: func(p wire.Proto, n uint32) []byte { return (&world{p: p}).submit(n) }, want: ok},
		act{name: "logout", send: func(p wire.Proto, n uint32) []byte { return p.TermReq(wire.S(n)) }, want: "logout-rsp#%d=0", ends: true},
		act{name: "logout answer", send: func(p wire.Proto, n uint32) []byte { return p.TermRsp(wire.S(n)) }, ends: true},
	)
	if p.Has(wire.Active) {
		out = append(out,
			act{name: "heartbeat", send: func(p wire.Proto, n uint32) []byte { return p.ActiveReq(wire.S(n)) }, want: "active-rsp#%d=0"},
			act{name: "heartbeat answer", send: func(p wire.Proto, n uint32) []byte { return p.ActiveRsp(wire.S(n)) }},
			act{name: "delivery acknowledgement", send: func(p wire.Proto, n uint32) []byte {
				return p.DeliverRsp(wire.S(n), make([]byte, p.IdLen()), 0)
			}},
		)
	}
	return
}

// proof looks at the digest in a login answer: a successful one shows that the gateway knows the secret.
func (w *world) proof(k wire.Pkt) {
	if k.Kind != wire.Login || !k.Rsp || k.Err != "" || w.p.Name == "sgip" {
		return
	}
	a, b := ids(w.p)
	a.Ver, b.Ver = w.p.Ver, w.p.Ver
	if k.Status == 0 && !bytes.Equal(k.Auth, w.p.Proof(a)) && !bytes.Equal(k.Auth, w.p.Proof(b)) {
		w.e.Fail("%s: the digest in the answer to a login is %x, not %x or %x", w.p, k.Auth, w.p.Proof(a), w.p.Proof(b))
	}
	if k.Status != 0 && !bytes.Equal(k.Auth, make([]byte, 16)) {
		w.e.Fail("%s: the answer to a refused login carries the digest %x", w.p, k.Auth)
	}
}

// reply reads packets whose login answers may be of another version than the connection's.
func (w *world) reply(c *fake.Conn, k int) string {
	ps, rest := c.Packets()
	var out []string
	for _, b := range ps[k:] {
		x := w.p.Parse(b.Data)
		if x.Err != "" && w.p.Name == "cmpp" {
			q := w.p
			q.Ver ^= 0x10
			x = q.Parse(b.Data)
		}
		if x.Err != "" {
			w.e.Fail("the server sent a packet that cannot be read: %s", x.Err)
		}
		w.proof(x)
		out = append(out, tag(x))
	}
	if len(rest) > 0 {
		w.e.Fail("the server sent octets that are no packet: %x", rest)
	}
	return norm(out)
}

func p13(r *lib.R) (out []sched.Scenario) {
	depth := r.Pick(5, 7)
	for _, p := range wire.All {
		as := acts(p)
		a, b := ids(p)
		for first := range as {
			out = append(out, sched.Scenario{Name: fmt.Sprintf("%s sequences from %s", p, as[first].name), Wide: true, Body: func(e *rt.Exec) {
				w := newWorld(e, p, conf{})
				c := w.g.Connect()
				other := w.g.Connect() // never sends anything
				e.Idle()
				in := "" // the account it is logged in under
				var hist []string
				for i := 0; i < depth; i++ {
					j := first
					if i > 0 {
						j = e.ChooseFree(len(as))
					}
					x := as[j]
					hist = append(hist, x.name)
					n := uint32(20 + i)
					ps, _ := c.Packets()
					c.Send(x.send(p, n))
					e.Idle()
					want, closed := "", false
					switch {
					case x.login:
						want = fmt.Sprintf("login-rsp#%d=%d", n, x.code)
						if x.code != 0 {
							closed = true
						} else {
							in = x.acct
						}
					case in == "":
						closed = true
					default:
						want, closed = strings.ReplaceAll(x.want, "%d", fmt.Sprint(n)), x.ends
					}
					if want != "" {
						want = norm(strings.Split(want, ","))
					}
					got := w.reply(c, len(ps))
					if got != want || c.Closed != closed {
						e.Fail("%s: %s: the last is answered with [%s] closed=%v, not [%s] closed=%v", p, strings.Join(hist, ", "), got, c.Closed, want, closed)
						return
					}
					if closed {
						in = ""
					}
					for _, y := range []wire.Account{a, b} {
						wantN := 0
						if y.Id == in {
							wantN = 1
						}
						if g := w.s.CountSessionByClientId(y.Id); g != wantN {
							e.Fail("%s: %s: %d sessions of account %s, not %d", p, strings.Join(hist, ", "), g, y.Id, wantN)
							return
						}
					}
					if closed {
						break
					}
				}
				if len(other.Writes) > 0 || other.Closed {
					e.Fail("%s: %s: a connection that sent nothing was sent something or closed", p, strings.Join(hist, ", "))
				}
				w.panics()
			}})
		}
		// every octet of the login request changed
		l := p.LoginReq(a, wire.S(7))
		out = append(out, sched.Scenario{Name: fmt.Sprintf("%s changed credentials", p), Wide: true, Body: func(e *rt.Exec) {
			i := p.HeadLen() + e.ChooseFree(len(l)-p.HeadLen())
			v := []byte{l[i] ^ 1, l[i] ^ 3, l[i] ^ 0x10, l[i] ^ 0x80, 0, 0xff, ' ', l[i] + 1, l[i] - 1}[e.ChooseFree(9)]
			if v == l[i] {
				return
			}
			m := append([]byte(nil), l...)
			m[i] = v
			want := judge(p, m)
			if want == -2 {
				return
			}
			w := newWorld(e, p, conf{})
			c := w.g.Connect()
			c.Send(m)
			e.Idle()
			got := w.reply(c, 0)
			if ws := fmt.Sprintf("login-rsp#7=%d×1", want); got != ws || c.Closed != (want != 0) {
				e.Fail("%s: login with octet %d changed from %#x to %#x is answered with [%s] closed=%v, not [%s]", p, i, l[i], v, got, c.Closed, ws)
			}
			n := w.s.CountSessionByClientId(a.Id) + w.s.CountSessionByClientId(b.Id)
			if (want == 0) != (n == 1) {
				e.Fail("%s: login with octet %d changed from %#x to %#x: %d sessions", p, i, l[i], v, n)
			}
			w.panics()
		}})
		// nothing is sent before the login is complete, also by what runs by itself
		for _, x := range as {
			if !x.login {
				continue
			}
			for _, ms := range []int{0, 5} {
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s tick during a %s, responses after %d ms", p, x.name, ms), Max: r.Pick(3, 4), Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{delivery: true, ms: ms, tick: time.Hour, force: time.Hour})
					c := w.g.Connect()
					e.Idle()
					e.Pass(62 * time.Second)
					if len(c.Writes) > 0 || c.Closed {
						e.Fail("%s: a connection that sent nothing was sent something or closed", p)
						return
					}
					w.race()
					c.Send(x.send(p, 21))
					tick(w)
					w.calm()
					e.Pass(time.Second)
					ps, _ := c.Packets()
					var got []string
					for i, b := range ps {
						k := w.p.Parse(b.Data)
						if k.Err != "" && p.Name == "cmpp" {
							q := p
							q.Ver ^= 0x10
							k = q.Parse(b.Data)
						}
						got = append(got, tag(k))
						if i == 0 && (k.Err != "" || k.Kind != wire.Login || !k.Rsp || int(k.Status) != x.code) {
							e.Fail("%s: %s with a tick meanwhile: the first packet sent is %s", p, x.name, tag(k))
						}
						if i > 0 && x.code != 0 {
							e.Fail("%s: %s with a tick meanwhile: %s after the refusal", p, x.name, tag(k))
						}
					}
					if len(ps) == 0 || c.Closed != (x.code != 0) {
						e.Fail("%s: %s with a tick meanwhile: %v, closed: %v", p, x.name, got, c.Closed)
					}
					e.Note("%v", got)
					w.panics()
				}})
			}
		}
		// a request behind a login, not waiting for the answer
		for _, x := range as {
			if !x.login {
				continue
			}
			for _, y := range as {
				if y.login && !(x.code != 0 && y.code == 0) && !(x.code == 0 && y.acct != "" && y.acct != x.acct) {
					continue
				}
				if !r.Thorough() && (x.name == "login B" || x.name == "login empty secret") {
					continue
				}
				out = append(out, sched.Scenario{Name: fmt.Sprintf("%s %s with %s", p, x.name, y.name), Max: r.Pick(3, 6), Body: func(e *rt.Exec) {
					w := newWorld(e, p, conf{})
					c := w.g.Connect()
					e.Idle()
					w.race()
					if e.ChooseFree(2) == 0 {
						c.Send(x.send(p, 21))
						c.Send(y.send(p, 22))
					} else {
						c.Send(append(x.send(p, 21), y.send(p, 22)...))
					}
					c.Send(as[len(as)-1].send(p, 23)) // closes before a login
					w.calm()
					ps, _ := c.Packets()
					in, bad := false, false
					var got []string
					for _, b := range ps {
						k := w.p.Parse(b.Data)
						if k.Err != "" && p.Name == "cmpp" {
							q := p
							q.Ver ^= 0x10
							k = q.Parse(b.Data)
						}
						got = append(got, tag(k))
						w.proof(k)
						switch {
						case k.Err != "":
							e.Fail("the server sent a packet that cannot be read: %s", k.Err)
						case k.Kind == wire.Login && k.Rsp && k.Status == 0:
							if (k.Seq.C == 21 && x.code != 0) || (k.Seq.C == 22 && y.code != 0) {
								e.Fail("%s: a wrong login is answered with success", p)
							}
							in = true
						case k.Kind == wire.Login && k.Rsp:
							bad = true
							if (k.Seq.C == 21 && int(k.Status) != x.code) || (k.Seq.C == 22 && int(k.Status) != y.code) {
								e.Fail("%s: %s, %s: login answered with %d", p, x.name, y.name, k.Status)
							}
						case !in:
							e.Fail("%s: %s, %s: %s before a successful login", p, x.name, y.name, tag(k))
						}
					}
					if bad && !c.Closed {
						e.Fail("%s: %s, %s: open after a failed login", p, x.name, y.name)
					}
					if !in && !c.Closed {
						e.Fail("%s: %s, %s: open without a successful login", p, x.name, y.name)
					}
					if !c.Closed && w.s.CountSessionByClientId(a.Id)+w.s.CountSessionByClientId(b.Id) != 1 {
						e.Fail("%s: %s, %s: logged in but not counted", p, x.name, y.name)
					}
					w.panics()
					if !c.Closed {
						if !w.serves(c, 31) {
							e.Fail("%s: %s, %s: logged in but not served", p, x.name, y.name)
						}
					}
					e.Note("%v %v", got, c.Closed)
					w.hangup()
				}})
			}
		}
	}
	return
}

// judge is the code a login request must be answered with; -2: not judged.
func judge(p wire.Proto, m []byte) int {
	a, b := ids(p)
	d := m[p.HeadLen():]
	unknown, secret, version := codes(p)
	text := func(b []byte) (s string, ok bool) {
		s = strings.TrimRight(string(b), "\x00")
		return s, !strings.ContainsAny(s, "\x00 ")
	}
	find := func(id string) *wire.Account {
		for _, x := range []wire.Account{a, b} {
			if x.Id == id {
				return &x
			}
		}
		return nil
	}
	if p.Name == "sgip" {
		name, ok1 := text(d[1:17])
		pass, ok2 := text(d[17:33])
		if !ok1 || !ok2 {
			return -2
		}
		if x := find(name); x == nil || x.Secret != pass {
			return 1
		}
		return 0
	}
	w, auth, ver, at := 6, 6, 22, 23
	if p.Name == "smgp" {
		w, auth, ver, at = 8, 8, 29, 25
	}
	id, ok := text(d[:w])
	if !ok {
		return -2
	}
	x := find(id)
	if x == nil {
		return unknown
	}
	if d[ver]>>4 != p.Ver>>4 {
		return version
	}
	y := *x
	y.Time = binary.BigEndian.Uint32(d[at:])
	good := p.LoginReq(y, wire.S(7))[p.HeadLen():]
	if string(good[auth:auth+16]) != string(d[auth:auth+16]) {
		return secret
	}
	return 0
}
