package codecs

import (
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"

	"verif/mc/lib"
)

// loginPkt is a login attempt as it arrives: what it claims, and a digest.
type loginPkt struct {
	id    string
	auth  []byte
	ver   uint8
	ts    uint32
	frame []byte
}

type digestProto struct {
	name  string
	idW   int
	zeros int
	vers  []uint8
	ok    uint32
	noAcc uint32
	badV  uint32
	badA  uint32
	frame func(p *loginPkt) []byte
	// decide runs the real decoder and the real check, and returns the status and the encoded response
	decide func(frame []byte, ac *codec.AuthConf) (uint32, []byte, error)
	client func(ac *codec.AuthConf) []byte
	resp   func(p *loginPkt, status uint32, ac *codec.AuthConf) []byte
}

func protos() []*digestProto {
	return []*digestProto{
		{name: "cmpp", idW: 6, zeros: 9, vers: []uint8{0x20, 0x21, 0x30}, noAcc: 2, badV: 4, badA: 3,
			frame: func(p *loginPkt) []byte {
				return packet12(cConnect, 7, encode(cmppConnect(), Vals{"clientId": s(p.id), "auth": b(p.auth), "version": u(uint64(p.ver)), "ts": u(uint64(p.ts))}))
			},
			decide: func(f []byte, ac *codec.AuthConf) (uint32, []byte, error) {
				c := &cmpp.Connect{}
				if err := c.Decode(7, f[12:]); err != nil {
					return 0, nil, err
				}
				st := uint32(c.Check(ac))
				return st, c.ToResponse(st).Encode(), nil
			},
			client: func(ac *codec.AuthConf) []byte { return cmpp.NewConnect(ac, 7).Encode() },
			resp: func(p *loginPkt, st uint32, ac *codec.AuthConf) []byte {
				sb := []byte{byte(st)}
				if v3(p.ver) {
					sb = []byte{0, 0, 0, byte(st)}
				}
				a := make([]byte, 16)
				if st == 0 {
					a = md5sum(string(sb), string(p.auth), ac.SharedSecret)
				}
				return packet12(cConnectR, 7, encode(cmppConnectR(p.ver), Vals{"status": u(uint64(st)), "auth": b(a), "version": u(uint64(p.ver))}))
			}},
		{name: "smgp", idW: 8, zeros: 7, vers: []uint8{0x13, 0x20, 0x30}, noAcc: 69, badV: 22, badA: 21,
			frame: func(p *loginPkt) []byte {
				return packet12(tLogin, 7, encode(smgpLogin, Vals{"clientId": s(p.id), "auth": b(p.auth), "mode": u(2), "version": u(uint64(p.ver)), "ts": u(uint64(p.ts))}))
			},
			decide: func(f []byte, ac *codec.AuthConf) (uint32, []byte, error) {
				c := &smgp.Login{}
				if err := c.Decode(7, f[12:]); err != nil {
					return 0, nil, err
				}
				st := uint32(c.Check(ac))
				return st, c.ToResponse(st).Encode(), nil
			},
			client: func(ac *codec.AuthConf) []byte { return smgp.NewLogin(ac, 7).Encode() },
			resp: func(p *loginPkt, st uint32, ac *codec.AuthConf) []byte {
				a := make([]byte, 16)
				if st == 0 {
					a = md5sum(string(make([]byte, 4)), string(p.auth), ac.SharedSecret)
				}
				return packet12(tLoginR, 7, encode(smgpLoginR, Vals{"status": u(uint64(st)), "auth": b(a), "version": u(uint64(p.ver))}))
			}},
	}
}

// P07: a login is accepted exactly when account, major version and shared secret agree, and the response proves the secret.
func P07(r *lib.R) {
	sgip.NewSequencer(sgipNode, 0)
	for _, p := range protos() {
		try := func(key string, l *loginPkt, ac *codec.AuthConf, want ...uint32) {
			r.Case(p.name + key)
			f := p.frame(l)
			r.Guard(key, func() any { return hx(f) }, func() {
				st, rsp, err := p.decide(f, ac)
				ok := err == nil
				if ok {
					ok = false
					for _, w := range want {
						ok = ok || w == st
					}
				}
				if !ok {
					r.Fail(p.name+" login decision", map[string]any{"case": key, "frame": hx(f), "want": want, "got": st, "err": fmt.Sprint(err)})
				}
				r.Outcome(fmt.Sprintf("%s status %d", p.name, st))
				mustEqual(r, p.name+" login response", key, p.resp(l, st, ac), rsp)
			})
		}
		digest := func(id, secret string, ts string) []byte {
			return md5sum(id, string(make([]byte, p.zeros)), secret, ts)
		}
		ac := account(p.vers[0])
		for _, ver := range p.vers {
			ac.Version = ver
			for _, ts := range []uint32{0, 1, 101000000, 1231235959, 4294967295, 229000001} {
				s10 := fmt.Sprintf("%010d", ts)
				for w := 1; w <= p.idW; w++ {
					for _, sl := range []int{0, 1, 5, 16, 40} {
						a := *ac
						a.ClientId, a.SharedSecret = string(pattern("id", w)), string(pattern("se", sl))
						good := &loginPkt{id: a.ClientId, ver: ver, ts: ts, auth: digest(a.ClientId, a.SharedSecret, s10)}
						k := fmt.Sprintf(" ver %x ts %d id %d secret %d ", ver, ts, w, sl)
						try(k+"good", good, &a, 0)
						try(k+"no account", good, nil, p.noAcc)
						for cv := 0; cv < 256; cv++ {
							l := *good
							l.ver = uint8(cv)
							if uint8(cv)&0xf0 == ver&0xf0 {
								try(k+fmt.Sprintf("client version %x", cv), &l, &a, 0)
							} else {
								try(k+fmt.Sprintf("client version %x", cv), &l, &a, p.badV)
							}
						}
						bads := map[string][]byte{"other secret": digest(a.ClientId, a.SharedSecret+"x", s10), "other id": digest(a.ClientId+"x", a.SharedSecret, s10),
							"other time": digest(a.ClientId, a.SharedSecret, fmt.Sprintf("%010d", ts^1)), "unpadded time": md5sum(a.ClientId, string(make([]byte, p.zeros)), a.SharedSecret, "x"+fmt.Sprint(ts)),
							"no zeros": md5sum(a.ClientId, a.SharedSecret, s10), "wrong zeros": md5sum(a.ClientId, string(make([]byte, 16-p.zeros)), a.SharedSecret, s10), "zero": make([]byte, 16),
							"plain secret": []byte(a.SharedSecret)}
						for n, d := range bads {
							l := *good
							l.auth = d
							try(k+n, &l, &a, p.badA)
						}
						for bit := 0; bit < 128; bit++ {
							l := *good
							l.auth = append([]byte(nil), good.auth...)
							l.auth[bit/8] ^= 1 << (bit % 8)
							try(k+fmt.Sprint("bit ", bit), &l, &a, p.badA)
						}
						l := *good
						l.ts ^= 1
						try(k+"clock changed", &l, &a, p.badA)
						// two faults at once: rejected, with either reason
						l = *good
						l.ver, l.auth = ver^0x40, make([]byte, 16)
						try(k+"two faults", &l, &a, p.badA, p.badV)
					}
				}
			}
		}
		// what the client builds is what the server accepts, around the calendar
		for d := 0; d < 370; d++ {
			for _, ver := range p.vers {
				a := account(ver)
				if d%3 == 1 {
					a.ClientId = string(pattern("i", 1+d%p.idW))
				}
				if d%5 == 1 {
					a.SharedSecret = string(pattern("s", d%30))
				}
				f := p.client(a)
				key := fmt.Sprintf("%s own client %s version %x", p.name, time.Now().Format("0102150405"), ver)
				r.Case(key)
				r.Guard(key, func() any { return hx(f) }, func() {
					if st, _, err := p.decide(f, a); err != nil || st != 0 {
						r.Fail(p.name+" server refuses its own client", map[string]any{"case": key, "frame": hx(f), "status": st, "err": fmt.Sprint(err)})
					}
					o := *a
					o.SharedSecret += "!"
					if st, _, _ := p.decide(f, &o); st != p.badA {
						r.Fail(p.name+" accepts a client with another secret", map[string]any{"case": key, "frame": hx(f), "status": st})
					}
				})
			}
			time.Sleep(23*time.Hour + 59*time.Minute + 47*time.Second)
		}
	}
	sgipLogins(r)
	r.Sample("CMPP connect with one digest bit flipped: status 3 and a zero authenticator")
}

func sgipLogins(r *lib.R) {
	names := []string{"a", "ab", "b", "login", "loginname0123", "abcdefghijklmnop", "LOGIN", "login "}
	for _, name := range names {
		for _, pass := range append(names, "") {
			for _, cn := range append(names, "") {
				for _, cp := range append(names, "") {
					key := fmt.Sprintf("sgip bind %q/%q against %q/%q", cn, cp, name, pass)
					r.Case(key)
					a := account(0x12)
					a.LoginName, a.SharedSecret = name, pass
					f := packet20(sBind, []uint32{1, 2, 3}, encode(sgipBind, Vals{"loginType": u(1), "loginName": s(cn), "password": s(cp)}))
					r.Guard(key, func() any { return hx(f) }, func() {
						q := &sgip.Bind{}
						if err := q.Decode(1, f[12:]); err != nil {
							r.Fail("sgip bind does not decode", map[string]any{"case": key, "err": err.Error()})
						}
						st := uint32(q.Check(a))
						if (st == 0) != (cn == name && cp == pass) {
							r.Fail("sgip login decision", map[string]any{"case": key, "status": st})
						}
						if n := uint32(q.Check(nil)); n == 0 {
							r.Fail("sgip login without an account", key)
						}
						r.Outcome(fmt.Sprintf("sgip status %d", st))
						mustEqual(r, "sgip login response", key, packet20(sBindR, []uint32{1, 2, 3}, append([]byte{byte(st)}, make([]byte, 8)...)), q.ToResponse(st).Encode())
					})
				}
			}
			a := account(0x12)
			a.LoginName, a.SharedSecret = name, pass
			q := &sgip.Bind{}
			if err := q.Decode(1, sgip.NewBind(a, 1).Encode()[12:]); err != nil || q.Check(a) != 0 {
				r.Fail("sgip server refuses its own client", map[string]any{"name": name, "password": pass})
			}
		}
	}
}

// optChoice is one option call with its plain meaning.
type optChoice struct {
	what string
	f    codec.OptionFunc
	set  func(*codec.MtOptions)
}

func optionChoices(full bool) (groups [][]optChoice) {
	octet := func(name string, mk func(uint8) codec.OptionFunc, max uint8, set func(*codec.MtOptions, uint8)) {
		var g []optChoice
		dom := []int{0, 1, int(max), int(max) + 1, 0xf, 255}
		if full {
			dom = nil
			for i := 0; i < 256; i++ {
				dom = append(dom, i)
			}
		}
		for _, x := range dom {
			x := uint8(x)
			v := x
			if x > max {
				v = 0xf // not a legal value: not set
			}
			g = append(g, optChoice{fmt.Sprintf("%s(%d)", name, x), mk(x), func(o *codec.MtOptions) { set(o, v) }})
		}
		groups = append(groups, g)
	}
	str := func(name string, mk func(string) codec.OptionFunc, dom []string, set func(*codec.MtOptions, string)) {
		var g []optChoice
		for _, x := range dom {
			x := x
			g = append(g, optChoice{fmt.Sprintf("%s(%q)", name, x), mk(x), func(o *codec.MtOptions) { set(o, x) }})
		}
		groups = append(groups, g)
	}
	octet("NeedReport", codec.MtNeedReport, 1, func(o *codec.MtOptions, v uint8) { o.NeedReport = v })
	octet("MsgLevel", codec.MtMsgLevel, 9, func(o *codec.MtOptions, v uint8) { o.MsgLevel = v })
	octet("FeeUsertype", codec.MtFeeUsertype, 3, func(o *codec.MtOptions, v uint8) { o.FeeUsertype = v })
	octet("FeeTerminalType", codec.MtFeeTerminalType, 1, func(o *codec.MtOptions, v uint8) { o.FeeTerminalType = v })
	str("ServiceId", codec.MtServiceId, []string{"OPTSRV", "", "0123456789", "0123456789A"}, func(o *codec.MtOptions, v string) { o.ServiceId = v })
	str("FeeTerminalId", codec.MtFeeTerminalId, []string{"13911112222", ""}, func(o *codec.MtOptions, v string) { o.FeeTerminalId = v })
	str("FeeType", codec.MtFeeType, []string{"01", "02", "03", "04", "", "06", "1", "00", "001"}, func(o *codec.MtOptions, v string) {
		if v != "01" && v != "02" && v != "03" && v != "04" && v != "05" {
			v = ""
		}
		o.FeeType = v
	})
	str("FeeCode", codec.MtFeeCode, []string{"000777", ""}, func(o *codec.MtOptions, v string) { o.FeeCode = v })
	str("ValidTime", codec.MtValidTime, []string{"991231235959032+", ""}, func(o *codec.MtOptions, v string) { o.ValidTime = v })
	str("AtTimeStr", codec.MtAtTimeStr, []string{"990101000000", "990101000000123"}, func(o *codec.MtOptions, v string) { o.AtTime = v[:12] + "032+" })
	str("SpSubNo", codec.MtSpSubNo, []string{"0123", "", "0123456789012345678", "95566", "9556601", "66"}, func(o *codec.MtOptions, v string) { o.SpSubNo = v })
	str("LinkID", codec.MtLinkID, []string{"OPTLINK", ""}, func(o *codec.MtOptions, v string) { o.LinkID = v })
	var ats []optChoice
	for _, z := range []*time.Location{time.UTC, time.FixedZone("", 8*3600), time.FixedZone("", -11*3600-1800)} {
		at := time.Date(2031, 2, 3, 4, 5, 6, 0, z)
		ats = append(ats, optChoice{"AtTime " + at.String(), codec.MtAtTime(at), func(o *codec.MtOptions) { o.AtTime = "310203040506032+" }})
	}
	groups = append(groups, ats)
	return
}

// P08: an option of one submission wins over the account's default, which applies whenever the option is absent or not legal.
func P08(r *lib.R) {
	sgip.NewSequencer(sgipNode, 0)
	// the accounts whose defaults the options are held against
	other := func(ver uint8, n int) *codec.AuthConf {
		a := account(ver)
		switch n {
		case 1: // nothing set
			a.NeedReport, a.DefaultMsgLevel, a.FeeUserType, a.FeeTerminalType, a.MtValidDuration = 0, 0, 0, 0, 0
			a.ServiceId, a.FeeTerminalId, a.FeeType, a.FeeCode, a.FixedFee, a.LinkId = "", "", "", "", "", ""
		case 2:
			a.NeedReport, a.DefaultMsgLevel, a.FeeUserType, a.FeeTerminalType, a.MtValidDuration = 2, 9, 3, 0, 48*time.Hour
			a.ServiceId, a.FeeTerminalId, a.FeeType, a.FeeCode, a.FixedFee, a.LinkId = "S", "13", "03", "1", "2", "L"
		}
		return a
	}
	acct := 0
	run := func(what string, opts []codec.OptionFunc, o codec.MtOptions, txt string) {
		for i, ver := range []uint8{0x20, 0x30, 0x12, 0x30} {
			c := mtCase{what: fmt.Sprintf("account %d: %s", acct, what), ac: other(ver, acct), phones: phones(1, 21), text: txt, seq: 5, opts: opts, o: o}
			switch i {
			case 0, 1:
				checkCmppSubmit(r, c)
			case 2:
				c.ac.ClientId = "12345"
				checkSgipSubmit(r, c)
			case 3:
				checkSmgpSubmit(r, c)
			}
		}
	}
	long := text("cjk", 150)
	gs := optionChoices(false)
	for acct = 0; acct < 3; acct++ {
		run("no options", nil, noOptions, "hello")
		// each option alone over its domain
		for _, g := range optionChoices(true) {
			for _, ch := range g {
				o := noOptions
				ch.set(&o)
				run(ch.what, []codec.OptionFunc{ch.f}, o, "hello")
			}
		}
		// every subset of the options, in both orders, short and segmented
		for m := 0; m < 1<<len(gs); m++ {
			var opts []codec.OptionFunc
			o := noOptions
			what := ""
			for i := range gs {
				if m>>i&1 == 1 {
					ch := gs[i][(m>>3)%len(gs[i])]
					opts = append(opts, ch.f)
					ch.set(&o)
					what += ch.what + " "
				}
			}
			t := "hello"
			if m%16 == 3 {
				t = long
			}
			run(what, opts, o, t)
		}
	}
	acct = 0
	// the last of two calls wins; a ready-made option record is applied as a whole
	flat := []optChoice{}
	for _, g := range gs {
		flat = append(flat, g...)
	}
	rec := codec.MtOptions{NeedReport: 0, MsgLevel: 3, FeeUsertype: 1, FeeTerminalType: 0, ServiceId: "RECSRV", FeeTerminalId: "1390000", FeeType: "02",
		FeeCode: "9", ValidTime: "981231235959032+", AtTime: "980101000000032+", SpSubNo: "77", LinkID: "RECLINK"}
	for i, x := range flat {
		for j, y := range flat {
			if !r.Thorough() && (i*31+j)%3 != 0 {
				continue
			}
			o := noOptions
			x.set(&o)
			y.set(&o)
			run(x.what+" then "+y.what, []codec.OptionFunc{x.f, y.f}, o, "hello")
		}
		given := rec
		o := rec
		x.set(&o)
		run("record then "+x.what, []codec.OptionFunc{codec.WithMtOptions(&given), x.f}, o, "hello")
		run(x.what+" then record", []codec.OptionFunc{x.f, codec.WithMtOptions(&given)}, rec, "hello")
		if given != rec {
			r.Fail("the caller's option record was changed", x.what)
		}
		// a record that leaves something open
		for k, p := range []*uint8{&given.NeedReport, &given.MsgLevel, &given.FeeUsertype, &given.FeeTerminalType} {
			given = rec
			*p = 0xf
			if k == 1 {
				given.ServiceId, given.ValidTime, given.FeeType = "", "", ""
			}
			open := given
			run(fmt.Sprint(x.what, " then record without ", k), []codec.OptionFunc{x.f, codec.WithMtOptions(&given)}, open, "hello")
		}
		given = rec
		o = noOptions
		x.set(&o)
		run(x.what+" then no record", []codec.OptionFunc{x.f, codec.WithMtOptions(nil)}, o, "hello")
	}
	r.Sample("MtMsgLevel(10) MtServiceId(\"OPTSRV\") MtAtTimeStr(\"990101000000123\") on an account with its own defaults")
}
