package codecs

import (
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/smgp"

	"verif/mc/lib"
)

const (
	tLogin, tLoginR     = 1, 0x80000001
	tSubmit, tSubmitR   = 2, 0x80000002
	tDeliver, tDeliverR = 3, 0x80000003
	tActive, tActiveR   = 4, 0x80000004
	tExit, tExitR       = 6, 0x80000006
)

var (
	smgpLogin  = []F{{"clientId", 8, S, ""}, {"auth", 16, B, ""}, {"mode", 1, U, ""}, {"ts", 4, U, ""}, {"version", 1, U, ""}}
	smgpLoginR = []F{{"status", 4, U, ""}, {"auth", 16, B, ""}, {"version", 1, U, ""}}
	smgpSubmit = []F{{"msgType", 1, U, ""}, {"needReport", 1, U, ""}, {"priority", 1, U, ""}, {"serviceId", 10, S, ""}, {"feeType", 2, S, ""},
		{"feeCode", 6, S, ""}, {"fixedFee", 6, S, ""}, {"fmt", 1, U, ""}, {"validTime", 17, S, ""}, {"atTime", 17, S, ""}, {"src", 21, S, ""},
		{"charge", 21, S, ""}, {"count", 1, U, ""}, {"dests", 21, L, "count"}, {"len", 1, U, ""}, {"content", 0, C, "len"}, {"reserve", 8, S, ""}}
	smgpRsp     = []F{{"msgId", 10, B, ""}, {"status", 4, U, ""}}
	smgpDeliver = []F{{"msgId", 10, B, ""}, {"isReport", 1, U, ""}, {"fmt", 1, U, ""}, {"recvTime", 14, S, ""}, {"src", 21, S, ""}, {"dest", 21, S, ""},
		{"len", 1, U, ""}, {"content", 0, C, "len"}, {"reserve", 8, Z, ""}}
)

// smgpReport lays out the text form of a status report.
func smgpReport(id []byte, sub, dlvrd, submit, done, stat, err string) []byte {
	p := append([]byte("id:"), id...)
	p = append(p, fmt.Sprintf(" sub:%s dlvrd:%s submit date:%s done date:%s stat:%s err:%s text:", sub, dlvrd, submit, done, stat, err)...)
	return append(p, make([]byte, 20)...)
}

func smgpDeliverGet(p codec.Pdu) map[string]any {
	q := p.(*smgp.Delivery)
	return map[string]any{"msgId": q.MsgId(), "fmt": q.MsgFormat(), "recvTime": q.RecvTime(), "src": q.SrcTermID(), "dest": q.DestTermID(), "len": q.MsgLength(), "content": q.MsgContent(), "report": q.IsReport()}
}

func smgpSubmitGet(p codec.Pdu) map[string]any {
	q := p.(*smgp.Submit)
	return map[string]any{"msgType": q.MsgType(), "needReport": q.NeedReport(), "priority": q.Priority(), "serviceId": q.ServiceID(), "feeType": q.FeeType(),
		"feeCode": q.FeeCode(), "fixedFee": q.FixedFee(), "fmt": q.MsgFormat(), "validTime": q.ValidTime(), "atTime": q.AtTime(), "src": q.SrcTermID(),
		"charge": q.ChargeTermID(), "count": q.DestTermIDCount(), "dests": q.DestTermID(), "len": q.MsgLength(), "content": q.MsgContent(), "reserve": q.Reserve()}
}

func smgpSpecs() []*pduSpec {
	return []*pduSpec{
		{name: "smgp login", cmd: tLogin, fs: smgpLogin, mk: func() codec.Pdu { return &smgp.Login{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*smgp.Login)
			return map[string]any{"clientId": q.ClientID(), "auth": q.AuthenticatorClient(), "mode": q.LoginMode(), "ts": q.Timestamp(), "version": uint8(q.Version)}
		}},
		{name: "smgp login resp", cmd: tLoginR, fs: smgpLoginR, mk: func() codec.Pdu { return &smgp.LoginRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*smgp.LoginRsp)
			return map[string]any{"status": uint32(q.Status()), "auth": q.AuthenticatorServer(), "version": uint8(q.Version)}
		}},
		{name: "smgp submit", cmd: tSubmit, fs: smgpSubmit, mk: func() codec.Pdu { return &smgp.Submit{} }, maxC: 255, maxL: 100, reenc: true, get: smgpSubmitGet},
		{name: "smgp submit resp", cmd: tSubmitR, fs: smgpRsp, mk: func() codec.Pdu { return &smgp.SubmitRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*smgp.SubmitRsp)
			return map[string]any{"msgId": q.MsgId(), "status": uint32(q.Status())}
		}},
		{name: "smgp deliver resp", cmd: tDeliverR, fs: smgpRsp, mk: func() codec.Pdu { return &smgp.DeliverRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*smgp.DeliverRsp)
			return map[string]any{"hexMsgId": q.MsgId(), "status": uint32(q.Status())}
		}, exp: func(v Vals, m map[string]any) { m["hexMsgId"] = hx([]byte(m["msgId"].(string))); delete(m, "msgId") }},
		{name: "smgp deliver", cmd: tDeliver, fs: smgpDeliver, mk: func() codec.Pdu { return &smgp.Delivery{} }, maxC: 255, get: smgpDeliverGet,
			skip: set("isReport"), fixed: map[string]uint64{"isReport": 0}, exp: func(v Vals, m map[string]any) { m["report"] = "false" }},
		{name: "smgp active test", cmd: tActive, mk: func() codec.Pdu { return &smgp.ActiveTest{} }, reenc: true},
		{name: "smgp active test resp", cmd: tActiveR, mk: func() codec.Pdu { return &smgp.ActiveTestRsp{} }, reenc: true},
		{name: "smgp exit", cmd: tExit, mk: func() codec.Pdu { return &smgp.Exit{} }, reenc: true},
		{name: "smgp exit resp", cmd: tExitR, mk: func() codec.Pdu { return &smgp.ExitRsp{} }, reenc: true},
	}
}

func smgpSubmitRef(c mtCase, now time.Time, piece []byte) Vals {
	a := c.ac
	v := Vals{"msgType": u(6), "needReport": u(uint64(a.NeedReport)), "priority": u(uint64(a.DefaultMsgLevel)), "serviceId": s(a.ServiceId), "feeType": s(a.FeeType),
		"feeCode": s(a.FeeCode), "fixedFee": s(a.FixedFee), "fmt": u(15), "validTime": s(stamp(now.Add(a.MtValidDuration))), "atTime": s(c.o.AtTime),
		"src": s(a.SmsDisplayNo + c.o.SpSubNo), "charge": s(a.FeeTerminalId), "dests": l(c.phones...), "content": b(piece)}
	override(v, c.o, map[string]string{"NeedReport": "needReport", "MsgLevel": "priority", "ServiceId": "serviceId", "ValidTime": "validTime"})
	return v
}

func tlv(tag uint16, val ...byte) []byte {
	return append(append(put(uint64(tag), 2), put(uint64(len(val)), 2)...), val...)
}

func checkSmgpSubmit(r *lib.R, c mtCase) {
	codec.B32Seq = &counter32{n: 1000}
	key := fmt.Sprintf("smgp NewSubmit %s", c)
	r.Case(key)
	now := time.Now()
	r.Guard(key, func() any { return c.String() }, func() {
		ms := smgp.NewSubmit(c.ac, c.phones, c.text, c.seq, c.opts...)
		pl := gb(c.text)
		var frames [][]byte
		for _, m := range ms {
			frames = append(frames, m.Encode())
		}
		ref := byte(0)
		if len(pl) >= 140 && len(frames) > 0 && len(frames[0]) > 168 {
			ref = frames[0][len(frames[0])-20-8-140+3]
		}
		want := segments(pl, 140, ref)
		if len(want) != len(frames) {
			r.Fail("smgp number of segments", map[string]any{"case": key, "want": len(want), "got": len(frames)})
		}
		for i, w := range want {
			v := smgpSubmitRef(c, now, w)
			fix(smgpSubmit, v)
			seq := c.seq
			if i > 0 {
				seq = 1000 + uint32(i)
			}
			body := encode(smgpSubmit, v)
			if len(want) > 1 {
				for _, t := range [][]byte{tlv(1, 0), tlv(2, 1), tlv(9, byte(len(want))), tlv(10, byte(i+1))} {
					body = append(body, t...)
				}
			}
			mustEqual(r, "smgp submit encoding", fmt.Sprint(key, " segment ", i), packet12(tSubmit, seq, body), frames[i])
			q := &smgp.Submit{}
			if err := q.Decode(seq, frames[i][12:]); err != nil {
				r.Fail("smgp submit does not decode what it encoded", map[string]any{"case": key, "err": err.Error()})
			}
			if len(want) > 1 {
				for tag, val := range map[uint16]byte{1: 0, 2: 1, 9: byte(len(want)), 10: byte(i + 1)} {
					o, err := q.TlvList().Get(tag)
					if err != nil || o.Length() != 1 || o.Value()[0] != val {
						r.Fail("smgp submit optional parameter", map[string]any{"case": key, "tag": tag, "want": val})
					}
				}
			}
		}
	})
}

func smgpCases(r *lib.R) (out []mtCase) {
	for _, c := range mtCases(r, 0x30, 100) {
		if p := gb(c.text); len(p) == 140 || len(p) >= 255*134 {
			continue
		}
		c.o = noOptions
		out = append(out, c)
	}
	return
}

// P03: SMGP packets carry every field at the place and width the protocol gives it, both ways.
func P03(r *lib.R) {
	codec.BcdSeq = &counterBcd{}
	for _, p := range smgpSpecs() {
		p.check(r)
	}
	for _, c := range smgpCases(r) {
		checkSmgpSubmit(r, c)
	}
	smgpTlvs(r)
	for _, n := range []time.Duration{0, 11 * time.Hour, 20 * 24 * time.Hour, 364*24*time.Hour + 23*time.Hour + 59*time.Minute + 59*time.Second} {
		time.Sleep(n)
		for _, ver := range []uint8{0x13, 0x20, 0x30} {
			for _, a := range accounts(ver) {
				if len(a.ac.ClientId) > 8 {
					continue
				}
				key := fmt.Sprintf("smgp%x NewLogin %s %s", ver, a.what, time.Now().Format("0102150405"))
				r.Case(key)
				r.Guard(key, func() any { return key }, func() {
					ts := time.Now().Format("0102150405")
					var n uint64
					fmt.Sscanf(ts, "%d", &n)
					v := Vals{"clientId": s(a.ac.ClientId), "auth": b(md5sum(a.ac.ClientId, string(make([]byte, 7)), a.ac.SharedSecret, ts)), "mode": u(2), "ts": u(n), "version": u(uint64(ver))}
					mustEqual(r, "smgp login encoding", key, packet12(tLogin, 9, encode(smgpLogin, v)), smgp.NewLogin(a.ac, 9).Encode())
				})
			}
		}
	}
	del := func(a *codec.AuthConf, what, phone, dest, msg string, seq uint32) {
		key := fmt.Sprintf("smgp NewDeliver %s %q %q %q %d", what, phone, dest, msg, seq)
		r.Case(key)
		r.Guard(key, func() any { return key }, func() {
			bcd := &counterBcd{n: 7}
			codec.BcdSeq = bcd
			f := smgp.NewDeliver(a, phone, dest, msg, seq).Encode()
			rs := []rune(msg)
			if len(rs) > 70 {
				rs = rs[:70]
			}
			for len(gb(string(rs))) > 140 {
				rs = rs[:len(rs)-1]
			}
			v := Vals{"msgId": b([]byte{0x12, 0x34, 0x56, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 8}), "fmt": u(15), "recvTime": s(time.Now().Format("20060102150405")),
				"src": s(phone), "dest": s(a.SmsDisplayNo + dest), "content": b(gb(string(rs)))}
			fix(smgpDeliver, v)
			mustEqual(r, "smgp deliver encoding", key, packet12(tDeliver, seq, encode(smgpDeliver, v)), f)
			d := &smgp.Delivery{}
			if err := d.Decode(seq, f[12:]); err != nil {
				r.Fail("smgp deliver does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			m := expect(smgpDeliver, v)
			m["content"], m["report"] = string(rs), "false"
			if bad := same(m, normMap(smgpDeliverGet(d))); len(bad) > 0 {
				r.Fail("smgp deliver decoding", map[string]any{"case": key, "frame": hx(f), "differs": bad})
			}
		})
	}
	ac := account(0x30)
	for _, cl := range []string{"ascii", "cjk", "mixed", "latin", "emoji"} {
		for n := 0; n <= 160; n++ {
			del(ac, "text "+cl, "13300001111", "01", text(cl, n), 5)
		}
	}
	for w := 0; w <= 34; w++ {
		del(ac, "phone", string(pattern("p", w)), "01", "hello", 6)
		del(ac, "dest", "13300001111", string(pattern("q", w)), "hello", 6)
		if p := []string{"95566", "9556601", "66", "955", "5566"}; w < len(p) {
			del(ac, "dest", "13300001111", p[w], "hello", 6) // an extension that looks like the number itself
		}
	}
	for _, a := range accounts(0x30) {
		del(a.ac, "account "+a.what, "13300001111", "01", "hello", 8)
	}
	for _, q := range seqDomain {
		del(ac, "sequence", "13300001111", "01", "hello", q)
		mustEqual(r, "smgp exit", q, packet12(tExit, q, nil), smgp.NewExit(q).Encode())
		mustEqual(r, "smgp active test", q, packet12(tActive, q, nil), smgp.NewActiveTest(q).Encode())
		h := &smgp.MessageHeader{PacketLength: 40, RequestId: smgp.SMGP_SUBMIT, SequenceId: q}
		f := h.Encode()
		g := &smgp.MessageHeader{}
		mustEqual(r, "smgp header", q, packet12(tSubmit, q, make([]byte, 28)), f)
		if err := g.Decode(f); err != nil || *g != *h {
			r.Fail("smgp header round trip", q)
		}
	}
	smgpReports(r)
	r.Sample("NewLogin(account): " + hx(smgp.NewLogin(ac, 1).Encode()))
}

// smgpTlvs: optional parameters behind a submission, decoded and encoded again.
func smgpTlvs(r *lib.R) {
	var tail func(depth int, acc []byte, ex []string)
	tags := []uint16{1, 2, 9, 10, 0x10}
	vals := [][]byte{{}, {0}, {0xff}, {1, 2}, pattern("v", 20)}
	tail = func(depth int, acc []byte, ex []string) {
		v := base(smgpSubmit)
		fix(smgpSubmit, v)
		frame := packet12(tSubmit, 3, append(encode(smgpSubmit, v), acc...))
		key := "smgp submit with options " + hx(acc)
		r.Case(key)
		r.Guard(key, func() any { return hx(frame) }, func() {
			q := &smgp.Submit{}
			if err := q.Decode(3, present(frame[12:], len(acc)%2 == 1)); err != nil {
				r.Fail("smgp submit with options does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			if bad := same(expect(smgpSubmit, v), normMap(smgpSubmitGet(q))); len(bad) > 0 {
				r.Fail("smgp submit with options", map[string]any{"case": key, "differs": bad})
			}
			n := int32(0)
			if q.TlvList() != nil {
				n = q.TlvList().Length()
			}
			if int(n) != len(ex) {
				r.Fail("smgp submit number of options", map[string]any{"case": key, "want": len(ex), "got": n})
			}
			for _, t := range tags {
				var want, got []string
				for _, e := range ex {
					if e[:4] == fmt.Sprintf("%04x", t) {
						want = append(want, e[4:])
					}
				}
				if q.TlvList() != nil {
					for _, o := range q.TlvList().GetAll(t) {
						got = append(got, hx(o.Value()))
					}
				}
				if fmt.Sprint(want) != fmt.Sprint(got) {
					r.Fail("smgp submit options", map[string]any{"case": key, "tag": t, "want": want, "got": got})
				}
			}
			mustEqual(r, "smgp submit with options re-encoding", key, frame, q.Encode())
		})
		if depth == 0 {
			return
		}
		for _, t := range tags {
			for _, x := range vals {
				tail(depth-1, append(append([]byte(nil), acc...), tlv(t, x...)...), append(append([]string(nil), ex...), fmt.Sprintf("%04x", t)+hx(x)))
			}
		}
	}
	tail(r.Pick(2, 3), nil, nil)
}

func smgpReports(r *lib.R) {
	ids := [][]byte{make([]byte, 10), {0, 0x12, 0x34, 0, 0xff, 0x20, 0x3a, 0x99, 0x80, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x12, 0x34, 0x56, 0x07, 0x31, 0x23, 0x59, 0x99, 0x99, 0x99}}
	check := func(key string, rep *smgp.Report, id []byte, sub, dlvrd, submit, done, stat string) {
		if rep == nil || hx(rep.Id()) != hx(id) || rep.Sub() != sub || rep.Dlvrd() != dlvrd || rep.SubmitDate() != submit || rep.DoneDate() != done || rep.Stat() != stat {
			r.Fail("smgp report decoding", map[string]any{"case": key, "report": fmt.Sprint(rep)})
		}
	}
	// decoding, from the reference layout
	for i, id := range ids {
		for _, st := range []string{"DELIVRD", "EXPIRED", "UNDELIV", "UNKNOWN", "       "} {
			for _, num := range []string{"001", "000", "999"} {
				rp := smgpReport(id, num, "0"+num[1:], "2311301259", "2312010001", st, "0"+num[:2])
				v := base(smgpDeliver)
				v["isReport"], v["content"], v["fmt"] = u(1), b(rp), u(0)
				fix(smgpDeliver, v)
				frame := packet12(tDeliver, 3, encode(smgpDeliver, v))
				key := fmt.Sprintf("smgp report id %d stat %s num %s", i, st, num)
				r.Case(key)
				r.Guard(key, func() any { return hx(frame) }, func() {
					q := &smgp.Delivery{}
					if err := q.Decode(3, frame[12:]); err != nil || !q.IsReport() {
						r.Fail("smgp report delivery does not decode", map[string]any{"case": key, "frame": hx(frame), "err": fmt.Sprint(err)})
					}
					check(key, q.Report(), id, num, "0"+num[1:], "2311301259", "2312010001", st)
					m := smgpDeliverGet(q)
					delete(m, "content")
					if bad := same(expect(smgpDeliver, v), normMap(m)); len(bad) > 0 {
						r.Fail("smgp report delivery", map[string]any{"case": key, "differs": bad})
					}
					mustEqual(r, "smgp report re-encoding", key, rp, q.Report().Encode())
				})
			}
		}
	}
	// the report a gateway builds for a submission, in every second of a thousand
	for i := 0; i < 1010; i++ {
		for _, id := range ids {
			c := mtCase{ac: account(0x30), phones: phones(1+i%3, 21), text: "hello", seq: 4, o: noOptions}
			if i%4 == 3 {
				c.phones[0] = string(pattern("dst", 21))
			}
			num := c.ac.SmsDisplayNo
			if i/4%2 == 1 {
				c.o.SpSubNo = "0123"
				num += "0123"
			}
			key := fmt.Sprintf("smgp NewDeliveryReport second %d id %x", i, id)
			r.Case(key)
			r.Guard(key, func() any { return key }, func() {
				sv := smgpSubmitRef(c, time.Now(), []byte("hello"))
				fix(smgpSubmit, sv)
				sub := &smgp.Submit{}
				if err := sub.Decode(4, encode(smgpSubmit, sv)); err != nil {
					r.Fail("smgp submit does not decode", err.Error())
				}
				codec.BcdSeq = &counterBcd{n: 9}
				f := smgp.NewDeliveryReport(c.ac, sub, uint32(i), id).Encode()
				q := &smgp.Delivery{}
				if len(f) < 12+69+122 {
					r.Fail("smgp report delivery is short", map[string]any{"case": key, "frame": hx(f)})
				}
				if err := q.Decode(uint32(i), f[12:]); err != nil || !q.IsReport() {
					r.Fail("smgp report delivery does not decode", map[string]any{"case": key, "frame": hx(f), "err": fmt.Sprint(err)})
				}
				stat := q.Report().Stat()
				now := time.Now()
				check(key, q.Report(), id, "001", "001", now.Format("0601021504"), now.Add(time.Minute).Format("0601021504"), stat)
				ec := string(f[12+69+93 : 12+69+96])
				if smgpStat[ec] != stat {
					r.Fail("smgp report error and state disagree", map[string]any{"case": key, "error": ec, "state": stat})
				}
				v := Vals{"msgId": b([]byte{0x12, 0x34, 0x56, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 10}), "isReport": u(1), "recvTime": s(now.Format("20060102150405")),
					"src": s(c.phones[0]), "dest": s(num), "content": b(smgpReport(id, "001", "001", now.Format("0601021504"), now.Add(time.Minute).Format("0601021504"), stat, ec))}
				fix(smgpDeliver, v)
				mustEqual(r, "smgp report delivery encoding", key, packet12(tDeliver, uint32(i), encode(smgpDeliver, v)), f)
			})
		}
		time.Sleep(time.Second)
	}
}

// smgpStat is the table of final states by error code.
var smgpStat = map[string]string{"000": "DELIVRD", "001": "EXPIRED", "002": "EXPIRED", "003": "UNDELIV", "004": "UNDELIV", "005": "UNDELIV",
	"006": "UNDELIV", "007": "EXPIRED", "008": "UNDELIV", "009": "UNDELIV", "010": "UNDELIV", "999": "UNKNOWN"}
