package codecs

import (
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"

	"verif/mc/lib"
)

const (
	sBind, sBindR       = 1, 0x80000001
	sUnbind, sUnbindR   = 2, 0x80000002
	sSubmit, sSubmitR   = 3, 0x80000003
	sDeliver, sDeliverR = 4, 0x80000004
	sReport, sReportR   = 5, 0x80000005
)

var (
	sgipBind   = []F{{"loginType", 1, U, ""}, {"loginName", 16, S, ""}, {"password", 16, S, ""}, {"reserve", 8, Z, ""}}
	sgipBindR  = []F{{"status", 1, U, ""}, {"reserve", 8, Z, ""}}
	sgipRsp    = []F{{"status", 1, U, ""}, {"reserve", 8, Z, ""}}
	sgipSubmit = []F{{"spNumber", 21, S, ""}, {"chargeNumber", 21, S, ""}, {"count", 1, U, ""}, {"dests", 21, L, "count"},
		{"corpId", 5, S, ""}, {"serviceType", 10, S, ""}, {"feeType", 1, U, ""}, {"feeValue", 6, S, ""}, {"givenValue", 6, S, ""},
		{"agentFlag", 1, U, ""}, {"moreLate", 1, U, ""}, {"priority", 1, U, ""}, {"expire", 16, S, ""}, {"schedule", 16, S, ""},
		{"reportFlag", 1, U, ""}, {"tpPid", 1, U, ""}, {"tpUdhi", 1, U, ""}, {"coding", 1, U, ""}, {"msgType", 1, U, ""},
		{"len", 4, U, ""}, {"content", 0, C, "len"}, {"reserve", 8, Z, ""}}
	sgipDeliver = []F{{"user", 21, S, ""}, {"spNumber", 21, S, ""}, {"tpPid", 1, U, ""}, {"tpUdhi", 1, U, ""}, {"coding", 1, U, ""},
		{"len", 4, U, ""}, {"content", 0, C, "len"}, {"reserve", 8, Z, ""}}
	sgipReport = []F{{"mt0", 4, U, ""}, {"mt1", 4, U, ""}, {"mt2", 4, U, ""}, {"reportType", 1, U, ""}, {"user", 21, S, ""},
		{"state", 1, U, ""}, {"errorCode", 1, U, ""}, {"reserve", 8, Z, ""}}
)

func sgipSpecs() []*pduSpec {
	return []*pduSpec{
		{name: "sgip bind", cmd: sBind, fs: sgipBind, sgip: true, mk: func() codec.Pdu { return &sgip.Bind{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*sgip.Bind)
			return map[string]any{"loginType": q.LoginType, "loginName": q.LoginName, "password": q.LoginPassword}
		}},
		{name: "sgip bind resp", cmd: sBindR, fs: sgipBindR, sgip: true, mk: func() codec.Pdu { return &sgip.BindRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			return map[string]any{"status": uint8(p.(*sgip.BindRsp).Status)}
		}},
		{name: "sgip submit", cmd: sSubmit, fs: sgipSubmit, sgip: true, mk: func() codec.Pdu { return &sgip.Submit{} }, reenc: true, maxC: 300, maxL: 100, get: func(p codec.Pdu) map[string]any {
			q := p.(*sgip.Submit)
			return map[string]any{"spNumber": q.SPNumber, "chargeNumber": q.ChargeNumber, "count": q.UserCount, "dests": q.UserNumber, "corpId": q.CorpId,
				"serviceType": q.ServiceType, "feeType": q.FeeType, "feeValue": q.FeeValue, "givenValue": q.GivenValue, "agentFlag": q.AgentFlag,
				"moreLate": q.MorelatetoMTFlag, "priority": q.Priority, "expire": q.ExpireTime, "schedule": q.ScheduleTime, "reportFlag": q.ReportFlag,
				"tpPid": q.TpPid, "tpUdhi": q.TpUdhi, "coding": q.MessageCoding, "msgType": q.MessageType, "len": q.MessageLength, "content": q.MessageContent}
		}},
		{name: "sgip submit resp", cmd: sSubmitR, fs: sgipRsp, sgip: true, mk: func() codec.Pdu { return &sgip.SubmitRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			return map[string]any{"status": uint8(p.(*sgip.SubmitRsp).Status)}
		}},
		{name: "sgip deliver", cmd: sDeliver, fs: sgipDeliver, sgip: true, mk: func() codec.Pdu { return &sgip.Deliver{} }, reenc: true, maxC: 300, get: func(p codec.Pdu) map[string]any {
			q := p.(*sgip.Deliver)
			return map[string]any{"user": q.UserNumber, "spNumber": q.SPNumber, "tpPid": q.TpPid, "tpUdhi": q.TpUdhi, "coding": q.MessageCoding, "len": q.MessageLength, "content": q.MessageContent}
		}},
		{name: "sgip deliver resp", cmd: sDeliverR, fs: sgipRsp, sgip: true, mk: func() codec.Pdu { return &sgip.DeliverRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			return map[string]any{"status": uint8(p.(*sgip.DeliverRsp).Status)}
		}},
		{name: "sgip report", cmd: sReport, fs: sgipReport, sgip: true, mk: func() codec.Pdu { return &sgip.Report{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			q := p.(*sgip.Report)
			return map[string]any{"mt0": q.MtSequence[0], "mt1": q.MtSequence[1], "mt2": q.MtSequence[2], "reportType": q.ReportType, "user": q.UserNumber,
				"state": uint8(q.State), "errorCode": q.ErrorCode}
		}},
		{name: "sgip report resp", cmd: sReportR, fs: sgipRsp, sgip: true, mk: func() codec.Pdu { return &sgip.ReportRsp{} }, reenc: true, get: func(p codec.Pdu) map[string]any {
			return map[string]any{"status": uint8(p.(*sgip.ReportRsp).Status)}
		}},
		{name: "sgip unbind", cmd: sUnbind, sgip: true, mk: func() codec.Pdu { return &sgip.Unbind{} }, reenc: true},
		{name: "sgip unbind resp", cmd: sUnbindR, sgip: true, mk: func() codec.Pdu { return &sgip.UnbindRsp{} }, reenc: true},
	}
}

const sgipNode = 30001

// sgipSeq reads the sequence number of a frame and checks the parts that are fixed.
func sgipSeq(r *lib.R, key string, frame []byte, seen map[string]bool) []uint32 {
	if len(frame) < 20 {
		r.Fail("sgip frame shorter than its header", map[string]any{"case": key, "frame": hx(frame)})
	}
	var q []uint32
	for i := 8; i < 20; i += 4 {
		q = append(q, uint32(frame[i])<<24|uint32(frame[i+1])<<16|uint32(frame[i+2])<<8|uint32(frame[i+3]))
	}
	var ts uint32
	fmt.Sscanf(time.Now().Format("0102150405"), "%d", &ts)
	if q[0] != sgipNode || q[1] != ts {
		r.Fail("sgip sequence number parts", map[string]any{"case": key, "sequence": fmt.Sprint(q), "want node": sgipNode, "want time": ts})
	}
	if k := fmt.Sprint(q); seen != nil {
		if seen[k] {
			r.Fail("sgip sequence number repeated", map[string]any{"case": key, "sequence": k})
		}
		seen[k] = true
	}
	return q
}

func sgipSubmitRef(c mtCase, now time.Time, total int, piece []byte, f uint8) Vals {
	a := c.ac
	v := Vals{"spNumber": s(a.SmsDisplayNo + c.o.SpSubNo), "dests": l(c.phones...), "corpId": s(a.ClientId), "serviceType": s(a.ServiceId),
		"moreLate": u(2), "priority": u(uint64(a.DefaultMsgLevel)), "expire": s(stamp(now.Add(a.MtValidDuration))), "schedule": s(c.o.AtTime),
		"reportFlag": u(uint64(a.NeedReport)), "tpUdhi": u(b2u(total > 1)), "coding": u(uint64(f)), "content": b(piece)}
	override(v, c.o, map[string]string{"NeedReport": "reportFlag", "MsgLevel": "priority", "ServiceId": "serviceType", "ValidTime": "expire"})
	return v
}

func checkSgipSubmit(r *lib.R, c mtCase) {
	key := fmt.Sprintf("sgip NewSubmit %s", c)
	r.Case(key)
	now := time.Now()
	r.Guard(key, func() any { return c.String() }, func() {
		ms := sgip.NewSubmit(c.ac, c.phones, c.text, c.opts...)
		pl, size, f := payload(c.text)
		var frames [][]byte
		for _, m := range ms {
			frames = append(frames, m.Encode())
		}
		ref := byte(0)
		if len(pl) >= size && len(frames) > 0 && len(frames[0]) > 8+size {
			ref = frames[0][len(frames[0])-8-size+3]
		}
		want := segments(pl, size, ref)
		if len(want) != len(frames) {
			r.Fail("sgip number of segments", map[string]any{"case": key, "want": len(want), "got": len(frames)})
		}
		seen := map[string]bool{}
		for i, w := range want {
			v := sgipSubmitRef(c, now, len(want), w, f)
			fix(sgipSubmit, v)
			seq := sgipSeq(r, key, frames[i], seen)
			mustEqual(r, "sgip submit encoding", fmt.Sprint(key, " segment ", i), packet20(sSubmit, seq, encode(sgipSubmit, v)), frames[i])
			if err := (&sgip.Submit{}).Decode(seq[0], frames[i][12:]); err != nil {
				r.Fail("sgip submit does not decode what it encoded", map[string]any{"case": key, "err": err.Error()})
			}
		}
	})
}

// sgipCases are the constructor calls with client ids of at most five characters, the width of the corporation id.
func sgipCases(r *lib.R) (out []mtCase) {
	for _, c := range mtCases(r, 0x12, 100) {
		if c.ac.ClientId == "901234" {
			c.ac.ClientId = "12345"
		}
		if len(c.ac.ClientId) <= 5 {
			c.o = noOptions
			out = append(out, c)
		}
	}
	return
}

// P02: SGIP packets carry every field at the place and width the protocol gives it, both ways.
func P02(r *lib.R) {
	sgip.NewSequencer(sgipNode, 0)
	for _, p := range sgipSpecs() {
		p.check(r)
	}
	for _, c := range sgipCases(r) {
		checkSgipSubmit(r, c)
	}
	seen := map[string]bool{}
	for _, n := range []time.Duration{0, 11 * time.Hour, 20 * 24 * time.Hour, 364*24*time.Hour + 23*time.Hour + 59*time.Minute + 59*time.Second} {
		time.Sleep(n)
		for _, a := range accounts(0x12) {
			if len(a.ac.LoginName) > 24 || len(a.ac.SharedSecret) > 24 {
				continue
			}
			for _, lt := range []byte{1, 2, 3, 255} {
				key := fmt.Sprintf("sgip NewBind %s type %d", a.what, lt)
				r.Case(key)
				r.Guard(key, func() any { return key }, func() {
					f := sgip.NewBind(a.ac, lt).Encode()
					v := Vals{"loginType": u(uint64(lt)), "loginName": s(a.ac.LoginName), "password": s(a.ac.SharedSecret)}
					mustEqual(r, "sgip bind encoding", key, packet20(sBind, sgipSeq(r, key, f, seen), encode(sgipBind, v)), f)
				})
			}
		}
		f := sgip.NewUnbind().Encode()
		mustEqual(r, "sgip unbind encoding", "unbind", packet20(sUnbind, sgipSeq(r, "unbind", f, seen), nil), f)
	}
	del := func(a *codec.AuthConf, what, phone, msg, dest string) {
		key := fmt.Sprintf("sgip NewDeliver %s %q %q %q", what, phone, msg, dest)
		r.Case(key)
		r.Guard(key, func() any { return key }, func() {
			f := sgip.NewDeliver(a, phone, msg, dest).Encode()
			to := dest
			if len(dest) < len(a.SmsDisplayNo) || dest[:len(a.SmsDisplayNo)] != a.SmsDisplayNo {
				to = a.SmsDisplayNo + dest
			}
			p, _, c := payload(msg)
			lim := 160
			if c == 8 {
				lim = 140
			}
			alt := p
			if len(p) > lim {
				alt = p[:lim]
				if c == 8 { // not ending in half a character is as good
					p = ucs2(utf16Cut(msg, 140))
				} else {
					p = p[:lim]
				}
			}
			seq := sgipSeq(r, key, f, seen)
			v := Vals{"user": s(phone), "spNumber": s(to), "coding": u(uint64(c)), "content": b(p)}
			fix(sgipDeliver, v)
			if diffBytes(packet20(sDeliver, seq, encode(sgipDeliver, v)), f) != "" {
				v["content"] = b(alt)
				fix(sgipDeliver, v)
				mustEqual(r, "sgip deliver encoding", key, packet20(sDeliver, seq, encode(sgipDeliver, v)), f)
			}
			d := &sgip.Deliver{}
			if err := d.Decode(seq[0], f[12:]); err != nil || d.UserNumber != cut([]byte(phone), 21) || d.SPNumber != cut([]byte(to), 21) || string(d.MessageContent) != string(v["content"].B) {
				r.Fail("sgip deliver decoding", map[string]any{"case": key, "frame": hx(f), "err": fmt.Sprint(err)})
			}
		})
	}
	ac := account(0x12)
	for _, cl := range []string{"ascii", "cjk", "mixed", "latin", "emoji"} {
		for n := 0; n <= 200; n++ {
			del(ac, "text "+cl, "8613300001111", text(cl, n), "01")
		}
	}
	for w := 0; w <= 34; w++ {
		del(ac, "phone", string(pattern("p", w)), "hello", "01")
		del(ac, "dest", "8613300001111", "hello", string(pattern("q", w)))
		del(ac, "full dest", "8613300001111", "hello", ac.SmsDisplayNo+string(pattern("q", w)))
		if w > 0 {
			del(ac, "dest within", "8613300001111", "hello", string(pattern("q", w))+ac.SmsDisplayNo)
		}
	}
	for _, a := range accounts(0x12) {
		del(a.ac, "account "+a.what, "8613300001111", "hello", "01")
	}
	// status reports
	for _, w := range []int{0, 1, 11, 20, 21, 22, 30} {
		for st := 0; st < 256; st++ {
			for _, code := range []int{0, 1, st, 255 - st} {
				key := fmt.Sprintf("sgip NewReport phone %d state %d code %d", w, st, code)
				r.Case(key)
				r.Guard(key, func() any { return key }, func() {
					p := string(pattern("u", w))
					mt := []uint32{uint32(st) << 24, 0xfffffff0 + uint32(code), 0x01020304}
					f := sgip.NewReport(p, mt, sgip.Status(st), byte(code)).Encode()
					v := Vals{"mt0": u(uint64(mt[0])), "mt1": u(uint64(mt[1])), "mt2": u(uint64(mt[2])), "user": s(p), "state": u(uint64(st)), "errorCode": u(uint64(code))}
					mustEqual(r, "sgip report encoding", key, packet20(sReport, sgipSeq(r, key, f, seen), encode(sgipReport, v)), f)
				})
			}
		}
	}
	for _, q := range seqDomain {
		h := &sgip.MessageHeader{PacketLength: 61, CommandId: sgip.SGIP_BIND, SequenceNumber: []uint32{q, q ^ 1, ^q}}
		f := h.Encode()
		g := &sgip.MessageHeader{}
		mustEqual(r, "sgip header", q, packet20(sBind, h.SequenceNumber, make([]byte, 41)), f)
		if err := g.Decode(f); err != nil || fmt.Sprint(*g) != fmt.Sprint(*h) {
			r.Fail("sgip header round trip", q)
		}
		if g.Sequence2Uint64() != uint64(q^1)<<32|uint64(^q) || g.Sequence2String() != fmt.Sprintf("%010d%010d%08x", q, q^1, ^q) {
			r.Fail("sgip sequence number in its printed forms", q)
		}
	}
	r.Sample("NewBind(account, 1): " + hx(sgip.NewBind(ac, 1).Encode()))
}
