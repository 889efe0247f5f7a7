package codecs

import (
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
)

const (
	cConnect, cConnectR     = 1, 0x80000001
	cTerminate, cTerminateR = 2, 0x80000002
	cSubmit, cSubmitR       = 4, 0x80000004
	cDeliver, cDeliverR     = 5, 0x80000005
	cActive, cActiveR       = 8, 0x80000008
)

func v3(v uint8) bool { return v&0xf0 == 0x30 }

func cmppConnect() []F {
	return []F{{"clientId", 6, S, ""}, {"auth", 16, B, ""}, {"version", 1, U, ""}, {"ts", 4, U, ""}}
}

func cmppConnectR(ver uint8) []F {
	w := 1
	if v3(ver) {
		w = 4
	}
	return []F{{"status", w, U, ""}, {"auth", 16, B, ""}, {"version", 1, U, ""}}
}

func cmppSubmit(ver uint8) []F {
	t := 21
	if v3(ver) {
		t = 32
	}
	fs := []F{{"msgId", 8, U, ""}, {"pkTotal", 1, U, ""}, {"pkNumber", 1, U, ""}, {"needReport", 1, U, ""}, {"level", 1, U, ""},
		{"serviceId", 10, S, ""}, {"feeUserType", 1, U, ""}, {"feeTerm", t, S, ""}}
	if v3(ver) {
		fs = append(fs, F{"feeTermType", 1, U, ""})
	}
	fs = append(fs, []F{{"tpPid", 1, U, ""}, {"tpUdhi", 1, U, ""}, {"fmt", 1, U, ""}, {"msgSrc", 6, S, ""}, {"feeType", 2, S, ""},
		{"feeCode", 6, S, ""}, {"validTime", 17, S, ""}, {"atTime", 17, S, ""}, {"srcId", 21, S, ""},
		{"count", 1, U, ""}, {"dests", t, L, "count"}}...)
	if v3(ver) {
		fs = append(fs, F{"destType", 1, U, ""})
	}
	fs = append(fs, F{"len", 1, U, ""}, F{"content", 0, C, "len"})
	if v3(ver) {
		return append(fs, F{"linkId", 20, S, ""})
	}
	return append(fs, F{"reserve", 8, Z, ""})
}

func cmppSubmitR(ver uint8) []F {
	w := 1
	if v3(ver) {
		w = 4
	}
	return []F{{"msgId", 8, U, ""}, {"result", w, U, ""}}
}

func cmppDeliver(ver uint8) []F {
	t := 21
	if v3(ver) {
		t = 32
	}
	fs := []F{{"msgId", 8, U, ""}, {"destId", 21, S, ""}, {"serviceId", 10, S, ""}, {"tpPid", 1, U, ""}, {"tpUdhi", 1, U, ""}, {"fmt", 1, U, ""},
		{"srcTerm", t, S, ""}}
	if v3(ver) {
		fs = append(fs, F{"srcTermType", 1, U, ""})
	}
	fs = append(fs, F{"isReport", 1, U, ""}, F{"len", 1, U, ""}, F{"content", 0, C, "len"})
	if v3(ver) {
		return append(fs, F{"linkId", 20, S, ""})
	}
	return append(fs, F{"reserve", 8, Z, ""})
}

func cmppReport(ver uint8) []F {
	t := 21
	if v3(ver) {
		t = 32
	}
	return []F{{"msgId", 8, U, ""}, {"stat", 7, S, ""}, {"submitTime", 10, S, ""}, {"doneTime", 10, S, ""}, {"dest", t, S, ""}, {"smsc", 4, U, ""}}
}

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func cmppSpecs(ver uint8) []*pduSpec {
	cv := cmpp.Version(ver)
	tag := "cmpp2 "
	if v3(ver) {
		tag = "cmpp3 "
	}
	term := 21
	if v3(ver) {
		term = 32
	}
	rfs := cmppReport(ver)
	rpt := encode(rfs, base(rfs))
	specs := []*pduSpec{
		{name: tag + "submit", cmd: cSubmit, fs: cmppSubmit(ver), mk: func() codec.Pdu { return &cmpp.Submit{Version: cv} }, maxC: 255, maxL: 99,
			// a message id in a submission carries no meaning: the gateway assigns it; segments have their own property
			skip: set("msgId"), fixed: map[string]uint64{"msgId": 0}, reenc: true,
			get: func(p codec.Pdu) map[string]any {
				q := p.(*cmpp.Submit)
				m := map[string]any{"pkTotal": q.PkTotal(), "pkNumber": q.PkNumber(), "needReport": q.RegisteredDel(), "level": q.MsgLevel(),
					"serviceId": q.ServiceId(), "feeUserType": q.FeeUsertype(), "feeTerm": q.FeeTerminalId(), "tpPid": q.TpPid(),
					"tpUdhi": q.TpUdhi(), "fmt": q.MsgFmt(), "msgSrc": q.MsgSrc(), "feeType": q.FeeType(), "feeCode": q.FeeCode(),
					"validTime": q.ValidTime(), "atTime": q.AtTime(), "srcId": q.SrcId(), "count": q.DestUsrTl(), "rawDests": q.TermIds(),
					"firstDest": q.DestTerminalId(), "len": q.MsgLength(), "content": q.MsgContent()}
				if v3(ver) {
					m["feeTermType"], m["destType"], m["linkId"] = q.FeeTerminalType(), q.DestTerminalType(), q.LinkID()
				}
				return m
			},
			exp: func(v Vals, m map[string]any) {
				var raw []byte
				for _, e := range v["dests"].L {
					c := make([]byte, term)
					copy(c, e)
					raw = append(raw, c...)
				}
				m["rawDests"] = string(raw)
				delete(m, "dests")
				// only the first destination is looked at, and only when there is one
				if n := len(v["dests"].L); n >= 1 && len(v["dests"].L[0]) < term {
					m["firstDest"] = string(v["dests"].L[0])
				}
			}},
		{name: tag + "submit resp", cmd: cSubmitR, fs: cmppSubmitR(ver), mk: func() codec.Pdu { return &cmpp.SubmitRsp{Version: cv} }, reenc: true,
			get: func(p codec.Pdu) map[string]any {
				q := p.(*cmpp.SubmitRsp)
				return map[string]any{"msgId": q.MsgId(), "result": q.Result()}
			}},
		{name: tag + "deliver resp", cmd: cDeliverR, fs: cmppSubmitR(ver), mk: func() codec.Pdu { return &cmpp.DeliveryRsp{Version: cv} }, reenc: true},
		{name: tag + "deliver", cmd: cDeliver, fs: cmppDeliver(ver), mk: func() codec.Pdu { return &cmpp.Delivery{Version: cv} }, maxC: 255, reenc: true,
			// reports and UCS2 text are decoded further and have cases of their own
			skip: set("isReport", "fmt"), fixed: map[string]uint64{"isReport": 0, "fmt": 15}, get: cmppDeliverGet(ver), exp: func(v Vals, m map[string]any) { m["report"] = "false" }},
		{name: tag + "deliver report", cmd: cDeliver, fs: cmppDeliver(ver), mk: func() codec.Pdu { return &cmpp.Delivery{Version: cv} }, maxC: 1, reenc: true,
			skip: set("isReport", "content"), fixed: map[string]uint64{"isReport": 1}, fixedV: map[string]Val{"content": b(rpt)},
			get: func(p codec.Pdu) map[string]any {
				m := cmppDeliverGet(ver)(p)
				m["content"] = string(p.(*cmpp.Delivery).Report().Encode())
				return m
			}, exp: func(v Vals, m map[string]any) { m["report"], m["content"] = "true", string(rpt) }},
		{name: tag + "deliver ucs2", cmd: cDeliver, fs: cmppDeliver(ver), mk: func() codec.Pdu { return &cmpp.Delivery{Version: cv} }, maxC: 1, reenc: true,
			skip: set("isReport", "fmt", "content"), fixed: map[string]uint64{"isReport": 0, "fmt": 8}, fixedV: map[string]Val{"content": b(ucs2("你好, €𝄞"))},
			get: cmppDeliverGet(ver), exp: func(v Vals, m map[string]any) { m["report"], m["content"] = "false", "你好, €𝄞" }},
		{name: tag + "connect resp", cmd: cConnectR, fs: cmppConnectR(ver), mk: func() codec.Pdu { return &cmpp.ConnectResp{Version: cv} }, reenc: true,
			skip: set("status", "version"), fixed: map[string]uint64{"status": 2, "version": uint64(ver)}, get: func(p codec.Pdu) map[string]any {
				q := p.(*cmpp.ConnectResp)
				return map[string]any{"status": uint8(q.Status()), "auth": q.AuthenticatorISMG(), "version": uint8(q.Version)}
			}},
	}
	return append(specs,
		&pduSpec{name: tag + "connect", cmd: cConnect, fs: cmppConnect(), mk: func() codec.Pdu { return &cmpp.Connect{} }, reenc: true,
			get: func(p codec.Pdu) map[string]any {
				q := p.(*cmpp.Connect)
				return map[string]any{"clientId": q.SourceAddr(), "auth": q.AuthenticatorSource(), "version": uint8(q.Version), "ts": q.Timestamp()}
			}},
		&pduSpec{name: tag + "terminate", cmd: cTerminate, mk: func() codec.Pdu { return &cmpp.Terminate{} }, reenc: true},
		&pduSpec{name: tag + "terminate resp", cmd: cTerminateR, mk: func() codec.Pdu { return &cmpp.TerminateRsp{} }, reenc: true},
		&pduSpec{name: tag + "active test", cmd: cActive, mk: func() codec.Pdu { return &cmpp.ActiveTest{} }, reenc: true},
		&pduSpec{name: tag + "active test resp", cmd: cActiveR, fs: []F{{"reserve", 1, Z, ""}}, mk: func() codec.Pdu { return &cmpp.ActiveTestRsp{} }, reenc: true},
	)
}

func cmppDeliverGet(ver uint8) func(p codec.Pdu) map[string]any {
	return func(p codec.Pdu) map[string]any {
		q := p.(*cmpp.Delivery)
		m := map[string]any{"msgId": q.MsgId(), "destId": q.DestId(), "serviceId": q.ServiceId(), "tpPid": q.TpPid(), "tpUdhi": q.TpUdhi(),
			"fmt": q.MsgFmt(), "srcTerm": q.SrcTerminalId(), "len": q.MsgLength(), "content": q.MsgContent(), "report": q.IsReport()}
		if v3(ver) {
			m["srcTermType"], m["linkId"] = q.SrcTerminalType(), q.LinkID()
		}
		return m
	}
}
