package codecs

import (
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"

	"verif/mc/lib"
)

var cmppVersions = []uint8{0x20, 0x21, 0x30, 0x31, 0x3f}

// P01: CMPP packets carry every field at the place and width the protocol gives it, both ways.
func P01(r *lib.R) {
	codec.B64Seq = &counter64{}
	codec.B32Seq = &counter32{}
	for _, ver := range cmppVersions {
		for _, p := range cmppSpecs(ver) {
			p.check(r)
		}
		// connection responses: status occupies one or four octets, version decides which
		for st := 0; st < 256; st++ {
			for _, rv := range []uint8{ver, ver | 1} {
				v := Vals{"status": u(uint64(st)), "auth": b(pattern("auth", 16)), "version": u(uint64(rv))}
				frame := packet12(cConnectR, 77, encode(cmppConnectR(ver), v))
				key := fmt.Sprintf("cmpp%x connect resp status %d version %x", ver, st, rv)
				r.Case(key)
				r.Guard(key, func() any { return hx(frame) }, func() {
					q := &cmpp.ConnectResp{Version: cmpp.Version(ver)}
					if err := q.Decode(77, frame[12:]); err != nil || uint8(q.Status()) != uint8(st) || uint8(q.Version) != rv || string(q.AuthenticatorISMG()) != string(v["auth"].B) {
						r.Fail("cmpp connect resp fields", map[string]any{"case": key, "frame": hx(frame), "err": fmt.Sprint(err)})
					}
					mustEqual(r, "cmpp connect resp re-encoding", key, frame, q.Encode())
				})
			}
		}
		cmppDeliverText(r, ver)
		cmppReports(r, ver)
		for _, c := range mtCases(r, ver, 99) {
			c.o = noOptions
			checkCmppSubmit(r, c)
		}
		for _, n := range []time.Duration{0, 11 * time.Hour, 20 * 24 * time.Hour, 364*24*time.Hour + 23*time.Hour + 59*time.Minute + 59*time.Second} {
			time.Sleep(n) // virtual time
			for _, a := range accounts(ver) {
				cmppLogin(r, a, ver)
			}
		}
		for _, seq := range seqDomain {
			mustEqual(r, "cmpp terminate", seq, packet12(cTerminate, seq, nil), cmpp.NewTerminate(seq).Encode())
			mustEqual(r, "cmpp active test", seq, packet12(cActive, seq, nil), cmpp.NewActiveTest(seq).Encode())
			r.Case(fmt.Sprint("cmpp header ", ver, seq))
			h := &cmpp.MessageHeader{TotalLength: 40, CommandId: cmpp.CMPP_SUBMIT, SequenceId: seq}
			bs := h.Encode()
			mustEqual(r, "cmpp header", seq, packet12(cSubmit, seq, make([]byte, 28)), bs)
			g := &cmpp.MessageHeader{}
			if err := g.Decode(bs); err != nil || *g != *h {
				r.Fail("cmpp header round trip", seq)
			}
		}
	}
	r.Sample("NewSubmit(account, 2 destinations, \"hello\") for 3.0: " + hx(cmpp.NewSubmit(account(0x30), phones(2, 21), "hello", 5)[0].Encode()))
}

func cmppLogin(r *lib.R, a acVariant, ver uint8) {
	if len(a.ac.ClientId) > 6 {
		return // client ids are six octets
	}
	key := fmt.Sprintf("cmpp%x NewConnect %s %s", ver, a.what, time.Now().Format("0102150405"))
	r.Case(key)
	r.Guard(key, func() any { return key }, func() {
		ts := time.Now().Format("0102150405")
		var n uint64
		fmt.Sscanf(ts, "%d", &n)
		v := Vals{"clientId": s(a.ac.ClientId), "auth": b(md5sum(a.ac.ClientId, string(make([]byte, 9)), a.ac.SharedSecret, ts)), "version": u(uint64(ver)), "ts": u(n)}
		mustEqual(r, "cmpp connect encoding", key, packet12(cConnect, 9, encode(cmppConnect(), v)), cmpp.NewConnect(a.ac, 9).Encode())
	})
}

// utf16Cut keeps the longest prefix of whole characters within n octets of UCS2.
func utf16Cut(t string, n int) string {
	rs := []rune(t)
	for len(ucs2(string(rs))) > n {
		rs = rs[:len(rs)-1]
	}
	return string(rs)
}

// cmppDeliverText: mobile originated text, every length and class, encoded by the server and decoded by the client.
func cmppDeliverText(r *lib.R, ver uint8) {
	for _, cl := range []string{"ascii", "cjk", "mixed", "latin", "emoji"} {
		for n := 0; n <= 200; n++ {
			cmppDeliverCase(r, ver, account(ver), "deliver text "+cl, "13700001111", text(cl, n), "001", "SRV9", 5)
		}
	}
	for _, a := range accounts(ver) {
		cmppDeliverCase(r, ver, a.ac, "deliver account "+a.what, "13700001111", "hello", "001", "", 6)
	}
	for w := 0; w <= 34; w++ {
		p := string(pattern("ph", w))
		cmppDeliverCase(r, ver, account(ver), "deliver phone", p, "hello", "001", "", 7)
		cmppDeliverCase(r, ver, account(ver), "deliver dest", "13700001111", "hello", p, "", 7)
		cmppDeliverCase(r, ver, account(ver), "deliver service", "13700001111", "hello", "1", p, 7)
	}
	for _, p := range []string{"95566", "9556601", "66", "955", "5566"} { // an extension that looks like the number itself
		cmppDeliverCase(r, ver, account(ver), "deliver dest", "13700001111", "hello", p, "", 7)
	}
	for _, q := range seqDomain {
		cmppDeliverCase(r, ver, account(ver), "deliver seq", "13700001111", "hello", "001", "", q)
	}
}

func cmppDeliverCase(r *lib.R, ver uint8, ac *codec.AuthConf, what, phone, msg, dest, service string, seq uint32) {
	key := fmt.Sprintf("cmpp%x %s: %q %q %q %q %d", ver, what, phone, msg, dest, service, seq)
	r.Case(key)
	r.Guard(key, func() any { return key }, func() {
		cnt := &counter64{n: 0x1122334455667788}
		codec.B64Seq = cnt
		q := cmpp.NewDelivery(ac, phone, msg, dest, service, seq)
		f := msgFormat(msg)
		var body []byte
		kept := msg
		if f == 8 {
			kept = utf16Cut(msg, 140)
			body = ucs2(kept)
		} else {
			if len(kept) > 160 {
				kept = kept[:160]
			}
			body = []byte(kept)
		}
		sv := service
		if sv == "" {
			sv = ac.ServiceId
		}
		v := Vals{"msgId": u(uint64(cnt.n)), "destId": s(ac.SmsDisplayNo + dest), "serviceId": s(sv), "fmt": u(uint64(f)), "srcTerm": s(phone), "content": b(body)}
		fs := cmppDeliver(ver)
		fix(fs, v)
		frame := packet12(cDeliver, seq, encode(fs, v))
		mustEqual(r, "cmpp deliver encoding", key, frame, q.Encode())
		d := &cmpp.Delivery{Version: cmpp.Version(ver)}
		if err := d.Decode(seq, frame[12:]); err != nil {
			r.Fail("cmpp deliver does not decode", map[string]any{"case": key, "err": err.Error()})
		}
		m := expect(fs, v)
		m["content"] = kept
		m["report"] = "false"
		if bad := same(m, normMap(cmppDeliverGet(ver)(d))); len(bad) > 0 {
			r.Fail("cmpp deliver decoding", map[string]any{"case": key, "frame": hx(frame), "differs": bad})
		}
	})
}

// cmppReports: the status report of 60 or 71 octets and the delivery that carries it.
func cmppReports(r *lib.R, ver uint8) {
	fs := cmppReport(ver)
	sweep(fs, 0, 0, nil, func(what string, v Vals) {
		key := fmt.Sprintf("cmpp%x report %s", ver, what)
		r.Case(key)
		rep := encode(fs, v)
		dv := base(cmppDeliver(ver))
		dv["content"], dv["isReport"] = b(rep), u(1)
		dfs := cmppDeliver(ver)
		fix(dfs, dv)
		frame := packet12(cDeliver, 3, encode(dfs, dv))
		r.Guard(key, func() any { return hx(frame) }, func() {
			q := &cmpp.Delivery{Version: cmpp.Version(ver)}
			if err := q.Decode(3, frame[12:]); err != nil {
				r.Fail("cmpp report delivery does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			if !q.IsReport() || q.Report() == nil {
				r.Fail("cmpp report delivery not recognised", key)
			}
			g := q.Report()
			got := map[string]any{"msgId": g.MsgId(), "stat": g.Stat(), "submitTime": g.SubmitTime(), "doneTime": g.DoneTime(), "dest": g.DestTerminalId(), "smsc": g.SmscSequence()}
			if bad := same(expect(fs, v), normMap(got)); len(bad) > 0 {
				r.Fail("cmpp report decoding", map[string]any{"case": key, "report": hx(rep), "differs": bad})
			}
			// stale bytes after a terminator are not reproduced
			w := Vals{}
			for _, f := range fs {
				w[f.N] = v[f.N]
				if f.K == S {
					w[f.N] = s(cut(v[f.N].B, f.W))
				}
			}
			mustEqual(r, "cmpp report re-encoding", key, encode(fs, w), g.Encode())
		})
	})
	// the report a gateway builds for a submission
	for i := 0; i < 230; i++ {
		for _, w := range []int{0, 1, 11, 20, 21, 22, 31, 32} {
			if w > 21 && !v3(ver) {
				continue
			}
			key := fmt.Sprintf("cmpp%x report for submission %d %d", ver, i, w)
			r.Case(key)
			r.Guard(key, func() any { return key }, func() {
				c := mtCase{ac: account(ver), phones: append([]string{string(pattern("p", w))}, phones(i/4%3, 21)...), text: "hello", seq: 4, o: noOptions}
				num := account(ver).SmsDisplayNo
				if i/12%2 == 1 {
					c.o.SpSubNo = "0123"
					num += "0123"
				}
				sv := cmppSubmitRef(c, time.Now(), 1, 1, []byte("hello"), 0)
				sv["destType"], sv["feeTermType"] = u(uint64(i%2)), u(uint64(i/2%2))
				sfs := cmppSubmit(ver)
				fix(sfs, sv)
				sub := &cmpp.Submit{Version: cmpp.Version(ver)}
				if err := sub.Decode(4, encode(sfs, sv)); err != nil {
					r.Fail("cmpp submit does not decode", err.Error())
				}
				c32, c64 := &counter32{n: int32(i)}, &counter64{n: int64(i) << 33}
				codec.B32Seq, codec.B64Seq = c32, c64
				id := uint64(0x8877665544332211) + uint64(i)
				d := sub.ToDeliveryReport(id)
				frame := d.Encode()
				q := &cmpp.Delivery{Version: cmpp.Version(ver)}
				if len(frame) < 12 {
					r.Fail("cmpp report encoding", key)
				}
				if err := q.Decode(uint32(i), frame[12:]); err != nil || !q.IsReport() || q.Report() == nil {
					r.Fail("cmpp report does not decode", map[string]any{"case": key, "frame": hx(frame), "err": fmt.Sprint(err)})
				}
				rp := q.Report()
				want := Vals{"msgId": u(id), "stat": s(rp.Stat()), "submitTime": s(time.Now().Format("0601021504")),
					"doneTime": s(time.Now().Add(10 * time.Second).Format("0601021504")), "dest": s(c.phones[0]), "smsc": u(uint64(rp.SmscSequence()))}
				dv := Vals{"msgId": u(uint64(c64.n)), "destId": s(num), "serviceId": s(account(ver).ServiceId),
					"srcTerm": s(c.phones[0]), "isReport": u(1), "content": b(encode(fs, want))}
				if v3(ver) {
					dv["srcTermType"] = u(uint64(i % 2))
				}
				dfs := cmppDeliver(ver)
				fix(dfs, dv)
				seq := uint32(0)
				if len(frame) >= 12 {
					seq = uint32(frame[8])<<24 | uint32(frame[9])<<16 | uint32(frame[10])<<8 | uint32(frame[11])
				}
				mustEqual(r, "cmpp report delivery encoding", key, packet12(cDeliver, seq, encode(dfs, dv)), frame)
				if !knownStat[rp.Stat()] {
					r.Fail("cmpp report state unknown", map[string]any{"case": key, "stat": rp.Stat()})
				}
			})
		}
	}
}

var knownStat = set("DELIVRD", "EXPIRED", "DELETED", "UNDELIV", "ACCEPTD", "UNKNOWN", "REJECTD", "MA:0000", "MB:0000", "CA:0000", "CB:0000")
