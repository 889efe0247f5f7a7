package codecs

import (
	"fmt"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"

	"verif/mc/lib"
)

// respCase says what the response to a decoded request must be.
type respCase struct {
	req   *pduSpec
	rcmd  uint32
	newId int // kind of message id assigned
	rfs   []F
	vals  func(req Vals, code uint32) Vals // body of the response
	max   uint32                           // codes that fit the status field
	rsp   func() codec.Pdu                 // decoder of the response
	read  func(codec.Pdu) (uint64, bool)   // status read back, if there is an accessor
}

func find(specs []*pduSpec, name string) *pduSpec {
	for _, p := range specs {
		if p.name == name {
			return p
		}
	}
	panic(name)
}

var c64 = &counter64{}
var bcd = &counterBcd{}

func respCases() (out []respCase) {
	for _, ver := range []uint8{0x20, 0x21, 0x30, 0x31, 0x3f} {
		ver := ver
		sp := cmppSpecs(ver)
		tag, max := "cmpp2 ", uint32(255)
		if v3(ver) {
			tag, max = "cmpp3 ", 1<<32-1
		}
		out = append(out,
			respCase{req: find(sp, tag+"submit"), rcmd: cSubmitR, newId: 64, rfs: cmppSubmitR(ver), max: max, vals: func(req Vals, code uint32) Vals {
				v := Vals{"result": u(uint64(code))}
				if code == 0 {
					v["msgId"] = u(uint64(c64.n))
				}
				return v
			}, rsp: func() codec.Pdu { return &cmpp.SubmitRsp{Version: cmpp.Version(ver)} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*cmpp.SubmitRsp).Result()), true }},
			respCase{req: find(sp, tag+"deliver"), rcmd: cDeliverR, rfs: cmppSubmitR(ver), max: max, vals: func(req Vals, code uint32) Vals {
				return Vals{"msgId": req["msgId"], "result": u(uint64(code))}
			}, rsp: func() codec.Pdu { return &cmpp.DeliveryRsp{Version: cmpp.Version(ver)} }},
			respCase{req: find(sp, tag+"active test"), rcmd: cActiveR, rfs: []F{{"reserve", 1, Z, ""}}, max: 255, vals: noBody, rsp: func() codec.Pdu { return &cmpp.ActiveTestRsp{} }},
			respCase{req: find(sp, tag+"terminate"), rcmd: cTerminateR, max: 255, vals: noBody, rsp: func() codec.Pdu { return &cmpp.TerminateRsp{} }},
		)
	}
	sp := sgipSpecs()
	st := func(req Vals, code uint32) Vals { return Vals{"status": u(uint64(code))} }
	out = append(out,
		respCase{req: find(sp, "sgip bind"), rcmd: sBindR, rfs: sgipBindR, max: 255, vals: st, rsp: func() codec.Pdu { return &sgip.BindRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*sgip.BindRsp).Status), true }},
		respCase{req: find(sp, "sgip submit"), rcmd: sSubmitR, rfs: sgipRsp, max: 255, vals: st, rsp: func() codec.Pdu { return &sgip.SubmitRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*sgip.SubmitRsp).Status), true }},
		respCase{req: find(sp, "sgip deliver"), rcmd: sDeliverR, rfs: sgipRsp, max: 255, vals: st, rsp: func() codec.Pdu { return &sgip.DeliverRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*sgip.DeliverRsp).Status), true }},
		respCase{req: find(sp, "sgip report"), rcmd: sReportR, rfs: sgipRsp, max: 255, vals: st, rsp: func() codec.Pdu { return &sgip.ReportRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*sgip.ReportRsp).Status), true }},
		respCase{req: find(sp, "sgip unbind"), rcmd: sUnbindR, max: 255, vals: noBody, rsp: func() codec.Pdu { return &sgip.UnbindRsp{} }},
	)
	sp = smgpSpecs()
	out = append(out,
		respCase{req: find(sp, "smgp submit"), rcmd: tSubmitR, newId: 10, rfs: smgpRsp, max: 1<<32 - 1, vals: func(req Vals, code uint32) Vals {
			return Vals{"msgId": b([]byte{0x12, 0x34, 0x56, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, bcd.n}), "status": u(uint64(code))}
		}, rsp: func() codec.Pdu { return &smgp.SubmitRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*smgp.SubmitRsp).Status()), true }},
		respCase{req: find(sp, "smgp deliver"), rcmd: tDeliverR, rfs: smgpRsp, max: 1<<32 - 1, vals: func(req Vals, code uint32) Vals {
			return Vals{"msgId": req["msgId"], "status": u(uint64(code))}
		}, rsp: func() codec.Pdu { return &smgp.DeliverRsp{} }, read: func(p codec.Pdu) (uint64, bool) { return uint64(p.(*smgp.DeliverRsp).Status()), true }},
		respCase{req: find(sp, "smgp active test"), rcmd: tActiveR, max: 255, vals: noBody, rsp: func() codec.Pdu { return &smgp.ActiveTestRsp{} }},
		respCase{req: find(sp, "smgp exit"), rcmd: tExitR, max: 255, vals: noBody, rsp: func() codec.Pdu { return &smgp.ExitRsp{} }},
	)
	return
}

func noBody(Vals, uint32) Vals { return Vals{} }

// P06: the response to a request has the request's sequence number, the matching command, and the result asked for.
func P06(r *lib.R) {
	sgip.NewSequencer(sgipNode, 0)
	codec.B64Seq, codec.BcdSeq, codec.B32Seq = c64, bcd, &counter32{}
	var codes []uint32
	for i := uint32(0); i < 300; i++ {
		codes = append(codes, i)
	}
	codes = append(codes, 1<<16-1, 1<<16, 1<<24, 1<<31-1, 1<<31, 1<<32-1, 0x01020304)
	for ci, c := range respCases() {
		for _, a := range seqDomain {
			for _, d := range seqDomain {
				for _, code := range codes {
					if code > c.max || (a != d && code > 12 && code%5 != 0) {
						continue
					}
					seq := []uint32{a, d, a ^ d ^ 0x00ff00ff}
					key := fmt.Sprintf("%d %s seq %x result %d", ci, c.req.name, seq, code)
					r.Case(key)
					r.Guard(key, func() any { return key }, func() {
						v := base(c.req.fs)
						for f, x := range c.req.fixed {
							v[f] = u(x)
						}
						for _, f := range c.req.fs {
							if f.N == "msgId" && c.newId == 0 {
								if f.K == B {
									v["msgId"] = b(append(put(uint64(a), 4), append([]byte{0, 0xff}, put(uint64(d), 4)...)...))
								} else {
									v["msgId"] = u(uint64(a)<<32 | uint64(d))
								}
							}
						}
						fix(c.req.fs, v)
						frame, body := c.req.build(seq, v)
						q := c.req.mk()
						if err := q.Decode(seq[0], body); err != nil {
							r.Fail(c.req.name+" does not decode", map[string]any{"case": key, "frame": hx(frame), "err": err.Error()})
						}
						before64, beforeB := c64.n, bcd.n
						rsp := q.(codec.RequestPdu).ToResponse(code)
						if c.newId == 64 && code == 0 && c64.n == before64 || c.newId == 10 && bcd.n == beforeB {
							r.Fail(c.req.name+": accepted without a new message id", key)
						}
						rb := encode(c.rfs, c.vals(v, code))
						var want []byte
						if c.req.sgip {
							want = packet20(c.rcmd, seq, rb)
						} else {
							want = packet12(c.rcmd, seq[0], rb)
						}
						got := rsp.Encode()
						mustEqual(r, c.req.name+" response", key, want, got)
						back := c.rsp()
						if err := back.Decode(seq[0], got[12:]); err != nil {
							r.Fail(c.req.name+" response does not decode", map[string]any{"case": key, "err": err.Error()})
						}
						if c.read != nil {
							if x, _ := c.read(back); x != uint64(code) {
								r.Fail(c.req.name+" result read back", map[string]any{"case": key, "got": x})
							}
						}
						mustEqual(r, c.req.name+" response re-encoded by the receiver", key, got, back.Encode())
					})
				}
			}
		}
		r.Outcome(c.req.name)
	}
	r.Sample("SGIP submit with sequence {0, 0x80000000, 0x80ff00ff}, result 33")
}
