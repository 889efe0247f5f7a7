package codecs

import (
	"fmt"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"

	"verif/mc/lib"
)

// need is the number of body octets the layout needs for the given bytes; -1: not even the fixed part up to a count is there.
func need(p *pduSpec, body []byte) int {
	at := 0
	if p.sgip {
		at = 8
	}
	refs := map[string]uint64{}
	for i, f := range p.fs {
		if f.K == Z && i == len(p.fs)-1 {
			return at // reserved octets at the end may be missing
		}
		w := f.W
		switch f.K {
		case L:
			w = f.W * int(refs[f.Ref])
		case C:
			n := refs[f.Ref]
			if n > 1<<31 {
				n = 1 << 31
			}
			w = int(n)
		case U:
			if at+w <= len(body) {
				x := uint64(0)
				for _, c := range body[at : at+w] {
					x = x<<8 | uint64(c)
				}
				refs[f.N] = x
			} else {
				return len(body) + 1 // short in any case
			}
		}
		at += w
	}
	return at
}

// exercise decodes one body and then uses the packet the way the servers and clients do.
func exercise(r *lib.R, p *pduSpec, ignores bool, body []byte, stale bool, tag string) {
	key := fmt.Sprintf("%s %s body=%x stale=%v", p.name, tag, body, stale)
	r.Guard(p.name, func() any { return key }, func() {
		q := p.mk()
		err := q.Decode(0x01020304, present(body, stale))
		if err != nil {
			if need(p, body) <= len(body) && !reportBody(p, body) && !longList(p, body) {
				r.Fail(p.name+" rejects a complete packet", map[string]any{"case": key, "err": err.Error()})
			}
			return
		}
		if !ignores && need(p, body) > len(body) && !reportBody(p, body) {
			r.Fail(p.name+" accepts a truncated packet", map[string]any{"case": key, "needs": need(p, body), "has": len(body)})
		}
		_ = q.Log()
		if x, ok := q.(fmt.Stringer); ok {
			_ = x.String()
		}
		if rq, ok := q.(codec.RequestPdu); ok {
			rsp := rq.ToResponse(0)
			_ = rsp.Encode()
			_ = rsp.Log()
		}
		switch m := q.(type) {
		case *cmpp.Submit:
			d := m.ToDeliveryReport(5)
			_ = d.Encode()
			_ = d.Log()
		case *smgp.Submit:
			d := smgp.NewDeliveryReport(account(0x30), m, 1, make([]byte, 10))
			_ = d.Encode()
			_ = d.Log()
		case *cmpp.Delivery:
			if m.IsReport() != (m.Report() != nil) {
				r.Fail("cmpp report flag without a report", key)
			}
		case *smgp.Delivery:
			if m.IsReport() != (m.Report() != nil) {
				r.Fail("smgp report flag without a report", key)
			}
		}
	})
}

// reportBody tells whether the body says that it carries a report, whose own length rule then applies.
func reportBody(p *pduSpec, body []byte) bool {
	at := 0
	for _, f := range p.fs {
		if f.N == "isReport" {
			return at < len(body) && body[at] == 1
		}
		at += f.W
	}
	return false
}

// longList tells whether the body announces more list entries than the protocol allows; it may be rejected.
func longList(p *pduSpec, body []byte) bool {
	at := 0
	if p.sgip {
		at = 8
	}
	for i, f := range p.fs {
		if i+1 < len(p.fs) && p.fs[i+1].K == L && p.fs[i+1].Ref == f.N {
			return at < len(body) && int(body[at]) > p.maxL
		}
		at += f.W
	}
	return false
}

// P05: no body of any length or content makes a decoder panic, and truncated ones are errors.
func P05(r *lib.R) {
	codec.B32Seq, codec.B64Seq, codec.BcdSeq = &counter32{}, &counter64{}, &counterBcd{}
	sgip.NewSequencer(sgipNode, 0)
	var specs []*pduSpec
	for _, v := range []uint8{0x20, 0x30} {
		specs = append(specs, cmppSpecs(v)...)
	}
	specs = append(specs, sgipSpecs()...)
	specs = append(specs, smgpSpecs()...)
	n := 0
	for _, p := range specs {
		ignores := len(p.fs) == 0 && !p.sgip || len(p.fs) == 1 && p.fs[0].K == Z
		var shapes []Vals
		for _, c := range []int{0, 1, 23, 60, 71, 122, 140, 255} {
			for _, d := range []int{0, 1, 2, 13, p.maxL, 127, 128, 254, 255} {
				if d > 13 && c != 23 {
					continue
				}
				for _, rep := range []uint64{0, 1} {
					v := base(p.fs)
					hasC, hasL, hasR := false, false, false
					for _, f := range p.fs {
						switch {
						case f.K == C:
							v[f.N], hasC = b(pattern("c", c)), true
						case f.K == L:
							x := Val{L: [][]byte{}}
							for i := 0; i < d; i++ {
								x.L = append(x.L, pattern(fmt.Sprint(i), f.W))
							}
							v[f.N], hasL = x, true
						case f.N == "isReport":
							v[f.N], hasR = u(rep), true
						}
					}
					for f, x := range p.fixed {
						if f != "isReport" {
							v[f] = u(x)
						}
					}
					if d > 13 && !hasL {
						continue
					}
					if (!hasC && c > 0) || (!hasL && d > 0) || (!hasR && rep > 0) {
						continue
					}
					fix(p.fs, v)
					shapes = append(shapes, v)
				}
			}
		}
		muts := []byte{0, 1, 2, 0x7f, 0x80, 0xfe, 0xff}
		for si, v := range shapes {
			_, body := p.build([]uint32{1, 2, 3}, v)
			// every truncation, and some extra octets
			for k := 0; k <= len(body)+12; k++ {
				bd := body
				if k <= len(body) {
					bd = body[:k]
				} else {
					bd = append(append([]byte(nil), body...), pattern("extra", k-len(body))...)
				}
				for _, st := range []bool{false, true} {
					n++
					exercise(r, p, ignores, bd, st, "truncated")
				}
			}
			r.Case(fmt.Sprintf("%s shape %d truncations", p.name, si))
			// every octet changed
			for at := range body {
				vals := muts
				if len(body) > 2000 {
					if at > 400 && at%31 != 0 {
						continue
					}
					vals = []byte{0, 0xff}
				}
				if (r.Thorough() && len(body) < 400) || si == 0 && len(body) < 2000 || (si == 9 && at < 160) {
					vals = allOctets
				}
				if !r.Thorough() && len(body) > 300 && at%3 != 0 && at > 200 {
					continue
				}
				for _, x := range vals {
					bd := append([]byte(nil), body...)
					bd[at] = x
					n++
					exercise(r, p, ignores, bd, x&1 == 0, "octet changed")
				}
				r.Case(fmt.Sprintf("%s shape %d octet %d", p.name, si, at))
			}
		}
		// every four octets in a row changed to numbers that run over when something is added to them
		for si, v := range shapes {
			_, body := p.build([]uint32{1, 2, 3}, v)
			if len(body) > 400 || si > 12 && !r.Thorough() {
				continue
			}
			for at := 0; at+4 <= len(body); at++ {
				for k := uint32(0); k < 14; k++ {
					w := [...]uint32{0, 1, 2, uint32(at), uint32(at) + 4, uint32(at) + 8, uint32(at) + 12, uint32(at) + 16, uint32(at) + 20, uint32(at) + 24, uint32(len(body)), 0x7fffffff, 0x80000000, 0x7fffff00}[k]
					bd := append([]byte(nil), body...)
					copy(bd[at:], put(uint64(-w-1), 4))
					n++
					exercise(r, p, ignores, bd, k&1 == 0, "word changed")
				}
			}
			r.Case(fmt.Sprintf("%s shape %d words", p.name, si))
		}
		// uniform bodies of every length
		for _, x := range []byte{0, 1, 5, 0x41, 0x80, 0xff} {
			for k := 0; k < 400; k++ {
				bd := make([]byte, k)
				for i := range bd {
					bd[i] = x
				}
				n++
				exercise(r, p, ignores, bd, false, "uniform")
			}
			r.Case(fmt.Sprintf("%s uniform %x", p.name, x))
		}
	}
	headers(r)
	r.Eval(n)
	r.Extra["bodies_decoded"] = n
	r.Sample("cmpp3 submit with 13 destinations and 140 octets of content, truncated after every octet and with every octet changed")
}

var allOctets = func() (o []byte) {
	for i := 0; i < 256; i++ {
		o = append(o, byte(i))
	}
	return
}()

// headers: the three header decoders and the stand-alone report decoders on every length.
func headers(r *lib.R) {
	for k := 0; k < 200; k++ {
		for _, st := range []bool{false, true} {
			bd := present(pattern("hdr", k), st)
			key := fmt.Sprintf("header of %d octets stale=%v", k, st)
			r.Case(key)
			r.Guard(key, func() any { return hx(bd) }, func() {
				must := func(what string, err error, short bool) {
					if (err != nil) != short {
						r.Fail(what+" length check", map[string]any{"octets": k, "err": fmt.Sprint(err)})
					}
				}
				must("cmpp header", (&cmpp.MessageHeader{}).Decode(bd), k < 12)
				must("smgp header", (&smgp.MessageHeader{}).Decode(bd), k < 12)
				must("sgip header", (&sgip.MessageHeader{}).Decode(bd), k < 20)
				must("cmpp report", (&cmpp.Report{}).Decode(bd), k < 60)
				must("smgp report", (&smgp.Report{}).Decode(bd), k < 122)
				l, c, q := codec.UnpackHead(bd)
				var wl, wc, wq uint32
				if k >= 12 {
					g := func(i int) uint32 {
						return uint32(bd[i])<<24 | uint32(bd[i+1])<<16 | uint32(bd[i+2])<<8 | uint32(bd[i+3])
					}
					wl, wc, wq = g(0), g(4), g(8)
				}
				if l != wl || c != wc || q != wq {
					r.Fail("UnpackHead", map[string]any{"octets": k, "got": fmt.Sprint(l, c, q)})
				}
			})
		}
	}
}
