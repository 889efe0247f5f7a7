package codecs

import (
	"fmt"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"

	"verif/mc/lib"
)

// reassemble puts the pieces of one message together, as a handset does.
func reassemble(r *lib.R, key string, pieces [][]byte, size int) []byte {
	bad := func(why string) {
		var hs []string
		for _, p := range pieces {
			hs = append(hs, hx(p))
		}
		r.Fail("segmentation: "+why, map[string]any{"case": key, "pieces": hs})
	}
	if len(pieces) == 0 {
		bad("no message at all")
	}
	for _, p := range pieces {
		if len(p) > size {
			bad("a segment is longer than one short message")
		}
	}
	if len(pieces) == 1 {
		return pieces[0]
	}
	slots := make([][]byte, len(pieces))
	for _, p := range pieces {
		if len(p) <= 6 || p[0] != 5 || p[1] != 0 || p[2] != 3 {
			bad("a segment has no concatenation header, or no content")
		}
		if p[3] != pieces[0][3] {
			bad("segments of one message have different references")
		}
		if int(p[4]) != len(pieces) {
			bad("a segment states the wrong total")
		}
		if p[5] == 0 || int(p[5]) > len(pieces) || slots[p[5]-1] != nil {
			bad("segment numbers are not 1..total")
		}
		slots[p[5]-1] = p[6:]
	}
	var out []byte
	for _, x := range slots {
		out = append(out, x...)
	}
	return out
}

// P04raw runs outside the bubble, because the reference of a message may come from the clock.
func P04raw(r *lib.R) {
	// raw payloads, every length for every segment size in use
	for _, size := range []int{140, 160} {
		lim := r.Pick(255*(size-6), 255*(size-6))
		buf := make([]byte, lim+1)
		for i := range buf {
			buf[i] = byte(i*7 + i/251)
		}
		for n := 0; n <= lim; n++ {
			if n > 3500 && !r.Thorough() {
				if m := n % (size - 6); m > 3 && m < size-9 {
					continue // away from the segment boundaries
				}
			}
			key := fmt.Sprintf("payload of %d octets, size %d", n, size)
			r.Case(key)
			r.Guard(key, func() any { return key }, func() {
				in := append([]byte(nil), buf[:n]...)
				ps := utils.ToTPUDHISlices(in, size)
				if n < size && len(ps) != 1 {
					r.Fail("segmentation: a short message is cut", key)
				}
				mustEqual(r, "segmentation loses content", key, buf[:n], reassemble(r, key, ps, size))
				mustEqual(r, "segmentation changes its input", key, buf[:n], in)
			})
		}
	}
}

// P04: a message of any length is cut into segments a handset can put together again.
func P04(r *lib.R) {
	codec.B32Seq, codec.B64Seq, codec.BcdSeq = &counter32{}, &counter64{}, &counterBcd{}
	sgip.NewSequencer(sgipNode, 0)
	// texts through the constructors and over the wire
	for _, cl := range []string{"ascii", "cjk", "mixed", "latin", "emoji", "late", "early"} {
		lim := r.Pick(900, 4000)
		for n := 0; n <= lim; n++ {
			if n > 330 && n%7 != 0 && !r.Thorough() {
				continue
			}
			t := text(cl, n)
			pl, size, _ := payload(t)
			if len(pl) < 255*(size-6) {
				for _, ver := range cmppVersions {
					p04cmpp(r, fmt.Sprintf("cmpp%x text %s %d", ver, cl, n), ver, t, pl, size)
				}
				p04sgip(r, fmt.Sprintf("sgip text %s %d", cl, n), t, pl, size)
			}
			if g := gb(t); len(g) < 255*134 {
				p04smgp(r, fmt.Sprintf("smgp text %s %d", cl, n), t, g)
			}
		}
	}
	p04headers(r)
	// many segments, and lengths around their boundaries
	for _, cl := range []string{"ascii", "cjk"} {
		for k := 26; k <= 255; k++ {
			if k%8 > 1 && k%8 < 7 && k < 250 && !r.Thorough() {
				continue
			}
			for off := -1; off <= 1; off++ {
				at := func(size int) string {
					n := k*(size-6) + off
					if cl == "cjk" {
						n = (k*(size-6) + 2*off) / 2
					}
					return text(cl, n)
				}
				_, size, _ := payload(text(cl, 2))
				t := at(size)
				if pl, _, _ := payload(t); len(pl) <= 255*(size-6) {
					for _, ver := range cmppVersions {
						p04cmpp(r, fmt.Sprintf("cmpp%x text %s of %d segments %+d", ver, cl, k, off), ver, t, pl, size)
					}
					p04sgip(r, fmt.Sprintf("sgip text %s of %d segments %+d", cl, k, off), t, pl, size)
				}
				t = at(140)
				if g := gb(t); len(g) <= 255*134 {
					p04smgp(r, fmt.Sprintf("smgp text %s of %d segments %+d", cl, k, off), t, g)
				}
			}
		}
	}
	r.Sample("ToTPUDHISlices of 300 octets, size 140 -> " + fmt.Sprint(len(utils.ToTPUDHISlices(make([]byte, 300), 140))) + " segments")
}

// p04headers: the receiver takes the concatenation header off a segment, of whatever length, and nothing else.
func p04headers(r *lib.R) {
	for n := 0; n <= 134; n++ {
		for _, head := range [][]byte{{5, 0, 3, 0, 2, 1}, {5, 0, 3, 255, 255, 255}, {5, 0, 3, 5, 0, 3}, {5, 0, 3, 9, 2, 2}} {
			txt := text("ascii", n)
			// a header that is cut short is none
			for _, whole := range []bool{true, false} {
				if !whole && n > 5 {
					continue
				}
				content, want := append(append([]byte(nil), head...), txt...), []byte(txt)
				if !whole {
					content, want = head[:n], head[:n]
				}
				key := fmt.Sprintf("segment %x", content)
				r.Case(key)
				r.Guard(key, func() any { return key }, func() {
					for _, ver := range []uint8{0x20, 0x30} {
						for _, udhi := range []uint64{0, 1} {
							for _, f := range []uint64{0, 4, 15, 8} {
								fs := cmppSubmit(ver)
								v := base(fs)
								v["tpUdhi"], v["fmt"], v["content"] = u(udhi), u(f), b(content)
								w := want
								if f == 8 && whole {
									v["content"] = b(append(append([]byte(nil), head...), ucs2(txt)...))
									if len(v["content"].B) > 255 {
										continue
									}
								}
								if udhi == 0 {
									w = v["content"].B
								} else if f == 8 && !whole {
									continue
								}
								fix(fs, v)
								d := &cmpp.Submit{Version: cmpp.Version(ver)}
								if err := d.Decode(1, encode(fs, v)); err != nil {
									r.Fail("cmpp segment does not decode", map[string]any{"case": key, "err": err.Error()})
								}
								mustEqual(r, "cmpp content of a segment", fmt.Sprint(key, " flag ", udhi, " format ", f), w, d.MsgContent())
								if ver != 0x20 {
									continue
								}
								v = base(sgipSubmit)
								v["tpUdhi"], v["coding"], v["content"] = u(udhi), u(f), b(content)
								if f == 8 && whole {
									v["content"] = b(append(append([]byte(nil), head...), ucs2(txt)...))
								}
								fix(sgipSubmit, v)
								g := &sgip.Submit{}
								if err := g.Decode(1, append(make([]byte, 8), encode(sgipSubmit, v)...)); err != nil {
									r.Fail("sgip segment does not decode", map[string]any{"case": key, "err": err.Error()})
								}
								mustEqual(r, "sgip content of a segment", fmt.Sprint(key, " flag ", udhi, " format ", f), w, g.MessageContent)
							}
						}
					}
					if !whole && n > 3 && head[3] > 0x7f {
						return // not text
					}
					v := base(smgpSubmit)
					v["content"] = b(content)
					fix(smgpSubmit, v)
					d := &smgp.Submit{}
					if err := d.Decode(1, append(encode(smgpSubmit, v), 0, 2, 0, 1, 1)); err != nil {
						r.Fail("smgp segment does not decode", map[string]any{"case": key, "err": err.Error()})
					}
					mustEqual(r, "smgp content of a segment", key, want, d.MsgContent())
				})
			}
		}
	}
}

func bmp(t string) bool {
	for _, c := range t {
		if c > 0xffff {
			return false
		}
	}
	return true
}

func p04cmpp(r *lib.R, key string, ver uint8, t string, pl []byte, size int) {
	codec.B32Seq = &counter32{n: 1000}
	r.Case(key)
	r.Guard(key, func() any { return t }, func() {
		ms := cmpp.NewSubmit(account(ver), phones(2, 21), t, 9)
		var pieces [][]byte
		whole := ""
		seqs := map[string]bool{}
		for i, m := range ms {
			f := m.Encode()
			tail := 8
			if v3(ver) {
				tail = 20
			}
			sub := m.(*cmpp.Submit)
			n := int(sub.MsgLength())
			pieces = append(pieces, f[len(f)-tail-n:len(f)-tail])
			if int(sub.PkTotal()) != len(ms) || int(sub.PkNumber()) != i+1 || (sub.TpUdhi() == 1) != (len(ms) > 1) {
				r.Fail("cmpp segment numbering", map[string]any{"case": key, "segment": i, "total": sub.PkTotal(), "number": sub.PkNumber(), "udhi": sub.TpUdhi()})
			}
			_, _, sq := header(m)
			if seqs[sq] {
				r.Fail("cmpp segments share a sequence number", key)
			}
			seqs[sq] = true
			d := &cmpp.Submit{Version: cmpp.Version(ver)}
			if err := d.Decode(9, f[12:]); err != nil {
				r.Fail("cmpp segment does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			whole += string(d.MsgContent())
		}
		mustEqual(r, "cmpp segmentation loses content", key, pl, reassemble(r, key, pieces, size))
		if want := t; len(ms) > 1 && bmp(t) && whole != want {
			r.Fail("cmpp decoded segments do not give the text", map[string]any{"case": key, "want": want, "got": whole})
		}
	})
}

func p04sgip(r *lib.R, key string, t string, pl []byte, size int) {
	r.Case(key)
	r.Guard(key, func() any { return t }, func() {
		ms := sgip.NewSubmit(account(0x12), phones(2, 21), t)
		var pieces [][]byte
		whole := ""
		seqs := map[string]bool{}
		for _, m := range ms {
			f := m.Encode()
			sub := m.(*sgip.Submit)
			n := int(sub.MessageLength)
			pieces = append(pieces, f[len(f)-8-n:len(f)-8])
			if (sub.TpUdhi == 1) != (len(ms) > 1) {
				r.Fail("sgip segment flag", key)
			}
			_, _, sq := header(m)
			if seqs[sq] {
				r.Fail("sgip segments share a sequence number", key)
			}
			seqs[sq] = true
			d := &sgip.Submit{}
			if err := d.Decode(9, f[12:]); err != nil {
				r.Fail("sgip segment does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			whole += string(d.MessageContent)
		}
		mustEqual(r, "sgip segmentation loses content", key, pl, reassemble(r, key, pieces, size))
		if len(ms) > 1 && bmp(t) && whole != t {
			r.Fail("sgip decoded segments do not give the text", map[string]any{"case": key, "want": t, "got": whole})
		}
	})
}

func p04smgp(r *lib.R, key string, t string, pl []byte) {
	codec.B32Seq = &counter32{n: 1000}
	r.Case(key)
	r.Guard(key, func() any { return t }, func() {
		ms := smgp.NewSubmit(account(0x30), phones(2, 21), t, 9)
		var pieces [][]byte
		whole := ""
		seqs := map[string]bool{}
		for i, m := range ms {
			f := m.Encode()
			sub := m.(*smgp.Submit)
			at := 126 - 8 + 42
			pieces = append(pieces, f[at:at+int(sub.MsgLength())])
			_, _, sq := header(m)
			if seqs[sq] {
				r.Fail("smgp segments share a sequence number", key)
			}
			seqs[sq] = true
			d := &smgp.Submit{}
			if err := d.Decode(9, f[12:]); err != nil {
				r.Fail("smgp segment does not decode", map[string]any{"case": key, "err": err.Error()})
			}
			whole += string(d.MsgContent())
			for tag, want := range map[uint16]int{2: 1, 9: len(ms), 10: i + 1} {
				if len(ms) == 1 {
					continue
				}
				o, err := d.TlvList().Get(tag)
				if err != nil || len(o.Value()) != 1 || int(o.Value()[0]) != want {
					r.Fail("smgp segment numbering", map[string]any{"case": key, "segment": i, "tag": tag, "want": want})
				}
			}
		}
		mustEqual(r, "smgp segmentation loses content", key, pl, reassemble(r, key, pieces, 140))
		if (len(ms) == 1 || msgFormat(t) == 0) && whole != t {
			r.Fail("smgp decoded segments do not give the text", map[string]any{"case": key, "want": t, "got": whole})
		}
	})
}
