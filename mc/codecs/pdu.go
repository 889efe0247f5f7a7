package codecs

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hrygo/gosms/codec"

	"verif/mc/lib"
)

// pduSpec binds a layout table to the decoder of one packet type.
type pduSpec struct {
	name   string
	cmd    uint32
	fs     []F
	sgip   bool
	mk     func() codec.Pdu
	get    func(codec.Pdu) map[string]any
	exp    func(v Vals, m map[string]any) // adjusts the default expectation
	reenc  bool                           // encoding the decoded packet gives the same bytes
	skip   map[string]bool                // fields not varied here
	maxC   int
	maxL   int
	fixed  map[string]uint64 // fields that always have this value here
	fixedV map[string]Val    // the same for other kinds
	text   bool              // content is NUL terminated text
}

// norm maps an observed value onto uint64, string, or a joined list.
func norm(x any) any {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int())
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return fmt.Sprint(x)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes())
		}
		var o []string
		for i := 0; i < v.Len(); i++ {
			o = append(o, fmt.Sprint(norm(v.Index(i).Interface())))
		}
		return fmt.Sprint(len(o)) + ":" + strings.Join(o, "|")
	}
	return fmt.Sprint(x)
}

func normMap(m map[string]any) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = norm(v)
	}
	return o
}

func expect(fs []F, v Vals) map[string]any {
	m := map[string]any{}
	for _, f := range fs {
		x := v[f.N]
		switch f.K {
		case U:
			m[f.N] = x.U
		case S:
			m[f.N] = cut(x.B, f.W)
		case B:
			c := make([]byte, f.W)
			copy(c, x.B)
			m[f.N] = string(c)
		case C:
			m[f.N] = string(x.B)
		case L:
			var o []string
			for _, e := range x.L {
				o = append(o, cut(e, f.W))
			}
			m[f.N] = norm(o)
		}
	}
	return m
}

// header reads the exported header fields of a packet.
func header(p codec.Pdu) (length, cmd uint64, seq string) {
	v := reflect.ValueOf(p).Elem()
	for _, n := range []string{"TotalLength", "PacketLength"} {
		if f := v.FieldByName(n); f.IsValid() {
			length = f.Uint()
		}
	}
	for _, n := range []string{"CommandId", "RequestId"} {
		if f := v.FieldByName(n); f.IsValid() {
			cmd = f.Uint()
		}
	}
	for _, n := range []string{"SequenceId", "SequenceNumber"} {
		if f := v.FieldByName(n); f.IsValid() {
			seq = fmt.Sprint(f.Interface())
		}
	}
	return
}

var seqDomain = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}

// build returns the packet for v and the body that Decode gets.
func (p *pduSpec) build(seq []uint32, v Vals) (frame, body []byte) {
	bd := encode(p.fs, v)
	if p.sgip {
		frame = packet20(p.cmd, seq, bd)
	} else {
		frame = packet12(p.cmd, seq[0], bd)
	}
	return frame, frame[12:]
}

func (p *pduSpec) check(r *lib.R) {
	n := 0
	sweep(p.fs, p.maxC, p.maxL, p.skip, func(what string, v Vals) {
		for f, x := range p.fixed {
			v[f] = u(x)
		}
		if p.fixedV != nil {
			for f, x := range p.fixedV {
				v[f] = x
			}
			fix(p.fs, v)
		}
		seqs := [][]uint32{{0x11223344, 0x55667788, 0x0a0b0c0d}}
		if what == "base" {
			for _, a := range seqDomain {
				for _, c := range seqDomain {
					seqs = append(seqs, []uint32{a, c, a ^ 0x5a5a5a5a}, []uint32{c, a, c})
				}
			}
		}
		for _, seq := range seqs {
			frame, body := p.build(seq, v)
			for _, stale := range []bool{false, true} {
				n++
				in := present(body, stale)
				key := fmt.Sprintf("%s decode %s seq=%x stale=%v", p.name, what, seq, stale)
				r.Case(key)
				r.Guard(key, func() any { return hx(frame) }, func() {
					q := p.mk()
					if err := q.Decode(seq[0], in); err != nil {
						if longList(p, body) {
							return // may be refused
						}
						r.Fail(p.name+" rejects a well formed packet", map[string]any{"case": key, "frame": hx(frame), "err": err.Error()})
					}
					ln, cmd, sq := header(q)
					want := fmt.Sprint(seq[0])
					if p.sgip {
						want = fmt.Sprint(seq)
					}
					if ln != uint64(len(frame)) || cmd != uint64(p.cmd) || sq != want {
						r.Fail(p.name+" header after decoding", map[string]any{"case": key, "frame": hx(frame), "length": ln, "command": cmd, "sequence": sq})
					}
					m := expect(p.fs, v)
					if p.exp != nil {
						p.exp(v, m)
					}
					if p.get != nil {
						if bad := same(m, normMap(p.get(q))); len(bad) > 0 {
							r.Fail(p.name+" field after decoding", map[string]any{"case": key, "frame": hx(frame), "differs": bad})
						}
					}
					if p.reenc {
						w := Vals{} // stale bytes behind a terminator are not reproduced
						for _, f := range p.fs {
							w[f.N] = v[f.N]
							if f.K == S || (f.K == C && p.text) {
								w[f.N] = s(cut(v[f.N].B, 1<<16))
							}
						}
						again, _ := p.build(seq, w)
						mustEqual(r, p.name+" re-encoding a decoded packet", key, again, q.Encode())
					}
				})
			}
		}
	})
	r.Outcome(p.name + " decoded")
	r.Extra["frames_"+p.name] = n
}
