// Package codecs checks the packet codecs of the three protocols against independent layout tables.
package codecs

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"

	"verif/mc/lib"
)

// Kind of a field in a layout table.
type Kind byte

const (
	U Kind = iota // unsigned integer, big endian
	S             // octet string, NUL padded
	B             // raw bytes of fixed width
	L             // list of octet strings, counted by another field
	C             // content, length given by another field
	Z             // reserved: zero when encoded, ignored when decoded
)

type F struct {
	N   string // name
	W   int    // width (of one element for L)
	K   Kind
	Ref string // count or length field for L and C
}

// Val is one field value.
type Val struct {
	U uint64
	B []byte
	L [][]byte
}

type Vals map[string]Val

func u(v uint64) Val { return Val{U: v} }
func s(v string) Val { return Val{B: []byte(v)} }
func b(v []byte) Val { return Val{B: append([]byte(nil), v...)} }
func l(v ...string) Val {
	x := Val{L: [][]byte{}}
	for _, e := range v {
		x.L = append(x.L, []byte(e))
	}
	return x
}

func (v Vals) clone() Vals {
	n := Vals{}
	for k, x := range v {
		n[k] = x
	}
	return n
}

func put(n uint64, w int) []byte {
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], n)
	return t[8-w:]
}

// encode lays the values out as the table says: the reference encoder (body only).
func encode(fs []F, v Vals) []byte {
	var out []byte
	pad := func(x []byte, w int) {
		c := make([]byte, w)
		copy(c, x)
		out = append(out, c...)
	}
	for _, f := range fs {
		x := v[f.N]
		switch f.K {
		case U:
			out = append(out, put(x.U, f.W)...)
		case S, B:
			pad(x.B, f.W)
		case Z:
			pad(x.B, f.W)
		case L:
			for _, e := range x.L {
				pad(e, f.W)
			}
		case C:
			out = append(out, x.B...)
		}
	}
	return out
}

// packet puts the header of CMPP and SMGP in front of a body.
func packet12(cmd, seq uint32, body []byte) []byte {
	h := append(put(uint64(12+len(body)), 4), put(uint64(cmd), 4)...)
	h = append(h, put(uint64(seq), 4)...)
	return append(h, body...)
}

// packet20 puts the SGIP header in front of a body.
func packet20(cmd uint32, seq []uint32, body []byte) []byte {
	h := append(put(uint64(20+len(body)), 4), put(uint64(cmd), 4)...)
	for i := 0; i < 3; i++ {
		h = append(h, put(uint64(seq[i]), 4)...)
	}
	return append(h, body...)
}

// cut is what an octet string of at most w bytes looks like after decoding.
func cut(x []byte, w int) string {
	if len(x) > w {
		x = x[:w]
	}
	for i, c := range x {
		if c == 0 {
			return string(x[:i])
		}
	}
	return string(x)
}

func pattern(name string, w int) []byte {
	o := make([]byte, w)
	h := byte(0)
	for _, c := range []byte(name) {
		h = h*31 + c
	}
	for i := range o {
		o[i] = 'A' + (h+byte(i*7))%57
	}
	return o
}

var u1dom = func() (r []uint64) {
	for i := 0; i < 256; i++ {
		r = append(r, uint64(i))
	}
	return
}()

func udom(w int) []uint64 {
	switch w {
	case 1:
		return u1dom
	case 4:
		return []uint64{0, 1, 9, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304, 0xf1e2d3c4}
	default:
		r := []uint64{0, 1, 0x0102030405060708, 0xf1e2d3c4b5a69788, 1<<64 - 1, 1 << 63, 1<<63 - 1}
		for i := uint(0); i < 64; i++ {
			r = append(r, 1<<i)
		}
		return r
	}
}

// sdom are the octet strings tried for a column of width w; all of them fit.
func sdom(name string, w int) (r [][]byte) {
	p := pattern(name, w)
	for n := 0; n <= w; n++ {
		r = append(r, p[:n])
	}
	if w > 2 {
		g := append([]byte(nil), p...)
		g[1] = 0 // stale bytes after the terminator
		r = append(r, g)
		g = append([]byte(nil), p...)
		g[0] = 0
		r = append(r, g)
		g = append([]byte(nil), p...)
		g[w-1] = 0
		r = append(r, g)
	}
	hi := make([]byte, w)
	for i := range hi {
		hi[i] = 0x80 | byte(i)
	}
	r = append(r, hi)
	sp := make([]byte, w)
	for i := range sp {
		sp[i] = ' '
	}
	r = append(r, sp)
	return
}

// base gives every field a distinct non-trivial value.
func base(fs []F) Vals {
	v := Vals{}
	for i, f := range fs {
		switch f.K {
		case U:
			x := uint64(0)
			for k := 0; k < f.W; k++ {
				x = x<<8 | uint64(i*5+k+17)&0x7f
			}
			v[f.N] = u(x)
		case S, B:
			v[f.N] = b(pattern(f.N, f.W))
		case L:
			v[f.N] = Val{L: [][]byte{pattern(f.N, f.W), pattern(f.N+"2", f.W-3)}}
			v[f.Ref] = u(2)
		case C:
			v[f.N] = b(pattern(f.N, 23))
			v[f.Ref] = u(23)
		}
	}
	return v
}

// fix makes count and length fields agree with what they describe.
func fix(fs []F, v Vals) {
	for _, f := range fs {
		switch f.K {
		case L:
			v[f.Ref] = u(uint64(len(v[f.N].L)))
		case C:
			v[f.Ref] = u(uint64(len(v[f.N].B)))
		}
	}
}

// domain lists the values tried for one field.
func domain(f F, maxContent int, maxList int) (r []Val) {
	switch f.K {
	case U:
		for _, x := range udom(f.W) {
			r = append(r, u(x))
		}
	case S:
		for _, x := range sdom(f.N, f.W) {
			r = append(r, b(x))
		}
	case B:
		r = append(r, b(make([]byte, f.W)), b(pattern(f.N, f.W)))
		ff := make([]byte, f.W)
		for i := range ff {
			ff[i] = 0xff
		}
		r = append(r, b(ff))
		for i := 0; i < f.W; i++ {
			o := make([]byte, f.W)
			o[i] = 0xa5
			r = append(r, b(o))
		}
	case L:
		for n := 0; n <= maxList; n++ {
			x := Val{L: [][]byte{}}
			for i := 0; i < n; i++ {
				x.L = append(x.L, pattern(fmt.Sprint(f.N, i), f.W-i%4))
			}
			r = append(r, x)
		}
		// first and last entries of every length
		for n := 0; n <= f.W; n++ {
			r = append(r, Val{L: [][]byte{pattern(f.N, f.W)[:n]}}, Val{L: [][]byte{pattern(f.N, f.W)[:n], pattern(f.N+"2", f.W-2)}}, Val{L: [][]byte{pattern(f.N, f.W-1), pattern(f.N+"2", f.W)[:n]}})
		}
		// more entries than the protocol knows
		if maxList > 2 {
			for _, n := range []int{127, 128, 129, 200, 254, 255} {
				x := Val{L: [][]byte{}}
				for i := 0; i < n; i++ {
					x.L = append(x.L, pattern(fmt.Sprint(f.N, i), f.W-i%4))
				}
				r = append(r, x)
			}
		}
	case C:
		for n := 0; n <= maxContent; n++ {
			r = append(r, b(pattern(f.N, n)))
		}
	}
	return
}

func small(d []Val) []Val {
	if len(d) <= 4 {
		return d
	}
	return []Val{d[0], d[1], d[len(d)/2], d[len(d)-1]}
}

// sweep calls f with: the base values, every value of every field alone, and every pair of fields over small domains.
func sweep(fs []F, maxContent, maxList int, skip map[string]bool, f func(what string, v Vals)) {
	bs := base(fs)
	fix(fs, bs)
	f("base", bs)
	isRef := map[string]bool{}
	for _, x := range fs {
		if x.K == L || x.K == C {
			isRef[x.Ref] = true
		}
	}
	var act []F
	for _, x := range fs {
		if x.K != Z && !isRef[x.N] && !skip[x.N] {
			act = append(act, x)
		}
	}
	for _, x := range act {
		for i, d := range domain(x, maxContent, maxList) {
			v := bs.clone()
			v[x.N] = d
			fix(fs, v)
			f(fmt.Sprintf("%s#%d", x.N, i), v)
		}
	}
	for i, x := range act {
		for _, y := range act[i+1:] {
			for a, dx := range small(domain(x, maxContent, maxList)) {
				for c, dy := range small(domain(y, maxContent, maxList)) {
					v := bs.clone()
					v[x.N], v[y.N] = dx, dy
					fix(fs, v)
					f(fmt.Sprintf("%s#%d,%s#%d", x.N, a, y.N, c), v)
				}
			}
		}
	}
}

// present returns a copy of a body as a slice with exact capacity, or followed by stale bytes in the same array.
func present(body []byte, stale bool) []byte {
	if !stale {
		return append(make([]byte, 0, len(body)), body...)[:len(body):len(body)]
	}
	big := make([]byte, len(body)+512)
	for i := range big {
		big[i] = 0x5a
	}
	copy(big, body)
	return big[:len(body)]
}

// same compares two observations field by field and returns the differing names.
func same(want, got map[string]any) []string {
	var bad []string
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			continue
		}
		if fmt.Sprintf("%T|%v", w, w) != fmt.Sprintf("%T|%v", g, g) {
			bad = append(bad, fmt.Sprintf("%s: want %q got %q", k, fmt.Sprint(w), fmt.Sprint(g)))
		}
	}
	sort.Strings(bad)
	return bad
}

func diffBytes(want, got []byte) string {
	if len(want) != len(got) {
		return fmt.Sprintf("length want %d got %d; want %x got %x", len(want), len(got), want, got)
	}
	for i := range want {
		if want[i] != got[i] {
			return fmt.Sprintf("first difference at offset %d: want %x got %x (want %x got %x)", i, want[i], got[i], want, got)
		}
	}
	return ""
}

func mustEqual(r *lib.R, key string, in any, want, got []byte) {
	if d := diffBytes(want, got); d != "" {
		r.Fail(key, map[string]any{"input": in, "diff": d})
	}
}

func hx(x []byte) string { return hex.EncodeToString(x) }

// Counter is a deterministic sequence source.
type counter32 struct{ n int32 }

func (c *counter32) NextVal() int32 { c.n++; return c.n }

type counter64 struct{ n int64 }

func (c *counter64) NextVal() int64 { c.n += 0x0101010101; return c.n }

type counterBcd struct{ n byte }

func (c *counterBcd) NextVal() []byte {
	c.n++
	return []byte{0x12, 0x34, 0x56, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, c.n}
}
