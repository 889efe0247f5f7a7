package helpers

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/hrygo/gosms/utils"

	"verif/mc/lib"
)

type par struct {
	t uint16
	v string
}

func encode(ps []par) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, byte(p.t>>8), byte(p.t), byte(len(p.v)>>8), byte(len(p.v)))
		b = append(b, p.v...)
	}
	return b
}

func build(ps []par) *utils.TlvList {
	l := utils.NewTlvList()
	for i, p := range ps {
		if i%2 == 0 {
			l.Add(p.t, []byte(p.v))
		} else {
			l.AddObject(utils.New(p.t, []byte(p.v)))
		}
	}
	return l
}

func same(t utils.TLV, p par) bool {
	return t.Type() == p.t && int(t.Length()) == len(p.v) && string(t.Value()) == p.v
}

var tags = []uint16{1, 2, 0x0100, 0xFFFF}

// compare checks every query of the list against the plain slice.
func compare(l *utils.TlvList, m []par) string {
	if int(l.Length()) != len(m) {
		return fmt.Sprintf("length %d instead of %d", l.Length(), len(m))
	}
	for _, tag := range tags {
		var all []par
		for _, p := range m {
			if p.t == tag {
				all = append(all, p)
			}
		}
		g, err := l.Get(tag)
		if len(all) == 0 {
			if err != utils.ErrTypeNotFound || g != nil {
				return fmt.Sprintf("tag %d is absent but Get gave %v, %v", tag, g, err)
			}
		} else if err != nil || !same(g, all[0]) {
			return fmt.Sprintf("tag %d: Get gave %v, %v, want %v", tag, g, err, all[0])
		}
		ga := l.GetAll(tag)
		if len(ga) != len(all) {
			return fmt.Sprintf("tag %d: GetAll gave %d of %d", tag, len(ga), len(all))
		}
		for i := range ga {
			if !same(ga[i], all[i]) {
				return fmt.Sprintf("tag %d: GetAll %d gave %v want %v", tag, i, ga[i], all[i])
			}
		}
	}
	var w bytes.Buffer
	if err := l.Write(&w); err != nil {
		return "write: " + err.Error()
	}
	if !bytes.Equal(w.Bytes(), encode(m)) {
		return fmt.Sprintf("written % x want % x", w.Bytes(), encode(m))
	}
	if len(m) > 0 && l.String() == "[]" {
		return "String shows nothing"
	}
	return ""
}

type op struct {
	kind int // 0 add, 1 add object, 2 remove tag, 3 remove object, 4 write and read back, 5 look up and alter the caller's buffers, 6 and 7 add and remove one of the caller's own type
	p    par
}

func (o op) String() string {
	return fmt.Sprintf("%s(%#x,%q)", []string{"Add", "AddObject", "Remove", "RemoveObject", "Reread", "Mutate", "AddOwn", "RemoveOwn"}[o.kind], o.p.t, o.p.v)
}

// own is a parameter of another type than the one the package makes itself.
type own par

func (o own) Type() uint16   { return o.t }
func (o own) Length() uint16 { return uint16(len(o.v)) }
func (o own) Value() []byte  { return []byte(o.v) }

// P11 checks the optional parameter list.
func P11(r *lib.R) {
	histories(r)
	cuts(r)
	truncated(r)
	big(r)
	faults(r)
	alike(r)
}

// parameters that differ in one respect only: all pairs of values of one octet, values with one bit changed at any place, cut or
// extended by an octet, with two octets exchanged; types with one bit changed.
func alike(r *lib.R) {
	one := func(t, u uint16, v, w string) {
		r.Guard("alike", func() any { return fmt.Sprintf("%#x %q, %#x %q", t, v, u, w) }, func() {
			m := []par{{t, v}, {u, w}, {t, v}, {u, w}, {t ^ 0x5555, v}}
			l := build(m)
			bad := ""
			a, b := utils.New(t, []byte(v)), utils.New(u, []byte(w))
			if utils.Equal(a, b) || !utils.Equal(a, utils.New(t, []byte(v))) {
				bad = "Equal is wrong"
			} else if n := l.RemoveObject(a); n != 2 {
				bad = fmt.Sprintf("RemoveObject removed %d instead of 2", n)
			} else if bad = content(l, []par{m[1], m[3], m[4]}); bad != "" {
			} else if n := l.Remove(u); n != 2 {
				bad = fmt.Sprintf("Remove removed %d instead of 2", n)
			} else {
				bad = content(l, m[4:])
			}
			if bad != "" {
				r.Fail("alike", map[string]any{"parameters": fmt.Sprintf("%#x %q, %#x %q", t, v, u, w), "what": bad})
			}
		})
		r.Case(fmt.Sprint("alike", t, u, v, w))
	}
	for i := 0; i < 256; i++ {
		for k := 0; k < 256; k++ {
			if i != k {
				one(7, 7, string([]byte{byte(i)}), string([]byte{byte(k)}))
			}
		}
	}
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 16, 31, 64, 255, 256, 300, 1000} {
		for _, fill := range []byte{0, 'a', 'Z', 0x20, 0xE4, 0xFF} {
			v := bytes.Repeat([]byte{fill}, n)
			step := max(1, n*8/r.Pick(64, 800))
			for bit := 0; bit < n*8; bit += step {
				w := append([]byte(nil), v...)
				w[bit/8] ^= 1 << (bit % 8)
				one(7, 7, string(v), string(w))
			}
			for _, x := range []byte{0, 'a', ' ', 0xFF} {
				one(7, 7, string(v), string(v)+string([]byte{x}))
				one(7, 7, string(v), string([]byte{x})+string(v))
			}
			one(7, 7, string(v), string(v[1:]))
			one(7, 7, string(v), "")
		}
	}
	one(7, 7, "ab", "ba")
	for _, t := range []uint16{0, 1, 0x0100, 0x1400, 0xFFFF, 0x7FFF} {
		for b := 0; b < 16; b++ {
			one(t, t^1<<b, "value", "value")
			one(t, t^1<<b, "", "")
		}
	}
	r.Outcome("alike")
}

// content compares what is written out.
func content(l *utils.TlvList, m []par) string {
	var w bytes.Buffer
	if err := l.Write(&w); err != nil {
		return "write: " + err.Error()
	}
	if int(l.Length()) != len(m) || !bytes.Equal(w.Bytes(), encode(m)) {
		return fmt.Sprintf("%d parameters: % x, want %d: % x", l.Length(), w.Bytes(), len(m), encode(m))
	}
	return ""
}

func histories(r *lib.R) {
	values := []string{"", "a", "bc"}
	var ops []op
	for _, t := range []uint16{1, 2, 0x0100} {
		for _, v := range values {
			ops = append(ops, op{0, par{t, v}})
			if t != 0x0100 {
				ops = append(ops, op{1, par{t, v}}, op{3, par{t, v}})
			}
		}
		ops = append(ops, op{2, par{t: t}})
	}
	ops = append(ops, op{2, par{t: 0xFFFF}}, op{kind: 4}, op{kind: 5}, op{6, par{1, "a"}}, op{6, par{2, "bc"}}, op{7, par{1, "a"}})
	depth := r.Pick(4, 5)
	var hist []op
	var rec func(d int, m []par)
	states := map[string]bool{}
	replay := func() (*utils.TlvList, []par, string) {
		l := utils.NewTlvList()
		var m []par
		for _, o := range hist {
			switch o.kind {
			case 0:
				b := []byte(o.p.v)
				l.Add(o.p.t, b)
				for i := range b {
					b[i] = '!'
				}
				m = append(m, o.p)
			case 1:
				l.AddObject(utils.New(o.p.t, []byte(o.p.v)))
				m = append(m, o.p)
			case 6:
				l.AddObject(own(o.p))
				m = append(m, o.p)
			case 2, 3, 7:
				var k []par
				n := 0
				for _, p := range m {
					if p.t == o.p.t && (o.kind == 2 || p.v == o.p.v) {
						n++
					} else {
						k = append(k, p)
					}
				}
				m = k
				var got int
				if o.kind == 2 {
					got = l.Remove(o.p.t)
				} else if o.kind == 7 {
					got = l.RemoveObject(own(o.p))
				} else {
					got = l.RemoveObject(utils.New(o.p.t, []byte(o.p.v)))
				}
				if got != n {
					return l, m, fmt.Sprintf("%v removed %d instead of %d", o, got, n)
				}
			case 4:
				var w bytes.Buffer
				if err := l.Write(&w); err != nil {
					return l, m, err.Error()
				}
				n, err := utils.Read(&w)
				if err != nil {
					return l, m, "read back: " + err.Error()
				}
				l = n
			case 5:
				for _, t := range tags {
					_, _ = l.Get(t)
					ga := l.GetAll(t)
					for i := range ga {
						ga[i] = nil
					}
				}
				_ = l.String()
			}
		}
		return l, m, ""
	}
	rec = func(d int, _ []par) {
		r.Guard("history", func() any { return fmt.Sprint(hist) }, func() {
			l, m, bad := replay()
			if bad == "" {
				bad = compare(l, m)
			}
			if bad != "" {
				r.Fail("history", map[string]any{"operations": fmt.Sprint(hist), "what": bad})
			}
			states[fmt.Sprint(m)] = true
		})
		r.Eval(1)
		if d == 0 {
			return
		}
		for _, o := range ops {
			hist = append(hist, o)
			rec(d-1, nil)
			hist = hist[:len(hist)-1]
		}
	}
	rec(depth, nil)
	for k := range states {
		r.Case("list " + k)
		r.Eval(-1)
	}
	r.Extra["operation_history_depth"] = depth
	r.Outcome("histories")
}

// pieces is a reader that returns the given chunks; style 0: EOF after the data, 1: EOF with the last chunk, 2: an empty read before each chunk.
type pieces struct {
	b     []byte
	cut   []int
	style int
	empty bool
	err   error
}

func (p *pieces) Read(q []byte) (int, error) {
	if p.style == 2 && !p.empty {
		p.empty = true
		return 0, nil
	}
	p.empty = false
	if len(p.b) == 0 {
		if p.err != nil {
			return 0, p.err
		}
		return 0, io.EOF
	}
	n := len(p.b)
	if len(p.cut) > 0 {
		n = p.cut[0]
	}
	if n > len(q) {
		copy(q, p.b[:len(q)])
		p.b = p.b[len(q):]
		if len(p.cut) > 0 {
			p.cut[0] -= len(q)
		}
		return len(q), nil
	}
	copy(q, p.b[:n])
	p.b = p.b[n:]
	if len(p.cut) > 0 {
		p.cut = p.cut[1:]
	}
	if len(p.b) == 0 && p.style == 1 && p.err == nil {
		return n, io.EOF
	}
	return n, nil
}

var lists = [][]par{
	nil,
	{{1, ""}},
	{{1, "a"}},
	{{2, "bc"}, {1, ""}},
	{{1, "a"}, {1, "a"}},
	{{0xFFFF, "abc"}, {0, "d"}},
	{{0x0100, "abcdef"}},
	{{1, ""}, {2, ""}, {3, ""}},
	{{1, "a"}, {2, "b"}, {3, "c"}},
}

func cuts(r *lib.R) {
	for li, ps := range lists {
		enc := encode(ps)
		if len(enc) > r.Pick(15, 18) {
			continue
		}
		n := len(enc)
		combos := 1
		if n > 0 {
			combos = 1 << (n - 1)
		}
		for mask := 0; mask < combos; mask++ {
			var cut []int
			last := 0
			for i := 1; i < n; i++ {
				if mask>>(i-1)&1 == 1 {
					cut = append(cut, i-last)
					last = i
				}
			}
			if n > 0 {
				cut = append(cut, n-last)
			}
			for style := 0; style < 3; style++ {
				r.Guard("cut", func() any { return fmt.Sprint(ps, cut, style) }, func() {
					l, err := utils.Read(&pieces{b: enc, cut: append([]int(nil), cut...), style: style})
					bad := ""
					if err != nil {
						bad = err.Error()
					} else {
						bad = compare(l, ps)
					}
					if bad != "" {
						r.Fail("cut", map[string]any{"list": fmt.Sprint(ps), "pieces": cut, "style": style, "what": bad})
					}
				})
				r.Case(fmt.Sprint("cut", li, mask, style))
			}
		}
	}
	r.Outcome("cuts")
}

var errLine = errors.New("line broken")

func truncated(r *lib.R) {
	for li, ps := range lists {
		enc := encode(ps)
		bounds := map[int]int{0: 0}
		for i := range ps {
			bounds[len(encode(ps[:i+1]))] = i + 1
		}
		for n := 0; n <= len(enc); n++ {
			for one := 0; one < 2; one++ {
				for style := 0; style < 3; style++ {
					for e := 0; e < 2; e++ {
						p := &pieces{b: enc[:n], style: style}
						if one == 1 {
							for i := 0; i < n; i++ {
								p.cut = append(p.cut, 1)
							}
						}
						if e == 1 {
							p.err = errLine
						}
						r.Guard("truncated", func() any { return fmt.Sprint(ps, n) }, func() {
							l, err := utils.Read(p)
							k, whole := bounds[n]
							full := 0
							for b, c := range bounds {
								if b <= n && c > full {
									full = c
								}
							}
							bad := ""
							switch {
							case whole && e == 0 && err != nil:
								bad = "complete list refused: " + err.Error()
							case whole && e == 0:
								bad = compare(l, ps[:k])
							case err == nil:
								bad = "truncated input accepted"
							case l != nil:
								if int(l.Length()) > full {
									bad = "a truncated parameter is in the list"
								} else {
									bad = compare(l, ps[:l.Length()])
								}
							}
							if bad != "" {
								r.Fail("truncated", map[string]any{"list": fmt.Sprint(ps), "octets": n, "style": style, "broken": e, "what": bad})
							}
						})
						r.Case(fmt.Sprint("tr", li, n, one, style, e))
					}
				}
			}
		}
	}
	// single objects
	for l := 0; l <= 300; l++ {
		v := bytes.Repeat([]byte{byte(l)}, l)
		b, err := utils.ToBytes(utils.New(uint16(l*7), v))
		if err != nil || !bytes.Equal(b, encode([]par{{uint16(l * 7), string(v)}})) {
			r.Fail("to-bytes", map[string]any{"length": l, "got": b})
		}
		o, err := utils.FromBytes(b)
		if err != nil || !same(o, par{uint16(l * 7), string(v)}) || !utils.Equal(o, utils.New(uint16(l*7), v)) {
			r.Fail("from-bytes", map[string]any{"length": l, "err": fmt.Sprint(err)})
		}
		for c := 0; c < len(b); c++ {
			if _, err := utils.FromBytes(b[:c]); err == nil {
				r.Fail("from-bytes-truncated", map[string]any{"length": l, "octets": c})
			}
			r.Eval(1)
		}
		r.Case(fmt.Sprint("single", l))
	}
	objs := []utils.TLV{nil}
	for _, ps := range lists {
		for _, p := range ps {
			objs = append(objs, utils.New(p.t, []byte(p.v)))
		}
	}
	for i, a := range objs {
		for j, b := range objs {
			want := a == nil && b == nil
			if a != nil && b != nil {
				want = same(a, par{b.Type(), string(b.Value())})
			}
			if utils.Equal(a, b) != want {
				r.Fail("equal", map[string]any{"a": a, "b": b})
			}
			r.Case(fmt.Sprint("eq", i, j))
		}
	}
}

func big(r *lib.R) {
	for _, l := range []int{254, 255, 256, 511, 512, 513, 4095, 4096, 4097, 65534, 65535} {
		ps := []par{{5, string(bytes.Repeat([]byte{0xA5}, l))}, {1, "tail"}}
		for _, chunk := range []int{0, 1, 3, 255, 4096} {
			p := &pieces{b: encode(ps)}
			for n := len(p.b); chunk > 0 && n > 0; n -= chunk {
				c := chunk
				if c > n {
					c = n
				}
				p.cut = append(p.cut, c)
			}
			got, err := utils.Read(p)
			bad := fmt.Sprint(err)
			if err == nil {
				bad = compare(got, ps)
			}
			if bad == "" {
				bad = compare(build(ps), ps)
			}
			if bad != "" {
				r.Fail("big", map[string]any{"length": l, "chunk": chunk, "what": bad})
			}
			r.Case(fmt.Sprint("big", l, chunk))
		}
	}
	var ps []par
	for n := 0; n < r.Pick(200, 2000); n++ {
		ps = append(ps, par{uint16(n % 5), fmt.Sprint(n)})
		l := build(ps)
		bad := compare(l, ps)
		if bad == "" {
			k, err := utils.Read(bytes.NewReader(encode(ps)))
			if err != nil {
				bad = err.Error()
			} else {
				bad = compare(k, ps)
			}
		}
		if bad != "" {
			r.Fail("many", map[string]any{"count": n, "what": bad})
		}
		r.Case(fmt.Sprint("many", n))
	}
}

// limited is a writer that fails after some octets.
type limited struct {
	left int
	got  []byte
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.got = append(w.got, p[:n]...)
		w.left = 0
		return n, errLine
	}
	w.left -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

func faults(r *lib.R) {
	for li, ps := range lists {
		enc := encode(ps)
		for n := 0; n <= len(enc); n++ {
			w := &limited{left: n}
			err := build(ps).Write(w)
			if (err == nil) != (n == len(enc)) || !bytes.HasPrefix(enc, w.got) {
				r.Fail("write-fault", map[string]any{"list": fmt.Sprint(ps), "octets": n, "err": fmt.Sprint(err), "got": w.got})
			}
			r.Case(fmt.Sprint("wf", li, n))
		}
	}
	r.Outcome("faults")
}
