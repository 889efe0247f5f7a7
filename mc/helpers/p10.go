package helpers

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/utils"

	"verif/mc/lib"
)

func be16(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// P10 checks the character set, BCD, hex, octet and clock helpers.
func P10(r *lib.R) {
	ucs2(r)
	gb(r)
	bcd(r)
	numbers(r)
	octets(r)
	structs(r)
	clocks(r)
}

func ucs2One(r *lib.R, s string) {
	r.Guard("ucs2", func() any { return s }, func() {
		b, err := utils.Utf8ToUcs2(s)
		if err != nil || !bytes.Equal(b, be16(s)) {
			r.Fail("ucs2-encode", map[string]any{"text": fmt.Sprintf("%+q", s), "got": fmt.Sprintf("% x", b), "want": fmt.Sprintf("% x", be16(s)), "err": fmt.Sprint(err)})
		}
		in := append([]byte(nil), b...)
		u, err := utils.Ucs2ToUtf8(b)
		if err != nil || string(u) != s {
			r.Fail("ucs2-decode", map[string]any{"text": fmt.Sprintf("%+q", s), "got": fmt.Sprintf("%+q", u), "err": fmt.Sprint(err)})
		}
		if !bytes.Equal(in, b) {
			r.Fail("ucs2-input-changed", fmt.Sprintf("%+q", s))
		}
	})
}

var repr = []string{"a", "\x00", "é", "中", "\ufeff", "\ufffe", "\U0001F600", "\U0010FFFF", "\uFFFD"}

func scalars(f func(c rune)) {
	for c := rune(0); c <= 0x10FFFF; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		f(c)
	}
}

func ucs2(r *lib.R) {
	step := 0
	scalars(func(c rune) {
		s := string(c)
		ucs2One(r, s)
		r.Case("u" + s)
		n := 1
		for i, p := range repr {
			if c < 0x800 || (step+i)%(4*len(repr)) == 0 || r.Thorough() {
				ucs2One(r, p+s)
				ucs2One(r, s+p)
				n += 2
			}
		}
		r.Eval(n - 1)
		step++
	})
	// lengths across the internal transfer buffers of the converter
	for _, p := range repr {
		for n := 0; n <= r.Pick(700, 5000); n++ {
			s := strings.Repeat(p, n)
			ucs2One(r, s)
			ucs2One(r, "a"+s)
			r.Case(fmt.Sprintf("ul%s%d", p, n))
		}
		for _, n := range []int{4095, 4096, 4097, 8191, 8192, 20000} {
			ucs2One(r, strings.Repeat(p, n))
			ucs2One(r, "a"+strings.Repeat(p, n))
			r.Case(fmt.Sprintf("ul%s%d", p, n))
		}
	}
	for _, bad := range []string{"\xff", "a\xc3", "\xed\xa0\x80", "中\xe4\xb8", "\xf8\x88\x80\x80\x80"} {
		if b, err := utils.Utf8ToUcs2(bad); err == nil {
			r.Fail("ucs2-invalid-accepted", map[string]any{"text": fmt.Sprintf("%q", bad), "got": b})
		}
		if b, err := utils.Utf8ToGB18030(bad); err == nil {
			r.Fail("gb-invalid-accepted", map[string]any{"text": fmt.Sprintf("%q", bad), "got": b})
		}
		r.Case("ubad" + bad)
	}
}

func gbOne(r *lib.R, s string) (enc string) {
	r.Guard("gb18030", func() any { return s }, func() {
		b, err := utils.Utf8ToGB18030(s)
		if err != nil {
			r.Fail("gb-encode", map[string]any{"text": fmt.Sprintf("%+q", s), "err": err.Error()})
		}
		u, err := utils.GB18030ToUtf8(b)
		if err != nil || u != s {
			r.Fail("gb-decode", map[string]any{"text": fmt.Sprintf("%+q", s), "gb": fmt.Sprintf("% x", b), "got": fmt.Sprintf("%+q", u), "err": fmt.Sprint(err)})
		}
		enc = b
	})
	return
}

func gb(r *lib.R) {
	known := map[string]string{"中": "\xd6\xd0", "文": "\xce\xc4", "A": "A", "短": "\xb6\xcc", "\U0001F600": "\x94\x39\xfc\x36", "\U0010FFFF": "\xe3\x32\x9a\x35", "\U00010000": "\x90\x30\x81\x30", "é": "\xa8\xa6"}
	for u, g := range known {
		if got := gbOne(r, u); got != g {
			r.Fail("gb-standard", map[string]any{"text": u, "got": fmt.Sprintf("% x", got), "want": fmt.Sprintf("% x", g)})
		}
	}
	seen := map[string]rune{}
	scalars(func(c rune) {
		s := string(c)
		if c >= 0xE000 && c <= 0xF8FF {
			return // private use: no standard encoding
		}
		e := gbOne(r, s)
		if o, dup := seen[e]; dup {
			r.Fail("gb-collision", fmt.Sprintf("%U and %U", o, c))
		}
		seen[e] = c
		ok := len(e) == 1 && e[0] <= 0x80 || len(e) == 2 && e[0] >= 0x81 || len(e) == 4 && e[0] >= 0x81 && e[1] >= '0' && e[1] <= '9'
		if !ok {
			r.Fail("gb-form", fmt.Sprintf("%U % x", c, e))
		}
		r.Case("g" + s)
		if c%37 == 0 || r.Thorough() {
			if got := gbOne(r, "a"+s+"中"); got != "a"+e+"\xd6\xd0" {
				r.Fail("gb-concat", fmt.Sprintf("%U % x", c, got))
			}
			r.Eval(1)
		}
	})
	for n := 0; n < 6000; n += 7 {
		gbOne(r, strings.Repeat("中a\U0001F600", n))
		r.Case(fmt.Sprint("gl", n))
	}
}

func bcd(r *lib.R) {
	max := r.Pick(6, 7)
	for l := 0; l <= max; l++ {
		lim := int(math.Pow10(l))
		for v := 0; v < lim; v++ {
			s := ""
			if l > 0 {
				s = fmt.Sprintf("%0*d", l, v)
			}
			bcdOne(r, s)
			r.Case("b" + s)
		}
	}
	for l := 8; l <= 40; l++ {
		for _, f := range []func(i int) byte{func(i int) byte { return '9' }, func(i int) byte { return byte('0' + i%10) }, func(i int) byte { return byte('9' - i%10) }, func(i int) byte { return '0' }} {
			b := make([]byte, l)
			for i := range b {
				b[i] = f(i)
			}
			bcdOne(r, string(b))
			r.Case("b" + string(b))
		}
	}
	// the other direction: every pair of decimal digits in every position
	for l := 1; l <= 10; l++ {
		for p := 0; p < l; p++ {
			for d := 0; d < 100; d++ {
				b := make([]byte, l)
				b[p] = byte(d/10<<4 | d%10)
				s := utils.BcdToString(b)
				want := strings.Repeat("00", p) + fmt.Sprintf("%02d", d) + strings.Repeat("00", l-p-1)
				if s != want || !bytes.Equal(utils.StoBcd(s), b) {
					r.Fail("bcd-back", map[string]any{"octets": fmt.Sprintf("% x", b), "got": s, "want": want})
				}
				r.Case("bb" + want)
			}
		}
	}
	// arbitrary octets never panic
	for x := 0; x < 1<<16; x++ {
		r.Guard("bcd-any", func() any { return x }, func() {
			if s := utils.BcdToString([]byte{byte(x >> 8), byte(x)}); len(s) != 4 {
				r.Fail("bcd-length", x)
			}
			if b := utils.StoBcd(string([]byte{byte(x >> 8), byte(x)})); len(b) != 1 {
				r.Fail("bcd-length", x)
			}
		})
		r.Eval(1)
	}
	for _, l := range []int{1, 2, 3, 4, 6, 8, 10, 12, 19} {
		for v := int64(0); v < int64(r.Pick(120000, 2000000)); v++ {
			if float64(v) >= math.Pow10(l) {
				break
			}
			fixOne(r, v, l)
		}
		for e := 0; e < l && e < 19; e++ {
			for _, d := range []int64{-1, 0, 1} {
				if v := int64(math.Pow10(e)) + d; v >= 0 && float64(v) < math.Pow10(l) {
					fixOne(r, v, l)
				}
			}
		}
		// values that are too wide keep their last digits
		for e := l; e < 19; e++ {
			for _, v := range []int64{int64(math.Pow10(e)), int64(math.Pow10(e)) + 7, 9*int64(math.Pow10(e)) + 123456, math.MaxInt64} {
				if v < int64(math.Pow10(l)) || v < 0 {
					continue
				}
				all := strconv.FormatInt(v, 10)
				if s := utils.IntToFixStr(v, l); s != all[len(all)-l:] {
					r.Fail("fixed-number-wide", map[string]any{"value": v, "width": l, "got": s})
				}
				r.Eval(1)
			}
		}
		r.Case(fmt.Sprint("fix", l))
	}
}

func fixOne(r *lib.R, v int64, l int) {
	s := utils.IntToFixStr(v, l)
	n, err := strconv.ParseInt(s, 10, 64)
	if len(s) != l || err != nil || n != v {
		r.Fail("fixed-number", map[string]any{"value": v, "width": l, "got": s})
	}
	if l%2 == 0 {
		if b := utils.StoBcd(s); utils.BcdToString(b) != s {
			r.Fail("fixed-number-bcd", map[string]any{"value": v, "width": l, "got": b})
		}
	}
	r.Eval(1)
}

func bcdOne(r *lib.R, s string) {
	r.Guard("bcd", func() any { return s }, func() {
		b := utils.StoBcd(s)
		if len(b) != (len(s)+1)/2 {
			r.Fail("bcd-length", map[string]any{"text": s, "got": b})
		}
		for i := range b {
			want := s[2*i] - '0'
			if b[i]>>4 != want || 2*i+1 < len(s) && b[i]&15 != s[2*i+1]-'0' {
				r.Fail("bcd-encode", map[string]any{"text": s, "got": fmt.Sprintf("% x", b)})
			}
		}
		if back := utils.BcdToString(b); len(s)%2 == 0 && back != s || !strings.HasPrefix(back, s) {
			r.Fail("bcd-decode", map[string]any{"text": s, "got": back})
		}
	})
}

func numbers(r *lib.R) {
	one32 := func(v uint32) {
		if s := utils.Uint32HexString(v); s != fmt.Sprintf("%08x", v) {
			r.Fail("hex32", map[string]any{"value": v, "got": s})
		}
		if s := utils.TimeStamp2Str(v); len(s) != 10 || s != fmt.Sprintf("%010d", v) {
			r.Fail("timestamp-string", map[string]any{"value": v, "got": s})
		}
		for _, off := range []uint{0, 16, 32, 48} {
			w := uint64(v) << off
			if s := utils.Uint64HexString(w); s != fmt.Sprintf("%016x", w) {
				r.Fail("hex64", map[string]any{"value": w, "got": s})
			}
			if s := utils.Uint64HexString(^w); s != fmt.Sprintf("%016x", ^w) {
				r.Fail("hex64", map[string]any{"value": ^w, "got": s})
			}
		}
	}
	for v := uint32(0); v < uint32(r.Pick(1<<16, 1<<21)); v++ {
		one32(v)
		one32(v << 16)
		one32(^v)
		r.Case(fmt.Sprint("n", v))
	}
	// every nibble value in every place
	for p := uint(0); p < 64; p += 4 {
		for d := uint64(0); d < 16; d++ {
			w := d << p
			s := utils.Uint64HexString(w)
			if b, err := strconv.ParseUint(s, 16, 64); err != nil || b != w || len(s) != 16 {
				r.Fail("hex64", map[string]any{"value": w, "got": s})
			}
			r.Case(fmt.Sprint("nb", p, d))
		}
	}
	// header fields: every octet value in every place, every short length
	for l := 0; l <= 40; l++ {
		for p := 0; p < 12; p++ {
			for d := 0; d < 256; d++ {
				h := make([]byte, l)
				for i := range h {
					h[i] = byte(i * 7)
				}
				if p < l {
					h[p] = byte(d)
				}
				r.Guard("unpack-head", func() any { return h }, func() {
					a, b, c := codec.UnpackHead(h)
					if l < 12 {
						if a|b|c != 0 {
							r.Fail("unpack-head-short", h)
						}
						return
					}
					if a != binary.BigEndian.Uint32(h) || b != binary.BigEndian.Uint32(h[4:]) || c != binary.BigEndian.Uint32(h[8:]) {
						r.Fail("unpack-head", h)
					}
				})
				r.Eval(1)
			}
		}
	}
}

func octets(r *lib.R) {
	for w := 0; w <= 40; w++ {
		for l := 0; l <= 60; l++ {
			for k := 0; k < 3; k++ {
				s := strings.Repeat([]string{"x", "0", "é"}[k], l)
				if k < 2 {
					b := []byte(s)
					for i := range b {
						b[i] += byte(i % 10)
					}
					s = string(b)
				}
				key := fmt.Sprint("o", w, l, k)
				r.Guard("octet", func() any { return key }, func() {
					o := utils.OctetString(s, w)
					if len(o) != w {
						r.Fail("octet-width", map[string]any{"value": s, "width": w, "got": o})
					}
					if len(s) <= w {
						if o != s+strings.Repeat("\x00", w-len(s)) || utils.TrimStr([]byte(o)) != s {
							r.Fail("octet-pad", map[string]any{"value": s, "width": w, "got": o})
						}
					} else if !strings.Contains(s, o) {
						r.Fail("octet-cut", map[string]any{"value": s, "width": w, "got": o})
					}
					// fixed column in a frame: nothing outside the column may change
					for _, at := range []int{0, 5} {
						dst := bytes.Repeat([]byte{0xEE}, at+w+5)
						n := utils.CopyStr(dst, s, at, w)
						m := len(s)
						if m > w {
							m = w
						}
						if n != at+w || !bytes.Equal(dst[:at], bytes.Repeat([]byte{0xEE}, at)) || string(dst[at:at+m]) != s[:m] || !bytes.Equal(dst[at+w:], bytes.Repeat([]byte{0xEE}, 5)) {
							r.Fail("copy-str", map[string]any{"value": s, "width": w, "at": at, "next": n, "frame": fmt.Sprintf("% x", dst)})
						}
						if w > 0 {
							n = utils.CopyByte(dst, byte(l), at)
							if n != at+1 || dst[at] != byte(l) {
								r.Fail("copy-byte", key)
							}
						}
					}
				})
				r.Case(key)
			}
		}
	}
	// trimming: every string over {NUL, a, b} to a length
	var walk func(b []byte, d int)
	walk = func(b []byte, d int) {
		want := string(b)
		if i := strings.IndexByte(want, 0); i >= 0 {
			want = want[:i]
		}
		in := append([]byte(nil), b...)
		r.Guard("trim", func() any { return in }, func() {
			if got := utils.TrimOctetString(b); string(got) != want {
				r.Fail("trim-octets", map[string]any{"octets": in, "got": got})
			}
			if got := utils.TrimStr(b); got != want || !bytes.Equal(in, b) {
				r.Fail("trim-string", map[string]any{"octets": in, "got": got})
			}
		})
		r.Case("t" + string(b))
		if d == 0 {
			return
		}
		for _, c := range []byte{0, 'a', 'b'} {
			walk(append(b[:len(b):len(b)], c), d-1)
		}
	}
	walk(nil, r.Pick(8, 10))
	// lists of fixed columns: every count and every filling of up to three columns
	for _, w := range []int{1, 2, 21, 32} {
		for n := 1; n <= 101; n++ {
			for _, fill := range []int{0, 1, w / 2, w - 1, w} {
				if fill < 0 || n > 3 && fill == 0 {
					continue
				}
				var in []byte
				var want []string
				for i := 0; i < n; i++ {
					f := (fill + i) % (w + 1)
					s := strings.Repeat(string(rune('0'+i%10)), f)
					want = append(want, s)
					in = append(in, s+strings.Repeat("\x00", w-f)...)
				}
				r.Guard("columns", func() any { return in }, func() {
					got := utils.Bytes2StringSlice(in, w)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						r.Fail("columns", map[string]any{"width": w, "want": want, "got": got})
					}
				})
				r.Case(fmt.Sprint("c", w, n, fill))
			}
		}
	}
}

type from struct {
	A int
	B string
	C []byte
	D uint8
	E int64
	F string
}

type to struct {
	F string
	A int
	B []byte // another type: stays
	C []byte
	G string // not in from: stays
	E int64
}

func structs(r *lib.R) {
	for m := 0; m < 64; m++ {
		var f from
		if m&1 != 0 {
			f.A = 7
		}
		if m&2 != 0 {
			f.B = "b"
		}
		if m&4 != 0 {
			f.C = []byte("c")
		}
		if m&8 != 0 {
			f.D = 9
		}
		if m&16 != 0 {
			f.E = 5
		}
		if m&32 != 0 {
			f.F = "f"
		}
		t := to{F: "old", A: 1, B: []byte("keep"), C: []byte("old"), G: "keep", E: 1}
		was := f
		r.Guard("struct-copy", func() any { return m }, func() {
			utils.StructCopy(&f, &t)
			if t.F != f.F || t.A != f.A || string(t.C) != string(f.C) || t.E != f.E || t.G != "keep" || string(t.B) != "keep" || fmt.Sprint(f) != fmt.Sprint(was) {
				r.Fail("struct-copy", map[string]any{"from": f, "to": t})
			}
			utils.StructCopy(f, &t)
			utils.StructCopy(&f, t)
			utils.StructCopy((*from)(nil), &t)
			utils.StructCopy(&f, (*to)(nil))
			if t.F != f.F || t.A != f.A || t.G != "keep" {
				r.Fail("struct-copy-invalid", map[string]any{"from": f, "to": t})
			}
		})
		r.Case(fmt.Sprint("s", m))
	}
}

// clocks renders every (thorough: second, quick: 61st second) of a leap year under virtual time and every second near changes of day, month and year.
func clocks(r *lib.R) {
	base := time.Now()
	start := time.Date(2023, 12, 31, 23, 58, 0, 0, time.Local)
	if base.Before(start) {
		time.Sleep(start.Sub(base))
	}
	end := time.Date(2025, 1, 1, 0, 2, 0, 0, time.Local)
	step := time.Duration(r.Pick(61, 1)) * time.Second
	for {
		now := time.Now()
		if now.After(end) {
			break
		}
		s, n := utils.Now()
		want := fmt.Sprintf("%02d%02d%02d%02d%02d", now.Month(), now.Day(), now.Hour(), now.Minute(), now.Second())
		v, _ := strconv.ParseUint(want, 10, 32)
		if s != want || uint64(n) != v || utils.TimeStamp2Str(n) != s {
			r.Fail("now", map[string]any{"time": now.String(), "text": s, "number": n})
		}
		ft := utils.FormatTime(now)
		if ft != fmt.Sprintf("%02d%s032+", now.Year()%100, want) {
			r.Fail("format-time", map[string]any{"time": now.String(), "got": ft})
		}
		r.Eval(1)
		d := step
		sec := now.Hour()*3600 + now.Minute()*60 + now.Second()
		if sec < 65 || sec >= 86400-125 {
			d = time.Second
		}
		time.Sleep(d)
	}
	r.Case("clock")
	r.Outcome("clock")
}
