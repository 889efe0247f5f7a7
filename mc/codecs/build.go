package codecs

import (
	"crypto/md5"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"golang.org/x/text/encoding/simplifiedchinese"

	"verif/mc/lib"
)

// account returns an account whose every field has a distinct value that fits its column.
func account(ver uint8) *codec.AuthConf {
	return &codec.AuthConf{ClientId: "901234", LoginName: "loginname0123", SharedSecret: "secret0123", Version: ver, NeedReport: 1,
		SmsDisplayNo: "95566", ServiceId: "MYSRV0", DefaultMsgLevel: 7, FeeUserType: 2, FeeTerminalType: 1, FeeTerminalId: "13300001111",
		FeeType: "05", FeeCode: "000123", FixedFee: "000456", LinkId: "LNK0123456789", MtValidDuration: 2 * time.Hour,
		MaxConns: 3, MtWindowSize: 16, Throughput: 1000}
}

type acVariant struct {
	what string
	ac   *codec.AuthConf
}

// accounts lists the base account and every single-field departure from it.
func accounts(ver uint8) (out []acVariant) {
	out = append(out, acVariant{"base", account(ver)})
	t := reflect.TypeOf(codec.AuthConf{})
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Name
		switch n {
		case "ISP", "MaxConns", "MtWindowSize", "Throughput", "Version":
			continue
		}
		switch t.Field(i).Type.Kind() {
		case reflect.String:
			for w := 0; w <= 34; w++ {
				a := account(ver)
				reflect.ValueOf(a).Elem().Field(i).SetString(string(pattern(n, w)))
				out = append(out, acVariant{fmt.Sprintf("%s length %d", n, w), a})
			}
		case reflect.Uint8:
			for w := 0; w < 256; w++ {
				a := account(ver)
				reflect.ValueOf(a).Elem().Field(i).SetUint(uint64(w))
				out = append(out, acVariant{fmt.Sprintf("%s = %d", n, w), a})
			}
		case reflect.Int64: // duration
			for _, d := range []time.Duration{0, time.Second, 59 * time.Minute, 24 * time.Hour, 400 * 24 * time.Hour} {
				a := account(ver)
				reflect.ValueOf(a).Elem().Field(i).SetInt(int64(d))
				out = append(out, acVariant{fmt.Sprintf("%s = %v", n, d), a})
			}
		}
	}
	return
}

// text returns a message of n characters.
func text(class string, n int) string {
	var al []rune
	switch class {
	case "ascii":
		al = []rune("abcdefghijklmnopqrstuvwxyz0123456789 ,.")
	case "cjk":
		al = []rune("中文短信内容测试一二三四五六七八九十")
	case "mixed":
		al = []rune("a中b文1短é")
	case "latin":
		al = []rune("éüñß€")
	case "emoji":
		al = []rune("😀中🚀a")
	case "late": // one character that is not ASCII, at the end
		if n > 0 {
			return text("ascii", n-1) + "中"
		}
	case "early":
		if n > 0 {
			return "中" + text("ascii", n-1)
		}
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(al[(i*5+i/len(al))%len(al)])
	}
	return sb.String()
}

func ucs2(t string) (o []byte) {
	for _, c := range utf16.Encode([]rune(t)) {
		o = append(o, byte(c>>8), byte(c))
	}
	return
}

func gb(t string) []byte {
	o, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(t))
	if err != nil {
		panic(err)
	}
	return o
}

// msgFormat is 0 for plain ASCII text and 8 (UCS2) otherwise.
func msgFormat(t string) uint8 {
	for i := 0; i < len(t); i++ {
		if t[i] >= 0x80 {
			return 8
		}
	}
	return 0
}

// payload is what the text is on the wire in CMPP and SGIP, with the size of one short message.
func payload(t string) ([]byte, int, uint8) {
	if f := msgFormat(t); f == 8 {
		return ucs2(t), 140, 8
	}
	return []byte(t), 160, 0
}

// segments splits a payload; ref is the group reference octet.
func segments(p []byte, size int, ref byte) [][]byte {
	if len(p) < size {
		return [][]byte{p}
	}
	body := size - 6
	n := (len(p) + body - 1) / body
	var out [][]byte
	for i := 0; i < n; i++ {
		e := (i + 1) * body
		if e > len(p) {
			e = len(p)
		}
		out = append(out, append([]byte{5, 0, 3, ref, byte(n), byte(i + 1)}, p[i*body:e]...))
	}
	return out
}

func stamp(t time.Time) string { return t.Format("060102150405") + "032+" }

func md5sum(parts ...string) []byte {
	x := md5.Sum([]byte(strings.Join(parts, "")))
	return x[:]
}

func phones(n, w int) (o []string) {
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("138%08d", i*7919+1)
		if w > 11 && i%5 == 4 {
			p = string(pattern(fmt.Sprint(i), w))
		}
		o = append(o, p)
	}
	return
}

// mtCase is one call of a submit constructor.
type mtCase struct {
	what   string
	ac     *codec.AuthConf
	phones []string
	text   string
	seq    uint32
	opts   []codec.OptionFunc
	o      codec.MtOptions // what the options say, in plain form
}

func (c mtCase) String() string {
	return fmt.Sprintf("%s, %d destinations, %d bytes of text", c.what, len(c.phones), len(c.text))
}

// mtCases lists constructor calls: accounts one field at a time, destination counts, text classes and lengths.
func mtCases(r *lib.R, ver uint8, maxPhones int) (out []mtCase) {
	for _, a := range accounts(ver) {
		out = append(out, mtCase{what: "account " + a.what, ac: a.ac, phones: phones(2, 21), text: "hello"})
		if a.what == "base" {
			continue
		}
	}
	for n := 1; n <= maxPhones; n++ {
		out = append(out, mtCase{what: "destinations", ac: account(ver), phones: phones(n, 21), text: "hi"})
		if n%9 == 1 {
			out = append(out, mtCase{what: "destinations", ac: account(ver), phones: phones(n, 21), text: text("cjk", 200)})
		}
	}
	for _, cl := range []string{"ascii", "cjk", "mixed", "latin", "emoji"} {
		lim := r.Pick(420, 1400)
		for n := 0; n <= lim; n++ {
			if n > 330 && n%11 != 0 {
				continue
			}
			t := text(cl, n)
			if p, size, _ := payload(t); len(p) == size || len(p) >= 250*(size-6) {
				continue
			}
			out = append(out, mtCase{what: "text " + cl, ac: account(ver), phones: phones(1, 21), text: t})
		}
	}
	for i, q := range seqDomain {
		out = append(out, mtCase{what: fmt.Sprint("sequence ", i), ac: account(ver), phones: phones(1, 21), text: "x", seq: q})
	}
	return
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

// cmppSubmitRef is the reference for one segment of a CMPP submission.
func cmppSubmitRef(c mtCase, now time.Time, total, number int, piece []byte, f uint8) Vals {
	a := c.ac
	v := Vals{"pkTotal": u(uint64(total)), "pkNumber": u(uint64(number)), "needReport": u(uint64(a.NeedReport)), "level": u(uint64(a.DefaultMsgLevel)),
		"serviceId": s(a.ServiceId), "feeUserType": u(uint64(a.FeeUserType)), "feeTerm": s(a.FeeTerminalId), "feeTermType": u(uint64(a.FeeTerminalType)),
		"tpUdhi": u(b2u(total > 1)), "fmt": u(uint64(f)), "msgSrc": s(a.SmsDisplayNo), "feeType": s(a.FeeType), "feeCode": s(a.FeeCode),
		"validTime": s(stamp(now.Add(a.MtValidDuration))), "atTime": s(c.o.AtTime), "srcId": s(a.SmsDisplayNo + c.o.SpSubNo),
		"dests": l(c.phones...), "content": b(piece), "linkId": s(a.LinkId)}
	override(v, c.o, map[string]string{"NeedReport": "needReport", "MsgLevel": "level", "FeeUsertype": "feeUserType", "FeeTerminalType": "feeTermType",
		"ServiceId": "serviceId", "FeeTerminalId": "feeTerm", "FeeType": "feeType", "FeeCode": "feeCode", "ValidTime": "validTime", "LinkID": "linkId"})
	return v
}

// override lets an option win over the account value: strings when not empty, octets when set.
func override(v Vals, o codec.MtOptions, m map[string]string) {
	x := reflect.ValueOf(o)
	for opt, field := range m {
		f := x.FieldByName(opt)
		if f.Kind() == reflect.String {
			if f.String() != "" {
				v[field] = s(f.String())
			}
		} else if f.Uint() != 0xf {
			v[field] = u(f.Uint())
		}
	}
}

var noOptions = codec.MtOptions{NeedReport: 0xf, MsgLevel: 0xf, FeeUsertype: 0xf, FeeTerminalType: 0xf}

// checkCmppSubmit compares every frame of one constructor call with the reference, and what decoding gives back.
func checkCmppSubmit(r *lib.R, c mtCase) {
	codec.B32Seq = &counter32{n: 1000}
	ver := c.ac.Version
	key := fmt.Sprintf("cmpp%x NewSubmit %s", ver, c)
	r.Case(key)
	now := time.Now()
	r.Guard(key, func() any { return c.String() }, func() {
		ms := cmpp.NewSubmit(c.ac, c.phones, c.text, c.seq, c.opts...)
		pl, size, f := payload(c.text)
		var frames [][]byte
		for _, m := range ms {
			frames = append(frames, m.Encode())
		}
		ref := byte(0)
		if len(pl) >= size && len(frames) > 0 {
			at := len(frames[0]) - 8 - size
			if v3(ver) {
				at = len(frames[0]) - 20 - size
			}
			if at > 0 && len(frames[0]) > at+4 {
				ref = frames[0][at+3]
			}
		}
		want := segments(pl, size, ref)
		if len(want) != len(frames) {
			r.Fail("cmpp number of segments", map[string]any{"case": key, "want": len(want), "got": len(frames)})
		}
		for i, w := range want {
			v := cmppSubmitRef(c, now, len(want), i+1, w, f)
			fs := cmppSubmit(ver)
			fix(fs, v)
			seq := c.seq
			if i > 0 {
				seq = 1000 + uint32(i)
			}
			mustEqual(r, "cmpp submit encoding", fmt.Sprint(key, " segment ", i), packet12(cSubmit, seq, encode(fs, v)), frames[i])
			q := &cmpp.Submit{Version: cmpp.Version(ver)}
			if err := q.Decode(seq, frames[i][12:]); err != nil {
				r.Fail("cmpp submit does not decode what it encoded", map[string]any{"case": key, "err": err.Error()})
			}
		}
	})
}
