// Package wire speaks the three protocols, written from their layouts and independent of the code under test.
package wire

import (
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
)

// Proto is a protocol and version.
type Proto struct {
	Name string // cmpp, sgip, smgp
	Ver  byte
}

var (
	CMPP20 = Proto{"cmpp", 0x20}
	CMPP30 = Proto{"cmpp", 0x30}
	SGIP   = Proto{"sgip", 0x12}
	SMGP   = Proto{"smgp", 0x30}
	All    = []Proto{CMPP20, CMPP30, SGIP, SMGP}
)

func (p Proto) String() string {
	if p.Name == "cmpp" {
		return fmt.Sprintf("cmpp%x", p.Ver)
	}
	return p.Name
}

func (p Proto) v3() bool { return p.Ver>>4 == 3 }

// Kind of a packet.
type Kind int

const (
	Login Kind = iota
	Submit
	Deliver
	Active
	Term
	Report // SGIP only
)

var kindNames = []string{"login", "submit", "deliver", "active", "logout", "report"}

func (k Kind) String() string { return kindNames[k] }

var cmds = map[string]map[Kind]uint32{
	"cmpp": {Login: 1, Term: 2, Submit: 4, Deliver: 5, Active: 8},
	"sgip": {Login: 1, Term: 2, Submit: 3, Deliver: 4, Report: 5},
	"smgp": {Login: 1, Submit: 2, Deliver: 3, Active: 4, Term: 6},
}

// Cmd is the command id of a request; Has tells whether the protocol has it.
func (p Proto) Cmd(k Kind) uint32 { return cmds[p.Name][k] }
func (p Proto) Has(k Kind) bool   { return cmds[p.Name][k] != 0 }

// Seq is a sequence number (only C counts outside of SGIP).
type Seq struct{ A, B, C uint32 }

func S(n uint32) Seq { return Seq{3037196688, 1118204500, n} }

// Raw builds a packet.
func (p Proto) Raw(cmd uint32, seq Seq, body ...[]byte) []byte {
	var b []byte
	u32 := func(n uint32) { b = binary.BigEndian.AppendUint32(b, n) }
	u32(0)
	u32(cmd)
	if p.Name == "sgip" {
		u32(seq.A)
		u32(seq.B)
	}
	u32(seq.C)
	for _, x := range body {
		b = append(b, x...)
	}
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

func u8(n int) []byte { return []byte{byte(n)} }
func u32(n uint32) []byte {
	return binary.BigEndian.AppendUint32(nil, n)
}
func str(s string, w int) []byte {
	b := make([]byte, w)
	copy(b, s)
	return b
}
func zero(n int) []byte { return make([]byte, n) }

// Account is what a client logs in with.
type Account struct {
	Id, Login, Secret string
	Ver               byte
	Time              uint32 // MMDDHHMMSS
}

// LoginReq is the login request of an account.
func (p Proto) LoginReq(a Account, seq Seq) []byte {
	ts := fmt.Sprintf("%010d", a.Time)
	switch p.Name {
	case "cmpp":
		m := md5.Sum([]byte(a.Id + strings.Repeat("\x00", 9) + a.Secret + ts))
		return p.Raw(1, seq, str(a.Id, 6), m[:], u8(int(a.Ver)), u32(a.Time))
	case "smgp":
		m := md5.Sum([]byte(a.Id + strings.Repeat("\x00", 7) + a.Secret + ts))
		return p.Raw(1, seq, str(a.Id, 8), m[:], u8(2), u32(a.Time), u8(int(a.Ver)))
	}
	return p.Raw(1, seq, u8(1), str(a.Login, 16), str(a.Secret, 16), zero(8))
}

// Proof is the digest in the answer to the login of an account, by which the gateway shows that it knows the secret.
func (p Proto) Proof(a Account) []byte {
	if p.Name == "sgip" {
		return nil
	}
	b := p.LoginReq(a, Seq{})[12:]
	at, st := 6, zero(4)
	if p.Name == "smgp" {
		at = 8
	} else if !p.v3() {
		st = zero(1)
	}
	m := md5.Sum(append(append(st, b[at:at+16]...), a.Secret...))
	return m[:]
}

// LoginRsp is the answer to a login.
func (p Proto) LoginRsp(seq Seq, status uint32) []byte {
	const c = 0x80000001
	switch p.String() {
	case "cmpp20":
		return p.Raw(c, seq, u8(int(status)), zero(16), u8(int(p.Ver)))
	case "cmpp30", "smgp":
		return p.Raw(c, seq, u32(status), zero(16), u8(int(p.Ver)))
	}
	return p.Raw(c, seq, u8(int(status)), zero(8))
}

// SubmitReq is a submission of plain ASCII text.
func (p Proto) SubmitReq(seq Seq, src, dest, text string) []byte {
	return p.SubmitTo(seq, src, []string{dest}, text)
}

// SubmitTo is a submission to several numbers.
func (p Proto) SubmitTo(seq Seq, src string, dests []string, text string) []byte {
	var to []byte
	n := u8(len(dests))
	switch p.Name {
	case "cmpp":
		w, tail := 21, zero(8)
		var fee, dst []byte
		if p.v3() {
			w, tail, fee, dst = 32, zero(20), u8(0), u8(0)
		}
		for _, x := range dests {
			to = append(to, str(x, w)...)
		}
		return p.Raw(4, seq, zero(8), u8(1), u8(1), u8(1), u8(1), str("service", 10), u8(2), zero(w), fee,
			u8(0), u8(0), u8(0), str("123456", 6), str("05", 2), str("free", 6), zero(17), zero(17),
			str(src, 21), n, to, dst, u8(len(text)), []byte(text), tail)
	case "smgp":
		for _, x := range dests {
			to = append(to, str(x, 21)...)
		}
		return p.Raw(2, seq, u8(6), u8(1), u8(1), str("service", 10), str("00", 2), str("0", 6), str("0", 6), u8(0),
			zero(17), zero(17), str(src, 21), zero(21), n, to, u8(len(text)), []byte(text), zero(8))
	}
	for _, x := range dests {
		to = append(to, str("86"+x, 21)...)
	}
	return p.Raw(3, seq, str(src, 21), zero(21), n, to, str("12345", 5), str("service", 10), u8(1),
		str("0", 6), str("0", 6), u8(0), u8(0), u8(1), zero(16), zero(16), u8(1), u8(0), u8(0), u8(0), u8(0),
		u32(uint32(len(text))), []byte(text), zero(8))
}

// Octet is a field of one octet, At its offset in a submission to one number.
type Octet struct {
	Name string
	At   int
}

// Octets are the fields of one octet of a submission, without count and length.
func (p Proto) Octets() (out []Octet) {
	add := func(at int, names ...string) {
		for i, n := range names {
			out = append(out, Octet{n, p.HeadLen() + at + i})
		}
	}
	switch p.Name {
	case "cmpp":
		add(8, "total", "number", "report", "level")
		add(22, "fee user")
		w := 21
		if p.v3() {
			w = 33
			add(8+4+10+1+33-1, "fee kind")
			add(8+4+10+1+33+3+6+2+6+34+21+1+32, "number kind")
		}
		add(23+w, "pid", "udhi", "format")
	case "smgp":
		add(0, "kind", "report", "level")
		add(3+10+2+6+6, "format")
	default:
		o := 21 + 21 + 1 + 21 + 5 + 10
		add(o, "fee kind")
		o += 1 + 6 + 6
		add(o, "agent", "cause", "priority")
		add(o+3+32, "report", "pid", "udhi", "coding", "kind")
	}
	return
}

// IdLen is the length of a message id.
func (p Proto) IdLen() int {
	switch p.Name {
	case "cmpp":
		return 8
	case "smgp":
		return 10
	}
	return 0
}

// SubmitRsp is the answer to a submission.
func (p Proto) SubmitRsp(seq Seq, id []byte, status uint32) []byte {
	switch p.String() {
	case "cmpp20":
		return p.Raw(0x80000004, seq, id, u8(int(status)))
	case "cmpp30":
		return p.Raw(0x80000004, seq, id, u32(status))
	case "smgp":
		return p.Raw(0x80000002, seq, id, u32(status))
	}
	return p.Raw(0x80000003, seq, u8(int(status)), zero(8))
}

// DeliverReq is a message of a mobile (plain ASCII), id the delivery's own id.
func (p Proto) DeliverReq(seq Seq, id []byte, from, to, text string) []byte {
	return p.deliver(seq, id, from, to, []byte(text), 0)
}

// ReportReq is the report on message of.
func (p Proto) ReportReq(seq Seq, id, of []byte, stat, from, to string) []byte {
	switch p.Name {
	case "cmpp":
		w := 21
		if p.v3() {
			w = 32
		}
		c := append([]byte(nil), of...)
		c = append(c, str(stat, 7)...)
		c = append(c, "26111820452611182046"...)
		c = append(c, str(from, w)...)
		c = append(c, zero(4)...)
		return p.deliver(seq, id, from, to, c, 1)
	case "smgp":
		c := append([]byte("id:"), of...)
		c = append(c, " sub:001 dlvrd:001 submit date:2611182045 done date:2611182046 stat:"+stat+" err:000 text:"...)
		c = append(c, zero(20)...)
		return p.deliver(seq, id, from, to, c, 1)
	}
	return nil
}

func (p Proto) deliver(seq Seq, id []byte, from, to string, text []byte, report int) []byte {
	switch p.Name {
	case "cmpp":
		w, tail := 21, zero(8)
		var typ []byte
		if p.v3() {
			w, tail, typ = 32, zero(20), u8(0)
		}
		return p.Raw(5, seq, id, str(to, 21), str("service", 10), u8(0), u8(0), u8(0), str(from, w), typ, u8(report),
			u8(len(text)), text, tail)
	case "smgp":
		return p.Raw(3, seq, id, u8(report), u8(0), str("20261118204500", 14), str(from, 21), str(to, 21),
			u8(len(text)), text, zero(8))
	}
	return nil
}

// DeliverRsp acknowledges a delivery.
func (p Proto) DeliverRsp(seq Seq, id []byte, status uint32) []byte {
	switch p.String() {
	case "cmpp20":
		return p.Raw(0x80000005, seq, id, u8(int(status)))
	case "cmpp30":
		return p.Raw(0x80000005, seq, id, u32(status))
	case "smgp":
		return p.Raw(0x80000003, seq, id, u32(status))
	}
	return p.Raw(0x80000004, seq, u8(int(status)), zero(8))
}

// ActiveReq and ActiveRsp are the heartbeat and its answer.
func (p Proto) ActiveReq(seq Seq) []byte { return p.Raw(p.Cmd(Active), seq) }
func (p Proto) ActiveRsp(seq Seq) []byte {
	if p.Name == "cmpp" {
		return p.Raw(0x80000000|p.Cmd(Active), seq, u8(0))
	}
	return p.Raw(0x80000000|p.Cmd(Active), seq)
}

// TermReq and TermRsp are the logout and its answer.
func (p Proto) TermReq(seq Seq) []byte { return p.Raw(p.Cmd(Term), seq) }
func (p Proto) TermRsp(seq Seq) []byte { return p.Raw(0x80000000|p.Cmd(Term), seq) }

// Pkt is a packet read from the wire.
type Pkt struct {
	Kind   Kind
	Rsp    bool
	Seq    Seq
	Status uint32
	Id     string // message id, hex
	Of     string // of a report: the id it reports on, hex
	Stat   string
	From   string
	To     string
	Text   string
	Err    string
	Len    int
	Auth   []byte // of a login answer: the gateway's digest
}

func (k Pkt) String() string {
	s := k.Kind.String()
	if k.Rsp {
		s += "-rsp"
	}
	if k.Of != "" {
		s = "report"
	}
	s += fmt.Sprintf("#%d", k.Seq.C)
	if k.Rsp {
		s += fmt.Sprintf("=%d", k.Status)
	}
	if k.Err != "" {
		s += " (" + k.Err + ")"
	}
	return s
}

// HeadLen is the length of the header.
func (p Proto) HeadLen() int {
	if p.Name == "sgip" {
		return 20
	}
	return 12
}

func trim(b []byte) string { return strings.TrimRight(string(b), "\x00") }

// Parse reads one packet.
func (p Proto) Parse(b []byte) (k Pkt) {
	k.Len = len(b)
	h := p.HeadLen()
	if len(b) < h {
		k.Err = "shorter than a header: " + hex.EncodeToString(b)
		return
	}
	if int(binary.BigEndian.Uint32(b)) != len(b) {
		k.Err = "length field is wrong: " + hex.EncodeToString(b)
		return
	}
	cmd := binary.BigEndian.Uint32(b[4:])
	k.Rsp = cmd>>31 == 1
	known := false
	for kind, c := range cmds[p.Name] {
		if c == cmd&0x7fffffff {
			k.Kind, known = kind, true
		}
	}
	if !known {
		k.Err = "unknown command: " + hex.EncodeToString(b)
		return
	}
	k.Seq.C = binary.BigEndian.Uint32(b[h-4:])
	if p.Name == "sgip" {
		k.Seq.A = binary.BigEndian.Uint32(b[8:])
		k.Seq.B = binary.BigEndian.Uint32(b[12:])
	}
	d := b[h:]
	need := func(n ...int) bool {
		for _, x := range n {
			if len(d) == x {
				return true
			}
		}
		k.Err = fmt.Sprintf("%d octets in the body of %s: %s", len(d), k.Kind, hex.EncodeToString(b))
		return false
	}
	num := func(b []byte) (n uint32) {
		for _, x := range b {
			n = n<<8 | uint32(x)
		}
		return
	}
	il := p.IdLen()
	switch {
	case k.Rsp && k.Kind == Login:
		switch p.String() {
		case "cmpp20":
			if need(18) {
				k.Status, k.Auth = num(d[:1]), d[1:17]
			}
		case "cmpp30", "smgp":
			if need(21) {
				k.Status, k.Auth = num(d[:4]), d[4:20]
			}
		default:
			if need(9) {
				k.Status = num(d[:1])
			}
		}
	case k.Rsp && (k.Kind == Submit || k.Kind == Deliver || k.Kind == Report):
		if p.Name == "sgip" {
			if need(9) {
				k.Status = num(d[:1])
			}
			break
		}
		w := 4
		if p.String() == "cmpp20" {
			w = 1
		}
		if need(il + w) {
			k.Id = hex.EncodeToString(d[:il])
			k.Status = num(d[il:])
		}
	case k.Rsp && k.Kind == Active && p.Name == "cmpp":
		need(1)
	case k.Kind == Active || k.Kind == Term:
		need(0)
	case k.Kind == Deliver && p.Name == "cmpp":
		w, tail := 21, 8
		if p.v3() {
			w, tail = 33, 20
		}
		min := 8 + 21 + 10 + 3 + w + 2 + tail
		if len(d) < min {
			need(min)
			break
		}
		k.Id = hex.EncodeToString(d[:8])
		k.To = trim(d[8:29])
		k.From = trim(d[42 : 42+w-w/33]) // the octet after the number is its kind
		o := 42 + w
		n := int(d[o+1])
		if !need(min + n) {
			break
		}
		c := d[o+2 : o+2+n]
		if d[o] == 1 {
			t := 21
			if p.v3() {
				t = 32
			}
			if n != 39+t {
				k.Err = fmt.Sprintf("%d octets in a status report: %s", n, hex.EncodeToString(b))
				break
			}
			k.Of, k.Stat = hex.EncodeToString(c[:8]), trim(c[8:15])
			if r := trim(c[35 : 35+t]); r != k.From {
				k.Err = fmt.Sprintf("the report is about %q, its packet about %q", r, k.From)
			}
		} else {
			k.Text = string(c)
		}
	case k.Kind == Deliver && p.Name == "smgp":
		min := 10 + 1 + 1 + 14 + 21 + 21 + 1 + 8
		if len(d) < min {
			need(min)
			break
		}
		k.Id = hex.EncodeToString(d[:10])
		k.From, k.To = trim(d[26:47]), trim(d[47:68])
		n := int(d[68])
		if !need(min + n) {
			break
		}
		c := d[69 : 69+n]
		if d[10] == 1 {
			i := strings.Index(string(c), " stat:")
			if n < 13 || i < 0 || len(c) < i+13 {
				k.Err = "report without state"
				break
			}
			k.Of, k.Stat = hex.EncodeToString(c[3:13]), string(c[i+6:i+13])
		} else {
			k.Text = string(c)
		}
	case k.Kind == Submit && !k.Rsp:
		k.submit(p, d)
	}
	return
}

// submit reads destination and content of a submission.
func (k *Pkt) submit(p Proto, d []byte) {
	var src, dst, n, w int // offsets and number of destinations
	switch p.String() {
	case "cmpp20":
		src, dst, w = 8+4+10+1+21+3+6+2+6+34, 8+4+10+1+21+3+6+2+6+34+21+1, 21
	case "cmpp30":
		src, dst, w = 8+4+10+1+33+3+6+2+6+34, 8+4+10+1+33+3+6+2+6+34+21+1, 32
	case "smgp":
		src, dst, w = 3+10+2+6+6+1+34, 3+10+2+6+6+1+34+21+21+1, 21
	case "sgip":
		src, dst, w = 0, 43, 21
	}
	if len(d) < dst {
		k.Err = "submission too short"
		return
	}
	n = int(d[dst-1])
	o := dst + n*w
	l, lw := 0, 1
	switch p.String() {
	case "cmpp30":
		o++
	case "sgip":
		o += 5 + 10 + 1 + 6 + 6 + 3 + 32 + 5
		lw = 4
	}
	if n < 1 || len(d) < o+lw {
		k.Err = "submission too short"
		return
	}
	for _, x := range d[o : o+lw] {
		l = l<<8 | int(x)
	}
	if len(d) < o+lw+l {
		k.Err = "submission too short"
		return
	}
	k.From, k.To, k.Text = trim(d[src:src+21]), trim(d[dst:dst+w]), string(d[o+lw:o+lw+l])
}
