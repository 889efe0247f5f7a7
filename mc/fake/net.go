package fake

import (
	"encoding/binary"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verif/mc/rt"
)

// End is a client's end of a TCP connection.
type End struct {
	E      *rt.Exec
	N      int
	Addr   string
	chunks [][]byte // what has arrived; a read returns no more than the first
	eof    bool     // the peer has closed its side
	rst    bool     // the peer has reset the connection
	rdl    time.Time
	wdl    time.Time

	// Stalled: the send buffer is full and nobody reads.
	Stalled bool
	// FailAt, if positive, is the number of the write that fails (and breaks the connection).
	FailAt int
	// OnWrite and OnClose tell the other side.
	OnWrite func([]byte)
	OnClose func()

	Closed   bool // by the client
	ClosedAt time.Duration
	Writes   []Write
	Reads    int
	asked    int
}

var _ net.Conn = (*End)(nil)

// NewEnd returns an open connection.
func NewEnd(e *rt.Exec, n int) *End { return &End{E: e, N: n} }

// --- the peer's side; without scheduling points ---

// Push lets octets arrive, to be read at most in this portion.
func (c *End) Push(b []byte) {
	if len(b) > 0 && !c.eof && !c.rst {
		c.chunks = append(c.chunks, append([]byte(nil), b...))
	}
}

// EOF closes the peer's side after what it has sent.
func (c *End) EOF() { c.eof = true }

// RST breaks the connection at once; what has arrived before can still be read, as on Linux.
func (c *End) RST() { c.rst = true }

// Broken tells whether the peer has reset the connection.
func (c *End) Broken() bool { return c.rst }

// Unread tells whether something has arrived that was not read.
func (c *End) Unread() bool { return len(c.chunks) > 0 }

// Packets cuts what the client wrote into packets; rest is what does not make up a packet.
func (c *End) Packets() (ps []Packet, rest []byte) {
	var at []time.Duration
	var b []byte
	for _, w := range c.Writes {
		for range w.Data {
			at = append(at, w.At)
		}
		b = append(b, w.Data...)
	}
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 4 || n > len(b) {
			break
		}
		ps = append(ps, Packet{at[n-1], b[:n]})
		b, at = b[n:], at[n:]
	}
	return ps, b
}

// --- net.Conn ---

func (c *End) err(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *End) Read(p []byte) (int, error) {
	if rt.Killing() {
		return 0, net.ErrClosed
	}
	c.E.Until("read", func() bool {
		return len(c.chunks) > 0 || c.eof || c.rst || c.Closed || past(c.rdl)
	})
	c.Reads++
	switch {
	case c.Closed:
		return 0, c.err("read", net.ErrClosed)
	case past(c.rdl):
		return 0, c.err("read", os.ErrDeadlineExceeded)
	case len(p) == 0:
		return 0, nil
	case len(c.chunks) > 0:
		n := copy(p, c.chunks[0])
		if n == len(c.chunks[0]) {
			c.chunks = c.chunks[1:]
		} else {
			c.chunks[0] = c.chunks[0][n:]
		}
		return n, nil
	case c.rst:
		return 0, c.err("read", syscall.ECONNRESET)
	}
	return 0, io.EOF
}

func (c *End) Write(p []byte) (int, error) {
	if rt.Killing() {
		return 0, net.ErrClosed
	}
	c.asked++
	k := c.asked
	c.E.Until("write", func() bool { return !c.Stalled || c.Closed || c.rst || past(c.wdl) })
	switch {
	case c.Closed:
		return 0, c.err("write", net.ErrClosed)
	case past(c.wdl):
		return 0, c.err("write", os.ErrDeadlineExceeded)
	case c.rst || c.FailAt > 0 && k >= c.FailAt:
		return 0, c.err("write", syscall.EPIPE)
	}
	d := append([]byte(nil), p...)
	c.Writes = append(c.Writes, Write{c.E.Now(), d})
	if c.OnWrite != nil {
		c.OnWrite(d)
	}
	return len(p), nil
}

func (c *End) Close() error {
	if rt.Killing() {
		return nil
	}
	c.E.Point("close connection")
	if c.Closed {
		return c.err("close", net.ErrClosed)
	}
	c.Closed = true
	c.ClosedAt = c.E.Now()
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}

func (c *End) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000 + c.N}
}
func (c *End) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 1, 1, 1), Port: 9000} }

func (c *End) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *End) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.alarm(t)
	return nil
}

func (c *End) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	c.alarm(t)
	return nil
}

// alarm makes the scheduler look again when the time has come.
func (c *End) alarm(t time.Time) {
	if !t.IsZero() && !rt.Killing() {
		rt.AfterFunc(time.Until(t), func() {})
	}
}

// Join makes one portion of all that has arrived and was not read.
func (c *End) Join() {
	var b []byte
	for _, x := range c.chunks {
		b = append(b, x...)
	}
	if len(b) > 0 {
		c.chunks = [][]byte{b}
	}
}
