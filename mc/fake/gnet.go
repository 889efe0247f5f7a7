package fake

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"syscall"
	"time"

	"github.com/panjf2000/gnet/v2"

	"verif/mc/rt"
)

// Engine stands for gnet: event loops that hand the events of their connections to the handler, one at a time. Which of
// the events at hand a loop takes next is a choice of the scheduler. It follows gnet v2.1.0.
type Engine struct {
	E     *rt.Exec
	H     gnet.EventHandler
	Loops []*Loop
	Conns []*Conn
	next  int
	// FailWrites lets writes to a connection whose peer is gone fail (a choice at each write).
	FailWrites bool
	// Keep leaves the buffer of a loop as it is after an event; otherwise it is overwritten, as the next event may do.
	Keep bool
	// Hook, if set, is called after each event a loop has handled.
	Hook func()
}

// Loop is one event loop.
type Loop struct {
	g      *Engine
	name   string
	urgent []task
	async  []task
	conns  []*Conn // open ones
	buffer []byte  // every read goes through it
	cache  []byte
}

type task struct {
	f  func()
	by any // to order what was done before
}

// NewEngine starts n event loops.
func NewEngine(e *rt.Exec, h gnet.EventHandler, n int) *Engine {
	g := &Engine{E: e, H: h}
	for i := 0; i < n; i++ {
		l := &Loop{g: g, name: fmt.Sprintf("loop%d", i), buffer: make([]byte, 64<<10)}
		g.Loops = append(g.Loops, l)
		e.Go(l.name, l.run)
	}
	return g
}

// IsLoop tells whether a thread's name is that of a loop.
func IsLoop(name string) bool { return len(name) > 4 && name[:4] == "loop" }

func (l *Loop) ready() bool {
	if len(l.urgent) > 0 || len(l.async) > 0 {
		return true
	}
	for _, c := range l.conns {
		if c.readable() {
			return true
		}
	}
	return false
}

func (l *Loop) run() {
	e := l.g.E
	for {
		e.Until("poll", l.ready)
		var opts []func()
		if len(l.urgent) > 0 {
			opts = append(opts, func() {
				t := l.urgent[0]
				l.urgent = l.urgent[1:]
				e.Observe(t.by)
				t.f()
			})
		}
		for _, c := range l.conns {
			if c.readable() {
				opts = append(opts, func() { l.read(c) })
			}
		}
		if len(l.async) > 0 {
			opts = append(opts, func() {
				t := l.async[0]
				l.async = l.async[1:]
				e.Observe(t.by)
				t.f()
			})
		}
		opts[e.Choose(len(opts))]()
		if l.g.Hook != nil {
			l.g.Hook()
		}
	}
}

func (l *Loop) trigger(urgent bool, f func()) {
	t := task{f: f, by: new(int)}
	e := l.g.E
	e.Point("trigger")
	e.Publish(t.by)
	if urgent {
		l.urgent = append(l.urgent, t)
	} else {
		l.async = append(l.async, t)
	}
}

// Connect opens a connection on the next loop in turn.
func (g *Engine) Connect() *Conn {
	l := g.Loops[g.next%len(g.Loops)]
	g.next++
	return g.ConnectOn(l)
}

// ConnectOn opens a connection on a loop.
func (g *Engine) ConnectOn(l *Loop) *Conn {
	c := &Conn{l: l, n: len(g.Conns)}
	c.remote = &net.TCPAddr{IP: net.IPv4(10, 0, byte(c.n>>8), byte(c.n)), Port: 40000 + c.n}
	c.local = &net.TCPAddr{IP: net.IPv4(10, 1, 1, 1), Port: 9000}
	g.Conns = append(g.Conns, c)
	l.trigger(true, func() { l.open(c) })
	return c
}

// Tick runs OnTick every time its delay has passed, until stop answers true.
func (g *Engine) Tick(stop func() bool) {
	for !stop() {
		d, _ := g.H.OnTick()
		if d <= 0 {
			d = time.Millisecond
		}
		rt.Sleep(d)
	}
}

func (l *Loop) open(c *Conn) {
	c.opened = true
	c.Accepted = true
	l.conns = append(l.conns, c)
	out, action := l.g.H.OnOpen(c)
	if out != nil {
		c.emit(out)
	}
	c.Held = action == gnet.None
	l.act(c, action)
}

func (l *Loop) act(c *Conn, a gnet.Action) {
	if a == gnet.Close {
		l.close(c, nil)
	}
}

func (l *Loop) read(c *Conn) {
	if c.rst {
		l.close(c, &net.OpError{Op: "read", Err: syscall.ECONNRESET})
		return
	}
	n := copy(l.buffer, c.in)
	if n == 0 {
		l.close(c, &net.OpError{Op: "read", Err: syscall.ECONNRESET})
		return
	}
	c.in = c.in[n:]
	c.buffer = l.buffer[:n]
	switch l.g.H.OnTraffic(c) {
	case gnet.Close:
		l.close(c, nil)
	default:
		if c.opened {
			c.inbound = append(c.inbound, c.buffer...)
		}
	}
	// what is left in c.buffer stays there, as in gnet, for a Wake to find it a second time
	if !l.g.Keep {
		// the next read of any connection may overwrite the buffer
		for i := 0; i < n; i++ {
			l.buffer[i] = 0xEE
		}
	}
}

func (l *Loop) close(c *Conn, err error) {
	if !c.opened {
		return
	}
	for i, o := range l.conns {
		if o == c {
			l.conns = append(l.conns[:i:i], l.conns[i+1:]...)
			break
		}
	}
	c.Closed = true
	c.ClosedAt = l.g.E.Now()
	if c.onClosed != nil {
		c.onClosed()
	}
	l.g.H.OnClose(c, err)
	c.Done = true
	c.opened = false
	rt.F("gnet.conn.ctx", true, c)
	c.ctx = nil
	c.local, c.remote = nil, nil
	c.buffer, c.inbound = nil, nil
}

// Write is what the server wrote at one time.
type Write struct {
	At   time.Duration
	Data []byte
}

// Conn is a connection as the server sees it, and the peer's end of it.
type Conn struct {
	l       *Loop
	n       int
	opened  bool
	ctx     any
	local   net.Addr
	remote  net.Addr
	buffer  []byte
	inbound []byte

	in   []byte // sent by the peer, not read yet
	eof  bool
	rst  bool
	sink func([]byte)

	onClosed func()

	Accepted bool // OnOpen was called
	Held     bool // OnOpen has let it in
	Closed   bool // the server has closed it
	Done     bool // OnClose has returned
	ClosedAt time.Duration
	Writes   []Write
	Asked    []Write // by AsyncWrite
}

var _ gnet.Conn = (*Conn)(nil)

func (c *Conn) readable() bool { return c.opened && (len(c.in) > 0 || c.eof || c.rst) }

// --- the peer's side ---

// N is the number of the connection.
func (c *Conn) N() int { return c.n }

// Send sends octets to the server.
func (c *Conn) Send(b []byte) {
	e := c.l.g.E
	e.Point("client send")
	if !c.Closed && !c.eof && !c.rst {
		c.in = append(c.in[:len(c.in):len(c.in)], b...)
	}
}

// Hangup closes the connection from the peer's side; what was sent before is still read.
func (c *Conn) Hangup() {
	c.l.g.E.Point("client close")
	c.eof = true
}

// Reset closes the connection from the peer's side at once.
func (c *Conn) Reset() {
	c.l.g.E.Point("client reset")
	c.rst = true
}

// Output is all the server wrote.
func (c *Conn) Output() (b []byte) {
	for _, w := range c.Writes {
		b = append(b, w.Data...)
	}
	return
}

// Packet is one packet of the output.
type Packet struct {
	At   time.Duration
	Data []byte
}

// Packets cuts the output into packets; rest is what does not make up a packet.
func (c *Conn) Packets() (ps []Packet, rest []byte) {
	var at []time.Duration
	var b []byte
	for _, w := range c.Writes {
		for range w.Data {
			at = append(at, w.At)
		}
		b = append(b, w.Data...)
	}
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 4 || n > len(b) {
			break
		}
		ps = append(ps, Packet{at[n-1], b[:n]})
		b, at = b[n:], at[n:]
	}
	return ps, b
}

func (c *Conn) emit(b []byte) {
	d := append([]byte(nil), b...)
	c.Writes = append(c.Writes, Write{c.l.g.E.Now(), d})
	if c.sink != nil {
		c.sink(d)
	}
}

// --- gnet.Conn ---

// use announces that the buffers of a connection are in use: they are its loop's, and nobody else may be at them meanwhile.
func (c *Conn) use(class string) func() {
	rt.MW(class, c)
	return func() { rt.ME(class, c) }
}

func (c *Conn) write(b []byte) (int, error) {
	defer c.use("gnet.conn.out")()
	if c.eof || c.rst {
		if c.l.g.FailWrites && c.l.g.E.Choose(2) == 1 {
			c.l.close(c, &net.OpError{Op: "write", Err: syscall.EPIPE})
			return -1, syscall.EPIPE
		}
		return len(b), nil
	}
	c.emit(b)
	return len(b), nil
}

func (c *Conn) Read(p []byte) (n int, err error) {
	defer c.use("gnet.conn.in")()
	n = copy(p, c.inbound)
	c.inbound = c.inbound[n:]
	if n < len(p) {
		m := copy(p[n:], c.buffer)
		c.buffer = c.buffer[m:]
		n += m
	}
	return
}

func (c *Conn) Peek(n int) ([]byte, error) {
	defer c.use("gnet.conn.in")()
	total := len(c.inbound) + len(c.buffer)
	if n > total {
		return nil, io.ErrShortBuffer
	}
	if n <= 0 {
		n = total
	}
	if len(c.inbound) == 0 {
		return c.buffer[:n], nil
	}
	if len(c.inbound) >= n {
		return c.inbound[:n], nil
	}
	c.l.cache = append(append(c.l.cache[:0], c.inbound...), c.buffer[:n-len(c.inbound)]...)
	return c.l.cache, nil
}

func (c *Conn) Next(n int) ([]byte, error) {
	b, err := c.Peek(n)
	if err != nil {
		return nil, err
	}
	if len(b) > 0 {
		_, _ = c.Discard(len(b))
	}
	return b, nil
}

func (c *Conn) Discard(n int) (int, error) {
	defer c.use("gnet.conn.in")()
	a, b := len(c.inbound), len(c.buffer)
	if a+b < n || n <= 0 {
		c.buffer, c.inbound = c.buffer[:0], nil
		return a + b, nil
	}
	k := n
	if k > a {
		k = a
	}
	c.inbound = c.inbound[k:]
	c.buffer = c.buffer[n-k:]
	return n, nil
}

func (c *Conn) InboundBuffered() int  { return len(c.inbound) + len(c.buffer) }
func (c *Conn) OutboundBuffered() int { return 0 }
func (c *Conn) Flush() error          { return nil }

func (c *Conn) WriteTo(w io.Writer) (n int64, err error) {
	b, _ := c.Next(-1)
	m, err := w.Write(b)
	return int64(m), err
}

func (c *Conn) Write(p []byte) (int, error) {
	if !c.opened {
		return -1, net.ErrClosed
	}
	return c.write(p)
}

func (c *Conn) Writev(bs [][]byte) (n int, err error) {
	var b []byte
	for _, x := range bs {
		b = append(b, x...)
	}
	return c.Write(b)
}

func (c *Conn) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err == nil {
		_, err = c.Write(b)
	}
	return int64(len(b)), err
}

func (c *Conn) AsyncWrite(b []byte, cb gnet.AsyncCallback) error {
	c.Asked = append(c.Asked, Write{c.l.g.E.Now(), append([]byte(nil), b...)})
	c.l.trigger(false, func() {
		if !c.opened {
			return
		}
		_, _ = c.write(b)
		if cb != nil {
			_ = cb(c)
		}
	})
	return nil
}

func (c *Conn) AsyncWritev(bs [][]byte, cb gnet.AsyncCallback) error {
	for _, b := range bs {
		c.Asked = append(c.Asked, Write{c.l.g.E.Now(), append([]byte(nil), b...)})
	}
	c.l.trigger(false, func() {
		if !c.opened {
			return
		}
		_, _ = c.Writev(bs)
		if cb != nil {
			_ = cb(c)
		}
	})
	return nil
}

func (c *Conn) Wake(cb gnet.AsyncCallback) error {
	c.l.trigger(true, func() {
		if c.opened {
			c.l.act(c, c.l.g.H.OnTraffic(c))
		}
		if cb != nil {
			_ = cb(c)
		}
	})
	return nil
}

func (c *Conn) CloseWithCallback(cb gnet.AsyncCallback) error {
	c.l.trigger(false, func() {
		c.l.close(c, nil)
		if cb != nil {
			_ = cb(c)
		}
	})
	return nil
}

func (c *Conn) Close() error { return c.CloseWithCallback(nil) }

func (c *Conn) Context() any {
	rt.F("gnet.conn.ctx", false, c)
	return c.ctx
}

func (c *Conn) SetContext(x any) {
	rt.F("gnet.conn.ctx", true, c)
	c.ctx = x
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

var errUnsupported = errors.New("unsupported operation")

func (c *Conn) SetDeadline(time.Time) error            { return errUnsupported }
func (c *Conn) SetReadDeadline(time.Time) error        { return errUnsupported }
func (c *Conn) SetWriteDeadline(time.Time) error       { return errUnsupported }
func (c *Conn) Fd() int                                { return 1000 + c.n }
func (c *Conn) Dup() (int, error)                      { return 0, errUnsupported }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }

// Attach gives what the server writes to sink, and tells of the close.
func (c *Conn) Attach(sink func([]byte), closed func()) { c.sink, c.onClosed = sink, closed }
