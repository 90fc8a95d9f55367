// Package link simulates the byte line between the host and a ventilation unit, and the registry of what can be
// dialled, opened and listened on.
package link

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/ti-mo/comfo/zsim/rt"
)

// Ev is one event at the host's end of a line.
type Ev struct {
	Seq  uint64
	T    int64
	Kind byte // 'W' written, 'w' write failed after Data, 'D' delivered, 'R' read returned, 'E' read error/eof delivered,
	// 'e' read error reported to the host, 'C' closed by the host, 'b' write begins
	Data []byte
	Task int
}

// seg is a delivered piece of input: data or an error.
type seg struct {
	data   []byte
	err    error
	sticky bool
}

// Peer receives what the host writes.
type Peer interface {
	FromHost(data []byte)
	HostClosed()
}

// WriteFault decides what happens to one write: how many bytes get through, how long it stalls, and the error.
type WriteFault struct {
	N     int
	Stall int64
	Err   error
}

// Conn is the host's end of a line.
type Conn struct {
	W    *rt.World
	Name string
	Peer Peer

	in      []seg
	rq      rt.WaitQ
	closed  bool
	reading int
	MaxRead int // most reads ever outstanding at once
	Log     []Ev

	// OnWrite, if set, may inject a fault into a write.
	OnWrite func(p []byte) *WriteFault
	// ReadLimit, if set, limits how much one Read returns (at least 1).
	ReadLimit func(n int) int
	// EmptyRead, if set and true, makes a Read return (0, nil).
	EmptyRead func() bool
	TCP       bool

	wmu           rt.Mutex
	writing       bool
	rdead, wdead  int64
	HostClosedSeq uint64
}

func (c *Conn) log(kind byte, data []byte) {
	w := c.W
	seq := w.Event("line", "%s %s", c.Name, describe(kind, data))
	w.Fold(data)
	c.Log = append(c.Log, Ev{Seq: seq, T: w.Now(), Kind: kind, Data: append([]byte(nil), data...), Task: w.CurTaskID()})
}

func describe(kind byte, data []byte) string {
	n := map[byte]string{'W': "host wrote", 'w': "host write failed after", 'D': "delivered to host", 'R': "host read",
		'E': "error delivered to host", 'e': "host read error", 'C': "host closed", 'b': "host starts writing"}[kind]
	const hex = "0123456789abcdef"
	s := n
	for i, b := range data {
		if i == 48 {
			s += " ..."
			break
		}
		s += " " + string([]byte{hex[b>>4], hex[b&15]})
	}
	return s
}

// Deliver puts bytes into the host's input; called from the unit's side.
func (c *Conn) Deliver(data []byte) {
	if c.closed || len(data) == 0 {
		return
	}
	d := append([]byte(nil), data...)
	c.in = append(c.in, seg{data: d})
	c.log('D', d)
	c.rq.WakeAll(c.W)
}

// Fail delivers a read error; sticky errors are reported by every later read.
func (c *Conn) Fail(err error, sticky bool) {
	if c.closed {
		return
	}
	c.in = append(c.in, seg{err: err, sticky: sticky})
	c.log('E', []byte(err.Error()))
	c.rq.WakeAll(c.W)
}

// Buffered is the number of delivered, unread bytes.
func (c *Conn) Buffered() int {
	n := 0
	for _, s := range c.in {
		n += len(s.data)
	}
	return n
}

// Pending reports whether there is anything unread, data or errors.
func (c *Conn) Pending() bool { return len(c.in) > 0 }

// Broken reports that the line is at a sticky error.
func (c *Conn) Broken() bool {
	for _, s := range c.in {
		if s.sticky {
			return true
		}
	}
	return false
}

// Reading is the number of reads outstanding.
func (c *Conn) Reading() int { return c.reading }

// Closed reports that the host closed its end.
func (c *Conn) Closed() bool { return c.closed }

func (c *Conn) closedErr() error {
	if c.TCP {
		return net.ErrClosed
	}
	return os.ErrClosed
}

// Read is io.Reader.
func (c *Conn) Read(p []byte) (int, error) {
	w := c.W
	if w.Reaping() {
		w.Park("reaped")
	}
	rt.Gosched()
	if len(p) == 0 {
		return 0, nil
	}
	c.reading++
	if c.reading > c.MaxRead {
		c.MaxRead = c.reading
	}
	defer func() { c.reading-- }()
	if c.EmptyRead != nil && c.EmptyRead() {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, c.closedErr()
		}
		if c.rdead != 0 && w.Now() >= c.rdead {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.in) > 0 {
			s := &c.in[0]
			if s.err != nil {
				err := s.err
				if !s.sticky {
					c.in = c.in[1:]
				}
				c.log('e', []byte(err.Error()))
				return 0, err
			}
			n := len(s.data)
			if n > len(p) {
				n = len(p)
			}
			if c.ReadLimit != nil {
				if l := c.ReadLimit(n); l >= 1 && l < n {
					n = l
				}
			}
			copy(p, s.data[:n])
			got := s.data[:n]
			s.data = s.data[n:]
			if len(s.data) == 0 {
				c.in = c.in[1:]
			}
			c.log('R', got)
			return n, nil
		}
		if c.rdead != 0 {
			c.rq.WaitUntil(w, "reading the line", c.rdead)
		} else {
			c.rq.Wait(w, "reading the line")
		}
	}
}

// ReadWithin reads with a time limit, the end of which is an end of file.
func (c *Conn) ReadWithin(p []byte, d int64) (int, error) {
	c.rdead = c.W.Now() + d
	n, err := c.Read(p)
	c.rdead = 0
	if err == os.ErrDeadlineExceeded {
		err = io.EOF
	}
	return n, err
}

// Write is io.Writer. Like a socket or tty, concurrent writes do not mix.
func (c *Conn) Write(p []byte) (int, error) {
	w := c.W
	if w.Reaping() {
		w.Park("reaped")
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.log('b', p)
	if c.closed {
		c.log('w', nil)
		return 0, c.closedErr()
	}
	if c.wdead != 0 && w.Now() >= c.wdead {
		c.log('w', nil)
		return 0, os.ErrDeadlineExceeded
	}
	n := len(p)
	var err error
	if c.OnWrite != nil {
		if f := c.OnWrite(p); f != nil {
			if f.Stall > 0 {
				rt.Sleep(f.Stall)
			}
			n, err = f.N, f.Err
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n < len(p) && err == nil {
		err = io.ErrShortWrite
	}
	if err != nil {
		c.log('w', p[:n])
	} else {
		c.log('W', p[:n])
	}
	if n > 0 && c.Peer != nil {
		c.Peer.FromHost(append([]byte(nil), p[:n]...))
	}
	rt.Gosched()
	return n, err
}

// Close closes the host's end.
func (c *Conn) Close() error {
	if c.closed {
		return c.closedErr()
	}
	c.closed = true
	if !c.W.Reaping() {
		c.log('C', nil)
		c.HostClosedSeq = c.W.Seq()
		c.rq.WakeAll(c.W)
		if c.Peer != nil {
			c.Peer.HostClosed()
		}
	}
	return nil
}

// Abandon is what the operating system does when the process dies.
func (c *Conn) Abandon() {
	if !c.closed {
		c.closed = true
		if c.Peer != nil {
			c.Peer.HostClosed()
		}
	}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// TCPConn adds what a network connection has.
type TCPConn struct{ *Conn }

func (c TCPConn) LocalAddr() net.Addr  { return addr("10.0.0.1:40000") }
func (c TCPConn) RemoteAddr() net.Addr { return addr(c.Name) }
func (c TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c TCPConn) SetReadDeadline(t time.Time) error {
	c.rdead = mono(t)
	c.rq.WakeAll(c.W)
	return nil
}
func (c TCPConn) SetWriteDeadline(t time.Time) error { c.wdead = mono(t); return nil }
func (c TCPConn) SetKeepAlive(bool) error            { return nil }
func (c TCPConn) SetNoDelay(bool) error              { return nil }
func (c TCPConn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}

func mono(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	m := rt.MonoOf(t)
	if m <= 0 {
		m = 1
	}
	return m
}

// Registry -------------------------------------------------------------------

// Net is what exists outside of the host in this run.
var Net struct {
	Dial      func(network, addr string) (*Conn, error)
	Open      func(name string, baud int, size byte, parity byte, stop byte) (*Conn, error)
	Listen    func(network, addr string) error
	Listening map[string]any // address -> handler, managed by the http stub
}

// Reset clears the registry.
func Reset() {
	Net.Dial, Net.Open, Net.Listen, Net.Listening = nil, nil, nil, map[string]any{}
}

// ErrRefused is a refused connection.
var ErrRefused = errors.New("connection refused")

// Discard drops received, unread bytes (tcflush).
func (c *Conn) Discard() {
	keep := c.in[:0]
	for _, s := range c.in {
		if s.err != nil {
			keep = append(keep, s)
		}
	}
	c.in = keep
}
