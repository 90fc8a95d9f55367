// Package serial opens simulated serial ports.
package serial

import (
	"fmt"
	"os"
	"syscall"
	"time"

	real "github.com/tarm/serial"
	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
)

// Port is an open serial port.
type Port struct {
	c       *link.Conn
	timeout time.Duration
}

func OpenPort(c *real.Config) (*Port, error) {
	rt.Gosched()
	size, par, stop := c.Size, byte(c.Parity), byte(c.StopBits)
	if size == 0 {
		size = 8
	}
	if par == 0 {
		par = 'N'
	}
	if stop == 0 {
		stop = 1
	}
	switch c.Baud {
	case 50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 500000, 576000, 921600, 1000000:
	default:
		return nil, fmt.Errorf("Unrecognized baud rate")
	}
	if link.Net.Open == nil {
		return nil, &os.PathError{Op: "open", Path: c.Name, Err: syscall.ENOENT}
	}
	lc, err := link.Net.Open(c.Name, c.Baud, size, par, stop)
	if err != nil {
		return nil, &os.PathError{Op: "open", Path: c.Name, Err: err}
	}
	return &Port{lc, c.ReadTimeout}, nil
}

func (p *Port) Read(b []byte) (int, error) {
	if p.timeout <= 0 {
		return p.c.Read(b)
	}
	// VTIME in tenths of a second: a read that takes longer returns nothing, which os.File makes an end of file
	d := p.timeout / (100 * time.Millisecond)
	return p.c.ReadWithin(b, int64(max(1, min(d, 255)))*100e6)
}

func (p *Port) Write(b []byte) (int, error) { return p.c.Write(b) }
func (p *Port) Close() error                { return p.c.Close() }
func (p *Port) Flush() error                { p.c.Discard(); return nil }
