// Package net connects to the simulated world.
package net

import (
	"context"
	"errors"
	real "net"
	"net/netip"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
)

func Dial(network, address string) (Conn, error) {
	rt.Gosched()
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &real.OpError{Op: "dial", Net: network, Err: real.UnknownNetworkError(network)}
	}
	if link.Net.Dial == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if err := suitable(network, address); err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	c, err := link.Net.Dial(network, address)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	c.TCP = true
	return link.TCPConn{Conn: c}, nil
}

// suitable reports whether an address exists in the network's family: literal addresses as they are, names beginning
// with unit4 and unit6 in one family, all other names in both.
func suitable(network, address string) error {
	host, _, err := real.SplitHostPort(address)
	if err != nil {
		return nil // the world decides what exists there
	}
	v4, v6 := !strings.HasPrefix(host, "unit6"), !strings.HasPrefix(host, "unit4")
	if a, err := netip.ParseAddr(host); err == nil {
		v4, v6 = a.Is4() || a.Is4In6(), !a.Is4() && !a.Is4In6()
	}
	if network == "tcp4" && !v4 || network == "tcp6" && !v6 {
		return &real.AddrError{Err: "no suitable address found", Addr: host}
	}
	return nil
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       real.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
	Resolver        *real.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	return Dial(network, address)
}

// SimListener is a listening socket.
type SimListener struct {
	A      string
	closed bool
}

func (l *SimListener) Accept() (Conn, error) { return nil, errors.New("not supported by the simulation") }
func (l *SimListener) Close() error          { l.closed = true; return nil }
func (l *SimListener) Addr() real.Addr       { return simAddr(l.A) }

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func Listen(network, address string) (Listener, error) {
	rt.Gosched()
	switch network {
	case "tcp", "tcp4", "tcp6":
		if err := suitable(network, address); err != nil {
			return nil, &real.OpError{Op: "listen", Net: network, Err: err}
		}
	default:
		return nil, &real.OpError{Op: "listen", Net: network, Err: real.UnknownNetworkError(network)}
	}
	if link.Net.Listen != nil {
		if err := link.Net.Listen(network, address); err != nil {
			return nil, &real.OpError{Op: "listen", Net: network, Err: err}
		}
	}
	return &SimListener{A: address}, nil
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}
