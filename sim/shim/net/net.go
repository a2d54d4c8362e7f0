//go:build go1.25

// Package net replaces net in the instrumented daemon.
package net

import (
	"context"
	"errors"
	"io"
	real "net"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
	"github.com/gostor/gotgt/zsim/simnet"
)

// TCPConn is a connection of the simulated network.
type TCPConn struct{ *simnet.Conn }

func (c *TCPConn) SetNoDelay(bool) error    { return nil }
func (c *TCPConn) SetKeepAlive(bool) error  { return nil }
func (c *TCPConn) SetLinger(int) error      { return nil }
func (c *TCPConn) SetReadBuffer(int) error  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}
func (c *TCPConn) SetKeepAliveConfig(real.KeepAliveConfig) error { return nil }
func (c *TCPConn) MultipathTCP() (bool, error)                   { return false, nil }

// ReadFrom and WriteTo hide themselves from io.Copy.
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{c}, r) }
func (c *TCPConn) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, struct{ io.Reader }{c}) }

type rawConn struct{}

// Control is used to set socket options, which have no effect here.
func (rawConn) Control(f func(uintptr)) error    { return nil }
func (rawConn) Read(f func(uintptr) bool) error  { rt.NotSupported("net.RawConn.Read"); return nil }
func (rawConn) Write(f func(uintptr) bool) error { rt.NotSupported("net.RawConn.Write"); return nil }

func (c *TCPConn) SyscallConn() (syscall.RawConn, error) { return rawConn{}, nil }
func (c *TCPConn) File() (*simdisk.File, error) {
	rt.NotSupported("net.TCPConn.File")
	return nil, nil
}

// TCPListener accepts connections of the simulated network.
type TCPListener struct{ L *simnet.Listener }

func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) Close() error    { return l.L.Close() }
func (l *TCPListener) Addr() real.Addr { return l.L.Addr_ }

func (l *TCPListener) SetDeadline(t time.Time) error         { return l.L.SetDeadline(t) }
func (l *TCPListener) SyscallConn() (syscall.RawConn, error) { return rawConn{}, nil }
func (l *TCPListener) File() (*simdisk.File, error) {
	rt.NotSupported("net.TCPListener.File")
	return nil, nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
}

func (lc *ListenConfig) SetMultipathTCP(bool) {}
func (lc *ListenConfig) MultipathTCP() bool   { return false }
func (lc *ListenConfig) Listen(_ context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}
func (lc *ListenConfig) ListenPacket(context.Context, string, string) (real.PacketConn, error) {
	rt.NotSupported("net.ListenPacket")
	return nil, nil
}

func Listen(network, address string) (real.Listener, error) {
	rt.Y(0)
	if !strings.HasPrefix(network, "tcp") {
		return nil, errors.New("simulator: network " + network + " is not simulated")
	}
	_, p, err := real.SplitHostPort(address)
	if err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := simnet.N.Listen(port)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func ListenTCP(network string, a *real.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, ":"+strconv.Itoa(a.Port))
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func ResolveTCPAddr(network, address string) (*real.TCPAddr, error) {
	h, p, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	return &real.TCPAddr{IP: real.ParseIP(h), Port: port}, nil
}

func InterfaceAddrs() ([]real.Addr, error) {
	return []real.Addr{&real.IPNet{IP: real.IPv4(10, 0, 0, 1), Mask: real.CIDRMask(24, 32)}}, nil
}
func LookupHost(h string) ([]string, error) { return []string{h}, nil }

// Dial connects to a port of the daemon's host.
func Dial(network, address string) (real.Conn, error) {
	rt.Y(0)
	if !strings.HasPrefix(network, "tcp") {
		return nil, errors.New("simulator: network " + network + " is not simulated")
	}
	h, p, err := real.SplitHostPort(address)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	c, err := simnet.N.DialTo(rt.Cur().Proc.Host, h, port)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	if simnet.N.OnDial != nil {
		simnet.N.OnDial(c)
	}
	return &TCPConn{c}, nil
}
func DialTimeout(network, address string, _ time.Duration) (real.Conn, error) {
	return Dial(network, address)
}

// Dialer has the timeouts of net.Dialer, but connections are made or refused
// at once.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       real.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
	Resolver        *real.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(_ context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}
