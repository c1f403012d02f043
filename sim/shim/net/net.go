// Package net is the part of the standard net package that code under test
// may use, on the simulated network.
package net

import (
	"context"
	n "net"
	"time"

	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

type (
	Conn                = n.Conn
	Listener            = n.Listener
	Error               = n.Error
	Addr                = n.Addr
	OpError             = n.OpError
	AddrError           = n.AddrError
	DNSError            = n.DNSError
	ParseError          = n.ParseError
	UnknownNetworkError = n.UnknownNetworkError
	InvalidAddrError    = n.InvalidAddrError
	TCPAddr             = n.TCPAddr
	UDPAddr             = n.UDPAddr
	UnixAddr            = n.UnixAddr
	IPAddr              = n.IPAddr
	IP                  = n.IP
	IPMask              = n.IPMask
	IPNet               = n.IPNet
	TCPConn             = simnet.Conn
	TCPListener         = simnet.Listener
	Buffers             = n.Buffers
	KeepAliveConfig     = n.KeepAliveConfig
	Resolver            = n.Resolver
)

var (
	ErrClosed           = n.ErrClosed
	ErrWriteToConnected = n.ErrWriteToConnected
)

func ParseIP(s string) IP                                { return n.ParseIP(s) }
func JoinHostPort(h, p string) string                    { return n.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error)     { return n.SplitHostPort(s) }
func ResolveTCPAddr(network, a string) (*TCPAddr, error) { return n.ResolveTCPAddr(network, a) }
func IPv4(a, b, c, d byte) IP                            { return n.IPv4(a, b, c, d) }

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
}

func (d *Dialer) deadline() int64 {
	var dl int64
	if d.Timeout != 0 {
		dl = simrt.Now() + int64(d.Timeout)
		if dl <= 0 {
			dl = 1
		}
	}
	if x := simrt.FromWall(d.Deadline); x != 0 && (dl == 0 || x < dl) {
		dl = x
	}
	return dl
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	c, err := simnet.Dial(address, true, d.deadline())
	if err != nil {
		return nil, err
	}
	return c, nil
}

// DialContext gives up when ctx is done.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	dl := d.deadline()
	if x, ok := ctx.Deadline(); ok {
		if v := simrt.FromWall(x); dl == 0 || v < dl {
			dl = v
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	if ctx.Done() == nil {
		c, err := simnet.Dial(address, true, dl)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	type res struct {
		c   *simnet.Conn
		err error
	}
	ch := make(chan res, 1)
	gone := false
	simrt.Spawn("dial", func() {
		c, err := simnet.Dial(address, true, dl)
		if gone {
			if c != nil {
				c.Close()
			}
			return
		}
		simrt.Send(ch, res{c, err})
	})
	r := simrt.NewRecv((<-chan res)(ch))
	if simrt.Select(false, r, simrt.NewRecv(ctx.Done())) == 0 {
		if r.Val().err != nil {
			return nil, r.Val().err
		}
		return r.Val().c, nil
	}
	gone = true
	select {
	case x := <-ch: // both are ready, and either may count
		if x.err != nil {
			return nil, x.err
		}
		return x.c, nil
	default:
	}
	return nil, &OpError{Op: "dial", Net: network, Err: ctx.Err()}
}

func Dial(network, address string) (Conn, error) { return (&Dialer{}).Dial(network, address) }

func DialTimeout(network, address string, t time.Duration) (Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, address)
}

func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	return simnet.Dial(r.String(), true, 0)
}

func Listen(network, address string) (Listener, error) {
	l, err := simnet.Listen(address, true)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	return simnet.Listen(a.String(), true)
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
}

func (*ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}
