// Package tls stands in for crypto/tls: a handshake of its own, and then
// connections are passed through without encryption.
package tls

import (
	t "crypto/tls"
	"errors"
	"io"
	"time"

	"verif.local/sim/shim/context"
	"verif.local/sim/shim/net"
	"verif.local/sim/shim/sync"
)

type (
	Config            = t.Config
	Certificate       = t.Certificate
	ConnectionState   = t.ConnectionState
	ClientAuthType    = t.ClientAuthType
	RecordHeaderError = t.RecordHeaderError
)

const (
	VersionTLS10 = t.VersionTLS10
	VersionTLS11 = t.VersionTLS11
	VersionTLS12 = t.VersionTLS12
	VersionTLS13 = t.VersionTLS13
)

// The handshake: the client sends 0x16, its flags and the length and bytes of
// the server's name, the server answers 0x16 0 (anything else: it refuses).

// Conn passes everything through once the handshake is done.
type Conn struct {
	net.Conn
	cfg    *Config
	client bool
	mu     sync.Mutex
	done   bool
	err    error
}

var errHandshake = errors.New("tls: handshake failure")

func (c *Conn) Handshake() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.done {
		c.done = true
		c.err = c.handshake()
	}
	return c.err
}

func (c *Conn) handshake() error {
	if !c.client {
		return nil
	}
	var name string
	var flags byte
	if c.cfg != nil {
		name = c.cfg.ServerName
		if c.cfg.InsecureSkipVerify {
			flags = 1
		}
	}
	if name == "" && flags == 0 {
		return errors.New("tls: either ServerName or InsecureSkipVerify must be specified in the tls.Config")
	}
	if _, err := c.Conn.Write(append([]byte{0x16, flags, byte(len(name))}, name...)); err != nil {
		return err
	}
	var b [2]byte
	if _, err := io.ReadFull(c.Conn, b[:]); err != nil {
		return err
	}
	if b != [2]byte{0x16, 0} {
		return errHandshake
	}
	return nil
}

func (c *Conn) HandshakeContext(ctx context.Context) error {
	if d, ok := ctx.Deadline(); ok {
		c.Conn.SetDeadline(d)
		defer c.Conn.SetDeadline(time.Time{})
	}
	return c.Handshake()
}

func (c *Conn) Read(b []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.Conn.Read(b)
}

func (c *Conn) Write(b []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.Conn.Write(b)
}

func (c *Conn) NetConn() net.Conn                { return c.Conn }
func (c *Conn) ConnectionState() ConnectionState { return ConnectionState{HandshakeComplete: true} }
func (c *Conn) CloseWrite() error                { return nil }

// Dialer is tls.Dialer.
type Dialer struct {
	NetDialer *net.Dialer
	Config    *Config
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = &net.Dialer{}
	}
	c, err := dial(ctx, nd, network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// dial makes the connection and the handshake within the timeout of d.
func dial(ctx context.Context, d *net.Dialer, network, addr string, cfg *Config) (*Conn, error) {
	if d.Timeout != 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	x, err := d.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	if cfg == nil {
		cfg = &Config{}
	}
	if cfg.ServerName == "" {
		host, _, err := net.SplitHostPort(addr)
		if err != nil {
			host = addr
		}
		cfg = cfg.Clone()
		cfg.ServerName = host
	}
	c := Client(x, cfg)
	if err := c.HandshakeContext(ctx); err != nil {
		x.Close()
		return nil, err
	}
	return c, nil
}

func DialWithDialer(d *net.Dialer, network, addr string, c *Config) (*Conn, error) {
	return dial(context.Background(), d, network, addr, c)
}

func Dial(network, addr string, c *Config) (*Conn, error) {
	return DialWithDialer(&net.Dialer{}, network, addr, c)
}

func Client(c net.Conn, cfg *Config) *Conn { return &Conn{Conn: c, cfg: cfg, client: true} }
func Server(c net.Conn, cfg *Config) *Conn { return &Conn{Conn: c, cfg: cfg} }

func LoadX509KeyPair(c, k string) (Certificate, error) { return t.LoadX509KeyPair(c, k) }
func X509KeyPair(c, k []byte) (Certificate, error)     { return t.X509KeyPair(c, k) }
