// Package simnet is the simulated TCP network.
package simnet

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/simrt"
)

// Net is the network of one run.
type Net struct {
	listeners []*Listener
	Conns     []*Conn
	nextPort  int

	// knobs
	Window   int   // bytes in flight + unread a direction can hold
	LatMin   int64 // latency of a segment
	LatMax   int64
	SegMode  int   // 0 whole writes, 1 random pieces, 2 mostly single bytes
	GapMax   int64 // extra gap between the pieces of one write
	ShortRd  bool  // reads may return less than is available
	RstDrops bool  // a reset discards what was received but not read

	// DialFate decides each dial of the code under test (nil: all succeed).
	DialFate func(n int, addr string) Fate
	Dials    int
	DialLog  []DialRec
	// OnWrite, if set, sees every write the code under test makes.
	OnWrite func(c *Conn, b []byte)
	// OnAppOpen and OnAppClose see connections the code under test obtains
	// and closes; OnArrive sees bytes arriving at them; OnRead sees what it reads.
	OnAppOpen  func(c *Conn)
	OnAppClose func(c *Conn)
	OnArrive   func(c *Conn)
	OnRead     func(c *Conn, b []byte)
	// OnReading sees a read of the code under test begin.
	OnReading func(c *Conn)
	// OnDial and OnDialEnd see the dials of the code under test.
	OnDial    func(n int)
	OnDialEnd func(n int, c *Conn)
}

// DialRec records one dial of the code under test.
type DialRec struct {
	At, End int64
	Seq     int64
	OK      bool
	Task    int
	Conn    *Conn
}

// Fate of a dial.
type Fate struct {
	Kind  string // "", "refuse", "hang", "unreach"
	Delay int64
	Link  []LinkFault // faults of the new connection
}

// LinkFault strikes one direction of a connection when its byte counter
// reaches At, or at time When if that is positive.
type LinkFault struct {
	ToApp bool   // direction: towards the code under test
	At    int    // after that many bytes
	Kind  string // "rst", "fin", "stall", "blackhole", "werr"
	Dur   int64
	fired bool
}

// N is the network of the current run.
var N *Net

// New installs a fresh network.
func New() *Net {
	N = &Net{Window: 65536, nextPort: 40000, LatMin: 50000, LatMax: 300000}
	return N
}

type half struct {
	nextAt int64
	sent   int
	dead   bool
	faults []LinkFault
}

// Conn is one end of a connection; it implements net.Conn.
type Conn struct {
	ID        int
	App       bool // held by the code under test
	Dialed    bool
	peer      *Conn
	laddr     *net.TCPAddr
	raddr     *net.TCPAddr
	rcv       []byte
	inflight  int // sent by me, not yet delivered
	rcvEOF    bool
	wshut     bool
	resetE    error // pending reset error
	broken    bool  // reset was received
	closed    bool
	rstClose  bool
	rdl, wdl  int64
	rq, wq    simrt.WaitQ
	rbusy     bool
	wbusy     bool
	rlq, wlq  simrt.WaitQ
	out       half
	OpenAt    int64
	CloseAt   int64
	LastRecv  int64 // arrival time of the last byte delivered to this end
	Sent      int   // bytes accepted from this end's writer
	Got       int   // bytes read by this end
	Reads     int   // reads begun at this end
	Arrived   int   // bytes delivered to this end
	BlockedAt int64 // when a write first found no room since its last progress
	EndAt     int64 // when this end learnt that the peer ended the connection
	Tag       string
	raceOut   int64
}

func addr(host string, port int) *net.TCPAddr {
	ip := net.IPv4(127, 0, 0, 1)
	_ = host
	return &net.TCPAddr{IP: ip, Port: port}
}

func portOf(a string) (int, error) {
	i := strings.LastIndexByte(a, ':')
	if i < 0 {
		return 0, &net.AddrError{Err: "missing port in address", Addr: a}
	}
	p, err := strconv.Atoi(a[i+1:])
	if err != nil || p < 0 || p > 65535 {
		return 0, &net.AddrError{Err: "invalid port", Addr: a}
	}
	return p, nil
}

// Listener accepts connections.
type Listener struct {
	App     bool
	port    int
	backlog []*Conn
	closed  bool
	q       simrt.WaitQ
	addr    *net.TCPAddr
	// Faults of accept: each entry makes one Accept call fail.
	Errs []syscall.Errno
	// FailUntil makes every Accept call fail with FailErr before that time.
	FailUntil int64
	FailErr   syscall.Errno
	deadline  int64
	OpenAt    int64
	CloseAt   int64
	Accepts   int
	FailedAt  int64 // when an accept failed last
}

// Kick makes a waiting Accept look at its failures.
func (l *Listener) Kick() { l.q.WakeAll() }

// LastListener is the listener opened last on a port, open or not.
func LastListener(port int) *Listener {
	for i := len(N.listeners) - 1; i >= 0; i-- {
		if N.listeners[i].port == port {
			return N.listeners[i]
		}
	}
	return nil
}

// Listen opens a listener on the port of addr.
func Listen(a string, app bool) (*Listener, error) {
	simrt.Yield("listen")
	p, err := portOf(a)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	if p == 0 {
		N.nextPort++
		p = N.nextPort
	}
	ad := addr("", p)
	for _, l := range N.listeners {
		if l.port == p && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: ad, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &Listener{App: app, port: p, addr: ad, OpenAt: simrt.Now()}
	N.listeners = append(N.listeners, l)
	simrt.Logf("listen :%d", p)
	return l, nil
}

// ListenerOn returns the open listener on a port.
func ListenerOn(port int) *Listener {
	for _, l := range N.listeners {
		if l.port == port && !l.closed {
			return l
		}
	}
	return nil
}

// Accept waits for the next connection.
func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP is Accept.
func (l *Listener) AcceptTCP() (*Conn, error) {
	simrt.Yield("accept")
	for {
		if simrt.Dying() || l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if l.deadline > 0 && simrt.Now() >= l.deadline {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
		}
		l.Accepts++
		if len(l.Errs) > 0 {
			e := l.Errs[0]
			l.Errs = l.Errs[1:]
			err := l.fail(e)
			if e == syscall.ECONNABORTED || e == syscall.EINTR {
				continue // the standard library deals with these itself
			}
			return nil, err
		}
		if l.FailUntil > simrt.Now() {
			return nil, l.fail(l.FailErr)
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.App = l.App
			c.OpenAt = simrt.Now()
			if l.App && N.OnAppOpen != nil {
				N.OnAppOpen(c)
			}
			simrt.Logf("accept conn %d", c.ID)
			return c, nil
		}
		l.q.WaitUntil("accept", l.deadline)
	}
}

func (l *Listener) fail(e syscall.Errno) error {
	simrt.Fault("accept-" + errName(e))
	l.FailedAt = simrt.Now()
	if e == syscall.ECONNABORTED && len(l.backlog) > 0 {
		c := l.backlog[0]
		l.backlog = l.backlog[1:]
		c.closed = true
		c.peer.reset(0)
	}
	return &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", e)}
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENFILE:
		return "ENFILE"
	case syscall.ECONNABORTED:
		return "ECONNABORTED"
	case syscall.ECONNRESET:
		return "ECONNRESET"
	case syscall.EINTR:
		return "EINTR"
	}
	return fmt.Sprintf("errno%d", int(e))
}

// Close closes the listener; connections nobody accepted are reset.
func (l *Listener) Close() error {
	simrt.Yield("lclose")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	l.CloseAt = simrt.Now()
	for _, c := range l.backlog {
		c.closed = true
		c.peer.reset(0)
	}
	l.backlog = nil
	l.q.WakeAll()
	simrt.Logf("listener :%d closed", l.port)
	return nil
}

// Closed tells whether the listener was closed.
func (l *Listener) Closed() bool { return l.closed }

// Pending is the number of connections not accepted yet.
func (l *Listener) Pending() int { return len(l.backlog) }

// Addr is the listener's address.
func (l *Listener) Addr() net.Addr { return l.addr }

// SetDeadline is TCPListener.SetDeadline.
func (l *Listener) SetDeadline(t time.Time) error {
	l.deadline = simrt.FromWall(t)
	l.q.WakeAll()
	return nil
}

// File and SyscallConn have no meaning here.
func (l *Listener) File() (*os.File, error) { return nil, syscall.EINVAL }

func dialErr(ad net.Addr, err error) error {
	return &net.OpError{Op: "dial", Net: "tcp", Addr: ad, Err: err}
}

// Dial connects. deadline 0: none. cancelled, if not nil, is polled through q.
func Dial(a string, app bool, deadline int64) (*Conn, error) {
	simrt.Yield("dial")
	p, err := portOf(a)
	if err != nil {
		return nil, dialErr(nil, err)
	}
	ad := addr("", p)
	now := simrt.Now()
	var fate Fate
	rec := -1
	if app {
		n := N.Dials
		N.Dials++
		if N.DialFate != nil {
			fate = N.DialFate(n, a)
		}
		N.DialLog = append(N.DialLog, DialRec{At: now, Seq: simrt.Seq(), Task: simrt.CurrentID()})
		rec = len(N.DialLog) - 1
		simrt.Logf("dial %s fate=%+v", a, fate)
		if N.OnDial != nil {
			N.OnDial(rec)
		}
	}
	end := func(c *Conn) {
		if rec >= 0 {
			N.DialLog[rec].End = simrt.Now()
			N.DialLog[rec].OK = c != nil
			N.DialLog[rec].Conn = c
			if N.OnDialEnd != nil {
				N.OnDialEnd(rec, c)
			}
		}
	}
	timeout := func() (*Conn, error) {
		if deadline > simrt.Now() {
			simrt.Sleep(deadline - simrt.Now())
		}
		end(nil)
		return nil, dialErr(ad, os.ErrDeadlineExceeded)
	}
	if deadline > 0 && now >= deadline {
		return timeout()
	}
	if fate.Kind == "hang" {
		simrt.Fault("dial-hang")
		if deadline == 0 {
			simrt.Sleep(127 * 1e9)
			end(nil)
			return nil, dialErr(ad, os.NewSyscallError("connect", syscall.ETIMEDOUT))
		}
		return timeout()
	}
	d := fate.Delay
	if d == 0 {
		d = 2 * N.latency()
	} else {
		simrt.Fault("dial-delay")
	}
	if deadline > 0 && now+d >= deadline {
		return timeout()
	}
	if d > 0 {
		simrt.Sleep(d)
	}
	switch fate.Kind {
	case "refuse":
		simrt.Fault("dial-refuse")
		end(nil)
		return nil, dialErr(ad, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "unreach":
		simrt.Fault("dial-unreach")
		end(nil)
		return nil, dialErr(ad, os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	}
	l := ListenerOn(p)
	if l == nil {
		end(nil)
		return nil, dialErr(ad, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	N.nextPort++
	la := addr("", N.nextPort)
	c, s := pair(la, ad)
	c.App, c.Dialed = app, true
	var toApp, fromApp []LinkFault
	for _, f := range fate.Link {
		if f.ToApp {
			toApp = append(toApp, f)
		} else {
			fromApp = append(fromApp, f)
		}
	}
	if app {
		c.out.faults, s.out.faults = fromApp, toApp
	}
	l.backlog = append(l.backlog, s)
	l.q.WakeAll()
	end(c)
	if app && N.OnAppOpen != nil {
		N.OnAppOpen(c)
	}
	simrt.Logf("dialled conn %d", c.ID)
	return c, nil
}

func pair(la, ra *net.TCPAddr) (*Conn, *Conn) {
	id := len(N.Conns)
	a := &Conn{ID: id, laddr: la, raddr: ra, OpenAt: simrt.Now()}
	b := &Conn{ID: id + 1, laddr: ra, raddr: la, OpenAt: simrt.Now()}
	a.peer, b.peer = b, a
	N.Conns = append(N.Conns, a, b)
	return a, b
}

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// AddFault adds a fault to the direction this end writes to; offsets count
// from the first byte it ever wrote.
func (c *Conn) AddFault(f LinkFault) { c.out.faults = append(c.out.faults, f) }

func (n *Net) latency() int64 {
	if n.LatMax <= n.LatMin {
		return n.LatMin
	}
	return n.LatMin + int64(simrt.NamedStream("net").Choose(int((n.LatMax-n.LatMin)/1000)+1))*1000
}

func (c *Conn) err(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

// Read reads what has arrived.
func (c *Conn) Read(b []byte) (int, error) {
	simrt.Yield("read")
	if simrt.Dying() {
		return 0, c.err("read", net.ErrClosed)
	}
	for c.rbusy && !c.closed {
		c.rlq.Wait("read-lock")
	}
	if c.closed {
		return 0, c.err("read", net.ErrClosed)
	}
	c.Reads++
	if c.App && N.OnReading != nil {
		N.OnReading(c)
	}
	c.rbusy = true
	defer func() { c.rbusy = false; c.rlq.WakeAll() }()
	if c.rdl > 0 && simrt.Now() >= c.rdl {
		return 0, c.err("read", os.ErrDeadlineExceeded)
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, c.err("read", net.ErrClosed)
		}
		if len(c.rcv) > 0 {
			n := len(c.rcv)
			if n > len(b) {
				n = len(b)
			}
			if N.ShortRd && n > 1 {
				if k := simrt.NamedStream("net").Choose(4); k == 3 {
					n = 1 + simrt.NamedStream("net").Choose(n)
				}
			}
			simrt.RaceAcquire(unsafe.Pointer(&c.peer.raceOut))
			simrt.RaceWrite(unsafe.Pointer(&b[0]), n)
			copy(b, c.rcv[:n])
			c.rcv = c.rcv[n:]
			c.Got += n
			c.peer.wq.WakeAll()
			if c.App && N.OnRead != nil {
				N.OnRead(c, b[:n])
			}
			simrt.Logf("conn %d read % x", c.ID, b[:n])
			simrt.Mix(uint64(c.ID)<<8|1, uint64(n))
			return n, nil
		}
		if c.resetE != nil {
			e := c.resetE
			c.resetE = nil
			return 0, c.err("read", os.NewSyscallError("read", e))
		}
		if c.rcvEOF || c.broken {
			return 0, io.EOF
		}
		if c.rdl > 0 && simrt.Now() >= c.rdl {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		if !c.rq.WaitUntil("net-read", c.rdl) {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
	}
}

// Write sends b, waiting for room.
func (c *Conn) Write(b []byte) (int, error) {
	simrt.Yield("write")
	if simrt.Dying() {
		return 0, c.err("write", net.ErrClosed)
	}
	for c.wbusy && !c.closed {
		c.wlq.Wait("write-lock")
	}
	if c.closed {
		return 0, c.err("write", net.ErrClosed)
	}
	c.wbusy = true
	defer func() { c.wbusy = false; c.wlq.WakeAll() }()
	if c.wdl > 0 && simrt.Now() >= c.wdl {
		return 0, c.err("write", os.ErrDeadlineExceeded)
	}
	n := 0
	if len(b) > 0 {
		simrt.RaceRead(unsafe.Pointer(&b[0]), len(b))
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&c.raceOut))
	for n < len(b) || len(b) == 0 {
		if c.closed {
			return n, c.err("write", net.ErrClosed)
		}
		if c.resetE != nil {
			e := c.resetE
			c.resetE = nil
			return n, c.err("write", os.NewSyscallError("write", e))
		}
		if c.broken || c.wshut {
			return n, c.err("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			return 0, nil
		}
		for i := range c.out.faults {
			f := &c.out.faults[i]
			if f.Kind == "werr" && !f.fired && c.Sent >= f.At {
				f.fired = true
				simrt.Fault("write-error")
				return n, c.err("write", os.NewSyscallError("write", syscall.ENOBUFS))
			}
		}
		room := N.Window - c.inflight - len(c.peer.rcv)
		if c.peer.closed {
			room = N.Window - c.inflight
		}
		if room > 0 {
			m := len(b) - n
			if m > room {
				m = room
			}
			if c.App && N.OnWrite != nil {
				N.OnWrite(c, b[n:n+m])
			}
			simrt.Logf("conn %d write % x", c.ID, b[n:n+m])
			c.transmit(b[n : n+m])
			n += m
			c.Sent += m
			c.BlockedAt = 0
			continue
		}
		if c.wdl > 0 && simrt.Now() >= c.wdl {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
		simrt.Probe("write-blocked")
		if c.BlockedAt == 0 {
			c.BlockedAt = simrt.Now()
		}
		if !c.wq.WaitUntil("net-write", c.wdl) {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
	}
	return n, nil
}

// transmit puts bytes on the wire, cut into segments, applying link faults.
func (c *Conn) transmit(b []byte) {
	st := simrt.NamedStream("net")
	for len(b) > 0 {
		m := len(b)
		switch N.SegMode {
		case 1:
			if m > 1 && st.Choose(3) > 0 {
				m = 1 + st.Choose(m)
			}
		case 2:
			if m > 1 && st.Choose(8) > 0 {
				m = 1 + st.Choose(2)
				if m > len(b) {
					m = len(b)
				}
			}
		}
		var hit *LinkFault
		for i := range c.out.faults {
			f := &c.out.faults[i]
			if f.fired || f.Kind == "werr" {
				continue
			}
			if f.At <= c.out.sent {
				hit = f
				m = 0
				break
			}
			if f.At < c.out.sent+m {
				m = f.At - c.out.sent
			}
		}
		if hit != nil {
			hit.fired = true
			c.strike(hit)
			continue
		}
		seg := append([]byte(nil), b[:m]...)
		b = b[m:]
		c.out.sent += m
		c.inflight += m
		if c.out.dead {
			continue // lost for good; still occupies the window
		}
		at := simrt.Now() + N.latency()
		if at <= c.out.nextAt {
			at = c.out.nextAt + 1
		}
		if N.GapMax > 0 && len(b) > 0 {
			if g := st.Choose(4); g > 1 {
				at += int64(st.Choose(int(N.GapMax/1000)+1)) * 1000
			}
		}
		c.out.nextAt = at
		c.after(at, func() { c.deliver(seg) })
	}
}

func (c *Conn) after(at int64, f func()) {
	simrt.AddTimer(at, f)
}

func (c *Conn) strike(f *LinkFault) {
	simrt.Fault("link-" + f.Kind)
	switch f.Kind {
	case "rst":
		at := c.arrival()
		c.out.nextAt = at
		c.after(at, func() { c.reset(0); c.peer.reset(0) })
		c.out.dead = true
	case "fin": // everything after this point is lost, the receiver sees EOF
		at := c.arrival()
		c.out.nextAt = at
		c.after(at, func() { c.peer.fin() })
		c.out.dead = true
	case "stall":
		c.out.nextAt = c.arrival() + f.Dur
	case "blackhole":
		c.out.dead = true
	}
}

func (c *Conn) arrival() int64 {
	at := simrt.Now() + N.latency()
	if at <= c.out.nextAt {
		at = c.out.nextAt + 1
	}
	return at
}

func (c *Conn) deliver(seg []byte) {
	c.inflight -= len(seg)
	p := c.peer
	if p.closed || p.broken {
		if !c.broken && !c.closed {
			d := N.latency()
			c.after(simrt.Now()+d, func() { c.reset(0) })
		}
		c.wq.WakeAll()
		return
	}
	p.rcv = append(p.rcv, seg...)
	p.Arrived += len(seg)
	p.LastRecv = simrt.Now()
	if p.App && N.OnArrive != nil {
		N.OnArrive(p)
	}
	simrt.Mix(uint64(p.ID)<<8|2, uint64(len(seg)))
	p.rq.WakeAll()
}

func (c *Conn) fin() {
	c.rcvEOF = true
	if c.EndAt == 0 {
		c.EndAt = simrt.Now()
	}
	c.rq.WakeAll()
}

// reset: a RST arrives at this end.
func (c *Conn) reset(int) {
	if c.broken || c.closed {
		return
	}
	c.broken = true
	if c.EndAt == 0 {
		c.EndAt = simrt.Now()
	}
	c.resetE = syscall.ECONNRESET
	if c.rcvEOF {
		c.resetE = syscall.EPIPE
	}
	if N.RstDrops {
		c.rcv = nil
	}
	c.rq.WakeAll()
	c.wq.WakeAll()
	simrt.Logf("conn %d reset", c.ID)
}

// Close closes this end: FIN, or RST if received bytes are left unread.
func (c *Conn) Close() error {
	simrt.Yield("close")
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	c.closed = true
	c.CloseAt = simrt.Now()
	c.rq.WakeAll()
	c.wq.WakeAll()
	c.rlq.WakeAll()
	c.wlq.WakeAll()
	c.peer.wq.WakeAll()
	if simrt.Dying() {
		return nil
	}
	simrt.Logf("conn %d closed", c.ID)
	if c.App && N.OnAppClose != nil {
		N.OnAppClose(c)
	}
	if c.broken {
		return nil
	}
	p := c.peer
	at := c.arrival()
	c.out.nextAt = at
	if c.out.dead {
		return nil
	}
	if len(c.rcv) > 0 || c.rstClose {
		c.after(at, func() { p.reset(0) })
	} else if !c.wshut {
		c.after(at, func() { p.fin() })
	}
	return nil
}

// Abort closes with a reset, like a killed process with SO_LINGER 0.
func (c *Conn) Abort() { c.rstClose = true; c.Close() }

// CloseWrite sends FIN but keeps reading.
func (c *Conn) CloseWrite() error {
	simrt.Yield("closewrite")
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	if c.wshut {
		return nil
	}
	c.wshut = true
	p := c.peer
	at := c.arrival()
	c.out.nextAt = at
	if !c.out.dead {
		c.after(at, func() { p.fin() })
	}
	return nil
}

// CloseRead is TCPConn.CloseRead.
func (c *Conn) CloseRead() error {
	c.rcvEOF = true
	c.rq.WakeAll()
	return nil
}

// Port is the remote port number.
func (c *Conn) Port() int { return c.raddr.Port }

// LocalPort is the local port number.
func (c *Conn) LocalPort() int { return c.laddr.Port }

// ClearFaults cancels every link fault that has not struck yet.
func (n *Net) ClearFaults() {
	for _, c := range n.Conns {
		c.out.faults = nil
	}
}

// Cut loses everything either side sends from now on.
func (c *Conn) Cut() {
	simrt.Fault("link-partition")
	c.out.dead = true
	c.peer.out.dead = true
}

// Closed tells whether this end was closed locally.
func (c *Conn) Closed() bool { return c.closed }

// Broken tells whether a reset arrived.
func (c *Conn) Broken() bool { return c.broken }

// Unread is the number of bytes that arrived and were not read.
func (c *Conn) Unread() int { return len(c.rcv) }

// SawEOF tells whether the peer's FIN has arrived.
func (c *Conn) SawEOF() bool { return c.rcvEOF }

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

func (c *Conn) setDL(r, w bool, t time.Time) error {
	simrt.Yield("deadline")
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	d := simrt.FromWall(t)
	if r {
		c.rdl = d
		c.rq.WakeAll()
	}
	if w {
		c.wdl = d
		c.wq.WakeAll()
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.setDL(true, true, t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDL(true, false, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDL(false, true, t) }

func (c *Conn) sock() error {
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	return nil
}
func (c *Conn) SetNoDelay(bool) error                  { return c.sock() }
func (c *Conn) SetKeepAlive(bool) error                { return c.sock() }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return c.sock() }
func (c *Conn) SetReadBuffer(int) error                { return c.sock() }
func (c *Conn) SetWriteBuffer(int) error               { return c.sock() }
func (c *Conn) SetLinger(s int) error {
	if s == 0 {
		c.rstClose = true
	} else {
		c.rstClose = false
	}
	return c.sock()
}

// ReadFrom is TCPConn.ReadFrom.
func (c *Conn) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 4096)
	var n int64
	for {
		k, err := r.Read(buf)
		if k > 0 {
			m, werr := c.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// OpenApp lists the connections the code under test holds open.
func OpenApp() []*Conn {
	var r []*Conn
	for _, c := range N.Conns {
		if c.App && !c.closed {
			r = append(r, c)
		}
	}
	return r
}
