// Package simserial is the simulated serial line.
package simserial

import (
	"errors"
	"fmt"
	"os"
	"syscall"
	"unsafe"

	"github.com/goburrow/serial"

	"verif.local/sim/simrt"
)

// Line is one serial line: a master port on one side, devices on the other.
type Line struct {
	Addr string
	// faults, consulted by operation number
	OpenFate  func(n int) error
	WriteFate func(n int, b []byte) (int, error, bool) // handled: return (n, err)
	ReadErr   error                                    // every read fails with it while set
	HungUp    bool                                     // reads return 0, nil (tty hang-up)
	ShortRd   bool
	Gone      bool // unplugged: opening fails

	Opens  int
	Writes int
	Ports  []*Port
	rx     []byte // towards the master
	rxAt   []int64
	tx     []byte // towards the device
	TxAt   int64  // when the last byte to the device was written
	devQ   simrt.WaitQ
	rq     simrt.WaitQ
	race   int64
	TxLog  [][]byte
	OnTx   func(b []byte)
	// OnOpen, OnClose and OnRx see ports being opened and closed and bytes
	// becoming available to the master.
	OnOpen  func(p *Port)
	OnClose func(p *Port)
	OnRx    func(b []byte)
}

var lines []*Line

// Reset forgets all lines.
func Reset() { lines = nil }

// NewLine registers a line under a device path.
func NewLine(addr string) *Line {
	l := &Line{Addr: addr}
	lines = append(lines, l)
	return l
}

// Port is an open master port; it implements serial.Port.
type Port struct {
	line    *Line
	cfg     serial.Config
	open    bool
	dead    int // unplugged while open: 1 reads return 0, nil; 2 they fail
	Seq     int64
	OpenAt  int64
	CloseAt int64
}

// New is serial.New.
func New() *Port { return &Port{} }

// Open opens the configured port.
func (p *Port) Open(c *serial.Config) error {
	simrt.Yield("serial-open")
	var l *Line
	for _, x := range lines {
		if x.Addr == c.Address {
			l = x
		}
	}
	if l == nil {
		return fmt.Errorf("open %s: %w", c.Address, syscall.ENOENT)
	}
	n := l.Opens
	l.Opens++
	if l.OpenFate != nil {
		if err := l.OpenFate(n); err != nil {
			simrt.Fault("serial-open-error")
			return err
		}
	}
	if l.Gone {
		simrt.Fault("serial-open-unplugged")
		return fmt.Errorf("open %s: %w", c.Address, syscall.ENOENT)
	}
	if len(l.OpenPorts()) == 0 {
		l.rx, l.rxAt = nil, nil
	}
	*p = Port{line: l, cfg: *c, open: true, OpenAt: simrt.Now(), Seq: simrt.Seq()}
	l.Ports = append(l.Ports, p)
	simrt.Logf("serial %s opened", l.Addr)
	if l.OnOpen != nil {
		l.OnOpen(p)
	}
	return nil
}

// OpenPorts lists the ports open on the line.
func (l *Line) OpenPorts() []*Port {
	var r []*Port
	for _, p := range l.Ports {
		if p.open {
			r = append(r, p)
		}
	}
	return r
}

// Close closes the port; bytes not read are lost.
func (p *Port) Close() error {
	simrt.Yield("serial-close")
	if !p.open {
		return nil
	}
	p.open = false
	p.CloseAt = simrt.Now()
	p.line.rx, p.line.rxAt = nil, nil
	p.line.rq.WakeAll()
	simrt.Logf("serial %s closed", p.line.Addr)
	if p.line.OnClose != nil && !simrt.Dying() {
		p.line.OnClose(p)
	}
	if p.dead != 0 || p.line.ReadErr != nil { // closed all the same, but its settings could not be restored
		simrt.Fault("serial-close-error")
		return syscall.EIO
	}
	return nil
}

// Read waits up to the configured timeout for the first byte.
func (p *Port) Read(b []byte) (int, error) {
	simrt.Yield("serial-read")
	if simrt.Dying() || !p.open {
		return 0, syscall.EBADF
	}
	l := p.line
	var dl int64
	if p.cfg.Timeout > 0 {
		dl = simrt.Now() + int64(p.cfg.Timeout)
	}
	for {
		if !p.open {
			return 0, syscall.EBADF
		}
		switch p.dead {
		case 1:
			simrt.Fault("serial-hangup-read")
			return 0, nil
		case 2:
			simrt.Fault("serial-dead-read")
			return 0, syscall.EIO
		}
		if l.ReadErr != nil {
			simrt.Fault("serial-read-error")
			return 0, l.ReadErr
		}
		if l.HungUp {
			simrt.Fault("serial-hangup-read")
			return 0, nil
		}
		if len(l.rx) > 0 {
			if len(b) == 0 {
				return 0, nil
			}
			n := len(l.rx)
			if n > len(b) {
				n = len(b)
			}
			if l.ShortRd && n > 1 {
				if simrt.NamedStream("net").Choose(3) > 0 {
					n = 1 + simrt.NamedStream("net").Choose(n)
				}
			}
			simrt.RaceAcquire(unsafe.Pointer(&l.race))
			simrt.RaceWrite(unsafe.Pointer(&b[0]), n)
			copy(b, l.rx[:n])
			l.rx, l.rxAt = l.rx[n:], l.rxAt[n:]
			simrt.Logf("serial read % x", b[:n])
			simrt.Mix(0x5e1, uint64(n))
			return n, nil
		}
		if !l.rq.WaitUntil("serial-read", dl) {
			return 0, serial.ErrTimeout
		}
	}
}

// Write sends to the device.
func (p *Port) Write(b []byte) (int, error) {
	simrt.Yield("serial-write")
	if simrt.Dying() || !p.open {
		return 0, syscall.EBADF
	}
	l := p.line
	if p.dead != 0 {
		simrt.Fault("serial-dead-write")
		return 0, syscall.EIO
	}
	n := l.Writes
	l.Writes++
	if l.WriteFate != nil {
		if k, err, handled := l.WriteFate(n, b); handled {
			simrt.Fault("serial-write-fault")
			if k > 0 {
				l.send(b[:k])
			}
			return k, err
		}
	}
	if l.HungUp || l.ReadErr != nil {
		return 0, syscall.EIO
	}
	l.send(b)
	return len(b), nil
}

func (l *Line) send(b []byte) {
	if len(b) > 0 {
		simrt.RaceRead(unsafe.Pointer(&b[0]), len(b))
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&l.race))
	c := append([]byte(nil), b...)
	l.TxLog = append(l.TxLog, c)
	l.tx = append(l.tx, c...)
	l.TxAt = simrt.Now()
	simrt.Logf("serial write % x", b)
	if l.OnTx != nil {
		l.OnTx(c)
	}
	l.devQ.WakeAll()
}

// DevRead takes all bytes the device has received, waiting for some.
func (l *Line) DevRead(deadline int64) []byte {
	for len(l.tx) == 0 {
		if !l.devQ.WaitUntil("device-read", deadline) {
			return nil
		}
	}
	b := l.tx
	l.tx = nil
	return b
}

// DevUnread is the number of bytes the device has not taken.
func (l *Line) DevUnread() int { return len(l.tx) }

// DevSend puts bytes on the line towards the master now; with no port open
// they are lost.
func (l *Line) DevSend(b []byte) {
	if len(l.OpenPorts()) == 0 || l.Gone {
		simrt.Logf("line bytes lost (no port) % x", b)
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&l.race))
	l.rx = append(l.rx, b...)
	for range b {
		l.rxAt = append(l.rxAt, simrt.Now())
	}
	simrt.Logf("line -> master % x", b)
	if l.OnRx != nil {
		l.OnRx(b)
	}
	l.rq.WakeAll()
}

// Pending is the number of bytes waiting for the master.
func (l *Line) Pending() int { return len(l.rx) }

// SetHungUp switches the hang-up state.
func (l *Line) SetHungUp(v bool) { l.HungUp = v; l.rq.WakeAll() }

// Unplug takes the adapter away: ports open now are dead for good (kind 1:
// reads return 0, nil; 2: reads fail) and opening fails until Replug.
func (l *Line) Unplug(kind int) {
	for _, p := range l.OpenPorts() {
		p.dead = kind
	}
	l.Gone = true
	l.rx, l.rxAt = nil, nil
	l.rq.WakeAll()
}

// Replug brings the adapter back.
func (l *Line) Replug() { l.Gone = false }

// Rx is a copy of the bytes waiting for the master.
func (l *Line) Rx() []byte { return append([]byte(nil), l.rx...) }

// Dead tells whether the port was unplugged while open.
func (p *Port) Dead() bool { return p.dead != 0 }

// SetReadErr switches a persistent read error.
func (l *Line) SetReadErr(err error) { l.ReadErr = err; l.rq.WakeAll() }

// ErrIO is what a failing device returns.
var ErrIO = error(syscall.EIO)

var _ = errors.New
var _ = os.ErrClosed

// Config is what the port was opened with.
func (p *Port) Config() serial.Config { return p.cfg }
