package main

import (
	"bytes"
	"errors"
	"fmt"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

// Master is one client under test.
type Master struct {
	idx   int
	kind  string // "tcp", "rtu", "ascii"
	cl    modbus.Client
	port  int
	line  *simserial.Line
	T     int64
	calls []*Call
	tid   uint16 // for raw frames

	opens   []*simnet.Conn // connections held now
	sopens  []*simserial.Port
	nopens  int
	held    int
	heldLog []heldEv // every change of the held state
	closeBy int      // task that closed last
	lastRet int64    // latest return of any call
	active  []*Call
	closes  []*Call
}

type heldEv struct {
	seq  int64
	held bool
}

// Call is one call on a master.
type Call struct {
	id       int
	m        *Master
	op       string
	lastHold int // 1: the last it did to the connection was to open it, -1: to close it
	unit     byte
	pdu      []byte // the request PDU the call must send
	adu      []byte // raw: the complete frame
	tid      uint16
	raw      bool

	arg, argCopy     []byte
	arg16, arg16Copy []uint16

	inv, ret       int64
	invSeq, retSeq int64
	done           bool
	err            error
	res            []byte
	resCopy        []byte
	res16          []uint16
	res16Copy      []uint16
	rsp            []byte // on success: the reply PDU (raw: frame) it claims
	typed          bool
	task           int
	b              bool // result of isconn
	prevRet        int64
	stall0         int64
	exs            []*Exch
	sexs           []*sexch
}

func (c *Call) String() string {
	if c == nil {
		return "no call"
	}
	return fmt.Sprintf("call %d (%s unit %d)", c.id, c.op, c.unit)
}

// World of masters.
type world struct {
	masters []*Master
	calls   []*Call // request calls by id
	all     []*Call
	now     func() int64
}

var requestOps = []string{"rc", "rdi", "wsc", "wmc", "rir", "rirb", "rhr", "rhrb", "wsr", "wmr", "wmrb", "rwm", "rwmb", "mwr", "fifo", "send", "pdu", "raw"}

func isRequest(k string) bool {
	for _, x := range requestOps {
		if x == k {
			return true
		}
	}
	return false
}

// genCall draws a request op: A = unit, qty, value salt, fc.
func genCall(r *Rng, kinds []string) Op {
	k := kinds[r.n(len(kinds))]
	unit := r.pick(1, 1, 1, 1, 1, 1, 2, 2, 17, 17, 247, 247, 0, 0, 248, 255)
	q := 1
	switch r.w(8, 8, 2, 1) {
	case 3:
		q = r.in(31, 2000)
	case 0:
		q = r.in(1, 4)
	case 1:
		q = r.in(1, 30)
	case 2:
		q = r.pick(2000, 1968, 125, 123, 121, 120, 113)
	}
	fc := r.pick(1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24, 24, 3, 17, 65, 100)
	return Op{K: k, A: []int{unit, q, r.n(1 << 16), fc, r.w(6, 1)}}
}

// stdPDU builds a request PDU for a function code.
func stdPDU(fc byte, addr uint16, q int, salt uint64) []byte {
	switch fc {
	case 1, 2:
		return cat([]byte{fc}, be(addr, uint16(clamp(q, 1, 2000))))
	case 3, 4:
		return cat([]byte{fc}, be(addr, uint16(clamp(q, 1, 125))))
	case 5:
		return cat([]byte{fc}, be(addr, uint16(0xFF00*(q&1))))
	case 6:
		return cat([]byte{fc}, be(addr, uint16(salt)))
	case 15:
		q = clamp(q, 1, 1968)
		n := (q + 7) / 8
		return cat([]byte{fc}, be(addr, uint16(q)), []byte{byte(n)}, payload(salt, n))
	case 16:
		q = clamp(q, 1, 123)
		return cat([]byte{fc}, be(addr, uint16(q)), []byte{byte(2 * q)}, payload(salt, 2*q))
	case 22:
		return cat([]byte{fc}, be(addr, uint16(salt), uint16(salt>>16)))
	case 23:
		q = clamp(q, 1, 121)
		return cat([]byte{fc}, be(addr, uint16(clamp(q, 1, 125)), uint16(salt), uint16(q)), []byte{byte(2 * q)}, payload(salt, 2*q))
	case 24:
		return cat([]byte{fc}, be(addr))
	}
	return cat([]byte{fc}, be(addr), payload(salt, clamp(q, 0, 250)))
}

// do performs one op on a master and records it. It returns the call, nil for
// ops that are no calls.
func (w *world) do(m *Master, o Op) *Call {
	switch o.K {
	case "sleep":
		simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		return nil
	case "log":
		m.cl.LogMode(o.a(0)&1 == 1)
		return nil
	}
	c := &Call{m: m, op: o.K, task: simrt.CurrentID()}
	w.all = append(w.all, c)
	m.calls = append(m.calls, c)
	var run func()
	cl := m.cl
	if isRequest(o.K) {
		c.id = len(w.calls)
		w.calls = append(w.calls, c)
		addr := uint16(c.id)
		unit := byte(clamp(o.a(0), 1, 247))
		switch o.K {
		case "wsc", "wmc", "wsr", "wmr", "wmrb", "mwr":
			unit = byte(clamp(o.a(0), 0, 247))
		case "pdu", "send", "raw":
			unit = byte(clamp(o.a(0), 0, 255))
		}
		c.unit = unit
		q := clamp(o.a(1), 1, 2000)
		salt := uint64(o.a(2))&0xffffffff ^ uint64(c.id)<<32
		c.typed = true
		wmax := func(max int) { q = clamp(q, 1, max) }
		res := func(b []byte, err error) { c.res, c.err = b, err }
		res16 := func(b []uint16, err error) { c.res16, c.err = b, err }
		switch o.K {
		case "rc":
			c.pdu = stdPDU(1, addr, q, salt)
			run = func() { res(cl.ReadCoils(unit, addr, uint16(q))) }
		case "rdi":
			c.pdu = stdPDU(2, addr, q, salt)
			run = func() { res(cl.ReadDiscreteInputs(unit, addr, uint16(q))) }
		case "wsc":
			c.pdu = stdPDU(5, addr, q, salt)
			run = func() { c.err = cl.WriteSingleCoil(unit, addr, q&1 == 1) }
		case "wmc":
			wmax(1968)
			c.pdu = stdPDU(15, addr, q, salt)
			c.arg = append([]byte(nil), c.pdu[6:]...)
			run = func() { c.err = cl.WriteMultipleCoils(unit, addr, uint16(q), c.arg) }
		case "rir", "rirb":
			wmax(125)
			c.pdu = stdPDU(4, addr, q, salt)
			if o.K == "rir" {
				run = func() { res16(cl.ReadInputRegisters(unit, addr, uint16(q))) }
			} else {
				run = func() { res(cl.ReadInputRegistersBytes(unit, addr, uint16(q))) }
			}
		case "rhr", "rhrb":
			wmax(125)
			c.pdu = stdPDU(3, addr, q, salt)
			if o.K == "rhr" {
				run = func() { res16(cl.ReadHoldingRegisters(unit, addr, uint16(q))) }
			} else {
				run = func() { res(cl.ReadHoldingRegistersBytes(unit, addr, uint16(q))) }
			}
		case "wsr":
			c.pdu = stdPDU(6, addr, q, salt)
			run = func() { c.err = cl.WriteSingleRegister(unit, addr, uint16(salt)) }
		case "wmr", "wmrb":
			wmax(123)
			c.pdu = stdPDU(16, addr, q, salt)
			if o.K == "wmrb" {
				c.arg = append([]byte(nil), c.pdu[6:]...)
				run = func() { c.err = cl.WriteMultipleRegistersBytes(unit, addr, uint16(q), c.arg) }
			} else {
				for i := 6; i+1 < len(c.pdu); i += 2 {
					c.arg16 = append(c.arg16, u16(c.pdu[i:]))
				}
				run = func() { c.err = cl.WriteMultipleRegisters(unit, addr, uint16(q), c.arg16) }
			}
		case "mwr":
			c.pdu = stdPDU(22, addr, q, salt)
			run = func() { c.err = cl.MaskWriteRegister(unit, addr, uint16(salt), uint16(salt>>16)) }
		case "rwm", "rwmb":
			wmax(121)
			c.pdu = stdPDU(23, addr, q, salt)
			c.arg = append([]byte(nil), c.pdu[10:]...)
			if o.K == "rwm" {
				run = func() {
					res16(cl.ReadWriteMultipleRegisters(unit, addr, uint16(q), uint16(salt), uint16(q), c.arg))
				}
			} else {
				run = func() {
					res(cl.ReadWriteMultipleRegistersBytes(unit, addr, uint16(q), uint16(salt), uint16(q), c.arg))
				}
			}
		case "fifo":
			c.pdu = stdPDU(24, addr, q, salt)
			run = func() { res(cl.ReadFIFOQueue(unit, addr)) }
		case "send", "pdu", "raw":
			c.typed = false
			fc := byte(clamp(o.a(3), 1, 127))
			if m.kind != "tcp" && !typedFC(fc) {
				fc = 3
			}
			if !typedFC(fc) {
				wmax(250)
			}
			c.pdu = stdPDU(fc, addr, q, salt)
			switch o.K {
			case "send":
				c.arg = append([]byte(nil), c.pdu[1:]...)
				run = func() {
					r, err := cl.Send(unit, modbus.ProtocolDataUnit{FuncCode: c.pdu[0], Data: c.arg})
					c.err = err
					if err == nil {
						c.res = r.Data
						c.rsp = cat([]byte{r.FuncCode}, r.Data)
					}
				}
			case "pdu":
				c.arg = append([]byte(nil), c.pdu...)
				run = func() { res(cl.SendPdu(unit, c.arg)) }
			case "raw":
				c.raw = true
				if m.kind == "tcp" {
					c.tid = uint16(o.a(2))
					c.arg = tcpADU(c.tid, unit, c.pdu)
				} else {
					c.arg = serialADU(m.kind == "ascii", unit, c.pdu)
				}
				c.adu = append([]byte(nil), c.arg...)
				run = func() { res(cl.SendRawFrame(c.arg)) }
			}
		}
	} else {
		c.id = -1
		switch o.K {
		case "conn":
			run = func() { c.err = cl.Connect() }
		case "close":
			run = func() { c.err = cl.Close() }
		case "isconn":
			run = func() { c.b = cl.IsConnected() }
		default:
			return nil
		}
	}
	c.argCopy = append([]byte(nil), c.arg...)
	c.arg16Copy = append([]uint16(nil), c.arg16...)
	c.stall0 = simrt.StallMark()
	c.inv, c.invSeq = simrt.Now(), simrt.Seq()
	m.active = append(m.active, c)
	if c.op == "close" {
		m.closes = append(m.closes, c)
	}
	simrt.Logf("%v on master %d: %s", c, m.idx, hexs(c.pdu))
	simrt.Mix(0xca11, uint64(len(w.all)))
	run()
	reuses(c.arg, c.arg16)
	reuses(c.res, c.res16)
	c.ret, c.retSeq, c.done = simrt.Now(), simrt.Seq(), true
	for i, x := range m.active {
		if x == c {
			m.active = append(m.active[:i:i], m.active[i+1:]...)
			break
		}
	}
	c.prevRet = m.lastRet
	m.lastRet = c.ret
	simrt.Logf("%v returned err=%v res=%s %v", c, c.err, hexs(c.res), c.res16)
	e := uint64(0)
	if c.err != nil {
		e = 1
	}
	simrt.Mix(0x4e7, e)
	if c.err == nil && isRequest(o.K) {
		c.resCopy = append([]byte(nil), c.res...)
		c.res16Copy = append([]uint16(nil), c.res16...)
		c.claim()
		simrt.Probe("call-ok")
	} else if isRequest(o.K) {
		simrt.Probe("call-failed")
	}
	if !bytes.Equal(c.arg, c.argCopy) || !eq16(c.arg16, c.arg16Copy) {
		Fail("M09", "%v changed its caller's argument buffer", c)
	}
	return c
}

func hexs(b []byte) string {
	if !simrt.Verbose() {
		return ""
	}
	if len(b) > 40 {
		return fmt.Sprintf("%x...(%d)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func eq16(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// claim rebuilds the reply the successful call must have got.
func (c *Call) claim() {
	fc := byte(0)
	if len(c.pdu) > 0 {
		fc = c.pdu[0]
	}
	res := c.res
	if c.res16 != nil {
		res = be(c.res16...)
	}
	switch c.op {
	case "rc", "rdi", "rir", "rirb", "rhr", "rhrb", "rwm", "rwmb":
		c.rsp = cat([]byte{fc, byte(len(res))}, res)
	case "wsc", "wmc", "wsr", "wmr", "wmrb":
		c.rsp = append([]byte(nil), c.pdu[:5]...)
	case "mwr":
		c.rsp = append([]byte(nil), c.pdu...)
	case "fifo":
		c.rsp = cat([]byte{fc}, be(uint16(len(res)+2), uint16(len(res)/2)), res)
	case "send":
	case "pdu", "raw":
		c.rsp = append([]byte(nil), res...)
	}
}

// exception extracts the exception code of an error, -1 if it is another error.
func exception(err error) int {
	var e *modbus.ExceptionError
	if errors.As(err, &e) && e != nil {
		return int(e.ExceptionCode)
	}
	return -1
}

// checkStable verifies at the end of a run that results stayed as returned.
func (w *world) checkStable() {
	for _, c := range w.all {
		if c.err == nil && c.done {
			if !bytes.Equal(c.res, c.resCopy) || !eq16(c.res16, c.res16Copy) {
				Fail("M09", "data returned by %v changed afterwards: was %x %v, now %x %v", c, c.resCopy, c.res16Copy, c.res, c.res16)
			}
		}
	}
}

// hold records that master m opened (d>0) or closed a connection.
func (m *Master) hold(d int, what string) {
	m.held += d
	if d > 0 {
		m.nopens++
	}
	m.heldLog = append(m.heldLog, heldEv{simrt.Seq(), m.held > 0})
	for _, c := range m.active {
		if c.task == simrt.CurrentID() {
			c.lastHold = d
		}
	}
	if m.held > 1 {
		Fail("M08", "master %d holds %d open connections at once (%s)", m.idx, m.held, what)
	}
	if d < 0 {
		for _, c := range m.active {
			if c.op == "conn" && c.task == simrt.CurrentID() {
				Fail("M08", "Connect on master %d closed the connection it held", m.idx)
			}
		}
	}
}

// heldWas tells whether the held state was v at some moment in [s,e].
func (m *Master) heldWas(v bool, s, e int64) bool {
	cur := false
	for _, h := range m.heldLog {
		if h.seq > s {
			if cur == v {
				return true
			}
			if h.seq > e {
				return false
			}
		}
		cur = h.held
	}
	return cur == v
}

// checkHeld verifies the connection bookkeeping after a call returned.
func (m *Master) checkHeld(c *Call) {
	switch c.op {
	case "isconn":
		if !m.heldWas(c.b, c.invSeq, c.retSeq) {
			Fail("M08", "IsConnected of master %d returned %v, which was not the case at any moment of the call", m.idx, c.b)
		}
	case "conn":
		if c.err == nil && !m.heldWas(true, c.invSeq, c.retSeq) {
			Fail("M08", "Connect of master %d succeeded without a connection", m.idx)
		}
	case "close":
		if !m.heldWas(false, c.invSeq, c.retSeq) {
			Fail("M08", "Close of master %d returned and left its connection open", m.idx)
		}
	default:
		if c.lastHold < 0 && (c.err == nil || exception(c.err) >= 0) {
			Fail("M08", "%v gave up its working connection, although it ended with %v", c, c.err)
		}
	}
}

// overlapsClose tells whether someone closed the master during the call.
func (c *Call) overlapsClose() bool {
	for _, x := range c.m.closes {
		if x.inv <= c.ret && (!x.done || x.ret >= c.inv) {
			return true
		}
	}
	return false
}
