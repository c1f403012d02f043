package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"syscall"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

// sexch is one request that reached a serial line.
type sexch struct {
	call     *Call
	serial   int
	sentAt   int64
	sentSeq  int64
	mode     Op
	frame    []byte // the intact reply it stands for
	exc      int
	excFirst bool   // an exception was the first thing sent in reply
	reply    []byte // bytes that went onto the line
	whole    bool   // an intact reply is being sent, in time
	left     int    // bytes of it still to come
	arrived  int64
	spoilt   bool   // other bytes or faults got in between
	pending  []byte // bytes waiting at the master when the request began
	opened   int64  // when the port it used was opened (sequence number)
	openAt   int
	from     int // position in the line's log of delivered bytes
}

type sline struct {
	l       *simserial.Line
	m       *Master
	wbuf    []byte
	exs     []*sexch
	log     []byte // all bytes delivered to the master
	openPos int    // position in log when the port was opened
	portSeq int64
	faults  int // faults that hit the line
	sending int
	cur     *sexch
}

type serWorld struct {
	world
	p      *Plan
	T      int64
	ascii  bool
	baud   int
	ls     []*sline
	serial int
	healed bool
	heal   simrt.WaitQ
}

func init() { scenarios["serm"] = scenario{genSerialMaster, runSerialMaster} }

var serMal = []string{"unit", "fc", "excfc", "short", "long", "bytecount", "echo1", "echo2", "empty", "exc+", "exc0", "ezero", "fifocnt", "swap", "req"}

func genSerialMaster(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("serm")
	T := r.pick(20, 50, 100, 300, 1000)
	p.Knobs["T"] = T
	p.Knobs["ascii"] = r.n(2)
	p.Knobs["baud"] = r.pick(0, 300, 1200, 9600, 19200, 38400, 115200)
	p.Knobs["short"] = r.n(2)
	p.Pol = r.policy(prop == "M08" || prop == "M09" || prop == "M07" || prop == "M04")
	nm, na := 1, 1
	switch prop {
	case "M04":
		na = r.in(2, 6)
	case "M08":
		na = r.pick(1, 2, 3)
	case "M06", "M07":
		na = r.pick(1, 1, 1, 2)
	case "M09":
		nm, na = r.pick(1, 2, 3), r.in(1, 4)
	}
	p.Knobs["masters"] = nm
	healthy := prop == "M04" && r.p(0.6)
	if healthy {
		p.Knobs["healthy"] = 1
		p.Knobs["T"] = 60000
	}
	kinds := requestOps
	noisy := prop != "M04" && r.p(0.7)
	if noisy || prop == "M05" {
		kinds = requestOps[:len(requestOps)-1]
	}
	nops := r.in(1, 6)
	if prop == "M09" {
		nops = r.in(3, 8)
	}
	if deep {
		nops += r.n(8)
	}
	for a := 0; a < na; a++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			switch {
			case prop == "M08" && r.p(0.45) || r.p(0.06):
				ops = append(ops, Op{K: r.str("conn", "close", "isconn", "isconn")})
			case r.p(0.12):
				ops = append(ops, Op{K: "sleep", A: []int{r.in(0, 2*T)}})
			case prop == "M07" && r.p(0.04):
				ops = append(ops, Op{K: "stub", A: []int{r.pick(1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24, 17, 99), r.n(5), r.n(3)}})
			default:
				ops = append(ops, genCall(r, kinds))
			}
		}
		p.Acts = append(p.Acts, ops)
	}
	good := map[string]int{"M04": 75, "M05": 20, "M06": 45, "M07": 35, "M08": 50, "M09": 75}[prop]
	for i := 0; i < na*nops+2; i++ {
		var o Op
		x := r.n(100)
		switch {
		case healthy || x < good:
			switch r.w(5, 2, 3) {
			case 0:
				o = Op{K: "ok", A: []int{r.pick(0, 0, 1, T/4, T*3/4)}}
			case 1:
				o = Op{K: "exc", A: []int{r.pick(0, 0, T/4), r.pick(1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 77, 255), r.pick(0, 1, T/4, T*3/4), r.pick(100, 1, 2, 3)}}
			case 2:
				o = Op{K: "trickle", A: []int{r.pick(0, 1, 2, T/20, T/4, T*4/5), r.pick(1, 2, 3, 4, 5, 7, 50), r.pick(0, 1, T/2)}}
			}
		case prop == "M05" && x < 85:
			o = Op{K: "mal", A: []int{r.n(len(serMal)), r.n(1 << 16), r.pick(0, 0, 1, T/2)}}
			if r.p(0.05) {
				o = Op{K: "excok", A: []int{r.pick(0, 1, T/4), r.pick(1, 2, 4, 5, 5, 6, 6, 7, 11, 200), r.pick(1, T/4, T/2)}}
			}
		case noisy && r.p(0.5):
			// reply with 1-3 corruptions: kind, position, value; then gap and chunk
			o = Op{K: "noise", A: []int{r.pick(0, 1, T/4), r.pick(100, 100, 1, 4)}}
			for j := r.pick(1, 1, 1, 2, 3); j > 0; j-- {
				o.A = append(o.A, r.n(8), r.n(300), r.n(256))
			}
		default:
			switch r.w(2, 3, 2, 2, 2, 1, 1) {
			case 0:
				o = Op{K: "silent"}
			case 1:
				o = Op{K: "late", A: []int{r.pick(0, 1, T/2, T, 3*T), r.pick(100, 3)}}
			case 2:
				o = Op{K: "trickle", A: []int{r.pick(T-1, T, T+1, 2*T), r.pick(1, 3, 9), 0}}
			case 3:
				o = Op{K: "cut", A: []int{r.pick(0, 1, 2, 3, 4, 5, 6, 20, 60), r.n(2)}}
			case 4:
				o = Op{K: "unplug", A: []int{r.pick(0, 1, 3, 5, 9), r.n(2), r.pick(0, 1, T, 3*T)}}
			case 5:
				o = Op{K: "rderr", A: []int{r.pick(0, 1, 3, 5, 9), r.pick(1, T, 3*T)}}
			case 6:
				o = Op{K: "babble", A: []int{r.pick(1, T/4, T-1), r.pick(1, 5, 40), r.n(1 << 16)}}
			}
			if !noisy && prop == "M06" {
				o = Op{K: "silent"}
			}
		}
		p.Lists["reply"] = append(p.Lists["reply"], o)
	}
	if !healthy && prop != "M05" && r.p(0.4) {
		for i := r.in(1, 4); i > 0; i-- {
			p.Lists["open"] = append(p.Lists["open"], Op{K: r.str("", "", "busy", "perm")})
		}
	}
	if !healthy && prop != "M05" && r.p(0.3) {
		for i := r.in(1, 5); i > 0; i-- {
			p.Lists["write"] = append(p.Lists["write"], Op{K: r.str("", "", "err", "part", "short"), A: []int{r.pick(0, 1, 3, 6)}})
		}
	}
	if (prop == "M07" || prop == "M08") && r.p(0.35) {
		for i := r.in(1, 3); i > 0; i-- {
			p.Lists["dev"] = append(p.Lists["dev"], Op{K: r.str("unplug", "unplug", "rderr", "noise"), A: []int{r.in(0, 4*T), r.in(0, 3*T), r.n(4)}})
		}
	}
	if prop == "M07" || prop == "M08" {
		for i := r.in(2, 5); i > 0; i-- {
			p.Lists["after"] = append(p.Lists["after"], genCall(r, kinds))
		}
		p.Knobs["wait"] = r.pick(0, 0, 1, T, 3*T)
	}
	return p
}

func runSerialMaster(p *Plan, prop string) {
	w := &serWorld{p: p, T: int64(p.k("T", 10, 100000)) * ms, ascii: p.k("ascii", 0, 1) == 1, baud: p.k("baud", 0, 1000000)}
	if w.baud > 0 && w.baud < 50 {
		w.baud = 50
	}
	nm := p.k("masters", 1, 4)
	for i := 0; i < nm; i++ {
		m := &Master{idx: i, kind: "rtu", T: w.T}
		addr := fmt.Sprintf("/dev/ttyS%d", i)
		opt := modbus.WithSerialConfig(serial.Config{Address: addr, BaudRate: w.baud, DataBits: 8, Parity: "N", StopBits: 1, Timeout: time.Duration(w.T)})
		if w.ascii {
			m.kind = "ascii"
			m.cl = modbus.NewClient(modbus.NewASCIIClientProvider(opt))
		} else {
			m.cl = modbus.NewClient(modbus.NewRTUClientProvider(opt))
		}
		l := simserial.NewLine(addr)
		m.line = l
		l.ShortRd = p.k("short", 0, 1) == 1
		s := &sline{l: l, m: m}
		w.ls = append(w.ls, s)
		w.masters = append(w.masters, m)
		l.OnTx = func(b []byte) { w.onTx(s, b) }
		l.OnRx = func(b []byte) { w.onRx(s, b) }
		l.OnOpen = func(*simserial.Port) {
			s.openPos, s.portSeq = len(s.log), simrt.Seq()
			m.hold(1, "open")
		}
		l.OnClose = func(*simserial.Port) { m.hold(-1, "close") }
		l.OpenFate = func(n int) error {
			if w.healed {
				return nil
			}
			switch w.p.at("open", n).K {
			case "busy":
				s.spoil()
				return syscall.EBUSY
			case "perm":
				s.spoil()
				return syscall.EACCES
			}
			return nil
		}
		l.WriteFate = func(n int, b []byte) (int, error, bool) {
			if w.healed {
				return 0, nil, false
			}
			o := w.p.at("write", n)
			k := clamp(o.a(0), 0, len(b)-1)
			switch o.K {
			case "err":
				s.spoil()
				return 0, syscall.EIO, true
			case "part":
				s.spoil()
				s.faults++
				return k, syscall.EIO, true
			case "short":
				s.spoil()
				return k, nil, true
			}
			return 0, nil, false
		}
	}
	for _, o := range p.Lists["dev"] {
		if len(p.Lists["dev"]) > 0 {
			_ = o
			simrt.Spawn("linectl", func() { w.control() })
			break
		}
	}
	var q simrt.WaitQ
	left := len(p.Acts)
	for a := range p.Acts {
		a := a
		t := simrt.Spawn(fmt.Sprintf("caller%d", a), func() {
			for _, o := range expand(p.Acts[a]) {
				simrt.Progress()
				w.call(w.masters[a%nm], o)
			}
			left--
			q.WakeAll()
		})
		t.MarkApp()
	}
	for left > 0 {
		q.Wait("callers")
	}
	if prop == "M07" || prop == "M08" {
		w.afterHeal()
	}
	for _, m := range w.masters {
		w.call(m, Op{K: "close"})
		w.call(m, Op{K: "isconn"})
		if m.held != 0 {
			Fail("M08", "master %d still holds a port after Close returned", m.idx)
		}
	}
	w.checkStable()
}

func (s *sline) spoil() {
	s.faults++
	for _, e := range s.exs {
		if !e.call.done {
			e.spoilt = true
		}
	}
}

func (w *serWorld) control() {
	for _, o := range w.p.Lists["dev"] {
		w.wait(int64(clamp(o.a(0), 0, 100000)) * ms)
		if w.healed {
			return
		}
		s := w.ls[clamp(o.a(3), 0, len(w.ls)-1)]
		dur := int64(clamp(o.a(1), 0, 100000)) * ms
		switch o.K {
		case "unplug":
			w.unplug(s, 1+o.a(2)&1, dur)
		case "rderr":
			w.rderr(s, dur)
		case "noise":
			simrt.Fault("line-noise-idle")
			s.spoil()
			s.l.DevSend(payload(uint64(o.a(1)), 1+o.a(2)&3*5))
		}
	}
}

func (w *serWorld) unplug(s *sline, kind int, dur int64) {
	simrt.Fault("adapter-unplugged")
	s.spoil()
	s.l.Unplug(kind)
	w.wait(dur)
	s.l.Replug()
}

func (w *serWorld) rderr(s *sline, dur int64) {
	simrt.Fault("line-read-errors")
	s.spoil()
	s.l.SetReadErr(syscall.EIO)
	w.wait(dur)
	s.l.SetReadErr(nil)
}

func (w *serWorld) wait(d int64) {
	if d <= 0 || w.healed {
		return
	}
	t := simrt.Now() + d
	for !w.healed && simrt.Now() < t {
		w.heal.WaitUntil("device", t)
	}
}

func (w *serWorld) afterHeal() {
	w.healed = true
	simrt.Logf("HEALED")
	for _, s := range w.ls {
		s.l.Replug()
		s.l.SetReadErr(nil)
	}
	w.heal.WakeAll()
	simrt.Sleep(1 + int64(w.p.k("wait", 0, 10000))*ms)
	for _, s := range w.ls {
		m := s.m
		i, failed := -1, 0
		for _, o := range w.p.Lists["after"] {
			w.quiet(s)
			c := w.call(m, o)
			if c == nil || !isRequest(c.op) {
				continue
			}
			i++
			bad := c.err != nil && exception(c.err) < 0
			if bad {
				failed++
			}
			if bad && failed > 1 && simrt.StalledFor() == c.stall0 {
				Fail("M07", "call number %d after the line became healthy is the second one to fail: %v: %v", i+1, c, c.err)
				Fail("M08", "the master was unusable: %v: %v", c, c.err)
			}
			if bad {
				simrt.Probe("first-call-after-heal-failed")
			}
		}
		if checked == "M08" {
			w.call(m, Op{K: "close"})
			if m.held != 0 {
				Fail("M08", "master %d still holds a port after Close returned", m.idx)
			}
			w.quiet(s)
			if c := w.call(m, Op{K: "conn"}); c.err != nil {
				Fail("M08", "Connect after Close failed on a healthy line: %v", c.err)
			}
			k := m.nopens
			w.quiet(s)
			if c := w.call(m, Op{K: "rhr", A: []int{1, 2, 3}}); c.err != nil {
				Fail("M08", "call after Close and Connect failed: %v", c.err)
			}
			if c := w.call(m, Op{K: "conn"}); c.err != nil {
				Fail("M08", "Connect on a connected master failed: %v", c.err)
			}
			if m.nopens != k {
				Fail("M08", "a connected master opened another port")
			}
		}
	}
}

// quiet waits until no reply is under way on the line.
func (w *serWorld) quiet(s *sline) {
	for s.sending > 0 {
		simrt.Sleep(ms)
	}
}

// stub sends a truncated request PDU; whatever happens, it has to come back.
func (w *serWorld) stub(m *Master, o Op) {
	fc := byte(clamp(o.a(0), 1, 127))
	pdu := stdPDU(fc, uint16(len(w.calls)), 1, 7)
	pdu = pdu[:clamp(1+o.a(1), 1, len(pdu))]
	w.ls[m.idx].spoil()
	w.ls[m.idx].wbuf = nil
	simrt.Logf("stub %x", pdu)
	if o.a(1) == 4 { // or one that is too long
		pdu = append(pdu, payload(3, 249+o.a(2)*2)...)
	}
	if o.a(2) == 0 {
		m.cl.Send(1, modbus.ProtocolDataUnit{FuncCode: pdu[0], Data: pdu[1:]})
	} else {
		m.cl.SendPdu(1, pdu)
	}
	w.ls[m.idx].wbuf = nil
	simrt.Probe("stub-request-returned")
}

func (w *serWorld) call(m *Master, o Op) *Call {
	if o.K == "stub" {
		if len(w.p.Acts) == 1 {
			w.stub(m, o)
		}
		return nil
	}
	s := w.ls[m.idx]
	n0 := len(s.log)
	c := w.do(m, o)
	if c == nil {
		return nil
	}
	m.checkHeld(c)
	// the bound
	from := c.inv
	if c.prevRet > from {
		from = c.prevRet
	}
	char := int64(750000)
	frame := int64(1750000)
	b := int64(w.baud)
	if b <= 0 {
		b = 19200
	}
	if v := 15 * int64(time.Second) / b; v > char {
		char = v
	}
	if v := 35 * int64(time.Second) / b; v > frame {
		frame = v
	}
	var delay int64
	if isRequest(c.op) {
		delay = char*int64(len(serialADU(w.ascii, c.unit, c.pdu))+len(serialADU(w.ascii, c.unit, okReply(c.pdu, 31)))) + frame
	}
	n := int64(len(s.log) - n0)
	lim := delay + w.T*(n+1)
	stall := simrt.StalledFor() - c.stall0
	known := true
	if len(m.active) > 0 { // another call may have held the line and not have returned yet
		known = len(c.sexs) > 0
		if known && c.sexs[len(c.sexs)-1].sentAt > from {
			from = c.sexs[len(c.sexs)-1].sentAt
		}
	}
	if known && c.ret-from > lim+stall+ms {
		Fail("M07", "%v returned %v after it was its turn, with %d bytes received; at most %v is allowed", c, time.Duration(c.ret-from), n, time.Duration(lim))
	}
	if isRequest(c.op) {
		simrt.Atomic(func() { w.judge(c) })
	}
	return c
}

func (w *serWorld) onTx(s *sline, b []byte) {
	if s.faults > 0 && len(s.wbuf) > 0 && w.match(s, s.wbuf, false) == nil {
		s.wbuf = nil // left over from a failed write
	}
	for len(b) > 0 {
		if len(s.wbuf) == 0 {
			w.newRequest(s)
		}
		s.wbuf = append(s.wbuf, b[0])
		b = b[1:]
		if c := w.match(s, s.wbuf, false); c == nil {
			if s.faults > 0 { // a write was cut short, or a stub
				for len(s.wbuf) > 0 && w.match(s, s.wbuf, false) == nil {
					s.wbuf = s.wbuf[1:]
				}
				continue
			}
			Fail("M09", "bytes on line %d are no request of any call in progress: % x", s.m.idx, s.wbuf)
			Fail("M04", "bytes on line %d are no request of any call in progress: % x", s.m.idx, s.wbuf)
			return
		}
		if c := w.match(s, s.wbuf, true); c != nil {
			s.wbuf = nil
			w.request(s, c)
		}
	}
}

func (w *serWorld) match(s *sline, b []byte, whole bool) *Call {
	for _, c := range s.m.active {
		if !isRequest(c.op) {
			continue
		}
		want := c.adu
		if !c.raw {
			want = serialADU(w.ascii, c.unit, c.pdu)
		}
		if bytes.HasPrefix(want, b) && (!whole || len(want) == len(b)) {
			return c
		}
	}
	return nil
}

func (w *serWorld) newRequest(s *sline) {
	if len(s.exs) == 0 {
		return
	}
	e := s.exs[len(s.exs)-1]
	if e.call.done || e.arrived > 0 || e.spoilt || simrt.StalledFor() > 0 || s.faults > 0 {
		return
	}
	switch e.mode.K {
	case "ok", "exc", "trickle", "silent", "late":
	default:
		return
	}
	if simrt.Now()-e.sentAt >= w.T {
		return
	}
	Fail("M04", "a new request begins on line %d while %v is unanswered and still waiting", s.m.idx, e.call)
}

// request: a whole request frame has reached the device.
func (w *serWorld) request(s *sline, c *Call) {
	e := &sexch{call: c, serial: w.serial, sentAt: simrt.Now(), sentSeq: simrt.Seq(), pending: s.l.Rx(), from: len(s.log)}
	w.serial++
	e.mode = w.p.at("reply", e.serial)
	if w.healed || e.mode.K == "" {
		e.mode = Op{K: "ok"}
	}
	if len(e.pending) > 0 || s.sending > 0 || s.l.HungUp || s.l.ReadErr != nil {
		e.spoilt = true
	}
	e.openAt, e.opened = s.openPos, s.portSeq
	s.exs = append(s.exs, e)
	c.sexs = append(c.sexs, e)
	s.cur = e
	s.sending++
	simrt.Spawn("device", func() {
		w.answer(s, e)
		s.sending--
	})
}

func (w *serWorld) onRx(s *sline, b []byte) {
	s.log = append(s.log, b...)
}

// put sends bytes of exchange e.
func (w *serWorld) put(s *sline, e *sexch, b []byte) {
	for _, x := range s.exs {
		if x != e && !x.call.done {
			x.spoilt = true
		}
	}
	e.reply = append(e.reply, b...)
	s.l.DevSend(b)
	if len(e.reply) >= len(e.frame) && e.arrived == 0 {
		e.arrived = simrt.Now() + 1
	}
}

func (w *serWorld) answer(s *sline, e *sexch) {
	c, o := e.call, e.mode
	pdu := okReply(c.pdu, uint64(e.serial)+uint64(c.id)<<20)
	e.frame = serialADU(w.ascii, c.unit, pdu)
	delay := func(v int) { w.wait(int64(clamp(v, 0, 100000)) * ms) }
	chunks := func(b []byte, gap, k int) {
		k = clamp(k, 1, 600)
		for i := 0; i < len(b); i += k {
			if i > 0 {
				g := gap
				if w.p.k("healthy", 0, 1) == 1 {
					g = clamp(g, 0, 2)
				}
				delay(g)
			}
			if w.healed && !e.whole && i > 0 {
				return
			}
			w.put(s, e, b[i:clamp(i+k, 0, len(b))])
		}
	}
	T := int(w.T / ms)
	switch o.K {
	case "exc":
		e.exc = clamp(o.a(1), 1, 255)
		e.frame = serialADU(w.ascii, c.unit, []byte{c.pdu[0] | 0x80, byte(e.exc)})
		e.whole = o.a(0) < T-1 && o.a(2) < T-1
		delay(o.a(0))
		chunks(e.frame, o.a(2), o.a(3))
	case "excok": // an exception, and a positive reply after it
		simrt.Fault("reply-after-exception")
		e.exc = clamp(o.a(1), 1, 255)
		exc := serialADU(w.ascii, c.unit, []byte{c.pdu[0] | 0x80, byte(e.exc)})
		e.excFirst = !e.spoilt && s.sending == 1
		delay(o.a(0))
		w.put(s, e, exc)
		delay(clamp(o.a(2), 1, 100000))
		w.put(s, e, e.frame)
	case "silent":
		simrt.Fault("reply-silent")
	case "late":
		simrt.Fault("reply-late")
		delay(T + clamp(o.a(0), 0, 100000))
		if !w.healed {
			chunks(e.frame, 1, o.a(1))
		}
	case "trickle":
		simrt.Fault("reply-trickle")
		e.whole = o.a(0) < T-1 && o.a(2) < T-1
		delay(o.a(2))
		chunks(e.frame, o.a(0), o.a(1))
	case "cut":
		simrt.Fault("reply-cut")
		n := clamp(o.a(0), 0, len(e.frame)-1)
		if o.a(1) == 1 {
			w.put(s, e, e.frame[n:]) // the beginning is lost
		} else if n > 0 {
			w.put(s, e, e.frame[:n])
		}
	case "unplug":
		n := clamp(o.a(0), 0, len(e.frame)-1)
		if n > 0 {
			w.put(s, e, e.frame[:n])
		}
		w.unplug(s, 1+o.a(1)&1, int64(clamp(o.a(2), 0, 100000))*ms)
	case "rderr":
		n := clamp(o.a(0), 0, len(e.frame)-1)
		if n > 0 {
			w.put(s, e, e.frame[:n])
		}
		w.rderr(s, int64(clamp(o.a(1), 0, 100000))*ms)
	case "babble":
		simrt.Fault("line-babble")
		b := payload(uint64(o.a(2)), 600)
		for i := 0; i < 200 && !w.healed; i++ {
			k := clamp(o.a(1), 1, 100)
			j := i * k % 500
			w.put(s, e, b[j:j+k])
			delay(clamp(o.a(0), 1, 100000))
		}
	case "noise":
		b := append([]byte(nil), e.frame...)
		for i := 2; i+2 < len(o.A); i += 3 {
			b = corrupt(b, o.a(i), o.a(i+1), o.a(i+2))
		}
		chunks(b, o.a(0), o.a(1))
	case "mal":
		kind := serMal[clamp(o.a(0), 0, len(serMal)-1)]
		simrt.Fault("reply-malformed-" + kind)
		delay(o.a(2))
		f := malformed(kind, o.a(1), c, 0, pdu)
		w.put(s, e, serialADU(w.ascii, f[6], f[7:]))
	default:
		e.whole = o.a(0) < T-1
		delay(o.a(0))
		w.put(s, e, e.frame)
	}
}

// corrupt does to b what noise on the line does.
func corrupt(b []byte, kind, pos, val int) []byte {
	if len(b) == 0 {
		return b
	}
	pos = clamp(pos, 0, 1<<20) % len(b)
	val &= 255
	switch kind {
	case 0:
		simrt.Fault("noise-bit-flip")
		b[pos] ^= 1 << uint(val&7)
	case 1:
		simrt.Fault("noise-byte-lost")
		b = append(b[:pos:pos], b[pos+1:]...)
	case 2:
		simrt.Fault("noise-byte-inserted")
		b = cat(b[:pos], []byte{byte(val)}, b[pos:])
	case 3:
		simrt.Fault("noise-byte-doubled")
		b = cat(b[:pos+1], b[pos:])
	case 4:
		simrt.Fault("noise-prefix")
		b = cat(payload(uint64(val), 1+val%9), b)
	case 5:
		simrt.Fault("noise-suffix")
		b = cat(b, payload(uint64(val), 1+val%9))
	case 6:
		simrt.Fault("noise-byte-changed")
		b[pos] = byte(val)
	case 7:
		simrt.Fault("noise-tail-lost")
		b = b[:pos]
	}
	return b
}

func upper(b []byte) []byte { return bytes.ToUpper(b) }

// holds tells whether b contains an intact frame with the unit and PDU.
func (w *serWorld) holds(b []byte, unit byte, pdu []byte) bool {
	if w.ascii {
		return bytes.Contains(upper(b), asciiADU(unit, pdu))
	}
	return bytes.Contains(b, rtuADU(unit, pdu))
}

// holdsExc tells whether b contains an intact frame that begins like an
// exception reply.
func (w *serWorld) holdsExc(b []byte, unit, fc byte, code int) bool {
	return w.holdsLike(b, []byte{unit, fc | 0x80, byte(code)})
}

// holdsLike tells whether b contains an intact frame that begins with head.
func (w *serWorld) holdsLike(b []byte, head []byte) bool {
	if w.ascii {
		u := upper(b)
		for i := range u {
			if u[i] != ':' {
				continue
			}
			j := bytes.Index(u[i:], []byte("\r\n"))
			if j < 0 {
				return false
			}
			d := make([]byte, j)
			n, err := hex.Decode(d, u[i+1:i+j])
			d = d[:n]
			if err == nil && len(d) > len(head) && bytes.HasPrefix(d, head) && refLRC(d[:len(d)-1]) == d[len(d)-1] {
				return true
			}
		}
		return false
	}
	for i := 0; i+len(head)+2 <= len(b); i++ {
		if !bytes.HasPrefix(b[i:], head) {
			continue
		}
		for j := i + len(head) + 2; j <= len(b) && j <= i+256; j++ {
			crc := refCRC(b[i : j-2])
			if b[j-2] == byte(crc) && b[j-1] == byte(crc>>8) {
				return true
			}
		}
	}
	return false
}

func (w *serWorld) judge(c *Call) {
	s := w.ls[c.m.idx]
	code := -1
	if c.err != nil {
		code = exception(c.err)
	}
	healthy := w.p.k("healthy", 0, 1) == 1
	if len(c.sexs) == 0 {
		if (c.err == nil || code >= 0) && s.faults == 0 {
			Fail("M06", "%v has the outcome %v %x without its request having been sent", c, c.err, c.res)
			Fail("M04", "%v has the outcome %v %x without its request having been sent", c, c.err, c.res)
			Fail("M05", "%v has the outcome %v %x without its request having been sent", c, c.err, c.res)
		} else if healthy && simrt.StalledFor() <= c.stall0 && !c.overlapsClose() {
			Fail("M04", "%v failed on a healthy line: %v", c, c.err)
		}
		return
	}
	e := c.sexs[len(c.sexs)-1]
	got := cat(e.pending, s.log[e.from:])
	// bytes that may not count: what failed exchanges left behind
	fresh := got
	if s.leftover(c, e) {
		fresh = s.log[e.from:]
	}
	holds := func(b []byte) bool {
		if c.raw {
			return bytes.Contains(b, c.rsp)
		}
		return w.holds(b, c.unit, c.rsp)
	}
	switch {
	case c.err == nil:
		if !holds(got) {
			for _, pr := range []string{"M06", "M05", "M04"} {
				Fail(pr, "%v succeeded with reply % x, but the bytes received hold no such intact frame: % x", c, c.rsp, got)
			}
		} else if !holds(fresh) {
			Fail("M07", "%v took bytes an earlier failed exchange left behind for its reply: % x", c, c.rsp)
		}
		if e.excFirst && !c.raw && len(c.sexs) == 1 {
			Fail("M05", "%v succeeded although the device answered with exception code %d", c, e.exc)
		}
		if !c.raw {
			if c.typed && !shapeOK(c.pdu, c.rsp) || !c.typed && (len(c.rsp) < 2 || c.rsp[0] != c.pdu[0]) {
				Fail("M05", "%v succeeded with a reply of the wrong shape: % x", c, c.rsp)
			}
			simrt.Probe("success-checked")
		}
	case code >= 0:
		if !w.holdsExc(got, c.unit, c.pdu[0], code) {
			for _, pr := range []string{"M06", "M05", "M04"} {
				Fail(pr, "%v failed with exception code %d, but the bytes received hold no such intact frame: % x", c, code, got)
			}
		} else if !w.holdsExc(fresh, c.unit, c.pdu[0], code) {
			Fail("M07", "%v took an exception an earlier failed exchange left behind for its own", c)
		}
	}
	stalled := simrt.StalledFor() > c.stall0 || c.overlapsClose()
	if e.spoilt || stalled || len(c.sexs) != 1 {
		return
	}
	if e.whole && (e.arrived > 0 || c.err != nil && simrt.Now()-e.sentAt < w.T-ms) {
		bad := ""
		if e.exc > 0 && !c.raw {
			if code != e.exc {
				bad = fmt.Sprintf("the device answered with exception code %d, the call returned %v", e.exc, c.err)
			} else {
				simrt.Probe("exception-delivered")
			}
		} else if c.err != nil {
			bad = fmt.Sprintf("an intact and timely reply was sent, the call returned %v", c.err)
		} else if want := e.frame; c.raw && !bytes.Equal(want, c.rsp) || !c.raw && !w.holds(want, c.unit, c.rsp) {
			bad = fmt.Sprintf("the device answered % x, the call returned % x", e.frame, c.rsp)
		}
		if bad != "" {
			for _, pr := range []string{"M06", "M05", "M04"} {
				Fail(pr, "%v: %s", c, bad)
			}
		}
	}
	if healthy && c.err != nil && code < 0 {
		Fail("M04", "%v failed on a healthy line: %v", c, c.err)
	}
}

// leftover tells whether an earlier exchange failed on the port c uses.
func (s *sline) leftover(c *Call, e *sexch) bool {
	for _, x := range s.m.calls {
		if x != c && x.done && x.err != nil && exception(x.err) < 0 && len(x.sexs) > 0 && x.retSeq < e.sentSeq && x.sexs[len(x.sexs)-1].opened == e.opened {
			return true
		}
	}
	return false
}
