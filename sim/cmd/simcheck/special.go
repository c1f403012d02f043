package main

// Scenario "special": the outbound slave (TCPServerSpecial) against a scripted
// master side. Properties R01, R02, R03.

import (
	"errors"
	"fmt"
	"time"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

const spPort = 5020

// modes of the outbound slave, as far as the callers' history decides them.
const (
	spClosed  = iota // nothing goes on
	spRunning        // started, not closed
	spClosing        // closed or given up, not yet seen as closed
	spUnknown        // overlapping Start and Close: either
)

var spModeName = []string{"closed", "running", "closing", "unknown"}

type spWorld struct {
	p      *Plan
	prop   string
	s      *modbus.TCPServerSpecial
	R, W   int64
	CT, RI int64
	KA     int64 // keep-alive interval, 0: disabled
	AR     bool

	mustStop bool // auto-reconnect is off and it failed
	mode     int
	epoch    int // counts mode changes
	starting int // Start calls in flight
	closing  int // Close calls in flight
	startSeq int
	closeSeq int
	cbSlept  int64 // time callbacks were made to sleep
	cbBase   int64
	cbBusy   int

	// what must happen next while running
	want     string // "", "dial", "connect", "lost", "serve"
	wantLo   int64
	wantHi   int64
	wantMark int64 // StallMark
	wantCb   int64 // cbSlept

	dialing bool
	conn    *simnet.Conn // the open one
	cl      *spConn
	conns   map[*simnet.Conn]*spConn
	list    []*spConn
	ncb     int // connect callbacks so far
	nlost   int
	nka     int
	inCb    string // connect or lost callback in progress
	inKA    bool
	up      bool // a connect callback succeeded, no lost callback came since
	inbox   []*simnet.Conn
	healed  bool
	ending  bool
	nlife   int
	q       simrt.WaitQ
	stalls  bool
}

// spConn is one connection of the outbound slave.
type spConn struct {
	w       *spWorld
	id      int
	a, d    *simnet.Conn
	dialEnd int64
	cbExit  int64 // connect callback returned
	cbFail  bool
	ok      bool // connect callback succeeded
	mark    int64
	closed  int64
	lostIn  int64
	lostOut int64
	kaFirst int64 // fires
	kaTimes []int64
	kaDur   int64
	inStop  bool // Close was invoked while it was up
	stopAt  int64
	spoilt  bool // the master side did something that ends it
	lastIn  int64
	out     []byte
	reqs    map[uint16]*spReq // without a reply so far
	open    []*spReq          // the same, in order
	served  int64             // when the latest request with a reply was made
	hb      int
}

type spReq struct {
	tid  uint16
	at   int64
	mark int64
	cb   int64
	max  int64 // time the reply may take
	must bool
	want []byte
}

func init() { scenarios["special"] = scenario{genSpecial, runSpecial} }

func (w *spWorld) setMode(m int, why string) {
	if w.mode == m {
		return
	}
	simrt.Logf("mode %s -> %s: %s", spModeName[w.mode], spModeName[m], why)
	w.mode = m
	w.mustStop = false
	w.epoch++
	w.want = ""
	if w.cl != nil && m != spRunning && !w.cl.inStop {
		w.cl.inStop, w.cl.stopAt = true, simrt.Now()
	}
	w.q.WakeAll()
}

// expect notes what has to come between lo and hi.
func (w *spWorld) expect(what string, lo, hi int64) {
	w.want, w.wantLo, w.wantHi = what, lo, hi
	w.wantMark, w.wantCb = simrt.StallMark(), w.cbMark()
}

func (w *spWorld) slack() int64 {
	return simrt.StalledFor() - w.wantMark + w.cbSlept - w.wantCb + 5*ms
}

// late reports an expected event that has not come in time.
func (w *spWorld) late() {
	if w.mode != spRunning || w.want == "" {
		return
	}
	if now := simrt.Now(); now > w.wantHi+w.slack() {
		bad("R01", "%s did not come by %v, now it is %v", map[string]string{
			"dial": "the next connect", "connect": "the connect callback", "lost": "the connection-lost callback",
		}[w.want], time.Duration(w.wantHi), time.Duration(now))
	}
}

// came notes that an event came.
func (w *spWorld) came(what string) {
	now := simrt.Now()
	if w.mode == spClosed {
		bad("R02", "%s after the slave was closed", what)
		return
	}
	if w.mode != spRunning {
		return
	}
	w.late()
	if w.want == "" {
		return
	}
	if w.want != what {
		bad("R01", "%s came instead of %s", what, w.want)
		return
	}
	if now < w.wantLo {
		bad("R01", "%s came already at %v, not before %v was right", what, time.Duration(now), time.Duration(w.wantLo))
		return
	}
	w.want = ""
}

// afterFailure says what follows a failed connect or connect callback.
func (w *spWorld) afterFailure(lo, hi int64, why string) {
	if w.mode != spRunning {
		return
	}
	if !w.AR {
		w.stopped(why)
		return
	}
	w.expect("dial", lo, hi)
}

func (w *spWorld) stopped(why string) {
	if w.starting > 0 {
		w.setMode(spUnknown, "Start while it stops")
		return
	}
	w.setMode(spClosing, "stops after "+why)
	w.mustStop = true
	w.watchClosed(1000 * ms)
}

func (w *spWorld) bound() int64 { return 2*w.R + w.W + w.CT + w.RI + 1000*ms }

// watchClosed checks that the slave reports closed within d.
func (w *spWorld) watchClosed(d int64) {
	ep := w.epoch
	mark, cb := simrt.StallMark(), w.cbMark()
	from := simrt.Now()
	simrt.Spawn("watch-closed", func() {
		step := d / 16
		for w.epoch == ep {
			over := simrt.Now() >= from+d+simrt.StalledFor()-mark+w.cbSlept-cb+ms
			c := w.isClosed()
			if w.epoch != ep {
				return
			}
			if !c && over {
				bad("R02", "the slave does not report closed %v after Close (or after it had to stop)", time.Duration(simrt.Now()-from))
				return
			}
			simrt.Sleep(step + ms)
		}
	})
}

// ---- the calls ----

func (w *spWorld) start() {
	w.startSeq++
	was, cs := w.mode, w.closeSeq
	alone := w.starting == 0 && w.closing == 0
	if was == spClosing || was == spClosed && !alone {
		w.setMode(spUnknown, "Start")
	} else if was == spClosed {
		w.setMode(spUnknown, "Start begins")
	}
	w.starting++
	ep := w.epoch
	at := simrt.Now()
	simrt.Logf("Start")
	err := w.s.Start()
	w.starting--
	simrt.Logf("Start returned %v", err)
	if err != nil {
		bad("R02,R01", "Start failed: %v", err)
		return
	}
	if was == spClosed && alone && w.epoch == ep && w.closeSeq == cs && w.closing == 0 {
		// it may already be at work
		c, d, cl, want, lo, hi, m, cb := w.conn, w.dialing, w.cl, w.want, w.wantLo, w.wantHi, w.wantMark, w.wantCb
		_, _ = c, d
		w.setMode(spRunning, "Start")
		w.want, w.wantLo, w.wantHi, w.wantMark, w.wantCb = want, lo, hi, m, cb
		if cl != nil && cl.closed == 0 {
			cl.inStop = false
		}
		if !w.dialing && w.conn == nil && w.want == "" && w.inCb == "" && !w.touched(at) {
			w.expect("dial", at, simrt.Now())
		}
	}
}

// touched tells whether the slave did anything since t.
func (w *spWorld) touched(t int64) bool {
	l := simnet.N.DialLog
	return len(l) > 0 && l[len(l)-1].At >= t
}

func (w *spWorld) close() {
	w.closeSeq++
	ss, st0 := w.startSeq, w.starting
	switch {
	case w.mode == spRunning && w.starting == 0:
		w.setMode(spClosing, "Close")
		w.watchClosed(w.bound())
	case w.starting > 0:
		w.setMode(spUnknown, "Close during Start")
	}
	ep := w.epoch
	w.closing++
	inv := simrt.Now()
	st := simrt.StallMark()
	cb := w.cbMark()
	simrt.Logf("Close")
	err := w.s.Close()
	simrt.Logf("Close returned %v", err)
	w.closing--
	if err != nil {
		bad("R02", "Close failed: %v", err)
	}
	if d := simrt.Now() - inv; d > w.bound()+simrt.StalledFor()-st+w.cbSlept-cb {
		bad("R02", "Close took %v", time.Duration(d))
	}
	if w.mode == spUnknown && st0 == 0 && w.starting == 0 && w.startSeq == ss && w.epoch == ep {
		w.setMode(spClosing, "Close in doubt")
		w.watchClosed(w.bound())
	}
}

func (w *spWorld) isClosed() bool {
	ep, m, st := w.epoch, w.mode, w.starting
	v := w.s.IsClosed()
	if w.epoch != ep || st > 0 || w.starting > 0 {
		return v
	}
	switch m {
	case spClosed:
		if !v {
			bad("R02", "IsClosed is false on a closed slave")
		}
	case spRunning:
		if v {
			bad("R01,R02", "IsClosed is true on a running slave")
		}
	case spClosing:
		if v {
			w.sawClosed()
		}
	}
	return v
}

// sawClosed: from now on nothing may happen.
func (w *spWorld) sawClosed() {
	w.setMode(spClosed, "IsClosed")
	simrt.Probe("closed")
	if w.conn != nil {
		bad("R02", "the slave reports closed and still holds connection %d", w.conn.ID)
	}
	if w.dialing {
		bad("R02", "the slave reports closed while it is connecting")
	}
	if w.inCb != "" {
		bad("R02", "the slave reports closed while the %s callback runs", w.inCb)
	}
}

func (w *spWorld) isConnected() bool {
	sure := w.sureConnected()
	sureNot := w.sureNotConnected()
	ep, cl, d := w.epoch, w.cl, w.dialing
	v := w.s.IsConnected()
	if w.epoch != ep || w.cl != cl || w.dialing != d {
		return v
	}
	if sure && w.sureConnected() && !v {
		bad("R01", "IsConnected is false while connection %d is being served", cl.id)
	}
	if sureNot && w.sureNotConnected() && v {
		bad("R01,R02", "IsConnected is true without a connection")
	}
	return v
}

func (w *spWorld) sureConnected() bool {
	c := w.cl
	return c != nil && c.ok && c.closed == 0 && simrt.StalledFor() == c.mark && simrt.Now() > c.cbExit+5*ms && !c.inStop
}

func (w *spWorld) sureNotConnected() bool {
	if w.conn != nil {
		return false
	}
	c := w.cl
	return c == nil || w.mode == spClosed || c.lostIn > 0 && c.lostIn < simrt.Now()
}

func (w *spWorld) underlying() {
	c := w.s.UnderlyingConn()
	if c != nil {
		_ = c.RemoteAddr()
	}
}

func (w *spWorld) doOp(o Op) {
	switch o.K {
	case "sleep":
		simrt.Sleep(int64(clamp(o.a(0), 0, 60000))*ms + int64(clamp(o.a(1), 0, 999))*1000)
	case "start":
		w.start()
	case "close":
		w.close()
	case "closed?":
		w.isClosed()
	case "connected?":
		w.isConnected()
	case "conn?":
		w.underlying()
	case "log":
		w.s.LogMode(o.a(0)&1 == 1)
	case "await":
		// until it is closed, then start it again
		t := simrt.Now() + w.bound() + 1000*ms
		for w.mode == spClosing && simrt.Now() < t {
			w.q.WaitUntil("closed", t)
		}
	case "awaitup":
		t := simrt.Now() + int64(clamp(o.a(0), 0, 60000))*ms
		for !w.up && simrt.Now() < t {
			w.q.WaitUntil("up", t)
		}
	}
}

// ---- what the slave does ----

func (w *spWorld) onDial(n int) {
	w.came("dial")
	if w.mustStop {
		bad("R01,R02", "the slave connects again although it is not to reconnect")
	}
	if w.dialing {
		bad("R01", "two connects at the same time")
	}
	if w.conn != nil {
		bad("R01", "the slave connects while it still holds connection %d", w.conn.ID)
	}
	if w.up {
		bad("R01", "the slave connects without having called the connection-lost callback")
	}
	w.dialing = true
	w.q.WakeAll()
}

func (w *spWorld) onDialEnd(n int, c *simnet.Conn) {
	w.dialing = false
	now := simrt.Now()
	if c == nil {
		if w.mode == spUnknown {
			return
		}
		w.afterFailure(now+w.RI, now+w.RI, "a failed connect")
		return
	}
	s := &spConn{w: w, id: c.ID, a: c, d: c.Peer(), dialEnd: now, reqs: map[uint16]*spReq{}, mark: simrt.StallMark()}
	s.inStop = w.mode != spRunning
	w.conns[c] = s
	w.list = append(w.list, s)
	if w.conn != nil {
		bad("R01", "the slave holds connections %d and %d", w.conn.ID, c.ID)
	}
	w.conn, w.cl = c, s
	if w.mode == spRunning {
		w.expect("connect", now, now)
	}
	w.q.WakeAll()
}

func (w *spWorld) onAppClose(c *simnet.Conn) {
	s := w.conns[c]
	if s == nil {
		return
	}
	now := simrt.Now()
	if s.closed == 0 {
		s.closed = now
	}
	if w.conn == c {
		w.conn = nil
	}
	w.q.WakeAll()
	if w.mode != spRunning {
		return
	}
	if s.ok && s.lostIn == 0 {
		// why does it close it?
		quiet := now - s.lastActive()
		if !s.spoilt && c.EndAt == 0 && quiet < w.R-ms && simrt.StalledFor() == s.mark && c.BlockedAt == 0 {
			bad("R01", "the slave closes connection %d although nothing is wrong with it", s.id)
		}
		s.checkKA(now)
		w.expect("lost", now, now)
	}
}

func (s *spConn) lastActive() int64 {
	t := s.cbExit
	if s.a.LastRecv > t {
		t = s.a.LastRecv
	}
	if s.lastIn > t {
		t = s.lastIn
	}
	return t
}

func (w *spWorld) cbOps(ops []Op) {
	for _, o := range ops {
		w.doOp(o)
	}
}

// nap makes a callback take its time.
func (w *spWorld) nap(d int64) {
	if w.cbBusy == 0 {
		w.cbBase = w.cbSlept
	}
	w.cbSlept += d
	w.cbBusy++
	simrt.Sleep(d)
	w.cbBusy--
}

// cbMark is what cbSlept was when no callback was asleep the last time.
func (w *spWorld) cbMark() int64 {
	if w.cbBusy > 0 {
		return w.cbBase
	}
	return w.cbSlept
}

// cb performs what the plan wants the i-th callback of a kind to do.
func (w *spWorld) cb(list string, i int) Op {
	if w.healed {
		return Op{}
	}
	o := w.p.at(list, i)
	switch o.a(1) {
	case 1:
		w.isConnected()
	case 2:
		w.underlying()
	case 3:
		w.close()
	case 4:
		w.start()
	case 5:
		w.isClosed()
	}
	if d := int64(clamp(o.a(2), 0, 5000)) * ms; d > 0 {
		w.nap(d)
	}
	return o
}

func (w *spWorld) onConnect(c *modbus.TCPServerSpecial) error {
	now := simrt.Now()
	var s *spConn
	simrt.Atomic(func() {
		w.came("connect")
		s = w.cl
		if c != w.s {
			bad("R01", "the connect callback got another slave")
		}
		if w.inCb != "" {
			bad("R01", "the connect callback is called while the %s callback runs", w.inCb)
		}
		if w.up {
			bad("R01", "the connect callback is called twice without a connection-lost callback")
		}
		if s == nil || s.cbExit > 0 || s.closed > 0 {
			bad("R01", "the connect callback is called without a new connection")
		}
		w.inCb = "connect"
	})
	if s == nil {
		return nil
	}
	_ = now
	i := w.ncb
	w.ncb++
	o := w.cb("oncon", i)
	simrt.Atomic(func() {
		w.inCb = ""
		now = simrt.Now()
		s.cbExit = now
		s.mark = simrt.StallMark()
		if o.a(0) != 0 {
			s.cbFail = true
		} else {
			s.ok = true
			w.up = true
		}
		w.q.WakeAll()
	})
	simrt.Logf("connect callback %d: fail %v", i, s.cbFail)
	if s.cbFail {
		simrt.Fault("connect-callback-error")
		simrt.Atomic(func() { w.afterFailure(now+w.RI, now+w.RI, "a failed connect callback") })
		return errors.New("not now")
	}
	return nil
}

func (w *spWorld) onLost(c *modbus.TCPServerSpecial) {
	var s *spConn
	simrt.Atomic(func() {
		w.came("lost")
		s = w.cl
		if w.inCb != "" {
			bad("R01", "the connection-lost callback is called while the %s callback runs", w.inCb)
		}
		if !w.up || s == nil || s.lostIn > 0 {
			bad("R01", "the connection-lost callback is called without a connect callback that succeeded before")
			return
		}
		s.lostIn = simrt.Now()
		if s.lostIn == 0 {
			s.lostIn = 1
		}
		w.inCb = "connection-lost"
	})
	if s == nil {
		return
	}
	simrt.Logf("connection-lost callback")
	if s.closed == 0 && w.conn == s.a {
		bad("R01", "the connection-lost callback is called while connection %d is open", s.id)
	}
	i := w.nlost
	w.nlost++
	w.cb("onlost", i)
	simrt.Atomic(func() {
		w.inCb = ""
		w.up = false
		now := simrt.Now()
		s.lostOut = now
		if now == 0 {
			s.lostOut = 1
		}
		if w.mode == spRunning {
			if !w.AR {
				w.stopped("a lost connection")
			} else {
				w.expect("dial", s.closed+500*ms, now+1000*ms)
			}
		}
		w.q.WakeAll()
	})
}

func (w *spWorld) onKeepAlive(c *modbus.TCPServerSpecial) {
	var s *spConn
	simrt.Atomic(func() {
		now := simrt.Now()
		s = w.cl
		switch {
		case w.KA == 0:
			bad("R03", "the keep-alive callback runs although it is disabled")
		case w.mode == spClosed:
			bad("R03,R02", "the keep-alive callback runs after the slave was closed")
		case s == nil || !s.ok:
			bad("R03", "the keep-alive callback runs before the connect callback has succeeded")
		case s.lostOut > 0:
			bad("R03", "the keep-alive callback starts after the connection-lost callback has returned")
		case w.inKA:
			bad("R03", "the keep-alive callback runs twice at the same time")
		default:
			s.fire(now)
			w.inKA = true
			return
		}
		s = nil
	})
	if s == nil {
		return
	}
	i := w.nka
	w.nka++
	simrt.Logf("keep-alive")
	o := Op{}
	if !w.healed {
		o = w.p.at("onka", i)
	}
	switch o.a(0) {
	case 1:
		if c := w.s.UnderlyingConn(); c != nil {
			if a, ok := c.(*simnet.Conn); ok && w.conns[a] != nil {
				w.conns[a].hb++
			}
			c.Write([]byte{0xee, 0xee, 0, 0, 0, 3, 0, 0xff, 0xff})
		}
	case 2:
		w.isConnected()
	case 3:
		w.close()
	}
	if d := int64(clamp(o.a(1), 0, 5000)) * ms; d > 0 {
		if d > w.KA-10*ms { // shorter ones must not shift the schedule
			s.kaDur += d
		}
		w.nap(d)
	}
	w.inKA = false
}

// fire judges one keep-alive call.
func (s *spConn) fire(now int64) {
	w := s.w
	n := int64(len(s.kaTimes)) + 1
	stall := simrt.StalledFor() - s.mark
	if lo := s.dialEnd + n*w.KA; now < lo {
		bad("R03", "keep-alive call %d comes at %v, %v after connecting; the interval is %v", n, time.Duration(now), time.Duration(now-s.dialEnd), time.Duration(w.KA))
	}
	if s.kaDur == 0 && stall == 0 {
		if hi := s.cbExit + n*w.KA + 5*ms; now > hi {
			bad("R03", "keep-alive call %d comes only at %v, %v after connecting; the interval is %v", n, time.Duration(now), time.Duration(now-s.cbExit), time.Duration(w.KA))
		}
		if k := len(s.kaTimes); k > 0 {
			if d := now - s.kaTimes[k-1]; d < w.KA-ms || d > w.KA+ms {
				bad("R03", "keep-alive calls %v apart; the interval is %v", time.Duration(d), time.Duration(w.KA))
			}
		}
	}
	s.kaTimes = append(s.kaTimes, now)
	simrt.Probe("keepalive")
}

// checkKA: were there enough calls until now?
func (s *spConn) checkKA(now int64) {
	w := s.w
	if w.KA == 0 || !s.ok {
		return
	}
	if s.inStop && s.stopAt < now {
		now = s.stopAt
	}
	if s.closed > 0 && s.closed < now {
		now = s.closed
	}
	up := now - s.cbExit - s.kaDur - (simrt.StalledFor() - s.mark) - 5*ms
	if need := up / w.KA; s.kaDur == 0 && int64(len(s.kaTimes)) < need {
		bad("R03", "connection %d was up for %v and saw only %d keep-alive calls; the interval is %v", s.id, time.Duration(now-s.cbExit), len(s.kaTimes), time.Duration(w.KA))
	}
	// slow callbacks may cost calls, but the schedule must go on
	if s.kaDur > 0 && len(s.kaTimes) > 0 {
		last := s.kaTimes[len(s.kaTimes)-1]
		if gap := now - last; gap > w.KA+s.kaDur+(simrt.StalledFor()-s.mark)+5*ms && !w.inKA {
			bad("R03", "no keep-alive call for %v on connection %d; the interval is %v", time.Duration(gap), s.id, time.Duration(w.KA))
		}
	}
}

func (w *spWorld) onWrite(c *simnet.Conn, b []byte) {
	s := w.conns[c]
	if s == nil {
		return
	}
	if w.mode == spClosed {
		bad("R02", "the slave sends on connection %d after it was closed", c.ID)
	}
	if len(b) > 0 && b[0] != 0xee {
		s.lastIn = simrt.Now()
	}
}

// ---- the master side ----

func (w *spWorld) serveMaster(d *simnet.Conn) {
	s := w.conns[d.Peer()]
	if s == nil {
		return
	}
	i := w.nlife
	w.nlife++
	o := w.p.at("life", i)
	if w.healed || i >= w.p.n("life") {
		g := 150
		if x := int(w.R/ms) - 170; g > x {
			g = x
		}
		o = Op{A: []int{8, 0, 1000000, g}}
	}
	simrt.Spawn(fmt.Sprintf("master%d", d.ID), func() {
		buf := make([]byte, 512)
		for {
			n, err := d.Read(buf)
			if n > 0 {
				s.got(buf[:n])
			}
			if err != nil {
				w.q.WakeAll()
				return
			}
		}
	})
	kind := clamp(o.a(0), 0, 20)
	end := simrt.Now() + int64(clamp(o.a(1), 0, 100000))*ms
	if kind == 7 {
		s.spoilt = true
		d.AddFault(simnet.LinkFault{Kind: "blackhole", At: clamp(o.a(4), 0, 300)})
	}
	// requests
	n := clamp(o.a(2), 0, 1000000)
	gap := int64(clamp(o.a(3), 1, 100000)) * ms
	if gap+13*simnet.N.GapMax+simnet.N.LatMax+10*ms > w.R {
		s.spoilt = true // too slow for the read timeout
	}
	tid := uint16(1)
	for j := 0; j < n && !d.Broken() && !d.SawEOF() && !d.Closed(); j++ {
		if !(kind == 8 || simrt.Now() < end) {
			break
		}
		s.request(tid)
		if tid++; tid == 0xeeee { // used by the keep-alive callback
			tid = 1
		}
		t := simrt.Now() + gap
		for simrt.Now() < t && !d.Broken() && !d.SawEOF() {
			w.q.WaitUntil("gap", t)
		}
		if w.healed && kind != 8 && w.ending {
			break
		}
	}
	for simrt.Now() < end && !d.Broken() && !d.SawEOF() {
		w.q.WaitUntil("life", end)
	}
	s.checkAnswered()
	switch kind {
	case 0, 6:
		s.spoilt = true
		d.Close()
	case 1:
		s.spoilt = true
		d.Abort()
	case 2:
		s.spoilt = true
		d.CloseWrite()
	case 3: // a header that means nothing
		s.spoilt = true
		d.Write([]byte{0, 1, 0, 0, 0xff, 0xff, 1})
	case 4: // a part of a request, then silence
		s.spoilt = true
		d.Write([]byte{0, 9, 0, 0, 0})
	case 5: // silence
		s.spoilt = true
	}
	// wait until the slave has let go of it
	for !d.Broken() && !d.SawEOF() && !d.Closed() && !w.ending {
		w.q.WaitUntil("end", simrt.Now()+1000*ms)
		if s.ok && s.closed == 0 && w.mode == spRunning {
			s.checkNoticed()
		}
	}
	d.Close()
}

// checkNoticed: a connection that ended is let go.
func (s *spConn) checkNoticed() {
	w := s.w
	lim := s.lastActive() + w.R
	if s.a.EndAt > 0 {
		lim = s.a.EndAt
		if s.cbExit > lim {
			lim = s.cbExit
		}
	}
	if s.a.BlockedAt > 0 {
		lim += w.W
	}
	if now := simrt.Now(); now > lim+100*ms+simrt.StalledFor()-s.mark {
		bad("R01", "the slave still holds connection %d at %v, which was over at %v", s.id, time.Duration(now), time.Duration(lim))
	}
}

func (s *spConn) request(tid uint16) {
	w := s.w
	r := &spReq{tid: tid, at: simrt.Now(), mark: simrt.StallMark(), cb: w.cbSlept, must: !s.spoilt && !s.inStop}
	r.want = cat([]byte{3, 2}, be(0x4711+tid&7))
	// the slave's time, and the network's for this one and those before it
	open := int64(1 + len(s.open))
	r.max = 200*ms + 2*open*(14*simnet.N.GapMax+simnet.N.LatMax)
	s.reqs[tid] = r
	s.open = append(s.open, r)
	s.d.Write(tcpADU(tid, 1, cat([]byte{3}, be(tid&7, 1))))
	w.q.WakeAll()
}

func (s *spConn) got(b []byte) {
	w := s.w
	s.out = append(s.out, b...)
	for len(s.out) >= 7 {
		n := 6 + int(u16(s.out[4:]))
		if len(s.out) < n {
			break
		}
		f := s.out[:n]
		s.out = s.out[n:]
		tid := u16(f)
		if tid == 0xeeee {
			if s.hb--; s.hb < 0 {
				bad("R03,R01", "bytes on connection %d that nobody sent: % x", s.id, f)
			}
			continue
		}
		r := s.reqs[tid]
		if r == nil || n < 8 {
			bad("R01", "the slave sends on connection %d what is no reply: % x", s.id, short(f))
			return
		}
		delete(s.reqs, tid)
		if r.at > s.served {
			s.served = r.at
		}
		for i, x := range s.open {
			if x == r {
				s.open = append(s.open[:i:i], s.open[i+1:]...)
				break
			}
		}
		if string(f[7:]) != string(r.want) {
			bad("R01", "the slave answers % x, which should be % x", short(f[7:]), r.want)
		}
		simrt.Probe("answered")
		lim := r.at
		if s.cbExit > lim {
			lim = s.cbExit
		}
		if d := simrt.Now() - lim; d > r.max+simrt.StalledFor()-r.mark && r.must && !s.spoilt {
			bad("R01", "the slave answers only after %v", time.Duration(d))
		}
	}
	w.q.WakeAll()
}

// checkAnswered: requests that had time enough are answered.
func (s *spConn) checkAnswered() {
	now := simrt.Now()
	for _, r := range s.open {
		lim := r.at
		if s.cbExit > lim {
			lim = s.cbExit
		}
		if r.must && !s.spoilt && s.ok && !s.inStop && s.closed == 0 && now > lim+r.max+simrt.StalledFor()-r.mark && s.a.EndAt == 0 {
			bad("R01", "request %d on connection %d is not answered", r.tid, s.id)
			return
		}
	}
}

// ---- the run ----

func runSpecial(p *Plan, prop string) {
	w := &spWorld{p: p, prop: prop, conns: map[*simnet.Conn]*spConn{}}
	w.R = int64(p.k("R", 200, 100000)) * ms
	w.W = int64(p.k("W", 50, 100000)) * ms
	w.CT = int64(p.k("CT", 30, 100000)) * ms
	w.RI = int64(p.k("RI", 10, 100000)) * ms
	w.AR = p.k("noAR", 0, 1) == 0
	n := simnet.New()
	applyNet(p)
	w.s = modbus.NewTCPServerSpecial()
	w.s.SetReadTimeout(time.Duration(w.R)).SetWriteTimeout(time.Duration(w.W)).
		SetConnectTimeout(time.Duration(w.CT)).SetReconnectInterval(time.Duration(w.RI)).
		EnableAutoReconnect(w.AR).
		SetOnConnectHandler(w.onConnect).SetConnectionLostHandler(w.onLost)
	if k := p.k("KA", 0, 100000); k > 0 {
		w.KA = int64(k) * ms
		w.s.SetKeepAlive(true, time.Duration(w.KA), w.onKeepAlive)
	} else if p.k("kaoff", 0, 1) == 1 {
		w.s.SetKeepAlive(false, 50*time.Millisecond, w.onKeepAlive)
	}
	if p.k("log", 0, 1) == 1 {
		w.s.LogMode(true)
	}
	u := modbus.NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 8)
	u.WriteHoldings(0, []uint16{0x4711, 0x4712, 0x4713, 0x4714, 0x4715, 0x4716, 0x4717, 0x4718})
	w.s.AddNodes(u)
	if err := w.s.AddRemoteServer([]string{"tcp://127.0.0.1:5020", ":5020", "127.0.0.1:5020"}[p.k("addr", 0, 2)]); err != nil {
		bad("R01", "AddRemoteServer: %v", err)
		return
	}
	n.DialFate = func(i int, _ string) simnet.Fate {
		if w.healed || i >= p.n("dial") {
			return simnet.Fate{}
		}
		o := p.at("dial", i)
		f := simnet.Fate{Kind: []string{"", "refuse", "hang", "unreach"}[clamp(o.a(0), 0, 3)]}
		if d := clamp(o.a(1), 0, 100000); d > 0 && f.Kind != "hang" {
			f.Delay = int64(d) * ms
		}
		return f
	}
	n.OnDial = w.onDial
	n.OnDialEnd = w.onDialEnd
	n.OnAppClose = w.onAppClose
	n.OnWrite = w.onWrite
	n.OnReading = func(c *simnet.Conn) {
		if w.mode == spClosed {
			bad("R02", "the slave reads from connection %d after it was closed", c.ID)
		}
	}
	l, err := simnet.Listen(fmt.Sprintf(":%d", spPort), false)
	if err != nil {
		simrt.Internal("listen: %v", err)
	}
	simrt.Spawn("master-accept", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			simrt.Spawn("master", func() { w.serveMaster(c) })
		}
	})
	left := 0
	var q simrt.WaitQ
	for i := range p.Acts {
		ops := expand(p.Acts[i])
		left++
		simrt.Spawn(fmt.Sprintf("ctl%d", i), func() {
			for _, o := range ops {
				if p.k("rep", 0, 1) == 1 && simrt.Now() > 900000*ms {
					break // long enough
				}
				simrt.Progress()
				w.doOp(o)
			}
			left--
			q.WakeAll()
		})
	}
	for left > 0 {
		q.Wait("actors")
	}
	w.finish()
}

func (w *spWorld) finish() {
	w.late()
	// from here on everything is healthy
	w.healed = true
	w.q.WakeAll()
	w.isConnected()
	w.settle()
	if w.mode == spClosing {
		w.doOp(Op{K: "await"})
	}
	if w.mode == spClosed {
		w.quiet()
		w.start()
	}
	w.serves()
	w.close()
	w.settle()
	w.doOp(Op{K: "await"})
	if w.mode == spClosed {
		w.quiet()
		if ts := simrt.AppTasks(); len(ts) > 0 {
			bad("R02", "a goroutine of the closed slave is still alive")
		}
	}
	w.ending = true
	w.q.WakeAll()
	for _, s := range w.list {
		if s.closed == 0 {
			bad("R01,R02", "connection %d is never closed", s.id)
		}
		s.checkKA(simrt.Now())
	}
}

// settle closes the slave until it is certain that no Start came after it.
func (w *spWorld) settle() {
	for i := 0; w.mode == spUnknown && i < 100; i++ {
		t := simrt.Now() + 60000*ms
		for (w.starting > 0 || w.closing > 0) && simrt.Now() < t {
			simrt.Sleep(10 * ms)
		}
		w.close()
	}
	if w.mode == spUnknown {
		Fail(checked, "Start and Close calls do not end")
	}
}

// quiet lets time pass in which a closed slave must do nothing.
func (w *spWorld) quiet() {
	ep := w.epoch
	simrt.Sleep(w.RI + w.CT + 1100*ms + w.KA)
	if w.epoch == ep {
		w.isClosed()
		w.isConnected()
	}
}

func rounds(n int) int64 { return int64(n) + 1 }

// serves: within bounded time the slave serves.
func (w *spWorld) serves() {
	if w.mode != spRunning {
		return
	}
	from := simrt.Now()
	mark, cb := simrt.StallMark(), w.cbMark()
	lim := w.CT + w.RI + 2*w.R + w.W + 1500*ms
	base := from
	faults := simrt.FaultCount()
	if w.cbBusy > 0 {
		faults--
	}
	for {
		c := w.cl
		if c != nil && c.dialEnd <= from && c.closed > base {
			base = c.closed // an old connection came to its scripted end
		}
		if c != nil && c.d != nil && w.conn == c.a && c.ok && !c.spoilt {
			if c.served > 0 && c.served >= from {
				w.isConnected()
				return
			}
		}
		if w.mode != spRunning {
			if !w.AR {
				return
			}
		}
		// a stall may cost a connection and one more round
		over := simrt.StalledFor() - mark + w.cbSlept - cb + lim*rounds(simrt.FaultCount()-faults)
		if c != nil && c.d != nil && w.conn == c.a && c.dialEnd <= from {
			over += 100000 * ms // an old connection, which has its own life
		}
		if simrt.Now() > base+over {
			bad("R01", "the slave does not serve %v after everything became healthy", time.Duration(lim))
			return
		}
		w.late()
		t := simrt.Now() + 500*ms
		w.q.WaitUntil("serves", t)
		if simrt.Now() < t {
			simrt.Sleep(20 * ms)
		}
	}
}
