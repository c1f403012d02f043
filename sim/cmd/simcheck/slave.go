package main

import (
	"fmt"
	"syscall"
	"time"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// The slave scenario: a listening or an outbound slave, clients of every
// temper, local users of its registers, and someone who closes it.

const (
	slavePort  = 502
	masterPort = 602
	promptly   = 1000 * ms
)

type slaveNode interface {
	AddNodes(nodes ...*modbus.NodeRegister)
	DeleteNode(slaveID byte)
	DeleteAllNode()
	GetNode(slaveID byte) (*modbus.NodeRegister, error)
	GetNodeList() []*modbus.NodeRegister
	Range(f func(slaveID byte, node *modbus.NodeRegister) bool)
	RegisterFunctionHandler(funcCode uint8, function modbus.FunctionHandler)
	LogMode(enable bool)
	Close() error
}

type slaveWorld struct {
	p       *Plan
	prop    string
	R, W    int64
	srv     slaveNode
	tcp     *modbus.TCPServer
	out     *modbus.TCPServerSpecial
	special bool
	long    bool // a long history

	units   []*unitObj // tracked ones first; the last is the sink
	byID    map[byte]*unitObj
	sink    *unitObj
	conns   map[*simnet.Conn]*sconn // by the slave's end
	list    []*sconn
	hand    map[byte]bool // custom function codes
	calls   []*hcall
	hslept  int64
	dyn     *dynUnits
	q       simrt.WaitQ // progress of any kind
	ml      *simnet.Listener
	inbox   []*simnet.Conn // connections from the outbound slave
	failEnd int64          // when accept failures last happened

	closing   bool // Close was invoked on a slave that was listening
	early     int  // calls of Close under way that began before it listened
	closeAt   int64
	closed    bool // Close has returned
	closedAt  int64
	serveRet  bool
	serveAt   int64
	serveErr  error
	quietFrom int64
}

// sconn is one connection between a client and the slave.
type sconn struct {
	w    *slaveWorld
	id   int
	a, d *simnet.Conn // the slave's and the client's end

	reqs     []*sreq
	planned  int // length of the client's stream of whole frames so far
	garbage  int // offset from which the stream means nothing, -1 if it all does
	accepted int64
	seen     int // requests that have arrived

	out   []byte // bytes of a reply being written
	outAt int64
	outSq int64
	free  bool // replies are no longer constrained
	next  int  // next request that may be answered

	base     int64 // when the slave last had reason to start waiting
	base0    int64 // StallMark then
	lax      bool  // the client was too slow once
	last     int64 // end of the slave's last write
	noread   bool  // the client stopped reading at some time
	pause    bool
	reader   simrt.WaitQ
	gone     bool // the client ended the connection, or a fault did
	half     bool // the client only ended its sending
	aborted  bool // aborted by an accept failure
	hidden   bool // nothing is expected of this connection
	mute     bool // a request was left unfinished: nothing more is sent
	stall0   int64
	stallcut bool // perhaps closed because the slave was stalled
}

// sreq is one well-framed request.
type sreq struct {
	c        *sconn
	tid      uint16
	unit     byte
	pdu      []byte
	u        *unitObj
	end      int
	must     bool // a reply is due
	may      bool // a reply may come
	arrived  bool
	at       int64
	seq      int64
	lax      bool
	replied  bool
	repAt    int64
	repSeq   int64
	repEnd   int
	reply    []byte
	skipSeq  int64 // when a later reply showed it is not answered
	nhandler int
	hend     int64
	dyn      *dynReq
}

// refused tells whether the reply is an exception.
func (r *sreq) refused() bool {
	return r.reply[0] != r.pdu[0] || r.pdu[0] >= 0x80 && len(r.reply) == 2
}

func (r *sreq) String() string {
	return fmt.Sprintf("request tid %d unit %d % x on connection %d", r.tid, r.unit, short(r.pdu), r.c.id)
}

func init() { scenarios["slave"] = scenario{genSlave, runSlave} }

// bad reports that the properties in ps do not hold.
func bad(ps string, format string, a ...interface{}) {
	for i := 0; i+3 <= len(ps); i += 4 {
		if ps[i:i+3] == checked {
			Fail(checked, format, a...)
			return
		}
	}
	Fail(ps[:3], format, a...)
}

func (w *slaveWorld) newServer() {
	R, W := time.Duration(w.R), time.Duration(w.W)
	if w.special {
		w.out = modbus.NewTCPServerSpecial().SetReadTimeout(R).SetWriteTimeout(W).
			SetConnectTimeout(time.Second).SetReconnectInterval(500 * time.Millisecond)
		if err := w.out.AddRemoteServer(fmt.Sprintf("127.0.0.1:%d", masterPort)); err != nil {
			Fail(checked, "AddRemoteServer refuses 127.0.0.1:%d: %v", masterPort, err)
		}
		w.srv = w.out
	} else {
		w.tcp = modbus.NewTCPServer().SetReadTimeout(R).SetWriteTimeout(W)
		w.srv = w.tcp
	}
	if w.p.k("log", 0, 1) == 1 {
		w.srv.LogMode(true)
	}
}

func runSlave(p *Plan, prop string) {
	w := &slaveWorld{p: p, prop: prop, conns: map[*simnet.Conn]*sconn{}, byID: map[byte]*unitObj{}, hand: map[byte]bool{}}
	w.R = int64(p.k("R", 20, 100000)) * ms
	w.W = int64(p.k("W", 20, 100000)) * ms
	w.special = p.k("special", 0, 1) == 1
	for _, ops := range p.Acts {
		for _, o := range ops {
			w.long = w.long || o.K == "loop"
		}
	}
	n := simnet.New()
	applyNet(p)
	w.newServer()
	// units: id, layout
	for i, o := range p.Lists["units"] {
		id := byte(clamp(o.a(0), 0, 255))
		if w.byID[id] != nil || len(o.A) < 1 {
			continue
		}
		u := newUnit(i, id, o.A[1:])
		w.units = append(w.units, u)
		w.byID[id] = u
		w.srv.AddNodes(u.node)
	}
	if s := p.k("sink", -1, 255); s >= 0 && w.byID[byte(s)] == nil && p.Knobs["sink"] != 0 {
		u := newUnit(len(w.units), byte(s), []int{0, 40, 0, 40, 0, 20, 0, 20})
		u.lin = false
		w.sink = u
		w.byID[u.id] = u
		w.srv.AddNodes(u.node)
	}
	w.handlers()
	w.dynInit()
	n.OnWrite = w.onWrite
	n.OnArrive = func(c *simnet.Conn) { w.state(c).arrive() }
	n.OnAppOpen = w.onOpen
	n.OnAppClose = w.onClose
	n.OnReading = func(a *simnet.Conn) {
		if w.closed && !w.special {
			bad("S05", "the slave went on reading from connection %d after Close had returned", a.ID)
		}
	}
	n.OnRead = nil
	w.start()
	// actors
	left := 0
	var q simrt.WaitQ
	spawn := func(name string, f func()) {
		left++
		simrt.Spawn(name, func() {
			f()
			left--
			q.WakeAll()
		})
	}
	for i := range p.Acts {
		ops := expand(p.Acts[i])
		if len(ops) == 0 {
			continue
		}
		switch ops[0].K {
		case "client":
			for c := clamp(ops[0].a(0), 1, 200); c > 0; c-- {
				spawn(fmt.Sprintf("client%d", i), func() { w.client(ops[1:]) })
			}
		case "local":
			spawn(fmt.Sprintf("local%d", i), func() { w.local(ops[1:]) })
		case "owner":
			spawn(fmt.Sprintf("owner%d", i), func() { w.dynOwner(ops[1:]) })
		}
	}
	if len(p.Lists["close"]) > 0 {
		for i := range p.Lists["close"] {
			o := p.Lists["close"][i]
			spawn(fmt.Sprintf("closer%d", i), func() { w.closer(o) })
		}
	}
	if len(p.Lists["acc"]) > 0 {
		spawn("acceptfaults", w.acceptFaults)
	}
	for left > 0 {
		q.Wait("actors")
	}
	w.finish()
}

func (w *slaveWorld) start() {
	if w.special {
		l, err := simnet.Listen(fmt.Sprintf(":%d", masterPort), false)
		if err != nil {
			simrt.Internal("listen: %v", err)
		}
		w.ml = l
		simrt.Spawn("master-accept", func() {
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				w.inbox = append(w.inbox, c)
				w.q.WakeAll()
			}
		})
		if err := w.out.Start(); err != nil {
			Fail(checked, "Start fails: %v", err)
		}
		return
	}
	addr := fmt.Sprintf(":%d", slavePort)
	simrt.SpawnApp(func() {
		simrt.Sleep(int64(w.p.k("startdelay", 0, 10000)) * ms)
		err := w.tcp.ListenAndServe(addr)
		w.serveRet, w.serveAt, w.serveErr = true, simrt.Now(), err
		simrt.Logf("ListenAndServe returned %v", err)
		if !w.mayClose() {
			bad("S06,S03", "ListenAndServe returned %v although nobody closed the slave", err)
		}
		w.q.WakeAll()
	})
	if w.p.k("early", 0, 1) == 1 {
		return
	}
	for simnet.ListenerOn(slavePort) == nil {
		simrt.Sleep(ms)
		if simrt.Now() > 60000*ms+int64(w.p.k("startdelay", 0, 10000))*ms+simrt.StalledFor() {
			bad("S01,S06", "the slave does not listen")
			return
		}
	}
}

func (w *slaveWorld) state(a *simnet.Conn) *sconn {
	s := w.conns[a]
	if s == nil {
		s = &sconn{w: w, id: a.ID, a: a, d: a.Peer(), garbage: -1, base: simrt.Now(), base0: simrt.StallMark(), accepted: -1}
		w.conns[a] = s
		w.list = append(w.list, s)
	}
	return s
}

func (w *slaveWorld) onOpen(a *simnet.Conn) {
	s := w.state(a)
	s.accepted = simrt.Now()
	if w.closed && !w.special {
		bad("S05", "the slave accepted connection %d after Close had returned", a.ID)
	}
	s.arrive()
	w.q.WakeAll()
}

// arrive notes the requests that have arrived completely.
func (s *sconn) arrive() {
	for s.seen < len(s.reqs) && s.reqs[s.seen].end <= s.a.Arrived {
		r := s.reqs[s.seen]
		s.seen++
		now := simrt.Now()
		r.arrived, r.at, r.seq = true, now, simrt.Seq()
		if now-s.base >= s.w.R-ms-(simrt.StalledFor()-s.base0) {
			s.lax = true
		}
		r.lax = s.lax
		s.base, s.base0 = now, simrt.StallMark()
	}
}

// desynced tells whether meaningless bytes have arrived.
func (s *sconn) desynced() bool { return s.garbage >= 0 && s.a.Arrived > s.garbage }

func (w *slaveWorld) onWrite(a *simnet.Conn, b []byte) {
	s := w.state(a)
	if w.closed && !w.special {
		bad("S05", "the slave sent bytes on connection %d after Close had returned: % x", a.ID, short(b))
	}
	s.last = simrt.Now()
	if s.free || s.hidden {
		return
	}
	const all = "S01,S03,S04,S05,S06,S07,S08,S02"
	off := a.Sent
	for len(b) > 0 {
		if len(s.out) == 0 {
			s.outAt, s.outSq = simrt.Now(), simrt.Seq()
			if s.desynced() && s.pendingMust() == nil {
				s.free = true
				return
			}
			if s.candidate() == nil {
				bad(all, "the slave sends bytes on connection %d without an unanswered request: % x", s.id, short(b))
				return
			}
		}
		need := 6
		if len(s.out) >= 6 {
			need = 6 + int(u16(s.out[4:]))
		}
		k := need - len(s.out)
		if k > len(b) {
			k = len(b)
		}
		s.out = append(s.out, b[:k]...)
		b = b[k:]
		off += k
		if len(s.out) < 6 {
			continue
		}
		if l := int(u16(s.out[4:])); u16(s.out[2:]) != 0 || l < 2 || l > 254 {
			bad(all, "reply with a wrong header on connection %d: % x", s.id, short(s.out))
			return
		}
		if len(s.out) == 6+int(u16(s.out[4:])) {
			f := s.out
			s.out = nil
			if !s.replied(f, off) {
				return
			}
		}
	}
}

// pendingMust is the first arrived request whose reply is due.
func (s *sconn) pendingMust() *sreq {
	for _, r := range s.reqs[s.next:] {
		if r.arrived && r.must {
			return r
		}
	}
	return nil
}

// candidate is the first arrived request that may be answered now.
func (s *sconn) candidate() *sreq {
	for _, r := range s.reqs[s.next:] {
		if !r.arrived {
			return nil
		}
		if r.must || r.may {
			return r
		}
	}
	return nil
}

// replied checks a complete reply frame against the requests.
func (s *sconn) replied(f []byte, off int) bool {
	const all = "S01,S03,S04,S05,S06,S07,S08,S02"
	simrt.Progress()
	for s.next < len(s.reqs) {
		r := s.reqs[s.next]
		if !r.arrived {
			break
		}
		s.next++
		if !r.must && !r.may {
			r.skipSeq = s.outSq
			continue
		}
		match := u16(f) == r.tid && f[6] == r.unit && (f[7] == r.pdu[0] || f[7] == r.pdu[0]|0x80 && len(f) == 9)
		if !match {
			if r.may {
				r.skipSeq = s.outSq
				continue
			}
			bad(all, "reply % x does not answer the next request in order, %v", short(f), r)
			return false
		}
		r.replied, r.repAt, r.repSeq, r.repEnd = true, s.outAt, s.outSq, off
		r.reply = append([]byte(nil), f[7:]...)
		s.base, s.base0 = simrt.Now(), simrt.StallMark()
		s.w.answered(r)
		s.w.q.WakeAll()
		return true
	}
	if s.desynced() {
		s.free = true
		return true
	}
	bad(all, "the slave sent a frame on connection %d that answers no request: % x", s.id, short(f))
	return false
}

// answered judges the content of a reply.
func (w *slaveWorld) answered(r *sreq) {
	exc := r.refused()
	if exc && r.reply[1] == 0 {
		bad("S01", "exception code 0 in reply to %v", r)
	}
	simrt.Probe("reply-checked")
	if exc {
		simrt.Probe("exception-checked")
	}
	if r.dyn != nil {
		w.dynAnswered(r)
		return
	}
	if w.hand[r.pdu[0]] {
		w.handlerAnswered(r)
		return
	}
	if r.u == nil {
		return
	}
	m := r.u.meaning(r.pdu)
	if m.valid && exc {
		bad("S02,S03", "valid %v was answered with exception %d (unit layout %v %v)", r, r.reply[1], r.u.start, r.u.qty)
	}
	if !m.valid && !exc {
		if bankOf(r.pdu[0]) >= 0 || !w.hand[r.pdu[0]] {
			bad("S03,S02", "invalid %v was answered with success: % x (unit layout %v %v)", r, short(r.reply), r.u.start, r.u.qty)
		}
	}
}

// onClose judges whether the slave may close the connection now.
func (w *slaveWorld) onClose(a *simnet.Conn) {
	s := w.state(a)
	w.q.WakeAll()
	now := simrt.Now()
	if s.hidden || s.gone || s.lax || w.mayClose() || a.EndAt > 0 || s.desynced() || s.aborted {
		return
	}
	slack := simrt.StalledFor() - s.base0
	if slack > 0 {
		s.stallcut = true // stalled beyond its read deadline
		return
	}
	if a.BlockedAt > 0 && now-a.BlockedAt >= w.W-ms-(simrt.StalledFor()-s.stall0) || s.noread {
		return
	}
	if r := s.pendingMust(); r != nil {
		bad("S04,S01,S03,S06,S07,S08", "the slave closed connection %d instead of answering %v", s.id, r)
		return
	}
	if now-s.base < w.R-ms-slack {
		bad("S04,S01,S03,S06,S07,S08", "the slave closed connection %d %v after its last reply; the read timeout is %v", s.id, time.Duration(now-s.base), time.Duration(w.R))
	}
}

// ---- actors ----

func (w *slaveWorld) dial() *sconn {
	if w.special {
		t := simrt.Now() + 8000*ms + w.R + w.W
		for len(w.inbox) == 0 && simrt.Now() < t {
			w.q.WaitUntil("connection from slave", t)
		}
		if len(w.inbox) == 0 {
			return nil
		}
		d := w.inbox[0]
		w.inbox = w.inbox[1:]
		return w.state(d.Peer())
	}
	d, err := simnet.Dial(fmt.Sprintf("127.0.0.1:%d", slavePort), false, 0)
	if err != nil {
		return nil
	}
	s := w.state(d.Peer())
	simrt.Mix(0xd1a1, uint64(s.id))
	return s
}

func (s *sconn) open() bool { return s != nil && !s.d.Closed() && !s.gone }

// startReader drains what the slave sends.
func (s *sconn) startReader() {
	simrt.Spawn("reader", func() {
		buf := make([]byte, 2048)
		for {
			for s.pause && !s.d.Closed() {
				s.reader.Wait("not-reading")
			}
			_, err := s.d.Read(buf)
			if err != nil {
				s.w.q.WakeAll()
				return
			}
			s.w.q.WakeAll()
		}
	})
}

// request queues a request in the client's books and returns its frame.
func (s *sconn) request(tid uint16, unit byte, pdu []byte) *sreq {
	w := s.w
	r := &sreq{c: s, tid: tid, unit: unit, pdu: pdu}
	s.planned += 7 + len(pdu)
	r.end = s.planned
	r.u = w.byID[unit]
	if w.hand[pdu[0]] {
		w.handlerRequest(r)
	}
	switch {
	case r.u == nil:
	case w.hand[pdu[0]]:
		if w.handlerMayDrop(pdu) {
			r.may = true
		} else {
			r.must = true
		}
	default:
		r.must = true
	}
	s.reqs = append(s.reqs, r)
	return r
}

// write sends bytes, in chunks with gaps if asked to.
func (s *sconn) write(b []byte, chunk, gap int) bool {
	if chunk <= 0 {
		chunk = len(b)
	}
	for i := 0; i < len(b); i += chunk {
		e := i + chunk
		if e > len(b) {
			e = len(b)
		}
		if i > 0 && gap > 0 {
			simrt.Sleep(int64(gap) * ms)
		}
		if _, err := s.d.Write(b[i:e]); err != nil {
			return false
		}
	}
	return true
}

func (w *slaveWorld) client(ops []Op) {
	var s *sconn
	var cork []byte
	get := func() *sconn {
		if s.open() && s.a.Closed() { // the slave has closed it
			s.d.Close()
		}
		if !s.open() {
			s = w.dial()
			cork = nil
			if s != nil {
				s.startReader()
			}
		}
		if s != nil && s.mute {
			return nil
		}
		return s
	}
	flush := func(chunk, gap int) {
		if s.open() && len(cork) > 0 {
			s.write(cork, chunk, gap)
		}
		cork = nil
	}
	for _, o := range ops {
		simrt.Progress()
		switch o.K {
		case "sleep":
			flush(0, 0)
			simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		case "req":
			if get() == nil {
				continue
			}
			w.doReq(s, o, &cork, flush)
		case "dreq":
			if get() == nil {
				continue
			}
			w.doDyn(s, o, &cork, flush)
		case "part": // the beginning of a request, then nothing more
			if get() == nil {
				continue
			}
			unit, pdu := w.build(o)
			f := tcpADU(uint16(o.a(4)), unit, pdu)
			flush(0, 0)
			n := clamp(o.a(9), 1, len(f)-1)
			if s.garbage >= 0 {
				f = w.scrub(f)
			}
			s.mute = true
			simrt.Fault("request-cut")
			s.write(f[:n], clamp(o.a(6), 0, 300), clamp(o.a(7), 0, 100000))
		case "garb":
			if get() == nil {
				continue
			}
			flush(0, 0)
			if s.garbage < 0 {
				s.garbage = s.planned
			}
			simrt.Fault("garbage-" + garbKinds[clamp(o.a(0), 0, len(garbKinds)-1)])
			s.write(w.scrub(garbage(o)), clamp(o.a(2), 0, 300), clamp(o.a(3), 0, 1000))
		case "close", "rst", "fin", "cut":
			flush(0, 0)
			if !s.open() {
				continue
			}
			simrt.Fault("client-" + o.K)
			switch o.K {
			case "close":
				s.gone = true
				s.d.Close()
			case "rst":
				s.gone = true
				s.d.Abort()
			case "fin":
				s.half = true
				s.d.CloseWrite()
				simrt.Sleep(50 * ms)
				w.awaitReplies(s)
				s.gone = true
			case "cut":
				s.gone = true
				s.d.Cut()
				s = nil
			}
		case "noread":
			flush(0, 0)
			if get() == nil {
				continue
			}
			simrt.Fault("client-stops-reading")
			s.noread, s.pause = true, true
		case "resume":
			if s != nil {
				s.pause = false
				s.reader.WakeAll()
			}
		case "wait":
			flush(0, 0)
			if s != nil {
				w.awaitReplies(s)
			}
		}
		if w.closing {
			flush(0, 0)
			if w.p.k("stopclients", 0, 1) == 1 {
				return
			}
		}
	}
	flush(0, 0)
}

func (w *slaveWorld) doReq(s *sconn, o Op, cork *[]byte, flush func(int, int)) {
	unit, pdu := w.build(o)
	tid := uint16(o.a(4))
	if len(w.hand) > 0 { // some requests may go unanswered: tell them apart
		if tid = tid&0xff00 | uint16(len(s.reqs)&0xff); w.long {
			tid = uint16(len(s.reqs))
		}
	}
	f := tcpADU(tid, unit, pdu)
	var r *sreq
	if s.garbage < 0 {
		r = s.request(tid, unit, pdu)
	} else {
		f = w.scrub(f)
	}
	*cork = append(*cork, f...)
	flags := o.a(8)
	if flags&2 == 0 {
		flush(clamp(o.a(6), 0, 300), clamp(o.a(7), 0, 100000))
	}
	if flags&1 == 1 && r != nil {
		flush(0, 0)
		w.await(s, r)
	}
}

// await waits until the reply to r has been received or will not come.
func (w *slaveWorld) await(s *sconn, r *sreq) {
	if !r.must && !r.may {
		return
	}
	end := simrt.Now() + 20000*ms + w.hsleepMax()
	for !(r.replied && s.d.Got >= r.repEnd) {
		if s.pause || s.d.Broken() || s.d.SawEOF() && s.d.Unread() == 0 || s.d.Closed() || s.a.Closed() && simrt.Now() > s.a.CloseAt+100*ms || simrt.Now() >= end {
			return
		}
		if r.may && (r.skipSeq > 0 || r.nhandler > 0 && simrt.Now() > r.hend+500*ms) {
			return
		}
		t := simrt.Now() + 250*ms
		w.q.WaitUntil("reply", t)
	}
}

func (w *slaveWorld) awaitReplies(s *sconn) {
	for i := len(s.reqs) - 1; i >= 0; i-- {
		if s.reqs[i].must {
			w.await(s, s.reqs[i])
			return
		}
	}
}

func (w *slaveWorld) local(ops []Op) {
	for _, o := range ops {
		simrt.Progress()
		switch o.K {
		case "sleep":
			simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		case "api":
			if len(w.units) == 0 {
				continue
			}
			u := w.units[clamp(o.a(0), 0, 1000)%len(w.units)]
			if o.a(4)&7 == 0 {
				u.layout()
			}
			u.api(o, simrt.Seq, func(f string, a ...interface{}) { bad("S02,S03", f, a...) })
		case "log":
			w.srv.LogMode(o.a(0)&1 == 1)
		}
	}
}

func (w *slaveWorld) acceptFaults() {
	errs := []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ECONNABORTED, syscall.EMFILE, syscall.EINTR}
	for i := 0; i < w.p.n("acc"); i++ {
		o := w.p.at("acc", i)
		simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		l := simnet.ListenerOn(slavePort)
		if l == nil || w.special {
			return
		}
		e := errs[clamp(o.a(1), 0, len(errs)-1)]
		n := clamp(o.a(2), 0, 40)
		for i := 0; i < n; i++ {
			l.Errs = append(l.Errs, e)
		}
		if d := clamp(o.a(3), 0, 100000); d > 0 {
			if e == syscall.ECONNABORTED || e == syscall.EINTR {
				e = syscall.EMFILE
			}
			l.FailUntil, l.FailErr = simrt.Now()+int64(d)*ms, e
			if l.FailUntil > w.failEnd {
				w.failEnd = l.FailUntil
			}
		}
		// the failure strikes the next Accept call: a connection makes one happen
		simrt.Atomic(func() { l.Kick() })
	}
}

func (w *slaveWorld) closer(o Op) {
	simrt.Sleep(int64(clamp(o.a(0), 0, 100000))*ms + int64(clamp(o.a(1), 0, 1000000))*1000)
	if w.special {
		return
	}
	l := simnet.ListenerOn(slavePort)
	was := l != nil
	st0 := simrt.StallMark()
	inv := simrt.Now()
	if was && !w.closing {
		w.closing = true
		w.closeAt = inv
	}
	if !was {
		w.early++
	}
	simrt.Logf("Close")
	err := w.tcp.Close()
	simrt.Logf("Close returned %v", err)
	stall := simrt.StalledFor() - st0
	if d := simrt.Now() - inv; d > 2*w.R+w.W+stall+ms {
		bad("S05", "Close returned after %v; the read timeout is %v, the write timeout %v", time.Duration(d), time.Duration(w.R), time.Duration(w.W))
	}
	if !was {
		w.early--
		if l = simnet.LastListener(slavePort); l == nil || !l.Closed() {
			simrt.Probe("close-before-listen")
			return
		}
		simrt.Probe("close-while-listening-begins")
		if !w.closing {
			w.closing, w.closeAt = true, inv
		}
	}
	simrt.Atomic(func() {
		w.closed = true
		if w.closedAt == 0 {
			w.closedAt = simrt.Now()
		}
		if !l.Closed() {
			bad("S05", "Close has returned and the port is still open")
		}
		for _, s := range w.list {
			// one just accepted may be closed unserved in a moment
			if s.accepted >= 0 && !s.a.Closed() && s.a.Reads > 0 {
				bad("S05", "Close has returned and connection %d is still being served", s.id)
			}
		}
	})
	w.q.WakeAll()
}

// mayClose tells whether a Close may have reached the listener.
func (w *slaveWorld) mayClose() bool { return w.closing || w.early > 0 }

// ---- the end ----

func (w *slaveWorld) hsleepMax() int64 { return w.hslept + 2000*ms }

func (w *slaveWorld) finish() {
	failU := func(f string, a ...interface{}) { bad("S02,S03", f, a...) }
	if w.p.k("win", 0, 65536) > 0 {
		for _, s := range w.list { // let everyone take his replies
			if s.pause && w.p.k("endmode", 0, 1) == 0 {
				continue
			}
			s.pause = false
			s.reader.WakeAll()
		}
	}
	if w.prop == "S06" { // accept failures must have run out
		t := simrt.Now() + 120000*ms
		if w.p.k("rep", 0, 1) == 1 {
			t += 40000000 * ms
		}
		for simrt.Now() < t {
			l := simnet.ListenerOn(slavePort)
			if l == nil || len(l.Errs) == 0 && l.FailUntil <= simrt.Now() {
				break
			}
			simrt.Sleep(200 * ms)
		}
	}
	simrt.Sleep(3000*ms + w.hsleepMax())
	if !w.closing && !w.special {
		w.probeLast()
	}
	w.checkReplies()
	if w.closing {
		w.afterClose()
	}
	if w.p.k("endmode", 0, 1) == 0 {
		// idle clients must be cut off
		simrt.Sleep(w.R + w.W + 2000*ms + simrt.StalledFor())
	} else {
		for _, s := range w.list {
			if !s.d.Closed() && !s.gone && !w.special {
				s.gone = true
				s.d.Close()
			}
		}
		simrt.Sleep(2000*ms + w.W + simrt.StalledFor())
	}
	w.checkReleased()
	w.handlersEnd()
	w.dynEnd()
	// histories
	for _, s := range w.list {
		for _, r := range s.reqs {
			if r.u == nil || !r.arrived || r.dyn != nil || w.hand[r.pdu[0]] {
				continue
			}
			m := r.u.meaning(r.pdu)
			desc := r.String()
			ret := never
			if r.replied {
				if r.refused() {
					continue
				}
				ret = r.repSeq
				desc += fmt.Sprintf(" answered % x", short(r.reply))
			}
			r.u.request(m, r.seq, ret, r.reply, desc)
		}
	}
	for _, u := range w.units {
		u.layout()
		if u.lin {
			u.readAll(simrt.Seq, func(f string, a ...interface{}) { bad("S02,S03", f, a...) })
			u.check(failU)
		}
	}
}

// probeLast makes sure that every unit still answers on a new connection.
func (w *slaveWorld) probeLast() {
	us := append([]*unitObj(nil), w.units...)
	if w.sink != nil {
		us = append(us, w.sink)
	}
	tries := 0
again:
	s := w.dial()
	if s == nil {
		bad("S06,S03,S01,S04", "the slave no longer accepts connections")
		return
	}
	s.startReader()
	for i, u := range us {
		fc := byte(3)
		if w.hand[fc] {
			fc = 1
		}
		r := s.request(uint16(60000+i), u.id, cat([]byte{fc}, be(uint16(u.start[bankOf(fc)]), 1)))
		s.write(tcpADU(r.tid, r.unit, r.pdu), 0, 0)
		w.await(s, r)
		if !r.replied && (s.stallcut || s.lax) && tries < 20 {
			tries++
			goto again
		}
		if !r.replied {
			bad("S03,S06,S01,S04,S07,S08", "unit %d no longer answers a new client", u.id)
			return
		}
	}
	// and writes
	if w.sink != nil && !w.hand[6] {
		r := s.request(61000, w.sink.id, cat([]byte{6}, be(0, 7)))
		s.write(tcpADU(r.tid, r.unit, r.pdu), 0, 0)
		w.await(s, r)
		if !r.replied && (s.stallcut || s.lax) && tries < 20 {
			tries++
			goto again
		}
		if !r.replied {
			bad("S03", "unit %d can no longer be written", w.sink.id)
		}
	}
	s.gone = true
	s.d.Close()
}

// checkReplies: every due reply came, promptly.
func (w *slaveWorld) checkReplies() {
	stall := simrt.StalledFor()
	extra := int64(0)
	if w.p.k("win", 0, 65536) > 0 {
		extra = 3000 * ms
	}
	for _, s := range w.list {
		if s.hidden || s.noread || s.aborted || s.stallcut {
			continue
		}
		ready := s.accepted
		for _, r := range s.reqs {
			if !r.arrived || r.lax {
				break
			}
			from := r.at
			if ready > from {
				from = ready
			}
			if s.accepted < 0 && simrt.Now()-from < w.failEndSlack(from) {
				break
			}
			if r.must && !r.replied {
				if w.closing || s.gone || s.d.Broken() || s.a.Broken() || s.a.EndAt > 0 && !s.half {
					break
				}
				what := ""
				if s.accepted < 0 {
					what = " (the connection was never accepted)"
				}
				bad("S01,S03,S04,S06,S07,S08", "%v was never answered%s", r, what)
				return
			}
			if r.replied {
				lim := promptly + 100*ms + stall + extra + w.hslept
				if d := r.repAt - from; d > lim && r.repAt-w.failEndAt(from) > lim {
					bad("S04,S03,S01,S06,S07,S08", "%v was answered only after %v", r, time.Duration(d))
					return
				}
				ready = r.repAt
			}
		}
	}
}

// failEndAt is when accept failures ended that delayed something since t.
func (w *slaveWorld) failEndAt(t int64) int64 {
	e := t
	if w.failEnd > e {
		e = w.failEnd
	}
	if l := w.listener(); l != nil && l.FailedAt > e {
		e = l.FailedAt
	}
	return e
}

func (w *slaveWorld) failEndSlack(t int64) int64 { return w.failEndAt(t) - t + 1500*ms }

func (w *slaveWorld) listener() *simnet.Listener { return simnet.LastListener(slavePort) }

// checkReleased: connections that ended or went silent are closed by the slave.
func (w *slaveWorld) checkReleased() {
	now := simrt.Now()
	stall := simrt.StalledFor()
	for _, s := range w.list {
		if s.accepted < 0 {
			continue
		}
		end := now
		if s.a.Closed() {
			end = s.a.CloseAt
		}
		hs := w.hslept
		// silence
		lim := s.base
		for _, t := range []int64{s.a.LastRecv, s.last, s.accepted} {
			if t > lim {
				lim = t
			}
		}
		lim += w.R + stall + hs + ms
		if s.a.BlockedAt > 0 {
			if x := s.a.BlockedAt + w.W + stall + ms; x > lim || s.noread {
				lim = x
			}
		}
		if end > lim {
			bad("S04,S06,S03", "connection %d is closed by the slave %v too late: silent since %v, blocked since %v, read timeout %v, write timeout %v", s.id,
				time.Duration(end-lim), time.Duration(s.a.LastRecv), time.Duration(s.a.BlockedAt), time.Duration(w.R), time.Duration(w.W))
			return
		}
		// the client has ended it
		if s.a.EndAt > 0 && !s.half {
			lim := s.a.EndAt
			if s.accepted > lim {
				lim = s.accepted
			}
			if s.last > lim {
				lim = s.last
			}
			lim += promptly + stall + hs + w.W
			if end > lim {
				bad("S06,S03,S04", "connection %d is released %v after the client ended it", s.id, time.Duration(end-s.a.EndAt))
				return
			}
		}
	}
}

func (w *slaveWorld) afterClose() {
	// ListenAndServe must have returned by now
	if !w.serveRet && w.closed {
		bad("S05", "ListenAndServe has not returned %v after Close", time.Duration(simrt.Now()-w.closedAt))
		return
	}
	if !w.closed {
		// Close itself hangs?
		if simrt.Now()-w.closeAt > 2*w.R+w.W+simrt.StalledFor()+ms {
			bad("S05", "Close has not returned after %v", time.Duration(simrt.Now()-w.closeAt))
		}
		return
	}
	l, err := simnet.Listen(fmt.Sprintf(":%d", slavePort), false)
	if err != nil {
		bad("S05", "after Close the port is not free: %v", err)
		return
	}
	l.Close()
}

// ---- building requests ----

// build makes a request from an op: A = unit, fc, off, qty, tid, mut, chunk, gap, flags, cut, salt.
func (w *slaveWorld) build(o Op) (byte, []byte) {
	ui := clamp(o.a(0), 0, 1000)
	var u *unitObj
	unit := byte(0)
	nu := len(w.units)
	switch {
	case ui < nu:
		u = w.units[ui]
		unit = u.id
	case ui == 998 && w.sink != nil:
		u = w.sink
		unit = u.id
	default: // an unknown unit
		unit = byte(90 + ui%20)
		if x := byte(ui - 600); ui >= 600 && ui < 856 && w.byID[x] == nil {
			unit = x
		}
		if len(w.units) > 0 {
			u = w.units[0]
		} else {
			u = newUnit(0, unit, nil)
		}
	}
	fc0 := byte(clamp(o.a(1), 1, 255))
	fc := fc0
	if bankOf(fc&0x7f) >= 0 {
		fc &= 0x7f // the same request, but for its function code
	}
	salt := uint64(o.a(10))
	if w.hand[fc] {
		return unit, cat([]byte{fc0}, w.handlerData(o))
	}
	b := bankOf(fc)
	if b < 0 {
		return unit, cat([]byte{fc}, payload(salt, clamp(o.a(3), 0, 252)))
	}
	addr := uint16(u.start[b] + o.a(2))
	q := clamp(o.a(3), 0, 65535)
	mut := o.a(5)
	max := map[byte]int{1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123, 23: 121}[fc]
	if max > 0 && mut == 0 {
		q = clamp(q, 1, max)
	}
	switch mut {
	case 2:
		q = 0
	case 3:
		if fc == 23 {
			max = 125
		}
		q = max + 1 + int(salt%3)
		if max > 0 && u.qty[b] >= q { // nothing else is wrong with it
			addr = uint16(u.start[b] + int(salt>>4)%(u.qty[b]-q+1))
		}
	case 4:
		q = []int{0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x8000 + 1 + int(salt%100)}[salt%6]
	case 5: // address + quantity wraps
		addr = uint16(65536 - 1 - int(salt%uint64(clamp(q, 1, 2000))))
	}
	dq := clamp(q, 0, 2000) // data really sent
	if max > 0 && dq > max {
		dq = max
		if fc == 15 {
			dq = clamp(q, 0, 1976)
		}
	}
	var pdu []byte
	switch fc {
	case 1, 2, 3, 4:
		pdu = cat([]byte{fc}, be(addr, uint16(q)))
	case 5:
		pdu = cat([]byte{fc}, be(addr, uint16(0xFF00*(salt&1))))
		if mut == 6 {
			copy(pdu[3:], be([]uint16{1, 0x00ff, 0xff01, 0xffff, 0x0100, 0xfe00}[salt%6]))
		}
	case 6:
		pdu = cat([]byte{fc}, be(addr, uint16(mix(salt))))
	case 15:
		n := (dq + 7) / 8
		pdu = cat([]byte{fc}, be(addr, uint16(q)), []byte{byte(n)}, payload(salt, n))
	case 16:
		pdu = cat([]byte{fc}, be(addr, uint16(q)), []byte{byte(2 * dq)}, payload(salt, 2*dq))
	case 22:
		x := mix(salt)
		pdu = cat([]byte{fc}, be(addr, uint16(x), uint16(x>>16)))
	case 23:
		wq := clamp(int(salt>>8%32)+1, 1, 121)
		woff := u.start[b] + int(mix(salt)%uint64(clamp(u.qty[b], 1, 65536)))
		if mut == 0 && woff+wq > u.start[b]+u.qty[b] && u.qty[b] > 0 && salt&1 == 0 {
			wq = u.start[b] + u.qty[b] - woff
		}
		if mut == 0 && q > 125 {
			q = 125
		}
		pdu = cat([]byte{fc}, be(addr, uint16(q), uint16(woff), uint16(wq)), []byte{byte(2 * wq)}, payload(salt, 2*wq))
		if mut == 5 && salt&2 == 0 { // the write range wraps instead
			copy(pdu[1:], be(uint16(u.start[b]), 1))
			copy(pdu[5:], be(uint16(65536-1-int(salt%uint64(wq))), uint16(wq)))
		}
	}
	switch mut {
	case 7: // truncated
		pdu = pdu[:clamp(len(pdu)-1-int(salt%6), 1, len(pdu))]
	case 8: // oversized
		pdu = append(pdu, payload(salt, clamp(1+int(salt%5), 0, 253-len(pdu)))...)
	case 9: // byte count
		switch fc {
		case 15, 16:
			pdu[5] += byte(1 + salt%255)
		case 23:
			pdu[9] += byte(1 + salt%255)
		}
	case 2:
		if fc == 23 && salt&2 == 0 { // nothing to write instead
			pdu = cat(pdu[:7], []byte{0, 0, 0})
			copy(pdu[3:], be(uint16(clamp(int(salt>>4)%4+1, 1, clamp(u.qty[b], 1, 4)))))
			if salt&4 == 0 {
				copy(pdu[1:], be(uint16(u.start[b])))
				copy(pdu[5:], be(uint16(u.start[b])))
			}
		}
	case 10: // body of another length, byte count and all agreeing with each other but not with the quantity
		switch {
		case salt&1 == 0 && (fc == 15 || fc == 16) && len(pdu) > 5 && len(pdu) < 252:
			pdu = append(pdu, payload(salt, 1+int(fc+1)&1)...)
			pdu[5] = byte(len(pdu) - 6)
		case salt&1 == 0 && fc == 23 && len(pdu) > 9 && len(pdu) < 252:
			pdu = append(pdu, payload(salt, 2)...)
			pdu[9] = byte(len(pdu) - 10)
		case fc == 15 && len(pdu) > 7, fc == 16 && len(pdu) > 8:
			pdu = pdu[:len(pdu)-2+int(fc&1)]
			pdu[5] = byte(len(pdu) - 6)
		case fc == 23 && len(pdu) > 12:
			pdu = pdu[:len(pdu)-2]
			pdu[9] = byte(len(pdu) - 10)
		}
	}
	if len(pdu) > 253 {
		pdu = pdu[:253]
	}
	pdu[0] = fc0
	return unit, pdu
}

var garbKinds = []string{"foreign-protocol", "length-0", "length-1", "length-big", "random", "foreign-protocol-flood", "length-253plus", "header-cut", "foreign-protocol-length"}

// garbage builds meaningless bytes: A = kind, value.
func garbage(o Op) []byte {
	v := clamp(o.a(1), 0, 1<<30)
	sv := uint64(v)
	body := func(n int) []byte { return payload(sv, n) }
	sinkWrite := cat([]byte{6}, be(0, uint16(v)))
	switch garbKinds[clamp(o.a(0), 0, len(garbKinds)-1)] {
	case "foreign-protocol":
		n := v % 40
		return mbap(uint16(v), uint16(1+v%65535), n+1, 5, body(n))
	case "foreign-protocol-length":
		n := []int{0, 1, 2, 254, 255, 300, 65535}[v%7]
		return mbap(uint16(v), uint16([]int{1, 256, 0x8000}[v%3]), n, 5, body(clamp(n, 0, 300)))
	case "length-0":
		return cat(mbap(uint16(v), 0, 0, 5, body(v%12)))
	case "length-1":
		return cat(mbap(uint16(v), 0, 1, 5, nil), tcpADU(1, 5, sinkWrite)[:clamp(v%14, 0, 12)])
	case "length-big":
		n := []int{255, 256, 260, 261, 300, 1000, 32767, 32768, 65535}[v%9]
		return mbap(uint16(v), 0, n, 5, body([]int{0, 10, 253, 254, 300, 1200}[v/9%6]))
	case "length-253plus":
		n := 253 + v%4
		return mbap(uint16(v), 0, n, 5, body(n-1))
	case "foreign-protocol-flood":
		var b []byte
		for i := 0; i < 1+v%30; i++ {
			b = append(b, mbap(uint16(i), 1, 2, 5, nil)...)
		}
		return b
	case "header-cut":
		return tcpADU(uint16(v), 5, sinkWrite)[:1+v%7]
	}
	return body(1 + v%300)
}

// scrub replaces the ids of tracked units.
func (w *slaveWorld) scrub(b []byte) []byte {
	for i := range b {
		if u := w.byID[b[i]]; u != nil && u.lin {
			b[i] = 77
		}
	}
	return b
}
