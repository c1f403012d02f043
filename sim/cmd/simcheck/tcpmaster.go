package main

import (
	"bytes"
	"fmt"
	"time"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// Exch is one request that reached the wire and what was answered to it.
type Exch struct {
	call     *Call
	serial   int
	tid      uint16
	startAt  int64 // first byte of the request written
	sentAt   int64 // last byte written
	mode     Op
	reply    []byte // every byte the device sent in answer
	endOff   int    // offset in the device's stream after the complete reply
	whole    bool   // the device means reply to be complete and well-formed
	excFirst bool   // an exception was the first thing sent in reply
	exc      int    // its exception code, 0 for a positive reply
	arrived  int64  // when the complete reply had arrived, 0 if it has not
	dirty    bool   // the connection carried other bytes before the reply
	conn     *connState
	devAt    int64
}

type connState struct {
	c      *simnet.Conn
	m      *Master
	wbuf   []byte
	wstart int64
	exs    []*Exch
	next   int // next exchange the device will see
	extra  bool
	faulty bool
	prog   int64
	holdIt bool
}

type tcpWorld struct {
	world
	p      *Plan
	T      int64
	conns  map[*simnet.Conn]*connState
	serial int
	healed bool
	heal   simrt.WaitQ
	ls     []*simnet.Listener
	up     bool
	devs   []*simnet.Conn
	dials  map[int]Op
	closes []span
}

type span struct {
	m    *Master
	s, e int64
}

func init() { scenarios["tcpm"] = scenario{genTCPMaster, runTCPMaster} }

var malKinds = []string{"tid", "pid", "unit", "fc", "len+", "len-", "len0", "len1", "lenhuge", "short", "long", "bytecount", "echo1", "echo2", "empty", "exc+", "exc0", "excfc", "fifocnt", "garbage", "req", "pid1", "swap", "ezero"}

func genTCPMaster(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("tcpm")
	T := r.pick(50, 100, 300, 1000)
	p.Knobs["T"] = T
	r.netKnobs(p)
	stalls := prop == "M03" || prop == "M08" || prop == "M01" || prop == "M09" || prop == "M04"
	p.Pol = r.policy(stalls)
	nm, na := 1, 1
	kinds := requestOps
	switch prop {
	case "M04":
		na = r.in(2, 6)
	case "M01", "M08", "M02":
		na = r.pick(1, 1, 2, 3)
	case "M03":
		na = r.pick(1, 1, 2, 4)
	case "M09":
		nm = r.pick(1, 2, 3)
		na = r.in(1, 4)
	case "M05":
		na = r.pick(1, 1, 1, 2)
	}
	if prop == "M01" && idx%8192 == 77 {
		p.Knobs["long"] = 66000
		p.Knobs["seg"], p.Knobs["gap"], p.Knobs["lat"], p.Knobs["short"] = 0, 0, 0, 0
		p.Pol = simrt.Policy{}
		p.Acts = [][]Op{{}}
		return p
	}
	p.Knobs["masters"] = nm
	healthy := prop == "M04" && r.p(0.6)
	if healthy {
		p.Knobs["healthy"] = 1
		p.Knobs["T"] = 60000
	}
	if r.p(0.25) {
		p.Knobs["win"] = r.pick(1, 7, 13, 64, 300)
	}
	dup := r.p(0.5)
	noraw := dup || prop == "M05" && r.p(0.8)
	if noraw {
		kinds = requestOps[:len(requestOps)-1] // no raw frames
	}
	nops := r.in(1, 6)
	if prop == "M09" {
		nops = r.in(3, 9)
	}
	if deep {
		nops += r.n(8)
	}
	for a := 0; a < na; a++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			switch {
			case prop == "M08" && r.p(0.45) || r.p(0.06):
				ops = append(ops, Op{K: r.str("conn", "close", "isconn", "isconn")})
			case r.p(0.12):
				ops = append(ops, Op{K: "sleep", A: []int{r.in(0, 2*T)}})
			case prop == "M09" && r.p(0.05):
				ops = append(ops, Op{K: "log", A: []int{r.n(2)}})
			default:
				ops = append(ops, genCall(r, kinds))
			}
		}
		p.Acts = append(p.Acts, ops)
	}
	// device behaviour
	nr := na*nops + 2
	for i := 0; i < nr; i++ {
		var o Op
		x := r.n(100)
		good := map[string]int{"M01": 45, "M02": 40, "M03": 50, "M04": 70, "M05": 20, "M08": 50, "M09": 75}[prop]
		switch {
		case healthy || x < good:
			switch r.w(6, 2, 1) {
			case 0:
				o = Op{K: "ok", A: []int{r.pick(0, 0, 1, T/4, T*3/4)}}
			case 1:
				o = Op{K: "exc", A: []int{r.pick(0, 0, T/4), r.pick(1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 77, 255)}}
			case 2:
				o = Op{K: "trickle", A: []int{r.pick(0, 1, 2, T/20), r.pick(1, 3, 7, 100)}}
			}
			if r.p(0.02) && !healthy {
				o = Op{K: "okfin"}
			}
		case prop == "M05" && x < 85:
			o = Op{K: "mal", A: []int{r.n(len(malKinds)), r.n(1 << 16), r.pick(0, 0, 1, T/2)}}
			if noraw && r.p(0.05) {
				o = Op{K: "excok", A: []int{r.pick(0, 1, T/4), r.pick(1, 2, 4, 5, 5, 6, 6, 7, 11, 200), r.pick(0, 1, T/4, T/2)}}
			}
		default:
			switch r.w(2, 3, 2, 2, 2, 2, 2, 1, 2) {
			case 0:
				o = Op{K: "silent"}
			case 1:
				o = Op{K: "late", A: []int{r.pick(0, 1, T/2, T, 3*T)}}
			case 2:
				o = Op{K: "trickle", A: []int{r.pick(T/8, T/3, T-1, T, 2*T), r.pick(1, 3, 9)}}
			case 3:
				o = Op{K: "fin", A: []int{r.pick(0, 0, 1, 6, 7, 8, 9)}}
			case 4:
				o = Op{K: "rst", A: []int{r.pick(0, 0, 1, 6, 7, 8, 9)}}
			case 5:
				o = Op{K: "hold", A: []int{r.pick(0, 1, 6, 7, 8, 9, 10)}}
			case 6:
				o = Op{K: "dup"}
				if !dup {
					o.K = "okfin"
				}
			case 7:
				o = Op{K: "noread", A: []int{r.pick(T/2, T, 3*T)}}
			case 8:
				o = Op{K: "stale"}
				if !dup {
					o.K = "okfin"
				}
			}
			if prop == "M01" && dup && r.p(0.02) {
				o = Op{K: "excok", A: []int{r.pick(0, 1, T/4), r.pick(1, 2, 4, 5, 5, 6, 6, 7, 11, 200), r.pick(0, 1, T/4, T/2)}}
			} else if prop == "M01" && dup && r.p(0.25) {
				k := r.pick(0, 0, 0, 1, 2, 3)
				o = Op{K: "mal", A: []int{k, r.n(1 << 16), r.pick(0, T/2)}}
			}
			if prop == "M02" && dup && r.p(0.3) {
				o = Op{K: "mal", A: []int{r.n(len(malKinds)), r.n(1 << 16), r.pick(0, T/2)}}
			}
		}
		p.Lists["reply"] = append(p.Lists["reply"], o)
	}
	if !healthy && prop != "M05" && r.p(0.6) {
		n := r.in(1, 5)
		for i := 0; i < n; i++ {
			o := Op{K: ""}
			switch r.w(3, 2, 2, 2, 3) {
			case 1:
				o.K = "refuse"
			case 2:
				o.K = "hang"
			case 3:
				o.K = "unreach"
			case 4:
				o.K = "slow"
				o.A = []int{r.pick(1, T/2, T*9/10, T-2, T+1, 2*T), 0}
			}
			if r.p(0.4) && o.K != "refuse" && o.K != "hang" && o.K != "unreach" {
				// link fault: delay, direction, offset, kind, duration
				d := 0
				if o.K == "slow" {
					d = o.A[0]
				}
				o = Op{K: "link", A: []int{d, r.n(2), r.pick(0, 1, 6, 7, 12, 20, 40, 90), r.n(5), r.pick(1, T/2, 2*T)}}
			}
			p.Lists["dial"] = append(p.Lists["dial"], o)
		}
	}
	if !healthy && (prop == "M02" || prop == "M08" || prop == "M01") && r.p(0.35) {
		n := r.in(1, 2)
		for i := 0; i < n; i++ {
			p.Lists["dev"] = append(p.Lists["dev"], Op{K: r.str("restart", "restart", "crash", "cut"), A: []int{r.in(0, 4*T), r.in(0, 3*T)}})
		}
	}
	if prop == "M02" || prop == "M08" {
		n := r.in(2, 5)
		for i := 0; i < n; i++ {
			p.Lists["after"] = append(p.Lists["after"], genCall(r, kinds))
		}
		p.Knobs["wait"] = r.pick(0, 0, 1, T, 3*T)
	}
	return p
}

func applyNet(p *Plan) {
	n := simnet.N
	n.SegMode = p.k("seg", 0, 2)
	n.LatMin = 50000
	n.LatMax = 50000 + int64(p.k("lat", 0, 50))*ms
	n.GapMax = int64(p.k("gap", 0, 50)) * ms
	n.ShortRd = p.k("short", 0, 1) == 1
	n.RstDrops = p.k("rstdrop", 0, 1) == 1
	if w := p.k("win", 0, 65536); w > 0 {
		n.Window = w
	}
}

func runTCPMaster(p *Plan, prop string) {
	w := &tcpWorld{p: p, conns: map[*simnet.Conn]*connState{}, dials: map[int]Op{}, up: true}
	w.T = int64(p.k("T", 20, 100000)) * ms
	n := simnet.New()
	applyNet(p)
	nm := p.k("masters", 1, 4)
	for i := 0; i < nm; i++ {
		m := &Master{idx: i, kind: "tcp", port: 502 + i, T: w.T}
		pr := modbus.NewTCPClientProvider(fmt.Sprintf("127.0.0.1:%d", m.port), modbus.WithTCPTimeout(time.Duration(w.T)))
		m.cl = modbus.NewClient(pr)
		w.masters = append(w.masters, m)
		w.ls = append(w.ls, nil)
		w.listen(i)
	}
	n.DialFate = w.fate
	n.OnWrite = w.onWrite
	n.OnArrive = w.onArrive
	n.OnAppOpen = func(c *simnet.Conn) {
		m := w.masters[c.Port()-502]
		m.hold(1, "connect")
		st := w.state(c)
		for i := len(n.DialLog) - 1; i >= 0; i-- {
			if n.DialLog[i].Conn == c {
				st.faulty = w.dials[i].K == "link"
				break
			}
		}
	}
	n.OnAppClose = func(c *simnet.Conn) { w.masters[c.Port()-502].hold(-1, "close") }
	if len(p.Lists["dev"]) > 0 {
		simrt.Spawn("devctl", w.control)
	}
	if p.k("long", 0, 70000) > 0 {
		m := w.masters[0]
		for i := 0; i < p.k("long", 0, 70000); i++ {
			c := w.do(m, Op{K: "wsr", A: []int{1, 1, i}})
			if c.err != nil {
				Fail("M01", "call %d on a healthy connection failed: %v", i, c.err)
			}
			w.judge(c)
		}
		return
	}
	var q simrt.WaitQ
	left := len(p.Acts)
	for a := range p.Acts {
		a := a
		t := simrt.Spawn(fmt.Sprintf("caller%d", a), func() {
			for _, o := range expand(p.Acts[a]) {
				simrt.Progress()
				w.call(w.masters[a%nm], o)
			}
			left--
			q.WakeAll()
		})
		t.MarkApp()
	}
	for left > 0 {
		q.Wait("callers")
	}
	if prop == "M02" || prop == "M08" {
		w.afterHeal()
	}
	for _, m := range w.masters {
		w.call(m, Op{K: "close"})
		w.call(m, Op{K: "isconn"})
		if m.held != 0 {
			Fail("M08", "master %d still holds a connection after Close returned", m.idx)
		}
	}
	w.checkStable()
}

func (w *tcpWorld) afterHeal() {
	w.healed = true
	simrt.Logf("HEALED")
	n := simnet.N
	n.GapMax = 0
	if n.Window < 300 {
		n.Window = 300
	}
	if n.LatMax > w.T/8 {
		n.LatMax = w.T / 8
	}
	n.SegMode = 0
	n.ClearFaults()
	for i := range w.ls {
		w.listen(i)
	}
	w.heal.WakeAll()
	simrt.Sleep(int64(w.p.k("wait", 0, 10000)) * ms)
	for _, m := range w.masters {
		i := -1
		for _, o := range w.p.Lists["after"] {
			c := w.call(m, o)
			if c == nil || !isRequest(c.op) {
				continue
			}
			i++
			bad := c.err != nil && exception(c.err) < 0
			if bad && i > 0 && simrt.StalledFor() == c.stall0 {
				Fail("M02", "call number %d after the device became healthy failed: %v: %v", i+1, c, c.err)
				Fail("M08", "the master was unusable: %v: %v", c, c.err)
			}
			if bad {
				simrt.Probe("first-call-after-heal-failed")
			}
		}
	}
	// and after an explicit Close
	if checked == "M08" {
		for _, m := range w.masters {
			w.call(m, Op{K: "close"})
			if m.held != 0 {
				Fail("M08", "master %d still holds a connection after Close returned", m.idx)
			}
			if c := w.call(m, Op{K: "conn"}); c.err != nil {
				Fail("M08", "Connect after Close failed on a healthy network: %v", c.err)
			}
			k := m.nopens
			if c := w.call(m, Op{K: "rhr", A: []int{1, 2, 3}}); c.err != nil {
				Fail("M08", "call after Close and Connect failed: %v", c.err)
			}
			if c := w.call(m, Op{K: "conn"}); c.err != nil {
				Fail("M08", "Connect on a connected master failed: %v", c.err)
			}
			if m.nopens != k {
				Fail("M08", "a connected master opened another connection")
			}
		}
	}
}

// call performs one op and judges it.
func (w *tcpWorld) call(m *Master, o Op) *Call {
	c := w.do(m, o)
	if c == nil {
		return nil
	}
	m.checkHeld(c)
	stall := simrt.StalledFor() - c.stall0
	from := c.inv
	if c.prevRet > from {
		from = c.prevRet
	}
	known := true
	if len(m.active) > 0 { // another call may have been ahead and not have returned yet
		known = len(c.exs) > 0
		if known && c.exs[0].startAt > from {
			from = c.exs[0].startAt
		}
	}
	if known && c.ret-from > 4*w.T+stall+ms {
		Fail("M03", "%v returned %v after it was its turn; 4*T is %v", c, time.Duration(c.ret-from), time.Duration(4*w.T))
	}
	if isRequest(c.op) {
		w.judge(c)
	} else if c.op == "conn" && c.err != nil {
		w.earlyDial(c)
	}
	return c
}

func (w *tcpWorld) state(c *simnet.Conn) *connState {
	st := w.conns[c]
	if st == nil {
		st = &connState{c: c, m: w.masters[c.Port()-502]}
		w.conns[c] = st
	}
	return st
}

func (w *tcpWorld) fate(n int, addr string) simnet.Fate {
	if w.healed {
		return simnet.Fate{}
	}
	o := w.p.at("dial", n)
	w.dials[n] = o
	switch o.K {
	case "refuse", "hang", "unreach":
		return simnet.Fate{Kind: o.K}
	case "slow":
		return simnet.Fate{Delay: int64(clamp(o.a(0), 0, 100000)) * ms}
	case "link":
		f := simnet.Fate{Delay: int64(clamp(o.a(0), 0, 100000)) * ms}
		f.Link = []simnet.LinkFault{{ToApp: o.a(1)&1 == 1, At: clamp(o.a(2), 0, 10000), Kind: []string{"rst", "fin", "stall", "blackhole", "werr"}[clamp(o.a(3), 0, 4)], Dur: int64(clamp(o.a(4), 0, 100000)) * ms}}
		return f
	}
	return simnet.Fate{}
}

func (w *tcpWorld) onArrive(c *simnet.Conn) {
	st := w.state(c)
	st.prog = simrt.Now()
	for i := len(st.exs) - 1; i >= 0; i-- {
		ex := st.exs[i]
		if ex.endOff > 0 && ex.arrived == 0 && c.Arrived >= ex.endOff {
			ex.arrived = simrt.Now()
		}
		if ex.arrived > 0 {
			break
		}
	}
}

// onWrite watches what the master puts on the wire.
func (w *tcpWorld) onWrite(c *simnet.Conn, b []byte) {
	st := w.state(c)
	for len(b) > 0 {
		if len(st.wbuf) == 0 {
			w.newRequest(st)
		}
		// take bytes up to the end of the frame
		need := 6
		if len(st.wbuf) >= 6 {
			need = 6 + int(u16(st.wbuf[4:]))
		}
		k := need - len(st.wbuf)
		if k > len(b) {
			k = len(b)
		}
		if k <= 0 {
			k = 1
		}
		st.wbuf = append(st.wbuf, b[:k]...)
		b = b[k:]
		st.prog = simrt.Now()
		call := w.match(st, false)
		if call == nil {
			Fail("M09", "bytes on connection %d of master %d are no request of any call in progress: % x", c.ID, st.m.idx, st.wbuf)
			Fail("M04", "bytes on connection %d of master %d are no request of any call in progress: % x", c.ID, st.m.idx, st.wbuf)
			return
		}
		if len(st.wbuf) >= 6 && len(st.wbuf) == 6+int(u16(st.wbuf[4:])) {
			call = w.match(st, true)
			if call == nil {
				Fail("M09", "frame sent on connection %d of master %d is no request of any call in progress: % x", c.ID, st.m.idx, st.wbuf)
				Fail("M04", "frame sent on connection %d of master %d is no request of any call in progress: % x", c.ID, st.m.idx, st.wbuf)
				return
			}
			ex := &Exch{call: call, serial: w.serial, tid: u16(st.wbuf), startAt: st.wstart, sentAt: simrt.Now(), conn: st}
			w.serial++
			ex.mode = w.p.at("reply", ex.serial)
			if w.healed || ex.mode.K == "" {
				ex.mode = Op{K: "ok"}
			}
			ex.dirty = st.extra || c.Unread() > 0
			st.exs = append(st.exs, ex)
			call.exs = append(call.exs, ex)
			st.wbuf = nil
		}
	}
}

// match finds the call in progress whose frame the pending bytes begin.
func (w *tcpWorld) match(st *connState, whole bool) *Call {
	for _, c := range st.m.active {
		if !isRequest(c.op) {
			continue
		}
		var want []byte
		if c.raw {
			want = c.adu
		} else {
			want = tcpADU(0, c.unit, c.pdu)
			for i := 0; i < 2 && i < len(st.wbuf); i++ {
				want[i] = st.wbuf[i]
			}
		}
		if bytes.HasPrefix(want, st.wbuf) && (!whole || len(want) == len(st.wbuf)) {
			return c
		}
	}
	return nil
}

// newRequest: the first byte of a request is about to be written.
func (w *tcpWorld) newRequest(st *connState) {
	st.wstart = simrt.Now()
	if len(st.exs) == 0 {
		return
	}
	ex := st.exs[len(st.exs)-1]
	if ex.call.done || ex.arrived > 0 {
		return
	}
	if st.c.Broken() || st.c.SawEOF() || simrt.Now()-st.prog >= w.T || simrt.StalledFor() > 0 || st.faulty {
		return
	}
	if simrt.Now()-ex.sentAt >= w.T {
		return
	}
	switch ex.mode.K {
	case "mal", "stale", "dup":
		return
	}
	if st.extra || ex.dirty {
		return
	}
	Fail("M04", "a new request begins on connection %d of master %d while %v is unanswered and still waiting", st.c.ID, st.m.idx, ex.call)
}

// judge checks the outcome of a request call.
func (w *tcpWorld) judge(c *Call) {
	simrt.Atomic(func() { w.judge1(c) })
}

func (w *tcpWorld) judge1(c *Call) {
	code := -1
	if c.err != nil {
		code = exception(c.err)
	}
	if c.err == nil {
		w.judgeOK(c)
	} else if code >= 0 {
		ok := false
		for _, ex := range c.exs {
			for i := 0; i+9 <= len(ex.reply); i++ {
				f := ex.reply[i:]
				if u16(f) == ex.tid && u16(f[2:]) == 0 && u16(f[4:]) >= 3 && f[6] == c.unit && f[7] == c.pdu[0]|0x80 && int(f[8]) == code {
					ok = true
				}
			}
		}
		if !ok {
			Fail("M05", "%v failed with exception code %d that the device did not send in answer to it", c, code)
			Fail("M04", "%v failed with exception code %d that the device did not send in answer to it", c, code)
			Fail("M01", "%v failed with exception code %d that the device did not send in answer to it", c, code)
		}
	}
	stalled := simrt.StalledFor() > c.stall0 || c.overlapsClose()
	if len(c.exs) == 0 {
		if c.err != nil && code < 0 {
			w.earlyDial(c)
		}
	} else {
		ex := c.exs[len(c.exs)-1]
		st := ex.conn
		clean := !ex.dirty && !st.faulty && !stalled && !st.extra
		if clean && ex.whole && ex.arrived > 0 && ex.arrived-ex.sentAt < w.T-ms && ex.sentAt-ex.startAt < w.T-ms {
			w.mustEnd(c, ex, code)
		} else if clean && c.err != nil && code < 0 && c.ret-ex.sentAt < w.T-ms && !st.c.Broken() && !st.c.SawEOF() {
			// nothing is wrong yet
			switch ex.mode.K {
			case "ok", "exc", "trickle", "okfin", "silent", "late", "hold":
				if w.up || ex.whole {
					Fail("M03", "%v failed %v after its request although nothing was wrong: %v", c, time.Duration(c.ret-ex.sentAt), c.err)
				}
			}
		}
	}
	if w.p.k("healthy", 0, 1) == 1 && c.err != nil && code < 0 && !stalled {
		Fail("M04", "%v failed on a healthy connection: %v", c, c.err)
	}
	// a connection the call found dead must not be kept
	if c.err != nil && code < 0 && len(c.m.active) == 0 {
		for _, st := range w.conns {
			x := st.c
			if st.m == c.m && !x.Closed() && x.EndAt > 0 && x.EndAt < c.inv && x.Unread() == 0 && len(c.exs) > 0 && c.exs[len(c.exs)-1].conn == st {
				Fail("M08", "master %d keeps the failed connection %d after %v returned %v", c.m.idx, x.ID, c, c.err)
			}
		}
	}
}

// earlyDial: a call failed without having sent anything.
func (w *tcpWorld) earlyDial(c *Call) {
	if simrt.StalledFor() > c.stall0 || c.overlapsClose() {
		return
	}
	for i, d := range simnet.N.DialLog {
		if d.Task != c.task || d.Seq < c.invSeq || d.End == 0 || d.OK {
			continue
		}
		o := w.dials[i]
		if (o.K == "slow" || o.K == "link") && w.up && len(w.p.Lists["dev"]) == 0 && int64(o.a(0))*ms < w.T-ms {
			Fail("M03", "%v failed although connecting takes only %d ms of %d: %v", c, o.a(0), w.T/ms, c.err)
		}
	}
}

// mustEnd: the complete reply arrived in time on a clean connection.
func (w *tcpWorld) mustEnd(c *Call, ex *Exch, code int) {
	if ex.exc > 0 && !c.raw {
		if code != ex.exc {
			Fail("M05", "%v: the device answered with exception code %d, the call returned %v", c, ex.exc, c.err)
			Fail("M03", "%v: the device answered in time with exception code %d, the call returned %v", c, ex.exc, c.err)
			Fail("M04", "%v: the device answered in time with exception code %d, the call returned %v", c, ex.exc, c.err)
		}
		simrt.Probe("exception-delivered")
		return
	}
	if c.err != nil {
		Fail("M03", "%v failed although the complete reply arrived %v after its request: %v", c, time.Duration(ex.arrived-ex.sentAt), c.err)
		Fail("M05", "%v failed although a well-formed reply arrived in time: %v", c, c.err)
	}
}

// judgeOK: the data must be what the device sent in answer to this request.
func (w *tcpWorld) judgeOK(c *Call) {
	found := false
	for _, ex := range c.exs {
		frame := c.rsp
		if !c.raw {
			frame = tcpADU(ex.tid, c.unit, c.rsp)
		}
		if bytes.Contains(ex.reply, frame) {
			found = true
		}
	}
	if !found {
		what := "nothing was sent for it"
		if len(c.exs) > 0 {
			ex := c.exs[len(c.exs)-1]
			what = fmt.Sprintf("transaction %d was answered with % x", ex.tid, ex.reply)
		}
		for _, pr := range []string{"M01", "M04", "M05"} {
			Fail(pr, "%v succeeded with reply PDU % x which the device did not send in answer to it (%s)", c, c.rsp, what)
		}
	}
	if c.raw {
		return
	}
	for _, ex := range c.exs {
		if ex.excFirst {
			Fail("M05", "%v succeeded although the device answered with exception code %d", c, ex.exc)
			Fail("M01", "%v succeeded although the device answered with exception code %d", c, ex.exc)
		}
	}
	if c.typed && !shapeOK(c.pdu, c.rsp) {
		Fail("M05", "%v succeeded with a reply of the wrong shape: % x", c, c.rsp)
	}
	if !c.typed && (len(c.rsp) < 2 || c.rsp[0] != c.pdu[0]) {
		Fail("M05", "%v succeeded with a reply of the wrong shape: % x", c, c.rsp)
	}
	simrt.Probe("success-checked")
}

// ---- the device ----

func (w *tcpWorld) listen(i int) { simrt.Atomic(func() { w.listen1(i) }) }

func (w *tcpWorld) listen1(i int) {
	if w.ls[i] != nil && !w.ls[i].Closed() {
		return
	}
	l, err := simnet.Listen(fmt.Sprintf(":%d", 502+i), false)
	if err != nil {
		simrt.Internal("device listen: %v", err)
	}
	w.ls[i] = l
	w.up = true
	simrt.Spawn("device", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			simrt.Spawn("devconn", func() { w.serve(c) })
		}
	})
}

// control applies the timeline of device crashes.
func (w *tcpWorld) control() {
	for _, o := range w.p.Lists["dev"] {
		w.wait(int64(clamp(o.a(0), 0, 100000)) * ms)
		if w.healed {
			return
		}
		simrt.Fault("device-" + o.K)
		switch o.K {
		case "cut":
			for _, d := range w.devs {
				if !d.Closed() {
					w.state(d.Peer()).faulty = true
					d.Cut()
				}
			}
		case "restart", "crash":
			for _, l := range w.ls {
				l.Close()
			}
			w.up = false
			for _, d := range w.devs {
				if !d.Closed() {
					w.state(d.Peer()).faulty = true
					if o.K == "crash" {
						d.Abort()
					} else {
						d.Close()
					}
				}
			}
			w.wait(int64(clamp(o.a(1), 0, 100000)) * ms)
			for i := range w.ls {
				w.listen(i)
			}
		}
	}
}

// wait sleeps, but not beyond the healing.
func (w *tcpWorld) wait(d int64) {
	if d <= 0 || w.healed {
		return
	}
	t := simrt.Now() + d
	for !w.healed && simrt.Now() < t {
		w.heal.WaitUntil("device", t)
	}
}

func (w *tcpWorld) serve(d *simnet.Conn) {
	w.devs = append(w.devs, d)
	st := w.state(d.Peer())
	var buf []byte
	tmp := make([]byte, 4096)
	defer d.Close()
	for {
		n, err := d.Read(tmp)
		if err != nil {
			return
		}
		buf = append(buf, tmp[:n]...)
		for len(buf) >= 6 && len(buf) >= 6+int(u16(buf[4:])) {
			buf = buf[6+int(u16(buf[4:])):]
			if st.next >= len(st.exs) {
				simrt.Logf("the device cannot tell the request apart, it hangs up")
				return
			}
			ex := st.exs[st.next]
			st.next++
			if !w.answer(d, st, ex) {
				return
			}
		}
	}
}

func (ex *Exch) send(d *simnet.Conn, b []byte) bool {
	ex.reply = append(ex.reply, b...)
	_, err := d.Write(b)
	return err == nil
}

// answer reacts to one request; false: the connection is finished.
func (w *tcpWorld) answer(d *simnet.Conn, st *connState, ex *Exch) bool {
	ex.devAt = simrt.Now()
	c := ex.call
	o := ex.mode
	pdu := okReply(c.pdu, uint64(ex.serial)+uint64(c.id)<<20)
	full := tcpADU(ex.tid, c.unit, pdu)
	T := w.T / ms
	cut := func(n int) []byte { return full[:clamp(n, 0, len(full)-1)] }
	delay := func(v int) { w.wait(int64(clamp(v, 0, 100000)) * ms) }
	whole := func(b []byte) {
		ex.whole = true
		ex.endOff = d.Sent + len(b)
	}
	switch o.K {
	case "exc":
		delay(o.a(0))
		ex.exc = clamp(o.a(1), 1, 255)
		full = tcpADU(ex.tid, c.unit, []byte{c.pdu[0] | 0x80, byte(ex.exc)})
		whole(full)
		return ex.send(d, full)
	case "excok": // an exception, and a positive reply after it
		simrt.Fault("reply-after-exception")
		delay(o.a(0))
		ex.exc = clamp(o.a(1), 1, 255)
		ex.excFirst = !ex.dirty && !st.extra && !st.faulty
		if !ex.send(d, tcpADU(ex.tid, c.unit, []byte{c.pdu[0] | 0x80, byte(ex.exc)})) {
			return false
		}
		st.extra = true
		if o.a(2) > 0 {
			delay(o.a(2))
		}
		return ex.send(d, full)
	case "silent":
		simrt.Fault("reply-silent")
		return true
	case "late":
		simrt.Fault("reply-late")
		simrt.Spawn("late", func() {
			w.wait(w.T + int64(clamp(o.a(0), 0, 100000))*ms)
			if w.healed || d.Closed() {
				return
			}
			st.extra = true
			ex.send(d, full)
		})
		return true
	case "trickle":
		simrt.Fault("reply-trickle")
		k := clamp(o.a(1), 1, 300)
		whole(full)
		for i := 0; i < len(full); i += k {
			e := i + k
			if e > len(full) {
				e = len(full)
			}
			if i > 0 {
				g := o.a(0)
				if w.p.k("healthy", 0, 1) == 1 {
					g = clamp(g, 0, 2)
				}
				delay(g)
			}
			if w.healed || !ex.send(d, full[i:e]) {
				st.extra = true
				ex.whole = false
				return !d.Closed()
			}
		}
		return true
	case "fin":
		simrt.Fault("reply-cut-fin")
		if n := cut(o.a(0)); len(n) > 0 {
			ex.send(d, n)
		}
		d.Close()
		return false
	case "rst":
		simrt.Fault("reply-cut-rst")
		if n := cut(o.a(0)); len(n) > 0 {
			ex.send(d, n)
		}
		d.Abort()
		return false
	case "hold":
		simrt.Fault("reply-cut-silence")
		st.extra = true
		if n := cut(o.a(0)); len(n) > 0 {
			ex.send(d, n)
		}
		return true
	case "okfin":
		simrt.Fault("reply-then-fin")
		whole(full)
		ex.send(d, full)
		d.Close()
		return false
	case "dup":
		simrt.Fault("reply-duplicated")
		whole(full)
		if !ex.send(d, full) {
			return false
		}
		st.extra = true
		return ex.send(d, full)
	case "stale":
		simrt.Fault("reply-stale-first")
		st.extra = true
		for i := 0; i < st.next-1; i++ {
			if len(st.exs[i].reply) > 0 {
				d.Write(st.exs[i].reply)
				break
			}
		}
		return ex.send(d, full)
	case "noread":
		simrt.Fault("device-stops-reading")
		whole(full)
		ok := ex.send(d, full)
		w.wait(int64(clamp(o.a(0), 0, int(4*T))) * ms)
		return ok
	case "mal":
		simrt.Fault("reply-malformed-" + malKinds[clamp(o.a(0), 0, len(malKinds)-1)])
		delay(o.a(2))
		st.extra = true
		return ex.send(d, malformed(malKinds[clamp(o.a(0), 0, len(malKinds)-1)], o.a(1), c, ex.tid, pdu))
	}
	delay(o.a(0))
	whole(full)
	return ex.send(d, full)
}

// malformed builds a wrong reply.
func malformed(kind string, v int, c *Call, tid uint16, pdu []byte) []byte {
	unit := c.unit
	fc := c.pdu[0]
	p := append([]byte(nil), pdu...)
	v1 := v%255 + 1
	switch kind {
	case "tid", "pid", "pid1", "unit":
		if v&0x6000 == 0x6000 { // an exception, but not for this request
			p = []byte{fc | 0x80, byte(v1)}
		}
	}
	switch kind {
	case "tid":
		d := uint16(1 + v%65535)
		switch v & 7 {
		case 0:
			d = 1
		case 1:
			d = 65535
		case 2:
			d = uint16(1+(v>>3)%255) << 8
		case 3:
			d = 32768
		}
		return tcpADU(tid+d, unit, p)
	case "pid":
		return mbap(tid, uint16(1+v%65535), len(p)+1, unit, p)
	case "pid1":
		return mbap(tid, uint16([]int{1, 256, 0x8000, 0xff00}[v%4]), len(p)+1, unit, p)
	case "unit":
		return tcpADU(tid, unit+byte(v1), p)
	case "fc": // an unrelated function code
		p[0] = fc ^ byte(1<<(v%7))
		return tcpADU(tid, unit, p)
	case "excfc": // an exception for another function
		return tcpADU(tid, unit, []byte{0x80 | fc ^ byte(1<<(v%7)), byte(v1)})
	case "len+":
		return mbap(tid, 0, len(p)+1+v%20+1, unit, p)
	case "len-":
		return mbap(tid, 0, clamp(len(p)-v%10, 0, 300), unit, p)
	case "len0":
		return mbap(tid, 0, 0, unit, p)
	case "len1":
		return mbap(tid, 0, 1, unit, p)
	case "lenhuge":
		return mbap(tid, 0, []int{254, 255, 256, 260, 261, 1000, 32768, 65535}[v%8], unit, p)
	case "short":
		return tcpADU(tid, unit, p[:clamp(len(p)-1-v%6, 1, len(p))])
	case "long":
		return tcpADU(tid, unit, append(p, payload(uint64(v), clamp(1+v%5, 1, 254-len(p)))...))
	case "bytecount":
		if len(p) > 1 {
			p[1] += byte(v1)
		}
		return tcpADU(tid, unit, p)
	case "echo1":
		if len(p) > 2 {
			p[1+v%2] ^= byte(v1)
		}
		return tcpADU(tid, unit, p)
	case "echo2":
		if len(p) > 4 {
			p[3+v%(len(p)-3)] ^= byte(v1)
		}
		return tcpADU(tid, unit, p)
	case "empty":
		return tcpADU(tid, unit, p[:1])
	case "exc+":
		return tcpADU(tid, unit, cat([]byte{fc | 0x80, byte(v1)}, payload(uint64(v), 1+v%3)))
	case "exc0":
		return tcpADU(tid, unit, []byte{fc | 0x80})
	case "ezero":
		return tcpADU(tid, unit, []byte{fc | 0x80, 0})
	case "fifocnt": // counts that disagree
		if fc == 24 && len(p) > 5 {
			n := uint16(v % 40)
			if v%3 == 0 { // more than a queue can hold, consistent in itself
				n = uint16(32 + v/3%90)
				return tcpADU(tid, unit, cat([]byte{fc}, be(2+2*n, n), payload(uint64(v), 2*int(n))))
			}
			copy(p[3:], be(n))
			return tcpADU(tid, unit, p)
		}
		// a read reply with another quantity, consistent in itself
		n := v % 251
		return tcpADU(tid, unit, cat([]byte{fc, byte(n)}, payload(uint64(v), n)))
	case "swap":
		if len(p) > 4 {
			p[1], p[2], p[3], p[4] = p[3], p[4], p[1], p[2]
		}
		return tcpADU(tid, unit, p)
	case "req": // the request echoed
		return tcpADU(tid, unit, c.pdu)
	}
	return payload(uint64(v), 1+v%60)
}
