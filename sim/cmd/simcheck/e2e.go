package main

// Scenario "e2e": real masters against the real listening slave over the
// simulated network. Property E01.

import (
	"fmt"
	"time"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

type e2eWorld struct {
	p       *Plan
	T       int64
	healthy bool
	healed  bool
	units   []*unitObj
	byID    map[byte]*unitObj
	srv     *modbus.TCPServer
	ms      []*e2eMaster
	conns   map[*simnet.Conn]*e2eConn // by the master's end
	heal    simrt.WaitQ
	closing bool
}

type e2eMaster struct {
	idx    int
	cl     modbus.Client
	active []*e2eCall
}

type e2eConn struct {
	m     *e2eMaster
	buf   []byte
	sent  int
	calls []*e2eCall // whole requests on it
	ends  []int
	seen  int
}

type e2eCall struct {
	m         *e2eMaster
	op        string
	unit      byte
	pdu       []byte
	task      int
	vague     bool // its requests cannot be told from another call's
	sent      int  // whole requests written
	delivered int  // and delivered to the slave
	err       error
	rsp       []byte
	inv, ret  int64
	u         *unitObj
	what      string
}

func (c *e2eCall) String() string {
	return fmt.Sprintf("%s to unit %d (% x) by master %d", c.op, c.unit, short(c.pdu), c.m.idx)
}

func init() { scenarios["e2e"] = scenario{genE2E, runE2E} }

var e2eOps = []string{"rc", "rdi", "wsc", "wmc", "rir", "rirb", "rhr", "rhrb", "wsr", "wmr", "wmrb", "mwr", "rwm", "rwmb", "send", "pdu", "raw", "fifo"}
var e2eFC = map[string]int{"rc": 1, "rdi": 2, "wsc": 5, "wmc": 15, "rir": 4, "rirb": 4, "rhr": 3, "rhrb": 3, "wsr": 6, "wmr": 16, "wmrb": 16, "mwr": 22, "rwm": 23, "rwmb": 23, "fifo": 24}

// e2eMax is the largest quantity of a function.
func e2eMax(fc int) int {
	switch fc {
	case 1, 2:
		return 2000
	case 3, 4:
		return 125
	case 15:
		return 1968
	case 16:
		return 123
	case 23:
		return 121
	}
	return 1
}

// e2eAddr draws an offset and a quantity in a bank; sometimes outside it.
func e2eAddr(r *Rng, lay []int, b, max int) (int, int) {
	bq := lay[2*b+1]
	off := r.n(bq)
	if r.p(0.2) {
		off = 0
	}
	q := 1
	switch r.w(3, 3, 2) {
	case 0:
		q = r.in(1, clamp(bq-off, 1, 4))
	case 1:
		q = r.in(1, clamp(bq-off, 1, max))
	case 2:
		q = clamp(bq-off, 1, max)
	}
	if r.p(0.12) {
		off, q = r.pick(off, off+1, bq, bq-1, bq-q+1, -1, -2, 70000, 32768), r.pick(q, q, bq+1, max, 1)
	}
	return off, q
}

func (r *Rng) e2eOp(ops []string, lays [][]int) Op {
	ui := r.n(len(lays))
	k := ops[r.n(len(ops))]
	fc := e2eFC[k]
	if fc == 0 {
		fc = r.pick(1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
	}
	b := bankOf(byte(fc))
	if b < 0 {
		b = bHold
	}
	off, q := e2eAddr(r, lays[ui], b, e2eMax(fc))
	off2, q2 := e2eAddr(r, lays[ui], b, 125)
	return Op{K: k, A: []int{ui, fc, off, q, r.n(1 << 24), off2, q2, r.w(5, 1, 1)}}
}

func genE2E(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("e2e")
	healthy := r.p(0.45)
	r.netKnobs(p)
	p.Pol = r.policy(!healthy)
	if healthy {
		p.Knobs["healthy"] = 1
		p.Knobs["T"], p.Knobs["R"], p.Knobs["W"] = 60000, 100000, 60000
	} else {
		p.Knobs["T"] = r.pick(50, 100, 300, 1000)
		p.Knobs["R"] = r.pick(50, 300, 1000, 10000)
		p.Knobs["W"] = r.pick(50, 300, 1000)
		if r.p(0.2) {
			p.Knobs["win"] = r.pick(20, 64, 300)
		}
	}
	nu := r.pick(1, 1, 2, 3)
	p.Knobs["amax"] = r.n(2)
	top := 245
	if p.Knobs["amax"] == 1 {
		top = 253
	}
	tiny := r.p(0.4)
	huge := healthy && r.p(0.03)
	wide := !huge && r.p(0.12) // all at the same long stretches
	if wide {
		nu = 1
	}
	var lays [][]int
	for i := 0; i < nu; i++ {
		lay := r.layout(tiny)
		if huge {
			b := r.n(4)
			lay[2*b+1] = r.pick(4000, 30000, 65535)
			lay[2*b] = r.pick(0, 1, 65536-lay[2*b+1])
		}
		if wide {
			q := r.in(10, 60)
			for b := 0; b < 4; b++ {
				lay[2*b], lay[2*b+1] = clamp(lay[2*b], 0, 65536-q), q
			}
		}
		lays = append(lays, lay)
		p.Lists["units"] = append(p.Lists["units"], Op{K: "unit", A: append([]int{r.pick(1, 1, 2, 2, 17, 17, top, top, 0) + i}, lay...)})
	}
	nm := r.pick(1, 1, 1, 2, 3)
	na := nm
	if r.p(0.4) {
		na = r.in(nm, 5)
	}
	p.Knobs["masters"] = nm
	ops := e2eOps
	if tiny && r.p(0.5) { // heavy contention on a few registers
		ops = [][]string{
			{"rc", "wsc", "wmc", "rc"},
			{"rhr", "wsr", "wmr", "mwr", "rwm", "rhrb", "wmrb"},
			{"rhr", "wmr", "rwm"},
		}[r.n(3)]
	}
	if wide {
		nm = r.in(2, 3)
		na = r.in(nm, 4)
		p.Knobs["masters"] = nm
		p.Knobs["lat"], p.Knobs["gap"] = 0, 0
		ops = [][]string{{"rc", "wmc"}, {"rc", "wmc", "wsc"}, {"rdi", "rir"}, {"rhr", "wmr", "wmrb"}, {"rhr", "rwm", "rwmb"}}[r.n(5)]
	}
	nops := r.in(2, 8)
	if na == 1 {
		nops = r.in(4, 16)
	}
	if deep {
		nops += r.n(6)
	}
	if huge {
		nops = r.in(2, 6)
	}
	T := p.Knobs["T"]
	for a := 0; a < na; a++ {
		list := []Op{{K: "master", A: []int{a % nm}}}
		for i := 0; i < nops; i++ {
			switch {
			case r.p(0.06):
				list = append(list, Op{K: r.str("conn", "close", "isconn", "log")})
			case r.p(0.08):
				d := r.in(0, 2*T)
				if healthy {
					d = r.in(0, 50)
				}
				list = append(list, Op{K: "sleep", A: []int{d}})
			case r.p(0.03) && !healthy:
				list = append(list, Op{K: "nounit", A: []int{r.pick(0, r.n(256), 247, 128), r.n(4), r.n(4)}})
			default:
				list = append(list, r.e2eOp(ops, lays))
			}
		}
		p.Acts = append(p.Acts, list)
	}
	// local users
	if r.p(0.75) {
		nl := r.pick(1, 1, 2)
		for a := 0; a < nl; a++ {
			list := []Op{{K: "local"}}
			n := r.in(1, 8)
			for i := 0; i < n; i++ {
				if r.p(0.3) {
					d := r.in(0, 2*T)
					if healthy {
						d = r.in(0, 5)
					}
					list = append(list, Op{K: "sleep", A: []int{d}})
				}
				ui := r.n(nu)
				list = append(list, r.genAPI(ui, lays[ui]))
			}
			p.Acts = append(p.Acts, list)
		}
	}
	for _, l := range p.Acts {
		for _, o := range l {
			if q := lays[0][1]; wide && len(o.A) > 3 && r.p(0.85) {
				o.A[2], o.A[3] = o.A[2]&1, q-o.A[2]&1
				if len(o.A) > 6 {
					o.A[5], o.A[6] = o.A[5]&1, q-o.A[5]&1
				}
				if k := []int{0, 2, 4, 6, 8, 10, 12, 14}; o.K == "api" {
					o.A[1] = k[o.A[1]%8]
				}
			}
		}
	}
	if healthy {
		return p
	}
	if r.p(0.7) {
		n := r.in(1, 6)
		for i := 0; i < n; i++ {
			o := Op{K: ""}
			switch r.w(4, 1, 1, 1, 9) {
			case 1:
				o.K = "refuse"
			case 2:
				o.K = "hang"
			case 3:
				o.K = "slow"
				o.A = []int{r.pick(1, T/2, T-2, T+1)}
			case 4:
				o = Op{K: "link", A: []int{0, r.n(2), r.pick(0, 1, 6, 7, 12, 13, 20, 24, 36, 40, 60, 90, 200), r.n(5), r.pick(1, T/2, T-1, T, T+1, 2*T)}}
			}
			p.Lists["dial"] = append(p.Lists["dial"], o)
		}
	}
	if r.p(0.4) {
		n := r.in(1, 3)
		for i := 0; i < n; i++ {
			p.Lists["srv"] = append(p.Lists["srv"], Op{K: r.str("restart", "cut", "partition", "restart"), A: []int{r.in(0, 4*T), r.in(0, 2*T)}})
		}
	}
	return p
}

func runE2E(p *Plan, prop string) {
	w := &e2eWorld{p: p, byID: map[byte]*unitObj{}, conns: map[*simnet.Conn]*e2eConn{}}
	w.T = int64(p.k("T", 20, 100000)) * ms
	w.healthy = p.k("healthy", 0, 1) == 1
	n := simnet.New()
	applyNet(p)
	for i, o := range p.Lists["units"] {
		id := byte(clamp(o.a(0), 0, 255))
		if w.byID[id] != nil || len(o.A) < 1 {
			continue
		}
		u := newUnit(i, id, o.A[1:])
		w.units = append(w.units, u)
		w.byID[id] = u
	}
	for _, u := range w.units {
		if u.id > 247 {
			p.Knobs["amax"] = 1
		}
	}
	w.startServer()
	dials := map[int]*e2eMaster{}
	n.OnDialEnd = func(i int, c *simnet.Conn) {
		if c != nil {
			w.conn(c).m = dials[i]
		}
	}
	n.DialFate = func(i int, a string) simnet.Fate {
		for _, m := range w.ms {
			if a == fmt.Sprintf("127.0.0.%d:502", m.idx+1) {
				dials[i] = m
			}
		}
		if w.healed || w.healthy {
			return simnet.Fate{}
		}
		o := p.at("dial", i)
		switch o.K {
		case "refuse", "hang":
			return simnet.Fate{Kind: o.K}
		case "slow":
			return simnet.Fate{Delay: int64(clamp(o.a(0), 0, 100000)) * ms}
		case "link":
			return simnet.Fate{Link: []simnet.LinkFault{{ToApp: o.a(1)&1 == 1, At: clamp(o.a(2), 0, 10000), Kind: []string{"rst", "fin", "stall", "blackhole", "werr"}[clamp(o.a(3), 0, 4)], Dur: int64(clamp(o.a(4), 0, 100000)) * ms}}}
		}
		return simnet.Fate{}
	}
	n.OnWrite = w.onWrite
	n.OnArrive = w.onArrive
	nm := p.k("masters", 1, 4)
	for i := 0; i < nm; i++ {
		m := &e2eMaster{idx: i}
		// the address tells the masters apart
		addr := fmt.Sprintf("127.0.0.%d:502", i+1)
		pr := modbus.NewTCPClientProvider(addr, modbus.WithTCPTimeout(time.Duration(w.T)))
		var opts []modbus.Option
		if p.k("amax", 0, 1) == 1 {
			opts = append(opts, modbus.WithAddressMax(255))
		}
		m.cl = modbus.NewClient(pr, opts...)
		w.ms = append(w.ms, m)
	}
	if len(p.Lists["srv"]) > 0 && !w.healthy {
		simrt.Spawn("srvctl", w.control)
	}
	left := 0
	var q simrt.WaitQ
	for i := range p.Acts {
		ops := expand(p.Acts[i])
		if len(ops) == 0 {
			continue
		}
		left++
		t := simrt.Spawn(fmt.Sprintf("actor%d", i), func() {
			if ops[0].K == "local" {
				w.local(ops[1:])
			} else {
				m := w.ms[clamp(ops[0].a(0), 0, 100)%nm]
				for _, o := range ops[1:] {
					simrt.Progress()
					w.step(m, o)
				}
			}
			left--
			q.WakeAll()
		})
		t.MarkApp()
	}
	for left > 0 {
		q.Wait("actors")
	}
	w.finish()
}

func (w *e2eWorld) fail(f string, a ...interface{}) { bad("E01", f, a...) }

func (w *e2eWorld) startServer() {
	w.srv = modbus.NewTCPServer()
	w.srv.SetReadTimeout(time.Duration(int64(w.p.k("R", 20, 100000)) * ms)).SetWriteTimeout(time.Duration(int64(w.p.k("W", 20, 100000)) * ms))
	for _, u := range w.units {
		w.srv.AddNodes(u.node)
	}
	s := w.srv
	simrt.SpawnApp(func() {
		err := s.ListenAndServe(":502")
		simrt.Logf("ListenAndServe returned %v", err)
	})
	t := simrt.Now() + 60000*ms
	for simnet.ListenerOn(502) == nil {
		simrt.Sleep(ms)
		if simrt.Now() > t+simrt.StalledFor() {
			w.fail("the slave does not listen")
			return
		}
	}
}

func (w *e2eWorld) wait(d int64) {
	t := simrt.Now() + d
	for !w.healed && simrt.Now() < t {
		w.heal.WaitUntil("srvctl", t)
	}
}

// control disturbs the slave and its connections.
func (w *e2eWorld) control() {
	for _, o := range w.p.Lists["srv"] {
		w.wait(int64(clamp(o.a(0), 0, 100000)) * ms)
		if w.healed {
			return
		}
		simrt.Fault("slave-" + o.K)
		switch o.K {
		case "cut": // everything both sides send from now on is lost
			for c := range w.conns {
				_ = c
			}
			for _, c := range simnet.OpenApp() {
				if c.Dialed {
					c.Cut()
				}
			}
		case "partition":
			d := int64(clamp(o.a(1), 0, 100000)) * ms
			for _, c := range simnet.OpenApp() {
				c.AddFault(simnet.LinkFault{Kind: "stall", At: 0, Dur: d})
			}
		case "restart":
			w.closing = true
			w.srv.Close()
			w.wait(int64(clamp(o.a(1), 0, 100000)) * ms)
			w.startServer()
			w.closing = false
			w.heal.WakeAll()
		}
	}
}

func (w *e2eWorld) local(ops []Op) {
	for _, o := range ops {
		simrt.Progress()
		switch o.K {
		case "sleep":
			simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		case "api":
			if len(w.units) > 0 {
				w.units[clamp(o.a(0), 0, 1000)%len(w.units)].api(o, simrt.Seq, w.fail)
			}
		}
	}
}

// ---- the wire ----

func (w *e2eWorld) conn(c *simnet.Conn) *e2eConn {
	s := w.conns[c]
	if s == nil {
		s = &e2eConn{}
		w.conns[c] = s
	}
	return s
}

// same tells whether two request PDUs ask for the same.
func samePDU(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 6 && a[0] == 15 && b[0] == 15 && u16(a[3:]) == u16(b[3:]) {
		if r := u16(a[3:]) % 8; r != 0 {
			m := byte(1)<<r - 1
			n := len(a) - 1
			return string(a[:n]) == string(b[:n]) && a[n]&m == b[n]&m
		}
	}
	return string(a) == string(b)
}

func (w *e2eWorld) onWrite(c *simnet.Conn, b []byte) {
	if !c.Dialed {
		return
	}
	s := w.conn(c)
	me := simrt.CurrentID()
	s.sent += len(b)
	s.buf = append(s.buf, b...)
	for len(s.buf) >= 6 && len(s.buf) >= 6+int(u16(s.buf[4:])) {
		n := 6 + int(u16(s.buf[4:]))
		f := s.buf[:n]
		s.buf = s.buf[n:]
		var hit *e2eCall
		if n >= 8 {
			for _, m := range w.ms {
				if s.m != nil && s.m != m {
					continue
				}
				for _, x := range m.active {
					if x.unit != f[6] || !samePDU(x.pdu, f[7:]) {
						continue
					}
					if hit != nil && hit.task != me && x.task != me {
						hit.vague, x.vague = true, true
					}
					if hit == nil || x.task == me {
						hit = x
					}
				}
			}
		}
		if hit == nil {
			w.fail("a request that no call in progress asks for is sent: % x", short(f))
			return
		}
		hit.sent++
		s.calls = append(s.calls, hit)
		s.ends = append(s.ends, s.sent-len(s.buf))
	}
}

// onArrive counts the requests that reach the slave.
func (w *e2eWorld) onArrive(c *simnet.Conn) {
	if c.Dialed {
		return
	}
	s := w.conns[c.Peer()]
	if s == nil {
		return
	}
	for s.seen < len(s.ends) && c.Arrived >= s.ends[s.seen] {
		x := s.calls[s.seen]
		s.seen++
		if x.delivered++; x.delivered > 1 && !x.vague {
			w.fail("the slave gets the request of %v twice", x)
		}
	}
}

// ---- the calls ----

func (w *e2eWorld) step(m *e2eMaster, o Op) {
	switch o.K {
	case "sleep":
		simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
	case "conn":
		err := m.cl.Connect()
		if err != nil && w.healthy {
			w.fail("connecting failed on a healthy network: %v", err)
		}
	case "close":
		if !w.healthy {
			m.cl.Close()
		}
	case "isconn":
		m.cl.IsConnected()
	case "log":
		m.cl.LogMode(false)
	case "nounit":
		id := byte(o.a(0))
		if w.byID[id] == nil && id <= 247 && len(w.units) > 0 {
			u := w.units[clamp(o.a(2), 0, 1000)%len(w.units)]
			x := o.a(1) & 3
			if id == 0 && x == 0 {
				x = 1
			}
			a := uint16(u.start[bHold])
			c := &e2eCall{m: m, op: "nounit", unit: id}
			switch x { // what a unit that is there would take
			case 1:
				c.pdu = cat([]byte{6}, be(a, 0xbeef))
				w.run(c, func() { c.err = m.cl.WriteSingleRegister(id, a, 0xbeef) })
			case 2:
				a = uint16(u.start[bCoil])
				c.pdu = cat([]byte{5}, be(a, 0xff00))
				w.run(c, func() { c.err = m.cl.WriteSingleCoil(id, a, true) })
			case 3:
				c.pdu = cat([]byte{16}, be(a, 1), []byte{2, 0xbe, 0xef})
				w.run(c, func() { c.err = m.cl.WriteMultipleRegisters(id, a, 1, []uint16{0xbeef}) })
			default:
				c.pdu = stdPDU(3, a, 1, 0)
				w.run(c, func() { _, c.err = m.cl.ReadHoldingRegisters(id, a, 1) })
			}
			if c.err == nil || exception(c.err) >= 0 {
				w.fail("%v ended with %v although the slave has no such unit", c, c.err)
			}
		}
	default:
		if _, ok := e2eFC[o.K]; ok || o.K == "send" || o.K == "pdu" || o.K == "raw" {
			w.call(m, o)
		}
	}
}

func (w *e2eWorld) run(c *e2eCall, f func()) {
	m := c.m
	c.task = simrt.CurrentID()
	m.active = append(m.active, c)
	simrt.Logf("%v", c)
	simrt.Mix(0xe2e, uint64(c.unit)<<16|uint64(len(c.pdu)))
	c.inv = simrt.Seq()
	f()
	c.ret = simrt.Seq()
	for i, x := range m.active {
		if x == c {
			m.active = append(m.active[:i:i], m.active[i+1:]...)
			break
		}
	}
	simrt.Logf("%v: err=%v reply % x", c, c.err, short(c.rsp))
}

func (w *e2eWorld) call(m *e2eMaster, o Op) *e2eCall {
	if len(w.units) == 0 {
		return nil
	}
	u := w.units[clamp(o.a(0), 0, 1000)%len(w.units)]
	cl := m.cl
	fc := e2eFC[o.K]
	if fc == 0 {
		if fc = clamp(o.a(1), 1, 127); bankOf(byte(fc)) < 0 {
			fc = 3
		}
	}
	b := bankOf(byte(fc))
	if b < 0 {
		b = bHold
	}
	q := clamp(o.a(3), 1, e2eMax(fc))
	addr := uint16(clamp(u.start[b]+o.a(2), 0, 65535))
	salt := uint64(o.a(4))
	addr2, q2 := uint16(clamp(u.start[b]+o.a(5), 0, 65535)), clamp(o.a(6), 1, 125)
	unit := u.id
	q16 := uint16(q)
	if unit == 0 { // the typed calls refuse it, but for plain writes
		switch o.K {
		case "wsc", "wmc", "wsr", "wmr", "wmrb", "send", "pdu", "raw":
		default:
			o.K = "pdu"
		}
	}
	c := &e2eCall{m: m, op: o.K, unit: unit, u: u}
	switch fc {
	case 5:
		q = int(salt & 1)
		c.pdu = stdPDU(5, addr, q, salt)
	case 23:
		v := payload(salt, 2*q)
		c.pdu = cat([]byte{23}, be(addr2, uint16(q2), addr, q16), []byte{byte(2 * q)}, v)
	default:
		c.pdu = stdPDU(byte(fc), addr, q, salt)
	}
	var res []byte
	var res16 []uint16
	var run func()
	switch o.K {
	case "rc":
		run = func() { res, c.err = cl.ReadCoils(unit, addr, q16) }
	case "rdi":
		run = func() { res, c.err = cl.ReadDiscreteInputs(unit, addr, q16) }
	case "wsc":
		run = func() { c.err = cl.WriteSingleCoil(unit, addr, q == 1) }
	case "wmc":
		v := append([]byte(nil), c.pdu[6:]...)
		if o.a(7) > 0 { // more than is needed is allowed
			v = append(v, payload(salt+1, o.a(7))...)
		}
		run = func() { c.err = cl.WriteMultipleCoils(unit, addr, q16, v) }
	case "rir":
		run = func() { res16, c.err = cl.ReadInputRegisters(unit, addr, q16) }
	case "rirb":
		run = func() { res, c.err = cl.ReadInputRegistersBytes(unit, addr, q16) }
	case "rhr":
		run = func() { res16, c.err = cl.ReadHoldingRegisters(unit, addr, q16) }
	case "rhrb":
		run = func() { res, c.err = cl.ReadHoldingRegistersBytes(unit, addr, q16) }
	case "wsr":
		run = func() { c.err = cl.WriteSingleRegister(unit, addr, uint16(salt)) }
	case "wmr":
		var v []uint16
		for i := 6; i+1 < len(c.pdu); i += 2 {
			v = append(v, u16(c.pdu[i:]))
		}
		run = func() { c.err = cl.WriteMultipleRegisters(unit, addr, q16, v) }
	case "wmrb":
		run = func() { c.err = cl.WriteMultipleRegistersBytes(unit, addr, q16, append([]byte(nil), c.pdu[6:]...)) }
	case "mwr":
		and, or := uint16(salt), uint16(salt>>8)
		c.pdu = cat([]byte{22}, be(addr, and, or))
		run = func() { c.err = cl.MaskWriteRegister(unit, addr, and, or) }
	case "rwm":
		run = func() {
			res16, c.err = cl.ReadWriteMultipleRegisters(unit, addr2, uint16(q2), addr, q16, append([]byte(nil), c.pdu[10:]...))
		}
	case "rwmb":
		run = func() {
			res, c.err = cl.ReadWriteMultipleRegistersBytes(unit, addr2, uint16(q2), addr, q16, append([]byte(nil), c.pdu[10:]...))
		}
	case "fifo":
		run = func() { res, c.err = cl.ReadFIFOQueue(unit, addr) }
	case "send":
		run = func() {
			r, err := cl.Send(unit, modbus.ProtocolDataUnit{FuncCode: c.pdu[0], Data: append([]byte(nil), c.pdu[1:]...)})
			if c.err = err; err == nil {
				c.rsp = cat([]byte{r.FuncCode}, r.Data)
			}
		}
	case "pdu":
		run = func() {
			r, err := cl.SendPdu(unit, append([]byte(nil), c.pdu...))
			if c.err = err; err == nil {
				c.rsp = append([]byte(nil), r...)
			}
		}
	case "raw":
		f := tcpADU(uint16(salt), unit, c.pdu)
		run = func() {
			r, err := cl.SendRawFrame(f)
			if c.err = err; err == nil {
				if len(r) < 9 || string(r[:4]) != string(f[:4]) || int(u16(r[4:])) != len(r)-6 || r[6] != unit {
					w.fail("%v returned the frame % x", c, short(r))
				}
				c.rsp = append([]byte(nil), r[clamp(7, 0, len(r)):]...)
			}
		}
	default:
		return nil
	}
	w.run(c, run)
	if res16 != nil {
		res = be(res16...)
	}
	if c.err == nil {
		switch o.K {
		case "rc", "rdi", "rir", "rirb", "rhr", "rhrb", "rwm", "rwmb":
			c.rsp = cat(c.pdu[:1], []byte{byte(len(res))}, res)
		case "wsc", "wmc", "wsr", "wmr", "wmrb":
			c.rsp = append([]byte(nil), c.pdu[:5]...)
		case "mwr":
			c.rsp = append([]byte(nil), c.pdu...)
		case "fifo":
			w.fail("%v succeeded, the slave has no such function", c)
		}
	}
	w.judge(c)
	return c
}

func (w *e2eWorld) judge(c *e2eCall) {
	s := c.u.meaning(c.pdu)
	code := -1
	if c.err != nil {
		code = exception(c.err)
	}
	raw := c.op == "raw" && c.err == nil && len(c.rsp) == 2 && c.rsp[0] == c.pdu[0]|0x80
	if raw {
		code = int(c.rsp[1])
	}
	if c.err == nil && c.sent == 0 && !c.vague {
		w.fail("%v succeeded without a request", c)
		return
	}
	want := 1
	if s.bank >= 0 {
		want = 2
	}
	switch {
	case code >= 0 && s.valid:
		w.fail("%v, which is valid, failed with exception %d", c, code)
	case code >= 0 && code != want:
		w.fail("%v failed with exception %d, right were %d", c, code, want)
	case code >= 0:
		simrt.Probe("e2e-exception")
	case c.err == nil && !s.valid:
		w.fail("%v, which reaches out of the bank (%d+%d), succeeded", c, c.u.start[max0(s.bank)], c.u.qty[max0(s.bank)])
	case c.err != nil && w.healthy:
		w.fail("%v failed on a healthy network: %v", c, c.err)
	case c.err != nil:
		simrt.Probe("e2e-failed")
		if c.sent > 0 || c.vague {
			c.u.request(s, c.inv, never, nil, c.String()+", which failed")
		}
	default:
		simrt.Probe("e2e-ok")
		c.u.request(s, c.inv, c.ret, c.rsp, fmt.Sprintf("%v, answered % x", c, short(c.rsp)))
	}
}

func max0(b int) int {
	if b < 0 {
		return 0
	}
	return b
}

func (w *e2eWorld) finish() {
	// everything becomes healthy
	w.healed = true
	n := simnet.N
	n.GapMax = 0
	if n.Window < 300 {
		n.Window = 300
	}
	if n.LatMax > w.T/8 {
		n.LatMax = w.T / 8
	}
	n.SegMode = 0
	n.ClearFaults()
	w.heal.WakeAll()
	for w.closing {
		w.heal.Wait("restart")
	}
	for _, m := range w.ms {
		if !w.healthy {
			m.cl.Close()
		}
		for ui, u := range w.units {
			for b := 0; b < 4; b++ {
				if u.qty[b] == 0 {
					continue
				}
				k := []string{"rc", "rdi", "rirb", "rhrb"}[b]
				q := clamp(u.qty[b], 1, e2eMax(e2eFC[k]))
				st := simrt.StallMark()
				c := w.call(m, Op{K: k, A: []int{ui, 0, u.qty[b] - q, q}})
				if c.err != nil && simrt.StalledFor() == st {
					w.fail("%v failed although everything is healthy: %v", c, c.err)
				}
			}
		}
	}
	for _, u := range w.units {
		u.readAll(simrt.Seq, w.fail)
	}
	for _, m := range w.ms {
		m.cl.Close()
	}
	w.srv.Close()
	for _, u := range w.units {
		u.readAll(simrt.Seq, w.fail)
		u.check(w.fail)
	}
}
