package main

import (
	"fmt"
	"net"
	"syscall"
	"time"
	"unsafe"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// Scenario "cycle", property S09: one slave is started, closed and started
// again, with failed starts in between.

func init() { scenarios["cycle"] = scenario{genCycle, runCycle} }

const cycPort = 502

func genCycle(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("cycle")
	r.netKnobs(p)
	p.Pol = r.policy(true)
	p.Knobs["R"] = r.pick(200, 400, 1000, 3000)
	p.Knobs["W"] = r.pick(100, 500, 1500)
	if r.p(0.1) {
		p.Knobs["log"] = 1
	}
	for i := r.in(1, 3); i > 0; i-- {
		p.Lists["units"] = append(p.Lists["units"], Op{K: "unit", A: []int{r.pick(1, 2, 9, 17, 247, 255, 0), r.n(50), r.in(1, 20), r.n(50), r.in(0, 9), r.n(50), r.in(0, 4), r.n(50), r.in(1, 5)}})
	}
	nc := r.in(2, 4)
	for i := 0; i < nc; i++ {
		var acts []Op
		// A = delay before the start, failed start before it, time open, closers, first closer's lead, R, W, more units
		c := Op{K: "cyc", A: []int{r.pick(0, 0, 0, 1, 20, 1500), r.w(6, 2, 1, 1), r.pick(0, 1, 10, 50, 300, 1500, 4000), r.w(6, 2, 1), r.n(4), 0, 0, 0}}
		if r.p(0.2) {
			c.A[5] = r.pick(150, 600, 2500)
		}
		if r.p(0.2) {
			c.A[6] = r.pick(150, 800)
		}
		if r.p(0.2) {
			c.A[7] = r.in(1, 2)
		}
		p.Lists["cyc"] = append(p.Lists["cyc"], c)
		for k := r.in(0, 3); k > 0; k-- {
			switch r.w(6, 2, 2, 1) {
			case 0:
				acts = append(acts, Op{K: "client", A: []int{r.pick(0, 0, 1, 10, 100), r.n(3), r.in(1, 12), r.pick(0, 0, 1, 10, 60), r.n(1 << 20), r.n(4)}})
			case 1:
				acts = append(acts, Op{K: "idle", A: []int{r.pick(0, 1, 10, 100), r.n(2), r.n(12)}})
			case 2:
				acts = append(acts, Op{K: "acc", A: []int{r.pick(0, 1, 10, 60, 200, 1400), r.n(3), r.in(1, 12), r.pick(0, 0, 100, 800)}})
			case 3:
				if r.p(0.4) {
					acts = append(acts, Op{K: "log", A: []int{r.pick(0, 1, 20, 200), r.n(2)}})
					break
				}
				acts = append(acts, Op{K: "dup", A: []int{r.pick(0, 1, 20, 200), r.n(2)}})
			}
		}
		p.Acts = append(p.Acts, acts)
	}
	return p
}

type cycGen struct {
	n         int
	ret       bool
	retAt     int64
	err       error
	closing   bool
	closedAt  int64
	closedSeq int64
	failEnd   int64
	l         *simnet.Listener
}

type cycReq struct {
	g        *cycGen
	u        *unitObj
	pdu      []byte
	inv, ret int64
	reply    []byte
	after    bool // its connection was opened when a Close had been called
}

type cycWorld struct {
	p    *Plan
	s    *modbus.TCPServer
	R, W int64
	us   []*unitObj
	byID map[byte]bool
	reqs []*cycReq
	gens []*cycGen
	live int // clients at work
	q    simrt.WaitQ
	race int64 // orders the settings after Close
}

func (w *cycWorld) addUnit(o Op) {
	id := byte(o.a(0))
	if w.byID[id] || len(o.A) < 1 {
		return
	}
	w.byID[id] = true
	u := newUnit(len(w.us), id, o.A[1:])
	w.us = append(w.us, u)
	w.s.AddNodes(u.node)
}

func runCycle(p *Plan, prop string) {
	simnet.New()
	applyNet(p)
	w := &cycWorld{p: p, byID: map[byte]bool{}}
	w.s = modbus.NewTCPServer()
	w.set(p.k("R", 200, 100000), p.k("W", 20, 100000))
	if p.k("log", 0, 1) == 1 {
		w.s.LogMode(true)
	}
	for i := range p.Lists["units"] {
		w.addUnit(p.at("units", i))
	}
	for i := 0; i < p.n("cyc"); i++ {
		if i < 100 {
			var acts []Op
			if j := i % len(p.Lists["cyc"]); j < len(p.Acts) {
				acts = p.Acts[j]
			}
			w.cycle(p.at("cyc", i), acts)
		}
	}
	// everything is over
	simrt.Sleep(2*w.R + w.W + 1500*ms + simrt.StalledFor())
	for _, g := range w.gens {
		if !g.ret {
			bad("S09,S05", "ListenAndServe number %d has not returned %v after Close", g.n, time.Duration(simrt.Now()-g.closedAt))
		}
	}
	for _, c := range simnet.OpenApp() {
		bad("S09,S05", "connection %d is still open after the last Close", c.ID)
	}
	w.history()
}

func (w *cycWorld) set(r, wr int) {
	if r > 0 {
		w.R = int64(r) * ms
		w.s.SetReadTimeout(time.Duration(w.R))
	}
	if wr > 0 {
		w.W = int64(wr) * ms
		w.s.SetWriteTimeout(time.Duration(w.W))
	}
}

// begin calls ListenAndServe.
func (w *cycWorld) begin(addr string) *cycGen {
	g := &cycGen{n: len(w.gens)}
	simrt.SpawnApp(func() {
		err := w.s.ListenAndServe(addr)
		g.ret, g.retAt, g.err = true, simrt.Now(), err
		simrt.Logf("ListenAndServe %d returned %v", g.n, err)
		w.q.WakeAll()
	})
	return g
}

// must runs f and insists on its end within d.
func (w *cycWorld) must(what string, d int64, f func()) bool {
	done := false
	t0, st := simrt.Now(), simrt.StallMark()
	simrt.Spawn("must", func() {
		f()
		done = true
		w.q.WakeAll()
	})
	for !done {
		lim := t0 + d + simrt.StalledFor() - st + ms
		if simrt.Now() >= lim {
			bad("S09,S05", "%s has not come back after %v", what, time.Duration(simrt.Now()-t0))
			return false
		}
		w.q.WaitUntil("must", lim)
	}
	return true
}

// failedStart starts the slave where it cannot listen.
func (w *cycWorld) failedStart(kind int) {
	addr := fmt.Sprintf(":%d", cycPort)
	var l *simnet.Listener
	if kind == 2 {
		addr = "127.0.0.1:nowhere"
	} else {
		var err error
		if l, err = simnet.Listen(addr, false); err != nil {
			bad("S09,S05", "after Close the port is not free: %v", err)
			return
		}
	}
	simrt.Fault("listen-fails")
	var err error
	if !w.must("a ListenAndServe that cannot listen", 0, func() { err = w.s.ListenAndServe(addr) }) {
		return
	}
	if err == nil {
		bad("S09", "a ListenAndServe that cannot listen returns no error")
	}
	if kind == 3 {
		w.must("Close of a slave that could not start", 0, func() { w.s.Close() })
	}
	if l != nil {
		l.Close()
	}
}

func (w *cycWorld) cycle(o Op, acts []Op) {
	if o.a(5) > 0 {
		w.set(clamp(o.a(5), 150, 100000), 0)
	}
	w.set(0, clamp(o.a(6), 0, 100000))
	for i := 0; i < clamp(o.a(7), 0, 3); i++ {
		w.addUnit(Op{K: "unit", A: []int{30 + len(w.us), 10 * len(w.us), 5, 0, 2, 0, 1, 3, 4}})
	}
	if k := clamp(o.a(1), 0, 3); k > 0 {
		w.failedStart(k)
	}
	simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
	g := w.begin(fmt.Sprintf(":%d", cycPort))
	g.n = len(w.gens)
	w.gens = append(w.gens, g)
	t0, st := simrt.Now(), simrt.StallMark()
	for simnet.ListenerOn(cycPort) == nil {
		if g.ret || simrt.Now() > t0+100*ms+simrt.StalledFor()-st {
			break
		}
		simrt.Sleep(100000)
	}
	if g.l = simnet.ListenerOn(cycPort); g.l == nil {
		bad("S09", "start number %d: the slave does not listen (ListenAndServe returned: %v, %v)", g.n+1, g.ret, g.err)
		return
	}
	if g.n > 0 {
		simrt.Probe("restarted")
		if !w.gens[g.n-1].ret {
			simrt.Probe("restarted-before-return")
		}
	}
	R, W := w.R, w.W
	w.live = 0
	for i, a := range acts {
		a := a
		if i > 8 {
			break
		}
		w.live++
		simrt.Spawn("cyc-"+a.K, func() {
			simrt.Sleep(int64(clamp(a.a(0), 0, 100000)) * ms)
			switch {
			case g.closing:
			case a.K == "client":
				w.client(g, a)
			case a.K == "idle":
				w.idle(g, a, R, W)
			case a.K == "acc":
				w.accept(g, a)
			case a.K == "log":
				w.s.LogMode(a.a(1) == 1)
			case a.K == "dup":
				var err error
				ad := []string{fmt.Sprintf(":%d", cycPort), "127.0.0.1:nowhere"}[clamp(a.a(1), 0, 1)]
				if g.closing {
					break
				}
				if ad[0] != ':' {
					if w.must("a second ListenAndServe that cannot listen", 0, func() { err = w.s.ListenAndServe(ad) }) && err == nil {
						bad("S09", "a ListenAndServe that cannot listen returns no error")
					}
					simrt.Fault("listen-fails")
				}
			}
			w.live--
			w.q.WakeAll()
		})
	}
	until := simrt.Now() + int64(clamp(o.a(2), 0, 100000))*ms
	for simrt.Now() < until && !g.l.Closed() && !g.ret {
		w.q.WaitUntil("open", until)
	}
	w.stands(g)
	// and the end
	n := clamp(o.a(3), 0, 2) + 1
	left := n
	for i := 0; i < n; i++ {
		i := i
		simrt.Spawn("closer", func() {
			if i > 0 {
				simrt.Sleep(int64(clamp(o.a(4), 0, 1000)) * ms * int64(i))
			}
			inv, st := simrt.Now(), simrt.StallMark()
			w.stands(g)
			g.closing = true
			err := w.s.Close()
			if d := simrt.Now() - inv; d > 2*R+W+simrt.StalledFor()-st+ms {
				bad("S09,S05", "Close number %d took %v; the read timeout is %v, the write timeout %v", g.n+1, time.Duration(d), time.Duration(R), time.Duration(W))
			}
			if err != nil {
				bad("S09,S05", "Close returned %v", err)
			}
			left--
			simrt.RaceReleaseMerge(unsafe.Pointer(&w.race))
			w.q.WakeAll()
		})
	}
	t0, st = simrt.Now(), simrt.StallMark()
	for left > 0 {
		lim := t0 + int64(n)*(2*R+W+1000*ms) + simrt.StalledFor() - st
		if simrt.Now() >= lim {
			bad("S09,S05", "Close number %d does not return", g.n+1)
			return
		}
		w.q.WaitUntil("closers", lim)
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.race))
	simrt.Atomic(func() {
		g.closedAt, g.closedSeq = simrt.Now(), simrt.Seq()
		if !g.l.Closed() {
			bad("S09,S05", "Close number %d has returned and the port is still open", g.n+1)
		}
	})
	// nothing changes the registers from here to the next start
	w.snapshot()
	if w.live > 0 && o.a(4)&1 == 1 {
		for w.live > 0 { // everyone sees it
			w.q.Wait("clients")
		}
		w.snapshot()
	}
	for _, h := range w.gens[:g.n] {
		if !h.ret && simrt.Now() > h.closedAt+2*R+W+1500*ms+simrt.StalledFor() {
			bad("S09,S05", "ListenAndServe number %d has not returned %v after Close", h.n+1, time.Duration(simrt.Now()-h.closedAt))
		}
	}
}

// stands: a started slave listens until Close is called.
func (w *cycWorld) stands(g *cycGen) {
	simrt.Atomic(func() {
		if g.closing {
			return
		}
		if g.l.Closed() {
			bad("S09", "start number %d: the slave has stopped listening although nobody closed it since", g.n+1)
		}
		if g.ret {
			bad("S09,S06", "start number %d: ListenAndServe returned %v although nobody closed the slave", g.n+1, g.err)
		}
	})
}

func (w *cycWorld) snapshot() {
	for _, u := range w.us {
		u.readAll(simrt.Seq, func(f string, a ...interface{}) { bad("S09,S02", f, a...) })
	}
}

func (w *cycWorld) accept(g *cycGen, o Op) {
	errs := []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.EINTR}
	e := errs[clamp(o.a(1), 0, 2)]
	for i := clamp(o.a(2), 0, 20); i > 0; i-- {
		g.l.Errs = append(g.l.Errs, e)
		g.failEnd = max(g.failEnd, simrt.Now()+1000*ms*int64(len(g.l.Errs)))
	}
	if d := clamp(o.a(3), 0, 10000); d > 0 {
		g.l.FailUntil, g.l.FailErr = simrt.Now()+int64(d)*ms, syscall.EMFILE
		g.failEnd = max(g.failEnd, g.l.FailUntil+1000*ms)
	}
	simrt.Atomic(func() { g.l.Kick() })
}

func (w *cycWorld) dial(g *cycGen) *simnet.Conn {
	c, err := simnet.Dial(fmt.Sprintf("127.0.0.1:%d", cycPort), false, 0)
	if err != nil {
		if !g.closing {
			bad("S09", "start number %d: the slave takes no connection although nobody closed it since: %v", g.n+1, err)
		}
		return nil
	}
	return c
}

// client makes requests and expects the replies while the slave is open.
// A = _, unit, requests, pause, salt, drops.
func (w *cycWorld) client(g *cycGen, o Op) {
	c := w.dial(g)
	if c == nil {
		return
	}
	defer func() {
		if c != nil {
			c.Close()
		}
	}()
	after := g.closing
	st := simrt.StallMark()
	salt := uint64(o.a(4))
	for i := 0; i < clamp(o.a(2), 1, 40) && !g.closing; i++ {
		z := mix(salt + uint64(i))
		u := w.us[(o.a(1)+int(z%2))%len(w.us)]
		fc := []byte{1, 3, 5, 6, 15, 16, 22, 23, 2, 4, 3, 16}[z>>8%12]
		b := bankOf(fc)
		if u.qty[b] == 0 {
			continue
		}
		off := int(z>>16) % u.qty[b]
		q := 1 + int(z>>32)%(u.qty[b]-off)
		pdu := stdPDU(fc, uint16(u.start[b]+off), q, z>>3)
		if fc == 23 { // stdPDU reads and writes somewhere else
			copy(pdu[5:], be(uint16(u.start[b]+off)))
		}
		if !u.meaning(pdu).valid {
			continue
		}
		rq := &cycReq{g: g, u: u, pdu: pdu, ret: never, after: after}
		rq.inv = simrt.Seq()
		w.reqs = append(w.reqs, rq)
		tid := uint16(z >> 40)
		f := tcpADU(tid, u.id, pdu)
		n := len(f)
		if z>>50&7 == 0 { // in two pieces
			n = 1 + int(z>>53)%len(f)
		}
		t0 := simrt.Now()
		c.Write(f[:n])
		if n < len(f) {
			simrt.Sleep(3 * ms)
			c.Write(f[n:])
		}
		got, err := w.reply(c, func() int64 {
			return max(t0, g.failEnd) + 3000*ms + simrt.StalledFor() - st
		}, g)
		if err != nil {
			simrt.Atomic(func() {
				if !g.closing && simrt.StalledFor() == st { // a slave that stalls may find its read timeout passed
					bad("S09", "start number %d: request % x of unit %d has no reply although nobody closed the slave since: %v", g.n+1, pdu, u.id, err)
				}
			})
			return
		}
		if len(got) < 9 || u16(got) != tid || u16(got[2:]) != 0 || got[6] != u.id {
			bad("S09,S01", "start number %d: request % x of unit %d, id %04x, is answered % x", g.n+1, pdu, u.id, tid, got)
			return
		}
		rq.ret, rq.reply = simrt.Seq(), got[7:]
		simrt.Probe("answered")
		if g.n > 0 {
			simrt.Probe("answered-after-restart")
		}
		if o.a(5) == 1 && z>>44%4 == 0 && !g.closing {
			c.Close()
			after = g.closing
			if c = w.dial(g); c == nil {
				return
			}
		}
		simrt.Sleep(int64(clamp(o.a(3), 0, 100)) * ms)
	}
	if o.a(5) == 2 { // stays
		for !g.closing && !c.Peer().Closed() && simrt.Now() < g.failEnd+10000*ms {
			simrt.Sleep(20 * ms)
		}
	}
}

func (w *cycWorld) reply(c *simnet.Conn, limit func() int64, g *cycGen) ([]byte, error) {
	b := make([]byte, 300)
	n := 0
	for {
		d := limit() - simrt.Now()
		if d <= 0 {
			return nil, fmt.Errorf("timeout")
		}
		if d > 50*ms && !g.closing {
			d = 50 * ms
		}
		c.SetReadDeadline(simrt.WallNow().Add(time.Duration(d)))
		k, err := c.Read(b[n:])
		n += k
		if n >= 6 && n >= 6+int(u16(b[4:])) {
			return b[:n], nil
		}
		if ne, ok := err.(net.Error); err != nil && !(ok && ne.Timeout()) {
			return nil, err
		}
	}
}

// idle connects and falls silent, perhaps in the middle of a request.
func (w *cycWorld) idle(g *cycGen, o Op, R, W int64) {
	c := w.dial(g)
	if c == nil {
		return
	}
	defer c.Close()
	st := simrt.StallMark()
	if o.a(1) == 1 {
		c.Write(tcpADU(1, w.us[0].id, []byte{6, 0, 0, 0, 1})[:clamp(o.a(2), 0, 11)])
	}
	a := c.Peer()
	t0 := simrt.Now()
	for !g.closing && !a.Closed() {
		if simrt.Now() > max(t0, g.failEnd)+R+1500*ms+simrt.StalledFor()-st {
			bad("S09,S04", "start number %d: a silent client is not cut off after %v, the read timeout is %v", g.n+1, time.Duration(simrt.Now()-t0), time.Duration(R))
			return
		}
		simrt.Sleep(10 * ms)
	}
	simrt.Atomic(func() {
		if !g.closing && a.CloseAt < t0+R-ms && o.a(1) == 0 {
			bad("S09,S04", "start number %d: a silent client is cut off after %v, the read timeout is %v", g.n+1, time.Duration(a.CloseAt-t0), time.Duration(R))
		}
		if !g.closing {
			simrt.Probe("idle-cut")
		}
	})
}

func (w *cycWorld) history() {
	for _, r := range w.reqs {
		m := r.u.meaning(r.pdu)
		desc := fmt.Sprintf("request % x of start %d", short(r.pdu), r.g.n+1)
		if r.reply != nil {
			if r.reply[0] != r.pdu[0] {
				bad("S09,S01", "%s, which is valid, is answered % x", desc, short(r.reply))
			}
			r.u.request(m, r.inv, r.ret, r.reply, desc+fmt.Sprintf(" answered % x", short(r.reply)))
			continue
		}
		ret := never
		if !r.after { // its connection is of this start and ends with it
			ret = r.g.closedSeq
			if r.inv > ret {
				continue
			}
		}
		if m.write {
			m := m
			r.u.record(m.bank, &linOp{inv: r.inv, ret: ret, opt: true, desc: desc, step: func(s []uint16) ([]uint16, bool) {
				n, _ := m.apply(s)
				return n, true
			}})
		}
	}
	for _, u := range w.us {
		u.layout()
		u.readAll(simrt.Seq, func(f string, a ...interface{}) { bad("S09,S02", f, a...) })
		u.check(func(f string, a ...interface{}) { bad("S09,S02", f, a...) })
	}
}
