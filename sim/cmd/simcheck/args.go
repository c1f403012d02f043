package main

// Scenario "args": masters of every kind called with arguments at, inside and
// beyond the limits. N03: what is outside is refused and nothing of it gets
// out. N02: what is inside crosses the wire unaltered, both ways.

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

func init() { scenarios["args"] = scenario{genArgs, runArgs} }

var argOps = []string{"rc", "rdi", "wsc", "wmc", "rir", "rirb", "rhr", "rhrb", "wsr", "wmr", "wmrb", "rwm", "rwmb", "mwr", "fifo", "send", "pdu", "raw"}

func qtyMax(k string) int {
	switch k {
	case "rc", "rdi":
		return 2000
	case "wmc":
		return 1968
	case "wmr", "wmrb":
		return 123
	}
	return 125
}

func genArgs(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("args")
	r.netKnobs(p)
	p.Pol = r.policy(false)
	p.Knobs["kind"] = r.n(3)
	p.Knobs["baud"] = r.pick(0, 9600, 115200)
	p.Knobs["T"] = 60000
	lo, hi := 1, 247
	if r.p(0.5) {
		lo, hi = r.pick(0, 1, 2, 10, 200, 247, 255), r.pick(0, 1, 10, 100, 247, 248, 254, 255)
	}
	p.Knobs["custom"] = r.n(2)
	if p.Knobs["custom"] == 0 {
		lo, hi = 1, 247
	}
	p.Knobs["lo"], p.Knobs["hi"] = lo, hi
	if prop == "N03" {
		p.Knobs["short-raw"] = 1
		p.Knobs["down"] = r.w(3, 1, 1) // the device answers, cannot be reached, is silent
		p.Knobs["pre"] = r.n(2)        // connected beforehand
		if p.Knobs["down"] > 0 {
			p.Knobs["T"] = r.pick(50, 300)
		}
	}
	if prop == "L01" {
		p.Knobs["log"] = r.in(1, 3) // 1: a provider, 2: enabled from the start, 3: first enabled, then given
		p.Knobs["log-extra"] = r.n(4)
		p.Knobs["log-slow"] = r.pick(0, 0, 1, 30)
	}
	na := r.pick(1, 1, 2, 3)
	nops := r.in(1, 6)
	if deep {
		nops += r.n(8)
	}
	for a := 0; a < na; a++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			k := argOps[r.n(len(argOps))]
			if prop == "N02" && r.p(0.6) {
				k = r.str("send", "pdu", "send", "pdu", "raw")
			}
			unit := r.pick(1, 2, 17, 247, r.n(256))
			if prop == "N03" && r.p(0.5) {
				unit = clamp(r.pick(0, 1, lo-1, lo, lo+1, hi-1, hi, hi+1, 247, 248, 255, r.n(256)), 0, 255)
			}
			max := qtyMax(k)
			q := r.in(1, max)
			q2 := r.in(1, 121)
			dv := 0
			if prop == "N03" {
				if r.p(0.5) {
					q = r.pick(0, 1, 2, max-1, max, max+1, max+2, 255, 256, 257, 32768, 32769, 32768+r.in(1, max), 65535, r.n(65536))
				}
				if r.p(0.4) {
					q2 = r.pick(0, 1, 121, 122, 123, 125, 128, 129, 255, 32768, 32769, 65535)
				}
				if r.p(0.3) {
					dv = r.pick(-1, 1, -2, 2, -1000, 256, 65536)
				}
			}
			if prop == "L01" && r.p(0.5) {
				ops = append(ops, Op{K: r.str("log", "log", "log", "olog", "close", "say"), A: []int{r.n(4), r.n(1 << 16)}})
			}
			fc := r.pick(1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24, r.in(1, 127), r.in(1, 127))
			ln := r.pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 250, 251, 252, 253, 254, 255, 256, r.n(253), r.n(253), r.n(253), r.n(600))
			std := r.n(2) // a request of the function's own shape
			ops = append(ops, Op{K: k, A: []int{unit, r.n(65536), q, q2, dv, r.n(1 << 16), fc, ln, std}})
			if r.p(0.1) {
				ops = append(ops, Op{K: "sleep", A: []int{r.n(50)}})
			}
		}
		if prop == "L01" && r.p(0.4) && len(ops) > 1 { // the same call again
			o := ops[r.n(len(ops))]
			ops = append(ops, o, o)
		}
		p.Acts = append(p.Acts, ops)
	}
	for i := 0; i < na*nops; i++ {
		// what the device answers: how long a body where it is free to choose
		p.Lists["reply"] = append(p.Lists["reply"], Op{K: r.str("ok", "ok", "ok", "ok", "exc"), A: []int{r.pick(1, 2, 3, 251, 252, 252, r.in(1, 252)), r.n(1 << 16), drop(r, prop)}})
	}
	return p
}

// drop decides whether the first request of a kind goes unanswered.
func drop(r *Rng, prop string) int {
	if prop == "L01" && r.p(0.15) {
		return 1
	}
	return 0
}

type argCall struct {
	op    Op
	unit  byte
	legal bool
	lax   bool // refused or carried out, both are right
	pdu   []byte
	alt   []byte // another way to send it
	raw   []byte // the whole frame, where the caller makes it
	sent  bool
	rsp   []byte // reply PDU the device sent

	mayLog, mustLog bool
	drop            bool   // its first exchange got no answer
	from            int    // messages logged before it
	tx, rx          []byte // its frames
}

func (c *argCall) String() string {
	return fmt.Sprintf("%s unit %d %v", c.op.K, c.unit, c.op.A[1:])
}

type argWorld struct {
	p      *Plan
	kind   int
	down   int
	lo, hi int
	cl     modbus.Client
	active []*argCall
	conns  int // Connect calls in progress
	buf    []byte
	alone  bool

	logs    []string
	logging int // whether logging is on: 0, 1, or 2 if calls of LogMode overlapped
	modes   int // calls of LogMode in progress
	dropped map[uint64]bool
	says    []*saying
	nsay    int
}

// saying is a message the application logs through the master.
type saying struct {
	kind, text      string
	mayLog, mustLog bool
	got             int
}

// logSink is the log provider of a master.
type logSink struct {
	w    *argWorld
	name string
	use  bool // the one that is to be used
}

func (s *logSink) Debugf(format string, v ...interface{}) { s.log("D", fmt.Sprintf(format, v...)) }
func (s *logSink) Errorf(format string, v ...interface{}) { s.log("E", fmt.Sprintf(format, v...)) }

func (s *logSink) log(kind, m string) {
	w := s.w
	simrt.Probe("log-message")
	if !s.use {
		bad("L01", "%s gets the message %q of another master, or of one that was given a later provider", s.name, m)
		return
	}
	may := w.logging != 0 || w.modes > 0
	for _, c := range w.active {
		may = may || c.mayLog
	}
	for _, c := range w.says {
		may = may || c.mayLog
		if c.text == m {
			if c.kind != kind {
				bad("L01", "the application's message %q of level %s reaches the provider as one of level %s", m, c.kind, kind)
			}
			c.got++
		}
	}
	if !may {
		bad("L01", "the message %q is logged while logging is off (%v)", m, w.active)
	}
	w.logs = append(w.logs, strings.ToLower(strings.ReplaceAll(m, " ", "")))
	if d := w.p.k("log-slow", 0, 1000); d > 0 {
		simrt.Sleep(int64(d) * ms)
	}
}

func (w *argWorld) logMode(on bool) {
	simrt.Probe("log-mode")
	w.modes++
	for _, c := range w.active {
		c.mayLog = c.mayLog || on
		c.mustLog = c.mustLog && on
	}
	for _, c := range w.says {
		c.mayLog = c.mayLog || on
		c.mustLog = c.mustLog && on
	}
	before := w.modes
	w.cl.LogMode(on)
	w.modes--
	w.logging = 0
	if on {
		w.logging = 1
	}
	if before > 1 || w.modes > 0 {
		w.logging = 2
	}
}

// say logs a message of the application's own through the master.
func (w *argWorld) say(a, b int) {
	l, ok := w.cl.(interface {
		Debugf(string, ...interface{})
		Errorf(string, ...interface{})
	})
	if !ok {
		return
	}
	simrt.Probe("log-say")
	if a&2 == 0 || len(w.p.Acts) > 1 {
		w.nsay++ // else the same once more
	}
	c := &saying{kind: "D", mayLog: w.logging != 0 || w.modes > 0, mustLog: w.logging == 1 && w.modes == 0}
	c.text = fmt.Sprintf("note %d of 100%%: %q %x", w.nsay, "a", b)
	w.says = append(w.says, c)
	if a&1 == 1 {
		c.kind = "E"
		l.Errorf("note %d of 100%%: %q %x", w.nsay, "a", b)
	} else {
		l.Debugf("note %d of 100%%: %q %x", w.nsay, "a", b)
	}
	for i := range w.says {
		if w.says[i] == c {
			w.says = append(w.says[:i:i], w.says[i+1:]...)
			break
		}
	}
	if c.got > 1 || c.got == 0 && c.mustLog {
		bad("L01", "the application's message %q of level %s reaches the provider %d times", c.text, c.kind, c.got)
	}
}

// logged checks that the frames of a call have been logged.
func (w *argWorld) logged(c *argCall) {
	for i, b := range [][]byte{c.tx, c.rx} {
		want, ok := fmt.Sprintf("%x", b), false
		for _, m := range w.logs[c.from:] {
			ok = ok || strings.Contains(m, want)
		}
		if !ok {
			bad("L01", "logging is on during %v, but the %s frame % x is not in the log: %q", c, []string{"request", "reply"}[i], b, w.logs[c.from:])
		}
	}
	simrt.Probe("log-complete")
}

func (w *argWorld) adu(tid uint16, unit byte, pdu []byte) []byte {
	switch w.kind {
	case 0:
		return tcpADU(tid, unit, pdu)
	case 1:
		return rtuADU(unit, pdu)
	}
	return asciiADU(unit, pdu)
}

// opened is called whenever the master opens, or tries to open, its line.
func (w *argWorld) opened() {
	for _, c := range w.active {
		if c.legal || c.lax {
			return
		}
	}
	if w.conns == 0 {
		bad("N03", "the master opens its line although no valid call is in progress (%v)", w.active)
	}
}

func (w *argWorld) closed() {
	if w.alone && len(w.active) == 1 && !w.active[0].legal && !w.active[0].lax {
		bad("N03", "the master closes its line on the invalid call %v", w.active[0])
	}
}

// feed takes bytes the master sends and returns the reply to send, if any.
func (w *argWorld) feed(b []byte) []byte {
	w.buf = append(w.buf, b...)
	if w.kind == 0 {
		if len(w.buf) < 7 || len(w.buf) < 6+int(u16(w.buf[4:])) {
			return nil
		}
	}
	prefix := false
	var calls []*argCall // a raw frame is matched with its transaction identifier, so first
	for _, c := range w.active {
		if c.raw != nil && !c.sent {
			calls = append(calls, c)
		}
	}
	for _, c := range append(calls, w.active...) {
		if c.sent || !c.legal && !c.lax {
			continue
		}
		tid := uint16(0)
		if w.kind == 0 {
			tid = u16(w.buf)
		}
		for _, pdu := range [][]byte{c.pdu, c.alt} {
			if pdu == nil {
				continue
			}
			want := w.adu(tid, c.unit, pdu)
			if c.raw != nil {
				want = c.raw
			}
			if bytes.Equal(w.buf, want) {
				c.sent = true
				w.buf = nil
				simrt.Probe("frame-exact")
				rsp := w.answer(c, pdu, tid)
				c.tx, c.rx = want, rsp
				if c.raw != nil {
					simrt.Probe("raw-frame")
					c.raw = rsp
				}
				return rsp
			}
			prefix = prefix || bytes.HasPrefix(want, w.buf)
		}
	}
	if !prefix {
		bad("N02,N03,L01", "the master sends % x, which is not the frame of any valid call in progress (%v)", w.buf, w.active)
		w.buf = nil
	}
	return nil
}

// claim settles which of several calls with the same frame a frame was sent
// for: the one that ends first.
func (w *argWorld) claim(c *argCall) {
	for _, d := range w.active {
		if !d.sent || d.tx == nil || w.kind == 0 && len(d.tx) < 2 {
			continue
		}
		tid := uint16(0)
		if w.kind == 0 {
			tid = u16(d.tx)
		}
		for _, pdu := range [][]byte{c.pdu, c.alt} {
			if pdu == nil {
				continue
			}
			want := w.adu(tid, c.unit, pdu)
			if c.raw != nil {
				want = c.raw
			}
			if !bytes.Equal(d.tx, want) {
				continue
			}
			simrt.Probe("frame-claimed")
			c.sent, c.rsp, c.tx, c.rx = true, d.rsp, d.tx, d.rx
			if c.raw != nil {
				c.raw = d.rx
			}
			if d.raw != nil {
				d.raw = d.tx
			}
			d.sent, d.rsp, d.tx, d.rx = false, nil, nil, nil
			return
		}
	}
}

// answer is the device's reply to pdu. Calls in progress at once may send the
// same frame, so it depends on that frame alone.
func (w *argWorld) answer(c *argCall, pdu []byte, tid uint16) []byte {
	h := uint64(c.unit)
	for _, b := range pdu {
		h = mix(h<<8 ^ uint64(b))
	}
	o := w.p.at("reply", int(h%uint64(max(1, w.p.n("reply")))))
	if w.down == 2 {
		return nil
	}
	if o.a(2) == 1 && w.alone && !w.dropped[h] {
		if w.dropped == nil {
			w.dropped = map[uint64]bool{}
		}
		w.dropped[h], c.drop = true, true
		simrt.Probe("reply-dropped")
		return nil
	}
	salt := uint64(o.a(1))<<8 ^ h
	fc := pdu[0]
	free := true // what the reply looks like
	for _, d := range w.active {
		if d.unit == c.unit && (bytes.Equal(d.pdu, pdu) || bytes.Equal(d.alt, pdu)) {
			s := d.op.K == "send" || d.op.K == "pdu" || d.op.K == "raw"
			free = free && s && !(d.op.a(8)&1 == 1 && typedFC(fc))
		}
	}
	switch {
	case o.K == "exc":
		c.rsp = []byte{fc | 0x80, byte(1 + mix(salt)%11)}
	case free && w.kind == 1: // no telling how long this is
		c.rsp = []byte{fc | 0x80, byte(1 + mix(salt)%11)}
	case free:
		c.rsp = cat([]byte{fc}, payload(salt, clamp(o.a(0), 1, 252)))
	default:
		c.rsp = okReply(pdu, salt)
	}
	return w.adu(tid, c.unit, c.rsp)
}

func runArgs(p *Plan, prop string) {
	w := &argWorld{p: p, kind: p.k("kind", 0, 2), down: p.k("down", 0, 2), lo: 1, hi: 247}
	T := time.Duration(p.k("T", 20, 100000)) * time.Millisecond
	if w.down == 0 {
		T = time.Minute
	}
	var opts []modbus.Option
	if p.k("custom", 0, 1) == 1 {
		w.lo, w.hi = p.k("lo", 0, 255), p.k("hi", 0, 255)
		opts = append(opts, modbus.WithAddressMin(byte(w.lo)), modbus.WithAddressMax(byte(w.hi)))
	}
	var popts []modbus.ClientProviderOption
	var other modbus.Client
	if l := p.k("log", 0, 3); l > 0 {
		sink := func(name string, use bool) modbus.ClientProviderOption {
			return modbus.WithLogProvider(&logSink{w, name, use})
		}
		if p.k("log-extra", 0, 3)&1 == 1 {
			popts = append(popts, sink("an earlier provider", false))
		}
		if l == 3 {
			popts = append(popts, modbus.WithEnableLogger())
		}
		popts = append(popts, sink("the provider", true))
		if l == 2 {
			popts = append(popts, modbus.WithEnableLogger())
		}
		if l > 1 {
			w.logging = 1
		}
		if p.k("log-extra", 0, 3)&2 == 2 {
			popts = append(popts, modbus.WithLogProvider(nil))
		}
		switch w.kind {
		case 0:
			other = modbus.NewClient(modbus.NewTCPClientProvider("127.0.0.1:503", sink("another master", false)))
		case 1:
			other = modbus.NewClient(modbus.NewRTUClientProvider(sink("another master", false)))
		case 2:
			other = modbus.NewClient(modbus.NewASCIIClientProvider(sink("another master", false)))
		}
	}
	n := simnet.New()
	applyNet(p)
	if w.kind == 0 {
		w.cl = modbus.NewClient(modbus.NewTCPClientProvider("127.0.0.1:502", append(popts, modbus.WithTCPTimeout(T))...), opts...)
		n.DialFate = func(int, string) simnet.Fate {
			w.opened()
			if w.down == 1 {
				return simnet.Fate{Kind: "refuse"}
			}
			return simnet.Fate{}
		}
		n.OnAppClose = func(*simnet.Conn) { w.closed() }
		type reply struct {
			end int // sent once that much of the stream has been read
			b   []byte
		}
		replies := map[*simnet.Conn][]reply{}
		n.OnAppOpen = func(*simnet.Conn) { w.buf = nil }
		n.OnWrite = func(c *simnet.Conn, b []byte) {
			for i := range b {
				if rsp := w.feed(b[i : i+1]); rsp != nil {
					replies[c.Peer()] = append(replies[c.Peer()], reply{c.Sent + i + 1, rsp})
				}
			}
		}
		l, err := simnet.Listen(":502", false)
		if err != nil {
			simrt.Internal("listen: %v", err)
		}
		simrt.Spawn("device", func() {
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				simrt.Spawn("device-conn", func() {
					b := make([]byte, 4096)
					got := 0
					for {
						k, err := c.Read(b)
						got += k
						for err == nil && len(replies[c]) > 0 && replies[c][0].end <= got {
							r := replies[c][0]
							replies[c] = replies[c][1:]
							c.Write(r.b)
						}
						if err != nil {
							c.Close()
							return
						}
					}
				})
			}
		})
	} else {
		addr := "/dev/ttyS0"
		l := simserial.NewLine(addr)
		l.ShortRd = p.k("short", 0, 1) == 1
		opt := modbus.WithSerialConfig(serial.Config{Address: addr, BaudRate: p.k("baud", 0, 1000000), DataBits: 8, Parity: "N", StopBits: 1, Timeout: T})
		if w.kind == 1 {
			w.cl = modbus.NewClient(modbus.NewRTUClientProvider(append(popts, opt)...), opts...)
		} else {
			w.cl = modbus.NewClient(modbus.NewASCIIClientProvider(append(popts, opt)...), opts...)
		}
		l.OnOpen = func(*simserial.Port) { w.buf = nil; w.opened() }
		l.OnClose = func(*simserial.Port) { w.closed() }
		l.OpenFate = func(int) error {
			w.opened()
			if w.down == 1 {
				return fmt.Errorf("no such device")
			}
			return nil
		}
		l.OnTx = func(b []byte) {
			for i := range b {
				if rsp := w.feed(b[i : i+1]); rsp != nil {
					l.DevSend(rsp)
				}
			}
		}
	}
	if p.k("pre", 0, 1) == 1 {
		w.conns++
		w.cl.Connect()
		w.conns--
	}
	w.alone = len(p.Acts) == 1
	left := len(p.Acts)
	var q simrt.WaitQ
	for i := range p.Acts {
		ops := expand(p.Acts[i])
		t := simrt.Spawn(fmt.Sprintf("caller%d", i), func() {
			for _, o := range ops {
				if o.K == "olog" && other != nil {
					other.LogMode(o.a(0)&1 == 1)
					continue
				}
				simrt.Progress()
				w.do(o)
			}
			left--
			q.WakeAll()
		})
		t.MarkApp()
	}
	for left > 0 {
		q.Wait("callers")
	}
	if len(w.buf) > 0 && w.down == 0 {
		bad("N02,N03,L01", "the master sends % x beyond the frames of the valid calls", w.buf)
	}
	w.cl.Close()
}

func (w *argWorld) do(o Op) {
	if o.K == "sleep" {
		simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		return
	}
	cl := w.cl
	switch o.K {
	case "log":
		if w.p.k("log", 0, 3) > 0 {
			w.logMode(o.a(0)&1 == 1)
		}
		return
	case "say":
		if w.p.k("log", 0, 3) > 0 {
			w.say(o.a(0), o.a(1)&1)
		}
		return
	case "close":
		if w.alone {
			cl.Close()
		}
		return
	}
	unit, addr := byte(clamp(o.a(0), 0, 255)), uint16(clamp(o.a(1), 0, 65535))
	q, q2 := clamp(o.a(2), 0, 65535), clamp(o.a(3), 0, 65535)
	salt := uint64(o.a(5))
	c := &argCall{op: Op{K: o.K, A: append(append([]int(nil), o.A...), make([]int, 9)...)}, unit: unit}
	// a value of the proper length, give or take
	value := func(n int) []byte { return payload(salt, clamp(n+o.a(4), 0, 140000)) }
	rd := int(unit) >= w.lo && int(unit) <= w.hi
	wr := int(unit) <= w.hi
	var res []byte
	var res16 []uint16
	var err error
	var run func()
	wide := false
	switch o.K {
	case "rc", "rdi":
		fc := byte(1)
		if o.K == "rdi" {
			fc = 2
		}
		c.legal = rd && q >= 1 && q <= 2000
		c.pdu = cat([]byte{fc}, be(addr, uint16(q)))
		run = func() {
			if fc == 1 {
				res, err = cl.ReadCoils(unit, addr, uint16(q))
			} else {
				res, err = cl.ReadDiscreteInputs(unit, addr, uint16(q))
			}
		}
	case "rir", "rirb", "rhr", "rhrb":
		fc := byte(4)
		if o.K[1] == 'h' {
			fc = 3
		}
		c.legal = rd && q >= 1 && q <= 125
		c.pdu = cat([]byte{fc}, be(addr, uint16(q)))
		wide = len(o.K) == 3
		run = func() {
			switch o.K {
			case "rir":
				res16, err = cl.ReadInputRegisters(unit, addr, uint16(q))
			case "rirb":
				res, err = cl.ReadInputRegistersBytes(unit, addr, uint16(q))
			case "rhr":
				res16, err = cl.ReadHoldingRegisters(unit, addr, uint16(q))
			case "rhrb":
				res, err = cl.ReadHoldingRegistersBytes(unit, addr, uint16(q))
			}
		}
	case "wsc":
		c.legal = wr
		v := uint16(0xFF00 * (q & 1))
		c.pdu = cat([]byte{5}, be(addr, v))
		run = func() { err = cl.WriteSingleCoil(unit, addr, v != 0) }
	case "wsr":
		c.legal = wr
		c.pdu = cat([]byte{6}, be(addr, uint16(q)))
		run = func() { err = cl.WriteSingleRegister(unit, addr, uint16(q)) }
	case "mwr":
		c.legal = wr
		c.pdu = cat([]byte{22}, be(addr, uint16(q), uint16(q2)))
		run = func() { err = cl.MaskWriteRegister(unit, addr, uint16(q), uint16(q2)) }
	case "wmc":
		n := (q + 7) / 8
		v := value(n)
		ok := wr && q >= 1 && q <= 1968 && len(v) >= n
		c.legal = ok && len(v) == n
		c.lax = ok && len(v) > n
		if ok {
			c.pdu = cat([]byte{15}, be(addr, uint16(q)), []byte{byte(n)}, v[:n])
			c.alt = append([]byte(nil), c.pdu...) // bits beyond the quantity may be cleared
			if q%8 != 0 {
				c.alt[len(c.alt)-1] &= 1<<uint(q%8) - 1
			}
		}
		run = func() { err = cl.WriteMultipleCoils(unit, addr, uint16(q), v) }
	case "wmr", "wmrb":
		v := value(2 * q)
		if o.K == "wmr" && len(v)&1 == 1 {
			v = append(v, 0)
		}
		c.legal = wr && q >= 1 && q <= 123 && len(v) == 2*q
		c.pdu = cat([]byte{16}, be(addr, uint16(q)), []byte{byte(2 * q)}, v)
		run = func() {
			if o.K == "wmrb" {
				err = cl.WriteMultipleRegistersBytes(unit, addr, uint16(q), v)
				return
			}
			v16 := make([]uint16, len(v)/2)
			for i := range v16 {
				v16[i] = u16(v[2*i:])
			}
			err = cl.WriteMultipleRegisters(unit, addr, uint16(q), v16)
		}
	case "rwm", "rwmb":
		v := value(2 * q2)
		c.legal = rd && q >= 1 && q <= 125 && q2 >= 1 && q2 <= 121 && len(v) == 2*q2
		wa := uint16(salt)
		c.pdu = cat([]byte{23}, be(addr, uint16(q), wa, uint16(q2)), []byte{byte(2 * q2)}, v)
		wide = o.K == "rwm"
		run = func() {
			if o.K == "rwm" {
				res16, err = cl.ReadWriteMultipleRegisters(unit, addr, uint16(q), wa, uint16(q2), v)
			} else {
				res, err = cl.ReadWriteMultipleRegistersBytes(unit, addr, uint16(q), wa, uint16(q2), v)
			}
		}
	case "fifo":
		c.legal = rd
		c.pdu = cat([]byte{24}, be(addr))
		run = func() { res, err = cl.ReadFIFOQueue(unit, addr) }
	case "send", "pdu", "raw":
		fc := byte(clamp(o.a(6), 1, 127))
		if o.a(8)&1 == 1 && typedFC(fc) {
			c.pdu = stdPDU(fc, addr, clamp(q, 1, 2000), salt)
		} else {
			c.pdu = cat([]byte{fc}, payload(salt, clamp(o.a(7), 0, 5000)))
		}
		b := c.pdu
		if o.K == "pdu" && o.a(4) <= -1000 { // not even a function code
			b = nil
		}
		c.legal = len(b) >= 1 && len(b) <= 253
		arg := append([]byte(nil), b...)
		if o.K == "raw" {
			if len(c.pdu) > 253 {
				c.pdu = c.pdu[:253]
			}
			c.raw = w.adu(uint16(salt), unit, c.pdu)
			c.legal = true
			if w.kind == 1 && o.a(4) != 0 && w.p.k("short-raw", 0, 1) == 1 { // too short to be a frame
				c.raw = c.raw[:clamp(o.a(4), -2, 1)+2]
				c.legal = false
			}
			arg = append([]byte{}, c.raw...)
		}
		run = func() {
			if o.K == "raw" {
				res, err = cl.SendRawFrame(arg)
				return
			}
			if o.K == "pdu" {
				res, err = cl.SendPdu(unit, arg)
				return
			}
			var r modbus.ProtocolDataUnit
			r, err = cl.Send(unit, modbus.ProtocolDataUnit{FuncCode: arg[0], Data: arg[1:]})
			if err == nil {
				res = cat([]byte{r.FuncCode}, r.Data)
			}
		}
	default:
		return
	}
	if !c.legal {
		c.raw = nil
	}
	if !c.legal && !c.lax {
		simrt.Probe("call-invalid")
	}
	simrt.Logf("%v legal=%v", c, c.legal)
	c.mayLog = w.logging != 0 || w.modes > 0
	c.mustLog = w.logging == 1 && w.modes == 0
	c.from = len(w.logs)
	w.active = append(w.active, c)
	run()
	for i, x := range w.active {
		if x == c {
			w.active = append(w.active[:i:i], w.active[i+1:]...)
			break
		}
	}
	if !c.sent && (err == nil || exception(err) >= 0) {
		w.claim(c)
	}
	simrt.Logf("%v: % x %v, %v", c, res, res16, err)
	simrt.Mix(0xa46, uint64(len(res)))
	if !c.legal {
		if err == nil && !c.lax {
			bad("N03", "the invalid call %v succeeded", c)
			return
		}
		if !c.lax {
			if exception(err) >= 0 {
				bad("N03", "the invalid call %v failed with the device's exception %v", c, err)
			}
			return
		}
		if err != nil && !c.sent {
			return
		}
	}
	if w.down > 0 {
		return
	}
	if c.drop {
		if err == nil {
			bad("N02,N03,L01", "the call %v got no answer and succeeded", c)
		}
		return
	}
	if c.mustLog && c.sent && err == nil {
		w.logged(c)
	}
	switch {
	case !c.sent && err == nil:
		bad("N02,N03,L01", "the valid call %v succeeded and sent nothing", c)
	case !c.sent:
		bad("N02,N03,L01", "the valid call %v was refused: %v", c, err)
	case c.rsp == nil:
	case o.K == "raw":
		if err != nil || !bytes.Equal(res, c.raw) {
			bad("N02,L01", "the raw request %v, answered with % x, returned % x, %v", c, c.raw, res, err)
		}
	case c.rsp[0]&0x80 != 0:
		if exception(err) != int(c.rsp[1]) {
			bad("N02,L01", "the valid call %v, answered with exception %d, returned %v", c, c.rsp[1], err)
		}
	case err != nil:
		bad("N02,N03,L01", "the valid call %v, answered with % x, failed: %v", c, c.rsp, err)
	default:
		simrt.Probe("reply-exact")
		want := c.rsp
		switch o.K {
		case "wsc", "wsr", "mwr", "wmc", "wmr", "wmrb":
			return
		case "send", "pdu":
		case "fifo":
			want = want[5:]
		default:
			want = want[2:]
		}
		if wide {
			res = be(res16...)
		}
		if !bytes.Equal(res, want) {
			bad("N02,L01", "the valid call %v, answered with % x, returned % x", c, c.rsp, res)
		}
	}
}
