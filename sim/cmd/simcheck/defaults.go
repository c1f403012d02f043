package main

// Scenario "defaults" (D01): masters and slaves left to their documented
// defaults, and given settings in any order, observed over virtual minutes.

import (
	"crypto/tls"
	"fmt"
	"io"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

func init() { scenarios["defaults"] = scenario{genDefaults, runDefaults} }

func genDefaults(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("defaults")
	r.netKnobs(p)
	p.Pol = r.policy(false)
	p.Knobs["kind"] = r.n(5)
	p.Knobs["addr"] = r.n(7)
	var set []Op
	if r.p(0.6) {
		for i := r.in(1, 5); i > 0; i-- {
			set = append(set, Op{K: r.str("R", "W", "CT", "RI", "KA", "kaoff", "kanil", "kaneg", "AR", "noAR", "nilconn", "nillost", "T", "serial", "nillog", "unit", "tls", "niltls", "nilfn"),
				A: []int{r.pick(150, 400, 1000, 2500, 7000, 45000, 130000), r.n(6)}})
		}
	}
	p.Acts = append(p.Acts, set)
	var l []Op
	for i := r.in(1, 4); i > 0; i-- {
		l = append(l, Op{K: r.str("ok", "ok", "silent", "hang", "refuse", "late", "stuck", "shy", "rude"), A: []int{r.n(1001), r.n(1 << 16)}})
	}
	p.Lists["do"] = l
	return p
}

// within fails unless lo <= at <= hi.
func within(what string, at, lo, hi int64) {
	if at < lo || at > hi {
		bad("D01", "%s after %v, expected from %v to %v", what, time.Duration(at), time.Duration(lo), time.Duration(hi))
	}
}

func runDefaults(p *Plan, prop string) {
	n := simnet.New()
	applyNet(p)
	var set []Op
	if len(p.Acts) > 0 {
		set = p.Acts[0]
	}
	switch k := p.k("kind", 0, 4); k {
	case 0:
		defTCPMaster(p, n, set)
	case 1, 2:
		defSerialMaster(p, set, k == 2)
	case 3:
		defSlave(p, n, set)
	case 4:
		defSpecial(p, n, set)
	}
}

const defSlack = 400 * ms

func val(o Op) time.Duration {
	return time.Duration(clamp(o.a(0), 100, 200000)) * time.Millisecond
}

func defTCPMaster(p *Plan, n *simnet.Net, set []Op) {
	T := int64(modbus.TCPDefaultTimeout)
	if T != int64(time.Second) {
		bad("D01", "TCPDefaultTimeout is %v", time.Duration(T))
	}
	var opts []modbus.ClientProviderOption
	for _, o := range set {
		switch o.K {
		case "T":
			T = int64(val(o))
			opts = append(opts, modbus.WithTCPTimeout(val(o)))
		case "serial":
			opts = append(opts, modbus.WithSerialConfig(serial.Config{Timeout: val(o)}))
		case "nillog":
			opts = append(opts, modbus.WithLogProvider(nil))
		}
	}
	cl := modbus.NewClient(modbus.NewTCPClientProvider("127.0.0.1:502", opts...))
	simrt.Probe("kind-tcp-master")
	l, err := simnet.Listen(":502", false)
	if err != nil {
		simrt.Internal("listen: %v", err)
	}
	var cur Op
	n.DialFate = func(int, string) simnet.Fate {
		switch cur.K {
		case "hang", "refuse":
			return simnet.Fate{Kind: cur.K}
		}
		return simnet.Fate{}
	}
	simrt.Spawn("device", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			simrt.Spawn("device-conn", func() {
				b := make([]byte, 300)
				got := 0
				for {
					k, err := c.Read(b[got:])
					if err != nil {
						c.Close()
						return
					}
					got += k
					if got < 12 {
						continue
					}
					got = 0
					switch cur.K {
					case "silent", "stuck":
						continue
					case "late": // just in time, or just too late
						simrt.Sleep(T * int64(clamp(cur.a(0), 0, 1000)) / 1000 * 8 / 10)
					}
					c.Write(tcpADU(u16(b), b[6], okReply(b[7:12], uint64(cur.a(1)))))
				}
			})
		}
	})
	for i := range p.Lists["do"] {
		cur = p.at("do", i)
		cl.Close()
		simrt.Sleep(2000 * ms)
		from := simrt.Now()
		var err error
		var v []byte
		v, err = cl.ReadHoldingRegistersBytes(1, 0, 3)
		d := simrt.Now() - from
		simrt.Logf("%v: % x, %v", cur, v, err)
		simrt.Probe("tcp-" + cur.K)
		switch cur.K {
		case "refuse":
			if err == nil {
				bad("D01", "a call to a refusing device succeeded")
			}
		case "silent", "stuck", "hang":
			if err == nil {
				bad("D01", "a call to a silent device succeeded")
			}
			within(fmt.Sprintf("a call to a %s device failed with a timeout of %v", cur.K, time.Duration(T)), d, T, 4*T+defSlack)
		default:
			if err != nil && T >= 1000*ms {
				bad("D01", "a call answered in time failed: %v", err)
			}
		}
	}
	defUnits(set, func(opts ...modbus.Option) modbus.Client {
		cur = Op{K: "ok"}
		return modbus.NewClient(modbus.NewTCPClientProvider("127.0.0.1:502"), opts...)
	})
}

// defUnits checks the range of units.
func defUnits(set []Op, mk func(...modbus.Option) modbus.Client) {
	var opts []modbus.Option
	lo, hi := 1, 247
	for _, o := range set {
		if o.K == "unit" {
			if o.a(1)&1 == 0 {
				lo = clamp(o.a(0)%256, 0, 255)
				opts = append(opts, modbus.WithAddressMin(byte(lo)))
			} else {
				hi = clamp(o.a(0)%256, 0, 255)
				opts = append(opts, modbus.WithAddressMax(byte(hi)))
			}
		}
	}
	cl := mk(opts...)
	for _, u := range []int{0, 1, 247, 248, 255, lo - 1, lo, hi, hi + 1} {
		if u < 0 || u > 255 {
			continue
		}
		_, err := cl.ReadHoldingRegistersBytes(byte(u), 0, 1)
		if ok := u >= lo && u <= hi; ok != (err == nil) {
			bad("D01", "a read of unit %d with units %d to %d returned %v", u, lo, hi, err)
		}
	}
	cl.Close()
}

func defSerialMaster(p *Plan, set []Op, ascii bool) {
	simrt.Probe("kind-serial-master")
	if modbus.SerialDefaultTimeout != time.Second {
		bad("D01", "SerialDefaultTimeout is %v", modbus.SerialDefaultTimeout)
	}
	want := serial.Config{Address: "/dev/ttyS0", BaudRate: 19200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: time.Second}
	var opts []modbus.ClientProviderOption
	for _, o := range set {
		switch o.K {
		case "T":
			opts = append(opts, modbus.WithTCPTimeout(val(o)))
		case "nillog":
			opts = append(opts, modbus.WithLogProvider(nil))
		case "serial":
			want = serial.Config{Address: []string{"/dev/ttyUSB1", "/dev/ttyS0"}[o.a(1)&1], BaudRate: []int{1200, 9600, 19200, 38400, 57600, 115200}[clamp(o.a(1), 0, 5)], DataBits: 8 - o.a(1)&1,
				StopBits: 1 + o.a(1)&1, Parity: []string{"N", "E", "O"}[clamp(o.a(1), 0, 5)%3], Timeout: val(o)}
			opts = append(opts, modbus.WithSerialConfig(want))
		}
	}
	var cur Op
	for _, a := range []string{"/dev/ttyS0", "/dev/ttyUSB1"} {
		l := simserial.NewLine(a)
		l.OnOpen = func(q *simserial.Port) {
			if c := q.Config(); c != want {
				bad("D01", "the serial port is opened with %+v, expected %+v", c, want)
			}
		}
		l.OpenFate = func(int) error {
			if cur.K == "refuse" {
				return fmt.Errorf("busy")
			}
			return nil
		}
		simrt.Spawn("device", func() {
			var b []byte
			for {
				b = append(b, l.DevRead(0)...)
				n := 8
				if ascii {
					n = 17
				}
				if len(b) < n {
					continue
				}
				pdu := b[1:6]
				unit := b[0]
				if ascii {
					pdu = unhex(b[3:13])
					unit = unhex(b[1:3])[0]
				}
				b = nil
				switch cur.K {
				case "silent", "stuck", "hang":
					continue
				case "late":
					simrt.Sleep(int64(want.Timeout) * int64(clamp(cur.a(0), 0, 1000)) / 1000 * 8 / 10)
				}
				l.DevSend(serialADU(ascii, unit, okReply(pdu, uint64(cur.a(1)))))
			}
		})
	}
	mk := func() modbus.ClientProvider {
		if ascii {
			return modbus.NewASCIIClientProvider(opts...)
		}
		return modbus.NewRTUClientProvider(opts...)
	}
	cl := modbus.NewClient(mk())
	for i := range p.Lists["do"] {
		cur = p.at("do", i)
		from := simrt.Now()
		v, err := cl.ReadHoldingRegistersBytes(1, 0, 3)
		d := simrt.Now() - from
		simrt.Logf("%v: % x, %v", cur, v, err)
		simrt.Probe("serial-" + cur.K)
		switch cur.K {
		case "refuse":
			if err == nil && i == 0 {
				bad("D01", "a call succeeded although the port is busy")
			}
		case "silent", "stuck", "hang":
			if err == nil {
				bad("D01", "a call to a silent device succeeded")
			}
			// the pause between request and reply takes its time at low rates
			within("a call to a silent device failed", d, int64(want.Timeout), int64(want.Timeout)+defSlack)
		default:
			if err != nil {
				bad("D01", "a call answered in time failed: %v", err)
			}
		}
	}
	cl.Close()
	cur = Op{K: "ok"}
	defUnits(set, func(o ...modbus.Option) modbus.Client { return modbus.NewClient(mk(), o...) })
}

func unhex(b []byte) []byte {
	v := func(c byte) byte {
		if c >= 'A' {
			return c - 'A' + 10
		}
		return c - '0'
	}
	var r []byte
	for i := 0; i+1 < len(b); i += 2 {
		r = append(r, v(b[i])<<4|v(b[i+1])&15)
	}
	return r
}

func defUnit() *modbus.NodeRegister {
	u := modbus.NewNodeRegister(1, 0, 8, 0, 8, 0, 8, 0, 125)
	return u
}

// defCut checks how a client that stays idle, or takes no replies, is cut off.
func defCut(w string, c *simnet.Conn, stuck bool, R, W int64) {
	req := tcpADU(7, 1, []byte{3, 0, 0, 0, 125})
	a := c.Peer()
	if stuck {
		// fill both directions
		for i := 0; i < 4000 && a.BlockedAt == 0 && !a.Closed(); i++ {
			if _, err := c.Write(req); err != nil {
				break
			}
			if i%64 == 63 {
				simrt.Sleep(1 * ms)
			}
		}
		for i := 0; a.BlockedAt == 0 && !a.Closed() && i < 1000; i++ {
			simrt.Sleep(ms)
		}
		from := a.BlockedAt
		if from == 0 {
			return
		}
		simrt.Probe("slave-stuck-client")
		for step := max(5*ms, W/2000); !a.Closed() && simrt.Now() <= from+W+defSlack; {
			simrt.Sleep(step)
		}
		if !a.Closed() {
			bad("D01", "%s: a client that takes no replies is not cut off within the write timeout of %v", w, time.Duration(W))
			return
		}
		within(w+": a client that takes no replies is cut off", a.CloseAt-from, W, W+defSlack)
		return
	}
	from := a.LastRecv
	if from == 0 {
		from = a.OpenAt
	}
	simrt.Sleep(from + R + defSlack - simrt.Now())
	if !a.Closed() {
		bad("D01", "%s: an idle client is not cut off within the read timeout of %v", w, time.Duration(R))
		return
	}
	within(w+": an idle client is cut off", a.CloseAt-from, R, R+defSlack)
	simrt.Probe("slave-idle-client")
}

// ask makes one exchange with a slave.
func defAsk(c *simnet.Conn) bool {
	c.Write(tcpADU(9, 1, []byte{3, 0, 0, 0, 1}))
	b := make([]byte, 64)
	got := 0
	for got < 11 {
		c.SetReadDeadline(simrt.WallNow().Add(3 * time.Second))
		k, err := c.Read(b[got:])
		if err != nil {
			return false
		}
		got += k
	}
	return true
}

func defSlave(p *Plan, n *simnet.Net, set []Op) {
	simrt.Probe("kind-slave")
	R, W := int64(60*time.Second), int64(time.Second)
	n.Window = 2000
	s := modbus.NewTCPServer()
	for _, o := range set {
		switch o.K {
		case "R":
			R = int64(val(o))
			s.SetReadTimeout(val(o))
		case "W":
			W = int64(val(o))
			s.SetWriteTimeout(val(o))
		case "nilfn":
			s.RegisterFunctionHandler(3, nil)
		}
	}
	s.AddNodes(defUnit())
	simrt.Go(func() { s.ListenAndServe(":502") })
	simrt.Sleep(1000 * ms)
	for i := range p.Lists["do"] {
		o := p.at("do", i)
		c, err := simnet.Dial("127.0.0.1:502", false, 0)
		if err != nil {
			bad("D01", "the slave does not listen: %v", err)
			return
		}
		simrt.Sleep(80 * ms) // accepted by now
		if o.a(1)&1 == 1 && !defAsk(c) && R > 200*ms {
			bad("D01", "the slave does not answer")
			return
		}
		if c.Peer().Closed() {
			continue
		}
		defCut("slave", c, o.K == "stuck", R, W)
		c.Close()
	}
	s.Close()
}

func defSpecial(p *Plan, n *simnet.Net, set []Op) {
	simrt.Probe("kind-special")
	const RC = 500 * ms
	R, W, CT, RI, KA := int64(60*time.Second), int64(time.Second), int64(15*time.Second), int64(time.Minute), int64(30*time.Second)
	AR, KAon := true, false
	tlsName, tlsSkip := "", false
	if modbus.DefaultConnectTimeout != 15*time.Second || modbus.DefaultReconnectInterval != time.Minute || modbus.DefaultKeepAliveInterval != 30*time.Second {
		bad("D01", "the defaults of the outbound slave are %v %v %v", modbus.DefaultConnectTimeout, modbus.DefaultReconnectInterval, modbus.DefaultKeepAliveInterval)
	}
	n.Window = 2000
	var ticks []int64
	f := func(*modbus.TCPServerSpecial) { ticks = append(ticks, simrt.Now()) }
	s := modbus.NewTCPServerSpecial()
	called := false
	for _, o := range set {
		switch o.K {
		case "R":
			R = int64(val(o))
			s.SetReadTimeout(val(o))
		case "W":
			W = int64(val(o))
			s.SetWriteTimeout(val(o))
		case "CT":
			CT = int64(val(o))
			s.SetConnectTimeout(val(o))
		case "RI":
			RI = int64(val(o))
			s.SetReconnectInterval(val(o))
		case "AR":
			AR = true
			s.EnableAutoReconnect(true)
		case "noAR":
			AR = false
			s.EnableAutoReconnect(false)
		case "tls":
			tlsName, tlsSkip = []string{"", "plant", "a.example"}[o.a(1)%3], o.a(1) >= 3
			s.SetTLSConfig(&tls.Config{ServerName: tlsName, InsecureSkipVerify: tlsSkip})
		case "niltls":
			tlsName, tlsSkip = "", false
			s.SetTLSConfig(nil)
		case "nilfn":
			s.RegisterFunctionHandler(3, nil)
		case "nilconn":
			s.SetOnConnectHandler(nil)
		case "nillost":
			s.SetConnectionLostHandler(nil)
		case "KA":
			KA, KAon, called = int64(val(o)), true, true
			s.SetKeepAlive(true, val(o), f)
		case "kaneg": // no interval of its own
			KAon, called = true, true
			s.SetKeepAlive(true, time.Duration(-o.a(1)), f)
		case "kanil": // keeps the callback
			KA, KAon = int64(val(o)), true
			s.SetKeepAlive(true, val(o), nil)
		case "kaoff":
			KA, KAon, called = int64(val(o)), false, true
			s.SetKeepAlive(false, val(o), f)
		}
	}
	s.AddNodes(defUnit())
	if err := s.Start(); err == nil {
		bad("D01", "Start succeeds without a remote server")
		return
	}
	if !s.IsClosed() {
		bad("D01", "the slave is not closed after a Start that failed")
	}
	remote := []string{":5020", "127.0.0.1:5020", "tcp://127.0.0.1:5020", "gopher://127.0.0.1:5020", "tls://127.0.0.1:5020", "ssl://127.0.0.1:5020", "tcps://127.0.0.1:5020"}[p.k("addr", 0, 6)]
	secure := p.k("addr", 0, 6) >= 4
	if tlsName == "" {
		tlsName = "127.0.0.1"
	}
	if s.AddRemoteServer("tcp://[::1:5020") == nil {
		bad("D01", "AddRemoteServer accepts an address that makes no sense")
	}
	if err := s.AddRemoteServer(remote); err != nil {
		bad("D01", "AddRemoteServer(%q): %v", remote, err)
		return
	}
	l, err := simnet.Listen(":5020", false)
	if err != nil {
		simrt.Internal("listen: %v", err)
	}
	var dials []int64 // when
	var q simrt.WaitQ
	do := p.Lists["do"]
	n.DialFate = func(i int, a string) simnet.Fate {
		dials = append(dials, simrt.Now())
		q.WakeAll()
		if a != "127.0.0.1:5020" {
			bad("D01", "the slave configured to connect to %q dials %q", remote, a)
		}
		if k := p.at("do", len(dials)-1).K; k == "hang" || k == "refuse" {
			return simnet.Fate{Kind: k}
		}
		return simnet.Fate{}
	}
	start := func() bool {
		if err := s.Start(); err != nil {
			bad("D01", "Start: %v", err)
			return false
		}
		return true
	}
	dialled := func(i int, by int64) bool {
		for len(dials) <= i {
			if !q.WaitUntil("dial", by) {
				return false
			}
		}
		return true
	}
	if !start() {
		return
	}
	if remote[0] == 'g' { // no such protocol: never dialled, tried again or given up
		simrt.Sleep(2*RI + 1000*ms)
		if len(dials) > 0 {
			bad("D01", "the slave dials a server of an unknown protocol")
		}
		if s.IsClosed() == AR {
			bad("D01", "auto-reconnect is %v, IsClosed is %v after a failure", AR, s.IsClosed())
		}
		s.Close()
		return
	}
	if !dialled(0, simrt.Now()+defSlack) {
		bad("D01", "the slave does not dial when it is started")
		return
	}
	for i := range do {
		cur, at := p.at("do", i), dials[i]
		var lost, lo, hi int64
		ticks = nil
		simrt.Probe("special-" + cur.K)
		switch cur.K {
		case "hang":
			lost, lo, hi = at, CT+RI, CT+RI+defSlack
		case "refuse":
			lost, lo, hi = at, RI, RI+defSlack
		default:
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			a := c.Peer()
			open := a.OpenAt
			if secure {
				simrt.Probe("special-tls")
				var h [3]byte
				io.ReadFull(c, h[:])
				b := make([]byte, h[2])
				io.ReadFull(c, b)
				if h[0] != 0x16 || string(b) != tlsName || h[1] == 1 != tlsSkip {
					bad("D01", "the slave starts the handshake with % x %q, expected 0x16 and the name %q (skip verification: %v)", h, b, tlsName, tlsSkip)
					return
				}
				switch cur.K {
				case "shy":
					lost, lo, hi = at, CT+RI, CT+RI+defSlack
				case "rude":
					c.Write([]byte{0x15, 2})
					lost, lo, hi = simrt.Now(), RI, RI+defSlack
				}
				if lost > 0 {
					simrt.Sleep(lost + hi - RI - simrt.Now())
					if !a.Closed() {
						bad("D01", "the connection of a handshake that failed is not closed within %v", time.Duration(hi-RI))
						return
					}
					c.Close()
					break
				}
				c.Write([]byte{0x16, 0})
				open = simrt.Now()
				simrt.Sleep(80 * ms)
			}
			simrt.Sleep(80 * ms)
			if R > 200*ms && !s.IsConnected() {
				bad("D01", "IsConnected is false although the slave is connected")
			}
			if cur.a(1)&1 == 1 && R > 200*ms && !defAsk(c) {
				bad("D01", "the slave does not answer")
				return
			}
			if cur.K == "late" { // the master keeps asking for a while
				for t := simrt.Now() + int64(clamp(cur.a(0), 0, 1000))*100*ms; simrt.Now() < t && !a.Closed(); {
					simrt.Sleep(R * 6 / 10)
					if R > 500*ms && !a.Closed() && !defAsk(c) {
						bad("D01", "the slave does not answer in the middle of a connection")
						return
					}
				}
			}
			if !a.Closed() {
				defCut("outbound slave", c, cur.K == "stuck", R, W)
			}
			lost = a.CloseAt
			lo, hi = RC, 1000*ms+defSlack
			wantTicks := 0
			if KAon && called {
				wantTicks = int((lost - open) / KA)
			}
			if len(ticks) > wantTicks+1 || len(ticks) < wantTicks-1 || !KAon && len(ticks) > 0 {
				bad("D01", "%d keep-alive calls in %v, expected %d (keep-alive %v every %v)", len(ticks), time.Duration(lost-open), wantTicks, KAon, time.Duration(KA))
			}
			for k, t := range ticks {
				within(fmt.Sprintf("keep-alive call %d", k+1), t-open, int64(k+1)*KA, int64(k+1)*KA+defSlack)
			}
			c.Close()
		}
		if !AR {
			simrt.Sleep(lost + hi + CT - simrt.Now())
			if len(dials) > i+1 {
				bad("D01", "the slave dials again without auto-reconnect")
			}
			if !s.IsClosed() {
				bad("D01", "the slave is not closed after its only connection")
			}
			if i+1 < len(do) && (!start() || !dialled(i+1, simrt.Now()+defSlack)) {
				bad("D01", "the slave does not dial when it is started again")
				return
			}
			continue
		}
		if !dialled(i+1, lost+hi+1) {
			bad("D01", "the slave does not dial again within %v of the failure", time.Duration(hi))
			return
		}
		within("the slave dials again", dials[i+1]-lost, lo, hi)
	}
	s.Close()
}
