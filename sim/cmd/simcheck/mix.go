package main

// Scenario "mix": every object documented for concurrent use, used by many
// tasks at once without any order among them. Property X01; the judge is the
// happens-before detector of the race build.

import (
	"errors"
	"fmt"
	"io"
	"time"
	"unsafe"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

func init() { scenarios["mix"] = scenario{genMix, runMix} }

// inner is the property a reused scenario is to believe it is run for.
func (p *Plan) inner(prop string) string {
	if l := p.Lists["inner"]; len(l) > 0 && prop == "X01" {
		return l[0].K
	}
	return prop
}

// genRace draws a plan for X01.
func genRace(r *Rng, scn string, idx int, deep bool) *Plan {
	if scn == "mix" {
		return genMix(r, "X01", idx, deep)
	}
	var ps []string
	for _, q := range []string{"M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "R01", "R02", "R03", "E01"} {
		for _, s := range props[q].scns {
			if s == scn {
				ps = append(ps, q)
			}
		}
	}
	q := ps[r.n(len(ps))]
	p := scenarios[scn].gen(r, q, idx, deep)
	p.Scn = scn
	if p.Knobs["long"] > 0 {
		p.Knobs["long"] = 300
	}
	p.Lists["inner"] = []Op{{K: q}}
	// one more actor that queries and switches
	var extra []Op
	kinds := map[string][]string{
		"tcpm":    {"log", "isconn", "conn", "close", "rhr"},
		"serm":    {"log", "isconn", "conn", "close", "rhr"},
		"e2e":     {"log", "isconn", "conn", "close", "rhr"},
		"special": {"log", "closed?", "connected?", "conn?"},
		"slave":   {"log", "api"},
		"cycle":   {"log"},
	}[scn]
	switch scn {
	case "slave":
		extra = append(extra, Op{K: "local"})
	case "e2e":
		extra = append(extra, Op{K: "master"})
	}
	for n := r.in(1, 8); n > 0; n-- {
		if r.p(0.3) {
			extra = append(extra, Op{K: "sleep", A: []int{r.n(300)}})
		}
		k := kinds[r.n(len(kinds))]
		o := Op{K: k, A: []int{1, 1, 1}}
		switch k {
		case "log":
			o.A = []int{r.n(2)}
		case "api":
			o.A = []int{r.n(3), r.n(18), 0, 1, r.n(100)}
		}
		extra = append(extra, o)
	}
	p.Acts = append(p.Acts, extra)
	return p
}

var mixKinds = []string{
	"mreq", "mreq", "mreq", "mreq", "mconn", "mclose", "misconn", "mlog",
	"add", "del", "delall", "get", "list", "range", "slog", "sclose",
	"api", "api", "api", "setid", "id",
	"pstart", "pclose", "pclosed", "pconnected", "pconn", "plog",
}

func genMix(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("mix")
	r.netKnobs(p)
	p.Pol = r.policy(false)
	if r.p(0.5) {
		p.Knobs["seg"], p.Knobs["gap"], p.Knobs["lat"] = 0, 0, 0
	}
	p.Knobs["R"] = r.pick(50, 300, 1000)
	p.Knobs["T"] = r.pick(50, 300)
	p.Knobs["log"] = r.n(2)
	p.Knobs["nosp"] = r.n(2)
	p.Knobs["KA"] = r.pick(0, 20, 100)
	// a focus makes rare pairs meet
	kinds := mixKinds
	if r.p(0.5) {
		kinds = nil
		for i := r.in(2, 5); i > 0; i-- {
			kinds = append(kinds, mixKinds[r.n(len(mixKinds))])
		}
	}
	na := r.in(2, 6)
	nops := r.in(2, 10)
	obj := r.pick(0, 1, 2, 3)
	for a := 0; a < na; a++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			if r.p(0.2) {
				ops = append(ops, Op{K: "sleep", A: []int{r.pick(0, 1, 5, 50, 400), r.n(900)}})
			}
			o := obj
			if r.p(0.4) {
				o = r.n(4)
			}
			ops = append(ops, Op{K: kinds[r.n(len(kinds))], A: []int{o, r.n(18), r.n(8), r.in(1, 8), r.n(256)}})
		}
		p.Acts = append(p.Acts, ops)
	}
	n := r.n(4)
	for i := 0; i < n; i++ {
		p.Lists["cb"] = append(p.Lists["cb"], Op{K: mixKinds[r.n(len(mixKinds))], A: []int{r.n(4), r.n(18), r.n(8), 1, r.n(256)}})
	}
	n = r.n(3)
	for i := 0; i < n; i++ {
		p.Lists["dial"] = append(p.Lists["dial"], Op{K: r.str("", "refuse", "link"), A: []int{r.n(60)}})
	}
	return p
}

type mixWorld struct {
	p     *Plan
	R, T  int64
	srv   *modbus.TCPServer
	sp    *modbus.TCPServerSpecial
	ms    []modbus.Client
	units []*unitObj
	ncb   int
	done  bool
	race  int64
}

func runMix(p *Plan, prop string) {
	w := &mixWorld{p: p, R: int64(p.k("R", 20, 100000)) * ms, T: int64(p.k("T", 20, 100000)) * ms}
	n := simnet.New()
	applyNet(p)
	n.DialFate = func(i int, _ string) simnet.Fate {
		o := p.at("dial", i)
		switch {
		case o.K == "refuse" && !w.done:
			return simnet.Fate{Kind: "refuse"}
		case o.K == "link" && !w.done:
			return simnet.Fate{Link: []simnet.LinkFault{{ToApp: o.a(0)&1 == 1, At: clamp(o.a(0), 0, 100), Kind: "rst"}}}
		}
		return simnet.Fate{}
	}
	for i := 0; i < 4; i++ {
		u := newUnit(i, byte(i+1), []int{0, 20, 0, 20, 0, 10, 0, 10})
		u.lin = false
		w.units = append(w.units, u)
	}
	for i := 0; i < 2; i++ {
		w.ms = append(w.ms, modbus.NewClient(modbus.NewTCPClientProvider("127.0.0.1:502", modbus.WithTCPTimeout(time.Duration(w.T)))))
	}
	for i := 0; i < 2; i++ {
		addr := fmt.Sprintf("/dev/ttyS%d", i)
		l := simserial.NewLine(addr)
		opt := modbus.WithSerialConfig(serial.Config{Address: addr, BaudRate: 9600, DataBits: 8, Parity: "N", StopBits: 1, Timeout: time.Duration(w.T)})
		ascii := i == 1
		if ascii {
			w.ms = append(w.ms, modbus.NewClient(modbus.NewASCIIClientProvider(opt)))
		} else {
			w.ms = append(w.ms, modbus.NewClient(modbus.NewRTUClientProvider(opt)))
		}
		simrt.Spawn("device", func() {
			for {
				l.DevRead(1 << 60)
				// any read of one register is answered alike
				l.DevSend(serialADU(ascii, 1, []byte{3, 2, 0, 7}))
			}
		})
	}
	w.startServer()
	w.startSpecial()
	if p.k("log", 0, 1) == 1 {
		w.srv.LogMode(true)
		w.sp.LogMode(true)
		for _, m := range w.ms {
			m.LogMode(true)
		}
	}
	left := 0
	var q simrt.WaitQ
	for i := range p.Acts {
		ops := expand(p.Acts[i])
		left++
		t := simrt.Spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				simrt.Progress()
				w.do(o)
			}
			left--
			q.WakeAll()
		})
		t.MarkApp()
	}
	for left > 0 {
		q.Wait("actors")
	}
	w.done = true
	simrt.RaceAcquire(unsafe.Pointer(&w.race))
	for _, m := range w.ms {
		m.Close()
	}
	w.sp.Close()
	w.srv.Close()
}

func (w *mixWorld) startServer() {
	s := modbus.NewTCPServer()
	s.SetReadTimeout(time.Duration(w.R)).SetWriteTimeout(time.Duration(w.R))
	s.AddNodes(w.units[0].node, w.units[1].node)
	s.RegisterFunctionHandler(65, func(n *modbus.NodeRegister, d []byte) ([]byte, error) {
		v, _ := n.ReadHoldingsBytes(0, 2)
		return v, nil
	})
	w.srv = s
	simrt.RaceReleaseMerge(unsafe.Pointer(&w.race))
	simrt.SpawnApp(func() { s.ListenAndServe(":502") })
}

func (w *mixWorld) startSpecial() {
	sp := modbus.NewTCPServerSpecial()
	sp.SetReadTimeout(time.Duration(w.R)).SetWriteTimeout(time.Duration(w.R)).
		SetConnectTimeout(time.Duration(w.T)).SetReconnectInterval(30 * time.Millisecond).EnableAutoReconnect(true)
	cb := func() { w.cb() }
	sp.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
		cb()
		if w.ncb%5 == 4 {
			return errors.New("no")
		}
		return nil
	})
	sp.SetConnectionLostHandler(func(c *modbus.TCPServerSpecial) { cb() })
	if k := w.p.k("KA", 0, 10000); k > 0 {
		sp.SetKeepAlive(true, time.Duration(k)*time.Millisecond, func(c *modbus.TCPServerSpecial) {
			cb()
			if c := c.UnderlyingConn(); c != nil {
				c.Write([]byte{0, 1, 0, 0, 0, 3, 0, 1, 1})
			}
		})
	}
	sp.AddNodes(w.units[0].node, w.units[2].node)
	sp.AddRemoteServer("127.0.0.1:602")
	w.sp = sp
	l, err := simnet.Listen(":602", false)
	if err != nil {
		simrt.Internal("listen: %v", err)
	}
	simrt.Spawn("master-accept", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			simrt.Spawn("master", func() {
				b := make([]byte, 300)
				for i := 0; i < 8; i++ {
					if _, err := c.Write(tcpADU(uint16(i), 1, stdPDU(3, 0, 2, 0))); err != nil {
						break
					}
					if _, err := io.ReadAtLeast(c, b, 9); err != nil {
						break
					}
				}
				c.Close()
			})
		}
	})
	if w.p.k("nosp", 0, 1) == 0 {
		sp.Start()
	}
}

// cb is what callbacks do.
func (w *mixWorld) cb() {
	i := w.ncb
	w.ncb++
	if o := w.p.at("cb", i); o.K != "" && !w.done {
		w.do(o)
	}
}

func (w *mixWorld) do(o Op) {
	// who uses a server has been handed it by who made it
	simrt.RaceAcquire(unsafe.Pointer(&w.race))
	m := w.ms[clamp(o.a(0), 0, 1000)%len(w.ms)]
	u := w.units[clamp(o.a(0), 0, 1000)%len(w.units)]
	simrt.Mix(0x313, uint64(o.a(0))<<8|uint64(o.a(1)))
	switch o.K {
	case "sleep":
		simrt.Sleep(int64(clamp(o.a(0), 0, 10000))*ms + int64(clamp(o.a(1), 0, 999))*1000)
	case "mreq":
		w.request(m, o)
	case "mconn":
		m.Connect()
	case "mclose":
		m.Close()
	case "misconn":
		m.IsConnected()
	case "mlog":
		m.LogMode(o.a(4)&1 == 1)
	case "add":
		w.srv.AddNodes(u.node)
	case "del":
		w.srv.DeleteNode(byte(clamp(o.a(2), 0, 255)))
	case "delall":
		w.srv.DeleteAllNode()
	case "get":
		if n, err := w.srv.GetNode(byte(clamp(o.a(2), 0, 255))); err == nil {
			n.SlaveID()
		}
	case "list":
		for _, n := range w.srv.GetNodeList() {
			n.SlaveID()
		}
	case "range":
		w.srv.Range(func(id byte, n *modbus.NodeRegister) bool {
			n.SlaveID()
			return true
		})
	case "slog":
		w.srv.LogMode(o.a(4)&1 == 1)
	case "sclose":
		s := w.srv
		s.Close()
		if w.srv == s && !w.done {
			w.startServer()
		}
	case "api":
		u.api(o, simrt.Seq, func(string, ...interface{}) {})
	case "setid":
		u.node.SetSlaveID(byte(clamp(o.a(2), 1, 247)))
	case "id":
		u.node.SlaveID()
	case "pstart":
		w.sp.Start()
	case "pclose":
		w.sp.Close()
	case "pclosed":
		w.sp.IsClosed()
	case "pconnected":
		w.sp.IsConnected()
	case "pconn":
		if c := w.sp.UnderlyingConn(); c != nil {
			c.RemoteAddr()
		}
	case "plog":
		w.sp.LogMode(o.a(4)&1 == 1)
	}
}

func (w *mixWorld) request(m modbus.Client, o Op) {
	a, q := uint16(clamp(o.a(2), 0, 100)), uint16(clamp(o.a(3), 1, 10))
	var res []byte
	var res16 []uint16
	arg, arg16 := []byte{1, 2, 3, 4}, []uint16{1, 2}
	switch o.a(1) {
	case 0:
		res, _ = m.ReadCoils(1, a, q)
	case 1:
		res, _ = m.ReadDiscreteInputs(1, a, q)
	case 2:
		m.WriteSingleCoil(1, a, true)
	case 3:
		m.WriteMultipleCoils(1, a, q, arg)
	case 4:
		res16, _ = m.ReadInputRegisters(1, a, q)
	case 5:
		m.WriteSingleRegister(1, a, 7)
	case 6:
		m.WriteMultipleRegisters(1, a, 2, arg16)
	case 7:
		m.MaskWriteRegister(1, a, 3, 4)
	case 8:
		res16, _ = m.ReadWriteMultipleRegisters(1, a, 1, a, 2, arg)
	case 9:
		res, _ = m.ReadFIFOQueue(1, a)
	case 10:
		r, _ := m.Send(1, modbus.ProtocolDataUnit{FuncCode: 65, Data: arg})
		res = r.Data
	case 11:
		arg = []byte{3, 0, 0, 0, 1}
		res, _ = m.SendPdu(1, arg)
	case 12:
		arg = []byte{0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1}
		res, _ = m.SendRawFrame(arg)
	case 13:
		res, _ = m.ReadHoldingRegistersBytes(1, a, q)
	default:
		res16, _ = m.ReadHoldingRegisters(1, a, 1)
	}
	reuses(arg, arg16)
	reuses(res, res16)
}
