package main

import (
	"fmt"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simrt"
)

// Units that come and go while the slave serves.

type dynObj struct {
	idx  int
	id   byte
	node *modbus.NodeRegister
	own  bool // its own id was changed since, it is not added again
}

type dynReq struct {
	r    *sreq
	kind int
	slot int
	val  uint16
	obj  int // index+1 of the object that answered
}

type dynUnits struct {
	objs []*dynObj
	hist map[byte][]*linOp
	ids  []byte
	reqs []*dynReq
	nwr  int
	ntid int
}

const dynTags = 4

func (w *slaveWorld) dynInit() {
	d := &dynUnits{hist: map[byte][]*linOp{}}
	w.dyn = d
	for i, o := range w.p.Lists["objs"] {
		id := byte(clamp(o.a(0), 0, 255))
		if w.byID[id] != nil {
			continue
		}
		x := &dynObj{idx: i, id: id, node: modbus.NewNodeRegister(id, 0, 16, 0, 0, 0, 0, 0, 100)}
		x.idx = len(d.objs)
		tag := uint16(x.idx + 1)
		for k := uint16(0); k < dynTags; k++ {
			x.node.WriteHoldings(k, []uint16{tag})
		}
		x.node.WriteCoils(0, 16, []byte{byte(tag), byte(tag >> 8)})
		d.objs = append(d.objs, x)
		seen := false
		for _, y := range d.ids {
			seen = seen || y == id
		}
		if !seen {
			d.ids = append(d.ids, id)
		}
		if o.a(1) == 1 {
			w.dynAdd([]*dynObj{x})
			if o.a(2) > 0 { // it stays where it was added
				x.node.SetSlaveID(byte(clamp(o.a(2), 0, 255)))
				x.own = true
			}
		}
	}
}

func (d *dynUnits) rec(id byte, o *linOp) { d.hist[id] = append(d.hist[id], o) }

func (w *slaveWorld) dynAdd(xs []*dynObj) {
	d := w.dyn
	var ns []*modbus.NodeRegister
	for _, x := range xs {
		ns = append(ns, x.node)
	}
	inv := simrt.Seq()
	w.srv.AddNodes(ns...)
	ret := simrt.Seq()
	for _, x := range xs {
		v := uint16(x.idx + 1)
		d.rec(x.id, &linOp{inv: inv, ret: ret, desc: fmt.Sprintf("AddNodes(unit %d object %d)", x.id, v), step: func([]uint16) ([]uint16, bool) { return []uint16{v}, true }})
	}
}

// sees records that id was seen to be configured as v (0: not at all).
func (d *dynUnits) sees(id byte, v int, inv, ret int64, what string) {
	d.rec(id, &linOp{inv: inv, ret: ret, desc: fmt.Sprintf("%s found unit %d to be object %d", what, id, v), step: func(st []uint16) ([]uint16, bool) {
		return st, int(st[0]) == v
	}})
}

func (d *dynUnits) find(n *modbus.NodeRegister) *dynObj {
	for _, x := range d.objs {
		if x.node == n {
			return x
		}
	}
	return nil
}

func (w *slaveWorld) dynOwner(ops []Op) {
	d := w.dyn
	if len(d.objs) == 0 {
		return
	}
	for _, o := range ops {
		simrt.Progress()
		switch o.K {
		case "sleep":
			simrt.Sleep(int64(clamp(o.a(0), 0, 100000)) * ms)
		case "uadd":
			var xs []*dynObj
			for _, i := range o.A {
				x := d.objs[clamp(i, 0, 10000)%len(d.objs)]
				dup := false
				for _, y := range xs {
					dup = dup || y.id == x.id
				}
				if !dup && !x.own {
					xs = append(xs, x)
				}
			}
			if len(xs) > 0 {
				w.dynAdd(xs)
			}
		case "udel":
			id := d.ids[clamp(o.a(0), 0, 10000)%len(d.ids)]
			inv := simrt.Seq()
			w.srv.DeleteNode(id)
			ret := simrt.Seq()
			d.rec(id, &linOp{inv: inv, ret: ret, desc: fmt.Sprintf("DeleteNode(%d)", id), step: func([]uint16) ([]uint16, bool) { return []uint16{0}, true }})
		case "udelall":
			if len(w.units) > 0 || w.sink != nil {
				continue // they are taken to be always there
			}
			inv := simrt.Seq()
			w.srv.DeleteAllNode()
			ret := simrt.Seq()
			for _, id := range d.ids {
				d.rec(id, &linOp{inv: inv, ret: ret, desc: "DeleteAllNode", step: func([]uint16) ([]uint16, bool) { return []uint16{0}, true }})
			}
		case "udelsome": // a unit that does not exist
			free := true
			for _, id := range d.ids {
				free = free && id != 250
			}
			if free && w.byID[250] == nil {
				w.srv.DeleteNode(250)
			}
		case "uget":
			id := d.ids[clamp(o.a(0), 0, 10000)%len(d.ids)]
			inv := simrt.Seq()
			n, err := w.srv.GetNode(id)
			ret := simrt.Seq()
			v := 0
			if err == nil {
				x := d.find(n)
				if x == nil || x.id != id {
					bad("S07", "GetNode(%d) returned a unit that was never added there", id)
					return
				}
				v = x.idx + 1
			}
			d.sees(id, v, inv, ret, "GetNode")
		case "ulist", "urange":
			got := map[byte]int{}
			ok := true
			take := func(n *modbus.NodeRegister, id byte, keyed bool) {
				for _, u := range w.units {
					if u.node == n {
						got[u.id]++
						return
					}
				}
				if w.sink != nil && w.sink.node == n {
					return
				}
				x := d.find(n)
				if x == nil || keyed && x.id != id {
					ok = false
					return
				}
				if got[x.id] != 0 {
					ok = false
				}
				got[x.id] = x.idx + 1
			}
			stopped := false
			inv := simrt.Seq()
			if o.K == "ulist" {
				for _, n := range w.srv.GetNodeList() {
					take(n, 0, false)
				}
			} else {
				visits, stop, x := 0, clamp(o.a(0), 0, 1000), clamp(o.a(2), 0, 1<<20)
				w.srv.Range(func(id byte, n *modbus.NodeRegister) bool {
					visits++
					if stop > 0 && visits > stop {
						bad("S07", "Range goes on although its callback returned false")
					}
					take(n, id, true)
					if k := clamp(o.a(1), 0, 15); k > 0 {
						for i, op := range []Op{{K: "uadd", A: []int{x}}, {K: "udel", A: []int{x >> 2}}, {K: "uget", A: []int{x >> 4}}, {K: "ulist"}} {
							if k>>uint(i)&1 == 1 {
								w.dynOwner([]Op{op})
							}
						}
						x += 37
						simrt.Probe("change-in-range")
					}
					return visits != stop
				})
				stopped = stop > 0 && visits >= stop
			}
			ret := simrt.Seq()
			if !ok {
				bad("S07", "the listing of units contains one never added, or an id twice")
				return
			}
			for _, u := range w.units {
				if got[u.id] != 1 && !(stopped && got[u.id] == 0) {
					bad("S07", "the listing contains the always configured unit %d %d times", u.id, got[u.id])
					return
				}
			}
			for _, id := range d.ids {
				if got[id] != 0 || !stopped {
					d.sees(id, got[id], inv, ret, "listing")
				}
			}
		}
	}
}

// doDyn sends a request to a unit that may come and go: A = id index, kind, flags, chunk, gap.
func (w *slaveWorld) doDyn(s *sconn, o Op, cork *[]byte, flush func(int, int)) {
	d := w.dyn
	if len(d.ids) == 0 || s.garbage >= 0 {
		return
	}
	id := d.ids[clamp(o.a(0), 0, 10000)%len(d.ids)]
	q := &dynReq{kind: clamp(o.a(1), 0, 3)}
	if q.kind >= 2 {
		if d.nwr >= 90 {
			q.kind = 0
		} else {
			q.slot = dynTags + d.nwr
			d.nwr++
			q.val = uint16(mix(uint64(q.slot)*77)) | 1
		}
	}
	var pdu []byte
	switch q.kind {
	case 0:
		pdu = cat([]byte{3}, be(0, dynTags))
	case 1:
		pdu = cat([]byte{1}, be(0, 16))
	case 2:
		pdu = cat([]byte{23}, be(0, dynTags, uint16(q.slot), 1), []byte{2}, be(q.val))
	case 3:
		pdu = cat([]byte{6}, be(uint16(q.slot), q.val))
	}
	d.ntid++
	tid := uint16(0x8000 | d.ntid)
	r := s.request(tid, id, pdu)
	r.must, r.may, r.dyn = false, true, q
	q.r = r
	d.reqs = append(d.reqs, q)
	*cork = append(*cork, tcpADU(tid, id, pdu)...)
	if o.a(2)&2 == 0 {
		flush(clamp(o.a(3), 0, 300), clamp(o.a(4), 0, 1000))
	}
}

func (w *slaveWorld) dynAnswered(r *sreq) {
	q := r.dyn
	if r.reply[0] != r.pdu[0] {
		bad("S07", "valid %v was answered with exception %d", r, r.reply[1])
		return
	}
	switch q.kind {
	case 0, 2:
		v := r.reply
		if len(v) != 2+2*dynTags {
			bad("S07", "%v was answered with % x", r, v)
			return
		}
		q.obj = int(u16(v[2:]))
		for k := 1; k < dynTags; k++ {
			if int(u16(v[2+2*k:])) != q.obj {
				bad("S07", "%v was served by more than one unit object: % x", r, v)
				return
			}
		}
	case 1:
		if len(r.reply) != 4 {
			bad("S07", "%v was answered with % x", r, r.reply)
			return
		}
		q.obj = int(r.reply[2]) | int(r.reply[3])<<8
	}
	if q.kind < 3 && (q.obj < 1 || q.obj > len(w.dyn.objs) || w.dyn.objs[q.obj-1].id != r.unit) {
		bad("S07", "%v was answered from no unit object ever added there: % x", r, r.reply)
	}
}

func (w *slaveWorld) dynEnd() {
	d := w.dyn
	if len(d.objs) == 0 {
		return
	}
	for _, q := range d.reqs {
		r := q.r
		if q.kind >= 2 {
			n, at := 0, 0
			for _, x := range d.objs {
				v, err := x.node.ReadHoldings(uint16(q.slot), 1)
				if err != nil || v[0] == q.val {
					n++
					at = x.idx + 1
				}
			}
			switch {
			case n > 1, r.replied && n != 1, !r.arrived && n > 0:
				bad("S07", "%v (answered: %v) took effect on %d unit objects", r, r.replied, n)
				return
			case n == 1 && q.obj > 0 && q.obj != at:
				bad("S07", "%v was served by object %d and took effect on object %d", r, q.obj, at)
				return
			case n == 1 && !r.replied && r.skipSeq > 0:
				bad("S07", "%v was not answered and yet took effect", r)
				return
			case n == 1 && d.objs[at-1].id != r.unit:
				bad("S07", "%v took effect on a unit of another id", r)
				return
			}
			q.obj = at
		}
		switch {
		case r.replied:
			d.sees(r.unit, q.obj, r.seq, r.repSeq, "answered "+r.String())
			simrt.Probe("dyn-answered")
		case r.skipSeq > 0 && r.arrived:
			d.sees(r.unit, 0, r.seq, r.skipSeq, "ignored "+r.String())
			simrt.Probe("dyn-ignored")
		case r.arrived && !r.lax && !r.c.gone && r.c.accepted >= 0 && len(w.units) == 0:
			d.sees(r.unit, 0, r.seq, simrt.Seq(), "ignored "+r.String())
			simrt.Probe("dyn-ignored")
		}
	}
	for _, id := range d.ids {
		inv := simrt.Seq()
		n, err := w.srv.GetNode(id)
		v := 0
		if err == nil {
			if x := d.find(n); x != nil {
				v = x.idx + 1
			}
		}
		d.sees(id, v, inv, simrt.Seq(), "final GetNode")
		ok, l := linearize([]uint16{0}, d.hist[id])
		if !ok {
			bad("S07", "no order of the additions, deletions and uses of unit %d explains what was seen: %s", id, l.why())
			return
		}
	}
}
