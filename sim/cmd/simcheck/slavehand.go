package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simrt"
)

// Custom function handlers. A request to one carries in its data:
// behaviour, code, uid (4 bytes), padding.

const nBehave = 14

type hcall struct {
	uid uint32
	r   *sreq
}

var errHandler = errors.New("handler failed")

type hstate struct {
	uid   uint32
	reqs  map[uint32]*sreq
	short map[string]*hshort
}

// hshort counts what happened to all the requests with the same few bytes of
// data, too few to tell them apart, to one function of a unit.
type hshort struct {
	reqs            []*sreq
	calls, answered int
}

func shortKey(fc byte, node *modbus.NodeRegister, data []byte) string {
	return fmt.Sprintf("%d %p %x", fc, node, data)
}

func shortWant(data []byte) []byte {
	x := []byte{byte(len(data))}
	for _, b := range data {
		x = append(x, ^b)
	}
	return x
}

func (w *slaveWorld) handleShort(fc byte, reg *modbus.NodeRegister, data []byte) ([]byte, error) {
	simrt.Atomic(func() {
		n := 0
		h := hst.short[shortKey(fc, reg, data)]
		if h != nil {
			for _, r := range h.reqs {
				if r.arrived {
					n++
				}
			}
			h.calls++
		}
		if h == nil || h.calls > n {
			bad("S08,S04,S03", "the handler of function %d was called with data % x more often than such requests arrived (%d)", fc, data, n)
		}
		if w.closed {
			bad("S05", "a handler was called after Close had returned")
		}
		simrt.Probe("handler-short-data")
	})
	return shortWant(data), nil
}

var hst *hstate

func (w *slaveWorld) handlers() {
	hst = &hstate{reqs: map[uint32]*sreq{}, short: map[string]*hshort{}}
	for _, o := range w.p.Lists["hnd"] {
		fc := byte(clamp(o.a(0), 1, 127))
		if w.hand[fc] {
			continue
		}
		w.hand[fc] = true
		w.srv.RegisterFunctionHandler(fc, func(reg *modbus.NodeRegister, data []byte) ([]byte, error) {
			return w.handle(fc, reg, data)
		})
		if o.a(1)&1 == 1 { // replaces nothing
			w.srv.RegisterFunctionHandler(fc, nil)
		}
	}
}

func (w *slaveWorld) handlerData(o Op) []byte {
	hst.uid++
	if n := o.a(3) - 300; n >= 0 && n < 6 {
		return payload(uint64(hst.uid%3), n)
	}
	d := []byte{byte(clamp(o.a(2), 0, nBehave-1)), byte(clamp(o.a(5), 1, 255)), 0, 0, 0, 0}
	binary.BigEndian.PutUint32(d[2:], hst.uid)
	return cat(d, payload(uint64(hst.uid), clamp(o.a(3), 0, 246)))
}

func (w *slaveWorld) handlerRequest(r *sreq) {
	if len(r.pdu) >= 7 {
		switch r.pdu[1] {
		case 6, 9, 11:
			w.hslept += int64(r.pdu[2]) * ms
		}
		hst.reqs[binary.BigEndian.Uint32(r.pdu[3:])] = r
	} else if r.u != nil {
		k := shortKey(r.pdu[0], r.u.node, r.pdu[1:])
		if hst.short[k] == nil {
			hst.short[k] = &hshort{}
		}
		hst.short[k].reqs = append(hst.short[k].reqs, r)
	}
}

func (w *slaveWorld) handlerMayDrop(pdu []byte) bool {
	return len(pdu) >= 7 && (pdu[1] == 5 || pdu[1] == 9)
}

// handlerWant is what the handler returns for a request's data.
func handlerWant(d []byte) (data []byte, code int) {
	uid := uint64(binary.BigEndian.Uint32(d[2:]))
	switch d[0] {
	case 1:
		return d[2:], -1
	case 2:
		return payload(uid*7, int(d[1])%253), -1
	case 3, 8, 11:
		return nil, int(d[1])
	case 4:
		return nil, 4
	case 5, 9:
		return nil, -2
	case 7:
		return nil, -1
	case 12:
		x := append([]byte(nil), d...)
		for i := range x {
			x[i] ^= 0xff
		}
		return x, -1
	case 13:
		return payload(uid*9, 252), -1
	}
	return d, -1
}

func (w *slaveWorld) handle(fc byte, reg *modbus.NodeRegister, data []byte) ([]byte, error) {
	if len(data) < 6 {
		return w.handleShort(fc, reg, data)
	}
	var r *sreq
	got := append([]byte(nil), data...)
	stop := false
	simrt.Atomic(func() {
		r = hst.reqs[binary.BigEndian.Uint32(data[2:])]
		switch {
		case r == nil:
			bad("S08,S04,S03", "the handler of function %d was called with data % x which is no request's", fc, short(got))
			stop = true
		case !r.arrived:
			bad("S08,S04", "the handler of function %d was called for %v which has not arrived completely", fc, r)
		case r.pdu[0] != fc || string(r.pdu[1:]) != string(got):
			bad("S08", "the handler of function %d was called with data % x for %v", fc, short(got), r)
		case r.u == nil || r.u.node != reg:
			bad("S08,S07", "the handler of function %d was given another unit's registers for %v", fc, r)
		}
		if r != nil {
			r.nhandler++
			if r.nhandler > 1 {
				bad("S08", "the handler of function %d was called %d times for %v", fc, r.nhandler, r)
			}
			simrt.Probe(fmt.Sprintf("handler-behaviour-%d", got[0]))
		}
		if w.closed {
			bad("S05", "a handler was called after Close had returned")
		}
	})
	if stop || r == nil {
		return nil, nil
	}
	nap := func() {
		simrt.Sleep(int64(got[1]) * ms)
	}
	switch got[0] {
	case 6:
		nap()
	case 9:
		nap()
		r.hend = simrt.Now()
		simrt.Fault("handler-panic")
		panic(simrt.Deliberate{Msg: "handler panics"})
	case 5:
		r.hend = simrt.Now()
		simrt.Fault("handler-panic")
		panic(simrt.Deliberate{Msg: "handler panics"})
	case 10:
		s, q := reg.HoldingAddrParam()
		if q > 0 {
			reg.ReadHoldings(s, 1)
			reg.SlaveID()
		}
	case 11:
		nap()
	}
	r.hend = simrt.Now()
	want, code := handlerWant(got)
	switch got[0] {
	case 0, 6, 10:
		return data, nil
	case 1:
		return data[2:], nil
	case 3, 11:
		return nil, &modbus.ExceptionError{ExceptionCode: byte(code)}
	case 8:
		return data, &modbus.ExceptionError{ExceptionCode: byte(code)}
	case 4:
		simrt.Fault("handler-error")
		return nil, errHandler
	case 7:
		return nil, nil
	case 12:
		for i := range data {
			data[i] ^= 0xff
		}
		return data, nil
	}
	return want, nil
}

func (w *slaveWorld) handlerAnswered(r *sreq) {
	if len(r.pdu) < 7 {
		if r.u == nil {
			return
		}
		h := hst.short[shortKey(r.pdu[0], r.u.node, r.pdu[1:])]
		if h.answered++; h.answered > h.calls {
			bad("S08", "%v was answered without its handler: % x", r, short(r.reply))
		}
		if want := shortWant(r.pdu[1:]); r.refused() || string(r.reply[1:]) != string(want) {
			bad("S08", "%v should be answered with % x but was with % x", r, want, short(r.reply))
		}
		simrt.Probe("handler-reply-checked")
		return
	}
	if r.nhandler == 0 {
		bad("S08", "%v was answered without its handler: % x", r, short(r.reply))
		return
	}
	want, code := handlerWant(r.pdu[1:])
	exc := r.refused()
	switch {
	case code == -2:
		if !exc {
			bad("S08", "%v, whose handler panicked, was answered with success % x", r, short(r.reply))
		}
	case code >= 0:
		if !exc || int(r.reply[1]) != code {
			bad("S08", "%v should be answered with exception %d but was with % x", r, code, short(r.reply))
		}
	default:
		if exc || string(r.reply[1:]) != string(want) {
			bad("S08", "%v should be answered with % x but was with % x", r, short(want), short(r.reply))
		}
	}
	simrt.Probe("handler-reply-checked")
}

func (w *slaveWorld) handlersEnd() {
	due := map[string]int{}
	for _, s := range w.list {
		for _, r := range s.reqs {
			if !w.hand[r.pdu[0]] || !r.arrived || r.u == nil {
				continue
			}
			if r.lax || w.closing || s.gone || s.noread || s.a.EndAt > 0 && !s.half || s.accepted < 0 {
				break
			}
			if len(r.pdu) < 7 {
				k := shortKey(r.pdu[0], r.u.node, r.pdu[1:])
				if due[k]++; hst.short[k].calls < due[k] {
					bad("S08", "the handler was called %d times for %d requests like %v", hst.short[k].calls, due[k], r)
					return
				}
				continue
			}
			if r.nhandler != 1 {
				bad("S08", "the handler of %v was called %d times", r, r.nhandler)
				return
			}
		}
	}
}
