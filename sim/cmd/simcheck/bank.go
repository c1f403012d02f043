package main

import (
	"fmt"

	modbus "github.com/things-go/go-modbus"
)

// Reference of a unit's register banks.

const (
	bCoil = iota
	bDisc
	bIn
	bHold
)

var bankName = []string{"coils", "discrete inputs", "input registers", "holding registers"}

// unitObj is one unit object of the slave and what we know of it.
type unitObj struct {
	idx   int
	id    byte
	start [4]int
	qty   [4]int
	node  *modbus.NodeRegister
	ops   [4][]*linOp
	lin   bool // its history is checked
}

func newUnit(idx int, id byte, lay []int) *unitObj {
	u := &unitObj{idx: idx, id: id, lin: true}
	for b := 0; b < 4; b++ {
		s, q := 0, 0
		if 2*b+1 < len(lay) {
			s, q = clamp(lay[2*b], 0, 65535), clamp(lay[2*b+1], 0, 65535)
		}
		if s+q > 65536 {
			q = 65536 - s
		}
		u.start[b], u.qty[b] = s, q
	}
	u.node = modbus.NewNodeRegister(id,
		uint16(u.start[0]), uint16(u.qty[0]), uint16(u.start[1]), uint16(u.qty[1]),
		uint16(u.start[2]), uint16(u.qty[2]), uint16(u.start[3]), uint16(u.qty[3]))
	return u
}

func (u *unitObj) has(bank, addr, q int) bool {
	return addr >= u.start[bank] && addr+q <= u.start[bank]+u.qty[bank]
}

// layout checks what the unit says about its banks.
func (u *unitObj) layout() {
	for b, f := range []func() (uint16, uint16){u.node.CoilsAddrParam, u.node.DiscreteParam, u.node.InputAddrParam, u.node.HoldingAddrParam} {
		if s, q := f(); int(s) != u.start[b] || int(q) != u.qty[b] {
			bad("S02,S03", "the unit configured with %d %s from %d says it has %d from %d", u.qty[b], bankName[b], u.start[b], q, s)
		}
	}
}

func bankOf(fc byte) int {
	switch fc {
	case 1, 5, 15:
		return bCoil
	case 2:
		return bDisc
	case 4:
		return bIn
	case 3, 6, 16, 22, 23:
		return bHold
	}
	return -1
}

// sem is the meaning of a request for a unit.
type sem struct {
	bank  int
	valid bool
	addr  bool // invalid for its address only
	write bool
	// apply gives the state after it and the reply PDU.
	apply func(st []uint16) ([]uint16, []byte)
}

func packBits(st []uint16, off, q int) []byte {
	b := make([]byte, (q+7)/8)
	for i := 0; i < q; i++ {
		b[i/8] |= byte(st[off+i]) << (i % 8)
	}
	return b
}

func setBits(st []uint16, off, q int, v []byte) []uint16 {
	n := append([]uint16(nil), st...)
	for i := 0; i < q; i++ {
		n[off+i] = uint16(v[i/8] >> (i % 8) & 1)
	}
	return n
}

func setRegs(st []uint16, off int, v []byte) []uint16 {
	n := append([]uint16(nil), st...)
	for i := 0; i+1 < len(v); i += 2 {
		n[off+i/2] = u16(v[i:])
	}
	return n
}

// meaning evaluates a request PDU for a unit by the Modbus specification.
func (u *unitObj) meaning(pdu []byte) sem {
	if len(pdu) == 0 {
		return sem{bank: -1}
	}
	fc, d := pdu[0], pdu[1:]
	s := sem{bank: bankOf(fc)}
	if s.bank < 0 {
		return s
	}
	b := s.bank
	rd := func(max int) {
		if len(d) != 4 {
			return
		}
		a, q := int(u16(d)), int(u16(d[2:]))
		if q < 1 || q > max {
			return
		}
		if !u.has(b, a, q) {
			s.addr = true
			return
		}
		off := a - u.start[b]
		s.valid = true
		s.apply = func(st []uint16) ([]uint16, []byte) {
			var v []byte
			if b <= bDisc {
				v = packBits(st, off, q)
			} else {
				v = be(st[off : off+q]...)
			}
			return st, cat([]byte{fc, byte(len(v))}, v)
		}
	}
	switch fc {
	case 1, 2:
		rd(2000)
	case 3, 4:
		rd(125)
	case 5:
		if len(d) != 4 || u16(d[2:]) != 0 && u16(d[2:]) != 0xFF00 {
			return s
		}
		a := int(u16(d))
		if !u.has(b, a, 1) {
			s.addr = true
			return s
		}
		s.valid, s.write = true, true
		s.apply = func(st []uint16) ([]uint16, []byte) {
			return setBits(st, a-u.start[b], 1, []byte{d[2] & 1}), pdu
		}
	case 6:
		if len(d) != 4 {
			return s
		}
		a := int(u16(d))
		if !u.has(b, a, 1) {
			s.addr = true
			return s
		}
		s.valid, s.write = true, true
		s.apply = func(st []uint16) ([]uint16, []byte) { return setRegs(st, a-u.start[b], d[2:4]), pdu }
	case 15, 16:
		if len(d) < 5 {
			return s
		}
		a, q, n := int(u16(d)), int(u16(d[2:])), int(d[4])
		want, max := (q+7)/8, 1968
		if fc == 16 {
			want, max = 2*q, 123
		}
		if q < 1 || q > max || n != want || len(d) != 5+n {
			return s
		}
		if !u.has(b, a, q) {
			s.addr = true
			return s
		}
		s.valid, s.write = true, true
		s.apply = func(st []uint16) ([]uint16, []byte) {
			if fc == 15 {
				return setBits(st, a-u.start[b], q, d[5:]), pdu[:5]
			}
			return setRegs(st, a-u.start[b], d[5:]), pdu[:5]
		}
	case 22:
		if len(d) != 6 {
			return s
		}
		a, and, or := int(u16(d)), u16(d[2:]), u16(d[4:])
		if !u.has(b, a, 1) {
			s.addr = true
			return s
		}
		s.valid, s.write = true, true
		s.apply = func(st []uint16) ([]uint16, []byte) {
			v := st[a-u.start[b]]
			return setRegs(st, a-u.start[b], be(v&and|or&^and)), pdu
		}
	case 23:
		if len(d) < 9 {
			return s
		}
		ra, rq, wa, wq, n := int(u16(d)), int(u16(d[2:])), int(u16(d[4:])), int(u16(d[6:])), int(d[8])
		if rq < 1 || rq > 125 || wq < 1 || wq > 121 || n != 2*wq || len(d) != 9+n {
			return s
		}
		if !u.has(b, ra, rq) || !u.has(b, wa, wq) {
			s.addr = true
			return s
		}
		s.valid, s.write = true, true
		s.apply = func(st []uint16) ([]uint16, []byte) {
			ns := setRegs(st, wa-u.start[b], d[9:])
			v := be(ns[ra-u.start[b] : ra-u.start[b]+rq]...)
			return ns, cat([]byte{fc, byte(len(v))}, v)
		}
	}
	return s
}

// record adds an operation to the history of a bank.
func (u *unitObj) record(bank int, o *linOp) {
	if u.lin {
		u.ops[bank] = append(u.ops[bank], o)
	}
}

// request records a request: reply nil means it is not known whether it took effect.
func (u *unitObj) request(s sem, inv, ret int64, reply []byte, desc string) {
	if !s.valid {
		return
	}
	if reply == nil {
		if s.write {
			u.record(s.bank, &linOp{inv: inv, ret: never, opt: true, desc: desc, step: func(st []uint16) ([]uint16, bool) {
				n, _ := s.apply(st)
				return n, true
			}})
		}
		return
	}
	u.record(s.bank, &linOp{inv: inv, ret: ret, desc: desc, step: func(st []uint16) ([]uint16, bool) {
		n, r := s.apply(st)
		return n, string(r) == string(reply)
	}})
}

// check verifies that each bank's history has a sequential explanation.
func (u *unitObj) check(fail func(format string, a ...interface{})) {
	for b := range u.ops {
		if len(u.ops[b]) == 0 {
			continue
		}
		ok, l := linearize(make([]uint16, u.qty[b]), u.ops[b])
		if !ok {
			fail("the %s of unit %d do not behave as if operations were executed one at a time: %s", bankName[b], u.id, l.why())
			return
		}
	}
}

// api performs a local operation on the unit's registers and records it.
// Op: A = unit, fn, off, qty, salt.
func (u *unitObj) api(o Op, seq func() int64, fail func(format string, a ...interface{})) {
	fn := clamp(o.a(1), 0, 17)
	bank := []int{bCoil, bCoil, bCoil, bCoil, bDisc, bDisc, bDisc, bDisc, bIn, bIn, bIn, bIn, bHold, bHold, bHold, bHold, bHold, bHold}[fn]
	q := clamp(o.a(3), 1, 65535)
	single := fn == 1 || fn == 3 || fn == 5 || fn == 7 || fn == 16 || fn == 17
	if single {
		q = 1
	}
	addr := clamp(u.start[bank]+o.a(2), 0, 65535)
	a16, q16 := uint16(addr), uint16(q)
	in := u.has(bank, addr, q)
	off := addr - u.start[bank]
	salt := uint64(o.a(4))
	n := u.node
	var err error
	var got []byte
	var write []byte
	mask := false
	// the caller may hand in too few values, or, of registers, too many
	values := func(n int) []byte {
		v := payload(salt, n+1)
		switch o.a(5) {
		case 1:
			n--
		case 2:
			n = 0
		case 3:
			if bank == bIn || bank == bHold {
				n++
			}
		}
		return v[:n:n]
	}
	ok := in
	inv := seq()
	switch fn {
	case 0:
		write = values((q + 7) / 8)
		ok = in && 8*len(write) >= q
		err = n.WriteCoils(a16, q16, write)
		reuses(write, nil)
	case 1:
		write = []byte{byte(salt & 1)}
		err = n.WriteSingleCoil(a16, salt&1 == 1)
	case 2:
		got, err = n.ReadCoils(a16, q16)
		reuses(got, nil)
	case 3, 7:
		var v bool
		if fn == 3 {
			v, err = n.ReadSingleCoil(a16)
		} else {
			v, err = n.ReadSingleDiscrete(a16)
		}
		got = []byte{0}
		if v {
			got[0] = 1
		}
	case 4:
		write = values((q + 7) / 8)
		ok = in && 8*len(write) >= q
		err = n.WriteDiscretes(a16, q16, write)
		reuses(write, nil)
	case 5:
		write = []byte{byte(salt & 1)}
		err = n.WriteSingleDiscrete(a16, salt&1 == 1)
	case 6:
		got, err = n.ReadDiscretes(a16, q16)
		reuses(got, nil)
	case 8, 12:
		write = values(2 * q)
		ok = in && len(write) == 2*q
		if fn == 8 {
			err = n.WriteInputsBytes(a16, q16, write)
		} else {
			err = n.WriteHoldingsBytes(a16, q16, write)
		}
		reuses(write, nil)
	case 9, 13:
		write = payload(salt, 2*q)
		v := make([]uint16, q)
		for i := range v {
			v[i] = u16(write[2*i:])
		}
		if fn == 9 {
			err = n.WriteInputs(a16, v)
		} else {
			err = n.WriteHoldings(a16, v)
		}
		reuses(nil, v)
	case 10:
		got, err = n.ReadInputsBytes(a16, q16)
		reuses(got, nil)
	case 14:
		got, err = n.ReadHoldingsBytes(a16, q16)
		reuses(got, nil)
	case 11, 15:
		var v []uint16
		if fn == 11 {
			v, err = n.ReadInputs(a16, q16)
		} else {
			v, err = n.ReadHoldings(a16, q16)
		}
		reuses(nil, v)
		got = be(v...)
	case 16, 17:
		mask = true
		err = n.MaskWriteHolding(a16, uint16(salt), uint16(salt>>7))
	}
	ret := seq()
	desc := fmt.Sprintf("local %s of %d %s at %d: err=%v got % x", map[bool]string{true: "write", false: "read"}[write != nil || mask], q, bankName[bank], addr, err, short(got))
	if ok != (err == nil) {
		fail("%s, given %d bytes (bank %d+%d)", desc, len(write), u.start[bank], u.qty[bank])
		return
	}
	if err != nil {
		return
	}
	u.record(bank, &linOp{inv: inv, ret: ret, desc: desc, step: func(st []uint16) ([]uint16, bool) {
		switch {
		case mask:
			and, or := uint16(salt), uint16(salt>>7)
			return setRegs(st, off, be(st[off]&and|or&^and)), true
		case write != nil && bank <= bDisc:
			return setBits(st, off, q, write), true
		case write != nil:
			return setRegs(st, off, write), true
		case bank <= bDisc:
			return st, string(packBits(st, off, q)) == string(got)
		}
		return st, string(be(st[off:off+q]...)) == string(got)
	}})
}

func short(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// apiFn picks the local function of a kind.
var apiReadAll = [4]int{2, 6, 10, 14}

// readAll records a read of every bank.
func (u *unitObj) readAll(seq func() int64, fail func(format string, a ...interface{})) {
	for b := 0; b < 4; b++ {
		if u.qty[b] > 0 {
			u.api(Op{A: []int{0, apiReadAll[b], 0, u.qty[b], 0}}, seq, fail)
		}
	}
}
