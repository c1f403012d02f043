package main

import (
	"encoding/binary"
	"sort"

	"verif.local/sim/simrt"
)

const never = int64(1) << 62

// linOp is one operation of a history. It takes effect at one moment between
// inv and ret; an optional one may also never take effect.
type linOp struct {
	inv, ret int64
	opt      bool
	desc     string
	// step applies the operation: the new state, and whether its recorded
	// outcome is the one it has in this state. It does not change st.
	step func(st []uint16) ([]uint16, bool)
}

type linCheck struct {
	ops    []*linOp
	done   []uint64
	seen   map[string]bool
	nodes  int
	gaveUp bool
	best   int
	stuck  *linOp
	stuckS []uint16
}

// linearize tells whether the history has a sequential explanation. When it
// gave up for its size it says yes.
func linearize(init []uint16, ops []*linOp) (bool, *linCheck) {
	o := append([]*linOp(nil), ops...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].inv < o[j].inv })
	l := &linCheck{ops: o, done: make([]uint64, (len(o)+63)/64), seen: map[string]bool{}, best: -1}
	left := 0
	for _, x := range o {
		if !x.opt {
			left++
		}
	}
	ok := l.rec(init, left, 0)
	if l.gaveUp {
		simrt.Probe("linearize-gave-up")
		return true, l
	}
	return ok, l
}

func (l *linCheck) is(i int) bool { return l.done[i/64]>>(i%64)&1 == 1 }

func (l *linCheck) rec(st []uint16, left, depth int) bool {
	if left == 0 {
		return true
	}
	l.nodes++
	if l.nodes > 60000 {
		l.gaveUp = true
		return false
	}
	h := uint64(0xcbf29ce484222325)
	for _, v := range st {
		h = mix(h ^ uint64(v))
	}
	key := make([]byte, 0, len(l.done)*8+8)
	for _, d := range l.done {
		key = binary.LittleEndian.AppendUint64(key, d)
	}
	key = binary.LittleEndian.AppendUint64(key, h)
	if l.seen[string(key)] {
		return false
	}
	l.seen[string(key)] = true
	min, last := never, int64(-1)
	for i, x := range l.ops {
		if !l.is(i) && !x.opt && x.ret < min {
			min = x.ret
		}
		if l.is(i) && x.inv > last {
			last = x.inv
		}
	}
	for i, x := range l.ops {
		if x.inv > min {
			break
		}
		if l.is(i) || x.ret < last { // done, or optional and too late
			continue
		}
		n, ok := x.step(st)
		if !ok {
			if depth > l.best && !x.opt {
				l.best, l.stuck, l.stuckS = depth, x, st
			}
			continue
		}
		l.done[i/64] |= 1 << (i % 64)
		k := left
		if !x.opt {
			k--
		}
		if l.rec(n, k, depth+1) {
			return true
		}
		l.done[i/64] &^= 1 << (i % 64)
		if l.gaveUp {
			return false
		}
	}
	return false
}

// why describes the operation that could not be explained.
func (l *linCheck) why() string {
	if l.stuck == nil {
		return "no operation fits"
	}
	return l.stuck.desc
}
