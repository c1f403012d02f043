package simrt

// Choice streams. Every nondeterministic decision of a run is drawn from a
// named stream; each stream is a PRNG derived from (seed, name) or, in a
// replay, a recorded list of choices. Choice 0 is always the tamest one
// (no preemption, no fault, no delay, whole segment), and a replayed stream
// that runs out yields 0 from then on: that is what makes traces shrinkable.

type Stream struct {
	Name   string
	state  uint64
	replay bool
	in     []uint32
	pos    int
	Rec    []uint32
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (st *Stream) next() uint64 {
	st.state += 0x9e3779b97f4a7c15
	z := st.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Choose returns a value in [0,n).
func (st *Stream) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(st.record(func() uint32 { return uint32(st.next() % uint64(n)) }) % uint32(n))
}

// Chance returns true with probability p (recorded as 0/1).
func (st *Stream) Chance(p float64) bool {
	if p <= 0 {
		return false
	}
	return st.record(func() uint32 {
		if float64(st.next()>>11)/(1<<53) < p {
			return 1
		}
		return 0
	})&1 == 1
}

// Weighted draws with f when generating; the recorded value is taken modulo n.
func (st *Stream) Weighted(n int, f func(u uint64) int) int {
	if n <= 1 {
		return 0
	}
	return int(st.record(func() uint32 { return uint32(f(st.next())) }) % uint32(n))
}

func (st *Stream) record(gen func() uint32) uint32 {
	var v uint32
	if st.replay {
		if st.pos < len(st.in) {
			v = st.in[st.pos]
		}
		st.pos++
	} else {
		v = gen()
	}
	st.Rec = append(st.Rec, v)
	return v
}

// Range returns a value in [lo,hi].
func (st *Stream) Range(lo, hi int) int { return lo + st.Choose(hi-lo+1) }
