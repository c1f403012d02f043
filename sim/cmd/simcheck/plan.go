package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"verif.local/sim/simrt"
)

// Op is one step of a plan; scenario code must tolerate any values in it.
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	B []byte `json:"b,omitempty"`
}

func (o Op) a(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is what one run does; the rest is scheduling choices.
type Plan struct {
	Scn   string          `json:"scn"`
	Knobs map[string]int  `json:"knobs,omitempty"`
	Acts  [][]Op          `json:"acts,omitempty"`
	Lists map[string][]Op `json:"lists,omitempty"`
	Pol   simrt.Policy    `json:"pol"`
}

func newPlan(scn string) *Plan {
	return &Plan{Scn: scn, Knobs: map[string]int{}, Lists: map[string][]Op{}}
}

// k is a knob clamped to [lo,hi].
func (p *Plan) k(name string, lo, hi int) int {
	v := p.Knobs[name]
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// at is the i-th entry of a list, the zero Op beyond its end. In a run with a
// long history the list is repeated first.
func (p *Plan) at(list string, i int) Op {
	if i < 0 || i >= p.n(list) {
		return Op{}
	}
	l := p.Lists[list]
	return l[i%len(l)]
}

// n is the number of entries of a list, repetitions included.
func (p *Plan) n(list string) int {
	n := len(p.Lists[list])
	if k := p.k("rep", 0, 5000); k > n && n > 0 && list != "units" {
		return k
	}
	return n
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	if q.Knobs == nil {
		q.Knobs = map[string]int{}
	}
	if q.Lists == nil {
		q.Lists = map[string][]Op{}
	}
	return q
}

func (p *Plan) size() int {
	n := 0
	for _, a := range p.Acts {
		n += 5
		for _, o := range a {
			n += 3 + len(o.A) + len(o.B)/8
		}
	}
	for _, l := range p.Lists {
		for _, o := range l {
			n += 3 + len(o.A) + len(o.B)/8
		}
	}
	for _, v := range p.Knobs {
		if v != 0 {
			n++
		}
	}
	return n
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Rng generates plans.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u() % uint64(n))
}

func (r *Rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

func (r *Rng) p(x float64) bool { return float64(r.u()>>11)/(1<<53) < x }

func (r *Rng) pick(xs ...int) int { return xs[r.n(len(xs))] }

func (r *Rng) str(xs ...string) string { return xs[r.n(len(xs))] }

// w picks an index by weights.
func (r *Rng) w(ws ...int) int {
	t := 0
	for _, x := range ws {
		t += x
	}
	v := r.n(t)
	for i, x := range ws {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (r *Rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u())
	}
	return b
}

// policy draws a scheduling policy.
func (r *Rng) policy(stalls bool) simrt.Policy {
	var p simrt.Policy
	switch r.w(2, 5, 3) {
	case 0: // tame
		p.Preempt = 0
	case 1:
		p.Preempt = []float64{0.05, 0.2, 0.5, 0.9}[r.n(4)]
		p.FuseMean = r.pick(0, 8, 30, 100, 400)
	case 2:
		p.Kind = 1
		p.Changes = r.in(1, 6)
		p.FuseMean = r.pick(0, 0, 30, 200)
	}
	if stalls && r.p(0.3) {
		p.StallProb = []float64{0.002, 0.02, 0.1}[r.n(3)]
		p.StallMax = int64(r.pick(5, 50, 400)) * 1e6
		p.Stalls = r.in(1, 8)
	}
	if r.p(0.15) {
		for i := range p.JumpAt {
			p.JumpAt[i] = int64(1+r.n(1000)) * int64(r.pick(1e5, 1e6, 1e7, 1e8))
			by := int64(r.pick(5e7, 1e9, 1e10, 36e11))
			if r.p(0.2) {
				by = 10 * 365 * 86400 * 1e9
			}
			if r.p(0.6) {
				by = -by
			}
			p.JumpBy[i] = by
			if r.p(0.5) {
				break
			}
		}
	}
	return p
}

// netKnobs draws the network's character.
func (r *Rng) netKnobs(p *Plan) {
	p.Knobs["seg"] = r.w(4, 3, 2)
	p.Knobs["lat"] = r.pick(0, 1, 5, 20) // ms, maximum
	p.Knobs["short"] = r.n(2)
	p.Knobs["rstdrop"] = r.n(2)
	if r.p(0.3) {
		p.Knobs["gap"] = r.in(1, 10)
	}
}

const ms = int64(1000000)

// ---- verdicts ----

// Violation of a property.
type Violation struct {
	Prop string `json:"property"`
	Msg  string `json:"what"`
	At   int64  `json:"at_ns"`
	End  string `json:"end"`
	Stk  string `json:"stack,omitempty"`
}

var (
	checked string // the property this process checks
	viol    *Violation
)

// Fail reports that prop does not hold; it ends the run if prop is the one
// being checked and is noted otherwise.
func Fail(prop, format string, a ...interface{}) {
	if simrt.Dying() {
		return
	}
	msg := fmt.Sprintf(format, a...)
	simrt.Logf("FAIL %s: %s", prop, msg)
	if prop != checked {
		simrt.Probe("other-" + prop)
		return
	}
	if viol == nil {
		viol = &Violation{Prop: prop, Msg: msg, At: simrt.Now(), End: "oracle"}
	}
	simrt.End()
}

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
