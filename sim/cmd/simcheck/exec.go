package main

import (
	"fmt"
	"strings"
	"time"

	modbus "github.com/things-go/go-modbus"
	"verif.local/sim/simrt"
	"verif.local/sim/simserial"
)

type scenario struct {
	gen func(r *Rng, prop string, idx int, deep bool) *Plan
	run func(p *Plan, prop string)
}

var scenarios = map[string]scenario{}

// prop says how a property is explored.
type propSpec struct {
	scns  []string // scenarios, drawn with equal weight (repeat to weight)
	quick int
	thor  int
	race  bool
	rule  string // what makes a run count as distinct and non-trivial
}

// result of one run.
type result struct {
	o *simrt.Outcome
	v *Violation
	// internal is set when the simulator or harness itself went wrong.
	internal string
	wall     time.Duration
}

func runSeed(seed uint64, prop string, idx int) uint64 {
	h := seed * 0x9e3779b97f4a7c15
	for _, c := range prop {
		h = mix(h ^ uint64(c))
	}
	return mix(h + uint64(idx))
}

func genPlan(prop string, seed uint64, idx int, deep bool) *Plan {
	sp := props[prop]
	r := &Rng{s: mix(runSeed(seed, prop, idx) ^ 0x1234)}
	scn := sp.scns[idx%len(sp.scns)]
	if prop == "X01" {
		return genRace(r, scn, idx, deep)
	}
	p := scenarios[scn].gen(r, prop, idx, deep)
	p.Scn = scn
	if idx%139 == 29 || longAll {
		lengthen(&Rng{s: mix(r.s ^ 0x10e6)}, p)
	}
	return p
}

func execute(prop string, p *Plan, seed uint64, replay map[string][]uint32, verbose bool) *result {
	checked = prop
	viol = nil
	modbus.SimReset()
	simserial.Reset()
	cfg := simrt.Config{Seed: seed, Policy: p.Pol, Replay: replay, Verbose: verbose,
		MaxTime: int64(p.k("maxtime", 3600, 1000000)) * 1e9, MaxStep: 8000000}
	t := time.Now()
	o := simrt.Run(cfg, func() { scenarios[p.Scn].run(p, p.inner(prop)) })
	r := &result{o: o, wall: time.Since(t)}
	switch {
	case viol != nil:
		r.v = viol
	case o.End == "done":
	case o.End == "internal":
		r.internal = o.Detail + "\n" + o.Stack
	default:
		what := map[string]string{
			"crash":     "the process crashes: ",
			"deadlock":  "everything is blocked for good: ",
			"livelock":  "a task runs on without end: ",
			"timelimit": "the run never comes to an end: ",
		}[o.End]
		r.v = &Violation{Prop: prop, Msg: what + o.Detail, At: o.Now, End: o.End, Stk: trimStack(o.Stack)}
	}
	return r
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if len(out) < 60 {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func (v *Violation) String() string {
	return fmt.Sprintf("%s at %v: %s", v.Prop, time.Duration(v.At), v.Msg)
}
