package main

import (
	"encoding/json"
	"os"
	"time"

	"verif.local/sim/simrt"
)

// Replay is the replay file.
type Replay struct {
	Property  string              `json:"property"`
	Seed      uint64              `json:"verif_seed"`
	Run       int                 `json:"run"`
	SimSeed   uint64              `json:"sim_seed"`
	Race      bool                `json:"race,omitempty"`
	Plan      *Plan               `json:"plan"`
	Choices   map[string][]uint32 `json:"choices"`
	Violation *Violation          `json:"violation"`
	Notes     []string            `json:"notes,omitempty"`
	Log       []string            `json:"log,omitempty"`
}

func (r *Replay) save(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		return err
	}
	return os.Rename(path+".tmp", path)
}

func loadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(b, r)
}

func weight(ch map[string][]uint32) int {
	n := 0
	for _, l := range ch {
		for _, v := range l {
			if v != 0 {
				n++
			}
		}
	}
	return n
}

// shrink reduces a violating run while it keeps violating.
func shrink(rp *Replay, budget time.Duration, path string) {
	end := time.Now().Add(budget)
	over := func() bool { return time.Now().After(end) }
	tries := 0
	try := func(p *Plan, seed uint64, ch map[string][]uint32) bool {
		tries++
		r := executeAny(rp.Property, p, seed, ch)
		if r.v == nil || r.v.End != rp.Violation.End {
			return false
		}
		rp.Plan, rp.SimSeed, rp.Choices, rp.Violation = p.clone(), seed, trimChoices(r.o.Choices), r.v
		rp.save(path)
		return true
	}
	// a plan candidate may need other schedules than the recorded one
	cand := func(p *Plan) bool {
		if over() {
			return false
		}
		if try(p, rp.SimSeed, rp.Choices) {
			return true
		}
		for i := uint64(0); i < 4 && !over(); i++ {
			if try(p, mix(rp.SimSeed+i), nil) {
				return true
			}
		}
		return false
	}
	for pass := 0; pass < 6 && !over(); pass++ {
		before := rp.Plan.size()
		// whole actors, lists
		for i := len(rp.Plan.Acts) - 1; i >= 0; i-- {
			q := rp.Plan.clone()
			if i < len(q.Acts) {
				q.Acts = append(q.Acts[:i], q.Acts[i+1:]...)
				cand(q)
			}
		}
		for name := range rp.Plan.Lists {
			q := rp.Plan.clone()
			delete(q.Lists, name)
			cand(q)
		}
		// single ops, halves first
		get := func(p *Plan, i int, name string) []Op {
			if name == "" {
				if i < len(p.Acts) {
					return p.Acts[i]
				}
				return nil
			}
			return p.Lists[name]
		}
		set := func(p *Plan, i int, name string, l []Op) {
			if name == "" {
				p.Acts[i] = l
			} else {
				p.Lists[name] = l
			}
		}
		reduce := func(i int, name string) {
			for n := len(get(rp.Plan, i, name)); n >= 1; n /= 2 {
				for at := 0; at < len(get(rp.Plan, i, name)) && !over(); {
					q := rp.Plan.clone()
					l := get(q, i, name)
					e := at + n
					if e > len(l) {
						e = len(l)
					}
					set(q, i, name, append(append([]Op{}, l[:at]...), l[e:]...))
					if !cand(q) {
						at += n
					}
				}
			}
			// list entries by position matter: neutralise instead of removing
			for at := 0; at < len(get(rp.Plan, i, name)) && !over(); at++ {
				l := get(rp.Plan, i, name)
				if name != "" && l[at].K != "" {
					q := rp.Plan.clone()
					get(q, i, name)[at] = Op{}
					if cand(q) {
						continue
					}
				}
				for j := range get(rp.Plan, i, name)[at].A {
					if l := get(rp.Plan, i, name); at >= len(l) || j >= len(l[at].A) || l[at].A[j] == 0 {
						continue
					}
					for _, v := range []int{0, 1, get(rp.Plan, i, name)[at].A[j] / 2} {
						q := rp.Plan.clone()
						if get(q, i, name)[at].A[j] <= v {
							continue
						}
						get(q, i, name)[at].A[j] = v
						if cand(q) {
							break
						}
					}
				}
				if b := get(rp.Plan, i, name); at < len(b) && len(b[at].B) > 1 {
					q := rp.Plan.clone()
					x := &get(q, i, name)[at]
					x.B = x.B[:len(x.B)/2]
					cand(q)
				}
			}
		}
		for i := 0; i < len(rp.Plan.Acts) && !over(); i++ {
			reduce(i, "")
		}
		for name := range rp.Plan.Lists {
			reduce(-1, name)
		}
		for _, k := range sortedKeys(rp.Plan.Knobs) {
			if rp.Plan.Knobs[k] == 0 || over() {
				continue
			}
			q := rp.Plan.clone()
			delete(q.Knobs, k)
			cand(q)
		}
		// a tamer scheduler
		pols := []simrt.Policy{{}, {Preempt: rp.Plan.Pol.Preempt}, {Preempt: 0.2}, {Preempt: rp.Plan.Pol.Preempt, FuseMean: rp.Plan.Pol.FuseMean}}
		if rp.Plan.Pol.JumpAt[0] != 0 { // it may be the clock that matters
			for _, po := range pols[:4] {
				po.JumpAt, po.JumpBy = rp.Plan.Pol.JumpAt, rp.Plan.Pol.JumpBy
				pols = append(pols, po)
			}
		}
		if rp.Plan.Pol != (simrt.Policy{}) {
			for _, po := range pols {
				if po == rp.Plan.Pol {
					continue
				}
				q := rp.Plan.clone()
				q.Pol = po
				if cand(q) {
					break
				}
			}
		}
		if rp.Plan.size() == before {
			break
		}
	}
	// the recorded choices
	for pass := 0; pass < 4 && !over(); pass++ {
		before := weight(rp.Choices)
		var names []string
		for n := range rp.Choices {
			names = append(names, n)
		}
		for _, n := range names {
			with := func(l []uint32) map[string][]uint32 {
				m := map[string][]uint32{}
				for k, v := range rp.Choices {
					m[k] = v
				}
				m[n] = l
				return m
			}
			better := func(l []uint32) bool {
				if over() {
					return false
				}
				old := rp.Choices
				ow := weight(old)
				r := executeAny(rp.Property, rp.Plan, rp.SimSeed, with(l))
				if r.v == nil || r.v.End != rp.Violation.End || weight(r.o.Choices) >= ow {
					return false
				}
				rp.Choices, rp.Violation = trimChoices(r.o.Choices), r.v
				rp.save(path)
				return true
			}
			if len(rp.Choices[n]) == 0 {
				continue
			}
			if better(nil) {
				continue
			}
			for sz := len(rp.Choices[n]) / 2; sz >= 1 && !over(); sz /= 2 {
				for at := 0; at < len(rp.Choices[n]) && !over(); at += sz {
					l := append([]uint32{}, rp.Choices[n]...)
					nz := false
					for i := at; i < at+sz && i < len(l); i++ {
						nz = nz || l[i] != 0
						l[i] = 0
					}
					if nz {
						better(l)
					}
				}
			}
		}
		if weight(rp.Choices) == before {
			break
		}
	}
}

func trimChoices(ch map[string][]uint32) map[string][]uint32 {
	m := map[string][]uint32{}
	for k, l := range ch {
		n := len(l)
		for n > 0 && l[n-1] == 0 {
			n--
		}
		if n > 0 {
			m[k] = append([]uint32{}, l[:n]...)
		}
	}
	return m
}

// executeAny runs a plan in a replay or, with nil choices, freshly.
func executeAny(prop string, p *Plan, seed uint64, ch map[string][]uint32) *result {
	return execute1(prop, p, seed, ch, false)
}
