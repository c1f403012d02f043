package main

import "os"

// Long histories: some runs repeat a part of their plan hundreds of times,
// for what only shows after many requests, connections, failures or restarts.

// longAll makes every run a long one (for trying them out).
var longAll = os.Getenv("SIM_LONG") != ""

// expand repeats what follows a "loop".
func expand(ops []Op) []Op {
	for i, o := range ops {
		if o.K != "loop" {
			continue
		}
		body := ops[i+1:]
		n := clamp(o.a(0), 0, 2000)
		if n*len(body) > 4000 {
			n = 4000 / len(body)
		}
		out := append([]Op(nil), ops[:i]...)
		for k := 0; k < n; k++ {
			for _, b := range body {
				if b.K == "loop" {
					continue
				}
				if b.K == "req" && len(b.A) > 10 { // other transaction ids and data
					a := append([]int(nil), b.A...)
					a[4], a[10] = (a[4]+k)&0xffff, (a[10]+k*7919)&0xffffff
					b.A = a
				}
				out = append(out, b)
			}
		}
		return out
	}
	return ops
}

// lengthen makes a plan one of a long history.
func lengthen(r *Rng, p *Plan) {
	n := r.pick(70, 130, 270, 300, 520)
	p.Knobs["maxtime"] = 1000000
	if r.p(0.6) {
		p.Knobs["rep"] = n
	}
	switch p.Scn {
	case "slave", "special", "tcpm", "serm", "e2e", "args", "mix":
	case "cycle":
		p.Knobs["rep"] = r.pick(20, 40, 70)
		return
	default:
		return
	}
	if len(p.Acts) == 0 {
		return
	}
	if p.Scn == "slave" && r.p(0.2) { // many at a time
		i := r.n(len(p.Acts))
		if a := p.Acts[i]; len(a) > 0 && a[0].K == "client" {
			a[0].A = []int{r.in(20, 150)}
			if len(a) > 4 {
				p.Acts[i] = a[:4]
			}
		}
		return
	}
	k := r.in(1, 2)
	for ; k > 0; k-- {
		i := r.n(len(p.Acts))
		a := p.Acts[i]
		h := 0
		if len(a) > 0 {
			switch a[0].K {
			case "client", "owner", "local", "master":
				h = 1
			case "loop":
				continue
			}
		}
		body := a[h:]
		keep := r.in(1, 6)
		if p.Scn == "special" {
			keep = 30
		}
		for len(body) > keep {
			j := r.n(len(body))
			body = append(body[:j:j], body[j+1:]...)
		}
		if len(body) == 0 {
			continue
		}
		if h == 1 && a[0].K == "client" {
			one := r.p(0.6)
			for j := range body {
				if body[j].K == "req" && len(body[j].A) > 10 && one {
					body[j].A[8] |= 1
				}
			}
			if r.p(0.4) {
				body = append(body[:len(body):len(body)], Op{K: r.str("close", "rst", "cut", "fin", "wait")})
			}
		}
		b := append([]Op(nil), a[:h]...)
		b = append(b, Op{K: "loop", A: []int{n}})
		p.Acts[i] = append(b, body...)
	}
}
