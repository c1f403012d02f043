package main

func genSpecial(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("special")
	p.Knobs["R"] = r.pick(200, 300, 1000, 2000)
	p.Knobs["W"] = r.pick(200, 1000)
	p.Knobs["CT"] = r.pick(50, 200, 1000)
	p.Knobs["RI"] = r.pick(30, 100, 700, 3000)
	p.Knobs["addr"] = r.n(3)
	r.netKnobs(p)
	p.Pol = r.policy(r.p(0.3))
	if r.p(0.15) {
		p.Knobs["noAR"] = 1
	}
	if prop == "R03" && r.p(0.9) || r.p(0.4) {
		p.Knobs["KA"] = r.pick(40, 100, 300, 701, 1000)
	} else {
		p.Knobs["kaoff"] = r.n(2)
	}
	if r.p(0.05) {
		p.Knobs["log"] = 1
	}
	// dials
	nd := r.n(7)
	for i := 0; i < nd; i++ {
		o := Op{K: "dial", A: []int{0, 0}}
		switch r.w(5, 2, 1, 1, 1) {
		case 1:
			o.A[0] = 1
		case 2:
			o.A[0] = 2
		case 3:
			o.A[0] = 3
		case 4:
			o.A[1] = r.pick(1, 20, 49, 50, 51, 190, 210, 900)
		}
		if r.p(0.15) {
			o.A[1] = r.in(1, 60)
		}
		p.Lists["dial"] = append(p.Lists["dial"], o)
	}
	R, KA := p.Knobs["R"], p.Knobs["KA"]
	// lives of the connections
	nl := r.in(0, 5)
	for i := 0; i < nl; i++ {
		kind := r.w(5, 3, 2, 1, 1, 2, 2, 1, 1)
		dur := r.pick(0, 1, 10, 100, R/2, R)
		if KA > 0 && r.p(0.6) {
			dur = KA*r.in(1, 5) + r.pick(-1, 0, 0, 1, KA/2)
		}
		if kind == 6 {
			dur = 0
		}
		gap := r.pick(1, 10, 50, 150)
		n := dur/gap + r.n(2)
		if n > 40 {
			n = 40
		}
		if kind == 5 {
			n = r.n(3)
		}
		p.Lists["life"] = append(p.Lists["life"], Op{K: "life", A: []int{kind, dur, n, gap, r.n(100)}})
	}
	// callbacks
	cb := func(list string, n int, failp float64, acts []int) {
		for i := 0; i < n; i++ {
			o := Op{K: "cb", A: []int{0, 0, 0}}
			if r.p(failp) {
				o.A[0] = 1
			}
			if r.p(0.3) {
				o.A[1] = acts[r.n(len(acts))]
			}
			if r.p(0.15) {
				o.A[2] = r.pick(1, 20, 100, 600)
			}
			p.Lists[list] = append(p.Lists[list], o)
		}
	}
	acts := []int{1, 2, 5, 1}
	if prop == "R02" {
		acts = []int{1, 2, 3, 4, 5, 3}
	}
	cb("oncon", r.n(6), []float64{0, 0.3}[r.w(1, 1)], acts)
	cb("onlost", r.n(6), 0, acts)
	if KA > 0 {
		for i := r.n(12); i > 0; i-- {
			o := Op{K: "ka", A: []int{r.w(4, 3, 1), 0}}
			if prop == "R02" && r.p(0.1) {
				o.A[0] = 3
			}
			if r.p(0.08) {
				o.A[1] = r.pick(1, KA/2, KA, KA*2)
			}
			p.Lists["onka"] = append(p.Lists["onka"], o)
		}
	}
	// controllers
	pause := func() Op {
		return Op{K: "sleep", A: []int{r.pick(0, 0, 1, 5, 30, 50, 100, 200, R, p.Knobs["RI"], 500, 700, 1000, r.n(3000)), r.pick(0, 0, r.n(1000))}}
	}
	query := func() Op { return Op{K: r.str("connected?", "closed?", "connected?", "conn?")} }
	var main []Op
	if r.p(0.1) {
		main = append(main, query())
	}
	if r.p(0.1) {
		main = append(main, Op{K: "close"})
	}
	main = append(main, Op{K: "start"})
	rounds := 1
	if prop == "R02" {
		rounds = r.in(1, 4)
	} else if r.p(0.15) {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		if i > 0 {
			if r.p(0.6) {
				main = append(main, Op{K: "awaitup", A: []int{r.pick(100, 1000, 5000)}})
			}
			if r.p(0.8) {
				main = append(main, pause())
			}
			main = append(main, Op{K: "close"})
			if r.p(0.2) {
				main = append(main, Op{K: "close"})
			}
			if r.p(0.75) {
				main = append(main, Op{K: "await"})
			}
			if r.p(0.3) {
				main = append(main, query())
			}
			if r.p(0.3) {
				main = append(main, pause())
			}
			main = append(main, Op{K: "start"})
			if r.p(0.2) {
				main = append(main, Op{K: "start"})
			}
		}
		for k := r.in(1, 6); k > 0; k-- {
			main = append(main, pause())
			if r.p(0.6) {
				main = append(main, query())
			}
			if r.p(0.05) {
				main = append(main, Op{K: "start"})
			}
		}
	}
	if prop != "R02" || r.p(0.3) {
		main = append(main, Op{K: "sleep", A: []int{r.in(500, 8000), 0}})
	}
	if prop == "R02" && r.p(0.5) {
		main = append(main, pause(), Op{K: "close"})
		if r.p(0.3) {
			main = append(main, Op{K: "close"})
		}
	}
	p.Acts = append(p.Acts, main)
	for k := r.w(4, 3, 1); k > 0; k-- {
		var ops []Op
		for j := r.in(1, 8); j > 0; j-- {
			ops = append(ops, pause())
			o := query()
			if prop == "R02" && r.p(0.25) {
				o = Op{K: r.str("close", "start", "close")}
			}
			if r.p(0.05) {
				o = Op{K: "log", A: []int{r.n(2)}}
			}
			ops = append(ops, o)
		}
		p.Acts = append(p.Acts, ops)
	}
	return p
}
