package main

import "verif.local/sim/simrt"

func (r *Rng) layout(tiny bool) []int {
	var l []int
	for b := 0; b < 4; b++ {
		q := 0
		switch r.w(6, 2, 1, 1) {
		case 0:
			q = r.in(1, 20)
			if tiny {
				q = r.in(1, 6)
			}
		case 1:
			q = r.in(1, 70)
		case 2:
			q = r.pick(125, 126, 250, 500, 2000, 2100)
		case 3:
			q = 0
		}
		if tiny && q > 20 {
			q = 20
		}
		s := 0
		switch r.w(5, 2, 2, 1) {
		case 1:
			s = r.in(1, 300)
		case 2:
			s = 65536 - q
			if s > 65535 {
				s = 65535
			}
		case 3:
			s = 65535 - q
		}
		l = append(l, s, q)
	}
	return l
}

var stdFCs = []int{1, 2, 3, 4, 5, 6, 15, 16, 22, 23}

// genReq draws a request to unit index ui with layout lay.
func (r *Rng) genReq(ui int, lay []int, fcs []int, badp float64, flags int) Op {
	fc := fcs[r.n(len(fcs))]
	b := bankOf(byte(fc))
	q := 1
	off := 0
	if b >= 0 && lay != nil {
		bq := lay[2*b+1]
		off = r.n(bq + 1)
		if off == bq && bq > 0 && !r.p(0.1) {
			off = bq - 1
		}
		left := bq - off
		switch r.w(3, 3, 1) {
		case 0:
			q = r.in(1, clamp(left, 1, 4))
		case 1:
			q = r.in(1, clamp(left, 1, 2000))
		case 2:
			q = clamp(left, 1, 2000)
		}
	} else {
		q = r.in(1, 10)
	}
	mut := 0
	if r.p(badp) {
		mut = r.in(1, 10)
		if mut == 1 {
			off = r.pick(off+1, lay2(lay, b), lay2(lay, b)+1, -1, -2, 70000, 32768, 65535)
		}
	}
	chunk, gap := 0, 0
	if r.p(0.25) {
		chunk, gap = r.pick(1, 2, 3, 6, 7, 8, 9, 11, 30), r.pick(0, 0, 1, 5)
	}
	return Op{K: "req", A: []int{ui, fc, off, q, r.n(65536), mut, chunk, gap, flags, r.in(1, 12), r.n(1 << 24)}}
}

func lay2(lay []int, b int) int {
	if b < 0 || lay == nil {
		return 3
	}
	return lay[2*b+1]
}

func (r *Rng) genAPI(ui int, lay []int) Op {
	fn := r.n(18)
	b := []int{0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3}[fn]
	bq := lay[2*b+1]
	off := r.n(bq + 1)
	q := r.in(1, clamp(bq-off, 1, 65535))
	if r.p(0.08) {
		q = r.pick(1, bq+1, bq-off+1, 32767, 32768, 40000, 65535, 65536-lay[2*b]-off)
	}
	few := 0
	if r.p(0.06) {
		few = r.in(1, 3)
	}
	return Op{K: "api", A: []int{ui, fn, off, q, r.n(1 << 24), few}}
}

func genSlave(r *Rng, prop string, idx int, deep bool) *Plan {
	p := newPlan("slave")
	p.Knobs["R"] = r.pick(200, 500, 1000, 3000)
	p.Knobs["W"] = r.pick(1000, 1500)
	p.Knobs["endmode"] = r.n(2)
	r.netKnobs(p)
	p.Pol = r.policy(prop == "S04" || prop == "S05" || prop == "S06")
	if prop == "S01" || prop == "S03" || prop == "S08" {
		if r.p(0.2) {
			p.Knobs["special"] = 1
		}
	}
	special := p.Knobs["special"] == 1
	if r.p(0.05) {
		p.Knobs["log"] = 1
	}
	if r.p(0.2) {
		p.Knobs["win"] = r.pick(50, 100, 300)
		p.Knobs["gap"] = 0
	}
	// units
	ids := []int{201, 202, 203}
	if prop == "S01" || prop == "S02" {
		ids = [][]int{{1, 2, 3}, {0, 255, 7}, {201, 17, 247}}[r.n(3)]
	}
	nu := r.in(1, 2)
	tiny := prop == "S02" && r.p(0.7)
	var lays [][]int
	addUnit := func(id int, lay []int) {
		p.Lists["units"] = append(p.Lists["units"], Op{K: "unit", A: append([]int{id}, lay...)})
		lays = append(lays, lay)
	}
	big := prop == "S02" && idx%211 == 7
	wide := prop == "S02" && !big && r.p(0.2) // everyone at the same long stretches
	for i := 0; i < nu; i++ {
		lay := r.layout(tiny)
		if big && i == 0 {
			for b := 0; b < 4; b++ {
				q := r.pick(65535, 65534, 40000, 33000)
				lay[2*b], lay[2*b+1] = r.n(65537-q), q
				if lay[2*b] > 65535 {
					lay[2*b] = 65535
				}
			}
		}
		if wide && i == 0 {
			q := r.in(10, 60)
			for b := 0; b < 4; b++ {
				lay[2*b+1] = q
				if lay[2*b] > 65536-lay[2*b+1] {
					lay[2*b] = 65536 - lay[2*b+1]
				}
			}
		}
		addUnit(ids[i], lay)
	}
	nc := r.in(1, 4)
	if special {
		nc = 1
	}
	nops := r.in(2, 9)
	if deep {
		nops += r.n(10)
	}
	badp := 0.15
	fcs := stdFCs
	// a client that behaves
	good := func(ui int, n int, badp float64, closed bool) []Op {
		ops := []Op{{K: "client"}}
		for i := 0; i < n; i++ {
			if r.p(0.08) {
				ops = append(ops, Op{K: "sleep", A: []int{r.pick(1, 20, p.Knobs["R"]/2, p.Knobs["R"]-30)}})
			}
			u := ui
			if u < 0 {
				u = r.n(nu)
			}
			fl := 0
			if closed || r.p(0.4) {
				fl = 1
			} else if r.p(0.4) {
				fl = 2
			}
			ops = append(ops, r.genReq(u, lays[u], fcs, badp, fl))
		}
		return ops
	}
	switch prop {
	case "S01":
		for c := 0; c < nc; c++ {
			ops := good(-1, nops, badp, false)
			for i := range ops {
				if ops[i].K == "req" && r.p(0.12) {
					switch r.n(3) {
					case 0:
						ops[i].A[0] = 500 + r.n(20) // unknown unit
						if r.p(0.6) {
							ops[i].A[0] = 600 + r.pick(0, 255, 247, 248, 128, ids[0]+1, ids[0]^0x80, ids[nu-1]-1)&255
						}
					case 1:
						ops[i].A[1] = r.pick(7, 8, 11, 17, 20, 21, 24, 43, 65, 99, 100, 127, 128, 129, 131, 134, 144, 150, 195, 255)
					case 2: // same transaction id again
						ops[i].A[4] = 7
					}
				}
			}
			switch r.n(6) {
			case 0:
				ops = append(ops, Op{K: "fin"})
			case 1:
				ops = append(ops, Op{K: "wait"}, Op{K: "close"})
				ops = append(ops, good(-1, r.in(1, 4), badp, false)[1:]...)
			}
			p.Acts = append(p.Acts, ops)
		}
	case "S02":
		nc = r.in(1, 4)
		if big {
			nops = r.in(2, 4)
			nc = r.in(1, 2)
		}
		if r.p(0.5) { // everyone hammers one kind of bank
			fcs = [][]int{{3, 6, 16, 22, 23}, {1, 5, 15}, {3, 22, 6}, {3, 16, 23}, {23}, {2, 1}, {4, 3, 16}}[r.n(7)]
		}
		hot := wide || !big && r.p(0.35) // all at the same few places, at once
		var hotAPI []int
		if hot {
			k := r.n(8)
			fcs = [][]int{{22, 3}, {22, 6}, {22, 16, 3}, {5, 15, 1}, {15, 1}, {23, 3}, {16, 3}, {2, 4}}[k]
			hotAPI = [][]int{{17, 15}, {17, 13}, {17, 12, 14}, {0, 1, 2}, {0, 2}, {12, 14}, {13, 14}, {4, 6, 8, 10}}[k]
			nc, badp = r.in(2, 3), 0
		}
		for c := 0; c < nc; c++ {
			p.Acts = append(p.Acts, good(r.pick(-1, 0, 0), nops, badp, r.p(0.6)))
		}
		for c := r.n(3); c > 0; c-- {
			ops := []Op{{K: "local"}}
			for i := 0; i < nops; i++ {
				u := r.n(nu)
				ops = append(ops, r.genAPI(u, lays[u]))
			}
			p.Acts = append(p.Acts, ops)
		}
		if hot {
			p.Knobs["lat"], p.Knobs["gap"], p.Knobs["seg"] = 0, 0, 0
			span := r.in(1, 3)
			for _, ops := range p.Acts {
				for _, o := range ops {
					if (o.K == "req" || o.K == "api") && o.a(2) >= 0 && o.a(3) <= 125 {
						o.A[2] %= span
						if n := 1 + o.A[3]%3; !wide {
							o.A[3] = n
						} else if r.p(0.8) {
							o.A[0], o.A[3] = 0, lays[0][1]-o.a(2)-n%2
						}
					}
					if o.K == "api" && len(hotAPI) > 0 {
						o.A[1] = hotAPI[o.A[1]%len(hotAPI)]
					}
				}
			}
		}
		if r.p(0.2) {
			p.Acts[0] = append(p.Acts[0], Op{K: r.str("rst", "close", "cut")})
		}
	case "S03":
		p.Knobs["sink"] = 5
		if !special {
			for c := r.in(1, 2); c > 0; c-- { // victims
				p.Acts = append(p.Acts, good(r.n(nu), nops, 0, true))
			}
		}
		for c := r.in(1, 3); c > 0; c-- { // attackers
			if special && len(p.Acts) > 0 {
				break
			}
			ops := []Op{{K: "client"}}
			for i := 0; i < nops; i++ {
				switch r.w(5, 3, 2, 2, 1, 1) {
				case 0: // framed nonsense
					u := r.n(nu)
					o := r.genReq(u, lays[u], fcs, 0.9, r.pick(0, 1, 2))
					if r.p(0.06) {
						o.A[1] |= 0x80
						o.A[5] = 0
					}
					ops = append(ops, o)
				case 1:
					ops = append(ops, Op{K: "garb", A: []int{r.n(len(garbKinds)), r.n(1 << 20), r.pick(0, 0, 1, 5), r.pick(0, 0, 1, 20)}})
				case 2: // nonsense to the sink
					o := r.genReq(998, []int{0, 40, 0, 40, 0, 20, 0, 20}, fcs, 0.7, r.pick(0, 1, 2))
					ops = append(ops, o)
				case 3:
					ops = append(ops, Op{K: r.str("close", "rst", "rst", "cut", "fin")})
				case 4:
					u := r.n(nu)
					o := r.genReq(u, lays[u], fcs, 0.3, 0)
					o.K = "part"
					ops = append(ops, o)
				case 5:
					ops = append(ops, Op{K: "sleep", A: []int{r.in(1, 300)}})
				}
			}
			p.Acts = append(p.Acts, ops)
		}
		p.Knobs["endmode"] = r.w(1, 2)
	case "S04":
		p.Knobs["sink"] = 5
		W := p.Knobs["W"]
		R := p.Knobs["R"]
		if r.p(0.5) {
			p.Knobs["win"] = r.pick(1, 20, 100, 300)
			p.Knobs["gap"], p.Knobs["lat"] = 0, 1
		}
		for c := r.in(1, 2); c > 0; c-- { // punctual clients
			ops := []Op{{K: "client"}}
			for i := 0; i < nops; i++ {
				if r.p(0.5) {
					ops = append(ops, Op{K: "sleep", A: []int{r.pick(1, R/3, R-60, R-90)}})
				}
				u := r.n(nu)
				ops = append(ops, r.genReq(u, lays[u], fcs, 0.1, r.pick(0, 1, 1, 1)))
				if i == 0 { // requests that take most of the read timeout to come
					o := &ops[len(ops)-1]
					o.A[6] = r.pick(3, 5, 7, 11)
					o.A[7] = clamp((R-60)/5, 1, 10000)
					if len(ops) > 2 {
						ops = append(ops[:1], ops[2:]...)
					}
				}
			}
			p.Acts = append(p.Acts, ops)
		}
		for c := r.in(1, 3); c > 0; c-- { // troublesome ones
			ops := []Op{{K: "client"}}
			n := r.in(0, 3)
			for i := 0; i < n; i++ {
				u := r.n(nu)
				ops = append(ops, r.genReq(u, lays[u], fcs, 0.1, 1))
			}
			switch r.n(5) {
			case 0: // falls silent within a request
				u := r.n(nu)
				o := r.genReq(u, lays[u], []int{6, 16, 15, 5, 23, 22, 3}, 0, 0)
				o.K = "part"
				if r.p(0.4) {
					o.A[9] = r.in(1, 200)
				}
				if r.p(0.4) {
					o.A[6], o.A[7] = r.pick(1, 2, 7), r.pick(1, R/8, R/3)
				}
				ops = append(ops, o)
			case 1: // does not read
				ops = append(ops, Op{K: "noread"})
				for i := 0; i < 12; i++ {
					u := r.n(nu)
					ops = append(ops, r.genReq(u, lays[u], fcs, 0, 0))
				}
				if r.p(0.3) {
					ops = append(ops, Op{K: "sleep", A: []int{W / 2}}, Op{K: "resume"})
				}
			case 2: // vanishes
				u := r.n(nu)
				ops = append(ops, r.genReq(u, lays[u], fcs, 0, 0), Op{K: r.str("cut", "rst", "cut")})
			case 3: // never says anything
				ops = append(ops, Op{K: "sleep", A: []int{1}})
				o := r.genReq(0, lays[0], fcs, 0, 0)
				o.K = "part"
				o.A[9] = r.pick(1, 6, 7)
				ops = append(ops, o)
			case 4: // late
				u := r.n(nu)
				ops = append(ops, Op{K: "sleep", A: []int{R + r.in(-20, 300)}}, r.genReq(u, lays[u], fcs, 0, 1))
			}
			p.Acts = append(p.Acts, ops)
		}
		p.Knobs["endmode"] = r.w(3, 1)
	case "S05":
		if r.p(0.3) {
			p.Knobs["early"] = 1
			p.Knobs["startdelay"] = r.pick(0, 0, 1)
		}
		for c := r.in(0, 4); c > 0; c-- {
			switch r.w(5, 1, 1, 2) {
			case 0:
				p.Acts = append(p.Acts, good(-1, nops, badp, r.p(0.5)))
			case 1: // floods foreign headers for long
				ops := []Op{{K: "client"}}
				for i := 0; i < 6; i++ {
					ops = append(ops, Op{K: "garb", A: []int{r.pick(0, 5, 8), r.n(1 << 20), 0, 0}}, Op{K: "sleep", A: []int{p.Knobs["R"] * 3 / 4}})
				}
				p.Acts = append(p.Acts, ops)
			case 2: // does not read
				ops := []Op{{K: "client"}, {K: "noread"}}
				for i := 0; i < 20; i++ {
					u := r.n(nu)
					ops = append(ops, r.genReq(u, lays[u], fcs, 0, 0))
				}
				p.Acts = append(p.Acts, ops)
			case 3:
				u := r.n(nu)
				o := r.genReq(u, lays[u], fcs, 0, 0)
				o.K = "part"
				if r.p(0.6) {
					o.A[6], o.A[7] = r.pick(1, 1, 7), r.pick(1, p.Knobs["R"]/8, p.Knobs["R"]/2, p.Knobs["R"]-30)
				}
				o.A[9] = r.in(1, 60)
				p.Acts = append(p.Acts, append([]Op{{K: "client"}}, o))
			}
		}
		p.Knobs["stopclients"] = r.n(2)
		for i := r.in(1, 3); i > 0; i-- {
			us := 0
			if r.p(0.5) {
				us = r.in(0, 3000)
			}
			p.Lists["close"] = append(p.Lists["close"], Op{K: "close", A: []int{r.pick(0, 0, 1, 2, 5, 30, 200, 1000), us}})
		}
		if r.p(0.15) {
			p.Lists["acc"] = []Op{{K: "acc", A: []int{r.pick(0, 1, 20), r.n(5), r.in(1, 9), 0}}}
		}
		if r.p(0.3) {
			p.Knobs["win"] = r.pick(10, 50, 300)
			p.Knobs["gap"] = 0
		}
		p.Knobs["endmode"] = r.n(2)
	case "S06":
		for i := r.in(1, 4); i > 0; i-- {
			o := Op{K: "acc", A: []int{r.pick(0, 1, 20, 300, 1500), r.n(5), r.pick(1, 1, 2, 5, 12), 0}}
			if r.p(0.25) {
				o.A[2], o.A[3] = 0, r.pick(10, 500, 3000)
			}
			p.Lists["acc"] = append(p.Lists["acc"], o)
		}
		for c := r.in(2, 5); c > 0; c-- {
			ops := []Op{{K: "client"}}
			for k := r.in(1, 4); k > 0; k-- {
				if r.p(0.5) {
					ops = append(ops, Op{K: "sleep", A: []int{r.pick(1, 10, 300, 1200, 2500)}})
				}
				ops = append(ops, good(-1, r.in(1, 3), 0.1, r.p(0.7))[1:]...)
				if r.p(0.2) {
					ops = append(ops, Op{K: "garb", A: []int{r.n(len(garbKinds)), r.n(1 << 20), 0, 0}})
				}
				ops = append(ops, Op{K: r.str("close", "rst", "cut", "fin", "wait")})
			}
			p.Acts = append(p.Acts, ops)
		}
		p.Knobs["sink"] = 5
		p.Knobs["endmode"] = r.w(1, 2)
	case "S07":
		p.Lists["units"] = p.Lists["units"][:1]
		nu = 1
		if r.p(0.25) {
			p.Lists["units"] = nil
			nu = 0
		}
		wide := r.p(0.4)
		no := r.in(2, 5)
		if wide {
			no += 4
		}
		for i := 0; i < no; i++ {
			id := r.pick(10, 10, 11)
			if wide {
				id = r.pick(1, 2, 10, 11, 12, 13, 14, 0, 255)
			}
			o := Op{K: "obj", A: []int{id, r.n(2), 0}}
			if r.p(0.1) {
				o.A[2] = r.pick(10, 11, 77)
			}
			p.Lists["objs"] = append(p.Lists["objs"], o)
		}
		ndi := 2
		if wide {
			ndi = 9
		}
		many := r.p(0.03)
		if many { // a great many different units
			no = r.pick(17, 33, 65, 129, 256)
			p.Lists["objs"] = nil
			for i := 0; i < no; i++ {
				p.Lists["objs"] = append(p.Lists["objs"], Op{K: "obj", A: []int{(i*37 + 5) & 255, r.w(1, 3), 0}})
			}
			ndi = no
		}
		for c := r.in(1, 3); c > 0; c-- {
			ops := []Op{{K: "client"}}
			for i := 0; i < nops; i++ {
				fl := r.pick(0, 2)
				ops = append(ops, Op{K: "dreq", A: []int{r.n(ndi), r.n(4), fl, r.pick(0, 0, 0, 1, 7), 0}})
				if nu > 0 && r.p(0.8) {
					ops = append(ops, r.genReq(0, lays[0], fcs, 0.1, r.pick(0, 1, 1)))
				}
			}
			p.Acts = append(p.Acts, ops)
		}
		for c := r.in(1, 2); c > 0; c-- {
			ops := []Op{{K: "owner"}}
			for i := 0; i < nops+2; i++ {
				switch r.w(4, 3, 1, 2, 1, 1, 2, 1) {
				case 0:
					a := []int{r.n(no)}
					if r.p(0.3) {
						a = append(a, r.n(no))
					}
					if many && r.p(0.5) {
						for j := r.n(no); j > 0; j-- {
							a = append(a, r.n(no))
						}
					}
					ops = append(ops, Op{K: "uadd", A: a})
				case 1:
					ops = append(ops, Op{K: "udel", A: []int{r.n(ndi)}})
				case 2:
					ops = append(ops, Op{K: "udelsome"})
				case 3:
					ops = append(ops, Op{K: "uget", A: []int{r.n(ndi)}})
				case 4:
					ops = append(ops, Op{K: "ulist"})
				case 5:
					o := Op{K: "urange", A: []int{0, 0, r.n(1 << 12)}}
					if r.p(0.5) { // stops early, changes units meanwhile
						o.A[0], o.A[1] = r.pick(0, 1, 2), r.n(16)
					}
					ops = append(ops, o)
				case 6:
					ops = append(ops, Op{K: "sleep", A: []int{r.pick(0, 1, 3)}})
				case 7:
					ops = append(ops, Op{K: "udelall"})
				}
			}
			p.Acts = append(p.Acts, ops)
		}
	case "S08":
		hf := r.in(1, 3)
		hfc := []int{65, 100, 43, 3, 6, 16, 24, r.in(1, 127)}
		var mine []int
		for i := 0; i < hf; i++ {
			f := hfc[r.n(len(hfc))]
			mine = append(mine, f)
			p.Lists["hnd"] = append(p.Lists["hnd"], Op{K: "h", A: []int{f, r.n(2)}})
		}
		for c := 0; c < nc; c++ {
			ops := []Op{{K: "client"}}
			for i := 0; i < nops; i++ {
				u := r.n(nu)
				o := r.genReq(u, lays[u], fcs, 0.1, r.pick(0, 1, 2))
				if r.p(0.6) {
					o.A[1] = mine[r.n(len(mine))]
				}
				for _, f := range mine {
					if o.A[1] == f { // behaviour, padding, code
						o.A[2], o.A[3], o.A[5] = r.n(nBehave), r.pick(0, 1, 10, 246), r.pick(1, 2, 3, 4, 5, 6, 11, 40, 200)
						if r.p(0.06) {
							o.A[0] = 500
						}
						if r.p(0.12) {
							o.A[3] = 300 + r.n(6)
						}
						if r.p(0.05) {
							o.A[1] = f | 0x80
						}
						if r.p(0.04) {
							o.K = "part"
							o.A[9] = r.in(1, 14)
						}
					}
				}
				ops = append(ops, o)
				if o.K == "part" {
					ops = append(ops, Op{K: "close"})
				}
			}
			p.Acts = append(p.Acts, ops)
		}
		p.Knobs["R"] = r.pick(500, 1000, 3000)
	}
	return p
}

var _ = simrt.Now
