package main

import (
	"fmt"
	"math/rand"
	"slices"
)

func init() {
	scenario("gem", runGem)
	property("G01", 100000, 5000000, gen{1, "gem", genG01})
	property("G02", 100000, 5000000, gen{1, "gem", genG02})
	property("G03", 100000, 5000000, gen{1, "gem", genG03})
	property("G04", 100000, 5000000, gen{4, "gem", genG04}, gen{1, "gem", genCalls(kS2F33, kS2F35, kS2F37)})
	property("G05", 100000, 5000000, gen{4, "gem", genG05}, gen{1, "gem", genHostIn(kS6F11)}, gen{1, "gem", genCalls(kS6F15)})
	property("G06", 100000, 5000000, gen{4, "gem", genG06}, gen{1, "gem", genCalls(kS2F13, kS2F15, kS2F29)})
	property("G07", 100000, 5000000, gen{4, "gem", genG07}, gen{1, "gem", genHostIn(kS5F1)}, gen{1, "gem", genCalls(kS5F3, kS5F5, kS5F7)})
	property("G08", 100000, 5000000, gen{4, "gem", genG08}, gen{1, "gem", genCalls(kS7F3, kS7F5)})
	property("G09", 100000, 5000000, gen{4, "gem", genG09}, gen{1, "gem", genCalls(kS2F41)})
	property("G10", 100000, 5000000, gen{4, "gem", genG10}, gen{1, "gem", genCalls(kS1F3, kS1F11)})
	property("G11", 100000, 5000000, gen{4, "gem", genG11}, gen{1, "gem", genCalls(kS2F17, kS2F31)})
	property("G12", 100000, 5000000, gen{4, "gem", genG12}, gen{1, "gem", genG12Host})
}

// genGem draws what all GEM plans share.
func genGem(r *rand.Rand, p *Plan, host bool) {
	genLab(r, p)
	delete(p.Cfg, "ctr_set")
	p.Cfg["net.sndbuf"] = 0
	p.Cfg["host"] = b2i(host)
	p.Cfg["ew"] = pick(r, 500, 500, 1000, 1000, 1300, 1300, 2500, 2500, 0)
	p.Cfg["ctl0"] = int64(r.Intn(4))
	p.Cfg["local"] = int64(r.Intn(2))
	p.Cfg["est.delay"] = pick(r, 0, 0, 1, 20, 150)
	p.Cfg["est.late"] = pick(r, 5, 60, 300)
	p.Cfg["on.delay"] = pick(r, 0, 0, 1, 30)
	p.Cfg["slowcmd"] = pick(r, 5, 40, 200)
	p.Cfg["malseed"] = int64(r.Intn(100))
	p.Cfg["ident"] = int64(r.Intn(7))
	p.Cfg["ansseed"] = int64(r.Intn(1 << 20))
	p.Cfg["reent"] = b2i(chance(r, 0.3))
}

// spread draws how far operations are apart.
func spread(r *rand.Rand) func() int64 {
	at := int64(0)
	m := pick(r, 0, 1, 5, 40, 250)
	return func() int64 {
		if !chance(r, 0.3) {
			at += between(r, 0, m)
		}
		return at
	}
}

func last(p *Plan) int64 {
	var m int64
	for _, o := range p.Ops {
		if o.At > m {
			m = o.At
		}
	}
	return m
}

// genLoss adds, now and then, a loss of the connection and operations after it.
func genLoss(r *rand.Rand, p *Plan, q float64, more func(at int64)) {
	if !chance(r, q) {
		return
	}
	t := last(p)
	addLoss(r, p, t+50)
	for i := 1 + r.Intn(5); i > 0; i-- {
		more(t + between(r, 0, p.Cfg["t5"]*1000+2500))
	}
	p.Cfg["tail"] = pick(r, 0, 1500)
}

func add(p *Plan, at int64, k string, v ...int64) {
	o := Op{At: at, K: k}
	for i, x := range v {
		switch i {
		case 0:
			o.A = x
		case 1:
			o.B = x
		case 2:
			o.C = x
		case 3:
			o.D = x
		}
	}
	p.Ops = append(p.Ops, o)
}

// req adds a primary: one in fifty without a reply wanted, damaged with probability mut.
func req(r *rand.Rand, p *Plan, at, kind int64, mut float64) {
	m := int64(0)
	if chance(r, mut) {
		m = 1 + int64(r.Intn(2))
	}
	add(p, at, "g", kind, m, b2i(chance(r, 0.03)), p.Cfg["world"]<<31|r.Int63n(1<<30))
}

// smallWorld has the requests of the plan concern few things, more often than not.
func smallWorld(r *rand.Rand, p *Plan) {
	if chance(r, 0.6) {
		p.Cfg["world"] = 1 + r.Int63n(1<<20)
	}
}

// genRegs has the application register things while the equipment runs, some of them again.
func genRegs(r *rand.Rand, p *Plan, classes ...string) {
	if !chance(r, 0.4) {
		return
	}
	n := map[string]int{"sv": 6, "dv": 4, "ec": 8, "ce": 4}
	end := last(p)
	c, at, tie := "", between(r, 0, end+10), chance(r, 0.3)
	for i := 1 + r.Intn(3); i > 0; i-- {
		if c == "" || !tie {
			c = classes[r.Intn(len(classes))]
		}
		k := int64(r.Intn(n[c]))
		o := Op{K: "enrol", S: c, A: k, At: between(r, 0, end+10)}
		if tie {
			o.At = at // all at once
		}
		if chance(r, 0.75) {
			p.Cfg["late."+c] |= 1 << k
		}
		p.Ops = append(p.Ops, o)
		if chance(r, 0.4) {
			o.At = pick(r, o.At, o.At, between(r, 0, end+10))
			o.B = b2i(chance(r, 0.1))
			p.Ops = append(p.Ops, o)
		}
	}
}

func genTrig(r *rand.Rand, p *Plan, at int64) {
	m := int64(0)
	if w := p.Cfg["world"]; w != 0 {
		ces := worldOf(w << 31).ce
		for i := 1 + r.Intn(len(ces)); i > 0; i-- {
			m = m*8 + 1 + int64(slices.Index(ceKeys, ces[r.Intn(len(ces))]))
		}
		add(p, at, "trig", m, 0)
		return
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		m = m*8 + int64(1+r.Intn(4))
	}
	if chance(r, 0.6) {
		m = int64(1 + r.Intn(4))
	}
	add(p, at, "trig", m, b2i(chance(r, 0.05)))
}

func genG04(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	smallWorld(r, p)
	at := spread(r)
	if chance(r, 0.7) {
		req(r, p, at(), kS2F33, 0)
		req(r, p, at(), kS2F35, 0)
		req(r, p, at(), kS2F35, 0)
	}
	one := func(t int64) {
		switch k := r.Intn(12); {
		case k < 3:
			req(r, p, t, kS2F33, 0.04)
		case k < 6:
			req(r, p, t, kS2F35, 0.04)
		case k < 8:
			req(r, p, t, kS2F37, 0.04)
		case k < 10:
			req(r, p, t, kS6F15, 0)
		default:
			genTrig(r, p, t)
		}
	}
	for i := 3 + r.Intn(9); i > 0; i-- {
		one(at())
	}
	if chance(r, 0.3) {
		genTrig(r, p, last(p)+pick(r, 0, 20, 300))
	}
	genRegs(r, p, "sv", "dv", "ce", "ce")
	readBack(r, p, kS6F15, ceKeys)
	genLoss(r, p, 0.15, one)
}

// readBack asks for everything at the end.
func readBack(r *rand.Rand, p *Plan, kind int64, keys []string) {
	if chance(r, 0.6) {
		t := last(p) + pick(r, 0, 20, 300)
		for i := range keys {
			p.Ops = append(p.Ops, Op{At: t, K: "g", A: kind, D: r.Int63n(1 << 30), S: keys[i]})
		}
	}
}

func genG05(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	at := spread(r)
	smallWorld(r, p)
	p.Cfg["nocb"] = int64(r.Intn(2))
	for i := 1 + r.Intn(2); i > 0; i-- {
		req(r, p, at(), kS2F33, 0)
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		req(r, p, at(), kS2F35, 0)
	}
	one := func(t int64) {
		if p.Cfg["reent"] != 0 && chance(r, 0.1) {
			req(r, p, t, kS2F41, 0)
			return
		}
		switch k := r.Intn(20); {
		case k < 8:
			genTrig(r, p, t)
		case k < 12:
			add(p, t, "setvar", int64(r.Intn(8)))
		case k < 15:
			req(r, p, t, kS6F15, 0.02)
		case k < 16:
			req(r, p, t, kS2F33, 0)
		case k < 17:
			req(r, p, t, kS2F35, 0)
		case k < 18:
			req(r, p, t, kS1F3, 0)
		default:
			req(r, p, t, kS2F37, 0)
		}
	}
	for i := 3 + r.Intn(8); i > 0; i-- {
		one(at())
	}
	genRegs(r, p, "sv", "dv", "ce", "ce")
	genProvs(r, p, 11)
	genLoss(r, p, 0.15, one)
}

// genProvs has the application change where variables take their values from.
func genProvs(r *rand.Rand, p *Plan, n int) {
	if !chance(r, 0.3) {
		return
	}
	end := last(p)
	k := int64(r.Intn(n))
	for i := 1 + r.Intn(3); i > 0; i-- {
		if chance(r, 0.4) {
			k = int64(r.Intn(n))
		}
		add(p, between(r, 0, end+10), "setprov", k, int64(r.Intn(3)))
		if chance(r, 0.5) {
			add(p, between(r, 0, end+10), "setvar", k, 1)
		}
	}
}

func genG06(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	own := chance(r, 0.5)
	smallWorld(r, p)
	at := spread(r)
	one := func(t int64) {
		switch k := r.Intn(10); {
		case k == 0 && own:
			add(p, t, "setec", int64(r.Intn(8)), pick(r, 3, 77, 400, 450, 2000), b2i(chance(r, 0.05)))
		case k == 9 && own:
			add(p, t, "getec", int64(r.Intn(8)))
		case k < 5:
			req(r, p, t, kS2F15, 0.06)
		case k < 8:
			req(r, p, t, kS2F13, 0.03)
		default:
			req(r, p, t, kS2F29, 0.03)
		}
	}
	for i := 3 + r.Intn(10); i > 0; i-- {
		one(at())
	}
	if chance(r, 0.6) {
		p.Ops = append(p.Ops, Op{At: last(p) + pick(r, 0, 20, 300), K: "g", A: kS2F13, S: "*"})
	}
	genRegs(r, p, "ec")
	genLoss(r, p, 0.15, one)
}

func genG07(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	if chance(r, 0.3) {
		p.Cfg["late.al"] = 1 << r.Intn(6) // registered while running, if at all
	}
	at := spread(r)
	one := func(t int64) {
		switch k := r.Intn(20); {
		case k < 8:
			add(p, t, "alarm", int64(r.Intn(8)), int64(r.Intn(2)), int64(r.Intn(2)))
		case k < 10:
			add(p, t, []string{"almen", "almen", "almreg"}[r.Intn(3)], int64(r.Intn(6+r.Intn(2))), int64(r.Intn(2)))
		case k < 15:
			req(r, p, t, kS5F3, 0.03)
		case k < 18:
			req(r, p, t, kS5F5, 0.02)
		default:
			req(r, p, t, kS5F7, 0.02)
		}
	}
	for i := 4 + r.Intn(10); i > 0; i-- {
		one(at())
	}
	genLoss(r, p, 0.15, one)
}

func genG08(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["nocb"] = pick(r, 0, 0, 16, 48)
	at := spread(r)
	one := func(t int64) {
		switch k := r.Intn(10); {
		case k < 4:
			req(r, p, t, kS7F3, 0.08)
		case k < 8:
			req(r, p, t, kS7F5, 0.04)
		default:
			add(p, t, []string{"regpp", "regpp", "listpp"}[r.Intn(3)], int64(r.Intn(4)))
		}
	}
	for i := 3 + r.Intn(10); i > 0; i-- {
		one(at())
	}
	readBack(r, p, kS7F5, ppKeys)
	genLoss(r, p, 0.25, one)
}

func genG09(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["nocb"] = pick(r, 0, 0, 0, 0, 2)
	at := spread(r)
	one := func(t int64) { req(r, p, t, kS2F41, 0.05) }
	for i := 2 + r.Intn(10); i > 0; i-- {
		one(at())
	}
	for i := r.Intn(3); i > 0; i-- {
		req(r, p, at(), pick(r, kS2F17, kS1F3, kS1F1), 0)
	}
	if chance(r, 0.25) {
		end := last(p)
		for i := 1 + r.Intn(3); i > 0; i-- {
			add(p, between(r, 0, end+10), "clkset", 2, int64(r.Intn(2)))
		}
	}
	genLoss(r, p, 0.25, one)
}

func genG10(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["nocb"] = int64(r.Intn(2))
	at := spread(r)
	one := func(t int64) {
		switch k := r.Intn(10); {
		case k < 3:
			add(p, t, "setvar", int64(r.Intn(4)))
		case k < 7:
			req(r, p, t, kS1F3, 0.05)
		default:
			req(r, p, t, kS1F11, 0.05)
		}
	}
	for i := 3 + r.Intn(12); i > 0; i-- {
		one(at())
	}
	genRegs(r, p, "sv")
	genProvs(r, p, 6)
	genLoss(r, p, 0.1, one)
}

func genG11(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["nocb"] = pick(r, 0, 0, 0, 4, 8, 12)
	p.Cfg["tz"] = pick(r, 0, 0, 36, -32, 22)
	at := spread(r)
	one := func(t int64) { req(r, p, t, pick(r, kS2F17, kS2F31), 0.05) }
	for i := 3 + r.Intn(10); i > 0; i-- {
		one(at())
		if chance(r, 0.2) { // time passes
			add(p, at()+between(r, 0, 2500), "gpoll")
		}
		if chance(r, 0.15) {
			add(p, at(), "gtime")
		}
	}
	if chance(r, 0.25) {
		end := last(p)
		for i := 1 + r.Intn(4); i > 0; i-- {
			add(p, between(r, 0, end+10), "clkset", int64(r.Intn(2)), int64(r.Intn(2)))
		}
	}
	genLoss(r, p, 0.1, one)
}

func genG12(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["nocb"] = pick(r, 0, 31, int64(r.Intn(64)))
	at := spread(r)
	one := func(t int64) {
		k := int64(r.Intn(kNEq))
		if chance(r, 0.05) {
			k = pick(r, kS5F1, kS6F11)
		}
		req(r, p, t, k, 0.6)
	}
	for i := 3 + r.Intn(14); i > 0; i-- {
		one(at())
		if chance(r, 0.1) {
			genTrig(r, p, at())
		}
	}
	genLoss(r, p, 0.1, one)
}

func genG12Host(r *rand.Rand, p *Plan) {
	genGem(r, p, true)
	at := spread(r)
	for i := 3 + r.Intn(10); i > 0; i-- {
		k := pick(r, kS5F1, kS5F1, kS6F11, kS6F11, kHS1F1, kHS1F13)
		if chance(r, 0.15) {
			k = int64(r.Intn(kNEq))
		}
		req(r, p, at(), k, 0.6)
	}
}

// genAnswers draws how the peer answers a host's requests.
func genAnswers(r *rand.Rand, p *Plan, n int) {
	for i := 0; i < n; i++ {
		if chance(r, 0.25) {
			p.Cfg[fmt.Sprintf("ans.%d", i)] = pick(r, 1, 2, 2, 3)
		}
		p.Cfg[fmt.Sprintf("ansd.%d", i)] = pick(r, 0, 0, 1, 10, 100)
		if chance(r, 0.03) {
			p.Cfg[fmt.Sprintf("ansd.%d", i)] = p.Cfg["t3"]*1000 + between(r, -50, 50)
		}
	}
}

// genCalls: a host's calls against scripted answers.
func genCalls(kinds ...int64) func(r *rand.Rand, p *Plan) {
	return func(r *rand.Rand, p *Plan) {
		genGem(r, p, true)
		at := spread(r)
		one := func(t int64) {
			if k := kinds[r.Intn(len(kinds))]; chance(r, 0.05) {
				add(p, t, "badcall", k, int64(r.Intn(20)))
			} else {
				add(p, t, "call", k, 0, 0, r.Int63n(1<<30))
			}
		}
		n := 2 + r.Intn(8)
		for i := 0; i < n; i++ {
			one(at())
		}
		genAnswers(r, p, n+5)
		genLoss(r, p, 0.15, one)
	}
}

// genHostIn: reports arriving at a host.
func genHostIn(kind int64) func(r *rand.Rand, p *Plan) {
	return func(r *rand.Rand, p *Plan) {
		genGem(r, p, true)
		at := spread(r)
		one := func(t int64) { req(r, p, t, kind, 0.05) }
		for i := 2 + r.Intn(12); i > 0; i-- {
			one(at())
			if chance(r, 0.1) {
				add(p, at(), "call", kS1F3, 0, 0, r.Int63n(1<<30))
			}
		}
		genLoss(r, p, 0.15, one)
	}
}

// estModes draws what becomes of the attempts to establish communication.
// genTies has things happen at the very instants timers of the endpoint expire.
func genTies(r *rand.Rand, p *Plan) {
	if !chance(r, 0.2) {
		return
	}
	p.Cfg["net.min_us"], p.Cfg["net.jit_us"], p.Cfg["net.conn_us"] = 0, 0, 0
	if chance(r, 0.6) {
		p.Cfg["align"] = 500
	}
	if chance(r, 0.6) {
		p.Cfg["est.edge"] = 1 + r.Int63n(5)
		p.Cfg["redial"] = 1
		p.Cfg["nowait"] = 1
		for i := 0; i < 3; i++ {
			if k := fmt.Sprintf("est.%d", i); !p.Has(k) && chance(r, 0.5) {
				p.Cfg[k] = pick(r, 1, 1, 2, 3, 4)
			}
		}
	}
}

func estModes(r *rand.Rand, p *Plan, n int, fail float64) (fails int64) {
	for i := 0; i < n; i++ {
		if chance(r, fail) {
			p.Cfg[fmt.Sprintf("est.%d", i)] = pick(r, 1, 1, 2, 2, 3, 4, 5, 6)
			fails++
		}
	}
	return
}

func genLinkFault(r *rand.Rand, p *Plan, at int64) {
	k := []string{"close", "abort", "reset", "break", "frame"}[r.Intn(5)]
	o := Op{At: at, K: k, A: between(r, 0, 400)}
	if k == "frame" {
		o.A, o.B = tSepReq, p.Cfg["psess"]
	}
	p.Ops = append(p.Ops, o)
	p.Cfg["redial"] = 1
}

func genG01(r *rand.Rand, p *Plan) {
	genGem(r, p, chance(r, 0.5))
	p.Cfg["redial"] = int64(r.Intn(4))
	p.Cfg["nowait"] = int64(r.Intn(2))
	if chance(r, 0.15) {
		p.Cfg["cold"] = 1
		add(p, 0, "enable")
		if p.Cfg["active"] == 0 {
			add(p, between(r, 1, 800), "dial", 20)
		}
	}
	p.Cfg["fails"] = 4
	if chance(r, 0.3) {
		p.Cfg["racers"], p.Cfg["racewin"] = pick(r, 3, 6, 12), p.Cfg["net.min_us"]+p.Cfg["net.jit_us"]+pick(r, 10, 100, 400)
	}
	estModes(r, p, 4, 0.3)
	if chance(r, 0.2) {
		p.Cfg[fmt.Sprintf("est.%d", r.Intn(4))] = pick(r, 7, 8)
		p.Cfg["redial"] = 1
		p.Cfg["nowait"] = 1
	}
	if chance(r, 0.3) {
		p.Cfg["t5"] = 1
	}
	at := int64(0)
	m := pick(r, 30, 200, 600, 1500)
	for i := 2 + r.Intn(8); i > 0; i-- {
		at += between(r, 0, m)
		switch k := r.Intn(20); {
		case k < 5:
			genLinkFault(r, p, at)
		case k < 8:
			req(r, p, at, pick(r, kHS1F13, kS1F13), 0)
		case k < 10:
			add(p, at, "s1f14", pick(r, 0, 0, 1))
		case k < 15:
			add(p, at, "wait", 0, pick(r, 0, 10, 200, 1000, 5000))
		case k < 17:
			add(p, at, "disable")
			if chance(r, 0.15) {
				add(p, at+pick(r, 0, 0, 1, 3), "disable")
			}
			at += between(r, 0, pick(r, 5, 400, 1500))
			add(p, at, "enable")
			if chance(r, 0.2) {
				add(p, at+pick(r, 0, 0, 1, 300), "enable")
			}
		case k < 18:
			add(p, at, []string{"gpoll", "wrong"}[r.Intn(2)], int64(r.Intn(17)))
		case k < 19 && p.Cfg["host"] != 0:
			add(p, at, "call", hostCalls[r.Intn(len(hostCalls))], 0, 0, r.Int63n(1<<30))
		case k < 19:
			add(p, at, []string{"alarm", "trig"}[r.Intn(2)], int64(1+r.Intn(4)), int64(r.Intn(2)))
		default:
			req(r, p, at, pick(r, kHS1F1, kS1F1), 0)
		}
	}
	if k := hostCalls[r.Intn(len(hostCalls))]; p.Cfg["host"] != 0 && chance(r, 0.4) {
		for i := 1 + r.Intn(4); i > 0; i-- {
			add(p, between(r, 0, last(p)), "call", k, 0, 0, r.Int63n(1<<30))
		}
	}
	p.Cfg["tail"] = pick(r, 0, 1000, 4000)
	genTies(r, p)
}

// hostCalls are the requests hosts have calls for.
var hostCalls = []int64{kS1F3, kS1F11, kS2F13, kS2F29, kS2F15, kS2F33, kS2F35, kS2F37, kS6F15, kS7F3, kS7F5, kS2F41, kS2F17, kS2F31, kS5F3, kS5F5, kS5F7}

// genH12gem: a GEM handler that is enabled and disabled, and disabled in the end.
func genH12gem(r *rand.Rand, p *Plan) {
	genG01(r, p)
	p.Cfg["off"] = 1
	for i := range p.Ops {
		if o := &p.Ops[i]; o.K == "wait" && o.B == 0 {
			o.B = 700
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		t := between(r, 0, last(p)+100)
		add(p, t, "disable")
		add(p, t+pick(r, 0, 0, 1, 20, 700), "enable")
	}
	if chance(r, 0.3) { // just before the end
		t := last(p) + between(r, 0, 300)
		add(p, t, "disable")
		add(p, t+between(r, 0, 600), "enable")
		p.Cfg["tail"] = between(r, 0, 600)
	}
}

func genG02(r *rand.Rand, p *Plan) {
	genGem(r, p, chance(r, 0.5))
	p.Cfg["nowait"] = 1
	p.Cfg["fails"] = 5
	p.Cfg["redial"] = int64(r.Intn(2))
	n := estModes(r, p, 5, 0.6)
	at := int64(0)
	m := pick(r, 200, 1000, 3000)
	for i := r.Intn(4); i > 0; i-- {
		at += between(r, 0, m)
		switch k := r.Intn(10); {
		case k < 2:
			genLinkFault(r, p, at)
		case k < 4:
			req(r, p, at, pick(r, kHS1F13, kS1F13), 0)
		case k < 6:
			add(p, at, "s1f14", pick(r, 0, 1, 1))
		case k < 7:
			add(p, at, "disable")
			at += between(r, 0, pick(r, 5, 400, 1500))
			add(p, at, "enable")
		default:
			add(p, at, "wait", 0, pick(r, 200, 1000, 5000))
		}
	}
	genTies(r, p)
	if p.Has("est.edge") && chance(r, 0.4) {
		p.Cfg["est.edge"] = pick(r, 6, 6, 7, 8, 9, 14)
	}
	p.Cfg["tail"] = n*(p.Cfg["ew"]+600+b2i(p.Cfg["ew"] == 0)*10000) + pick(r, 1000, 3000, 9000)
}

func genG03(r *rand.Rand, p *Plan) {
	genGem(r, p, false)
	p.Cfg["redial"] = 1
	p.Cfg["nowait"] = int64(r.Intn(4)) / 3
	p.Cfg["cbctl"] = pick(r, 0, 0, 0, 1, 2, 3, 4)
	for i := 0; i < 6; i++ {
		if chance(r, 0.4) {
			p.Cfg[fmt.Sprintf("on.%d", i)] = pick(r, 1, 1, 2, 3, 4, 5)
		}
	}
	if chance(r, 0.2) {
		p.Cfg["est.0"] = pick(r, 1, 2, 5)
		p.Cfg["fails"] = 1
	}
	at := spread(r)
	for i := 2 + r.Intn(9); i > 0; i-- {
		t := at()
		if chance(r, 0.1) {
			t += between(r, 0, 3000)
		}
		switch k := r.Intn(20); {
		case k < 6:
			req(r, p, t, kS1F15, 0)
		case k < 11:
			req(r, p, t, kS1F17, 0)
		case k < 17:
			add(p, t, "ctl", pick(r, 0, 0, 1, 1, 2, 3))
		case k < 18:
			add(p, t, "gpoll")
		case k < 19:
			genLinkFault(r, p, t)
		default:
			if chance(r, 0.3) {
				add(p, t, "disable")
				add(p, t+between(r, 0, 700), "enable")
			}
		}
	}
	genTies(r, p)
	p.Cfg["tail"] = pick(r, 0, 1000, 4000)
}
