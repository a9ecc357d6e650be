package main

import (
	"math/rand"
	"slices"
	"time"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func init() {
	scenario("traffic", runTraffic)
	property("H01", 30000, 1500000, gen{1, "traffic", genH01})
	property("H02", 30000, 1500000, gen{1, "traffic", tied(genH02)})
	property("H03", 30000, 1500000, gen{1, "traffic", tied(genH03)})
	property("H06", 20000, 1000000, gen{1, "traffic", genH06})
	property("H15", 30000, 1500000, gen{1, "traffic", genH15})
	property("H16", 30000, 1500000, gen{1, "traffic", tied(genH16)})
}

// genLab draws what all single-endpoint plans share.
func genLab(r *rand.Rand, p *Plan) {
	genTimers(r, p)
	p.Cfg["active"] = int64(r.Intn(2))
	p.Cfg["sess"] = pick(r, 1, 1, 256, 0xFFFF, 0)
	p.Cfg["psess"] = 1
	if s := p.Cfg["sess"]; s == 256 {
		p.Cfg["psess"] = 256
	}
	if chance(r, 0.3) {
		p.Cfg["ctr_set"] = 1
		p.Cfg["ctr"] = pick(r, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFF0, 0, 0x7FFFFFFE, 0x50000000)
	}
	p.Cfg["log"] = pick(r, 0, 0, 0, 1, 2, 3)
}

func genH01(r *rand.Rand, p *Plan) {
	genLab(r, p)
	n := 2 + r.Intn(10)
	span := pick(r, 0, 5, 50, 400)
	for i := 0; i < n; i++ {
		a := pick(r, 0, 0, 0, 2, 3, 4, 5, 6, 7, 8, 1)
		o := Op{At: between(r, 0, span), K: "req", A: a, B: pick(r, 0, 0, 1, 3, 10, 40, between(r, 0, 300)), C: pick(r, 0, 1, 3, 20), D: int64(r.Intn(12))}
		if chance(r, 0.05) { // close to or after T3
			o.B = p.Cfg["t3"]*1000 + between(r, -30, 30)
		}
		if chance(r, 0.1) {
			o.S = "opt"
		}
		p.Ops = append(p.Ops, o)
	}
	for i := r.Intn(5); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span+20), K: "prim", A: int64(r.Intn(len(labSF))), B: pick(r, 0, 1, 2, 5), C: pick(r, 0, 0, 2, 30), D: int64(r.Intn(12)), S: []string{"", "w"}[r.Intn(2)]})
	}
}

// addLoss adds the loss of the connection and its re-establishment.
func addLoss(r *rand.Rand, p *Plan, span int64) {
	p.Cfg["redial"] = 1
	k := []string{"close", "abort", "reset", "break", "frame"}[r.Intn(5)]
	o := Op{At: between(r, 0, span), K: k, A: between(r, 0, 400)}
	if k == "frame" {
		o.A = tSepReq
		o.B = p.Cfg["psess"]
	}
	p.Ops = append(p.Ops, o)
}

func genH02(r *rand.Rand, p *Plan) {
	genLab(r, p)
	n := 1 + r.Intn(8)
	span := pick(r, 0, 5, 100, 2000)
	t3 := p.Cfg["t3"] * 1000
	for i := 0; i < n; i++ {
		o := Op{At: between(r, 0, span), K: "req", A: pick(r, 0, 0, 0, 0, 1, 1, 2, 7, 8), B: pick(r, 0, 0, 1, 2, 30), C: pick(r, 0, 1, 3), D: int64(r.Intn(12))}
		switch r.Intn(4) {
		case 0:
			o.B = t3 + pick(r, 0, between(r, -400, 60), between(r, -400, 60))
		case 1:
			o.B = between(r, 0, t3)
		}
		p.Ops = append(p.Ops, o)
	}
	if chance(r, 0.3) {
		addLoss(r, p, span+t3)
		// requests after the loss, while the earlier ones may still wait
		for i := r.Intn(3); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: span + between(r, 0, t3+4000), K: "req", A: 0, B: pick(r, 0, 5)})
		}
	}
}

func genH03(r *rand.Rand, p *Plan) {
	genLab(r, p)
	p.Cfg["nohandlers"] = pick(r, 0, 0, 0, 5, r.Int63n(allSF+1))
	p.Cfg["default"] = int64(r.Intn(2))
	span := pick(r, 0, 10, 200, 1500)
	for i := 1 + r.Intn(14); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "prim", A: int64(r.Intn(len(labSF))), B: pick(r, 0, 0, 0, 0, 1, 2, 3, 4, 5, 5), C: pick(r, 0, 0, 0, 1, 30, 200), D: int64(r.Intn(12)), S: []string{"", "w", "w"}[r.Intn(3)]})
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: []string{"req", "snd"}[r.Intn(2)], A: pick(r, 0, 3, 4, 8), B: pick(r, 0, 5), C: 2, D: int64(r.Intn(12))})
	}
	for i := r.Intn(3); i > 0; i-- { // control traffic in between
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "frame", A: pick(r, tLnkReq, tSelReq), B: p.Cfg["psess"]})
	}
	if chance(r, 0.3) {
		addLoss(r, p, span+200)
		for i := r.Intn(4); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: span + between(r, 0, 4500), K: "prim", A: int64(r.Intn(len(labSF))), D: int64(r.Intn(12)), S: "w"})
		}
	}
}

func genH06(r *rand.Rand, p *Plan) {
	genLab(r, p)
	p.Cfg["net.seg"] = pick(r, 1, 2, 2, 0)
	p.Cfg["net.short"] = int64(r.Intn(2))
	p.Cfg["net.sndbuf"] = pick(r, 0, 64, 300, 4096)
	if chance(r, 0.3) {
		p.Cfg["slowread"] = pick(r, 1, 5)
	}
	if p.Cfg["net.jit_us"] > 1000 {
		p.Cfg["net.jit_us"] = 1000
	}
	span := pick(r, 0, 2, 20)
	size := func() int64 {
		if chance(r, 0.25) {
			return pick(r, 255, 256, 257, 300, 511, 512, 700, 1500)
		}
		return pick(r, 0, 1, 2, 3, 10, 50)
	}
	for i := 2 + r.Intn(10); i > 0; i-- {
		k := "snd"
		if r.Intn(3) == 0 {
			k = "req"
		}
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: k, A: 0, B: pick(r, 0, 1), C: size(), D: int64(r.Intn(12))})
	}
	for i := r.Intn(6); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "prim", A: int64(r.Intn(len(labSF))), B: pick(r, 0, 0, 5), D: int64(r.Intn(12)), S: []string{"", "w"}[r.Intn(2)], I: 0})
	}
	if chance(r, 0.08) { // a payload that needs three length bytes
		p.Cfg["net.seg"] = pick(r, 0, 1)
		p.Cfg["net.short"] = 0
		p.Cfg["net.sndbuf"] = 0
		p.Cfg["slowread"] = 0
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "snd", C: pick(r, 65535, 65536, 66000, 250000), D: pick(r, 1, 2)})
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "bigprim", C: pick(r, 65535, 65536, 66000, 250000), D: pick(r, 1, 2, 3)})
	}
	if chance(r, 0.3) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "bigprim", C: pick(r, 255, 256, 257, 300, 1000), D: pick(r, 1, 2, 3, 4, 5, 8)})
	}
	if chance(r, 0.2) {
		addLoss(r, p, span+10)
	}
}

func genH15(r *rand.Rand, p *Plan) {
	genLab(r, p)
	p.Cfg["ctr_set"] = int64(r.Intn(4)) / 1
	p.Cfg["ctr"] = pick(r, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFF0, 0x7FFFFFFE, 0)
	p.Cfg["lt"] = pick(r, 1, 1, 2)
	p.Cfg["lt.delay"] = pick(r, 0, 100, 900)
	span := pick(r, 0, 0, 3, 1500)
	for i := 4 + r.Intn(24); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "req", A: pick(r, 0, 1, 1), B: pick(r, 0, 10, 500), C: 1, D: int64(r.Intn(12))})
	}
	if n := pick(r, 112, 240, 490, 985, 1008); chance(r, 0.04) { // many messages while requests are open
		p.Ops = append(p.Ops, Op{At: span + 1, K: "flood", A: n})
		for i := 2; i < 40; i++ {
			p.Ops = append(p.Ops, Op{At: pick(r, 0, span, span+30, span+60), K: "req", A: pick(r, 0, 1, 1), B: pick(r, 500, 2500), C: 1, D: int64(r.Intn(12))})
		}
	}
	if chance(r, 0.2) {
		addLoss(r, p, span+100)
	}
}

func genH16(r *rand.Rand, p *Plan) {
	genLab(r, p)
	p.Cfg["nohandlers"] = pick(r, allSF, r.Int63n(allSF+1), r.Int63n(allSF+1))
	p.Cfg["default"] = int64(r.Intn(4)) / 3
	span := pick(r, 0, 10, 300)
	for i := 1 + r.Intn(8); i > 0; i-- {
		sf := int64(r.Intn(len(labSF)))
		if chance(r, 0.4) {
			sf = 1000 + int64(1+r.Intn(127))<<8 + int64(1+2*r.Intn(127))
			if chance(r, 0.5) {
				sf = 1000 + int64(1+r.Intn(24))<<8 + int64(1+2*r.Intn(30))
			}
			if (sf-1000)>>8 == 9 {
				sf += 256
			}
		}
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "prim", A: sf, B: pick(r, 0, 0, 5), D: int64(r.Intn(12)), S: []string{"", "w", "w"}[r.Intn(3)]})
	}
	for i := r.Intn(6); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "s9", A: pick(r, 1, 3, 5, 7, 9, 11, 13), B: int64(r.Intn(3)), S: []string{"", "", "w"}[r.Intn(3)]})
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "req", A: pick(r, 0, 1, 2), B: pick(r, 0, 5), C: 2, D: int64(r.Intn(12))})
	}
	if chance(r, 0.2) {
		addLoss(r, p, span+100)
	}
}

// runTraffic: bring the endpoint up, run the plan, let everything finish, check.
func runTraffic(e *Env) {
	l := newHLab(e)
	if !l.bringUp() {
		e.Bad("H01,H02,H03,H06,H08,H15,H16", "the endpoint does not reach the selected state with a correct peer", "state %s", l.state())
		return
	}
	l.autoDial = e.P.Has("redial")
	l.play()
	l.settle(secs(e.P.C("t3")) + 4*time.Second + e.Tol)
	slow := time.Duration(0)
	for i := range e.P.Ops {
		if e.P.Ops[i].K == "prim" {
			slow += ms(e.P.Ops[i].C)
		}
	}
	simrt.Sleep(time.Second + e.Tol + simrt.Spun() + slow + l.blockedTime())
	e.Tol += simrt.Spun()
	if l.log != nil {
		l.log.check(l.pending == 0)
		if s9 := slices.ContainsFunc(e.P.Ops, func(o Op) bool { return o.K == "s9" }); l.log.slept == 0 && !e.P.Has("ctl") && !s9 { // the traffic is what it would be without a log
			e.As = []string{"H01", "H03", "H06", "H16"}
		}
	}
	l.checkTraffic()
	l.checkUnique()
	l.checkS9()
}
