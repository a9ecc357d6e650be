package main

import (
	"encoding/hex"
	"math/rand"
	"time"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func init() {
	scenario("life", runLife)
	property("H04", 60000, 3000000, gen{1, "life", tied(genH04)})
	property("H05", 60000, 3000000, gen{1, "life", tied(genH05)})
	property("H07", 60000, 3000000, gen{1, "life", tied(genH07)})
	property("H09", 60000, 3000000, gen{1, "life", tied(genH09)})
	property("H10", 60000, 3000000, gen{1, "life", genH10})
	property("H11", 60000, 3000000, gen{1, "life", genH11})
	property("H12", 60000, 3000000, gen{5, "life", tied(genH12)}, gen{1, "gem", genH12gem})
	property("H13", 60000, 3000000, gen{1, "life", tied(genH13)}, gen{1, "life", tied(genH05)}, gen{1, "life", tied(genH12)})
	property("H14", 60000, 3000000, gen{1, "life", tied(genH14)})
}

// runLife: the life of one endpoint under a plan of peer behaviour, faults and toggles,
// with all connection-level oracles; then the faults end.
func runLife(e *Env) {
	p := e.P
	l := newHLab(e)
	l.startPoller()
	if p.Has("up") {
		if !l.bringUp() {
			e.Bad("H04,H05,H07,H09,H10,H11,H12,H13,H14", "the endpoint does not reach the selected state with a correct peer", "state %s", l.state())
			return
		}
	} else if p.Has("on") {
		l.toggle(true)
	}
	if p.Has("lsn") && l.active {
		l.listen()
	}
	l.autoDial = p.Has("redial")
	l.play()
	simrt.Sleep(ms(p.C("tail")))
	bound := l.bound()
	if p.C("fin") != 0 {
		if l.lastToggle() { // nothing bounds a send while the peer does not read
			for _, x := range l.pcs {
				x.stopRead = false
				x.Link.Thaw(true)
				x.Link.Thaw(false)
			}
		}
		// let the plan's own calls end
		l.settle(bound)
		if l.pending > 0 {
			e.Bad("H12,H02,H07", "a call does not return", "%d calls pending %v after the plan; tasks %v", l.pending, bound, simrt.Live(l.g))
		}
	}
	l.judge()
	if e.V != nil {
		return
	}
	switch p.C("fin") {
	case 1:
		l.reachable()
		l.toggle(true)
		l.service("H07,H10,H12,H09,H05", bound)
	case 2:
		l.final(false, bound)
	case 3:
		l.final(false, bound)
		l.reachable()
		l.toggle(true)
		l.service("H07,H10,H12,H09,H05", bound)
	case 4:
		l.reachable()
		l.toggle(true)
		l.service("H07,H10,H12,H09,H05", bound)
		l.final(false, bound)
	}
	simrt.Sleep(e.Tol + 100*time.Millisecond)
	l.stopPoll = true
	l.judge()
}

func (l *HLab) bound() time.Duration {
	p := l.e.P
	b := secs(p.C("t3")+p.C("t5")+p.C("t6")+p.C("t7")+p.C("t8")+p.C("rcap")+p.C("lt")) + 12*time.Second + 4*l.e.Tol
	if p.Has("hole") {
		b += 130 * time.Second
	}
	return b
}

// final disables the endpoint and expects silence.
func (l *HLab) final(_ bool, bound time.Duration) {
	l.healing = true
	wait := l.e.Tol
	if l.onoff != nil { // the calls wait for each other
		wait = bound
	}
	for end := simrt.Now() + wait; simrt.Now() < end; simrt.Sleep(10 * time.Millisecond) {
		busy := false
		for _, t := range l.tog {
			busy = busy || t.On && !t.Done
		}
		if !busy {
			break
		}
	}
	l.toggle(false)
	l.settle(bound)
	if l.pending > 0 {
		l.e.Bad("H12,H07", "Disable does not return", "%v; tasks %v", bound, simrt.Live(l.g))
		return
	}
	l.quiet(bound)
}

func (l *HLab) judge() {
	m := l.model()
	l.checkControl(m)
	l.checkStates(m)
	l.checkEnds(m)
	l.checkLinktests(m)
	l.checkDials(m)
	l.checkDisable(m)
	l.checkGate(m)
	l.checkUnique()
	if !l.e.P.Has("notraffic") {
		l.checkHandlers(l.conns())
	}
}

// genLife draws what the life plans share.
func genLife(r *rand.Rand, p *Plan) {
	genLab(r, p)
	p.Cfg["up"] = 1
	p.Cfg["lsn"] = 1
	p.Cfg["redial"] = 1
	p.Cfg["auto"] = 1
	p.Cfg["fin"] = 1
	p.Cfg["tail"] = pick(r, 0, 100, 1500)
	p.Cfg["net.sndbuf"] = 0
	if chance(r, 0.5) {
		p.Cfg["net.jit_us"] = pick(r, 0, 100)
	}
}

// tied has things happen, now and then, at the very instants timers of the endpoint expire.
func tied(f func(r *rand.Rand, p *Plan)) func(r *rand.Rand, p *Plan) {
	return func(r *rand.Rand, p *Plan) {
		f(r, p)
		if !chance(r, 0.12) {
			return
		}
		p.Cfg["net.min_us"], p.Cfg["net.jit_us"], p.Cfg["net.conn_us"] = 0, 0, 0
		p.Cfg["align"] = pick(r, 1000, 1000, 1000, 500, 200)
		for i := range p.Ops { // a little later, but at the same time
			if o := &p.Ops[i]; o.K == "enable" || o.K == "disable" {
				o.A = pick(r, 0, 0, r.Int63n(50), r.Int63n(2000))
			}
		}
		for _, k := range []string{"sel.delay", "lt.delay"} {
			if p.Has(k) && (k != "sel.delay" || !p.Has("up")) {
				p.Cfg[k] = 500 * pick(r, 1, 2, 2, 4, 2*p.Cfg["t6"])
			}
		}
	}
}

func span(r *rand.Rand) (n int, gap func() int64) {
	calm := r.Intn(3) == 0
	return 1 + r.Intn(9), func() int64 {
		if calm {
			return between(r, 500, 1500)
		}
		return pick(r, 0, 0, 1, 2, 5, 20, 100, 700)
	}
}

func genH05(r *rand.Rand, p *Plan) {
	genLife(r, p)
	if !chance(r, 0.6) {
		p.Cfg["up"] = 0
		p.Cfg["on"] = 1
		p.Cfg["sel.mode"] = pick(r, 0, 1, 2, 3, 4, 5)
		p.Cfg["sel.delay"] = pick(r, 0, 0, 200, 1200)
		if p.Cfg["active"] == 0 {
			p.Ops = append(p.Ops, Op{At: 20, K: "dial", A: 20, B: int64(r.Intn(2))})
		}
	}
	p.Cfg["fin"] = pick(r, 0, 0, 1)
	n, gap := span(r)
	t := int64(60)
	for i := 0; i < n; i++ {
		t += gap()
		switch r.Intn(10) {
		case 0, 1:
			p.Ops = append(p.Ops, Op{At: t, K: "prim", A: int64(r.Intn(len(labSF))), D: int64(r.Intn(12)), S: "w"})
		case 2:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"req", "snd"}[r.Intn(2)], B: pick(r, 0, 0, 30), D: int64(r.Intn(12))})
		case 3: // an unsolicited response
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelRsp, tDesRsp, tLnkRsp, tSelRsp, tDesRsp), B: p.Cfg["psess"], C: pick(r, 0, 0, 1, 2, 3)})
		case 4:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tReject, B: p.Cfg["psess"], C: pick(r, 1, 2, 3, 4)})
		case 5:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tSelReq, tSepReq), B: pick(r, p.Cfg["psess"], 0xffff, 77, 0)})
		default:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tDesReq, tLnkReq, tSelReq, tDesReq, tLnkReq, tSepReq), B: p.Cfg["psess"]})
		}
	}
	if chance(r, 0.15) {
		addLoss(r, p, t)
	}
}

func genH04(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["sess"] = pick(r, 1, 0xFFFF, 0xFFFF, 0, 256)
	p.Cfg["psess"] = pick(r, 1, 7, 300)
	if s := p.Cfg["sess"]; s == 1 || s == 256 {
		p.Cfg["psess"] = s
	}
	if chance(r, 0.4) {
		p.Cfg["up"] = 0
		p.Cfg["on"] = 1
		p.Cfg["sel.mode"] = pick(r, 0, 0, 2, 1)
		p.Cfg["sel.delay"] = pick(r, 0, 50, 400, 1500)
		if p.Cfg["active"] == 0 {
			p.Ops = append(p.Ops, Op{At: between(r, 0, 200), K: "dial", A: 20, B: int64(r.Intn(2))})
			p.Ops = append(p.Ops, Op{At: between(r, 200, 900), K: "frame", A: tSelReq, B: p.Cfg["psess"]})
		}
	}
	p.Cfg["fin"] = pick(r, 0, 0, 1, 2)
	n, gap := span(r)
	n += 3
	t := int64(10)
	for i := 0; i < n; i++ {
		t += gap()
		switch r.Intn(9) {
		case 0, 1:
			o := Op{At: t, K: "prim", A: int64(r.Intn(len(labSF))), D: int64(r.Intn(12)), S: []string{"", "w"}[r.Intn(2)]}
			if chance(r, 0.4) {
				o.B, o.C = 5, pick(r, 0, 1, 20, 100, 700)
			}
			p.Ops = append(p.Ops, o)
		case 2, 3:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"req", "snd"}[r.Intn(2)], B: pick(r, 0, 0, 30, 300), D: int64(r.Intn(12))})
		case 4:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tDesReq, B: p.Cfg["psess"]})
			p.Ops = append(p.Ops, Op{At: t + pick(r, 0, 0, 1, 5), K: []string{"req", "snd", "prim"}[r.Intn(3)], S: "w", D: int64(r.Intn(12))})
			if chance(r, 0.7) {
				p.Ops = append(p.Ops, Op{At: t + pick(r, 0, 1, 300, 900), K: "frame", A: tSelReq, B: pick(r, p.Cfg["psess"], 0xffff)})
			}
		case 5: // a request whose answer arrives after a deselect
			p.Ops = append(p.Ops, Op{At: t, K: "req", B: pick(r, 20, 200), D: int64(r.Intn(12))})
			p.Ops = append(p.Ops, Op{At: t + pick(r, 1, 10, 100), K: "frame", A: tDesReq, B: p.Cfg["psess"]})
		case 6:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tSepReq), B: pick(r, p.Cfg["psess"], p.Cfg["psess"], 0xffff, 9)})
		case 7:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
			p.Ops = append(p.Ops, Op{At: t + pick(r, 0, 1, 5, 30), K: []string{"req", "snd"}[r.Intn(2)], D: int64(r.Intn(12))})
		case 8:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tDesRsp, B: p.Cfg["psess"]})
		}
	}
	if p.Cfg["up"] == 1 && p.Cfg["active"] == 0 && chance(r, 0.3) { // sends while one connection takes the place of another
		p.Cfg["redial"] = 0
		for i := 1 + r.Intn(4); i > 0; i-- {
			t += pick(r, 100, 700, 1500)
			for j := 1 + r.Intn(3); j > 0; j-- {
				p.Ops = append(p.Ops, Op{At: t - pick(r, 0, 0, 1, 2), K: []string{"req", "snd"}[r.Intn(2)], D: int64(r.Intn(12))})
			}
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
			t += pick(r, 0, 0, 1, 5, 40)
			p.Ops = append(p.Ops, Op{At: t, K: "dial", A: pick(r, 0, 10), B: 1})
			t += pick(r, 50, 150, 500, 900)
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tSelReq, B: p.Cfg["psess"]})
		}
	}
	if chance(r, 0.2) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, t), K: "disable"})
	}
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }

// genRaw draws bytes a broken or hostile peer may send.
func genRaw(r *rand.Rand, psess uint16) []byte {
	rnd := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	be := func(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	good := func() *Frame {
		switch r.Intn(4) {
		case 0:
			return ctl([]byte{tSelReq, tDesReq, tLnkReq, tSepReq, tReject, tSelRsp, tDesRsp, tLnkRsp, 8, 10, 255}[r.Intn(11)], psess, byte(r.Intn(4)), byte(r.Intn(6)), r.Uint32())
		default:
			return data(1+r.Intn(127), r.Intn(256), r.Intn(2) == 0, psess, r.Uint32(), payload(r.Int63(), int64(r.Intn(12)), int64(r.Intn(20))))
		}
	}
	switch r.Intn(14) {
	case 0:
		return rnd(1 + r.Intn(40))
	case 1: // a length below the header size
		n := r.Intn(11)
		return append(be(uint32(n)), rnd(n)...)
	case 2: // an absurd length
		n := []uint32{0xFFFFFFFF, 0x7FFFFFFF, 0x40000000, 64 << 20, 200 << 20, 0x80000000, 30 << 20}[r.Intn(7)]
		return append(be(n), rnd(r.Intn(60))...)
	case 3: // truncated
		b := good().Bytes()
		return b[:r.Intn(len(b))]
	case 4: // flipped bits
		b := good().Bytes()
		for i := 1 + r.Intn(3); i > 0; i-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b
	case 5: // a data message with a random body
		f := data(1+r.Intn(20), 1+2*r.Intn(20), r.Intn(2) == 0, psess, r.Uint32(), nil)
		f.Text = rnd(1 + r.Intn(40))
		return f.Bytes()
	case 6: // an item that claims more than there is
		f := data(1, 3, true, psess, r.Uint32(), nil)
		f.Text = [][]byte{
			{byte(r.Intn(64))<<2 | 3, 0xff, 0xff, 0xff, 1, 2}, {0x03, 0xff, 0xff, 0xff}, {0x01, 0xff, 0x01, 0x01}, {0x41}, {0x42, 0x10}, {0x43, 0, 0},
			{0x00}, {0xfc}, {0xb1, 3, 1, 2, 3}, {0xa9, 1, 1}, {0x25, 1, 7}, {0x01, 2, 0x41, 5, 'a'}, {0x45, 2, 0, 65}, {0x49, 1, 1},
			{0x03, 0xff, 0xff, 0xff, 0x03, 0xff, 0xff, 0xff, 0x03, 0xff, 0xff, 0xff, 0x03, 0xff, 0xff, 0xff},
		}[r.Intn(15)]
		return f.Bytes()
	case 7: // trailing bytes after the item
		f := good()
		f.Text = append(f.Text, rnd(1+r.Intn(5))...)
		return f.Bytes()
	case 8: // other presentation or session types
		f := good()
		f.PType = byte(1 + r.Intn(255))
		return f.Bytes()
	case 9:
		f := good()
		f.Typ = byte(r.Intn(256))
		return f.Bytes()
	case 10: // a control message with a body
		f := ctl([]byte{tSelReq, tDesReq, tLnkReq, tSepReq, tReject, tSelRsp}[r.Intn(6)], psess, 0, 0, r.Uint32())
		f.Text = rnd(1 + r.Intn(20))
		return f.Bytes()
	case 11: // strings outside ASCII, mixed
		f := data(1+r.Intn(20), 1, r.Intn(2) == 0, psess, r.Uint32(), L(A(string(rnd(4))), A("\x00\x80\xff"), Bo(2, 3, 255)))
		return f.Bytes()
	case 12: // many good ones at once
		var b []byte
		for i := 2 + r.Intn(20); i > 0; i-- {
			b = append(b, good().Bytes()...)
		}
		return b
	}
	return good().Bytes()
}

func genH07(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["notraffic"] = 1
	p.Cfg["up"] = int64(r.Intn(2))
	p.Cfg["on"] = 1
	p.Cfg["t7"] = pick(r, 1, 2, 4)
	p.Cfg["t8"] = pick(r, 1, 3, 10)
	p.Cfg["lt"] = pick(r, 1, 3, 0)
	p.Cfg["net.sndbuf"] = pick(r, 0, 0, 0, 64)
	p.Cfg["sel.mode"] = pick(r, 0, 0, 0, 1, 2, 3, 4, 5)
	if p.Cfg["up"] == 1 {
		p.Cfg["sel.mode"] = 0
	}
	p.Cfg["lt.mode"] = pick(r, 0, 0, 1, 2)
	p.Cfg["nohandlers"] = pick(r, 0, 0, allSF-1)
	p.Cfg["redial"] = int64(r.Intn(2))
	n, gap := span(r)
	t := int64(10)
	for i := 0; i < n; i++ {
		t += gap()
		switch r.Intn(16) {
		case 0, 1, 2, 3, 4, 5:
			p.Ops = append(p.Ops, Op{At: t, K: "raw", S: hexOf(genRaw(r, uint16(p.Cfg["psess"])))})
		case 6:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
		case 7: // connect and go away at once, often
			k := []string{"close", "abort", "reset"}[r.Intn(3)]
			for j := 0; j < 4; j++ {
				p.Ops = append(p.Ops, Op{At: t, K: "dial", A: pick(r, 0, 30), B: 1}, Op{At: t + int64(r.Intn(3)), K: k})
				t += int64(r.Intn(4))
			}
		case 8:
			p.Ops = append(p.Ops, Op{At: t, K: "dial", A: pick(r, 0, 30), B: int64(r.Intn(2))})
		case 9:
			p.Ops = append(p.Ops, Op{At: t, K: "break", A: between(r, 0, 40)})
			p.Ops = append(p.Ops, Op{At: t, K: "prim", A: int64(r.Intn(len(labSF))), D: 2, S: "w"})
		case 10:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tDesReq, tLnkReq, tSepReq, tReject, tSelRsp, tDesRsp, tLnkRsp), B: pick(r, p.Cfg["psess"], 0xffff, 99), C: int64(r.Intn(5))})
		case 11:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"req", "snd"}[r.Intn(2)], A: pick(r, 0, 1, 2), D: int64(r.Intn(12))})
		case 12:
			p.Ops = append(p.Ops, Op{At: t, K: "part", A: int64(r.Intn(30)), C: -1})
		case 13:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"stopread", "startread", "freeze", "thaw"}[r.Intn(4)], A: 1 + int64(r.Intn(3))})
		case 14: // disable, and a frame for it to chew on
			p.Ops = append(p.Ops, Op{At: t, K: "disable"}, Op{At: t + pick(r, 0, 1, 5, 150), K: "frame", A: pick(r, tLnkReq, tSelReq, tDesReq), B: p.Cfg["psess"]})
			p.Ops = append(p.Ops, Op{At: t + pick(r, 0, 5, 3000), K: "enable"})
		case 15:
			if chance(r, 0.05) {
				p.Ops = append(p.Ops, Op{At: t, K: "deep", A: pick(r, 900, 1100, 5000, 3_000_000), B: int64(r.Intn(2))})
			}
		}
	}
	p.Cfg["tail"] = pick(r, 0, 100, 3000, 12000)
	p.Cfg["fin"] = pick(r, 1, 1, 1, 3, 4)
}

func genH09(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["active"] = 1
	p.Cfg["up"] = int64(r.Intn(2))
	p.Cfg["on"] = 1
	p.Cfg["auto"] = b2i(!chance(r, 0.15))
	p.Cfg["rmax"] = pick(r, 0, 0, 1, 2, 3, 5)
	p.Cfg["rbase"] = pick(r, 1, 1, 2, 3)
	p.Cfg["rcap"] = pick(r, 1, 4, 5, 8, 30)
	p.Cfg["t5"] = pick(r, 1, 2, 5)
	p.Cfg["lsn"] = int64(r.Intn(2))
	p.Cfg["sel.mode"] = pick(r, 0, 0, 0, 1, 2, 5)
	if p.Cfg["up"] == 1 {
		p.Cfg["sel.mode"] = 0
	}
	t := int64(0)
	for i := r.Intn(9); i > 0; i-- {
		t += pick(r, 0, 100, 1000, 1000, 3000, 9000, 20000)
		switch r.Intn(10) {
		case 0, 1:
			p.Ops = append(p.Ops, Op{At: t, K: "listen"})
		case 2, 3:
			p.Ops = append(p.Ops, Op{At: t, K: "unlisten"}, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
		case 4, 5, 6:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset", "break"}[r.Intn(4)], A: between(r, 0, 40)})
		case 7:
			p.Ops = append(p.Ops, Op{At: t, K: "refuse", A: int64(r.Intn(2))})
		case 8:
			if chance(r, 0.3) { // by one task
				p.Ops = append(p.Ops, Op{At: t, K: "disable", B: 1 + pick(r, 0, 0, r.Int63n(20), r.Int63n(200))})
				break
			}
			p.Ops = append(p.Ops, Op{At: t, K: "disable"}, Op{At: t + pick(r, 0, 1, 300, 4000, 15000), K: "enable"})
		case 9:
			if chance(r, 0.3) {
				p.Cfg["hole"] = 1
				p.Ops = append(p.Ops, Op{At: t, K: "blackhole", A: 1}, Op{At: t + pick(r, 100, 5000), K: "blackhole", A: 0})
			} else {
				p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tSepReq, B: p.Cfg["psess"]})
			}
		}
	}
	if chance(r, 0.15) { // toggled while the connection ends or an attempt fails
		t += pick(r, 0, 100, 2000)
		if chance(r, 0.7) { // for good, but for being enabled anew
			p.Cfg["auto"] = 0
		}
		if k := r.Intn(4); k < 3 {
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[k]})
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			d := pick(r, 0, r.Int63n(100), r.Int63n(3000))
			p.Ops = append(p.Ops, Op{At: t, K: "disable", A: d}, Op{At: t, K: "enable", A: d + pick(r, 0, 0, r.Int63n(300))})
			t += pick(r, 0, 0, 0, 1, 200, 1000*p.Cfg["t5"], 1000*p.Cfg["rbase"])
		}
	}
	p.Cfg["tail"] = pick(r, 3000, 10000, 40000)
	p.Cfg["fin"] = 0
	if p.Cfg["auto"] == 1 && p.Cfg["rmax"] == 0 {
		p.Cfg["fin"] = pick(r, 0, 1)
	} else if chance(r, 0.3) {
		p.Cfg["fin"] = 3 // disable and enable: the count starts afresh
		p.Cfg["lsn"] = 1
	}
}

func genH10(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["t7"] = pick(r, 1, 2, 3, 5)
	p.Cfg["t6"] = pick(r, 1, 2, 6)
	p.Cfg["t8"] = pick(r, 15, 30)
	p.Cfg["up"] = int64(r.Intn(3)) / 2
	p.Cfg["on"] = 1
	p.Cfg["lt"] = pick(r, 2, 4, 0)
	t7 := p.Cfg["t7"] * 1000
	edge := func() int64 { // around the expiry
		return t7 + pick(r, 0, -1, 1, -5, 5, -30, 30, between(r, -400, 400), -t7/2)
	}
	p.Cfg["sel.mode"] = pick(r, 0, 0, 2, 2, 3, 4)
	if p.Cfg["up"] == 1 {
		p.Cfg["sel.mode"] = 0
	}
	p.Cfg["redial"] = int64(r.Intn(2))
	t := int64(10)
	if p.Cfg["up"] == 0 {
		if p.Cfg["active"] == 0 {
			p.Ops = append(p.Ops, Op{At: t, K: "dial", A: 30, B: 1})
			t += 5
		} else if p.Cfg["sel.mode"] == 0 {
			p.Cfg["sel.delay"] = edge()
		}
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(7) {
		case 0, 1:
			t += edge()
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tSelReq, B: p.Cfg["psess"]})
		case 2:
			t += between(r, 0, 2000)
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tDesReq, B: p.Cfg["psess"]})
			if chance(r, 0.7) {
				t += edge()
				p.Ops = append(p.Ops, Op{At: t, K: "frame", A: tSelReq, B: p.Cfg["psess"]})
			}
		case 3: // a new connection close to the expiry of the old one's timer
			t += edge()
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
			if p.Cfg["active"] == 0 {
				p.Ops = append(p.Ops, Op{At: t + pick(r, 0, 1, 20), K: "dial", A: 40, B: int64(r.Intn(2))})
			}
		case 4:
			t += pick(r, 10, 500)
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort"}[r.Intn(2)]}, Op{At: t + pick(r, 1, 10, 100), K: "dial", A: 40, B: int64(r.Intn(2))})
		case 5:
			t += pick(r, 0, 100, 1000)
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tLnkReq, tSelReq), B: p.Cfg["psess"]})
		case 6:
			t += pick(r, 0, t7, 2*t7)
			p.Ops = append(p.Ops, Op{At: t, K: "prim", A: 1, S: "w"})
		}
	}
	p.Cfg["tail"] = t7 + pick(r, 100, 1000, 3000)
	p.Cfg["fin"] = pick(r, 0, 1)
	if chance(r, 0.2) {
		p.Cfg["t7edge"] = pick(r, 1, 2, 3, 4, 5)
		p.Cfg["net.min_us"], p.Cfg["net.jit_us"], p.Cfg["net.conn_us"] = 0, 0, pick(r, 0, 0, 2000)
		if p.Cfg["active"] == 1 && p.Cfg["up"] == 0 {
			p.Cfg["sel.mode"] = pick(r, 2, 2, 3, 4)
		}
	}
}

func genH11(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["t8"] = pick(r, 1, 2, 3)
	p.Cfg["t7"] = 60
	p.Cfg["lt"] = pick(r, 1, 1, 0, 2)
	p.Cfg["lt.mode"] = pick(r, 0, 0, 0, 1)
	p.Cfg["redial"] = int64(r.Intn(2))
	t8 := p.Cfg["t8"] * 1000
	t := int64(0)
	n := 2 + r.Intn(12)
	stall := -1
	if chance(r, 0.6) {
		stall = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		t += pick(r, 0, 10, 300, t8-500, t8-350, between(r, 0, t8))
		o := Op{At: t, K: "prim", A: int64(r.Intn(len(labSF))), D: int64(r.Intn(12)), S: []string{"", "w"}[r.Intn(2)]}
		if chance(r, 0.4) {
			o = Op{At: t, K: "part", A: int64(1 + r.Intn(40)), C: pick(r, 0, 1, 100, between(r, 0, t8-400)), D: int64(r.Intn(12)), S: "w"}
			if chance(r, 0.3) {
				o.C = t8 + pick(r, -10, 0, 10, 500, 2000)
			}
		}
		if i == stall {
			o = Op{At: t, K: "part", A: int64(1 + r.Intn(40)), C: -1, D: int64(r.Intn(12))}
		}
		p.Ops = append(p.Ops, o)
	}
	if chance(r, 0.2) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, t), K: "frame", A: pick(r, tLnkReq, tDesReq), B: p.Cfg["psess"]})
	}
	if chance(r, 0.2) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, t), K: []string{"close", "abort", "reset"}[r.Intn(3)]})
	}
	p.Cfg["tail"] = t8 + pick(r, 500, 1500)
	p.Cfg["fin"] = pick(r, 0, 1)
}

func genH12(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["up"] = int64(r.Intn(2))
	p.Cfg["on"] = int64(r.Intn(2))
	p.Cfg["lsn"] = int64(r.Intn(3)) / 1
	p.Cfg["t7"] = pick(r, 2, 5)
	p.Cfg["t8"] = pick(r, 5, 20)
	p.Cfg["des.status"] = pick(r, 0, 0, 1)
	p.Cfg["sel.mode"] = pick(r, 0, 0, 0, 2, 1)
	if p.Cfg["up"] == 1 {
		p.Cfg["sel.mode"] = 0
	}
	p.Cfg["net.conn_us"] = pick(r, 0, 0, 50000, 800000)
	rapid := chance(r, 0.5)
	on := p.Cfg["up"] == 1 || p.Cfg["on"] == 1
	t := int64(0)
	for i := 1 + r.Intn(8); i > 0; i-- {
		if rapid {
			t += pick(r, 0, 0, 0, 1, 2, 10, 200, 1000)
		} else {
			t += pick(r, 0, 10, 300, 1000, 2500, 5000)
		}
		switch r.Intn(9) {
		case 0, 1, 2, 3:
			k := "enable"
			if on {
				k = "disable"
			}
			if chance(r, 0.1) { // redundant
				k = []string{"enable", "disable"}[r.Intn(2)]
			}
			o := Op{At: t, K: k}
			on = k == "enable"
			if chance(r, 0.2) { // and back by the same task
				o.B = 1 + pick(r, 0, 0, r.Int63n(20), r.Int63n(200))
				on = !on
			}
			p.Ops = append(p.Ops, o)
		case 4:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"req", "snd"}[r.Intn(2)], A: pick(r, 0, 1), D: int64(r.Intn(12))})
		case 5:
			p.Ops = append(p.Ops, Op{At: t, K: "prim", A: int64(r.Intn(len(labSF))), C: pick(r, 0, 0, 50, 200), S: "w"})
		case 6:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"listen", "unlisten", "close", "abort", "reset"}[r.Intn(5)]})
		case 7:
			p.Ops = append(p.Ops, Op{At: t, K: "dial", A: pick(r, 0, 40)})
		case 8:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tDesReq, tSepReq, tLnkReq), B: p.Cfg["psess"]})
		}
	}
	if chance(r, 0.15) { // the peer stops reading, and the send buffer is small
		p.Cfg["net.sndbuf"] = pick(r, 32, 64, 200)
		p.Ops = append(p.Ops, Op{At: between(r, 0, t+1), K: "stopread"})
		sortOps(p.Ops)
	}
	p.Cfg["tail"] = pick(r, 0, 100, 3000)
	p.Cfg["fin"] = pick(r, 1, 2, 3, 4)
}

func genH13(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["up"] = int64(r.Intn(2))
	p.Cfg["on"] = 1
	p.Cfg["t7"] = pick(r, 1, 2, 5)
	p.Cfg["t8"] = pick(r, 3, 20)
	p.Cfg["sel.mode"] = pick(r, 0, 0, 0, 1, 2, 3, 4, 5)
	p.Cfg["sel.delay"] = pick(r, 0, 0, 10, 900)
	if p.Cfg["up"] == 1 {
		p.Cfg["sel.mode"] = 0
		p.Cfg["sel.delay"] = min(p.Cfg["sel.delay"], 10)
	}
	p.Cfg["lt.mode"] = pick(r, 0, 0, 0, 1)
	n, gap := span(r)
	t := int64(0)
	for i := 0; i < n; i++ {
		t += gap()
		switch r.Intn(10) {
		case 0, 1:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset"}[r.Intn(3)]})
		case 2:
			p.Ops = append(p.Ops, Op{At: t, K: "dial", A: pick(r, 0, 40), B: int64(r.Intn(2))})
		case 3:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelRsp, tDesRsp), B: p.Cfg["psess"], C: pick(r, 0, 0, 1)})
		case 4, 5, 6:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSelReq, tDesReq, tSepReq, tSelReq, tDesReq), B: pick(r, p.Cfg["psess"], p.Cfg["psess"], 0xffff, 44)})
		case 7:
			p.Ops = append(p.Ops, Op{At: t, K: "disable"}, Op{At: t + pick(r, 0, 1, 300, 4000), K: "enable"})
		case 8:
			p.Ops = append(p.Ops, Op{At: t, K: "break", A: between(r, 0, 30)})
		case 9:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"freeze", "thaw"}[r.Intn(2)], A: 1 + int64(r.Intn(3))})
		}
	}
	p.Cfg["tail"] = pick(r, 0, 600, 1500, 6000)
	p.Cfg["fin"] = pick(r, 0, 1, 3)
}

func genH14(r *rand.Rand, p *Plan) {
	genLife(r, p)
	p.Cfg["lt"] = pick(r, 1, 1, 2, 3)
	p.Cfg["t6"] = pick(r, 1, 3)
	p.Cfg["t5"] = 1
	p.Cfg["t8"] = 60
	p.Cfg["lt.mode"] = pick(r, 0, 0, 0, 0, 1, 2)
	p.Cfg["lt.delay"] = pick(r, 0, 0, 0, 300, 1500)
	if chance(r, 0.05) {
		p.Cfg["lt"] = 0
	}
	t := int64(0)
	for i := r.Intn(7); i > 0; i-- {
		t += pick(r, 0, 10, 500, 1000, 1500, 4000)
		switch r.Intn(6) {
		case 0, 1, 2:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"close", "abort", "reset", "break"}[r.Intn(4)], A: between(r, 0, 30)})
		case 3:
			p.Ops = append(p.Ops, Op{At: t, K: "frame", A: pick(r, tSepReq, tDesReq, tLnkReq, tSelReq), B: p.Cfg["psess"]})
		case 4:
			p.Ops = append(p.Ops, Op{At: t, K: "disable"}, Op{At: t + pick(r, 0, 1, 300, 2500), K: "enable"})
		case 5:
			p.Ops = append(p.Ops, Op{At: t, K: []string{"req", "prim"}[r.Intn(2)], A: pick(r, 0, 1), S: "w"})
		}
	}
	p.Cfg["tail"] = pick(r, 2000, 6000, 15000)
	if chance(r, 0.06) { // a long interval
		p.Cfg["t8"] = 120
		p.Cfg["lt"] = pick(r, 12, 30, 61, 75, 100)
		p.Cfg["tail"] = p.Cfg["lt"] * pick(r, 1200, 2300, 3500)
	}
	p.Cfg["fin"] = pick(r, 0, 1, 3)
}
