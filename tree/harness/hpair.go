package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// Two endpoints of the library against each other over a faulty network (H08), optionally
// as host and equipment (G14).

func init() {
	scenario("pair", runPair)
	property("H08", 60000, 1500000, gen{1, "pair", genH08})
}

// pend is one side of the pair; it outlives crashes of its process.
type pside struct {
	l        *pair
	i        int // 0: active, 1: passive
	name     string
	active   bool
	life     int // number of the process
	g        *simrt.Group
	ep       *hsms.HsmsProtocol
	gh       *gem.GemHandler
	on       bool // the application wants it enabled
	starting bool
	tog      int // lifecycle calls in progress
	want     bool
	served   map[string]int
	h        *pgem
}

type pcall struct {
	tok        string
	side, life int
	at, end    time.Duration
	q0, q1     int64
	done       bool
	err        error
	rep        string
	dead       bool // its process was killed
}

type pair struct {
	e      *Env
	side   [2]*pside
	addr   string
	calls  []*pcall
	okAt   [2]time.Duration // when a request of the side was answered after the faults
	healed time.Duration
	stop   bool
	gemOn  bool
	hcalls []*hcall
}

func (l *pair) start(i int) {
	s := l.side[i]
	p := l.e.P
	g := simrt.NewGroup(fmt.Sprintf("%s%d", s.name, s.life))
	pre := s.name + "."
	simrt.In(g, func() {
		s.ep = hsms.NewHsmsProtocol("127.0.0.1", 5000, s.active, int(p.C(pre+"sess")), s.name)
		setTimers(s.ep, p, pre)
		s.gh = nil
		if l.gemOn {
			l.startGem(s)
		}
		life := s.life
		s.ep.RegisterHandler(10, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			it, err := m.Get()
			if err != nil {
				return nil, err
			}
			tok := tokOf(FromAST(it))
			s.served[fmt.Sprintf("%d %s", life, tok)]++
			l.e.Work++
			return ast.NewDataMessage("", 10, 4, 0, "H<->E", L(A("r:"+tok)).ToAST()), nil
		})
	})
	s.g = g
}

func (s *pside) toggle(name string, on bool) {
	life := s.life
	s.tog++
	simrt.GoIn(s.g, s.name+"-"+name, func() { s.doToggle(on, life) })
}

func (s *pside) doToggle(on bool, life int) {
	if on {
		if s.gh != nil {
			s.gh.Enable()
		} else {
			s.ep.Enable()
		}
	} else if s.gh != nil {
		s.gh.Disable()
	} else {
		s.ep.Disable()
	}
	if life == s.life {
		s.tog--
	}
}

func (s *pside) state() (st string) {
	simrt.In(s.g, func() { st = s.ep.CurrentState() })
	return
}

// request has the side send a request and wait for its answer.
func (l *pair) request(i int) *pcall {
	s := l.side[i]
	c := &pcall{tok: fmt.Sprintf("%s%d", s.name, len(l.calls)), side: i, life: s.life, at: simrt.Now(), q0: simrt.Seq()}
	l.calls = append(l.calls, c)
	ep := s.ep
	simrt.GoIn(s.g, c.tok, func() {
		it := tokItem(c.tok, payload(hash64("pair", c.tok), 6, int64(len(l.calls)%40)))
		rep, err := ep.SendAndWait(ast.NewDataMessage("", 10, 3, 1, "H<->E", it.ToAST()))
		c.err = err
		if err == nil && rep != nil {
			if x, err := rep.Get(); err == nil {
				c.rep = tokOf(FromAST(x))
			}
		}
		c.end, c.q1, c.done = simrt.Now(), simrt.Seq(), true
		if simrt.Tracing() {
			simrt.Tracef("request %s -> %q %v", c.tok, c.rep, err)
		}
	})
	return c
}

// link is the newest connection between the two that is not gone on both ends.
func (l *pair) link() *snet.Link {
	for i := len(l.e.W.Links) - 1; i >= 0; i-- {
		if lk := l.e.W.Links[i]; !lk.C.IsClosed() || !lk.S.IsClosed() {
			return lk
		}
	}
	return nil
}

func (l *pair) op(o *Op) {
	e := l.e
	s := l.side[o.A%2]
	switch o.K {
	case "req":
		if s.g != nil && !s.g.Dead {
			l.request(s.i)
		}
	case "on", "off":
		s.want = o.K == "on"
		if !s.g.Dead {
			on := s.want
			s.toggle(o.K, on)
		}
		e.Count("lifecycle_calls")
	case "crash":
		if s.g.Dead {
			return
		}
		e.Count("crashes")
		simrt.Tracef("crash of %s (silent %d)", s.name, o.B)
		snet.SilentKill = o.B != 0
		for _, c := range l.calls {
			if c.side == s.i && c.life == s.life && !c.done {
				c.dead = true
			}
		}
		for _, c := range l.hcalls {
			if c.side == s.i && c.life == s.life && !c.done {
				c.dead = true
			}
		}
		simrt.Kill(s.g)
		snet.SilentKill = false
		l.crashed(s)
		simrt.GoIn(simrt.CurGroup(), "restart", func() {
			simrt.Sleep(ms(o.C))
			l.restart(s)
		})
	case "refuse":
		e.W.Refuse[l.addr] = o.B != 0
	case "blackhole":
		e.W.Blackhole[l.addr] = o.B != 0
	case "host", "trig", "raise", "online":
		l.gemOp(o)
	default:
		lk := l.link()
		if lk == nil {
			return
		}
		e.Count("fault_" + o.K)
		c := lk.C
		if o.A%2 == 1 {
			c = lk.S
		}
		switch o.K {
		case "reset":
			lk.Reset()
		case "abort":
			c.Abort()
		case "break":
			c.BreakAfter(o.B)
		case "freeze":
			lk.Freeze(o.A%2 == 0)
			if o.B != 0 {
				lk.Freeze(o.A%2 != 0)
			}
		case "thaw":
			lk.Thaw(true)
			lk.Thaw(false)
		}
	}
}

func (l *pair) restart(s *pside) {
	if !s.g.Dead || s.starting {
		return
	}
	s.starting = true
	defer func() { s.starting = false }()
	s.life++
	s.tog = 0
	l.start(s.i)
	if s.want {
		s.toggle("on", true)
	}
}

func (l *pair) crashed(s *pside) {
	if l.gemOn {
		l.crashedGem(s)
	}
}

func runPair(e *Env) {
	p := e.P
	l := &pair{e: e, addr: "127.0.0.1:5000"}
	simrt.Sleep(time.Millisecond)
	l.gemOn = p.Has("gem")
	l.okAt = [2]time.Duration{never, never}
	for i, n := range []string{"act", "pas"} {
		l.side[i] = &pside{l: l, i: i, name: n, active: i == 0, served: map[string]int{}}
		if l.gemOn {
			l.side[i].h = newPgem(l.side[i])
		}
		l.start(i)
	}
	for i := range l.side {
		s := l.side[(i+int(p.C("first")))%2]
		s.want = true
		s.toggle("on", true)
		simrt.Sleep(ms(p.C("apart")))
	}
	t0 := simrt.Now()
	for i := range p.Ops {
		o := &p.Ops[i]
		if d := ms(o.At) - (simrt.Now() - t0); d > 0 {
			simrt.Sleep(d)
		}
		l.op(o)
	}
	// the faults end
	simrt.Sleep(ms(p.C("tail")))
	clear(e.W.Refuse)
	clear(e.W.Blackhole)
	for _, lk := range e.W.Links {
		lk.Thaw(true)
		lk.Thaw(false)
		lk.C.BreakAfter(-1)
		lk.S.BreakAfter(-1)
	}
	for _, s := range l.side {
		s.want = true
		for end := simrt.Now() + 5*time.Second; s.starting || s.tog > 0 && simrt.Now() < end; {
			simrt.Sleep(time.Millisecond)
		}
		if s.g.Dead {
			l.restart(s)
		} else {
			s.toggle("on", true)
		}
	}
	l.healed = simrt.Now()
	simrt.Tracef("the faults have ended")
	l.recover()
}

// bound is how long the pair may take to work again.
func (l *pair) bound() time.Duration {
	p := l.e.P
	max := func(k string) int64 { return maxI(p.C("act."+k), p.C("pas."+k)) }
	b := 2 * (max("t8") + max("t7") + 2*max("t6") + max("t5") + max("rcap") + max("lt") + max("t3"))
	for _, o := range p.Ops {
		if o.K == "blackhole" {
			b += 130
			break
		}
	}
	if l.gemOn {
		b += 2 * (max("ew")/1000 + max("t3") + 1)
	}
	return secs(b) + 6*time.Second + 2*l.e.Tol
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// both tells whether both sides report the selected state.
func (l *pair) both() bool {
	return l.side[0].state() == hsms.StateConnectedSelected && l.side[1].state() == hsms.StateConnectedSelected && (!l.gemOn || l.communicating())
}

func (l *pair) ids(s string) string {
	if l.gemOn {
		return s + ",G14"
	}
	return s
}

func (l *pair) recover() {
	e := l.e
	by := l.healed + l.bound()
	var probes [2]*pcall
	for {
		if l.both() {
			for i := range probes {
				if probes[i] == nil || probes[i].done {
					if c := probes[i]; c != nil && c.err == nil && c.rep == "r:"+c.tok {
						if l.okAt[i] == never {
							l.okAt[i] = c.end
						}
						continue
					}
					probes[i] = l.request(i)
				}
			}
		}
		if l.okAt[0] != never && l.okAt[1] != never {
			break
		}
		if simrt.Now() > by {
			if l.stuck() {
				e.Bad(l.ids("H08"), "both ends wait for each other to read", "since %v", simrt.Now())
				return
			}
			e.Bad(l.ids("H08"), "the pair does not work again", "faults ended at %v, bound %v; states %s and %s; answered %v %v", l.healed, l.bound(), l.side[0].state(), l.side[1].state(), l.okAt[0], l.okAt[1])
			return
		}
		simrt.Sleep(100 * time.Millisecond)
	}
	e.Count("recoveries")
	e.CountN("recovery_ms", int64((simrt.Now()-l.healed)/time.Millisecond))
	// and goes on working; as two ends with tiny buffers may fill them again, and take the
	// time to recover, there is room from here on
	e.W.Roomy()
	max := func(k string) int64 { return maxI(e.P.C("act."+k), e.P.C("pas."+k)) }
	simrt.Sleep(secs(max("t7")+max("t6")+1) + e.Tol)
	n := len(e.W.Links)
	until := simrt.Now() + secs(max("lt")*2+max("t8")) + e.Tol
	if e.P.Has("brief") {
		until = simrt.Now() + secs(max("lt"))
	}
	for simrt.Now() < until {
		if !l.both() {
			e.Bad(l.ids("H08"), "a healthy pair loses its connection", "states %s and %s", l.side[0].state(), l.side[1].state())
			return
		}
		simrt.Sleep(300 * time.Millisecond)
	}
	if len(e.W.Links) != n {
		e.Bad(l.ids("H08"), "a healthy pair makes another connection", "%d and %d", n, len(e.W.Links))
	}
	a, b := l.request(0), l.request(1)
	simrt.Sleep(secs(max("t3")) + e.Tol)
	for _, c := range []*pcall{a, b} {
		if !c.done || c.err != nil {
			e.Bad(l.ids("H08"), "a healthy pair does not answer", "%s: %v", c.tok, c.err)
			return
		}
	}
	l.checkCalls()
	if l.gemOn {
		l.finalGem()
	}
}

// stuck tells whether each end has long been writing to a connection that the other end
// does not read, with the buffers of the connection full both ways.
func (l *pair) stuck() bool {
	n := 0
	for _, s := range l.side {
		for _, t := range simrt.Live(s.g) {
			if t.Why == "net write" && simrt.Now()-t.Since > 20*time.Second {
				n++
				break
			}
		}
	}
	return n == 2
}

func (l *pair) checkCalls() {
	e := l.e
	for _, c := range l.calls {
		if c.dead {
			continue
		}
		n := 0
		for k, v := range l.side[1-c.side].served {
			var life int
			var tok string
			fmt.Sscan(k, &life, &tok)
			if tok == c.tok {
				n += v
			}
		}
		t3 := secs(e.P.C(l.side[c.side].name+".t3") + 3*e.P.C(l.side[c.side].name+".t8"))
		switch {
		case !c.done && c.at+t3+e.Tol < simrt.Now():
			e.Bad(l.ids("H08,H02"), "a request does not end", "%s since %v", c.tok, c.at)
		case n > 1:
			e.Bad(l.ids("H08,H03"), "a request is served more than once", "%s: %d times", c.tok, n)
		case c.done && c.err == nil && (n != 1 || c.rep != "r:"+c.tok):
			e.Bad(l.ids("H08,H01"), "a request gets an answer that is not its own", "%s: %q, served %d times", c.tok, c.rep, n)
		}
		e.Count("requests_judged")
	}
}

func genPair(r *rand.Rand, p *Plan) {
	for _, n := range []string{"act.", "pas."} {
		p.Cfg[n+"t3"] = int64(2 + r.Intn(4))
		p.Cfg[n+"t5"] = int64(1 + r.Intn(3))
		p.Cfg[n+"t6"] = int64(1 + r.Intn(3))
		p.Cfg[n+"t7"] = int64(4 + r.Intn(4))
		p.Cfg[n+"t8"] = int64(10 + r.Intn(8))
		p.Cfg[n+"lt"] = int64(3 + r.Intn(4))
		p.Cfg[n+"rbase"] = int64(1 + r.Intn(2))
		p.Cfg[n+"rcap"] = int64(2 + r.Intn(4))
		p.Cfg[n+"rmax"] = 0
		p.Cfg[n+"sess"] = 1
	}
	if chance(r, 0.3) {
		p.Cfg["pas.sess"] = pick(r, 0, 0xFFFF)
	}
	p.Cfg["first"] = int64(r.Intn(2))
	p.Cfg["apart"] = pick(r, 0, 1, 50, 1500)
	p.Cfg["tail"] = pick(r, 0, 0, 300, 4000)
	p.Cfg["brief"] = b2i(chance(r, 0.7))
}

// genFaults draws faults on the pair up to time span.
func genFaults(r *rand.Rand, p *Plan, n int, span int64) {
	heal := func(k string, t int64) { p.Ops = append(p.Ops, Op{At: t, K: k, B: 0}) }
	for ; n > 0; n-- {
		t := between(r, 0, span)
		o := Op{At: t, A: int64(r.Intn(2))}
		switch k := r.Intn(20); {
		case k < 3:
			o.K = "reset"
		case k < 5:
			o.K = "abort"
		case k < 8:
			o.K, o.B = "break", between(r, 0, 200)
		case k < 12:
			o.K, o.B = "freeze", int64(r.Intn(2))
			if chance(r, 0.7) {
				heal("thaw", t+between(r, 1, pick(r, 100, 3000, 15000)))
			}
		case k < 15:
			o.K, o.B, o.C = "crash", int64(r.Intn(2)), between(r, 0, pick(r, 10, 1000, 6000))
		case k < 17:
			o.K, o.B = "refuse", 1
			heal("refuse", t+between(r, 1, pick(r, 500, 6000)))
		case k < 18:
			if !chance(r, 0.2) {
				continue
			}
			o.K, o.B = "blackhole", 1
			heal("blackhole", t+between(r, 1, pick(r, 500, 6000)))
		default:
			o.K = "off"
			p.Ops = append(p.Ops, Op{At: t + between(r, 0, pick(r, 5, 800, 4000)), K: "on", A: o.A})
		}
		p.Ops = append(p.Ops, o)
	}
}

func genH08(r *rand.Rand, p *Plan) {
	genPair(r, p)
	span := pick(r, 50, 1000, 6000, 20000)
	genFaults(r, p, 1+r.Intn(7), span)
	for i := r.Intn(5); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "req", A: int64(r.Intn(2))})
	}
}
