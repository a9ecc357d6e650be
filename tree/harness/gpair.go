package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// A host and an equipment of the library working together over a faulty network (G14).

func init() { property("G14", 40000, 800000, gen{1, "pair", genG14}) }

// pgem is the application of one side; what it recorded outlives crashes.
type pgem struct {
	s      *pside
	host   bool
	n      uint64
	vals   map[uint64]int64 // status values provided, and when
	trig   [][2]int64
	raised []string
	sure   []bool
	execs  map[string]int
	crash  []int64
	got    []uint64 // values in event reports
	alarms []string
	busy   bool
	final  bool
}

// hcall is a call the host's application made.
type hcall struct {
	*pcall
	kind   string
	val    string
	found  bool
	refuse bool
}

var hostKinds = []string{"status", "ecget", "ecset", "cmd", "upload", "program", "setup", "alarms"}

func newPgem(s *pside) *pgem {
	return &pgem{s: s, host: s.active == s.l.e.P.Has("hostact"), vals: map[uint64]int64{}, execs: map[string]int{}}
}

func (l *pair) startGem(s *pside) {
	h, p := s.h, l.e.P
	dt := gem.DeviceEquipment
	if h.host {
		dt = gem.DeviceHost
	}
	s.gh = must(gem.NewGemHandler(gem.Options{Protocol: s.ep, DeviceType: dt, DeviceID: uint16(p.C("act.sess")), MDLN: "m", SOFTREV: "1", EstablishCommunicationWait: ms(p.C(s.name + ".ew")),
		InitialControlState: ctlState(p.C("ctl0")), InitialOnlineMode: gem.OnlineModeRemote}))
	if h.host {
		s.gh.Events().EventReportReceived.AddCallback(func(d map[string]interface{}) {
			r := d["report"].(gem.EventReport)
			for _, x := range r.Reports {
				for _, v := range x.Values {
					n, _ := FromAST(v).Uint(0)
					h.got = append(h.got, n)
					if simrt.Tracing() {
						simrt.Tracef("host EVENT report %d", n)
					}
				}
			}
		})
		s.gh.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) {
			a := d["alarm"].(gem.AlarmEvent)
			h.alarms = append(h.alarms, fmt.Sprintf("%d %v", a.ID, a.Set))
			if simrt.Tracing() {
				simrt.Tracef("host EVENT alarm %d %v", a.ID, a.Set)
			}
		})
		return
	}
	bad := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	bad(s.gh.RegisterStatusVariable(must(gem.NewStatusVariable(1, "sv", "u", gem.WithStatusValueProvider(func() (ast.ItemNode, error) {
		h.n++
		h.vals[h.n] = simrt.Seq()
		return U4(h.n).ToAST(), nil
	})))))
	bad(s.gh.RegisterEquipmentConstant(must(gem.NewEquipmentConstant(10, "ec", U4(1).ToAST()))))
	bad(s.gh.RegisterCollectionEvent(must(gem.NewCollectionEvent(100, "ce"))))
	s.gh.RegisterAlarm(gem.Alarm{ID: 5, Text: "five"})
	s.gh.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		if len(q.Parameters) == 1 {
			h.execs[string(FromAST(q.Parameters[0].Value).D)]++
			l.e.Work++
		}
		return gem.RemoteCommandResult{}, nil
	})
}

func (l *pair) crashedGem(s *pside) {
	h := s.h
	h.crash = append(h.crash, simrt.Seq())
	h.busy = false
}

func (l *pair) hostSide() *pside {
	if l.side[0].h.host {
		return l.side[0]
	}
	return l.side[1]
}

func (l *pair) eqSide() *pside { return l.side[1-l.hostSide().i] }

// hostCall has the host's application make a call.
func (l *pair) hostCall(kind string) *hcall {
	s := l.hostSide()
	c := &hcall{pcall: &pcall{tok: fmt.Sprintf("%s%d", kind, len(l.hcalls)), side: s.i, life: s.life, at: simrt.Now(), q0: simrt.Seq()}, kind: kind}
	l.hcalls = append(l.hcalls, c)
	gh := s.gh
	n := uint64(len(l.hcalls))
	simrt.GoIn(s.g, c.tok, func() {
		code := 0
		switch kind {
		case "status":
			var v []gem.StatusValue
			if v, c.err = gh.RequestStatusVariables(1); c.err == nil && len(v) == 1 {
				c.val = enc(FromAST(v[0].Value))
			}
		case "ecget":
			var v []gem.EquipmentConstantValue
			if v, c.err = gh.RequestEquipmentConstants(10); c.err == nil && len(v) == 1 {
				c.val = enc(FromAST(v[0].Value))
			}
		case "ecset":
			c.val = enc(U4(1000 + n))
			code, c.err = gh.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 10, Value: U4(1000 + n).ToAST()}})
		case "cmd":
			var r gem.RemoteCommandResult
			r, c.err = gh.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "T", Value: A(c.tok).ToAST()}})
			code = int(r.HCACK)
		case "upload":
			c.val = fmt.Sprintf("body %d", n)
			code, c.err = gh.UploadProcessProgram("PP", c.val)
		case "program":
			var ack int
			c.val, ack, c.err = gh.RequestProcessProgram("PP")
			c.found = ack == 0 && c.err == nil
		case "setup":
			var k [4]int
			if k[0], c.err = gh.DefineReports(); c.err != nil {
				break
			}
			if k[1], c.err = gh.DefineReports(gem.ReportDefinitionRequest{ReportID: 7, VIDs: []interface{}{1}}); c.err != nil {
				break
			}
			if k[2], c.err = gh.LinkEventReports(gem.EventReportLinkRequest{CEID: 100, ReportIDs: []interface{}{7}}); c.err != nil {
				break
			}
			k[3], c.err = gh.EnableEventReports(true, 100)
			code = k[0] + k[1] + k[2] + k[3]
		case "alarms":
			var b byte
			b, c.err = gh.SendEnableAlarm([]int{5}, true)
			code = int(b)
		}
		c.refuse = c.err == nil && code != 0
		c.end, c.q1, c.done = simrt.Now(), simrt.Seq(), true
		if simrt.Tracing() {
			simrt.Tracef("host call %s -> %q code %d %v", c.tok, c.val, code, c.err)
		}
	})
	return c
}

func (l *pair) gemOp(o *Op) {
	h := l.eqSide().h
	switch o.K {
	case "host":
		if s := l.hostSide(); !s.g.Dead {
			l.hostCall(hostKinds[int(o.A)%len(hostKinds)])
		}
	case "trig":
		s := l.eqSide()
		if s.g.Dead {
			return
		}
		gh := s.gh
		simrt.GoIn(s.g, "trig", func() {
			i := len(h.trig)
			h.trig = append(h.trig, [2]int64{simrt.Seq(), open})
			if err := gh.TriggerCollectionEvent(100); err != nil {
				h.trig[i] = [2]int64{0, -1}
			}
		})
	case "raise":
		s := l.eqSide()
		if s.g.Dead || h.busy {
			return
		}
		gh := s.gh
		h.busy = true
		life := s.life
		simrt.GoIn(s.g, "raise", func() {
			h.raised = append(h.raised, fmt.Sprintf("5 %v", o.B != 0))
			gh.RaiseAlarm(5, o.B != 0)
			if life == s.life {
				h.busy = false
			}
		})
	case "online":
		s := l.eqSide()
		if s.g.Dead {
			return
		}
		gh := s.gh
		simrt.GoIn(s.g, "online", func() {
			if o.B != 0 {
				gh.SwitchControlOffline()
			} else {
				gh.SwitchControlOnline()
			}
		})
	}
}

func (l *pair) communicating() bool {
	for _, s := range l.side {
		ok := false
		simrt.In(s.g, func() { ok = s.gh.State() == gem.CommunicationStateCommunicating })
		if !ok {
			return false
		}
	}
	return true
}

// finalGem: on a healthy connection everything works, once.
func (l *pair) finalGem() {
	e := l.e
	hs, eq := l.hostSide(), l.eqSide()
	t3 := secs(maxI(e.P.C("act.t3"), e.P.C("pas.t3"))) + e.Tol
	for _, k := range []string{"setup", "alarms", "ecset", "ecget", "upload", "program", "status", "cmd"} {
		c := l.hostCall(k)
		for end := simrt.Now() + 4*t3; !c.done && simrt.Now() < end; {
			simrt.Sleep(30 * time.Millisecond)
		}
		if !c.done || c.err != nil || c.refuse {
			e.Bad("G14", "a host call fails on a healthy pair", "%s: done %v, %v, refused %v", c.tok, c.done, c.err, c.refuse)
			return
		}
	}
	n, a, r := len(hs.h.got), len(hs.h.alarms), len(eq.h.raised)
	settle := 500*time.Millisecond + e.Tol
	l.gemOp(&Op{K: "trig"})
	l.gemOp(&Op{K: "raise", B: int64(r % 2)})
	simrt.Sleep(settle)
	if len(hs.h.got) != n+1 {
		e.Bad("G14", "an event does not arrive once", "%d of 1 on a healthy pair", len(hs.h.got)-n)
	}
	if len(hs.h.alarms) != a+1 || hs.h.alarms[a] != fmt.Sprintf("5 %v", r%2 != 0) {
		e.Bad("G14", "an alarm does not arrive once", "%v of 1 on a healthy pair", hs.h.alarms[a:])
	}
	var st gem.ControlState
	state := func() gem.ControlState {
		simrt.In(eq.g, func() { st = eq.gh.ControlState() })
		return st
	}
	for end := simrt.Now() + t3; state() == gem.ControlStateAttemptOnline && simrt.Now() < end; {
		simrt.Sleep(50 * time.Millisecond)
	}
	if st == gem.ControlStateHostOffline { // only the host can end that
		ep := hs.ep
		e.Count("host_online_requests")
		simrt.GoIn(hs.g, "S1F17", func() {
			ep.SendAndWait(ast.NewDataMessage("", 1, 17, 1, "H->E", ast.NewEmptyItemNode()))
		})
	} else {
		l.gemOp(&Op{K: "online"})
	}
	simrt.Sleep(settle)
	if !online(state()) {
		e.Bad("G14", "the equipment does not go on-line", "%v on a healthy pair", st)
	}
	l.checkGem()
}

func (l *pair) checkGem() {
	e := l.e
	hs, eq := l.hostSide(), l.eqSide()
	var ec, pp []lop[string]
	for _, c := range l.hcalls {
		if !c.done && !c.dead && c.at+4*(secs(e.P.C(hs.name+".t3"))+e.Tol) < simrt.Now() {
			e.Bad("G14", "a host call does not end", "%s since %v", c.tok, c.at)
		}
		ok := c.done && c.err == nil
		op := lop[string]{inv: c.q0, ret: c.q1, opt: !ok, name: c.tok}
		if !ok {
			op.ret = open
		}
		e.Count("host_calls_judged")
		if ok && c.refuse && c.kind != "setup" {
			e.Bad("G14", "a valid host call is refused", "%s", c.tok)
		}
		v := c.val
		switch c.kind {
		case "status":
			if it, _ := Dec([]byte(v)); ok {
				n, _ := it.Uint(0)
				if at, have := eq.h.vals[n]; !have || at < c.q0 || at > c.q1 {
					e.Bad("G14", "a status value is not of the time of the call", "%s: %x", c.tok, v)
				}
			}
		case "cmd":
			n := eq.h.execs[c.tok]
			if n > 1 || ok && n != 1 {
				e.Bad("G14", "a remote command is not executed once", "%s: %d times, result %v", c.tok, n, c.err)
			}
		case "ecget", "program":
			if ok {
				if c.kind == "program" && !c.found {
					v = ""
				}
				op.step = func(s string) (string, bool) { return s, s == v }
				if c.kind == "ecget" {
					ec = append(ec, op)
				} else {
					pp = append(pp, op)
				}
			}
		case "ecset":
			op.step = func(string) (string, bool) { return v, true }
			ec = append(ec, op)
		case "upload":
			op.step = func(string) (string, bool) { return v, true }
			pp = append(pp, op)
		}
	}
	def := enc(U4(1))
	for _, q := range eq.h.crash {
		ec = append(ec, lop[string]{inv: q, ret: q, name: "crash", step: func(string) (string, bool) { return def, true }})
		pp = append(pp, lop[string]{inv: q, ret: q, name: "crash", step: func(string) (string, bool) { return "", true }})
	}
	key := func(s string) string { return fmt.Sprintf("%q", s) }
	if ok, why := linear(def, key, ec); !ok {
		e.Bad("G14", "equipment constant: the host's calls have no order", "%s", why)
	}
	if ok, why := linear("", key, pp); !ok {
		e.Bad("G14", "process program: the host's calls have no order", "%s", why)
	}
	seen := map[uint64]bool{}
	for _, v := range hs.h.got {
		if seen[v] {
			e.Bad("G14", "an event report arrives twice", "value %d", v)
		}
		seen[v] = true
		if _, ok := eq.h.vals[v]; !ok {
			e.Bad("G14", "an event report shows a value that was never held", "%d", v)
		}
		e.Count("event_reports")
	}
	n := 0
	for _, t := range eq.h.trig {
		if t[1] > 0 {
			n++
		}
	}
	if len(hs.h.got) > n {
		e.Bad("G14", "more event reports arrive than were triggered", "%d of %d", len(hs.h.got), n)
	}
	i := 0
	for _, a := range hs.h.alarms {
		for i < len(eq.h.raised) && eq.h.raised[i] != a {
			i++
		}
		if i == len(eq.h.raised) {
			e.Bad("G14", "alarm reports arrive that were not raised in this order", "arrived %s, raised %s", strings.Join(hs.h.alarms, ", "), strings.Join(eq.h.raised, ", "))
			break
		}
		i++
		e.Count("alarm_reports")
	}
}

func genG14(r *rand.Rand, p *Plan) {
	genPair(r, p)
	p.Cfg["gem"] = 1
	p.Cfg["hostact"] = int64(r.Intn(2))
	p.Cfg["ctl0"] = int64(r.Intn(4))
	p.Cfg["act.ew"], p.Cfg["pas.ew"] = pick(r, 0, 500, 2000), pick(r, 0, 500, 2000)
	span := pick(r, 1000, 6000, 20000, 40000)
	genFaults(r, p, r.Intn(6), span)
	add := func(k string, a, b int64) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: k, A: a, B: b})
	}
	if chance(r, 0.8) {
		at := between(r, 0, 2000)
		p.Ops = append(p.Ops, Op{At: at, K: "host", A: 6}, Op{At: at + 100, K: "host", A: 7})
	}
	for i := 2 + r.Intn(10); i > 0; i-- {
		switch k := r.Intn(10); {
		case k < 5:
			add("host", int64(r.Intn(len(hostKinds))), 0)
		case k < 7:
			add("trig", 0, 0)
		case k < 9:
			add("raise", 0, int64(r.Intn(2)))
		default:
			add("online", 0, int64(r.Intn(3)/2))
		}
	}
}
