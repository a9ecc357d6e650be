package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// hf is a frame of a connection as the endpoint under test saw it: one that reached it
// completely at At, or one whose first byte it wrote at At.
type hf struct {
	F    *Frame
	It   *Item
	At   time.Duration
	Seq  int64
	At1  time.Duration
	Seq1 int64
}

// gconn is one connection of a GEM endpoint.
type gconn struct {
	id           int
	lk           *snet.Link
	sut, peer    *snet.TCPConn
	in, out      []*hf
	t0           time.Duration
	q0           int64         // when the handler began to connect, or accepted it
	selAt        time.Duration // never: not selected
	selSeq       int64
	lost         time.Duration // when it was lost, for whatever reason (never: still there)
	endAt        time.Duration // when the socket was gone
	disabledLoss bool
	junk         bool
}

type stamp struct {
	At  time.Duration
	Seq int64
}

type gpoll struct {
	At0, At time.Duration
	Q0, Q1  int64
	comm    gem.CommunicationState
	ctl     gem.ControlState
}

type cev struct {
	prev, cur gem.ControlState
	mode      gem.OnlineControlMode
	stamp
}

// gop is an application call on the handler.
type gop struct {
	o          *Op
	kind       string
	At, End    time.Duration
	Q0, Q1     int64
	QE         int64 // effects are visible by now
	AtE        time.Duration
	done       bool
	err        error
	ok         bool
	ce         []string // trig
	idx        int
	on         bool
	S, F       int
	args       *Item // request body expected on the wire
	any0       bool  // its first entry (an identifier of the request) is left open
	res        any
	body       string
	key        string
	skipped    bool
	commBefore bool
	reg        *reg
}

// gsite is one GEM handler under test with its application and history.
type gsite struct {
	e       *Env
	name    string
	host    bool
	active  bool
	g       *simrt.Group
	ep      *hsms.HsmsProtocol
	gh      *gem.GemHandler
	fx      *fixture
	tog     []*Toggle
	polls   []gpoll
	comm    []stamp
	chain   []cev
	init    gem.ControlState
	ops     []*gop
	reports []hostEvent
	alarms  []hostEvent
	cs      []*gconn
	pend    int
	nested  int
	slow    time.Duration
	mdln    string
	softrev string
	ew      time.Duration
	t3      time.Duration
	busy    map[string]bool
	inline  bool          // the application op runs where it is asked for, in a callback
	gops    map[int64]*Op // plan ops by identity, for requests
	mut     map[uint32]bool
	stop    bool
	endSeq  int64
	endAt   time.Duration
	sysOp   map[uint32]*Op
	side    appSide
}

type hostEvent struct {
	stamp
	it *Item // content, as an item
}

func ctlState(n int64) gem.ControlState {
	return []gem.ControlState{gem.ControlStateAttemptOnline, gem.ControlStateEquipmentOffline, gem.ControlStateHostOffline, gem.ControlStateOnline}[n]
}

// newSite makes a GEM handler on the endpoint, in its group.
func newSite(e *Env, name string, g *simrt.Group, ep *hsms.HsmsProtocol, host, active bool, log *mlog) *gsite {
	p := e.P
	s := &gsite{e: e, name: name, host: host, active: active, g: g, ep: ep, busy: map[string]bool{}, mut: map[uint32]bool{}, sysOp: map[uint32]*Op{}}
	s.ew = ms(p.C("ew"))
	s.mdln, s.softrev = []string{"model", "M", "etcher 3/b"}[p.C("ident")%3], []string{"1.0", "rev-20260301"}[p.C("ident")/3%2]
	mdln, softrev, ew, ctl0 := s.mdln, s.softrev, s.ew, ctlState(p.C("ctl0"))
	if p.C("ident") == 6 { // leaves the choice to the library
		mdln, softrev, s.mdln, s.softrev = "", "", "secs4go", "0.1.0"
	}
	if ew == 0 {
		s.ew = 10 * time.Second
	}
	if p.C("ctl0") == 0 && p.C("ident")%2 != 0 {
		ctl0 = gem.ControlState(0)
	}
	s.t3 = secs(p.C("t3"))
	for i := range p.Ops {
		if o := &p.Ops[i]; o.K == "g" && o.A == kS2F41 || o.K == "call" {
			s.slow += ms(p.C("slowcmd"))
		}
	}
	dt := gem.DeviceEquipment
	if host {
		dt = gem.DeviceHost
	}
	mode := gem.OnlineModeRemote
	if p.Has("local") {
		mode = gem.OnlineModeLocal
	}
	var lo gem.LoggingOptions
	if log != nil {
		k, keys, mode := log.make(p.C("lg.w"), p.C("lg.b"), p.C("lg.c"), p.C("lg.d"))
		lo = gem.LoggingOptions{Enabled: k.on, Mode: mode, IncludeControlMessages: k.ctl, ExcludeControlMessageTypes: keys, Writer: log.sinks[k.w]}
		k.done = true
	}
	simrt.In(g, func() {
		gh, err := gem.NewGemHandler(gem.Options{Logging: lo, Protocol: ep, DeviceType: dt, DeviceID: ep1(p), MDLN: mdln, SOFTREV: softrev, EstablishCommunicationWait: ew,
			InitialControlState: ctl0, InitialOnlineMode: mode})
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.gh = gh
		ev := gh.Events()
		ev.HandlerCommunicating.AddCallback(func(map[string]interface{}) {
			s.comm = append(s.comm, stamp{simrt.Now(), simrt.Seq()})
			if simrt.Tracing() {
				simrt.Tracef("%s EVENT communicating", name)
			}
		})
		ev.ControlStateChanged.AddCallback(func(d map[string]interface{}) {
			c := cev{prev: d["previous"].(gem.ControlState), cur: d["current"].(gem.ControlState), stamp: stamp{simrt.Now(), simrt.Seq()}}
			c.mode, _ = d["mode"].(gem.OnlineControlMode)
			s.chain = append(s.chain, c)
			if simrt.Tracing() {
				simrt.Tracef("%s EVENT control %s -> %s", name, c.prev, c.cur)
			}
			s.fromCallback(c.cur)
		})
		ev.EventReportReceived.AddCallback(func(d map[string]interface{}) {
			s.reports = append(s.reports, hostEvent{stamp{simrt.Now(), simrt.Seq()}, reportItem(d["report"].(gem.EventReport))})
			e.Work++
		})
		ev.AlarmReceived.AddCallback(func(d map[string]interface{}) {
			a := d["alarm"].(gem.AlarmEvent)
			s.alarms = append(s.alarms, hostEvent{stamp{simrt.Now(), simrt.Seq()}, L(B(byte(b2i(a.Set))), U8(uint64(a.ID)), A(a.Text))})
			e.Work++
		})
		if e.Prop == "G13" {
			s.watchBase()
		}
		s.init = gh.ControlState()
		if !host {
			s.fx = newFixture(e, gh)
			s.fx.site = s
		}
	})
	return s
}

func ep1(p *Plan) uint16 { return uint16(p.C("psess")) }

// reportItem renders an event report as the application got it: L[dataid, ceid key, L[L[key, L[values]]]].
func reportItem(r gem.EventReport) *Item {
	rs := L()
	for _, x := range r.Reports {
		vs := L()
		for _, v := range x.Values {
			vs.L = append(vs.L, FromAST(v))
		}
		rs.L = append(rs.L, L(A(keyOf(x.RPTID)), vs))
	}
	return L(U8(uint64(r.DATAID)), A(keyOf(r.CEID)), rs)
}

func (s *gsite) poll() {
	q0, a0 := simrt.Seq(), simrt.Now()
	c := s.gh.State()
	k := s.gh.ControlState()
	s.polls = append(s.polls, gpoll{a0, simrt.Now(), q0, simrt.Seq(), c, k})
}

// startPoll samples the reported states.
func (s *gsite) startPoll() {
	simrt.GoIn(s.g, "poller", func() {
		for !s.stop {
			s.poll()
			simrt.Sleep(time.Duration(20+simrt.Rand().Intn(230)) * time.Millisecond)
		}
	})
}

func (s *gsite) toggle(on bool) {
	t := &Toggle{On: on, At: simrt.Now(), Seq: simrt.Seq()}
	s.tog = append(s.tog, t)
	if on {
		s.gh.Enable()
	} else {
		s.gh.Disable()
	}
	t.End, t.Seq1, t.Done = simrt.Now(), simrt.Seq(), true
	s.poll()
}

// waitComm waits until communication is established.
func (s *gsite) waitComm(d time.Duration) bool {
	for end := simrt.Now() + d; simrt.Now() < end; simrt.Sleep(20 * time.Millisecond) {
		ok := false
		simrt.In(s.g, func() { ok = s.gh.State() == gem.CommunicationStateCommunicating })
		if ok || len(s.comm) > 0 { // it may be over already: a peer that ends the connection when asked S1F1
			return true
		}
	}
	return false
}

// begin starts an application call as a task of the endpoint's process.
func (s *gsite) begin(o *Op, kind string, lock string, f func(x *gop)) {
	if lock != "" {
		if s.busy[lock] {
			return
		}
		s.busy[lock] = true
	}
	s.pend++
	x := &gop{o: o, kind: kind}
	s.ops = append(s.ops, x)
	run, inline := func() {
		x.At, x.Q0 = simrt.Now(), simrt.Seq()
		if simrt.Tracing() {
			simrt.Tracef("%s app %s begins", s.name, kind)
		}
		f(x)
		x.End, x.Q1, x.done = simrt.Now(), simrt.Seq(), true
		if simrt.Tracing() {
			simrt.Tracef("%s app %s ends err=%v res=%v", s.name, kind, x.err, x.res)
		}
		s.e.Work++
		s.pend--
	}, s.inline
	if inline {
		run()
	}
	simrt.GoIn(s.g, fmt.Sprintf("%s-%s-%d", s.name, kind, o.I), func() {
		if !inline {
			run()
		}
		simrt.Sleep(s.e.Tol + 20*time.Millisecond)
		x.QE, x.AtE = simrt.Seq(), simrt.Now()
		delete(s.busy, lock)
	})
}

// app performs an application op; false: not one of the equipment's or host's.
func (s *gsite) app(o *Op) bool {
	f := s.fx
	switch o.K {
	case "setvar":
		if f == nil {
			return true
		}
		var vs []*vreg
		for _, v := range append(append([]*vreg{}, f.svs...), f.dvs...) {
			if v.kind == "static" || o.B != 0 {
				vs = append(vs, v)
			}
		}
		v := vs[int(o.A)%len(vs)]
		s.begin(o, "setvar", "", func(x *gop) { f.setVar(v) })
	case "setprov":
		if f == nil {
			return true
		}
		vs := append(append([]*vreg{}, f.svs...), f.dvs...)
		v := vs[int(o.A)%len(vs)]
		s.begin(o, "setprov", "prov"+v.key, func(x *gop) { f.setProv(v, []string{"static", "prov", "fail"}[o.B]) })
	case "setec", "getec":
		if f == nil {
			return true
		}
		c := f.ecs[int(o.A)%len(f.ecs)]
		s.begin(o, o.K, "", func(x *gop) {
			x.key = c.key
			if o.K == "getec" {
				n, err := c.ec.Value()
				if x.err = err; err == nil {
					x.args = FromAST(n)
				}
				return
			}
			x.args = U4(uint64(o.B))
			if c.def.F == fAsc {
				x.args = A(fmt.Sprintf("own %d", o.B))
			}
			if o.C != 0 {
				x.err = c.ec.ApplyValue(nil)
				x.idx = 1
				return
			}
			x.err = c.ec.ApplyValue(x.args.ToAST())
		})
	case "gtime":
		if f == nil {
			return true
		}
		s.begin(o, "gtime", "", func(x *gop) { x.key = s.gh.GetEquipmentTime() })
	case "clkset":
		if f == nil {
			return true
		}
		s.begin(o, "clkset", fmt.Sprint("clkset", o.A), func(x *gop) {
			m := []*[]vmode{&f.provs, &f.syncs, &f.rcs}[o.A]
			k := []string{"system", "nobody", "nobody"}[o.A]
			if o.B != 0 {
				k = "app"
			}
			*m = append(*m, vmode{k, simrt.Seq(), 1 << 60})
			switch {
			case o.A == 0 && o.B == 0:
				s.gh.SetTimeProvider(nil)
			case o.A == 0:
				s.gh.SetTimeProvider(f.now)
			case o.A == 2 && o.B == 0:
				s.gh.SetRemoteCommandHandler(nil)
			case o.A == 2:
				s.gh.SetRemoteCommandHandler(f.remote)
			case o.B == 0:
				s.gh.SetClockSyncHandler(nil)
			default:
				s.gh.SetClockSyncHandler(f.sync)
			}
			(*m)[len(*m)-1].s1 = simrt.Seq()
		})
	case "wrong":
		ts := s.othersCalls()
		t := ts[int(o.A)%len(ts)]
		s.begin(o, "wrong", "", func(x *gop) {
			x.key = t.name
			x.S, x.F = t.s, t.f
			x.err = t.do()
		})
	case "badcall":
		if !s.host {
			return true
		}
		ts := s.badCalls(o.A)
		t := ts[int(o.B)%len(ts)]
		s.begin(o, "badcall", "", func(x *gop) {
			sf := kindSF[o.A]
			x.S, x.F = sf[0], sf[1]
			x.err = t()
		})
	case "listpp":
		if f == nil {
			return true
		}
		s.begin(o, "listpp", "", func(x *gop) {
			l := ecState{}
			for _, pp := range s.gh.ListProcessPrograms() {
				k := keyOf(pp.ID())
				if _, dup := l[k]; dup {
					x.idx++
				}
				l[k] = pp.Body
			}
			x.res = l
		})
	case "trig":
		if f == nil {
			return true
		}
		s.begin(o, "trig", "", func(x *gop) {
			var ids []interface{}
			for m, i := o.A, 0; m > 0; m, i = m/8, i+1 {
				k := int(m%8) - 1
				if k >= 0 && k < len(f.ces) {
					x.ce = append(x.ce, f.ces[k])
					ids = append(ids, goID(f.ces[k]))
				}
			}
			if o.B != 0 {
				ids = append(ids, 9999)
			}
			x.err = s.gh.TriggerCollectionEvent(ids...)
		})
	case "alarm":
		if f == nil {
			return true
		}
		k := int(o.A) % (len(f.alarms) + 1)
		s.begin(o, "alarm", fmt.Sprintf("alarm%d", k), func(x *gop) {
			x.idx, x.on = k, o.B != 0
			id := 4242
			if k < len(f.alarms) {
				id = f.alarms[k].id
			} else {
				x.idx = -1
			}
			if !x.on && o.B == 0 && o.C == 1 {
				x.err = s.gh.ClearAlarm(id)
			} else {
				x.err = s.gh.RaiseAlarm(id, x.on)
			}
		})
	case "almen":
		if f == nil {
			return true
		}
		s.begin(o, "almen", "", func(x *gop) {
			x.idx, x.on = int(o.A)%(len(f.alarms)+1), o.B != 0
			id := 4242
			if x.idx < len(f.alarms) {
				id = f.alarms[x.idx].id
			} else {
				x.idx = -1
			}
			if x.on {
				x.err = s.gh.EnableAlarm(id)
			} else {
				x.err = s.gh.DisableAlarm(id)
			}
		})
	case "almreg":
		if f == nil {
			return true
		}
		k := int(o.A) % len(f.alarms)
		s.begin(o, "almreg", fmt.Sprintf("alarm%d", k), func(x *gop) {
			x.idx = k
			s.gh.RegisterAlarm(gem.Alarm{ID: f.alarms[k].id, Text: f.alarms[k].text})
		})
	case "enrol": // S: class, A: which, B: register nothing
		if f == nil {
			return true
		}
		var gs []*reg
		for _, g := range f.regs {
			if g.class == o.S {
				gs = append(gs, g)
			}
		}
		g := gs[int(o.A)%len(gs)]
		s.begin(o, "enrol", "", func(x *gop) {
			if o.B != 0 {
				x.ok = true
				switch o.S {
				case "sv":
					x.err = s.gh.RegisterStatusVariable(nil)
				case "dv":
					x.err = s.gh.RegisterDataVariable(nil)
				case "ec":
					x.err = s.gh.RegisterEquipmentConstant(nil)
				case "ce":
					x.err = s.gh.RegisterCollectionEvent(nil)
				}
				return
			}
			x.reg = g
			do := g.again
			if g.late {
				do = g.first
			}
			q0 := simrt.Seq()
			if x.err = do(); x.err == nil {
				g.q0, g.q1, g.done = q0, simrt.Seq(), true
			}
			if simrt.Tracing() {
				simrt.Tracef("%s registers %s %s: %v", s.name, g.class, g.key, x.err)
			}
		})
	case "regpp":
		if f == nil {
			return true
		}
		s.begin(o, "regpp", "", func(x *gop) {
			x.key = ppKeys[int(o.A)%len(ppKeys)]
			x.body = fmt.Sprintf("local %d", o.I)
			x.err = s.gh.RegisterProcessProgram(goID(x.key), x.body)
		})
	case "ctl":
		s.begin(o, ctlNames[o.A], "", func(x *gop) { s.ctl(x, o.A) })
	case "wait":
		s.begin(o, "wait", "", func(x *gop) { x.ok = s.gh.WaitForCommunicating(ms(o.B)) })
	case "gpoll":
		simrt.GoIn(s.g, "gpoll", s.poll)
	case "call":
		if !s.host {
			return true
		}
		s.call(o)
	default:
		return false
	}
	return true
}

// roleCall is a call of the API.
type roleCall struct {
	name string
	s, f int // of the primary it might send
	do   func() error
}

// othersCalls are those that are not for the site's role.
func (s *gsite) othersCalls() []roleCall {
	gh := s.gh
	if s.host {
		return []roleCall{
			{"RegisterStatusVariable", 0, 0, func() error { return gh.RegisterStatusVariable(must(gem.NewStatusVariable(1, "a", "b"))) }},
			{"RegisterDataVariable", 0, 0, func() error { return gh.RegisterDataVariable(must(gem.NewDataVariable(1, "a"))) }},
			{"RegisterEquipmentConstant", 0, 0, func() error {
				return gh.RegisterEquipmentConstant(must(gem.NewEquipmentConstant(1, "a", U1(1).ToAST())))
			}},
			{"RegisterCollectionEvent", 0, 0, func() error { return gh.RegisterCollectionEvent(must(gem.NewCollectionEvent(1, "a"))) }},
			{"RegisterProcessProgram", 0, 0, func() error { return gh.RegisterProcessProgram("a", "b") }},
			{"TriggerCollectionEvent", 6, 11, func() error { return gh.TriggerCollectionEvent(1) }},
			{"RaiseAlarm", 5, 1, func() error { return gh.RaiseAlarm(1, true) }},
			{"ClearAlarm", 5, 1, func() error { return gh.ClearAlarm(1) }},
		}
	}
	e2 := func(_ any, err error) error { return err }
	return []roleCall{
		{"RequestStatusVariables", 1, 3, func() error { return e2(gh.RequestStatusVariables(1)) }},
		{"RequestStatusVariableInfo", 1, 11, func() error { return e2(gh.RequestStatusVariableInfo()) }},
		{"RequestEquipmentConstants", 2, 13, func() error { return e2(gh.RequestEquipmentConstants(201)) }},
		{"RequestEquipmentConstantInfo", 2, 29, func() error { return e2(gh.RequestEquipmentConstantInfo()) }},
		{"SendEquipmentConstantValues", 2, 15, func() error {
			return e2(gh.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 201, Value: U4(1).ToAST()}}))
		}},
		{"DefineReports", 2, 33, func() error { return e2(gh.DefineReports()) }},
		{"LinkEventReports", 2, 35, func() error { return e2(gh.LinkEventReports()) }},
		{"EnableEventReports", 2, 37, func() error { return e2(gh.EnableEventReports(true)) }},
		{"RequestCollectionEventReport", 6, 15, func() error { return e2(gh.RequestCollectionEventReport(301)) }},
		{"UploadProcessProgram", 7, 3, func() error { return e2(gh.UploadProcessProgram("a", "b")) }},
		{"RequestProcessProgram", 7, 5, func() error {
			_, _, err := gh.RequestProcessProgram("a")
			return err
		}},
		{"SendRemoteCommand", 2, 41, func() error { return e2(gh.SendRemoteCommand("START", nil)) }},
		{"SendEnableAlarm", 5, 3, func() error { return e2(gh.SendEnableAlarm([]int{1}, true)) }},
		{"RequestAlarmList", 5, 5, func() error { return e2(gh.RequestAlarmList()) }},
		{"RequestEnabledAlarmList", 5, 7, func() error { return e2(gh.RequestEnabledAlarmList()) }},
		{"RequestDateTime", 2, 17, func() error { return e2(gh.RequestDateTime()) }},
		{"SetDateTime", 2, 31, func() error { return e2(gh.SetDateTime("2026010112000000")) }},
	}
}

// badCalls are calls of a host whose arguments no message can carry.
func (s *gsite) badCalls(kind int64) []func() error {
	gh := s.gh
	e2 := func(_ any, err error) error { return err }
	bad := []any{3.5, -1, nil, []int{1}, true}
	var l []func() error
	one := func(f func(id any) error) {
		for _, id := range bad {
			l = append(l, func() error { return f(id) })
		}
	}
	switch kind {
	case kS1F3:
		one(func(id any) error { return e2(gh.RequestStatusVariables(1, id)) })
		l = append(l, func() error { return e2(gh.RequestStatusVariables()) })
	case kS1F11:
		one(func(id any) error { return e2(gh.RequestStatusVariableInfo(1, id)) })
	case kS2F13:
		one(func(id any) error { return e2(gh.RequestEquipmentConstants(1, id)) })
		l = append(l, func() error { return e2(gh.RequestEquipmentConstants()) })
	case kS2F29:
		one(func(id any) error { return e2(gh.RequestEquipmentConstantInfo(1, id)) })
	case kS2F15:
		one(func(id any) error {
			return e2(gh.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 201, Value: U4(1).ToAST()}, {ID: id, Value: U4(1).ToAST()}}))
		})
		l = append(l, func() error { return e2(gh.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 201}})) })
	case kS2F33:
		one(func(id any) error { return e2(gh.DefineReports(gem.ReportDefinitionRequest{ReportID: id})) })
		one(func(id any) error {
			return e2(gh.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{1, id}}))
		})
	case kS2F35:
		one(func(id any) error { return e2(gh.LinkEventReports(gem.EventReportLinkRequest{CEID: id})) })
		one(func(id any) error {
			return e2(gh.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []any{1, id}}))
		})
	case kS2F37:
		one(func(id any) error { return e2(gh.EnableEventReports(true, 1, id)) })
	case kS6F15:
		one(func(id any) error { return e2(gh.RequestCollectionEventReport(id)) })
	case kS7F3:
		one(func(id any) error { return e2(gh.UploadProcessProgram(id, "x")) })
	case kS7F5:
		one(func(id any) error {
			_, _, err := gh.RequestProcessProgram(id)
			return err
		})
	case kS2F31:
		l = append(l, func() error { return e2(gh.SetDateTime("")) }, func() error { return e2(gh.SetDateTime("202601011200")) })
	case kS2F41:
		one(func(id any) error { return e2(gh.SendRemoteCommand(id, nil)) })
		one(func(id any) error {
			return e2(gh.SendRemoteCommand("START", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}, {Name: id, Value: 1}}))
		})
		l = append(l, func() error {
			return e2(gh.SendRemoteCommand("START", []gem.RemoteCommandParameterValue{{Name: "A", Value: struct{}{}}}))
		})
	default:
		l = append(l, func() error { return errRefused })
	}
	return l
}

// checkRoles: calls for the other role fail and send nothing.
func (s *gsite) checkRoles() {
	for _, x := range s.ops {
		if x.kind != "wrong" {
			continue
		}
		if !x.done || !errors.Is(x.err, gem.ErrOperationNotSupported) {
			s.e.Bad("G01", "a call for the other role is not refused", "%s: %v", x.key, x.err)
			return
		}
		s.e.Count("calls_for_the_other_role")
		for _, c := range s.cs {
			for _, f := range c.out {
				if x.S != 0 && f.F.Typ == tData && f.F.S() == x.S && f.F.F() == x.F {
					s.e.Bad("G01", "a call for the other role sends a message", "%s: %v at %v", x.key, f.F, f.At)
					return
				}
			}
		}
	}
}

func (s *gsite) ctl(x *gop, k int64) {
	switch k {
	case 0:
		x.err = s.gh.SwitchControlOnline()
	case 1:
		x.err = s.gh.SwitchControlOffline()
	case 2:
		x.err = s.gh.SwitchControlOnlineLocal()
	case 3:
		x.err = s.gh.SwitchControlOnlineRemote()
	}
}

var ctlNames = []string{"c-online", "c-offline", "c-local", "c-remote"}

// fromCallback has the application switch the control state from within its callback.
func (s *gsite) fromCallback(st gem.ControlState) {
	k := s.e.P.C("cbctl") - 1
	if k < 0 || s.nested > 2 || (k > 0) != online(st) {
		return
	}
	s.nested++
	s.e.Count("calls_from_callbacks")
	x := &gop{kind: ctlNames[k]}
	s.ops = append(s.ops, x)
	x.At, x.Q0 = simrt.Now(), simrt.Seq()
	s.ctl(x, k)
	x.End, x.Q1, x.done = simrt.Now(), simrt.Seq(), true
	if simrt.Tracing() {
		simrt.Tracef("%s app %s from a callback: %v", s.name, x.kind, x.err)
	}
}

func rawID(key string) interface{} {
	if key[0] == 'S' {
		return key[2:]
	}
	var n int
	fmt.Sscan(key[2:], &n)
	return n
}

// goID is an identifier as the application gives it, in one of the types it may use.
func goID(key string) interface{} {
	if key[0] == 'S' {
		return key[2:]
	}
	var n uint64
	fmt.Sscan(key[2:], &n)
	switch {
	case n%7 == 0 && n < 1<<8:
		return uint8(n)
	case n%7 == 1 && n < 1<<15:
		return int16(n)
	case n%7 == 2 && n < 1<<31:
		return int32(n)
	case n%7 == 3 && n < 1<<16:
		return uint16(n)
	case n%7 == 4 && n < 1<<32:
		return uint32(n)
	case n%7 == 5:
		return n
	case n%7 == 6:
		return int64(n)
	}
	return int(n)
}

// goValue is a value as Go holds it, and as an item.
func goValue(r *rand.Rand) (interface{}, *Item) {
	edge := []int64{0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, r.Int63()}
	n := edge[r.Intn(len(edge))]
	if r.Intn(3) == 0 {
		n = -n - int64(r.Intn(2))
	}
	switch r.Intn(15) {
	case 12:
		return uint(n), U8(uint64(n))
	case 13:
		return float32(n) / 8, F4(float32(n) / 8)
	case 14:
		return float64(n) / 1e3, F8(float64(n) / 1e3)
	case 0:
		return int(n), I8(n)
	case 1:
		return n, I8(n)
	case 2:
		return int8(n), I8(int64(int8(n)))
	case 3:
		return int16(n), I8(int64(int16(n)))
	case 4:
		return int32(n), I8(int64(int32(n)))
	case 5:
		return uint64(n), U8(uint64(n))
	case 6:
		return uint32(n), U8(uint64(uint32(n)))
	case 7:
		return uint16(n), U8(uint64(uint16(n)))
	case 8:
		return uint8(n), U8(uint64(uint8(n)))
	case 9:
		b := make([]byte, r.Intn(5))
		r.Read(b)
		return b, B(b...)
	case 10:
		return n&1 == 0, Bo(byte(1 - n&1))
	}
	t := text(r, r.Intn(9))
	return t, A(t)
}

// apiID is how the API encodes an identifier.
func apiID(key string) *Item {
	if key[0] == 'S' {
		return A(key[2:])
	}
	var n uint64
	fmt.Sscan(key[2:], &n)
	if n >= 1<<32 {
		return U8(n)
	}
	return U4(n)
}

func keysOf(it *Item) ([]string, []interface{}, *Item) {
	var ks []string
	var ids []interface{}
	l := L()
	for _, x := range it.L {
		if k, ok := idKey(x); ok {
			ks = append(ks, k)
			ids = append(ids, goID(k))
			l.L = append(l.L, apiID(k))
		}
	}
	return ks, ids, l
}

// entry adds one entry to the request expected on the wire.
func (x *gop) entry(k string, ids *Item) {
	x.args.L[1].L = append(x.args.L[1].L, L(apiID(k), ids))
}

// call makes one of the host's client calls. A: kind.
func (s *gsite) call(o *Op) {
	kind := o.A
	r := rand.New(rand.NewSource(hash64("hcall", o.I, o.D)))
	b := body(kind, r, o.I, worldOf(o.D))
	sf := kindSF[kind]
	gh := s.gh
	entries := func(it *Item) []*Item {
		es, _ := listEntries(it)
		return es
	}
	s.begin(o, fmt.Sprintf("call-S%dF%d", sf[0], sf[1]), "", func(x *gop) {
		x.S, x.F = sf[0], sf[1]
		switch kind {
		case kS1F3, kS2F13:
			if len(b.L) == 0 {
				b.L = append(b.L, U4(1))
			}
			_, ids, l := keysOf(b)
			x.args = l
			out := L()
			if kind == kS1F3 {
				v, err := gh.RequestStatusVariables(ids...)
				x.err = err
				for _, y := range v {
					out.L = append(out.L, L(A(keyOf(y.ID)), FromAST(y.Value)))
				}
			} else {
				v, err := gh.RequestEquipmentConstants(ids...)
				x.err = err
				for _, y := range v {
					out.L = append(out.L, L(A(keyOf(y.ID)), FromAST(y.Value)))
				}
			}
			x.res = out
		case kS1F11:
			_, ids, l := keysOf(b)
			x.args = l
			out := L()
			v, err := gh.RequestStatusVariableInfo(ids...)
			x.err = err
			for _, y := range v {
				out.L = append(out.L, L(A(keyOf(y.ID)), A(y.Name), A(y.Unit)))
			}
			x.res = out
		case kS2F29:
			_, ids, l := keysOf(b)
			x.args = l
			out := L()
			v, err := gh.RequestEquipmentConstantInfo(ids...)
			x.err = err
			for _, y := range v {
				out.L = append(out.L, L(A(keyOf(y.ID)), A(y.Name), FromAST(y.Min), FromAST(y.Max), FromAST(y.Default), A(y.Unit)))
			}
			x.res = out
		case kS2F15:
			x.args = L()
			var us []gem.EquipmentConstantUpdate
			for _, y := range b.L {
				if len(y.L) < 2 {
					continue
				}
				k, _ := idKey(y.L[0])
				us = append(us, gem.EquipmentConstantUpdate{ID: goID(k), Value: y.L[1].ToAST()})
				x.args.L = append(x.args.L, L(apiID(k), y.L[1]))
			}
			x.res, x.err = gh.SendEquipmentConstantValues(us)
			if len(us) == 0 {
				x.skipped = true
			}
		case kS2F33:
			var ds []gem.ReportDefinitionRequest
			x.args, x.any0 = L(nil, L()), true
			for _, y := range entries(b) {
				k, _ := idKey(y.L[0])
				_, ids, l := keysOf(y.L[1])
				ds = append(ds, gem.ReportDefinitionRequest{ReportID: goID(k), VIDs: ids})
				x.entry(k, l)
			}
			x.res, x.err = gh.DefineReports(ds...)
		case kS2F35:
			var ls []gem.EventReportLinkRequest
			x.args, x.any0 = L(nil, L()), true
			for _, y := range entries(b) {
				k, _ := idKey(y.L[0])
				_, ids, l := keysOf(y.L[1])
				ls = append(ls, gem.EventReportLinkRequest{CEID: goID(k), ReportIDs: ids})
				x.entry(k, l)
			}
			x.res, x.err = gh.LinkEventReports(ls...)
		case kS2F37:
			_, ids, l := keysOf(b.L[1])
			x.args = L(Bo(byte(b2i(b.L[0].D[0] != 0))), l)
			x.res, x.err = gh.EnableEventReports(b.L[0].D[0] != 0, ids...)
		case kS6F15:
			if b.F == fList {
				b = b.L[0]
			}
			k, _ := idKey(b)
			var rep gem.EventReport
			rep, x.err = gh.RequestCollectionEventReport(goID(k))
			x.args = apiID(k)
			if x.err == nil {
				x.res = reportItem(rep)
			}
		case kS7F3:
			k, _ := idKey(b.L[0])
			bd := string(b.L[1].D)
			if b.L[1].F != fAsc {
				bd = "binary"
			}
			bd = fmt.Sprintf("%s #%d", bd, o.I)
			x.args = L(apiID(k), A(bd))
			x.res, x.err = gh.UploadProcessProgram(goID(k), bd)
		case kS7F5:
			if b.F == fList {
				b = b.L[0]
			}
			k, _ := idKey(b)
			x.args = apiID(k)
			bd, ack, err := gh.RequestProcessProgram(goID(k))
			x.res, x.err = L(A(bd), I4(int64(ack))), err
		case kS2F41:
			k, _ := idKey(b.L[0])
			var ps []gem.RemoteCommandParameterValue
			x.args = L(apiID(k), L())
			for _, y := range b.L[1].L {
				n, _ := idKey(y.L[0])
				var v interface{}
				it := L()
				if len(y.L) > 1 {
					v, it = y.L[1].ToAST(), y.L[1]
					if chance(r, 0.5) {
						v, it = goValue(r)
					}
				}
				ps = append(ps, gem.RemoteCommandParameterValue{Name: goID(n), Value: v})
				x.args.L[1].L = append(x.args.L[1].L, L(apiID(n), it))
			}
			res, err := gh.SendRemoteCommand(goID(k), ps)
			x.err = err
			out := L(U1(uint64(res.HCACK)), L())
			for _, y := range res.ParameterAcks {
				out.L[1].L = append(out.L[1].L, L(A(keyOf(y.Name)), U1(uint64(y.Ack))))
			}
			x.res = out
		case kS2F17:
			x.res, x.err = gh.RequestDateTime()
		case kS2F31:
			t := string(b.D)
			x.args = A(t)
			x.skipped = len(t) < 14
			var c byte
			c, x.err = gh.SetDateTime(t)
			x.res = int(c)
		case kS5F3:
			var ids []int
			x.args = L(B(b.L[0].D[0]), L())
			for _, y := range b.L[1].L {
				k, _ := idKey(y)
				x.args.L[1].L = append(x.args.L[1].L, apiID(k))
				ids = append(ids, rawID(k).(int))
			}
			var c byte
			c, x.err = gh.SendEnableAlarm(ids, b.L[0].D[0] != 0)
			x.res = int(c)
		case kS5F5, kS5F7:
			var v []gem.AlarmInfo
			if kind == kS5F5 {
				v, x.err = gh.RequestAlarmList()
			} else {
				v, x.err = gh.RequestEnabledAlarmList()
			}
			out := L()
			for _, y := range v {
				out.L = append(out.L, L(U8(uint64(y.ID)), A(y.Text), Bo(byte(b2i(y.Set))), Bo(byte(b2i(y.Enabled)))))
			}
			x.res = out
		default:
			x.skipped = true
		}
	})
}

// history gathers what the network recorded of the site's connections.
func (s *gsite) history() {
	e := s.e
	begun := s.ops[:0]
	for _, x := range s.ops {
		if x.Q0 != 0 { // begun before the run ended
			begun = append(begun, x)
		}
	}
	s.ops = begun
	dials := map[*snet.Link]*snet.DialRec{}
	for _, d := range e.W.Dials {
		if d.Link != nil {
			dials[d.Link] = d
		}
	}
	for _, lk := range e.W.Links {
		c := &gconn{id: len(s.cs), lk: lk, lost: never, endAt: never, selAt: never}
		if s.active {
			d := dials[lk]
			if d == nil || d.G != s.g {
				continue
			}
			c.sut, c.peer, c.t0, c.q0 = lk.C, lk.S, d.End, d.Seq
		} else {
			if !lk.Accepted || lk.C.Group() == s.g || lk.S.Group() != s.g {
				continue
			}
			c.sut, c.peer, c.t0, c.q0 = lk.S, lk.C, lk.AccAt, lk.AccSeq
		}
		ow, _, _ := written(c.sut)
		for _, w := range ow {
			c.out = append(c.out, &hf{F: w.F, It: itemOf(w.F), At: w.At0, Seq: w.Seq0, At1: w.At1, Seq1: w.Seq1})
		}
		iw, _, err := written(c.peer)
		c.junk = err != nil
		for _, w := range iw {
			at, q, ok := arrived(c.sut, w.End)
			if !ok {
				break
			}
			c.in = append(c.in, &hf{F: w.F, It: itemOf(w.F), At: at, Seq: q, At1: w.At0, Seq1: w.Seq0})
		}
		lose := func(t time.Duration) {
			if c.lost == never || t < c.lost {
				c.lost = t
			}
		}
		if c.sut.GoneAt != 0 {
			lose(c.sut.GoneAt)
		}
		if c.sut.IsClosed() {
			lose(c.sut.ClosedAt)
		}
		c.endAt = c.lost
		sel := func(f *hf) {
			if c.selAt == never || f.Seq < c.selSeq {
				c.selAt, c.selSeq = f.At, f.Seq
			}
		}
		for _, f := range c.out {
			if f.F.Typ == tSelRsp && f.F.B3 == 0 {
				sel(f)
			}
		}
		for _, f := range c.in {
			if f.F.Typ == tSelRsp && f.F.B3 == 0 {
				sel(f)
			}
			if f.F.Typ == tSepReq {
				lose(f.At)
			}
		}
		for _, t := range s.tog {
			if c.endedBy(t) && (c.lost == never || t.At <= c.lost) {
				lose(t.At)
				c.disabledLoss = true
			}
		}
		s.cs = append(s.cs, c)
	}
	s.endAt, s.endSeq = simrt.Now(), simrt.Seq()
}

// endedBy tells whether a Disable concerned the connection: not if it was over before the
// handler began to connect, or before it took the connection up.
func (c *gconn) endedBy(t *Toggle) bool {
	if t.On || t.At < c.t0 {
		return false
	}
	if !t.Done || c.selAt != never && c.selSeq <= t.Seq {
		return true
	}
	if t.Seq1 < c.q0 {
		return false
	}
	n := len(c.out)
	return n == 0 || c.out[n-1].Seq < t.Seq1
}

func itemOf(f *Frame) *Item {
	if f.Typ != 0 || len(f.Text) == 0 {
		return nil
	}
	return f.Item()
}

// alive tells whether the connection was there, selected, during [a,b].
func (c *gconn) alive(b time.Duration) bool {
	return c.selAt != never && (c.lost == never || c.lost > b)
}

// slack is how long the endpoint may take to act.
func (s *gsite) slack() time.Duration { return s.slow + s.e.Tol + 50*time.Millisecond }

// greq is a primary the endpoint received.
type greq struct {
	c    *gconn
	f    *hf
	sf   [2]int
	w    bool
	rep  *hf // its first answer (not S9)
	s9   *hf
	n    int   // answers of any kind
	live bool  // it must have been handled
	inv  int64 // when it can have taken effect
	ret  int64
	mut  bool
	op   *Op
}

func (s *gsite) requests() []*greq {
	var out []*greq
	for _, c := range s.cs {
		for _, f := range c.in {
			if f.F.Typ != tData || f.F.F()%2 == 0 || c.selAt == never || f.Seq < c.selSeq {
				continue
			}
			q := &greq{c: c, f: f, sf: [2]int{f.F.S(), f.F.F()}, w: f.F.W(), inv: f.Seq, mut: s.mut[f.F.Sys], op: s.sysOp[f.F.Sys]}
			for _, o := range c.out {
				if o.F.Typ != tData || o.F.Sys != f.F.Sys || o.Seq < f.Seq {
					continue
				}
				if o.F.S() == 9 {
					if o.F.F() != 9 {
						q.s9 = o
						q.n++
					}
					continue
				}
				if o.F.S() == f.F.S() && o.F.F()%2 == 0 {
					if q.rep == nil {
						q.rep = o
					}
					q.n++
				}
			}
			by := f.At + s.slack()
			q.live = c.alive(by) && s.endAt > by
			if q.rep != nil {
				q.ret = q.rep.Seq
			} else if q.live {
				q.ret = simrt.SeqAt(by)
			} else {
				q.ret = simrt.SeqAt(maxD(f.At, c.lost) + s.slack() + 200*time.Millisecond)
			}
			out = append(out, q)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].inv < out[j].inv })
	return out
}

func maxD(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

// listEntries finds the entry list of S2F33/S2F35 with or without a DATAID.
func listEntries(it *Item) ([]*Item, bool) {
	if it == nil || it.F != fList {
		return nil, false
	}
	if len(it.L) == 0 {
		return nil, true
	}
	if it.L[0].F == fList {
		return it.L, true
	}
	if len(it.L) < 2 || it.L[1].F != fList {
		return nil, false
	}
	return it.L[1].L, true
}

// ---- raw scenario

// glab is a site against a raw peer.
type glab struct {
	*HLab
	s        *gsite
	n13, n11 int
	nAns     int
}

var _ = stime.Now
var _ ast.ItemNode

func (gl *glab) script(pc *PC, f *Frame) bool {
	if f.Typ != tData {
		return false
	}
	p := gl.e.P
	if f.F()%2 == 0 || !f.W() || f.PType != 0 {
		return true
	}
	after := func(d int64, g func()) {
		simrt.GoIn(gl.pg, "peer-later", func() {
			simrt.Sleep(ms(d))
			g()
		})
	}
	rep := func(it *Item) { pc.send(data(f.S(), f.F()+1, false, f.Sess, f.Sys, it)) }
	switch {
	case f.S() == 1 && f.F() == 13:
		k := gl.n13
		gl.n13++
		ok := L(B(0), L(A("mdl"), A("rev")))
		if gl.s.host == false {
			ok = L(B(0), L())
		}
		no := L(B(1), L())
		d := p.C("est.delay")
		late := p.C("t3")*1000 + p.C("est.late")
		mode := p.C(fmt.Sprintf("est.%d", k))
		for i := int64(0); i < p.C("racers"); i++ { // callers that come just when communication is established
			i := i
			simrt.GoIn(gl.pg, "peer-racer", func() {
				simrt.Sleep(ms(d) + time.Duration(hash64("racer", k, i)%(p.C("racewin")+1))*time.Microsecond)
				if s := gl.s; s.pend < 60 {
					s.begin(&Op{K: "wait", B: 3000, I: 1000 + int64(k)*100 + i}, "wait", "", func(x *gop) { x.ok = s.gh.WaitForCommunicating(3 * time.Second) })
				}
			})
		}
		gl.e.Count(fmt.Sprintf("s1f13_mode_%d", mode))
		if a := p.C("est.edge"); a > 0 && mode >= 1 && mode <= 4 { // just when the next attempt is due
			if mode == 2 {
				d = p.C("t3") * 1000
			}
			gl.e.Count("attempt_edge")
			after(d+int64(gl.s.ew/time.Millisecond), func() {
				switch {
				case pc.down || gl.s.stop:
				case a == 1:
					pc.close()
				case a == 2:
					pc.send(data(1, 13, true, gl.psess, pc.next(), L()))
				case a == 3:
					pc.send(data(1, 14, false, gl.psess, pc.next(), ok))
				case a == 4:
					pc.send(ctl(tSepReq, gl.psess, 0, 0, pc.next()))
				case a == 5:
					gl.toggle(false)
					gl.toggle(true)
				case a > 5: // deselects and selects anew
					pc.send(ctl(tDesReq, gl.psess, 0, 0, pc.next()))
					simrt.Sleep(ms((a - 6) * 70))
					pc.send(ctl(tSelReq, gl.psess, 0, 0, pc.next()))
				}
			})
			d = p.C("est.delay")
		}
		switch mode {
		case 1:
			after(d, func() { rep(no) })
		case 2: // silence
		case 3:
			after(d, func() {
				rep([]*Item{nil, L(), A("x"), L(A("0"), L()), L(B(), L()), L(U1(0), L()), B(0)}[int(hash64("mal", k, p.C("malseed"))%7)])
			})
		case 4:
			after(d, func() { pc.send(data(1, 0, false, f.Sess, f.Sys, nil)) })
		case 5:
			after(late, func() { rep(ok) })
		case 6:
			after(late, func() { rep(no) })
		case 7:
			after(d, func() { pc.close() })
		case 8: // the connection goes just after the acceptance
			after(d, func() { rep(ok); simrt.Sleep(ms(d % 3)); pc.close() })
		default:
			after(d, func() { rep(ok) })
		}
	case f.S() == 1 && f.F() == 1:
		k := gl.n11
		gl.n11++
		ok := L()
		d := p.C("on.delay")
		switch p.C(fmt.Sprintf("on.%d", k)) {
		case 1:
		case 2:
			after(d, func() { pc.send(data(1, 0, false, f.Sess, f.Sys, nil)) })
		case 3:
			after(d, func() { pc.send(data(1, 4, false, f.Sess, f.Sys, L())) })
		case 4:
			after(p.C("t3")*1000+p.C("est.late"), func() { rep(ok) })
		case 5:
			after(d, func() { pc.close() })
		default:
			after(d, func() { rep(ok) })
		}
	case gl.s.host:
		gl.answer(pc, f)
	}
	return true
}

// answer plays the equipment for a request of a host under test.
func (gl *glab) answer(pc *PC, f *Frame) {
	k := gl.nAns
	gl.nAns++
	p := gl.e.P
	mode := p.C(fmt.Sprintf("ans.%d", k))
	r := rand.New(rand.NewSource(hash64("ans", k, p.C("ansseed"))))
	it := answerBody(f, r)
	simrt.GoIn(gl.pg, "peer-answer", func() {
		simrt.Sleep(ms(p.C(fmt.Sprintf("ansd.%d", k))))
		switch mode {
		case 1:
		case 2:
			if it = mutate(r, it); chance(r, 0.3) {
				it = []*Item{nil, L(), A(""), A("0"), B(), L(L())}[r.Intn(6)]
			}
			pc.send(data(f.S(), f.F()+1, false, f.Sess, f.Sys, it))
		case 3:
			pc.send(data(f.S(), 0, false, f.Sess, f.Sys, nil))
		default:
			pc.send(data(f.S(), f.F()+1, false, f.Sess, f.Sys, it))
		}
	})
}

// answerBody makes up a well-formed answer to a request.
func answerBody(f *Frame, r *rand.Rand) *Item {
	req := f.Item()
	n := 0
	if req != nil {
		n = len(req.L)
	}
	switch [2]int{f.S(), f.F()} {
	case [2]int{1, 3}, [2]int{2, 13}:
		it := L()
		for i := 0; i < n; i++ {
			it.L = append(it.L, payload(r.Int63(), int64(r.Intn(11)), int64(r.Intn(6))))
		}
		return it
	case [2]int{1, 11}:
		it := L()
		for i := 0; i < n+r.Intn(2); i++ {
			it.L = append(it.L, L(idItem(r, pickKey(r, svKeys, 0.1)), A(text(r, r.Intn(8))), A(text(r, r.Intn(4)))))
		}
		return it
	case [2]int{2, 29}:
		it := L()
		for i := 0; i < n+r.Intn(2); i++ {
			it.L = append(it.L, L(idItem(r, pickKey(r, ecKeys, 0.1)), A(text(r, r.Intn(8))), U4(uint64(r.Intn(9))), L(), payload(r.Int63(), int64(r.Intn(11)), 2), A(text(r, r.Intn(4)))))
		}
		return it
	case [2]int{6, 15}:
		b := body(kS6F11, r, int64(r.Intn(100)), allWorld)
		return b
	case [2]int{7, 5}:
		if r.Intn(3) == 0 {
			return L(A("PP"), B([]byte(text(r, r.Intn(30)))...), B(byte(r.Intn(3))))
		}
		return L(A("PP"), A(text(r, r.Intn(30))), B(byte(r.Intn(3))))
	case [2]int{2, 41}:
		ps := L()
		for i := r.Intn(3); i > 0; i-- {
			ps.L = append(ps.L, L(idItem(r, []string{"S:P1", "N:3"}[r.Intn(2)]), B(byte(1+r.Intn(3)))))
		}
		return L(B(byte(r.Intn(7))), ps)
	case [2]int{2, 17}:
		return A(clockText(r))
	case [2]int{5, 5}, [2]int{5, 7}:
		it := L()
		for i := r.Intn(4); i > 0; i-- {
			it.L = append(it.L, L(B(byte(r.Intn(4)*64)), numItem(r, uint64(r.Intn(100000))), A(text(r, r.Intn(10)))))
		}
		return it
	}
	return B(byte(r.Intn(5)))
}

// request sends a GEM primary of op o on the peer's selected connection.
func (gl *glab) request(o *Op) {
	pc := gl.selPC()
	if pc == nil || simrt.Now() <= pc.SelAt+gl.e.Tol {
		return
	}
	f := gl.frame(o, pc.next())
	gl.s.sysOp[f.Sys] = o
	if o.B != 0 {
		gl.s.mut[f.Sys] = true
		gl.e.Count("malformed_body")
	}
	pc.send(f)
}

func (gl *glab) frame(o *Op, sys uint32) *Frame {
	r := rand.New(rand.NewSource(hash64("gop", o.I, o.D)))
	sf := kindSF[o.A]
	b := body(o.A, r, o.I, worldOf(o.D))
	if o.S == "*" {
		b = L()
	} else if o.S != "" {
		b = idItem(r, o.S)
	}
	for i := int64(0); i < o.B; i++ {
		b = mutate(r, b)
	}
	return data(sf[0], sf[1], o.C == 0, gl.psess, sys, b)
}

func (gl *glab) ext(o *Op) bool {
	switch o.K {
	case "g":
		gl.request(o)
		return true
	case "s9":
		gl.sendS9(o)
		return true
	case "s1f14":
		if pc := gl.selPC(); pc != nil && simrt.Now() > pc.SelAt+gl.e.Tol {
			pc.send(data(1, 14, false, gl.psess, pc.next(), L(B(byte(o.A)), L())))
		}
		return true
	}
	return gl.s.app(o) || gl.s.sideOp(o)
}

func runGem(e *Env) {
	p := e.P
	l := newHLab(e)
	s := newSite(e, "sut", l.g, l.ep, p.Has("host"), l.active, l.log)
	gl := &glab{HLab: l, s: s}
	l.onoff = s.toggle
	l.script = gl.script
	l.ext = gl.ext
	s.startPoll()
	if p.Has("cold") {
		if l.active {
			l.listen()
		}
	} else {
		if !l.bringUp() {
			e.Bad("G12,H08", "the endpoint does not reach the selected state with a correct peer", "state %s", l.state())
			return
		}
		if !p.Has("nowait") && !s.waitComm(s.ew*time.Duration(p.C("fails"))+time.Duration(p.C("fails"))*s.t3+3*time.Second+e.Tol) {
			e.Bad("G01,G02,G03,G04,G05,G06,G07,G08,G09,G10,G11,G12", "communication is not established with a correct peer", "state %d", s.gh.State())
			return
		}
		if p.Has("nowait") == false {
			simrt.Sleep(e.Tol + 30*time.Millisecond)
		}
	}
	l.autoDial = p.Has("redial")
	l.play()
	simrt.Sleep(ms(p.C("tail")))
	end := simrt.Now() + s.t3 + s.slow + 3*time.Second + e.Tol
	for (l.pending > 0 || s.pend > 0) && simrt.Now() < end {
		simrt.Sleep(20 * time.Millisecond)
	}
	simrt.Sleep(s.slack() + 200*time.Millisecond)
	l.autoDial = false
	s.stop = true
	if l.log != nil {
		l.slow += s.slow + s.slack()
		l.log.check(l.pending == 0 && s.pend == 0)
		return
	}
	s.check()
	if p.Has("off") && e.V == nil {
		gl.off()
	}
}

// off disables the endpoint for good and expects that it comes to rest.
func (gl *glab) off() {
	l, s := gl.HLab, gl.s
	bound := l.bound() + s.slow + s.t3
	l.final(false, bound)
	simrt.In(l.g, func() {
		if st := s.gh.State(); st != gem.CommunicationStateNotCommunicating {
			gl.e.Bad("H12", "a disabled GEM handler does not report that it is not communicating", "state %d", st)
		}
		if st := s.gh.ControlState(); online(st) || st == gem.ControlStateAttemptOnline {
			gl.e.Bad("H12", "a disabled equipment is online", "state %s", st)
		}
	})
}
