package main

import (
	"errors"
	"fmt"
	"math/rand"
	"time"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// Application callbacks and application handlers (G13).

func init() {
	property("G13", 60000, 4000000, gen{1, "gem", genG13})
}

const (
	evComm = iota
	evCtl
	evS9
	evCmd
	evAlarm
	evReport
	nEvents
)

var evNames = []string{"HandlerCommunicating", "ControlStateChanged", "S9ErrorReceived", "RemoteCommandReceived", "AlarmReceived", "EventReportReceived"}

// occ is one occurrence of an event, or one invocation of a callback for it.
type occ struct {
	stamp
	key string
}

// appCB is a callback the application added.
type appCB struct {
	id, ev     int
	mode       int64
	f          func(map[string]interface{})
	add0, add1 stamp
	rem0, rem1 stamp // zero: not removed
	removing   bool
	calls      []occ
	once       bool
}

// appReg is a registration of a handler: of a stream and function, or the default one.
type appReg struct {
	id     int
	sf     [2]int // {0,0}: the default handler
	mode   int64  // 0: removed
	b0, b1 stamp
	served []served
}

type served struct {
	stamp
	sys  uint32
	sf   [2]int
	body string
}

// appSide is what the application has added.
type appSide struct {
	base [nEvents][]occ
	cbs  []*appCB
	regs []*appReg
	pend []time.Duration // callbacks that have not returned, by their beginning
}

// requests that only applications serve
const (
	kX10F3 = 40 + iota
	kX12F1
	kX3F17
	kX64F1
	kX1F5
	nX
)

func init() {
	for k, sf := range map[int64][2]int{kX10F3: {10, 3}, kX12F1: {12, 1}, kX3F17: {3, 17}, kX64F1: {64, 1}, kX1F5: {1, 5}} {
		kindSF[k] = sf
	}
}

// regSFs are what handlers are registered for.
func (s *gsite) regSFs() [][2]int {
	l := [][2]int{{0, 0}, {10, 3}, {12, 1}, {3, 17}, {64, 1}, {1, 5}, {1, 1}, {9, 5}}
	if s.host {
		return append(l, [2]int{6, 11}, [2]int{5, 1})
	}
	return append(l, [2]int{2, 17}, [2]int{1, 3})
}

func (s *gsite) event(k int) *common.Event {
	ev := s.gh.Events()
	return []*common.Event{ev.HandlerCommunicating, ev.ControlStateChanged, ev.S9ErrorReceived, ev.RemoteCommandReceived, ev.AlarmReceived, ev.EventReportReceived}[k]
}

func now() stamp { return stamp{simrt.Now(), simrt.Seq()} }

// keyOfEvent renders what an event says.
func (s *gsite) keyOfEvent(k int, d map[string]interface{}) string {
	who := func() string {
		if h, _ := d["handler"].(*gem.GemHandler); h != s.gh {
			return "not by this handler "
		}
		return ""
	}
	switch k {
	case evComm:
		return who()
	case evCtl:
		return fmt.Sprintf("%s%v>%v", who(), d["previous"], d["current"])
	case evS9:
		x, _ := d["error"].(*hsms.S9ErrorInfo)
		if x == nil {
			return "nothing"
		}
		return fmt.Sprintf("%s%d %s %x", who(), x.ErrorCode, x.ErrorText, x.SystemBytes)
	case evCmd:
		q, _ := d["request"].(gem.RemoteCommandRequest)
		return keyOf(q.CommandID) + " " + cmdArgs(q)
	case evAlarm:
		a, _ := d["alarm"].(gem.AlarmEvent)
		return fmt.Sprintf("%v %v %q", a.Set, a.ID, a.Text)
	}
	r, _ := d["report"].(gem.EventReport)
	return enc(reportItem(r))
}

// watchBase adds the callbacks that tell what occurred.
func (s *gsite) watchBase() {
	for k := 0; k < nEvents; k++ {
		k := k
		s.event(k).AddCallback(func(d map[string]interface{}) {
			o := occ{now(), s.keyOfEvent(k, d)}
			s.side.base[k] = append(s.side.base[k], o)
			if simrt.Tracing() {
				simrt.Tracef("%s OCCURS %s %q", s.name, evNames[k], o.key)
			}
		})
	}
}

// addCB adds a callback, from wherever it is called.
func (s *gsite) addCB(ev int, mode int64) {
	c := &appCB{id: len(s.side.cbs), ev: ev, mode: mode}
	s.side.cbs = append(s.side.cbs, c)
	c.f = func(d map[string]interface{}) {
		o := occ{now(), s.keyOfEvent(ev, d)}
		c.calls = append(c.calls, o)
		s.e.Work++
		s.e.Count("callback_invocations")
		if simrt.Tracing() {
			simrt.Tracef("%s callback %d of %s %q", s.name, c.id, evNames[ev], o.key)
		}
		i := len(s.side.pend)
		s.side.pend = append(s.side.pend, o.At)
		switch mode {
		case 1: // removes itself
			s.remCB(c)
		case 2: // adds another
			if !c.once {
				c.once = true
				s.addCB(ev, 0)
			}
		case 3: // uses the handler
			s.gh.State()
			s.gh.ControlState()
			s.event(ev).Len()
			s.gh.WaitForCommunicating(time.Millisecond)
		case 4: // switches the control state
			if len(c.calls) < 3 {
				if len(c.calls)%2 == 1 {
					_ = s.gh.SwitchControlOffline()
				} else {
					_ = s.gh.SwitchControlOnline()
				}
			}
		case 5: // sends a message
			_ = s.gh.Protocol().SendDataMessage(ast.NewDataMessage("", 10, 1, 0, "H<->E", ast.NewListNode()))
		case 6: // removes every other one
			for _, x := range s.side.cbs {
				if x.ev == ev && x != c && x.add1 != (stamp{}) {
					s.remCB(x)
				}
			}
		case 7: // registers a handler
			s.regHandler([2]int{3, 17}, 1+int64(len(c.calls)%2))
		}
		s.side.pend[i] = never
	}
	c.add0 = now()
	if simrt.Tracing() {
		simrt.Tracef("%s adds callback %d to %s, mode %d", s.name, c.id, evNames[ev], mode)
	}
	s.event(ev).AddCallback(c.f)
	c.add1 = now()
}

func (s *gsite) remCB(c *appCB) {
	if c.removing {
		return
	}
	c.removing = true
	c.rem0 = now()
	if simrt.Tracing() {
		simrt.Tracef("%s removes callback %d of %s", s.name, c.id, evNames[c.ev])
	}
	s.event(c.ev).RemoveCallback(c.f)
	c.rem1 = now()
}

var errApp = errors.New("application error")

func (s *gsite) regHandler(sf [2]int, mode int64) {
	r := &appReg{id: len(s.side.regs), sf: sf, mode: mode}
	s.side.regs = append(s.side.regs, r)
	var h gem.StreamFunctionHandler
	if mode != 0 {
		h = func(m *ast.DataMessage) (*ast.DataMessage, error) {
			v := served{stamp: now(), sf: [2]int{m.StreamCode(), m.FunctionCode()}}
			for _, b := range m.SystemBytes() {
				v.sys = v.sys<<8 | uint32(b)
			}
			if b := m.ToBytes(); len(b) >= 14 {
				v.body = string(b[14:])
			}
			r.served = append(r.served, v)
			s.e.Work++
			s.e.Count("handler_invocations")
			if simrt.Tracing() {
				simrt.Tracef("%s handler %d gets S%dF%d sys=%08x", s.name, r.id, v.sf[0], v.sf[1], v.sys)
			}
			if v.sf[1]%2 == 0 || v.sf[0] == 9 {
				return nil, nil
			}
			switch mode {
			case 2:
				return nil, nil
			case 3:
				return nil, errApp
			case 4: // removes itself
				s.regHandler(sf, 0)
			}
			return ast.NewDataMessage("", v.sf[0], v.sf[1]+1, 0, "H<->E", ast.NewListNode(ast.NewUintNode(4, r.id), ast.NewASCIINode("app"))), nil
		}
	}
	r.b0 = now()
	if simrt.Tracing() {
		simrt.Tracef("%s registers handler %d for %v, mode %d", s.name, r.id, sf, mode)
	}
	if sf == [2]int{} {
		s.gh.RegisterDefaultStreamHandler(h)
	} else {
		s.gh.RegisterStreamFunctionHandler(sf[0], sf[1], h)
	}
	r.b1 = now()
}

// sideOp performs an op on callbacks or handlers.
func (s *gsite) sideOp(o *Op) bool {
	switch o.K {
	case "cbadd":
		s.begin(o, "cbadd", "", func(x *gop) { s.addCB(int(o.A)%nEvents, o.B) })
	case "cbrem":
		s.begin(o, "cbrem", "", func(x *gop) {
			if n := len(s.side.cbs); n > 0 {
				if c := s.side.cbs[int(o.A)%n]; c.add1 != (stamp{}) {
					s.remCB(c)
				}
			}
		})
	case "reg":
		sfs := s.regSFs()
		s.begin(o, "reg", "reg", func(x *gop) { s.regHandler(sfs[int(o.A)%len(sfs)], o.B) })
	default:
		return false
	}
	return true
}

func genG13(r *rand.Rand, p *Plan) {
	host := chance(r, 0.5)
	genGem(r, p, host)
	p.Cfg["redial"] = 1
	p.Cfg["nowait"] = int64(r.Intn(4)) / 3
	at := spread(r)
	evs := []int64{evComm, evCtl, evCtl, evS9, evCmd, evCmd}
	if host {
		evs = []int64{evComm, evS9, evS9, evAlarm, evReport, evReport}
	}
	nreg := int64(10)
	one := func(t int64) {
		switch k := r.Intn(30); {
		case k < 6:
			add(p, t, "cbadd", evs[r.Intn(len(evs))], pick(r, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7))
		case k < 8:
			add(p, t, "cbrem", int64(r.Intn(12)))
		case k < 12:
			add(p, t, "reg", r.Int63n(nreg), pick(r, 0, 1, 1, 1, 2, 3, 4))
		case k < 15:
			add(p, t, "s9", pick(r, 1, 3, 5, 7, 9, 11, 13))
		case k < 21:
			req(r, p, t, kX10F3+r.Int63n(nX-kX10F3), 0)
		case k < 26:
			switch {
			case host:
				req(r, p, t, pick(r, kS5F1, kS6F11, kS6F11, kHS1F1), 0.03)
			default:
				req(r, p, t, pick(r, kS2F41, kS2F41, kS2F17, kS1F3, kS1F1), 0.03)
			}
		case k < 28:
			if !host {
				add(p, t, "ctl", pick(r, 0, 0, 1, 1, 2, 3))
			}
		case k < 29:
			genLinkFault(r, p, t)
		default:
			if chance(r, 0.3) {
				add(p, t, "disable")
				add(p, t+between(r, 0, 700), "enable")
			}
		}
	}
	for i := 5 + r.Intn(16); i > 0; i-- {
		t := at()
		if chance(r, 0.15) {
			t += between(r, 0, 2000)
		}
		one(t)
	}
	p.Cfg["tail"] = pick(r, 0, 1500)
}

// sendS9 has the peer send a stream 9 message.
func (gl *glab) sendS9(o *Op) {
	if pc := gl.selPC(); pc != nil && simrt.Now() > pc.SelAt+gl.e.Tol {
		h := make([]byte, 10)
		for i := range h {
			h[i] = byte(o.I + int64(i))
		}
		pc.send(data(9, int(o.A), false, gl.psess, pc.next(), B(h...)))
	}
}

var s9Text = map[int]string{1: hsms.ErrTextUnrecognizedDeviceID, 3: hsms.ErrTextUnrecognizedStream, 5: hsms.ErrTextUnrecognizedFunction, 7: hsms.ErrTextIllegalData,
	9: hsms.ErrTextTransactionTimeout, 11: hsms.ErrTextDataTooLong, 13: hsms.ErrTextConversationTimeout}

func (s *gsite) checkSide(reqs []*greq) {
	e := s.e
	tol := e.Tol
	for _, t := range s.side.pend {
		if t != never && t+s.slack() < s.endAt {
			e.Bad("G13", "a callback that uses the handler does not end", "since %v", t)
		}
	}
	for _, x := range s.ops {
		if !x.done && x.At+s.slack()+3*time.Second < s.endAt {
			e.Bad("G13", "adding or removing a callback or handler does not end", "%s at %v", x.kind, x.At)
		}
	}
	// every callback sees every occurrence once
	for _, c := range s.side.cbs {
		if c.add1 == (stamp{}) {
			continue
		}
		e.Count("callbacks_judged")
		keys := map[string]bool{}
		for _, o := range c.calls {
			keys[o.key] = true
		}
		for _, o := range s.side.base[c.ev] {
			keys[o.key] = true
		}
		for k := range keys {
			s.checkCB(c, k)
		}
		j := 0
		for _, o := range c.calls { // in order
			for j < len(s.side.base[c.ev]) && s.side.base[c.ev][j].key != o.key {
				j++
			}
			if j >= len(s.side.base[c.ev]) && c.ev <= evCtl {
				e.Bad("G13", "a callback sees occurrences out of order: "+evNames[c.ev], "callback %d", c.id)
				break
			}
			j++
		}
	}
	// what occurs is what arrived
	for _, cn := range s.cs {
		for _, f := range cn.in {
			if f.F.Typ != tData || f.F.S() != 9 || cn.selAt == never {
				continue
			}
			key := fmt.Sprintf("%d %s %x", f.F.F(), s9Text[f.F.F()], []byte{byte(f.F.Sys >> 24), byte(f.F.Sys >> 16), byte(f.F.Sys >> 8), byte(f.F.Sys)})
			n := 0
			for _, o := range s.side.base[evS9] {
				if o.key == key && o.Seq >= f.Seq {
					n++
				}
			}
			by := f.At + s.slack()
			switch {
			case n > 1:
				e.Bad("G13", "an S9 message is reported twice", "%v at %v", f.F, f.At)
			case n == 0 && f.At > cn.selAt+tol && cn.alive(by) && s.endAt > by:
				e.Bad("G13", "an S9 message is not reported", "%v at %v", f.F, f.At)
			case n == 1:
				e.Count("s9_reported")
			}
		}
	}
	n := 0
	for _, cn := range s.cs {
		for _, f := range cn.in {
			if f.F.Typ == tData && f.F.S() == 9 {
				n++
			}
		}
	}
	if len(s.side.base[evS9]) > n {
		e.Bad("G13", "an S9 error is reported that was not received", "%d events, %d messages", len(s.side.base[evS9]), n)
	}
	for _, q := range reqs {
		if q.sf != [2]int{2, 41} || q.mut || s.host {
			continue
		}
		name, args, _ := cmdOf(q.f.It)
		key := name + " " + args
		n := 0
		for _, o := range s.side.base[evCmd] {
			if o.key == key && o.Seq >= q.f.Seq {
				n++
			}
		}
		switch {
		case n > 1:
			e.Bad("G13", "a remote command is reported twice", "%s", q)
		case n == 0 && q.live:
			e.Bad("G13", "a remote command is not reported", "%s", q)
		case n == 1:
			e.Count("commands_reported")
		}
	}
	s.checkRegs(reqs)
}

// checkCB compares one callback's invocations with the occurrences that say the same.
func (s *gsite) checkCB(c *appCB, key string) {
	e := s.e
	tol := e.Tol
	type ob struct {
		occ
		must bool
	}
	var os []ob
	for _, o := range s.side.base[c.ev] {
		if o.key != key || o.Seq < c.add0.Seq {
			continue
		}
		if c.rem1 != (stamp{}) && c.rem1.At+tol < o.At {
			continue
		}
		os = append(os, ob{o, c.add1.At+tol < o.At && (!c.removing || c.rem0.At > o.At+tol) && s.endAt > o.At+tol+s.slack()})
	}
	var vs []occ
	for _, v := range c.calls {
		if v.key == key {
			vs = append(vs, v)
		}
	}
	memo := map[[2]int]bool{}
	var fit func(i, j int) bool
	fit = func(i, j int) bool {
		if i == len(os) {
			return j == len(vs)
		}
		k := [2]int{i, j}
		if v, ok := memo[k]; ok {
			return v
		}
		r := !os[i].must && fit(i+1, j)
		if !r && j < len(vs) && vs[j].Seq >= os[i].Seq && vs[j].At <= os[i].At+tol+s.slack() {
			r = fit(i+1, j+1)
		}
		memo[k] = r
		return r
	}
	must := 0
	for _, o := range os {
		if o.must {
			must++
			e.Count("occurrences_judged")
		}
	}
	if !fit(0, 0) {
		cl := "a callback does not run once for each occurrence"
		switch {
		case len(vs) < must:
			cl = "a callback does not run for an occurrence"
		case len(vs) > len(os):
			cl = "a callback runs without an occurrence, or after its removal"
		}
		e.Bad("G13", cl+": "+evNames[c.ev], "callback %d (added %v..%v, removed %v..%v) ran %d times for %d to %d occurrences of %q", c.id, c.add0.At, c.add1.At, c.rem0.At, c.rem1.At, len(vs), must, len(os), key)
	}
}

// current gives the registrations of sf that may be in force in [a,b]; nil stands for
// none by the application.
func (s *gsite) current(sf [2]int, a, b time.Duration) []*appReg {
	out := []*appReg{nil}
	for _, r := range s.side.regs {
		if r.sf != sf || r.b0.At > b {
			continue
		}
		if r.b1 != (stamp{}) && r.b1.At < a {
			out = nil
		}
		out = append(out, r)
	}
	return out
}

// checkRegs: every message is served by the one it is registered for.
func (s *gsite) checkRegs(reqs []*greq) {
	e := s.e
	tol := e.Tol
	type use struct {
		r *appReg
		v served
	}
	uses := map[string][]use{}
	for _, r := range s.side.regs {
		for _, v := range r.served {
			k := fmt.Sprintf("%v %08x", v.sf, v.sys)
			uses[k] = append(uses[k], use{r, v})
			if r.mode == 0 || r.sf != [2]int{} && r.sf != v.sf {
				e.Bad("G13", "a handler gets a message it is not registered for", "handler of %v: %v", r.sf, v.sf)
			}
		}
	}
	for _, q := range reqs {
		k := fmt.Sprintf("%v %08x", q.sf, q.f.F.Sys)
		us := uses[k]
		if len(us) > 1 {
			e.Bad("G13", "a message is served twice", "%s", q)
			continue
		}
		// who may serve it
		own := s.current(q.sf, q.f.At-tol, q.f.At+s.slack()+tol)
		def := s.current([2]int{}, q.f.At-tol, q.f.At+s.slack()+tol)
		served := map[*appReg]bool{}
		lib, none := false, false
		for _, o := range own {
			switch {
			case o != nil && o.mode != 0:
				served[o] = true
			case o == nil && s.handled(q.sf):
				lib = true
			default:
				for _, d := range def {
					if d != nil && d.mode != 0 {
						served[d] = true
					} else {
						none = true
					}
				}
			}
		}
		if len(us) == 1 {
			if !served[us[0].r] {
				e.Bad("G13", "a message is served by a handler that was not in force", "%s by handler %d of %v", q, us[0].r.id, us[0].r.sf)
			}
			if us[0].v.body != string(q.f.F.Text) {
				e.Bad("G13", "a handler gets a message that was not sent", "%s", q)
			}
		} else if q.live && !lib && !none {
			e.Bad("G13", "a message is not given to the application's handler", "%s", q)
		}
		e.Count("served_judged")
		if !q.live || !q.w || q.sf[0] == 9 {
			continue
		}
		ours := func(f *hf) bool {
			return f != nil && f.It != nil && f.It.F == fList && len(f.It.L) == 2 && enc(f.It.L[1]) == enc(A("app"))
		}
		if len(us) == 1 {
			r := us[0].r
			ok := q.n == 1 && ours(q.rep) && q.rep.F.F() == q.sf[1]+1 && enc(q.rep.It.L[0]) == enc(U4(uint64(r.id)))
			if (r.mode == 1 || r.mode == 4) && !ok {
				e.Bad("G13", "the reply of the application's handler is not sent", "%s: %d answers, %v", q, q.n, firstOf(q.rep, q.s9))
			}
			if r.mode == 2 && q.n != 0 {
				e.Bad("G13", "a reply is sent that the application's handler did not give", "%s: %v", q, firstOf(q.rep, q.s9))
			}
			e.Count("replies_judged")
			continue
		}
		if ours(q.rep) {
			e.Bad("G13", "a reply is sent that the application's handler did not give", "%s: %v", q, q.rep.F)
		}
		switch {
		case lib && !none && len(served) == 0 && q.n == 0:
			e.Bad("G13", "the library's handler does not serve what the application has no handler for", "%s", q)
		case none && !lib && len(served) == 0 && (q.s9 == nil || q.n != 1):
			e.Bad("G13", "a message that nobody serves is not refused", "%s: %d answers", q, q.n)
		}
	}
}
