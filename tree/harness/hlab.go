package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	srand "github.com/younglifestyle/secs4go/verifsim/shim/rand"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func init() {
	hooks = append(hooks, func() { srand.Force = nil; snet.SilentKill = false })
}

// Call is one application call on the endpoint under test.
type Call struct {
	ID         int
	Op         *Op
	Kind       string // req, snd
	S, F       int
	Tok        string
	Item       *Item
	Start, End time.Duration
	Q0, Q1     int64
	Done       bool
	Err        error
	Rep        *Frame // what the call returned (system bytes, stream, function, item)
	RepItem    *Item
	StateAt    string // reported state when the call started
}

// HRec is one invocation of a message handler.
type HRec struct {
	At      time.Duration
	Seq     int64
	S, F    int
	Of      [2]int // what the handler is registered for
	W       string
	Sess    int
	Sys     uint32
	Item    *Item
	Tok     string
	Default bool
	Ret     bool // it returned (not interrupted by the end of the run)
	RetSeq  int64
	Replied bool  // a reply message was returned
	Late    *Call // the application answers later, with SendResponse
}

type Poll struct {
	At        time.Duration
	Seq0, Seq int64
	State     string
	Conn      bool
}

// Toggle is a call of Enable or Disable.
type Toggle struct {
	On        bool
	At, End   time.Duration
	Seq, Seq1 int64
	Done      bool
}

// HLab is one endpoint under test against a raw peer driven by the plan.
type HLab struct {
	e                        *Env
	g                        *simrt.Group // the endpoint's tasks
	pg                       *simrt.Group // the peer's tasks
	ep                       *hsms.HsmsProtocol
	active                   bool
	sess                     uint16 // configured session id of the endpoint
	psess                    uint16 // session id the peer uses
	port                     int
	lst                      *snet.TCPListener
	pcs                      []*PC
	calls                    []*Call
	hrecs                    []*HRec
	polls                    []Poll
	tog                      []*Toggle
	s9                       []*hsms.S9ErrorInfo
	peerQ                    map[string]*peerReq // requests the peer sent, by token
	seen                     map[string]int      // requests of the endpoint seen by the peer, by token
	replies                  []peerRep
	script                   func(pc *PC, f *Frame) bool // scenario override; true: handled
	pending                  int
	autoDial                 bool
	healing                  bool // no more faults of the peer
	noAnswer                 bool
	busyUntil                time.Duration
	stopPoll, healed, served bool
	extra                    []Op
	echoN                    int
	slow                     time.Duration // what handlers may take together
	prompt                   bool          // the peer answers linktests at once
	inUse                    uint16        // session the endpoint adopted
	sessMaybe                bool          // which one it adopted is open
	onoff                    func(on bool) // how the application switches the endpoint on and off
	ext                      func(o *Op) bool
	log                      *mlog
}

type peerReq struct {
	Tok  string
	F    *Frame
	Item *Item
	PC   *PC
	At   time.Duration
	Seq  int64
	Op   *Op
	Coll bool // its system bytes equal those of an outstanding request of the endpoint
}

type peerRep struct {
	Tok  string // the request it answers
	F    *Frame
	Item *Item
	PC   *PC
	At   time.Duration
	Seq  int64
	Kind string
}

func tokItem(tok string, pl *Item) *Item { return L(A(tok), pl) }
func tokOf(it *Item) string {
	t := it.At(0)
	if t == nil || t.F != fAsc {
		return ""
	}
	return string(t.D)
}

var labSF = [][2]int{{1, 1}, {1, 3}, {2, 41}, {5, 1}, {6, 11}, {7, 3}, {10, 1}, {2, 13}, {127, 1}, {64, 253},
	{1, 11}, {11, 1}, {1, 101}, {12, 3}, {1, 23}, {2, 113}}

var allSF = int64(1)<<uint(len(labSF)) - 1

func newHLab(e *Env) *HLab {
	p := e.P
	l := &HLab{e: e, active: p.Has("active"), port: 5000, peerQ: map[string]*peerReq{}, seen: map[string]int{}}
	l.sess = uint16(p.C("sess"))
	l.psess = uint16(p.C("psess"))
	for i := range p.Ops {
		if o := &p.Ops[i]; o.K == "prim" {
			l.slow += ms(o.C)
		}
	}
	l.prompt = p.C("lt.mode") == 0 && p.C("lt.delay") == 0
	l.g = simrt.NewGroup("sut")
	l.pg = simrt.NewGroup("harness-peer")
	simrt.Sleep(time.Millisecond) // no event carries time zero
	if p.Has("ctr_set") {
		v := uint64(p.C("ctr"))
		srand.Force = func() (uint64, bool) { return v | v<<32, true }
	}
	simrt.In(l.g, func() {
		l.ep = hsms.NewHsmsProtocol("127.0.0.1", l.port, l.active, int(l.sess), "sut")
		if p.Has("mlog") {
			l.log = newLog(l)
		}
		if p.Scn == "gem" {
			setTimers(l.ep, p, "")
			return
		}
		if l.log != nil {
			l.log.configure(p.C("lg.w"), p.C("lg.b"), p.C("lg.c"), p.C("lg.d"))
		} else {
			l.ep.ConfigureLogging(hsms.LoggingConfig{Enabled: p.Has("log"), Writer: io.Discard, IncludeControlMessages: true, Mode: hsms.LoggingMode(p.C("log"))})
		}
		setTimers(l.ep, p, "")
		l.ep.OnS9Error = func(i *hsms.S9ErrorInfo) { l.s9 = append(l.s9, i) }
		for i, sf := range labSF {
			if p.C("nohandlers")&(1<<uint(i)) != 0 {
				continue
			}
			l.ep.RegisterHandler(sf[0], sf[1], l.handler(sf))
		}
		if p.Has("default") {
			l.ep.RegisterDefaultHandler(l.handler([2]int{}))
		}
	})
	srand.Force = nil
	return l
}

func setTimers(ep *hsms.HsmsProtocol, p *Plan, pre string) {
	t := ep.Timeouts()
	set := func(k string, f func(int)) {
		if v, ok := p.Cfg[pre+k]; ok {
			f(int(v))
		}
	}
	set("t3", t.SetT3ReplyTimeout)
	set("t5", t.SetT5ConnSeparateTimeout)
	set("t6", t.SetT6ControlTransTimeout)
	set("t7", t.SetT7NotSelectTimeout)
	set("t8", t.SetT8NetworkIntercharTimeout)
	set("lt", t.SetLinktest)
	set("rmax", t.SetMaxReconnectAttempts)
	set("rbase", t.SetReconnectBackoffBase)
	set("rcap", t.SetReconnectBackoffMax)
	if v, ok := p.Cfg[pre+"auto"]; ok {
		t.SetAutoReconnect(v != 0)
	}
}

// genTimers draws timer settings (whole seconds, as the API has them).
func genTimers(r interface{ Intn(int) int }, p *Plan) {
	p.Cfg["t3"] = int64(2 + r.Intn(4))
	p.Cfg["t5"] = int64(1 + r.Intn(3))
	p.Cfg["t6"] = int64(1 + r.Intn(3))
	p.Cfg["t7"] = int64(4 + r.Intn(4))
	p.Cfg["t8"] = int64(20 + r.Intn(20))
	p.Cfg["lt"] = int64(4 + r.Intn(6))
	p.Cfg["rbase"] = 1
	p.Cfg["rcap"] = 4
	p.Cfg["rmax"] = 0
}

// inSut runs f as a task of the endpoint's process.
func (l *HLab) inSut(name string, f func()) { simrt.GoIn(l.g, name, f) }

func (l *HLab) poll() (string, bool) {
	q0 := simrt.Seq()
	st := l.ep.CurrentState()
	c := l.ep.Connected()
	l.polls = append(l.polls, Poll{simrt.Now(), q0, simrt.Seq(), st, c})
	return st, c
}

// handler is the application's handler for data messages.
// handler is the handler of one stream and function, or the default one.
func (l *HLab) handler(sf [2]int) (self hsms.DataMessageHandler) {
	def := sf == [2]int{}
	self = func(m *ast.DataMessage) (*ast.DataMessage, error) {
		it, err := m.Get()
		h := &HRec{At: simrt.Now(), Seq: simrt.Seq(), S: m.StreamCode(), F: m.FunctionCode(), W: m.WaitBit(), Of: sf, Sess: m.SessionID(), Sys: be32(m.SystemBytes()), Default: def}
		if err == nil {
			h.Item = FromAST(it)
		}
		h.Tok = tokOf(h.Item)
		l.hrecs = append(l.hrecs, h)
		if simrt.Tracing() {
			simrt.Tracef("handler S%dF%d tok=%q sys=%08x", h.S, h.F, h.Tok, h.Sys)
		}
		l.e.Work++
		defer func() { h.Ret = true; h.RetSeq = simrt.Seq() }()
		q := l.peerQ[h.Tok]
		if q == nil || q.Op == nil {
			return nil, nil
		}
		o := q.Op
		// o.B: handler behaviour, o.C: its duration in ms
		if o.C > 0 && o.B != 5 {
			l.e.Count("slow_handler")
			simrt.Sleep(ms(o.C))
		}
		switch o.B {
		case 1: // no reply
			return nil, nil
		case 2:
			return nil, errors.New("handler failure")
		case 3: // it registers itself anew
			if l.e.Count("handler_registers"); def {
				l.ep.RegisterDefaultHandler(self)
			} else {
				l.ep.RegisterHandler(sf[0], sf[1], self)
			}
		case 4: // it sends a message
			l.e.Count("handler_sends")
			l.appCall(&Op{K: "snd", I: 3000000 + int64(len(l.hrecs)), D: o.D}, true)
		}
		rep := tokItem("r:"+h.Tok, payload(hash64("hrep", h.Tok), o.D, o.D*7))
		if o.B == 5 {
			l.answerLater(h, rep, o)
			return nil, nil
		}
		h.Replied = true
		return ast.NewDataMessage("", h.S, h.F+1, int(o.D/2%2)*2, "H<->E", rep.ToAST()), nil
	}
	return self
}

// answerLater answers a message with SendResponse, o.C ms after its handler was called.
func (l *HLab) answerLater(h *HRec, rep *Item, o *Op) {
	c := &Call{Kind: "rsp", Op: o, Tok: "r:" + h.Tok}
	h.Late = c
	l.pending++
	l.e.Count("late_response")
	sys := []byte{byte(h.Sys >> 24), byte(h.Sys >> 16), byte(h.Sys >> 8), byte(h.Sys)}
	l.inSut("rsp-"+h.Tok, func() {
		simrt.Sleep(ms(o.C))
		m := ast.NewDataMessage("", h.S, h.F+1, int(o.D/2%2)*2, "H<->E", rep.ToAST())
		c.StateAt = l.ep.CurrentState()
		c.Start, c.Q0 = simrt.Now(), simrt.Seq()
		c.Err = l.ep.SendResponse(m, sys)
		c.End, c.Q1, c.Done = simrt.Now(), simrt.Seq(), true
		l.pending--
		l.e.Work++
		if simrt.Tracing() {
			simrt.Tracef("app answers %s err=%v", h.Tok, c.Err)
		}
	})
}

func be32(b []byte) uint32 {
	if len(b) < 4 {
		return 0
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// cur is the peer's newest live connection.
func (l *HLab) cur() *PC {
	for i := len(l.pcs) - 1; i >= 0; i-- {
		if !l.pcs[i].down && !l.pcs[i].C.IsClosed() {
			return l.pcs[i]
		}
	}
	return nil
}

// selPC is the newest live connection the peer sees as selected.
func (l *HLab) selPC() *PC {
	for i := len(l.pcs) - 1; i >= 0; i-- {
		if x := l.pcs[i]; !x.down && !x.C.IsClosed() && x.Sel {
			return x
		}
	}
	return nil
}

func (l *HLab) addPC(c *snet.TCPConn) *PC {
	pc := l.e.newPC(l.pg, len(l.pcs), c, l.onFrame, l.onDown)
	l.pcs = append(l.pcs, pc)
	pc.stopRead = l.e.P.Has(fmt.Sprintf("stopread.%d", pc.id))
	pc.readPause = ms(l.e.P.C("slowread"))
	if k := l.e.P.C("t7edge"); k > 0 { // at the very instant its T7 expires
		simrt.GoIn(l.pg, "t7-edge", func() {
			simrt.Sleep(secs(l.e.P.C("t7")))
			if pc.down || l.healing {
				return
			}
			l.e.Count("t7_edge")
			switch k {
			case 1:
				pc.close()
			case 2:
				pc.abort()
			case 3:
				pc.send(ctl(tSelReq, l.psess, 0, 0, pc.next()))
			case 4:
				pc.send(ctl(tSepReq, l.psess, 0, 0, pc.next()))
			case 5:
				pc.send(ctl(tSelReq, l.psess, 0, 0, pc.next()))
				pc.close()
			}
		})
	}
	return pc
}

// listen makes the peer accept connections (for an active endpoint).
func (l *HLab) listen() {
	if !l.active || l.lst != nil && !l.lst.IsClosed() {
		return
	}
	simrt.In(l.pg, func() {
		ln, err := snet.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", l.port))
		if err != nil {
			return
		}
		l.lst = ln.(*snet.TCPListener)
	})
	if l.lst == nil {
		return
	}
	ln := l.lst
	simrt.GoIn(l.pg, "peer-accept", func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			l.addPC(c.(*snet.TCPConn))
		}
	})
}

func (l *HLab) unlisten() {
	if l.lst != nil {
		l.lst.Close()
		l.lst = nil
	}
}

// dial connects the peer to a passive endpoint; it retries for a while if asked to.
func (l *HLab) dial(tries int) *PC { return l.dialWhile(tries, nil) }

func (l *HLab) dialWhile(tries int, cond *bool) *PC {
	var pc *PC
	if l.active {
		return nil
	}
	for i := 0; i < tries && (cond == nil || *cond); i++ {
		var c snet.Conn
		var err error
		simrt.In(l.pg, func() { c, err = snet.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", l.port)) })
		if err == nil {
			pc = l.addPC(c.(*snet.TCPConn))
			return pc
		}
		simrt.Sleep(50 * time.Millisecond)
	}
	return nil
}

func (l *HLab) onDown(pc *PC) {
	l.touch()
	if l.autoDial && !l.active {
		simrt.GoIn(l.pg, "redial", func() {
			simrt.Sleep(20 * time.Millisecond)
			if l.autoDial && l.cur() == nil {
				if n := l.dialWhile(400, &l.autoDial); n != nil {
					n.send(ctl(tSelReq, l.psess, 0, 0, n.next()))
				}
			}
		})
	}
}

// onFrame is the peer's protocol behaviour.
func (l *HLab) onFrame(pc *PC, f *Frame) {
	l.touch()
	if l.script != nil && l.script(pc, f) {
		return
	}
	if l.noAnswer {
		return
	}
	p := l.e.P
	later := func(d int64, g func()) {
		if d <= 0 {
			g()
			return
		}
		simrt.GoIn(l.pg, "peer-later", func() {
			simrt.Sleep(ms(d))
			g()
		})
	}
	switch f.Typ {
	case tSelReq:
		mode := p.C("sel.mode")
		if v, ok := p.Cfg[fmt.Sprintf("sel.mode.%d", pc.id)]; ok {
			mode = v
		}
		switch mode {
		case 0:
			later(p.C("sel.delay"), func() {
				pc.send(ctl(tSelRsp, f.Sess, 0, 0, f.Sys))
				pc.sel()
			})
		case 1:
			l.e.Count("select_denied")
			pc.send(ctl(tSelRsp, f.Sess, 0, 1, f.Sys))
		case 2:
			l.e.Count("select_ignored")
		case 3: // wrong system bytes
			pc.send(ctl(tSelRsp, f.Sess, 0, 0, f.Sys+1))
		case 4: // rejected
			pc.send(ctl(tReject, f.Sess, tSelReq, 4, f.Sys))
		case 5:
			pc.close()
		}
	case tSelRsp:
		if f.B3 == 0 {
			pc.sel()
		}
	case tDesRsp:
		for _, x := range pc.TX {
			if f.B3 == 0 && x.F.Typ == tDesReq && x.F.Sys == f.Sys && x.Seq > pc.SelSeq {
				pc.Sel = false
			}
		}
	case tLnkReq:
		switch p.C("lt.mode") {
		case 0:
			later(p.C("lt.delay"), func() { pc.send(ctl(tLnkRsp, 0xffff, 0, 0, f.Sys)) })
		case 1:
			l.e.Count("linktest_ignored")
		case 2:
			pc.send(ctl(tLnkRsp, 0xffff, 0, 0, f.Sys))
			pc.send(ctl(tLnkRsp, 0xffff, 0, 0, f.Sys))
		}
	case tDesReq:
		pc.Sel = false
		pc.send(ctl(tDesRsp, f.Sess, 0, byte(p.C("des.status")), f.Sys))
	case tSepReq:
		pc.close()
	case tData:
		if f.PType != 0 {
			return
		}
		it := f.Item()
		tok := tokOf(it)
		l.seen[tok]++
		if !f.W() || !strings.HasPrefix(tok, "q") {
			return
		}
		n, _ := strconv.ParseInt(tok[1:], 10, 64)
		for i := range l.e.P.Ops {
			if o := &l.e.P.Ops[i]; o.I == n {
				l.peerReply(pc, f, it, tok, o)
				return
			}
		}
		for i := range l.extra {
			if o := &l.extra[i]; o.I == n {
				l.peerReply(pc, f, it, tok, o)
				return
			}
		}
	}
}

func (pc *PC) sel() { pc.Sel = true; pc.SelAt = simrt.Now(); pc.SelSeq = simrt.Seq() }

// peerReply answers a request of the endpoint as its op says. Op.A: behaviour, Op.B: delay
// in ms, Op.C: payload size, Op.D: payload kind.
func (l *HLab) peerReply(pc *PC, f *Frame, it *Item, tok string, o *Op) {
	e := l.e
	k := 0
	rep := func(kind string, S, F int, sys uint32) {
		k++
		ri := tokItem(fmt.Sprintf("r:%s:%d", tok, k), payload(hash64("prep", tok), o.D+1, o.C))
		r := data(S, F, false, f.Sess, sys, ri)
		l.replies = append(l.replies, peerRep{Tok: tok, F: r, Item: ri, PC: pc, At: simrt.Now(), Seq: simrt.Seq(), Kind: kind})
		pc.send(r)
	}
	prim := func(w bool) {
		pt := fmt.Sprintf("p%s", tok)
		pi := tokItem(pt, A("collide"))
		r := data(f.S(), f.F(), w, f.Sess, f.Sys, pi)
		l.peerQ[pt] = &peerReq{Tok: pt, F: r, Item: pi, PC: pc, At: simrt.Now(), Seq: simrt.Seq(), Op: &Op{B: o.B % 2}, Coll: true}
		e.Count("colliding_primary")
		pc.send(r)
	}
	simrt.GoIn(l.pg, "reply-"+tok, func() {
		if o.B > 0 {
			simrt.Sleep(ms(o.B))
		}
		switch o.A {
		case 1: // none
			e.Count("reply_withheld")
		case 2: // twice
			e.Count("reply_duplicated")
			rep("dup", f.S(), f.F()+1, f.Sys)
			simrt.Sleep(ms(o.B % 7))
			rep("dup", f.S(), f.F()+1, f.Sys)
		case 3:
			prim(true)
			rep("", f.S(), f.F()+1, f.Sys)
		case 4:
			prim(false)
			simrt.Sleep(ms(o.B % 11))
			rep("", f.S(), f.F()+1, f.Sys)
		case 5:
			prim(o.B%2 == 0)
			e.Count("reply_withheld")
		case 6: // control messages with the request's system bytes
			e.Count("colliding_control")
			pc.send(ctl(tLnkReq, 0xffff, 0, 0, f.Sys))
			pc.send(ctl(tLnkRsp, 0xffff, 0, 0, f.Sys+7))
			rep("", f.S(), f.F()+1, f.Sys)
		case 7:
			e.Count("reply_abort")
			rep("abort", f.S(), 0, f.Sys)
		case 8: // a reply for nobody, then the reply
			e.Count("reply_unknown_sys")
			x := data(f.S(), f.F()+1, false, f.Sess, f.Sys+0x01000000, tokItem("r:nobody", A("z")))
			pc.send(x)
			rep("", f.S(), f.F()+1, f.Sys)
		default:
			rep("", f.S(), f.F()+1, f.Sys)
		}
	})
}

// appCall performs one application call, inline or in its own task.
func (l *HLab) appCall(o *Op, inline bool) {
	idx := int(o.I)
	c := &Call{ID: idx, Op: o, Kind: o.K, Tok: fmt.Sprintf("q%d", idx)}
	l.calls = append(l.calls, c)
	l.pending++
	sf := labSF[int(hash64("sf", idx)%int64(len(labSF)))]
	if k := hash64("anysf", idx); k%5 == 0 {
		if sf = [2]int{1 + int(k/5%127), 1 + 2*int(k/1000%127)}; sf[0] == 9 {
			sf[0] = 8
		}
	}
	c.S, c.F = sf[0], sf[1]
	c.Item = tokItem(fmt.Sprintf("q%d", idx), payload(hash64("call", idx), o.D, o.C))
	w := 1
	if o.K == "snd" {
		w = 0
	}
	if o.S == "opt" || hash64("wbit", idx)%6 == 0 {
		w = 2
		l.e.Count("optional_wait_bit")
	}
	do := func() {
		m := ast.NewDataMessage("", c.S, c.F, w, "H<->E", c.Item.ToAST())
		c.StateAt = l.ep.CurrentState()
		c.Start, c.Q0 = simrt.Now(), simrt.Seq()
		if simrt.Tracing() {
			simrt.Tracef("app %s q%d begins", o.K, idx)
		}
		if o.K == "snd" {
			c.Err = l.ep.SendDataMessage(m)
		} else {
			r, err := l.ep.SendAndWait(m)
			c.Err = err
			if r != nil {
				c.Rep = &Frame{Sess: uint16(r.SessionID()), B2: byte(r.StreamCode()), B3: byte(r.FunctionCode()), Sys: be32(r.SystemBytes())}
				if it, err := r.Get(); err == nil {
					c.RepItem = FromAST(it)
				}
			}
		}
		c.End, c.Q1, c.Done = simrt.Now(), simrt.Seq(), true
		l.pending--
		l.e.Work++
		if simrt.Tracing() {
			simrt.Tracef("app %s q%d ends err=%v rep=%v", o.K, idx, c.Err, c.RepItem)
		}
	}
	if inline {
		do()
		return
	}
	l.inSut(fmt.Sprintf("%s-%d", o.K, idx), do)
}

func (l *HLab) toggle(on bool) { l.toggleAfter(on, 0, 0) }

// toggleAfter enables or disables after so many steps of the calling task. With back, the
// same task takes that back once it is done, back-1 steps later.
func (l *HLab) toggleAfter(on bool, steps, back int64) {
	l.pending++
	l.inSut(fmt.Sprintf("toggle-%v", on), func() {
		l.toggleHere(on, steps)
		if back > 0 {
			l.toggleHere(!on, back-1)
		}
		l.pending--
	})
}

func (l *HLab) toggleHere(on bool, steps int64) {
	for ; steps > 0; steps-- {
		simrt.Point()
	}
	t := &Toggle{On: on}
	l.tog = append(l.tog, t)
	t.At, t.Seq = simrt.Now(), simrt.Seq()
	if simrt.Tracing() {
		simrt.Tracef("app enable=%v begins", on)
	}
	if l.onoff != nil {
		l.onoff(on)
	} else if on {
		l.ep.Enable()
	} else {
		l.ep.Disable()
	}
	t.End, t.Seq1, t.Done = simrt.Now(), simrt.Seq(), true
	if simrt.Tracing() {
		simrt.Tracef("app enable=%v ends", on)
	}
}

// step performs op idx.
func (l *HLab) step(idx int) {
	e := l.e
	o := &e.P.Ops[idx]
	pc := l.cur()
	l.touch()
	switch o.K {
	case "req", "snd":
		l.appCall(o, false)
	case "flood": // A messages that want no reply, one after the other
		l.pending++
		l.inSut("flood", func() {
			for i := int64(0); i < o.A; i++ {
				_ = l.ep.SendDataMessage(ast.NewDataMessage("", 6, 11, 0, "H<->E", ast.NewUintNode(4, i)))
			}
			l.pending--
		})
	case "logcfg":
		l.inSut("logcfg", func() { l.log.configure(o.A, o.B, o.C, o.D) })
	case "enable":
		l.toggleAfter(true, o.A, o.B)
	case "disable":
		l.toggleAfter(false, o.A, o.B)
	case "poll":
		l.inSut("poll", func() { l.poll() })
	case "listen":
		l.listen()
	case "unlisten":
		l.unlisten()
	case "dial":
		simrt.GoIn(l.pg, "peer-dial", func() {
			if n := l.dial(int(o.A) + 1); n != nil && o.B == 0 {
				n.send(ctl(tSelReq, l.psess, 0, 0, n.next()))
			}
		})
	case "frame": // a control frame: A type, B session, C status byte, D system bytes (0: fresh)
		if pc != nil {
			sys := uint32(o.D)
			if sys == 0 {
				sys = pc.next()
				if t := byte(o.A); t == tSelRsp || t == tDesRsp || t == tLnkRsp || t == tReject {
					sys ^= 0x66000000 // nobody's request
				}
			}
			pc.send(ctl(byte(o.A), uint16(o.B), 0, byte(o.C), sys))
		}
	case "prim": // a primary: A stream/function index, B handler behaviour, C its duration, D payload; S: "w"
		if pc != nil {
			l.sendPrim(pc, o)
		}
	case "bigprim":
		if pc != nil {
			tok := fmt.Sprintf("p%d", o.I)
			it := tokItem(tok, payload(hash64("prim", o.I), o.D, o.C))
			f := data(1, 3, o.C%2 == 0, l.psess, pc.next(), it)
			l.peerQ[tok] = &peerReq{Tok: tok, F: f, Item: it, PC: pc, At: simrt.Now(), Seq: simrt.Seq(), Op: &Op{}}
			pc.send(f)
			e.Count("large_primary")
		}
	case "s9": // a stream 9 message: A function
		if pc != nil {
			hdr := make([]byte, 10)
			hdr[9] = byte(idx)
			var it *Item
			if o.B == 0 {
				it = B(hdr...)
			} else if o.B == 1 {
				it = B(byte(o.A))
			}
			pc.send(data(9, int(o.A), strings.Contains(o.S, "w"), l.psess, pc.next(), it))
		}
	case "raw":
		if pc != nil {
			pc.Junk = true
			e.Count("raw_bytes")
			pc.raw(unhex(o.S))
		}
	case "deep": // a data message nested A deep
		if pc != nil {
			pc.Junk = true
			e.Count("deep_nesting")
			text := bytes.Repeat([]byte{1, 1}, int(o.A))
			if o.B == 0 {
				text = append(text, 1, 0)
			}
			pc.send(&Frame{Sess: l.psess, B2: 0x81, B3: 1, Sys: pc.next(), Text: text})
		}
	case "part": // the first A bytes of a primary now, the rest C ms later (C<0: never)
		if pc != nil {
			o2 := *o
			o2.A, o2.C = 1, 0
			l.sendPart(pc, &o2, o.A, o.C)
		}
	case "close":
		if pc != nil {
			e.Count("peer_close")
			pc.close()
		}
	case "abort":
		if pc != nil {
			e.Count("peer_abort")
			pc.abort()
		}
	case "reset":
		if pc != nil {
			pc.Link.Reset()
		}
	case "break": // the connection breaks after the endpoint wrote A more bytes
		if pc != nil {
			sutEnd(pc).BreakAfter(o.A)
		}
	case "freeze": // A: 1 towards endpoint, 2 from endpoint, 3 both
		if pc != nil {
			if o.A&1 != 0 {
				pc.Link.Freeze(pc.Link.C == pc.C)
			}
			if o.A&2 != 0 {
				pc.Link.Freeze(pc.Link.C != pc.C)
			}
		}
	case "thaw":
		for _, x := range l.pcs {
			x.Link.Thaw(true)
			x.Link.Thaw(false)
		}
	case "stopread":
		if pc != nil {
			pc.stopRead, pc.clogged = true, true
			e.Count("peer_stops_reading")
		}
	case "startread":
		for _, x := range l.pcs {
			x.stopRead = false
		}
	case "refuse":
		e.W.Refuse[fmt.Sprintf("127.0.0.1:%d", l.port)] = o.A != 0
	case "blackhole":
		e.W.Blackhole[fmt.Sprintf("127.0.0.1:%d", l.port)] = o.A != 0
	default:
		if l.ext != nil && l.ext(o) {
			return
		}
		panic("harness: unknown op " + o.K)
	}
}

// sutEnd is the endpoint's end of a peer connection.
func sutEnd(pc *PC) *snet.TCPConn {
	if pc.Link.C == pc.C {
		return pc.Link.S
	}
	return pc.Link.C
}

func (l *HLab) sendPrim(pc *PC, o *Op) {
	idx := o.I
	sf := labSF[int(o.A)%len(labSF)]
	if o.A >= 1000 { // any stream and function
		sf = [2]int{int(o.A-1000) >> 8, int(o.A-1000) & 255}
	}
	tok := fmt.Sprintf("p%d", idx)
	it := tokItem(tok, payload(hash64("prim", idx), o.D, o.D*13))
	f := data(sf[0], sf[1], strings.Contains(o.S, "w"), l.psess, pc.next(), it)
	l.peerQ[tok] = &peerReq{Tok: tok, F: f, Item: it, PC: pc, At: simrt.Now(), Seq: simrt.Seq(), Op: o}
	pc.send(f)
}

// sendPart sends a primary in two parts with a pause.
func (l *HLab) sendPart(pc *PC, o *Op, cutAt, pause int64) {
	sf := labSF[1]
	tok := fmt.Sprintf("p%d", o.I)
	it := tokItem(tok, payload(hash64("prim", o.I), o.D, 9))
	f := data(sf[0], sf[1], strings.Contains(o.S, "w"), l.psess, pc.next(), it)
	l.peerQ[tok] = &peerReq{Tok: tok, F: f, Item: it, PC: pc, At: simrt.Now(), Seq: simrt.Seq(), Op: &Op{}}
	b := f.Bytes()
	k := int(cutAt) % len(b)
	if k == 0 {
		k = 1
	}
	l.e.Count("message_in_two_parts")
	pc.TX = append(pc.TX, RX{f, simrt.Now(), simrt.Seq()})
	if pc.hold { // another message is half sent: this one waits for it as a whole
		pc.raw(b)
		return
	}
	pc.raw(b[:k])
	pc.hold = true
	if pause < 0 {
		return
	}
	simrt.GoIn(l.pg, "part", func() {
		simrt.Sleep(ms(pause))
		pc.rawHead(b[k:])
	})
}

// play runs the plan's ops at their times.
func (l *HLab) play() {
	start := simrt.Now()
	for i := range l.e.P.Ops {
		o := &l.e.P.Ops[i]
		if d := ms(o.At) - (simrt.Now() - start); d > 0 {
			simrt.Sleep(d)
		}
		if by := ms(l.e.P.C("align")); by > 0 && len(l.tog) > 0 && hash64("align", i)%3 != 0 { // with the ticks of a timer
			if d := (simrt.Now() - l.tog[0].At) % by; d > 0 {
				simrt.Sleep(by - d)
			}
		}
		l.step(i)
	}
}

// settle waits until no application call is in progress, at most d.
func (l *HLab) settle(d time.Duration) bool {
	end := simrt.Now() + d
	for l.pending > 0 && simrt.Now() < end {
		simrt.Sleep(20 * time.Millisecond)
	}
	return l.pending == 0
}

// bringUp enables the endpoint and gets it selected with the peer (no faults yet).
func (l *HLab) bringUp() bool {
	if l.active {
		l.listen()
	}
	l.toggle(true)
	if !l.active {
		simrt.Sleep(5 * time.Millisecond)
		pc := l.dial(100)
		if pc == nil {
			return false
		}
		pc.send(ctl(tSelReq, l.psess, 0, 0, pc.next()))
	}
	for i := 0; i < 400; i++ {
		if st := l.state(); st == hsms.StateConnectedSelected {
			if pc := l.cur(); pc != nil && pc.Sel {
				return true
			}
		}
		simrt.Sleep(10 * time.Millisecond)
	}
	return false
}

// state reads the reported state.
func (l *HLab) state() (s string) {
	simrt.In(l.g, func() { s = l.ep.CurrentState() })
	return
}

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		v, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return b
}
