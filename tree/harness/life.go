package main

import (
	"fmt"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// mev is a step of the connection model of one connection.
type mev struct {
	at   time.Duration
	seq  int64
	kind string // conn, sel, desel, end (the endpoint has reason to end the connection)
	why  string
	k    int // peer frame, -1
}

// lconn is a connection with its model.
type lconn struct {
	*conn
	t0     time.Duration // the endpoint has the connection from here on
	seq0   int64
	have   bool // the endpoint ever had it
	evs    []mev
	unsure bool          // junk, collisions: no exact model
	bySut  bool          // the endpoint closed first
	endAt  time.Duration // when the endpoint no longer had it (-1: still has)
	endSeq int64
	fr     []lframe
}

type lframe struct {
	k      int
	f      *Frame
	at     time.Duration
	seq    int64
	want   byte // expected response type, 0: none
	status byte
	answer []int // indices of its responses in wr
	sessOK bool
}

const never = time.Duration(-1)

// touch keeps the poller busy for a while.
func (l *HLab) touch() { l.busyUntil = simrt.Now() + 40*time.Millisecond }

// startPoller reads the reported state: often around events, seldom otherwise.
func (l *HLab) startPoller() {
	simrt.Go(func() {
		for !l.stopPoll {
			l.pollAs()
			d := time.Duration(100+simrt.Rand().Intn(150)) * time.Millisecond
			if simrt.Now() < l.busyUntil {
				d = time.Duration(200+simrt.Rand().Intn(6000)) * time.Microsecond
			}
			end := simrt.Now() + d
			for simrt.Now() < end && !l.stopPoll {
				step := end - simrt.Now()
				if step > 20*time.Millisecond {
					step = 20 * time.Millisecond
				}
				simrt.Sleep(step)
				if simrt.Now() < l.busyUntil && d > 10*time.Millisecond {
					break
				}
			}
		}
	})
}

func (l *HLab) pollAs() {
	simrt.In(l.g, func() { l.poll() })
}

// model folds the recorded history of every connection.
func (l *HLab) model() []*lconn {
	var out []*lconn
	sess := l.sess
	l.sessMaybe = false
	dials := map[*snet.Link]*snet.DialRec{}
	for _, d := range l.e.W.Dials {
		if d.Link != nil {
			dials[d.Link] = d
		}
	}
	for _, c := range l.conns() {
		x := &lconn{conn: c, endAt: never, t0: never}
		lk := c.pc.Link
		if l.active {
			if d := dials[lk]; d != nil {
				x.t0, x.seq0, x.have = d.End, d.Seq, true
			}
		} else if lk.Accepted {
			x.t0, x.seq0, x.have = lk.AccAt, lk.AccSeq, true
		}
		out = append(out, x)
		if !x.have {
			continue
		}
		if c.sut.IsClosed() && (c.sut.GoneAt == 0 || c.sut.ClosedAt < c.sut.GoneAt) {
			x.bySut = true
		}
		if c.sut.GoneAt != 0 {
			x.endAt = c.sut.GoneAt
		}
		if c.sut.IsClosed() && (x.endAt == never || c.sut.ClosedAt < x.endAt) {
			x.endAt = c.sut.ClosedAt
			x.endSeq = c.sut.ClosedSeq
		}
		x.unsure = c.pc.Junk || l.sessMaybe || c.pc.clogged && l.e.P.Has("net.sndbuf")
		x.evs = append(x.evs, mev{x.t0, x.seq0, "conn", "", -1})
		t6 := secs(l.e.P.C("t6"))
		for k := range c.pw {
			f := c.pw[k].F
			at, seq, ok := c.arr(k)
			if !ok {
				break
			}
			fr := lframe{k: k, f: f, at: at, seq: seq}
			if f.PType != 0 {
				x.unsure = true
			}
			add := func(kind, why string) { x.evs = append(x.evs, mev{at, seq, kind, why, k}) }
			match := func(t byte) {
				for j := range c.wr {
					if w := c.wr[j].F; w.Typ == t && w.Sys == f.Sys {
						fr.answer = append(fr.answer, j)
					}
				}
			}
			switch f.Typ {
			case tSelReq:
				fr.want = tSelRsp
				match(tSelRsp)
				fr.sessOK = f.Sess == sess || f.Sess == 0xffff || sess == 0 || sess == 0xffff
				if fr.sessOK {
					if len(fr.answer) > 0 && f.Sess != 0xffff && (sess == 0 || sess == 0xffff) {
						sess = f.Sess
						l.inUse = sess
					} else if len(fr.answer) == 0 && f.Sess != 0xffff && sess != f.Sess {
						l.sessMaybe = true // taken over or not: the answer did not come
					}
					add("sel", "select.req")
				} else {
					fr.status = 1
					add("end", "select.req for a foreign session")
				}
			case tDesReq:
				fr.want = tDesRsp
				match(tDesRsp)
				add("desel", "deselect.req")
			case tLnkReq:
				fr.want = tLnkRsp
				match(tLnkRsp)
			case tSepReq:
				add("end", "separate.req")
			case tSelRsp:
				for j := range c.wr {
					w := c.wr[j]
					if w.F.Typ != tSelReq || w.F.Sys != f.Sys || w.Seq0 > seq {
						continue
					}
					switch done := x.answeredBefore(k, tSelRsp, w); {
					case done > 0 && at-done <= l.e.Tol: // the request may be closed already
						x.unsure = true
					case done > 0:
					case at > w.At0+t6-l.e.Tol: // may be too late
						x.unsure = true
					case f.B3 == 0:
						add("sel", "select.rsp")
					default:
						add("end", "select.rsp with a refusal")
					}
				}
			case tDesRsp:
				for j := range c.wr {
					if w := c.wr[j]; w.F.Typ == tDesReq && w.F.Sys == f.Sys && w.Seq0 < seq {
						if done := x.answeredBefore(k, tDesRsp, w); done > 0 && at-done > l.e.Tol {
							continue
						}
						if f.B3 == 0 {
							add("desel", "deselect.rsp")
						}
					}
				}
			case tReject, tData, tLnkRsp:
			default:
				x.unsure = true
			}
			x.fr = append(x.fr, fr)
		}
	}
	return out
}

// answeredBefore tells when an earlier frame than k answered the request w (0: none).
func (x *lconn) answeredBefore(k int, t byte, w WF) time.Duration {
	for j := 0; j < k; j++ {
		f := x.pw[j].F
		if at, seq, ok := x.arr(j); ok && seq > w.Seq0 && f.Sys == w.F.Sys && (f.Typ == t || f.Typ == tReject) {
			return at
		}
	}
	return 0
}

// stateAt folds the model up to a moment (time).
func (x *lconn) stateAt(t time.Duration) (string, time.Duration) {
	st, since := hsms.StateNotConnected, time.Duration(0)
	for _, v := range x.evs {
		if v.at > t {
			break
		}
		switch v.kind {
		case "conn":
			st, since = hsms.StateConnectedNotSelected, v.at
		case "sel":
			if st == hsms.StateConnectedNotSelected {
				st, since = hsms.StateConnectedSelected, v.at
			}
		case "desel":
			if st == hsms.StateConnectedSelected {
				st, since = hsms.StateConnectedNotSelected, v.at
			}
		case "end":
			return hsms.StateNotConnected, v.at
		}
	}
	return st, since
}

// checkControl: every control request is answered once, correctly.
func (l *HLab) checkControl(ms []*lconn) {
	e := l.e
	for _, x := range ms {
		if !x.have {
			continue
		}
		ended := false
		missed := ""
		last := int64(-1)
		for i := range x.fr {
			fr := &x.fr[i]
			f := fr.f
			if fr.want == 0 {
				if f.Typ == tSepReq {
					ended = true
				}
				continue
			}
			if l.sysCount(x, f) > 1 {
				continue
			}
			n := len(fr.answer)
			if n > 1 {
				e.Bad("H05", "a control request was answered more than once", "connection %d: %v got %d responses", x.pc.id, f, n)
			}
			if n > 0 && ended && !x.unsure {
				e.Bad("H05", "a request was answered after the session had ended", "connection %d: %v", x.pc.id, f)
			}
			for j := range x.wr {
				w := x.wr[j].F
				if w.Sys != f.Sys || x.wr[j].Seq0 < fr.seq {
					continue
				}
				if w.Typ == fr.want || w.Typ == tData || w.Typ == tSelReq || w.Typ == tDesReq || w.Typ == tLnkReq || w.Typ == tSepReq {
					continue
				}
				if w.Typ == tReject && (l.disabledEver() || x.unsure) {
					continue
				}
				if w.Typ == tReject && w.B3 == 4 && x.endAt != never && x.endAt <= fr.at+e.Tol {
					continue // it was about to end the connection
				}
				e.Bad("H05", "a control request drew a response of another type", "connection %d: %v answered by %v", x.pc.id, f, w)
			}
			if n > 0 {
				w := x.wr[fr.answer[0]]
				e.Count("control_answered")
				if missed != "" && !ended {
					e.Bad("H05", "a control request was skipped", "connection %d: %s", x.pc.id, missed)
				}
				if w.Seq0 < last {
					e.Bad("H05", "control responses out of order", "connection %d: %v", x.pc.id, f)
				}
				last = w.Seq0
				if w.Seq0 < fr.seq {
					e.Bad("H05", "a response preceded its request", "connection %d: %v", x.pc.id, f)
				}
				if f.Typ != tLnkReq {
					if w.F.B3 != fr.status && !x.unsure {
						e.Bad("H05", "a control response carries the wrong status", "connection %d: %v answered by %v, expected status %d", x.pc.id, f, w.F, fr.status)
					}
					if w.F.Sess != f.Sess {
						e.Bad("H05", "a control response carries another session", "connection %d: %v answered by %v", x.pc.id, f, w.F)
					}
				}
			} else if !ended {
				if x.alive && !l.disabledEver() && !x.unsure && simrt.Now() > fr.at+e.Tol+time.Second {
					e.Bad("H05", "a control request was not answered", "connection %d: %v in state %s", x.pc.id, f, first(x.stateAt(fr.at)))
				}
				missed = f.String()
			}
			if fr.want == tSelRsp && !fr.sessOK {
				ended = true
				if x.alive && simrt.Now() > fr.at+e.Tol+time.Second && !x.unsure {
					e.Bad("H05", "the connection survives a select for a foreign session", "connection %d", x.pc.id)
				}
			}
		}
		for _, v := range x.evs { // a separate ends the session
			if v.why == "separate.req" && x.alive && simrt.Now() > v.at+e.Tol+time.Second && !x.unsure {
				e.Bad("H05", "the connection survives a separate.req", "connection %d", x.pc.id)
			}
		}
		// no response without a request
		for j := range x.wr {
			w := x.wr[j].F
			if w.Typ != tSelRsp && w.Typ != tDesRsp && w.Typ != tLnkRsp {
				continue
			}
			ok := x.unsure
			for i := range x.fr {
				if x.fr[i].f.Sys == w.Sys && x.fr[i].want == w.Typ {
					ok = true
				}
			}
			if !ok {
				e.Bad("H05", "a control response that answers nothing", "connection %d: %v", x.pc.id, w)
			}
		}
	}
}

func first[T, U any](a T, _ U) T { return a }

func (l *HLab) sysCount(x *lconn, f *Frame) (n int) {
	for i := range x.pw {
		if x.pw[i].F.Sys == f.Sys && x.pw[i].F.Typ != tData {
			n++
		}
	}
	return
}

// checkStates compares the polled state with the model.
func (l *HLab) checkStates(ms []*lconn) {
	e := l.e
	var evs []time.Duration
	for _, x := range ms {
		if x.have {
			evs = append(evs, x.t0)
		}
		for _, a := range x.sut.Arr {
			evs = append(evs, a.At)
		}
		for _, a := range x.sut.Tap {
			evs = append(evs, a.At)
		}
		if x.endAt != never {
			evs = append(evs, x.endAt)
		}
		if x.sut.IsClosed() {
			evs = append(evs, x.sut.ClosedAt)
		}
	}
	type span struct{ a, b time.Duration }
	var busy []span
	for _, t := range l.tog {
		evs = append(evs, t.At)
		end := simrt.Now()
		if t.Done {
			end = t.End
			evs = append(evs, t.End)
		}
		if !t.On {
			busy = append(busy, span{t.At, end})
		}
	}
	for _, d := range e.W.Dials {
		evs = append(evs, d.At)
	}
	sortDur(evs)
	q := e.Tol + l.slow + 30*time.Millisecond
	i := 0
	var lastEv time.Duration = never
	prevState := hsms.StateNotConnected
	for _, p := range l.polls {
		for i < len(evs) && evs[i] <= p.At {
			lastEv = evs[i]
			i++
		}
		switch p.State {
		case hsms.StateNotConnected, hsms.StateConnectedNotSelected, hsms.StateConnectedSelected:
		default:
			e.Bad("H13", "an unknown state is reported", "%q", p.State)
		}
		// selected only after a select exchange on a connection that may still be up
		if p.State == hsms.StateConnectedSelected {
			ok := false
			for _, x := range ms {
				if x.unsure {
					ok = true
				}
				if !x.have || x.t0 > p.At || (x.endAt != never && x.endAt+e.Tol+l.slow < p.At) {
					continue
				}
				for _, v := range x.evs {
					if v.kind == "sel" && v.at <= p.At {
						ok = true
					}
				}
			}
			if !ok {
				e.Bad("H13,H05,H04", "selected is reported without a select exchange on the present connection", "at %v", p.At)
			}
			e.Count("polled_selected")
		}
		if p.State != prevState {
			e.Count("state_changes_seen")
			prevState = p.State
		}
		if lastEv != never && p.At-lastEv < q {
			continue
		}
		skip := false
		for _, b := range busy {
			if p.At >= b.a-time.Millisecond && p.At <= b.b+q {
				skip = true
			}
		}
		if skip {
			continue
		}
		// at rest: the model determines the state
		want, unsure := hsms.StateNotConnected, false
		for _, x := range ms {
			if !x.have || x.t0 > p.At || (x.endAt != never && x.endAt <= p.At) {
				continue
			}
			st, since := x.stateAt(p.At)
			if x.unsure {
				unsure = true
			}
			if st == hsms.StateConnectedNotSelected && l.e.P.C("t7") > 0 && p.At > since+secs(l.e.P.C("t7")) {
				unsure = true
			}
			if l.idleDue(x, p.At) {
				unsure = true
			}
			want = st
		}
		if unsure {
			continue
		}
		e.Count("rest_polls")
		if p.State != want {
			e.Bad("H13,H05", fmt.Sprintf("reported state %s at rest, should be %s", p.State, want), "at %v, last event %v", p.At, lastEv)
		}
		if p.Conn != (p.State != hsms.StateNotConnected) {
			e.Bad("H13", "the connected flag disagrees with the state at rest", "at %v: %s connected=%v", p.At, p.State, p.Conn)
		}
	}
}

// idleDue tells whether T8 may have expired on x by t.
func (l *HLab) idleDue(x *lconn, t time.Duration) bool {
	t8 := l.e.P.C("t8")
	if t8 == 0 {
		return false
	}
	return t >= l.lastComplete(x, t-l.e.Tol)+secs(t8)
}

// lastComplete is when the endpoint last took a complete message before t.
func (l *HLab) lastComplete(x *lconn, t time.Duration) time.Duration {
	m := x.t0
	for k := range x.pw {
		if at, _, ok := x.arr(k); ok && at < t {
			m = at
		}
	}
	return m
}

func sortDur(d []time.Duration) {
	for i := 1; i < len(d); i++ {
		for j := i; j > 0 && d[j-1] > d[j]; j-- {
			d[j-1], d[j] = d[j], d[j-1]
		}
	}
}

// checkEnds: the endpoint ends a connection only with reason, and in time where it must.
func (l *HLab) checkEnds(ms []*lconn) {
	e := l.e
	t7 := secs(e.P.C("t7"))
	t8 := secs(e.P.C("t8"))
	now := simrt.Now()
	for _, x := range ms {
		if !x.have {
			continue
		}
		// partial message pending?
		arrOff := int64(0)
		var partAt time.Duration = never
		if n := len(x.sut.Arr); n > 0 {
			arrOff = x.sut.Arr[n-1].Off
			whole := int64(0)
			for k := range x.pw {
				if x.pw[k].End <= arrOff {
					whole = x.pw[k].End
				}
			}
			if whole < arrOff {
				for _, a := range x.sut.Arr {
					if a.Off > whole {
						partAt = a.At
						break
					}
				}
			}
		}
		if partAt != never && t8 > 0 && !l.broken(x) {
			lim := partAt + t8 + e.Tol + 50*time.Millisecond
			e.Count("stalled_messages")
			if x.endAt == never && now > lim || x.endAt != never && x.endAt > lim {
				e.Bad("H11", "a connection with a stalled message outlives T8", "connection %d: message began %v, T8 %v, closed %v", x.pc.id, partAt, t8, x.endAt)
			}
		}
		st, since := x.stateAt(1 << 62)
		if x.endAt != never {
			st, since = x.stateAt(x.endAt)
		}
		if t7 > 0 && st == hsms.StateConnectedNotSelected && !x.unsure {
			lim := since + t7 + e.Tol + 50*time.Millisecond
			if x.endAt == never && now > lim || x.endAt != never && x.endAt > lim {
				e.Bad("H10", "a connection not selected outlives T7", "connection %d: not selected since %v, T7 %v, closed %v", x.pc.id, since, t7, x.endAt)
			}
		}
		if !x.bySut || x.unsure {
			continue
		}
		// why did the endpoint close it?
		at := x.sut.ClosedAt
		cause := ""
		for _, v := range x.evs {
			if v.kind == "end" && v.at <= at {
				cause = v.why
			}
		}
		for _, t := range l.tog {
			if !t.On && t.At <= at {
				cause = "disable"
			}
		}
		// (a message that arrives as T8 expires may cross it)
		if cause == "" && t8 > 0 && (at >= l.lastComplete(x, at)+t8 || at >= l.lastComplete(x, at-e.Tol)+t8) {
			cause = "T8"
		}
		if cause == "" && t7 > 0 {
			// not selected for T7, by the wire or as last polled
			var pst string
			for _, p := range l.polls {
				if p.At < at {
					pst = p.State
				}
			}
			if st == hsms.StateConnectedNotSelected && at >= since+t7 {
				cause = "T7"
				e.Count("t7_closes")
			}
			// the timer and a select may cross: then the endpoint never reported selected
			if cause == "" && (st == hsms.StateConnectedNotSelected || pst != hsms.StateConnectedSelected) && at <= since+e.Tol {
				for _, v := range x.evs {
					if (v.kind == "conn" || v.kind == "desel") && at >= v.at+t7 && at <= v.at+t7+e.Tol+50*time.Millisecond {
						cause = "T7 crossing a select"
						e.Count("t7_select_race")
					}
				}
			}
		}
		if cause == "" {
			cls := "the endpoint closed a connection without reason"
			if st == hsms.StateConnectedSelected {
				cls = "the endpoint closed a selected connection without reason"
			}
			e.Bad("H10,H11,H13,H14,H05,H08", cls, "connection %d from %v closed at %v (%s since %v, T7 %v, T8 %v)", x.pc.id, x.t0, at, st, since, t7, t8)
		}
		e.Count("end:" + cause)
	}
}

// broken tells whether the link was cut or the peer ended it (then T8 does not apply).
func (l *HLab) broken(x *lconn) bool { return x.endAt != never && !x.bySut }

// checkLinktests: at the interval, on the live connection only.
func (l *HLab) checkLinktests(ms []*lconn) {
	e := l.e
	lt := secs(e.P.C("lt"))
	t6 := secs(e.P.C("t6"))
	prompt := l.prompt
	sys := map[uint32]bool{}
	for _, x := range ms {
		if !x.have {
			continue
		}
		var ts []time.Duration
		for k := range x.wr {
			w := x.wr[k]
			if w.F.Typ != tLnkReq {
				continue
			}
			e.Count("linktests")
			ts = append(ts, w.At0)
			if sys[w.F.Sys] {
				e.Bad("H14,H15", "a linktest reuses system bytes", "%v", w.F)
			}
			sys[w.F.Sys] = true
		}
		if lt == 0 {
			if len(ts) > 0 {
				e.Bad("H14", "linktests are sent although they are switched off", "connection %d", x.pc.id)
			}
			continue
		}
		tol := 2*e.Tol + 10*time.Millisecond
		for i := range ts {
			for j := i + 1; j < len(ts); j++ {
				if time.Duration(j-i-1)*lt > ts[j]-ts[i]+tol {
					e.Bad("H14", "linktests more often than configured", "connection %d: %d linktests from %v to %v, interval %v", x.pc.id, j-i+1, ts[i], ts[j], lt)
				}
			}
			if i > 0 && prompt && l.e.W.Stats["write_block"] == 0 && l.e.W.Stats["freeze"] == 0 && ts[i]-ts[i-1] < lt-tol {
				e.Bad("H14", "linktests more often than configured", "connection %d: linktests at %v and %v, interval %v", x.pc.id, ts[i-1], ts[i], lt)
			}
		}
		// regularity while the connection is up
		if x.unsure || l.e.W.Stats["write_block"] > 0 || l.e.W.Stats["freeze"] > 0 {
			continue
		}
		start := x.t0
		if l.active {
			start = never
			for _, v := range x.evs {
				if v.kind == "sel" && v.why == "select.rsp" {
					start = v.at
				}
			}
		}
		if start == never {
			continue
		}
		end := x.endAt
		if end == never {
			end = simrt.Now()
		}
		for _, t := range l.tog {
			if !t.On && t.At < end {
				end = t.At
			}
		}
		for _, v := range x.evs {
			if v.kind == "end" && v.at < end {
				end = v.at
			}
		}
		prev := start - lt
		for i := 0; i <= len(ts); i++ {
			at := end
			if i < len(ts) {
				at = ts[i]
			}
			if at > end {
				at = end
			}
			lim := prev + lt + e.Tol + 50*time.Millisecond
			if !prompt {
				lim += t6
			}
			if at > lim {
				e.Bad("H14", "a linktest is overdue", "connection %d: none between %v and %v, interval %v", x.pc.id, prev, at, lt)
			}
			prev = at
		}
	}
}

// checkDials: the reconnection policy of an active endpoint.
func (l *HLab) checkDials(ms []*lconn) {
	e := l.e
	if !l.active {
		return
	}
	var ds []*snet.DialRec
	for _, d := range e.W.Dials {
		if d.G == l.g {
			ds = append(ds, d)
		}
	}
	base, max := e.P.C("rbase"), e.P.C("rcap")
	t5 := secs(e.P.C("t5"))
	rmax := int(e.P.C("rmax"))
	auto := e.P.C("auto") != 0
	backoff := func(n int) time.Duration {
		v := base
		for i := 1; i < n && v < max; i++ {
			v *= 2
		}
		if v > max {
			v = max
		}
		return secs(v)
	}
	sutEndAt := func(d *snet.DialRec) (time.Duration, bool) {
		c := d.Link.C
		if c.GoneAt != 0 && (!c.IsClosed() || c.GoneAt < c.ClosedAt) {
			return c.GoneAt, true
		}
		if c.IsClosed() {
			return c.ClosedAt, true
		}
		return simrt.Now(), false
	}
	togBetween := func(a, b time.Duration) bool {
		for _, t := range l.tog {
			end := t.End
			if !t.Done {
				end = simrt.Now()
			}
			if t.At <= b && end >= a {
				return true
			}
		}
		return false
	}
	// fuzzy: re-enabled since the last success, so that an earlier attempt series may still
	// run before the new one starts.
	fails, must, may, fuzzy := 0, false, false, false
	// most: the failures in a row if no doubtful re-enabling counted as one.
	most := 0
	ti, on, doubt := 0, false, false
	for i, d := range ds {
		reset, unsure := false, false
		for ti < len(l.tog) && l.tog[ti].At <= d.At {
			t := l.tog[ti]
			if ti > 0 && (t.On != on || doubt || l.overlaps(t)) {
				reset = true
				unsure = unsure || doubt || l.overlaps(t)
			}
			doubt = l.overlaps(t)
			on = t.On
			ti++
		}
		if reset {
			fails, must, fuzzy = 0, false, true
			if !unsure {
				may, most = false, 0
			}
		}
		if i > 0 {
			p := ds[i-1]
			pend := p.End
			if p.Outcome == "" {
				e.Bad("H09", "two connection attempts at once", "dials at %v and %v", p.At, d.At)
				continue
			}
			if p.Outcome == "ok" {
				t, closed := sutEndAt(p)
				if !closed || t > d.At {
					e.Bad("H09", "a connection attempt while a connection is up", "connection from %v, dial at %v", p.End, d.At)
					continue
				}
				pend = t
			}
			if must && !togBetween(p.At-e.Tol, d.At) {
				e.Bad("H09", "a dial after the endpoint had to give up", "dial at %v", d.At)
			}
			if !reset && !togBetween(pend, d.At) {
				lim := e.Tol + 50*time.Millisecond
				switch {
				case p.Outcome == "ok":
					if d.At < pend+t5 {
						e.Bad("H09", "redialled sooner than T5 after the end of a connection", "ended %v, dial %v, T5 %v", pend, d.At, t5)
					}
					if d.At > pend+t5+lim {
						e.Bad("H09", "redialled late after the end of a connection", "ended %v, dial %v, T5 %v", pend, d.At, t5)
					}
				case fuzzy:
					if w := backoff(64); d.At > pend+w+lim {
						e.Bad("H09", "redialled later than the backoff delay", "failure ended %v, dial %v, longest delay %v", pend, d.At, w)
					}
				default:
					w := backoff(fails)
					if d.At < pend+w {
						e.Bad("H09", "redialled sooner than the backoff delay", "failure %d ended %v, dial %v, delay %v", fails, pend, d.At, w)
					}
					if d.At > pend+w+lim {
						e.Bad("H09", "redialled later than the backoff delay", "failure %d ended %v, dial %v, delay %v", fails, pend, d.At, w)
					}
				}
				e.Count("redials")
			}
		}
		switch d.Outcome {
		case "ok":
			fails, most, fuzzy, may = 0, 0, false, false
			if !auto {
				must, may = true, true
			}
		case "refused", "timeout":
			fails++
			most++
			e.Count("failed_dials")
			lim := rmax
			if fuzzy {
				lim = rmax + 1
			}
			if !auto {
				may = true
				must = !fuzzy || fails > 1
			}
			if rmax > 0 {
				may = may || most > rmax
				must = must || fails > lim
			}
			if must {
				e.Count("gave_up")
			}
		}
	}
	// it keeps trying
	if len(ds) > 0 && !may && l.lastToggle() && l.sureToggle() {
		p := ds[len(ds)-1]
		if p.Outcome != "" {
			w := backoff(64)
			pend := p.End
			up := false
			if p.Outcome == "ok" {
				t, closed := sutEndAt(p)
				pend, w, up = t, t5, !closed
			}
			for _, t := range l.tog {
				if t.Done && t.End > pend {
					pend = t.End
					if w < t5 {
						w = t5
					}
				}
			}
			if !up && l.pending == 0 && simrt.Now() > pend+w+e.Tol+100*time.Millisecond {
				e.Bad("H09,H08", "the endpoint stopped dialling", "last attempt ended %v, delay %v, now %v", pend, w, simrt.Now())
			}
		}
	}
	if len(ds) == 0 && l.lastToggle() && l.sureToggle() && l.pending == 0 && simrt.Now() > l.tog[len(l.tog)-1].End+e.Tol+100*time.Millisecond {
		e.Bad("H09,H12", "an enabled endpoint never dialled", "")
	}
}

// sureToggle tells whether no toggle overlapped the last one.
func (l *HLab) sureToggle() bool { return len(l.tog) > 0 && !l.overlaps(l.tog[len(l.tog)-1]) }

// lastToggle tells whether the last toggle (by start) was an Enable.
func (l *HLab) lastToggle() bool { return len(l.tog) > 0 && l.tog[len(l.tog)-1].On }

// overlaps tells whether another toggle ran while t did.
func (l *HLab) overlaps(t *Toggle) bool {
	for _, o := range l.tog {
		if o != t && o.Seq < t.Seq1 && (!o.Done || o.Seq1 > t.Seq) {
			return true
		}
	}
	return false
}

// checkDisable: what holds after each Disable call that returned undisturbed.
func (l *HLab) checkDisable(ms []*lconn) {
	e := l.e
	for i, t := range l.tog {
		if t.On || !t.Done || l.overlaps(t) {
			continue
		}
		var nextAt time.Duration = 1 << 62
		nextSeq := int64(1) << 62
		for _, o := range l.tog[i+1:] {
			if o.On {
				nextAt, nextSeq = o.At, o.Seq
				break
			}
		}
		was := false
		for _, o := range l.tog[:i] {
			was = o.On
		}
		if !was {
			continue
		}
		e.Count("disables_judged")
		for _, p := range l.polls {
			if p.Seq <= t.Seq1 || p.Seq0 <= t.Seq1 || p.Seq >= nextSeq {
				continue
			}
			if p.Conn {
				e.Bad("H12", "a disabled endpoint reports itself connected", "disable returned %v, poll %v", t.End, p.At)
			}
			if p.State != hsms.StateNotConnected {
				e.Bad("H12", "a disabled endpoint does not report NOT-CONNECTED", "disable returned %v, poll %v: %s", t.End, p.At, p.State)
			}
		}
		for _, d := range e.W.Dials {
			if d.G == l.g && d.At > t.End+e.Tol && d.At < nextAt && d.Seq < nextSeq {
				e.Bad("H12,H09", "a dial by a disabled endpoint", "disable returned %v, dial %v", t.End, d.At)
			}
		}
		for _, x := range ms {
			if !x.have {
				continue
			}
			closed := x.sut.IsClosed()
			if x.seq0 < t.Seq1 && x.t0 <= t.End && !(closed && x.sut.ClosedSeq < t.Seq1) {
				// opened before the disable returned: it must be closed by then, or at once if
				// it was just being established
				grace := t.End + e.Tol
				// (enabled again meanwhile, the endpoint may as well keep a dial that was under way)
				if nextAt > grace && (!closed && simrt.Now() > grace || closed && x.sut.ClosedAt > grace) {
					e.Bad("H12", "a connection stays open after Disable", "connection %d from %v, disable returned %v, closed=%v %v", x.pc.id, x.t0, t.End, closed, x.sut.ClosedAt)
				}
				// (it may just have been found dead, and the task that closes it been held up)
				held := e.Tol%(30*time.Millisecond) != 0 && closed && x.sut.ClosedAt <= grace
				if x.t0 < t.At-e.Tol && !held {
					e.Bad("H12", "a connection is open when Disable returns", "connection %d from %v, disable %v..%v, closed=%v %v", x.pc.id, x.t0, t.At, t.End, closed, x.sut.ClosedAt)
				}
			}
			if x.t0 > t.End && x.seq0 < nextSeq && x.t0+e.Tol < nextAt {
				if !closed && simrt.Now() > x.t0+e.Tol || closed && x.sut.ClosedAt > x.t0+e.Tol {
					e.Bad("H12", "a disabled endpoint keeps a connection", "connection %d from %v, disable returned %v", x.pc.id, x.t0, t.End)
				}
				for k := range x.wr {
					e.Bad("H12", "a disabled endpoint talks on a new connection", "connection %d: %v", x.pc.id, x.wr[k].F)
				}
			}
		}
		for _, ln := range e.W.Lsns {
			if ln.G != l.g || ln.At >= nextAt {
				continue
			}
			if ln.At <= t.End+e.Tol && (ln.ClosedAt < 0 && simrt.Now() > t.End+e.Tol || ln.ClosedAt > t.End+e.Tol) && nextAt > t.End+e.Tol {
				if ln.At < t.End {
					e.Bad("H12", "a listener stays open after Disable", "opened %v, disable returned %v, closed %v", ln.At, t.End, ln.ClosedAt)
				}
			}
			if ln.At > t.End+e.Tol {
				e.Bad("H12", "a disabled endpoint opens a listener", "disable returned %v, listen %v", t.End, ln.At)
			}
		}
		for _, h := range l.hrecs {
			if h.Seq < t.Seq1 || h.Seq > nextSeq {
				continue
			}
			q := l.peerQ[h.Tok]
			if q == nil {
				continue
			}
			for _, x := range ms {
				if x.pc != q.PC {
					continue
				}
				for k := range x.pw {
					if x.pw[k].F.Sys == q.F.Sys && x.pw[k].F.Typ == tData {
						if _, s, ok := x.arr(k); ok && s > t.Seq1 {
							e.Bad("H12", "a handler ran for data received after Disable", "%s", h.Tok)
						}
					}
				}
			}
		}
	}
}

// checkGate: data flows only while selected.
func (l *HLab) checkGate(ms []*lconn) {
	e := l.e
	type win struct{ a, b int64 } // by sequence: surely not selected outside
	var wins []win
	sess := l.sess
	sessUnsure := false
	for _, x := range ms {
		if !x.have {
			continue
		}
		open := int64(-1)
		closeWin := func(b int64) {
			if open >= 0 {
				wins = append(wins, win{open, b})
				open = -1
			}
		}
		endSeq := int64(1) << 62
		if x.sut.IsClosed() {
			endSeq = x.sut.ClosedSeq
		}
		firstSel := int64(-1)
		var des []mev
		for _, v := range x.evs {
			switch v.kind {
			case "sel":
				if open < 0 {
					open = v.seq
					if firstSel < 0 {
						firstSel = v.seq
					}
				}
			case "desel":
				// the state changes some time after the arrival; the response marks it
				b := int64(1) << 62
				for i := range x.fr {
					if x.fr[i].k == v.k && len(x.fr[i].answer) > 0 {
						b = x.wr[x.fr[i].answer[0]].Seq1
					}
				}
				des = append(des, v)
				if b == int64(1)<<62 {
					b = endSeq
				}
				closeWin(b)
			}
		}
		closeWin(endSeq)
		for k := range x.wr {
			w := x.wr[k]
			if w.F.Typ != tData || w.F.PType != 0 {
				continue
			}
			e.Count("data_on_wire")
			if !x.unsure && (firstSel < 0 || w.Seq0 < firstSel) {
				e.Bad("H04", "a data message was sent on a connection before it was selected", "connection %d: %v", x.pc.id, w.F)
			}
		}
		if x.unsure || l.sessMaybe {
			sessUnsure = true
		}
		// the session in use
		adopted := int64(-1)
		for i := range x.fr {
			fr := &x.fr[i]
			if fr.want == tSelRsp && len(fr.answer) > 0 && fr.sessOK && fr.f.Sess != 0xffff && (sess == 0 || sess == 0xffff) {
				sess = fr.f.Sess
				adopted = x.wr[fr.answer[0]].Seq1
				e.Count("session_adopted")
			}
		}
		for k := range x.wr {
			w := x.wr[k]
			if w.F.Typ != tData || w.F.PType != 0 || sessUnsure {
				continue
			}
			if w.Seq0 > adopted && w.F.Sess != sess && !l.sendInFlight(w, adopted) {
				e.Bad("H04", "a data message carries another session than the one in use", "connection %d: %v, session in use %04x", x.pc.id, w.F, sess)
			}
		}
	}
	calls := l.calls
	for _, h := range l.hrecs {
		if h.Late != nil {
			calls = append(calls, h.Late)
		}
	}
	for _, c := range calls {
		if !c.Done {
			continue
		}
		sel := false
		unsure := false
		for _, w := range wins {
			if w.a <= c.Q1 && c.Q0 <= w.b {
				sel = true
			}
		}
		for _, x := range ms {
			if x.unsure {
				unsure = true
			}
			// after the window the state change may lag behind the response by a little
			for _, v := range x.evs {
				if v.kind == "desel" && c.Start < v.at+e.Tol+20*time.Millisecond && c.End >= v.at {
					sel = true
				}
			}
		}
		if sel || unsure {
			continue
		}
		e.Count("calls_while_not_selected")
		if c.Err == nil {
			e.Bad("H04", "a send succeeds while the connection is not selected", "%s %s at %v", c.Kind, c.Tok, c.Start)
		}
		for _, x := range ms {
			for k := range x.wr {
				if f := x.wr[k].F; f.Typ == tData && tokOf(f.Item()) == c.Tok {
					e.Bad("H04", "a data message was put on the wire while not selected", "connection %d: %v", x.pc.id, f)
				}
			}
		}
	}
	// replies that arrived while not selected reach nobody
	for _, c := range l.calls {
		if !c.Done || c.Kind != "req" || c.Err != nil {
			continue
		}
		n, bad := 0, 0
		for _, r := range l.replies {
			if r.Tok != fmt.Sprintf("q%d", c.ID) {
				continue
			}
			for _, x := range ms {
				if x.pc != r.PC || x.unsure {
					continue
				}
				for k := range x.pw {
					if f := x.pw[k].F; f.Typ == tData && f.Sys == r.F.Sys && f.F() == r.F.F() && f.F()%2 == 0 {
						n++
						if l.selectedAt(x.conn, k) < 0 {
							bad++
						}
					}
				}
			}
		}
		if n > 0 && n == bad {
			e.Bad("H04", "a reply received while not selected reached its caller", "q%d", c.ID)
		}
	}
}

// sendInFlight tells whether the message belongs to a call begun before the session was adopted.
func (l *HLab) sendInFlight(w WF, adopted int64) bool {
	tok := tokOf(w.F.Item())
	for _, c := range l.calls {
		if tok == c.Tok && c.Q0 < adopted {
			return true
		}
	}
	for _, h := range l.hrecs {
		if h.Late != nil && h.Late.Tok == tok && h.Late.Q0 < adopted {
			return true
		}
	}
	return w.F.S() == 9 // error messages name older requests
}

// heal removes every fault and lets a correct peer appear.
func (l *HLab) heal() {
	e := l.e
	l.healed = true
	l.script = nil
	l.noAnswer = false
	l.model()
	for _, x := range l.pcs {
		for _, t := range x.TX {
			if l.wild() && t.F.Typ == tSelReq && t.F.Sess != 0xffff && t.F.Sess != l.psess {
				l.sessMaybe = true // it may still be under way
			}
		}
	}
	if l.sessMaybe {
		l.psess = 0xffff
	} else if l.wild() && l.inUse != 0 && l.inUse != 0xffff {
		l.psess = l.inUse // what an earlier select made the endpoint's session
	}
	for _, k := range []string{"sel.mode", "sel.delay", "lt.mode", "lt.delay", "des.status"} {
		e.P.Cfg[k] = 0
	}
	for k := range e.P.Cfg {
		if len(k) > 9 && k[:9] == "sel.mode." {
			delete(e.P.Cfg, k)
		}
		if len(k) > 9 && k[:9] == "stopread." {
			delete(e.P.Cfg, k)
		}
	}
	e.W.Refuse = map[string]bool{}
	e.W.Blackhole = map[string]bool{}
	for _, x := range l.pcs {
		x.stopRead = false
		x.Link.Thaw(true)
		x.Link.Thaw(false)
	}
}

// reachable lets an active endpoint find a listening peer.
func (l *HLab) reachable() {
	l.e.W.Refuse = map[string]bool{}
	l.e.W.Blackhole = map[string]bool{}
	if l.active {
		l.listen()
	}
}

// service requires that the endpoint serves a correct peer within the bound: selected,
// a request in each direction answered.
func (l *HLab) service(ids string, bound time.Duration) bool {
	e := l.e
	l.heal()
	if l.active {
		l.listen()
	} else {
		l.autoDial = false
		for _, x := range l.pcs { // the misbehaving connections go away
			x.close()
		}
		simrt.GoIn(l.pg, "peer-service", func() {
			for i := 0; i < 4000 && !l.served; i++ {
				if l.cur() == nil {
					if n := l.dial(1); n != nil {
						n.send(ctl(tSelReq, l.psess, 0, 0, n.next()))
					}
				}
				simrt.Sleep(50 * time.Millisecond)
			}
		})
	}
	start := simrt.Now()
	why := "not selected"
	ok := false
	for simrt.Now() < start+bound {
		simrt.Sleep(25 * time.Millisecond)
		pc := l.selPC()
		if pc == nil || l.state() != hsms.StateConnectedSelected {
			continue
		}
		// a request in each direction
		why = "selected, but no exchange"
		n := l.echoN
		l.echoN++
		o := Op{K: "req", A: 0, I: 1000000 + int64(n), D: 1, C: 2}
		l.extra = append(l.extra, o)
		c := l.echoCall(&o)
		po := &Op{K: "prim", A: 0, B: 0, D: 1, I: 2000000 + int64(n), S: "w"}
		nh := len(l.hrecs)
		l.sendPrim(pc, po)
		tok := fmt.Sprintf("p%d", po.I)
		lim := simrt.Now() + secs(e.P.C("t3")) + e.Tol + time.Second
		got := false
		for simrt.Now() < lim && !(c.Done && got) {
			simrt.Sleep(10 * time.Millisecond)
			for _, h := range l.hrecs[nh:] {
				if h.Tok == tok {
					got = true
				}
			}
		}
		rep := false
		for _, rx := range pc.RX {
			if rx.F.Typ == tData && tokOf(rx.F.Item()) == "r:"+tok {
				rep = true
			}
		}
		if c.Done && c.Err == nil && got && rep {
			ok = true
			break
		}
		why = fmt.Sprintf("selected, but call done=%v err=%v, handler ran=%v, reply=%v", c.Done, c.Err, got, rep)
	}
	l.served = true
	if !ok {
		e.Bad(ids, "the endpoint does not serve a correct peer after the faults ended", "%s; state %s, %v after the faults ended; tasks %v", why, l.state(), simrt.Now()-start, simrt.Live(l.g))
	} else {
		e.Count("served_after_faults")
		e.CountN("recovery_ms", int64((simrt.Now()-start)/time.Millisecond))
	}
	return ok
}

// echoCall is appCall for a step that is not in the plan.
func (l *HLab) echoCall(o *Op) *Call {
	l.appCall(o, false)
	return l.calls[len(l.calls)-1]
}

// quiet requires that a disabled endpoint ends its tasks.
func (l *HLab) quiet(bound time.Duration) {
	e := l.e
	start := simrt.Now()
	var live []simrt.LiveTask
	for simrt.Now() < start+bound {
		live = simrt.Live(l.g)
		if len(live) == 0 {
			break
		}
		simrt.Sleep(50 * time.Millisecond)
	}
	if len(live) > 0 {
		e.Bad("H12,H07", "background tasks of a disabled endpoint do not end: "+taskKinds(live), "%v after Disable: %v", simrt.Now()-start, live)
	}
	for _, x := range l.pcs {
		if c := sutEnd(x); (l.active || x.Link.Accepted) && !c.IsClosed() {
			e.Bad("H12", "a connection of a disabled endpoint is open", "connection %d", x.id)
		}
	}
	e.Count("quiet_checked")
}

func taskKinds(live []simrt.LiveTask) string {
	if len(live) == 0 {
		return ""
	}
	return numRe.ReplaceAllString(live[0].Created, "N") + " (" + numRe.ReplaceAllString(live[0].Why, "N") + ")"
}
