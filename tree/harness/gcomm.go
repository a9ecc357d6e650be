package main

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// tick is how often a handler looks after its connection.
const tick = 500 * time.Millisecond

// exch is an accepted S1F13/S1F14 exchange: communication may be established from start on
// and, if must, has to be by acc.
type exch struct {
	c     *gconn
	start stamp
	acc   time.Duration
	begun time.Duration // when it was asked for
	must  bool
}

// commAck reads the acknowledge code of an S1F14; malformed ones have none.
func commAck(f *hf) (int, bool) {
	if f == nil || f.It == nil || f.It.F != fList || len(f.It.L) == 0 {
		return 0, false
	}
	a := f.It.L[0]
	if a == nil || a.F != fBin || len(a.D) == 0 {
		return 0, false
	}
	return int(a.D[0]), true
}

func isSF(f *hf, s, fn int) bool { return f.F.Typ == tData && f.F.S() == s && f.F.F() == fn }

// try is one attempt of the endpoint to establish communication.
type try struct {
	o         *hf
	rep       *hf
	ok        bool // accepted
	min, max  time.Duration
	ambiguous bool
}

// tries lists the S1F13 the endpoint sent on a connection and what became of them.
func (s *gsite) tries(c *gconn) []*try {
	var out []*try
	tol := s.e.Tol
	for _, o := range c.out {
		if !isSF(o, 1, 13) || !o.F.W() {
			continue
		}
		t := &try{o: o, min: o.At + s.t3 - tol, max: o.At + s.t3 + tol}
		for _, r := range c.in {
			if r.F.Typ == tData && r.F.Sys == o.F.Sys && r.F.F()%2 == 0 && r.Seq > o.Seq {
				if r.At <= o.At+s.t3+tol {
					t.rep = r
				}
				break
			}
		}
		if r := t.rep; r != nil {
			t.ambiguous = r.At >= o.At+s.t3-tol
			if k, wf := commAck(r); wf && k == 0 && isSF(r, 1, 14) {
				t.ok = true
			}
			if r.At < t.min {
				t.min = r.At
			}
			if !t.ambiguous {
				t.max = r.At + tol
			}
		}
		out = append(out, t)
	}
	return out
}

func (s *gsite) exchanges(reqs []*greq) []*exch {
	var xs []*exch
	tol := s.e.Tol
	for _, c := range s.cs {
		if c.selAt == never {
			continue
		}
		own := map[*hf]bool{}
		for _, t := range s.tries(c) {
			if t.ok {
				own[t.rep] = true
				xs = append(xs, &exch{c: c, start: stamp{t.rep.At, t.rep.Seq}, acc: t.rep.At, begun: t.o.At, must: !t.ambiguous && t.o.At > c.selAt+tol})
			}
		}
		for _, f := range c.in {
			if isSF(f, 1, 14) && !own[f] {
				if k, ok := commAck(f); ok && k == 0 {
					xs = append(xs, &exch{c: c, start: stamp{f.At, f.Seq}})
				}
			}
		}
	}
	for _, q := range reqs {
		if q.sf != [2]int{1, 13} {
			continue
		}
		x := &exch{c: q.c, start: stamp{q.f.At, q.f.Seq}}
		if k, ok := commAck(q.rep); ok && k == 0 && isSF(q.rep, 1, 14) {
			x.must, x.acc, x.begun = true, q.rep.At, q.f.At
		}
		xs = append(xs, x)
	}
	sort.SliceStable(xs, func(i, j int) bool { return xs[i].start.Seq < xs[j].start.Seq })
	return xs
}

// ident is what the endpoint says it is.
func (s *gsite) ident() *Item {
	if s.host {
		return L()
	}
	return L(A(s.mdln), A(s.softrev))
}

// introduces tells whether an S1F14 accepts and says who answers.
func (s *gsite) introduces(it *Item) bool {
	return it != nil && it.F == fList && len(it.L) == 2 && enc(it.L[0]) == enc(B(0)) && enc(it.L[1]) == enc(s.ident())
}

// gone is when the handler must have left the communication established on the connection.
func (s *gsite) gone(c *gconn) time.Duration {
	if c.lost == never {
		return never
	}
	t := c.lost + tick + s.e.Tol
	for _, d := range s.tog {
		if c.endedBy(d) && d.Done && d.End < t && !s.overlapped(d) {
			t = d.End
		}
	}
	return t
}

func (s *gsite) overlapped(d *Toggle) bool {
	for _, o := range s.tog {
		if o != d && o.Seq < d.Seq1 && (!o.Done || o.Seq1 > d.Seq) {
			return true
		}
	}
	return false
}

// mustComm tells whether communication must be established throughout [a,b].
func (s *gsite) mustComm(xs []*exch, a, b time.Duration) *exch {
	for _, x := range xs {
		if x.must && x.acc+s.e.Tol <= a && (x.c.lost == never || x.c.lost > b) && x.c.keptSelected(x.begun, b, s.e.Tol) {
			return x
		}
	}
	return nil
}

// keptSelected tells whether the connection was selected throughout [a,b], given that it
// was selected at some time before a and lasted beyond b.
func (c *gconn) keptSelected(a, b, tol time.Duration) bool {
	sel := true
	for _, f := range c.in {
		switch {
		case f.F.Typ == tDesReq && f.At <= b:
			sel = false
		case f.F.Typ == tSelReq && f.At+tol < a:
			sel = true
		}
	}
	return sel
}

// mayComm tells whether communication can have been established at some time from a to q1.
func (s *gsite) mayComm(xs []*exch, q1 int64, a time.Duration) bool {
	for _, x := range xs {
		if g := s.gone(x.c); x.start.Seq <= q1 && (g == never || g >= a) {
			return true
		}
	}
	return false
}

func (s *gsite) checkComm(reqs []*greq) {
	e := s.e
	tol := e.Tol
	xs := s.exchanges(reqs)
	ids := "G01"
	mayAt := func(q1 int64, a time.Duration) bool { return s.mayComm(xs, q1, a) }
	for _, x := range xs {
		e.Count("accepted_exchanges")
		if x.must {
			e.Count("establishments_judged")
		}
	}
	for _, p := range s.polls {
		if p.comm == gem.CommunicationStateCommunicating {
			if !mayAt(p.Q1, p.At0) {
				e.Bad("G01", "communicating without an accepted exchange on a live connection", "%s at %v", s.name, p.At)
			}
		} else if x := s.mustComm(xs, p.At0, p.At); x != nil {
			e.Bad("G01,G02", "not communicating although established", "%s reports state %d at %v; accepted at %v on connection %d", s.name, p.comm, p.At, x.acc, x.c.id)
		}
	}
	for _, x := range s.ops {
		if x.kind != "trig" && x.kind != "alarm" || !x.done {
			continue
		}
		if x.err == nil && !mayAt(x.Q1, x.At) {
			e.Bad("G01", "a call goes ahead although communication is not established", "%s at %v until %v", x.kind, x.At, x.End)
		} else if x.err == nil {
			e.Count("calls_while_communicating")
		} else if w := s.mustComm(xs, x.At, x.End); w != nil && errors.Is(x.err, gem.ErrNotCommunicating) {
			e.Bad("G01", "a call is refused as not communicating while communication is established", "%s at %v; established at %v on connection %d", x.kind, x.At, w.acc, w.c.id)
		}
	}
	for _, q := range reqs {
		if q.sf != [2]int{1, 13} || !q.w || !q.live {
			continue
		}
		e.Count("peer_attempts_judged")
		if q.rep == nil || !isSF(q.rep, 1, 14) {
			e.Bad(ids, "an attempt of the peer to establish communication is not answered", "%s %s: %v", s.name, q, firstOf(q.rep, q.s9))
		} else if k, ok := commAck(q.rep); !ok || k != 0 || !s.introduces(q.rep.It) {
			e.Bad(ids, "an attempt of the peer to establish communication is answered wrongly", "%s %s: %v", s.name, q, q.rep.It)
		}
	}
	for _, c := range s.cs {
		for _, o := range c.out {
			if isSF(o, 1, 13) && (!o.F.W() || !(o.It != nil && o.It.F == fList && len(o.It.L) == 0) && (s.host || enc(o.It) != enc(s.ident()))) {
				e.Bad(ids, "a request to establish communication is ill-formed", "%s %v", s.name, o.It)
			}
		}
	}
	// one callback per establishment
	used := map[*gconn]bool{}
	first := map[*gconn]*exch{}
	for _, x := range xs {
		if first[x.c] == nil {
			first[x.c] = x
		}
	}
	for i, ev := range s.comm {
		var best *gconn
		any := false
		for _, c := range s.cs {
			x := first[c]
			if x == nil || x.start.Seq > ev.Seq || (c.lost != never && s.gone(c)+tol < ev.At) {
				continue
			}
			any = true
			if !used[c] && (best == nil || c.lost != never && (best.lost == never || c.lost < best.lost)) {
				best = c
			}
		}
		if best == nil {
			cl := "callback without an establishment"
			if any {
				cl = "second callback for one establishment"
			}
			e.Bad(ids, cl, "%s event %d at %v", s.name, i, ev.At)
			return
		}
		used[best] = true
	}
	for _, c := range s.cs {
		for _, x := range xs {
			if x.c != c || !x.must || (c.lost != never && c.lost <= x.acc+tol) || s.endAt <= x.acc+tol {
				continue
			}
			found := false
			for _, ev := range s.comm {
				if ev.Seq >= first[c].start.Seq && ev.At <= x.acc+tol {
					found = true
				}
			}
			if !found {
				e.Bad(ids, "establishment without a callback", "%s accepted at %v on connection %d", s.name, x.acc, c.id)
			}
			break
		}
	}
	for _, x := range s.ops {
		if x.kind == "wait" {
			s.checkWait(x, xs, mayAt)
		}
	}
	if e.Prop == "G02" {
		s.checkRetries(xs)
	}
}

func (s *gsite) checkWait(x *gop, xs []*exch, mayAt func(int64, time.Duration) bool) {
	e := s.e
	tol := e.Tol
	d := ms(x.o.B)
	end, q1 := x.End, x.Q1
	if !x.done {
		end, q1 = s.endAt, s.endSeq
	}
	e.Count("waits_judged")
	for _, y := range xs {
		if !y.must {
			continue
		}
		from := maxD(y.acc+tol, x.At)
		to := end
		if y.c.lost != never && y.c.lost < to {
			to = y.c.lost
		}
		if to-from > tol {
			e.Bad("G01", "a caller waiting for communication is not released", "%s wait %v from %v until %v (done %v); accepted at %v", s.name, d, x.At, end, x.done, y.acc)
			return
		}
	}
	switch {
	case x.done && x.ok:
		if !mayAt(q1, x.At) {
			e.Bad("G01", "a caller is told of communication that is not established", "%s wait %v..%v", s.name, x.At, x.End)
		}
	case x.done:
		if d == 0 || x.End < x.At+d || x.End > x.At+d+tol {
			e.Bad("G01", "a wait for communication ends at the wrong time", "%s wait %v from %v until %v", s.name, d, x.At, x.End)
		}
	case d > 0 && s.endAt > x.At+d+tol:
		e.Bad("G01", "a wait for communication does not end", "%s wait %v from %v", s.name, d, x.At)
	}
}

// begunBefore: an attempt at an instant may have been begun for a connection lost just before,
// so that the one begun for the connection itself comes next to it.
func (s *gsite) begunBefore(c *gconn, at time.Duration) bool {
	for _, p := range s.cs {
		if p != c && p.selAt != never && p.t0 < c.t0 && p.lost != never && p.lost >= at-s.e.Tol {
			return true
		}
	}
	return false
}

// checkRetries: when attempts to establish communication are made.
func (s *gsite) checkRetries(xs []*exch) {
	e := s.e
	tol := e.Tol
	for _, c := range s.cs {
		if c.selAt == never {
			continue
		}
		may := never
		for _, x := range xs {
			if x.c != c {
				continue
			}
			if may == never || x.start.At < may {
				may = x.start.At
			}
		}
		desel, resel := never, never
		for _, f := range c.in {
			switch {
			case f.F.Typ == tDesReq:
				resel = never
				if desel == never {
					desel = f.At
				}
			case f.F.Typ == tSelReq && desel != never:
				resel = f.At
			}
		}
		over := func(by time.Duration) bool { // nothing is due by then
			return desel != never && desel <= by+tol || may != never && may <= by || c.lost != never && c.lost <= by || s.endAt <= by
		}
		ts := s.tries(c)
		if by := resel + s.t3 + s.ew + tick + 2*tol; resel != never && !(may != never && may <= by || c.lost != never && c.lost <= by || s.endAt <= by) {
			anew := false
			for _, t := range ts {
				anew = anew || t.o.At >= resel-tol && t.o.At <= by
			}
			e.Count("selected_anew")
			if !anew {
				e.Bad("G02", "establishment is not attempted on a connection selected anew", "%s connection %d: deselected at %v, selected at %v", s.name, c.id, desel, resel)
			}
		}
		if by := c.selAt + tick + tol; (len(ts) == 0 || ts[0].o.At > by) && !over(by) {
			e.Bad("G02", "establishment is not attempted", "%s connection %d selected at %v", s.name, c.id, c.selAt)
		}
		for i, t := range ts {
			e.Count("attempts_judged")
			for _, x := range xs {
				if x.c != c || !x.must || t.o.At <= x.acc+tol || !c.keptSelected(x.begun, t.o.At, tol) {
					continue
				}
				e.Bad("G02", "an attempt although communication is established", "%s connection %d: S1F13 at %v, established at %v", s.name, c.id, t.o.At, x.acc)
			}
			if t.ok && !t.ambiguous {
				continue
			}
			if i+1 < len(ts) && ts[i+1].o.At < t.min+s.ew && !(desel != never && desel <= ts[i+1].o.At+tol) && !s.begunBefore(c, t.o.At) {
				e.Bad("G02", "the next attempt comes too soon", "%s connection %d: S1F13 at %v failed at %v, next at %v, delay %v", s.name, c.id, t.o.At, t.min, ts[i+1].o.At, s.ew)
			}
			from := t.max
			for _, f := range c.in {
				if isSF(f, 1, 14) && f.At > from && (i+1 >= len(ts) || f.At < ts[i+1].o.At) {
					from = f.At
				}
			}
			if by := from + s.ew + tick + tol; (i+1 >= len(ts) || ts[i+1].o.At > by) && !over(by) {
				e.Bad("G02", "a failed attempt is not repeated", "%s connection %d: S1F13 at %v failed by %v, delay %v", s.name, c.id, t.o.At, from, s.ew)
			} else if i+1 < len(ts) {
				e.Count("retries_judged")
			}
		}
	}
}

// ---- control state

type cmodel struct {
	k    int
	st   gem.ControlState
	mode gem.OnlineControlMode
	att  int // the attempt that is waited for (0: not begun)
}

func online(st gem.ControlState) bool {
	return st == gem.ControlStateOnline || st == gem.ControlStateOnlineLocal || st == gem.ControlStateOnlineRemote
}

func (s *gsite) checkControl(reqs []*greq) {
	if s.host {
		return
	}
	e := s.e
	tol := e.Tol
	want := gem.ControlStateEquipmentOffline
	if e.P.C("ctl0") == 2 {
		want = gem.ControlStateHostOffline
	}
	if s.init != want {
		e.Bad("G03", "the initial control state is wrong", "%s is %s at first, configured %d", s.name, s.init, e.P.C("ctl0"))
	}
	prev := s.init
	for i, c := range s.chain {
		if c.prev != prev {
			e.Bad("G03", "the change events form no chain", "%s event %d at %v is %s -> %s after %s", s.name, i, c.At, c.prev, c.cur, prev)
			return
		}
		if c.cur == c.prev {
			e.Bad("G03", "a change event without a change", "%s event %d at %v is %s -> %s", s.name, i, c.At, c.prev, c.cur)
			return
		}
		prev = c.cur
		out := s.endAt
		if i+1 < len(s.chain) {
			out = s.chain[i+1].At
		}
		if c.cur == gem.ControlStateAttemptOnline && out > c.At+s.t3+2*tol+s.slack() {
			e.Bad("G03", "an attempt to go online does not end", "%s from %v until %v", s.name, c.At, out)
			return
		}
	}
	xs := s.exchanges(reqs)
	var ops []lop[cmodel]
	// move is a change of state caused in [inv, by]
	move := func(m cmodel, to gem.ControlState, inv int64, by time.Duration) (cmodel, bool) {
		if m.st == to {
			return m, true
		}
		if m.k >= len(s.chain) {
			// at the very end the event may not have been delivered
			m.st, m.att = to, 0
			return m, by+tol >= s.endAt
		}
		c := s.chain[m.k]
		if c.prev != m.st || c.cur != to || c.Seq < inv || c.At > by+tol {
			return m, false
		}
		if online(to) && c.mode != m.mode {
			return m, false
		}
		m.k++
		m.st = to
		m.att = 0
		return m, true
	}
	on := func(m cmodel) gem.ControlState {
		if m.mode == gem.OnlineModeLocal {
			return gem.ControlStateOnlineLocal
		}
		return gem.ControlStateOnlineRemote
	}
	for _, q := range reqs {
		q := q
		if q.sf != [2]int{1, 15} && q.sf != [2]int{1, 17} {
			continue
		}
		by := q.f.At + s.slack()
		if q.rep != nil {
			by = q.rep.At
		}
		code, has := ack(q.rep)
		if q.rep != nil && !has {
			e.Bad("G03", "a request for a control state is answered without a code", "%s: %v", q, q.rep.F)
			continue
		}
		o := lop[cmodel]{inv: q.inv, ret: q.ret, opt: q.rep == nil && !q.live, name: q.String()}
		if has {
			o.name += fmt.Sprintf(" answered %d", code)
		}
		if q.sf[1] == 15 {
			o.step = func(m cmodel) (cmodel, bool) {
				if has && code != 0 {
					return m, false
				}
				if online(m.st) {
					return move(m, gem.ControlStateHostOffline, q.inv, by)
				}
				return m, true
			}
		} else {
			o.step = func(m cmodel) (cmodel, bool) {
				want := 1
				n, ok := m, true
				switch {
				case m.st == gem.ControlStateHostOffline:
					want = 0
					n, ok = move(m, on(m), q.inv, by)
				case online(m.st):
					want = 2
				}
				return n, ok && (!has || code == want)
			}
		}
		ops = append(ops, o)
		e.Count("control_requests")
	}
	for _, x := range s.ops {
		x := x
		ret, by := x.Q1, x.End
		if !x.done {
			ret, by = s.endSeq, s.endAt
		}
		o := lop[cmodel]{inv: x.Q0, ret: ret, opt: !x.done, name: fmt.Sprintf("%s at %v -> %v", x.kind, x.At, x.err)}
		var f func(m cmodel) (cmodel, bool, bool) // state, legal, error
		switch x.kind {
		case "c-online":
			f = func(m cmodel) (cmodel, bool, bool) {
				switch m.st {
				case gem.ControlStateEquipmentOffline:
					n, ok := move(m, gem.ControlStateAttemptOnline, x.Q0, by)
					return n, ok, false
				case gem.ControlStateHostOffline:
					return m, true, true
				}
				return m, true, false
			}
		case "c-offline":
			f = func(m cmodel) (cmodel, bool, bool) {
				if online(m.st) {
					n, ok := move(m, gem.ControlStateEquipmentOffline, x.Q0, by)
					return n, ok, false
				}
				return m, true, false
			}
		case "c-local", "c-remote":
			mode := gem.OnlineModeLocal
			if x.kind == "c-remote" {
				mode = gem.OnlineModeRemote
			}
			f = func(m cmodel) (cmodel, bool, bool) {
				if !online(m.st) {
					return m, true, true
				}
				m.mode = mode
				n, ok := move(m, on(m), x.Q0, by)
				return n, ok, false
			}
		default:
			continue
		}
		o.step = func(m cmodel) (cmodel, bool) {
			n, ok, bad := f(m)
			return n, ok && (!x.done || bad == (x.err != nil))
		}
		ops = append(ops, o)
		e.Count("control_calls")
	}
	// attempts to go online
	j := 0
	for _, c := range s.cs {
		for _, f := range c.out {
			if !isSF(f, 1, 1) || !f.F.W() {
				continue
			}
			j++
			id := j
			ops = append(ops, lop[cmodel]{inv: simrt.SeqAt(f.At - tol), ret: f.Seq, opt: true, name: "S1F1", step: func(m cmodel) (cmodel, bool) {
				if m.st != gem.ControlStateAttemptOnline || m.att != 0 {
					return m, false
				}
				m.att = id
				return m, true
			}})
			res := gem.ControlStateHostOffline
			inv, by := simrt.SeqAt(f.At+s.t3-tol), f.At+s.t3+tol
			for _, r := range c.in {
				if r.F.Typ == tData && r.F.Sys == f.F.Sys && r.F.F()%2 == 0 && r.Seq > f.Seq && r.At < f.At+s.t3+tol {
					if r.At >= f.At+s.t3-tol {
						res = "" // too close to tell
					} else {
						inv, by = r.Seq, r.At+tol
						if isSF(r, 1, 2) {
							res = ""
							if r.F.S() == 1 {
								res = gem.ControlStateOnline
							}
						}
					}
					break
				}
			}
			inv0, by0 := inv, by
			e.Count("attempts_online")
			ops = append(ops, lop[cmodel]{inv: inv, ret: simrt.SeqAt(by), opt: s.endAt <= by || res == "", name: fmt.Sprintf("outcome of the S1F1 at %v (%s)", f.At, res), step: func(m cmodel) (cmodel, bool) {
				if m.st != gem.ControlStateAttemptOnline || m.att != id {
					return m, true
				}
				switch res {
				case gem.ControlStateOnline:
					return move(m, on(m), inv0, by0)
				case gem.ControlStateHostOffline:
					return move(m, res, inv0, by0)
				}
				if m.k < len(s.chain) && online(s.chain[m.k].cur) {
					return move(m, on(m), inv0, by0)
				}
				return move(m, gem.ControlStateHostOffline, inv0, by0)
			}})
		}
	}
	for _, c := range s.chain {
		c := c
		if c.prev == gem.ControlStateAttemptOnline && c.cur == gem.ControlStateHostOffline && s.mustComm(xs, c.At-tol, c.At) == nil {
			ops = append(ops, lop[cmodel]{inv: simrt.SeqAt(c.At - tol), ret: c.Seq, opt: true, name: "attempt without communication", step: func(m cmodel) (cmodel, bool) {
				if m.st != c.prev || m.k >= len(s.chain) || s.chain[m.k].Seq != c.Seq {
					return m, false
				}
				return move(m, c.cur, 0, c.At)
			}})
		}
	}
	ops = append(ops, lop[cmodel]{inv: simrt.SeqAt(s.endAt - tol), ret: s.endSeq, opt: true, name: "attempt failed at the end", step: func(m cmodel) (cmodel, bool) {
		if m.st != gem.ControlStateAttemptOnline || m.k < len(s.chain) || s.mustComm(xs, s.endAt-tol, s.endAt) != nil {
			return m, false
		}
		return move(m, gem.ControlStateHostOffline, 0, s.endAt)
	}})
	for _, u := range s.comm {
		u := u
		inv := simrt.SeqAt(u.At - tol)
		ops = append(ops, lop[cmodel]{inv: inv, ret: simrt.SeqAt(u.At + tol), opt: s.endAt <= u.At+tol, name: fmt.Sprintf("communication established at %v", u.At), step: func(m cmodel) (cmodel, bool) {
			if m.st == gem.ControlStateEquipmentOffline {
				return move(m, gem.ControlStateAttemptOnline, inv, u.At+tol)
			}
			return m, true
		}})
	}
	for _, c := range s.cs {
		if c.lost == never || c.selAt == never {
			continue
		}
		must := false
		for _, x := range xs {
			if x.c == c && x.must && x.acc+tol < c.lost {
				must = true
			}
		}
		inv, by := simrt.SeqAt(c.lost-1), c.lost+tick+tol
		ops = append(ops, lop[cmodel]{inv: inv, ret: simrt.SeqAt(by), opt: !must || s.endAt <= by, name: fmt.Sprintf("loss of connection %d at %v", c.id, c.lost), step: func(m cmodel) (cmodel, bool) {
			if online(m.st) || m.st == gem.ControlStateAttemptOnline {
				return move(m, gem.ControlStateEquipmentOffline, inv, by)
			}
			return m, true
		}})
	}
	for i, p := range s.polls {
		p := p
		if p.At > s.endAt-tol { // the events may not have been delivered
			continue
		}
		if i > 0 && i+1 < len(s.polls) && s.polls[i-1].ctl == p.ctl && s.polls[i+1].ctl == p.ctl {
			near := false
			for _, c := range s.chain {
				if c.At >= s.polls[i-1].At0-tol && c.At <= s.polls[i+1].At+tol {
					near = true
				}
			}
			if !near {
				continue
			}
		}
		ops = append(ops, lop[cmodel]{inv: p.Q0, ret: p.Q1, name: fmt.Sprintf("state %s reported at %v", p.ctl, p.At), step: func(m cmodel) (cmodel, bool) { return m, m.st == p.ctl }})
	}
	ops = append(ops, lop[cmodel]{inv: s.endSeq, ret: s.endSeq, name: "end", step: func(m cmodel) (cmodel, bool) { return m, m.k == len(s.chain) }})
	mode := gem.OnlineModeRemote
	if e.P.Has("local") {
		mode = gem.OnlineModeLocal
	}
	if ok, msg := linear(cmodel{st: s.init, mode: mode}, func(m cmodel) string { return fmt.Sprintf("%d %s %s %d", m.k, m.st, m.mode, m.att) }, ops); !ok {
		ch := ""
		for _, c := range s.chain {
			ch += fmt.Sprintf(" %v:%s->%s", c.At, c.prev, c.cur)
		}
		e.Bad("G03", "control state history no model run explains", "%s: %s; events:%s", s.name, msg, ch)
	}
}
