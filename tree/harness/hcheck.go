package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
)

// conn is the analysed history of one connection of the raw peer.
type conn struct {
	pc     *PC
	sut    *snet.TCPConn
	wr     []WF // what the endpoint wrote
	rest   int
	werr   error
	pw     []WF          // what the peer wrote (well-formed part)
	alive  bool          // nobody closed or broke it
	lostAt time.Duration // when the endpoint's end was lost or closed (only if !alive)
}

func (l *HLab) conns() []*conn {
	var out []*conn
	for _, pc := range l.pcs {
		c := &conn{pc: pc, sut: sutEnd(pc)}
		c.wr, c.rest, c.werr = written(c.sut)
		c.pw, _, _ = written(pc.C)
		c.alive = !c.sut.IsDown() && !pc.C.IsDown()
		if !c.alive {
			c.lostAt = c.sut.GoneAt
			if c.sut.IsClosed() && (c.lostAt == 0 || c.sut.ClosedAt < c.lostAt) {
				c.lostAt = c.sut.ClosedAt
			}
			if c.lostAt == 0 {
				c.lostAt = c.pc.C.ClosedAt
			}
		}
		out = append(out, c)
	}
	return out
}

// arr gives the arrival at the endpoint of the k-th frame the peer wrote.
func (c *conn) arr(k int) (time.Duration, int64, bool) { return arrived(c.sut, c.pw[k].End) }

// checkTraffic applies the message-level oracles to the recorded history.
func (l *HLab) checkTraffic() {
	e := l.e
	t3 := secs(int64(e.P.C("t3")))
	cs := l.conns()
	var slow time.Duration
	for i := range e.P.Ops {
		if o := &e.P.Ops[i]; o.K == "prim" {
			slow += ms(o.C)
		}
	}
	type at struct {
		c *conn
		k int
	}
	reqAt := map[string]at{} // the endpoint's messages on the wire, by token
	for _, c := range cs {
		if c.werr != nil {
			e.Bad("H06,H01,H03", "endpoint wrote a broken byte stream", "connection %d: %v", c.pc.id, c.werr)
		}
		if c.rest > 0 && c.alive {
			e.Bad("H06", "endpoint left a partial message on a live connection", "connection %d: %d bytes after the last complete message", c.pc.id, c.rest)
		}
		for k := range c.wr {
			f := c.wr[k].F
			if f.Typ != tData || f.PType != 0 {
				continue
			}
			it, err := Dec(f.Text)
			if err != nil {
				e.Bad("H06", "endpoint wrote an undecodable message", "%v: %v", f, err)
				continue
			}
			tok := tokOf(it)
			if strings.HasPrefix(tok, "q") {
				if _, dup := reqAt[tok]; dup {
					e.Bad("H06,H01", "a message was put on the wire twice", "%s", tok)
				}
				reqAt[tok] = at{c, k}
			}
		}
	}
	// the endpoint's own requests
	for _, c := range l.calls {
		tok := fmt.Sprintf("q%d", c.ID)
		w, onWire := reqAt[tok]
		if onWire {
			f := w.c.wr[w.k].F
			if !f.Item().Equal(c.Item) || f.S() != c.S || f.F() != c.F {
				e.Bad("H06", "the message on the wire differs from the one passed to the send call", "%s: sent %v, wire %v", tok, c.Item, f)
			}
			if f.W() != (c.Kind == "req") {
				e.Bad("H06,H01,H02", "a message on the wire has the wrong wait bit", "%s: %v", tok, f)
			}
		}
		if c.Done && c.Err == nil && !onWire {
			lost := false
			for _, x := range cs {
				if !x.alive {
					lost = true
				}
			}
			if !lost || c.Kind == "req" {
				e.Bad("H06", "a successful send put nothing on the wire", "%s %s", c.Kind, tok)
			}
		}
		if c.Kind != "req" {
			if c.Done && c.Err != nil && onWire && w.c.alive {
				e.Bad("H06", "a failed send is on the wire of a live connection", "%s: %v", tok, c.Err)
			}
			continue
		}
		if !onWire {
			continue
		}
		req := w.c.wr[w.k].F
		// replies of the peer and their arrival
		var best time.Duration = -1
		any := false
		for _, r := range l.replies {
			if r.Tok != tok {
				continue
			}
			for k := range w.c.pw {
				if p := w.c.pw[k].F; r.PC == w.c.pc && p.Sys == r.F.Sys && p.S() == r.F.S() && p.F() == r.F.F() && bytes.Equal(p.Text, r.F.Text) {
					if t, _, ok := w.c.arr(k); ok {
						any = true
						if best < 0 || t < best {
							best = t
						}
					}
				}
			}
		}
		if c.Done && c.Err == nil {
			ok := false
			for _, r := range l.replies {
				if r.Tok == tok && c.RepItem != nil && r.Item.Equal(c.RepItem) && r.F.Sys == c.Rep.Sys && int(c.Rep.B2) == r.F.S() && int(c.Rep.B3) == r.F.F() {
					ok = true
				}
			}
			if !ok {
				cls := "a call returned a message that is not its reply"
				if c.RepItem != nil && strings.HasPrefix(tokOf(c.RepItem), "r:"+tok+":") && c.Rep.Sys == req.Sys {
					e.Bad("H06,H01", "a reply reached the caller altered", "%s got sys=%08x %v", tok, c.Rep.Sys, c.RepItem)
				} else {
					e.Bad("H01", cls, "%s (sys=%08x) got S%dF%d sys=%08x %v", tok, req.Sys, c.Rep.B2, c.Rep.B3, c.Rep.Sys, c.RepItem)
				}
			} else {
				e.Count("replies_matched")
			}
			if !any {
				e.Bad("H01", "a call succeeded without a reply having arrived", "%s", tok)
			}
		}
		// timing
		up := w.c.alive || (c.Done && w.c.lostAt > c.End) || (!c.Done && w.c.alive)
		desel := l.deselectedDuring(w.c, c)
		if !up || desel {
			continue
		}
		if !c.Done {
			e.Bad("H02", "a request is still waiting long after T3", "%s began %v, now over", tok, c.Start)
			continue
		}
		dur := c.End - c.Start
		if any && best+slow <= c.Start+t3-e.Tol && c.Err != nil {
			e.Bad("H02,H01", "a reply that arrived in time was not delivered", "%s: started %v, reply arrived %v, T3 %v, result %v after %v", tok, c.Start, best, t3, c.Err, dur)
		}
		if any && best+slow <= c.Start+t3-e.Tol && c.Err == nil {
			if c.End > best+slow+e.Tol {
				e.Bad("H02", "a reply was delivered late", "%s: reply arrived %v, call returned %v", tok, best, c.End)
			}
		}
		if c.Err != nil {
			if dur < t3 {
				e.Bad("H02", "a request failed before T3 on a live connection", "%s: %v after %v (T3 %v)", tok, c.Err, dur, t3)
			}
			if !errors.Is(c.Err, hsms.ErrT3Timeout) {
				e.Bad("H02", "an unanswered request ended with another error than a T3 timeout", "%s: %v", tok, c.Err)
			}
			e.Count("t3_timeouts")
		}
		wrBlock := time.Duration(0)
		if w.c.wr[w.k].At1 > c.Start {
			wrBlock = w.c.wr[w.k].At1 - c.Start
		}
		if dur > t3+wrBlock+2*e.Tol+l.blockedTime() {
			e.Bad("H02", "a request returned noticeably after T3", "%s: %v after %v (T3 %v)", tok, c.Err, dur, t3)
		}
		n9 := 0
		for _, x := range cs {
			for k := range x.wr {
				f := x.wr[k].F
				if f.Typ == tData && f.S() == 9 && f.F() == 9 {
					it := f.Item()
					if it != nil && it.F == fBin && bytes.Equal(it.D, req.Header()) {
						n9++
						if x != w.c {
							e.Bad("H02", "S9F9 was sent on another connection than the request", "%s", tok)
						}
						if f.W() {
							e.Bad("H02", "S9F9 asks for a reply", "%v", f)
						}
						if x.wr[k].At0 < c.Start+t3 {
							e.Bad("H02", "S9F9 before T3", "%s", tok)
						}
					}
				}
			}
		}
		want := 0
		if c.Err != nil && errors.Is(c.Err, hsms.ErrT3Timeout) {
			want = 1
		}
		if n9 != want && (w.c.alive || n9 > want) {
			e.Bad("H02", fmt.Sprintf("%d S9F9 for one request, expected %d", n9, want), "%s err=%v", tok, c.Err)
		}
	}
	for _, x := range cs {
		for k := range x.wr {
			f := x.wr[k].F
			if f.Typ == tData && f.S() == 9 && f.F() == 9 {
				it := f.Item()
				ok := false
				for _, w := range reqAt {
					if it != nil && bytes.Equal(it.D, w.c.wr[w.k].F.Header()) {
						ok = true
					}
				}
				if !ok {
					e.Bad("H02", "S9F9 that names no request", "%v", f)
				}
			}
		}
	}
	l.checkHandlers(cs)
}

// deselectedDuring tells whether the connection left the selected state during the call.
func (l *HLab) deselectedDuring(c *conn, call *Call) bool {
	for k := range c.wr {
		if f := c.wr[k].F; (f.Typ == tDesRsp || f.Typ == tDesReq || f.Typ == tSepReq) && c.wr[k].Seq0 < call.Q1 {
			return true
		}
	}
	for k := range c.pw {
		if f := c.pw[k].F; f.Typ == tSepReq || f.Typ == tDesRsp || f.Typ == tReject {
			return true
		}
	}
	for _, t := range l.tog {
		if !t.On && (t.Seq < call.Q1 || !call.Done) {
			return true
		}
	}
	return false
}

// blockedTime bounds how long the peer kept the endpoint from writing.
func (l *HLab) blockedTime() time.Duration {
	if l.e.W.Stats["write_block"] > 0 {
		return 2 * time.Second
	}
	return 0
}

// checkHandlers checks the messages the peer sent against handler invocations and replies.
func (l *HLab) checkHandlers(cs []*conn) {
	e := l.e
	byTok := map[string][]*HRec{}
	for _, h := range l.hrecs {
		byTok[h.Tok] = append(byTok[h.Tok], h)
		q := l.peerQ[h.Tok]
		if q == nil && h.Default && h.F%2 == 0 {
			e.Count("late_reply_to_default_handler")
			continue
		}
		if q == nil {
			e.Bad("H03,H04,H06,H01,H11", "a handler got a message the peer did not send as a primary", "S%dF%d sys=%08x %v", h.S, h.F, h.Sys, h.Item)
			continue
		}
		if len(byTok[h.Tok]) > 1 {
			e.Bad("H03,H01", "a message was handled twice", "%s", h.Tok)
		}
		if !h.Item.Equal(q.Item) {
			e.Bad("H06,H11", "a handler got a message with altered content", "%s: sent %v got %v", h.Tok, q.Item, h.Item)
		}
		if h.S != q.F.S() || h.F != q.F.F() || h.Sys != q.F.Sys || h.Sess != int(q.F.Sess) || (h.W == "true") != q.F.W() {
			e.Bad("H03,H06", "a handler got a message with an altered header", "%v handled as S%dF%d W=%s sess=%04x sys=%08x", q.F, h.S, h.F, h.W, h.Sess, h.Sys)
		}
		hasH := false
		for i, sf := range labSF {
			if sf[0] == h.S && sf[1] == h.F && e.P.C("nohandlers")&(1<<uint(i)) == 0 {
				hasH = true
			}
		}
		if !h.Default && h.Of != [2]int{h.S, h.F} {
			e.Bad("H03,H16", "a message went to the handler of another stream or function", "%s: S%dF%d handled by S%dF%d's", h.Tok, h.S, h.F, h.Of[0], h.Of[1])
		}
		if hasH == h.Default {
			e.Bad("H03,H16", "a message went to the wrong handler", "%s: default=%v, specific handler registered=%v", h.Tok, h.Default, hasH)
		}
	}
	for _, c := range cs {
		l.checkConnHandlers(c, byTok)
	}
}

func (l *HLab) checkConnHandlers(c *conn, byTok map[string][]*HRec) {
	e := l.e
	var prev *HRec
	missing := ""
	answered := map[string]int{}
	for k := range c.pw {
		f := c.pw[k].F
		if f.Typ != tData || f.PType != 0 || f.F()%2 == 0 {
			continue
		}
		tok := tokOf(f.Item())
		q := l.peerQ[tok]
		if q == nil || q.PC != c.pc {
			continue
		}
		_, _, arr := c.arr(k)
		hs := byTok[tok]
		handled := len(hs) > 0
		expect := l.handlerFor(f) // a handler or default handler exists
		sel := l.selectedAt(c, k)
		if handled && sel < 0 {
			e.Bad("H04", "a message received while not selected reached a handler", "%s", tok)
		}
		if handled {
			h := hs[0]
			if missing != "" {
				e.Bad("H03", "messages were handled with a gap", "%s handled although %s, which came first, was not", tok, missing)
			}
			if prev != nil && h.Seq < prev.Seq {
				e.Bad("H03", "messages were handled out of order", "%s before %s", tok, prev.Tok)
			}
			prev = h
			if q.Coll {
				e.Count("colliding_primary_handled")
			}
		} else if expect && arr && sel > 0 {
			if c.alive && !l.disabledEver() {
				if q.Coll {
					e.Bad("H01,H03", "a primary whose system bytes equal those of an open request was not handled", "%v", f)
				}
				e.Bad("H03", "a message was never handled", "%v", f)
			}
			missing = tok
		}
		// replies
		n, n9 := 0, 0
		for j := range c.wr {
			w := c.wr[j].F
			if w.Typ != tData || w.Sys != f.Sys {
				continue
			}
			if w.S() == f.S() && w.F() == f.F()+1 && strings.HasPrefix(tokOf(w.Item()), "r:"+tok) {
				n++
				if w.Sess != f.Sess && w.Sess != l.sess && !l.wild() {
					e.Bad("H03,H04", "a reply carries another session", "%v answered by %v", f, w)
				}
				if w.W() {
					e.Bad("H03", "a reply asks for a reply", "%v", w)
				}
				if len(hs) > 0 && q.Op != nil {
					exp := tokItem("r:"+tok, payload(hash64("hrep", tok), q.Op.D, q.Op.D*7))
					if !w.Item().Equal(exp) {
						e.Bad("H03,H06", "the reply on the wire differs from what the handler returned", "%s", tok)
					}
				}
			}
			if w.S() == 9 && (w.F() == 3 || w.F() == 5) && !w.W() {
				n9++
			}
		}
		answered[tok] = n
		if handled && hs[0].Late != nil {
			switch a := hs[0].Late; {
			case n > 1 || n > 0 && a.Start == 0:
				e.Bad("H03", fmt.Sprintf("%d replies to a message, expected %d", n, 1), "%v", f)
			case !a.Done && c.alive:
				e.Bad("H03,H08", "an answer is never finished", "%v", f)
			case a.Done && a.Err != nil && c.alive && !l.disabledEver() && !l.deselectedEver(c):
				e.Bad("H03", "a message could not be answered on a selected connection", "%v: %v", f, a.Err)
			case a.Done && a.Err == nil && n < 1 && c.alive:
				e.Bad("H03,H06", "a successful send put nothing on the wire", "answer to %v", f)
			case n > 0:
				e.Count("late_response_sent")
			}
		} else if handled && hs[0].Ret {
			want := 0
			if f.W() && hs[0].Replied {
				want = 1
			}
			if n > want {
				e.Bad("H03", fmt.Sprintf("%d replies to a message, expected %d", n, want), "%v", f)
			}
			if n < want && c.alive && !l.disabledEver() && !l.deselectedEver(c) {
				e.Bad("H03", "a reply returned by the handler was not sent", "%v", f)
			}
		}
		if n > 0 && !handled {
			e.Bad("H03", "a reply was sent without the handler having run", "%v", f)
		}
		if expect && n9 > 0 && !c.ambig(f.Sys) {
			e.Bad("H16", "an S9 error for a message that has a handler", "%v", f)
		}
		if !expect && sel > 0 && arr && f.S() != 9 && !c.ambig(f.Sys) {
			known := map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 10: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true, 21: true}
			wf, wb := 5, byte(f.F())
			if !known[f.S()] {
				wf, wb = 3, byte(f.S())
			}
			good := 0
			for j := range c.wr {
				w := c.wr[j].F
				if w.Typ == tData && w.Sys == f.Sys && w.S() == 9 && w.F() == wf && !w.W() {
					if it := w.Item(); it != nil && it.F == fBin && len(it.D) > 0 && (it.D[0] == wb || bytes.Equal(it.D, f.Header())) {
						good++
					}
				}
			}
			if n9 != 1 || good != 1 {
				if (c.alive && !l.disabledEver() && !l.deselectedEver(c)) || n9 > 1 || good != n9 {
					e.Bad("H16", fmt.Sprintf("%d S9F3/S9F5 for an unknown message (%d of the right kind)", n9, good), "%v", f)
				}
			} else {
				e.Count("s9_for_unknown")
			}
		}
	}
}

func (l *HLab) disabledEver() bool {
	for _, t := range l.tog {
		if !t.On {
			return true
		}
	}
	return false
}

func (l *HLab) deselectedEver(c *conn) bool {
	for k := range c.pw {
		if t := c.pw[k].F.Typ; t == tDesReq || t == tSepReq || t == tDesRsp {
			return true
		}
	}
	return false
}

func (l *HLab) handlerFor(f *Frame) bool {
	if l.e.P.Has("default") {
		return true
	}
	for i, sf := range labSF {
		if sf[0] == f.S() && sf[1] == f.F() {
			return l.e.P.C("nohandlers")&(1<<uint(i)) == 0
		}
	}
	return false
}

// selectedAt tells whether the endpoint was selected on this connection when it took the
// k-th frame of the peer: 1 yes, -1 no, 0 unknown. The endpoint takes frames in order, so
// only the peer's earlier frames and the endpoint's select exchange matter.
func (l *HLab) selectedAt(c *conn, k int) int {
	s := -1
	for j := 0; j <= k; j++ {
		f := c.pw[j].F
		if f.PType != 0 {
			return 0
		}
		switch f.Typ {
		case tSelReq:
			// accepted if answered with status 0
			answered := false
			for _, w := range c.wr {
				if w.F.Typ == tSelRsp && w.F.Sys == f.Sys {
					answered = true
					if w.F.B3 == 0 {
						s = 1
					}
				}
			}
			if !answered && s < 0 { // the response may have been lost with the connection
				s = 0
			}
		case tSelRsp:
			for _, w := range c.wr {
				if w.F.Typ == tSelReq && w.F.Sys == f.Sys && f.B3 == 0 {
					s = 1
				}
			}
		case tDesReq, tSepReq:
			s = -1
		case tDesRsp:
			s = 0
		}
	}
	return s
}

// checkUnique: no two open requests of the endpoint on a connection share system bytes.
func (l *HLab) checkUnique() {
	e := l.e
	for _, c := range l.conns() {
		open := map[uint32]time.Duration{} // until when it is open
		what := map[uint32]*Frame{}
		for k := range c.wr {
			f, at := c.wr[k].F, c.wr[k].At0
			var until time.Duration
			switch {
			case f.Typ == tData && f.W():
				until = at + secs(e.P.C("t3"))
			case f.Typ == tSelReq || f.Typ == tDesReq || f.Typ == tLnkReq:
				until = at + secs(e.P.C("t6"))
			default:
				continue
			}
			for j := range c.pw {
				r := c.pw[j].F
				if r.Sys != f.Sys || (r.Typ == tData) != (f.Typ == tData) || (r.Typ == tData && (r.F()%2 == 1)) {
					continue
				}
				if t, _, ok := c.arr(j); ok && t >= at && t < until {
					until = t
				}
			}
			if f.Typ == tData {
				for _, call := range l.calls {
					if call.Done && tokOf(f.Item()) == fmt.Sprintf("q%d", call.ID) && call.End < until {
						until = call.End
					}
				}
			}
			if u, ok := open[f.Sys]; ok && at < u {
				e.Bad("H15", "two open requests carry the same system bytes", "connection %d: %v and %v", c.pc.id, what[f.Sys], f)
			}
			open[f.Sys], what[f.Sys] = until, f
			e.Count("requests_on_wire")
			if f.Sys == 0 {
				e.Count("system_bytes_wrapped")
			}
		}
	}
}

// checkS9 checks stream 9 messages the peer sent: they are reported once and draw no error message.
func (l *HLab) checkS9() {
	e := l.e
	got := map[uint32]int{}
	fn := map[uint32]map[int]bool{}
	for _, i := range l.s9 {
		k := be32(i.SystemBytes)
		got[k]++
		if fn[k] == nil {
			fn[k] = map[int]bool{}
		}
		fn[k][i.ErrorCode] = true
	}
	for _, c := range l.conns() {
		for k := range c.pw {
			f := c.pw[k].F
			if f.Typ != tData || f.S() != 9 || f.PType != 0 {
				continue
			}
			_, _, arr := c.arr(k)
			n := got[f.Sys]
			if n > 1 {
				e.Bad("H16", "a stream 9 message was reported twice", "%v", f)
			}
			if n == 0 && arr && c.alive && l.selectedAt(c, k) > 0 {
				e.Bad("H16", "a stream 9 message was not reported", "%v", f)
			}
			if n > 0 && !fn[f.Sys][f.F()] && !c.ambig(f.Sys) {
				e.Bad("H16", "a stream 9 message was reported as another error", "%v reported as %v", f, fn[f.Sys])
			}
			if n == 1 {
				e.Count("s9_received")
			}
			for j := range c.wr {
				if w := c.wr[j].F; w.Typ == tData && w.S() == 9 && w.F() != 9 && w.Sys == f.Sys && !c.ambig(f.Sys) {
					e.Bad("H16", "a stream 9 message drew an error message", "%v answered by %v", f, w)
				}
			}
		}
	}
}

// ambig tells whether the peer sent several data messages with these system bytes.
func (c *conn) ambig(sys uint32) bool {
	n := 0
	for k := range c.pw {
		if f := c.pw[k].F; f.Typ == tData && f.Sys == sys {
			n++
		}
	}
	return n > 1
}

// wild tells whether the endpoint adopts its peer's session.
func (l *HLab) wild() bool { return l.sess == 0 || l.sess == 0xffff }
