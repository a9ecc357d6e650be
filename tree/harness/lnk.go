package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// The link layer on its own: sessions, keyed channels and the session manager with
// in-memory codecs (L01, L02). Tasks run short sequences of operations, and the history of
// calls and callbacks is judged afterwards.

func init() {
	scenario("lclose", runLClose)
	property("L01", 300000, 15000000, gen{1, "lclose", genL01})
	property("L02", 300000, 15000000, gen{1, "lclose", genL02})
}

// memCodec is an in-memory end: Receive waits until the codec is closed.
type memCodec struct {
	closed int
	wait   []*simrt.Task
	slow   time.Duration
	fail   bool // Close reports an error
}

var errMem = fmt.Errorf("codec closed")
var errMemClose = fmt.Errorf("codec close failed")

func (c *memCodec) Receive() (interface{}, error) {
	for c.closed == 0 {
		c.wait = append(c.wait, simrt.Cur())
		simrt.Block("receive")
	}
	return nil, errMem
}
func (c *memCodec) Send(m interface{}) error {
	if c.closed > 0 {
		return errMem
	}
	return nil
}
func (c *memCodec) Close() error {
	c.closed++
	for _, t := range c.wait {
		simrt.Ready(t)
	}
	c.wait = nil
	if c.slow > 0 {
		simrt.Sleep(c.slow)
	}
	if c.fail {
		return errMemClose
	}
	return nil
}

// lcall is one call.
type lcall struct {
	inv, ret int64
	err      error
	k        string
	ch, key  int64
	sess     int
	got      []int // sessions seen
	n        int64
	put      int
}

const open = int64(1) << 60

// lcb is one registration of a close callback.
type lcb struct {
	id       int64
	inv, ret int64 // of the registration
	rinv     int64 // the first removal
	rret     int64
	runs     []int64
	hnd, key interface{}
}

// ldel is one removal of a close callback.
type ldel struct {
	inv, ret int64
	hnd, key interface{}
}

type lsess struct {
	i      int
	s      *link.Session
	cod    *memCodec
	closes []*lcall
	mayInv int64 // first point at which anything may close it
	cbs    []*lcb
	dels   []*ldel
	made   lcall
	mgr    bool
}

type lclose struct {
	e     *Env
	g     *simrt.Group
	ss    []*lsess
	chs   []*link.Channel
	calls []*lcall
	m     *link.Manager
	disp  []*lcall
	mgets []*lcall
	open  int
	names map[int]string
	cbid  int64
}

func genL01(r *rand.Rand, p *Plan) {
	p.Cfg["sess"] = 1 + int64(r.Intn(3))
	p.Cfg["chans"] = int64(r.Intn(3))
	p.Cfg["mgr"] = int64(r.Intn(2))
	genLinkCfg(r, p)
	p.Cfg["shared"] = pick(r, 0, 0, 1, 2) // callbacks of the same handler and key
	tasks := 2 + r.Intn(5)
	for d := 0; d < tasks; d++ {
		for i := 1 + r.Intn(4); i > 0; i-- {
			o := Op{D: int64(d), A: int64(r.Intn(4)), B: int64(r.Intn(3)), C: int64(r.Intn(2))}
			switch k := r.Intn(20); {
			case k < 5:
				o.K = "close"
			case k < 10:
				o.K = "add"
				o.C = pick(r, 0, 0, 0, 1, 2, 3, 4, 5, 6)
			case k < 13:
				o.K = "del"
				o.B = int64(r.Intn(4))
			case k < 14:
				o.K = "recv"
			case k < 17:
				o.K = chOp(r)
			default:
				o.K = []string{"mnew", "mget", "mdispose"}[r.Intn(3)]
			}
			genLinkOp(r, &o)
			p.Ops = append(p.Ops, o)
		}
	}
}

func chOp(r *rand.Rand) string {
	return []string{"put", "put", "put", "rem", "get", "len", "fetch", "fetchrm", "chclose"}[r.Intn(9)]
}

func genLinkCfg(r *rand.Rand, p *Plan) {
	p.Cfg["buf"] = pick(r, 0, 0, 4)
	p.Cfg["slowclose"] = pick(r, 0, 0, 0, 5)
	p.Cfg["failclose"] = pick(r, 0, 0, 0, 1)
	p.Cfg["span"] = pick(r, 0, 0, 2, 20)
}

func genLinkOp(r *rand.Rand, o *Op) {
	o.At = pick(r, 0, 0, 0, 0, 1, int64(r.Intn(8)))
	if o.K == "fetch" || o.K == "fetchrm" {
		o.S = []string{"", "", "close"}[r.Intn(3)]
	}
}

func genL02(r *rand.Rand, p *Plan) {
	p.Cfg["sess"] = 1 + int64(r.Intn(3))
	p.Cfg["chans"] = 1 + int64(r.Intn(2))
	genLinkCfg(r, p)
	tasks := 2 + r.Intn(4)
	nk := 1 + r.Intn(3)
	n := 0
	for d := 0; d < tasks; d++ {
		for i := 1 + r.Intn(4); i > 0 && n < 12; i-- {
			o := Op{D: int64(d), A: int64(r.Intn(4)), B: int64(r.Intn(nk)), C: int64(r.Intn(2)), K: chOp(r)}
			if r.Intn(4) == 0 {
				o.K = "close"
			}
			genLinkOp(r, &o)
			p.Ops = append(p.Ops, o)
			n++
		}
	}
}

func (l *lclose) newSess(mgr bool) *lsess {
	s := &lsess{i: len(l.ss), mayInv: open, mgr: mgr}
	s.cod = &memCodec{slow: ms(l.e.P.C("slowclose")), fail: l.e.P.Has("failclose")}
	l.ss = append(l.ss, s)
	s.made.inv = simrt.Seq()
	s.made.ret = open
	simrt.In(l.g, func() {
		if mgr {
			s.s = l.m.NewSession(s.cod, int(l.e.P.C("buf")))
		} else {
			s.s = link.NewSession(s.cod, int(l.e.P.C("buf")))
		}
	})
	s.made.ret = simrt.Seq()
	return s
}

func (l *lclose) find(s *link.Session) int {
	if s == nil {
		return -1
	}
	for _, x := range l.ss {
		if x.s == s {
			return x.i
		}
	}
	return -2
}

func (l *lclose) sess(a int64) *lsess {
	var ok []*lsess
	for _, s := range l.ss {
		if s.made.ret != open {
			ok = append(ok, s)
		}
	}
	return ok[int(a)%len(ok)]
}

func (l *lclose) call(k string) *lcall {
	c := &lcall{k: k, inv: simrt.Seq(), ret: open}
	return c
}

func (l *lclose) doClose(s *lsess) {
	c := l.call("close")
	s.closes = append(s.closes, c)
	if c.inv < s.mayInv {
		s.mayInv = c.inv
	}
	c.err = s.s.Close()
	c.ret = simrt.Seq()
	simrt.Tracef("close of session %d returned %v", s.i, c.err)
}

func (l *lclose) addCb(s *lsess, kind, arg int64) {
	l.cbid++
	b := &lcb{id: l.cbid, inv: simrt.Seq(), ret: open, rinv: open, rret: open, hnd: l, key: l.cbid}
	switch b0 := l.cbid % 8; l.e.P.C("shared") {
	case 1:
		b.key = []interface{}{nil, 1, "1", 1, int64(1), nil, 1, s.s}[b0]
		b.hnd = []interface{}{l, l, l, s.s, l, nil, l, nil}[b0]
	case 2:
		b.hnd, b.key = nil, nil
	}
	s.cbs = append(s.cbs, b)
	s.s.AddCloseCallback(b.hnd, b.key, func() {
		b.runs = append(b.runs, simrt.Seq())
		simrt.Tracef("callback %d of session %d", b.id, s.i)
		switch kind {
		case 1:
			simrt.Sleep(3 * time.Millisecond)
		case 2:
			l.doClose(s)
		case 3:
			l.addCb(s, 0, 0)
		case 4:
			l.delCb(s, arg)
		case 5:
			if len(l.chs) > 0 {
				l.chs[int(arg)%len(l.chs)].Len()
			}
		case 6:
			if len(l.ss) > 1 {
				l.doClose(l.sess(arg))
			}
		}
	})
	b.ret = simrt.Seq()
}

func (l *lclose) delCb(s *lsess, a int64) {
	if len(s.cbs) == 0 {
		return
	}
	b := s.cbs[int(a)%len(s.cbs)]
	inv := simrt.Seq()
	for _, x := range s.cbs {
		if x.hnd == b.hnd && x.key == b.key && inv < x.rinv {
			x.rinv = inv
		}
	}
	d := &ldel{inv: inv, ret: open, hnd: b.hnd, key: b.key}
	s.dels = append(s.dels, d)
	s.s.RemoveCloseCallback(b.hnd, b.key)
	d.ret = simrt.Seq()
	if q := simrt.Seq(); b.rret == open && b.ret < inv && !l.e.P.Has("shared") {
		b.rret = q
	}
}

func (l *lclose) do(o Op) {
	switch o.K {
	case "close":
		l.doClose(l.sess(o.A))
	case "add":
		l.addCb(l.sess(o.A), o.C, o.B)
	case "del":
		l.delCb(l.sess(o.A), o.B)
	case "recv":
		s := l.sess(o.A)
		s.s.Receive()
	case "mnew":
		if l.m != nil {
			l.newSess(true)
		}
	case "mget":
		if l.m != nil {
			s := l.sess(o.A)
			c := l.call("mget")
			c.sess = s.i
			l.mgets = append(l.mgets, c)
			c.got = []int{l.find(l.m.GetSession(s.s.ID()))}
			c.ret = simrt.Seq()
		}
	case "mdispose":
		if l.m != nil {
			c := l.call("dispose")
			l.disp = append(l.disp, c)
			l.m.Dispose()
			c.ret = simrt.Seq()
			firstDisp := open
			for _, d := range l.disp {
				firstDisp = min(firstDisp, d.inv)
			}
			for _, s := range l.ss {
				if s.mgr && s.made.ret < c.inv {
					if s.s != nil && !s.s.IsClosed() {
						l.e.Bad("L01,L04", "a session is open after the manager was disposed of", "session %d", s.i)
					}
					for _, b := range s.cbs {
						if b.ret < s.mayInv && b.ret < firstDisp && b.rinv == open && len(b.runs) == 0 && !l.e.P.Has("shared") {
							l.e.Bad("L01,L04", "a close callback has not run when the manager was disposed of", "session %d callback %d", s.i, b.id)
						}
					}
				}
			}
		}
	default:
		l.chDo(o)
	}
}

func (l *lclose) chDo(o Op) {
	if len(l.chs) == 0 {
		return
	}
	ci := o.C % int64(len(l.chs))
	ch := l.chs[ci]
	c := &lcall{k: o.K, ch: ci, key: o.B, ret: open, inv: simrt.Seq()}
	l.calls = append(l.calls, c)
	switch o.K {
	case "put":
		s := l.sess(o.A)
		c.sess = s.i
		c.inv = simrt.Seq()
		ch.Put(o.B, s.s)
	case "rem":
		c.n = b2i(ch.Remove(o.B))
	case "get":
		c.got = []int{l.find(ch.Get(o.B))}
	case "len":
		c.n = int64(ch.Len())
	case "fetch", "fetchrm":
		f := func(s *link.Session) {
			i := l.find(s)
			c.got = append(c.got, i)
			if o.S == "close" && i >= 0 {
				l.doClose(l.ss[i])
			}
		}
		if o.K == "fetch" {
			ch.Fetch(f)
		} else {
			ch.FetchAndRemove(f)
		}
		sort.Ints(c.got)
	case "chclose":
		ch.Close()
	}
	c.ret = simrt.Seq()
	simrt.Tracef("%v", c)
}

func (c *lcall) String() string {
	return fmt.Sprintf("%s(channel %d, key %d, session %d) = %v %d [%d,%d]", c.k, c.ch, c.key, c.sess, c.got, c.n, c.inv, c.ret)
}

func runLClose(e *Env) {
	l := &lclose{e: e, g: simrt.NewGroup("sut")}
	if e.P.Has("mgr") {
		l.m = link.NewManager()
	}
	for i := int64(0); i < e.P.C("sess"); i++ {
		l.newSess(l.m != nil && i != 1)
	}
	for i := int64(0); i < e.P.C("chans"); i++ {
		l.chs = append(l.chs, link.NewChannel())
	}
	by := map[int64][]Op{}
	var ids []int64
	for _, o := range e.P.Ops {
		if by[o.D] == nil {
			ids = append(ids, o.D)
		}
		by[o.D] = append(by[o.D], o)
	}
	busy := map[int64]string{}
	for _, d := range ids {
		ops := by[d]
		d := d
		simrt.GoIn(l.g, fmt.Sprintf("user%d", d), func() {
			for _, o := range ops {
				if o.K == "recv" { // waits for the end of the session
					o := o
					simrt.GoIn(l.g, "receiver", func() { l.do(o) })
					continue
				}
				busy[d] = o.K
				if w := ms(o.At) - simrt.Now(); w > 0 {
					simrt.Sleep(w)
				}
				l.do(o)
				e.Work++
			}
			delete(busy, d)
		})
	}
	simrt.Sleep(2*time.Second + e.Tol)
	// No call may still be waiting: nothing in this world waits for ever except Receive.
	for _, d := range ids {
		if k, ok := busy[d]; ok {
			e.Bad("L01,L02", "an operation on sessions and channels does not end", "user %d: %s", d, k)
			return
		}
	}
	l.checkClose()
	l.checkChannels()
}

func (l *lclose) checkClose() {
	e := l.e
	for _, s := range l.ss {
		ok, early := 0, open
		for _, c := range s.closes {
			want := error(nil)
			if s.cod.fail {
				want = errMemClose
			}
			if c.err != link.SessionClosedError {
				if c.err != want {
					e.Bad("L01", "Close returns a foreign error", "session %d: %v", s.i, c.err)
				}
				ok++
			}
			if c.ret < early {
				early = c.ret
			}
		}
		closed := s.s.IsClosed()
		disposed := false
		for _, d := range l.disp {
			if s.mgr && d.ret != open {
				disposed = true
			}
		}
		recv := false
		for _, o := range e.P.Ops {
			if o.K == "recv" {
				recv = true
			}
		}
		if closed && len(s.closes) == 0 && !disposed {
			e.Bad("L01", "a session is closed that nobody closed", "session %d", s.i)
		}
		if !closed && (len(s.closes) > 0 || disposed) {
			e.Bad("L01", "a session is open after it was closed", "session %d", s.i)
		}
		if s.cod.closed > 1 || (s.cod.closed == 1) != closed {
			e.Bad("L01", "the codec is not closed exactly once", "session %d closed %v, codec closed %d times", s.i, closed, s.cod.closed)
		}
		if ok > 1 || closed && ok == 0 && !disposed && !recv {
			e.Bad("L01", "not exactly one Close succeeds", "session %d: %d", s.i, ok)
		}
		if s.mgr && l.m != nil {
			g := l.m.GetSession(s.s.ID())
			if (g == s.s) != !closed || g != nil && g != s.s {
				e.Bad("L01,L04", "the manager does not hold exactly the open sessions", "session %d closed %v, found %v", s.i, closed, g != nil)
			}
		}
		var last *lcb
		for _, b := range s.cbs {
			if len(b.runs) > 1 {
				e.Bad("L01", "a close callback runs twice", "session %d callback %d", s.i, b.id)
			}
			if !closed && len(b.runs) > 0 {
				e.Bad("L01", "a close callback runs although the session is open", "session %d callback %d", s.i, b.id)
			}
			if closed && b.rinv == open && len(b.runs) == 0 && !e.P.Has("shared") {
				e.Bad("L01", "a close callback does not run", "session %d callback %d", s.i, b.id)
			}
			first := s.mayInv
			for _, d := range l.disp {
				if s.mgr && d.inv < first {
					first = d.inv
				}
			}
			if b.rret < first && len(b.runs) > 0 {
				e.Bad("L01", "a removed close callback runs", "session %d callback %d", s.i, b.id)
			}
			if len(b.runs) > 0 && b.runs[0] < first {
				e.Bad("L01", "a close callback runs before the session is closed", "session %d callback %d", s.i, b.id)
			}
			if b.ret < first && len(b.runs) == 1 {
				if last != nil && last.ret < b.inv && last.runs[0] > b.runs[0] {
					e.Bad("L01", "close callbacks do not run in the order they were added", "session %d callbacks %d, %d", s.i, last.id, b.id)
				}
				last = b
			}
			if len(b.runs) == 1 {
				e.Count("callback")
			}
		}
		l.checkCallbacks(s, closed)
		if closed {
			e.Count("closed session")
		}
		if len(s.closes) > 1 {
			e.Count("session closed more than once")
		}
	}
	for _, c := range l.mgets {
		s := l.ss[c.sess]
		if !s.mgr || c.ret == open {
			continue
		}
		first := s.mayInv
		for _, d := range l.disp {
			if d.inv < first {
				first = d.inv
			}
		}
		if c.got[0] >= 0 && c.got[0] != c.sess || c.got[0] == -2 {
			e.Bad("L01,L04", "the manager returns another session", "session %d: %d", c.sess, c.got[0])
		}
		if c.got[0] == -1 && c.ret < first && s.made.ret < c.inv {
			e.Bad("L01,L04", "the manager does not find an open session", "session %d", c.sess)
		}
	}
}

// checkCallbacks: the registrations, removals and invocations of the session's close
// callbacks have an order that a list allows: a removal takes out the earliest registration
// of that handler and key, the close invokes and takes out the first one until none is left,
// and from then on a registration is invoked at once.
func (l *lclose) checkCallbacks(s *lsess, closed bool) {
	first := s.mayInv
	for _, d := range l.disp {
		if s.mgr && d.inv < first {
			first = d.inv
		}
	}
	if first == open { // closed by Receive, if at all
		first = 0
	}
	var ops []lop[string]
	for i, b := range s.cbs {
		if b.ret == open {
			return
		}
		c := string(rune('0' + i))
		ops = append(ops, lop[string]{inv: b.inv, ret: b.ret, name: fmt.Sprintf("adding callback %d", b.id), step: func(x string) (string, bool) { return x + c, true }})
		if len(b.runs) > 0 {
			late := b.ret > first // the session may be closed already
			ops = append(ops, lop[string]{inv: max(first, b.inv), ret: b.runs[0], name: fmt.Sprintf("callback %d", b.id), step: func(x string) (string, bool) {
				if late || x != "" && x[0] == '!' {
					j := strings.Index(x, c)
					if j < 0 {
						return x, late
					}
					return x[:j] + x[j+1:], true
				}
				if !strings.HasPrefix(x, c) {
					return x, false
				}
				return x[1:], true
			}})
		}
	}
	for _, d := range s.dels {
		if d.ret == open {
			return
		}
		d := d
		ops = append(ops, lop[string]{inv: d.inv, ret: d.ret, name: fmt.Sprintf("removing (%T, %v)", d.hnd, d.key), step: func(x string) (string, bool) {
			if x != "" && x[0] == '!' {
				return x, true
			}
			for j := range x {
				if b := s.cbs[x[j]-'0']; b.hnd == d.hnd && b.key == d.key {
					return x[:j] + x[j+1:], true
				}
			}
			return x, true
		}})
	}
	if len(ops) == 0 {
		return
	}
	if closed {
		ops = append(ops, lop[string]{inv: first, ret: open - 2, name: "end of the callbacks", step: func(x string) (string, bool) { return "!", x == "" }})
		ops = append(ops, lop[string]{inv: open - 1, ret: open, name: "no callback left", step: func(x string) (string, bool) { return x, x == "!" }})
	}
	ok, msg := linear("", func(s string) string { return s }, ops)
	if !ok {
		l.e.Bad("L01", "close callbacks no order of the calls explains", "session %d: %s", s.i, msg)
	}
	l.e.Count("callback history")
}

// checkChannels: the channel operations have an order a keyed map allows, in which the
// session's close takes it out at some point after the close began.
func (l *lclose) checkChannels() {
	type st struct {
		put  [4]int8 // key -> 1+index of the put
		done uint32
	}
	for ci, ch := range l.chs {
		var ops []lop[st]
		var puts []*lcall
		for _, c := range l.calls {
			c := c
			if c.ch != int64(ci) || c.ret == open {
				continue
			}
			o := lop[st]{inv: c.inv, ret: c.ret, name: c.String()}
			n := len(puts)
			set := func(s st) []int {
				out := []int{}
				for _, x := range s.put {
					if x > 0 {
						out = append(out, puts[x-1].sess)
					}
				}
				sort.Ints(out)
				return out
			}
			switch c.k {
			case "put":
				puts = append(puts, c)
				o.step = func(s st) (st, bool) {
					s.put[c.key] = int8(n + 1)
					s.done |= 1 << n
					return s, true
				}
			case "rem":
				o.step = func(s st) (st, bool) {
					if (s.put[c.key] != 0) != (c.n != 0) {
						return s, false
					}
					s.put[c.key] = 0
					return s, true
				}
			case "get":
				o.step = func(s st) (st, bool) {
					g := -1
					if x := s.put[c.key]; x > 0 {
						g = puts[x-1].sess
					}
					return s, g == c.got[0]
				}
			case "len":
				o.step = func(s st) (st, bool) { return s, len(set(s)) == int(c.n) }
			case "fetch", "fetchrm":
				o.step = func(s st) (st, bool) {
					if fmt.Sprint(set(s)) != fmt.Sprint(append([]int{}, c.got...)) {
						return s, false
					}
					if c.k == "fetchrm" {
						s.put = [4]int8{}
					}
					return s, true
				}
			case "chclose":
				o.step = func(s st) (st, bool) { s.put = [4]int8{}; return s, true }
			default:
				continue
			}
			ops = append(ops, o)
		}
		if len(ops) == 0 {
			continue
		}
		for i, c := range puts {
			s := l.ss[c.sess]
			if !s.s.IsClosed() {
				continue
			}
			i, c := i, c
			inv := s.mayInv
			if inv == open { // closed by Dispose or Receive
				inv = 0
			}
			for _, d := range l.disp {
				if s.mgr && d.inv < inv {
					inv = d.inv
				}
			}
			ops = append(ops, lop[st]{inv: inv, ret: open - 2, name: fmt.Sprintf("removal of session %d under key %d after its close", c.sess, c.key), step: func(x st) (st, bool) {
				if x.done>>i&1 == 0 {
					return x, false
				}
				if x.put[c.key] == int8(i+1) {
					x.put[c.key] = 0
				}
				return x, true
			}})
		}
		// what it holds in the end
		var got []int
		ch.Fetch(func(s *link.Session) { got = append(got, l.find(s)) })
		sort.Ints(got)
		ops = append(ops, lop[st]{inv: open - 1, ret: open, name: fmt.Sprintf("final content %v", got), step: func(s st) (st, bool) {
			out := []int{}
			for _, x := range s.put {
				if x > 0 {
					out = append(out, puts[x-1].sess)
				}
			}
			sort.Ints(out)
			return s, fmt.Sprint(out) == fmt.Sprint(append([]int{}, got...))
		}})
		for _, i := range got {
			if i >= 0 && l.ss[i].s.IsClosed() {
				l.e.Bad("L02", "a channel holds a closed session", "channel %d, session %d", ci, i)
			}
		}
		if ch.Len() != len(got) {
			l.e.Bad("L02", "Len differs from the number of sessions", "channel %d: %d, %d", ci, ch.Len(), len(got))
		}
		ok, msg := linear(st{}, func(s st) string { return fmt.Sprint(s) }, ops)
		if !ok {
			l.e.Bad("L02", "channel history no order of the operations explains", "channel %d: %s", ci, msg)
		}
		l.e.Count("channel history")
	}
}
