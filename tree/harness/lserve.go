package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// A link server with raw and link clients, temporary accept failures, connections that end
// at any point, codecs that take time or cannot be made, and Stop at any moment (L04).

func init() {
	scenario("lserve", runLServe)
	property("L04", 300000, 15000000, gen{1, "lserve", genL04})
}

var errNoCodec = fmt.Errorf("no codec")

func genL04(r *rand.Rand, p *Plan) {
	p.Cfg["buf"] = pick(r, 0, 0, 4, 100)
	p.Cfg["handler"] = int64(r.Intn(4))
	p.Cfg["slowcodec"] = pick(r, 0, 0, 0, 1, 20)
	p.Cfg["failcodec"] = pick(r, 0, 0, 2, 3) // every nth codec cannot be made
	p.Cfg["slowcb"] = pick(r, 0, 0, 0, 10)
	if p.Cfg["net.jit_us"] > 1000 {
		p.Cfg["net.jit_us"] = 1000
	}
	if chance(r, 0.15) {
		p.Cfg["single"] = 1
	}
	span := pick(r, 0, 2, 20, 200)
	for i := 1 + r.Intn(6); i > 0; i-- {
		o := Op{At: between(r, 0, span), K: "dial", A: int64(r.Intn(5)), B: pick(r, 4, 4, 20, 200)}
		if r.Intn(3) == 0 {
			o.K = "ldial"
			o.D = int64(r.Intn(2)) // with a timeout
			if r.Intn(4) == 0 {
				o.C = 1 // its codec cannot be made
			}
		} else {
			o.C = pick(r, 0, 0, 1, 2, 3) // stays, closes, aborts, sends half a message and stays
			o.D = pick(r, 0, 1, 10, 100)
		}
		p.Ops = append(p.Ops, o)
	}
	for i := r.Intn(3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "tmp", A: 1 + int64(r.Intn(5))})
	}
	if chance(r, 0.2) {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "sclose", A: int64(r.Intn(4))})
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span+30), K: "stop"})
	}
	if chance(r, 0.3) {
		for i := range p.Ops {
			if p.Ops[i].K == "stop" {
				p.Ops[i].At = span + 3000
			}
		}
	}
}

type lhand struct {
	s        *link.Session
	conn     *snet.TCPConn
	inv, ret int64
	at       time.Duration
	cb       int
	got      int
}

type lcli struct {
	o        Op
	c        *snet.TCPConn
	at       time.Duration // connected
	seq      int64
	sent     int
	back     int
	eof      bool
	eofAt    time.Duration
	ended    bool // by this side
	s        *link.Session
	backAt   time.Duration
	sentAll  time.Duration
	starting bool
}

type lserve struct {
	e        *Env
	g        *simrt.Group
	srv      *link.Server
	made     int
	codecs   map[*snet.TCPConn]*frameCodec
	failed   []*snet.TCPConn
	hands    []*lhand
	clis     []*lcli
	stops    []*lcall
	stopAt   time.Duration
	serveRet []error
	serveAt  time.Duration
	tmpWait  time.Duration
	tmpNext  time.Duration
	lastTmp  time.Duration
	forced   map[*link.Session]bool
}

func (l *lserve) proto(rw io.ReadWriter) (link.Codec, error) {
	c := rw.(*snet.TCPConn)
	l.made++
	n := l.made
	if d := l.e.P.C("slowcodec"); d > 0 {
		simrt.Sleep(ms(d))
	}
	if f := l.e.P.C("failcodec"); f > 0 && n%int(f) == 0 {
		l.failed = append(l.failed, c)
		l.e.Count("codec cannot be made")
		return nil, errNoCodec
	}
	return &frameCodec{c}, nil
}

func (l *lserve) HandleSession(s *link.Session) {
	h := &lhand{s: s, inv: simrt.Seq(), ret: open, at: simrt.Now(), conn: s.Codec().(*frameCodec).rw.(*snet.TCPConn)}
	l.hands = append(l.hands, h)
	simrt.Tracef("handler of session %d", s.ID())
	slow := ms(l.e.P.C("slowcb"))
	gone := false
	var wait *simrt.Task
	s.AddCloseCallback(l, 0, func() {
		h.cb++
		gone = true
		if slow > 0 {
			simrt.Sleep(slow)
		}
		if wait != nil {
			simrt.Ready(wait)
			wait = nil
		}
	})
	defer func() { h.ret = simrt.Seq() }()
	switch l.e.P.C("handler") {
	case 0: // the usual loop
		defer s.Close()
		for {
			m, err := s.Receive()
			if err != nil {
				return
			}
			h.got++
			if s.Send(m) != nil {
				return
			}
		}
	case 1: // receives only, leaves the closing to the session
		for {
			if _, err := s.Receive(); err != nil {
				return
			}
			h.got++
		}
	case 2: // returns at once, the session stays open
	case 3: // waits for the close callback
		if !gone {
			wait = simrt.Cur()
			simrt.Block("session open")
		}
	}
}

const lAddr = "127.0.0.1:6000"

func runLServe(e *Env) {
	l := &lserve{e: e, g: simrt.NewGroup("sut"), codecs: map[*snet.TCPConn]*frameCodec{}, stopAt: never, serveAt: never, tmpNext: 5 * time.Millisecond, forced: map[*link.Session]bool{}}
	hg := simrt.NewGroup("harness-clients")
	simrt.In(l.g, func() {
		var err error
		l.srv, err = link.Listen("tcp", lAddr, link.ProtocolFunc(l.proto), int(e.P.C("buf")), l)
		if err != nil {
			panic(err)
		}
		if s, err := link.Listen("tcp", lAddr, link.ProtocolFunc(l.proto), 0, l); err == nil || s != nil {
			e.Bad("L04", "a second server gets an address in use", "%v", err)
		}
	})
	simrt.GoIn(l.g, "serve", func() {
		serve := l.srv.Serve
		if e.P.Has("single") {
			serve = func() error {
				for {
					if err := l.srv.SingleServe(); err != nil && err != errNoCodec {
						return err
					}
				}
			}
		}
		err := serve()
		l.serveRet = append(l.serveRet, err)
		l.serveAt = simrt.Now()
		simrt.Tracef("Serve returned %v", err)
	})
	last := int64(0)
	for _, o := range e.P.Ops {
		o := o
		last = max(last, o.At)
		g := hg
		if o.K == "stop" || o.K == "sclose" || o.K == "ldial" {
			g = l.g
		}
		simrt.GoIn(g, o.K, func() {
			simrt.Sleep(ms(o.At) - simrt.Now())
			l.do(o)
		})
	}
	simrt.Sleep(ms(last) + 8*time.Second + e.Tol)
	if len(l.stops) == 0 { // dropped by minimisation: stop anyway
		simrt.GoIn(l.g, "stop", func() { l.do(Op{K: "stop"}) })
		simrt.Sleep(8*time.Second + e.Tol)
	}
	l.check()
}

func (l *lserve) do(o Op) {
	e := l.e
	switch o.K {
	case "tmp":
		if ls := snet.Listening(lAddr); ls != nil {
			for i := int64(0); i < o.A; i++ {
				ls.Inject(snet.TempAcceptError())
			}
			for i := int64(0); i < o.A; i++ { // the pause doubles with each failure in a row
				l.tmpWait += min(l.tmpNext, time.Second)
				l.tmpNext *= 2
			}
			l.lastTmp = simrt.Now()
		}
	case "sclose":
		if len(l.hands) > 0 {
			h := l.hands[int(o.A)%len(l.hands)]
			l.forced[h.s] = true
			h.s.Close()
		}
	case "stop":
		c := &lcall{k: "stop", inv: simrt.Seq(), ret: open}
		if l.stopAt == never {
			l.stopAt = simrt.Now()
		}
		at := simrt.Now()
		l.stops = append(l.stops, c)
		simrt.Tracef("Stop")
		l.srv.Stop()
		c.ret = simrt.Seq()
		simrt.Tracef("Stop returned")
		if d := simrt.Now() - at; d > e.Tol+ms(e.P.C("slowcb")) {
			e.Bad("L04", "Stop takes long", "%v", d)
		}
		for _, h := range l.hands {
			if h.inv < c.inv && (!h.s.IsClosed() || !h.conn.IsClosed()) {
				e.Bad("L04", "a session is open after Stop", "session %d", h.s.ID())
			}
		}
		e.Work++
	case "dial":
		c, err := snet.Dial("tcp", lAddr)
		if err != nil {
			return
		}
		x := &lcli{o: o, c: c.(*snet.TCPConn), at: simrt.Now(), seq: simrt.Seq(), eofAt: never, backAt: never, sentAll: never}
		l.clis = append(l.clis, x)
		simrt.Go(func() {
			for {
				var h [4]byte
				if _, err := io.ReadFull(c, h[:]); err != nil {
					break
				}
				b := make([]byte, binary.BigEndian.Uint32(h[:]))
				if _, err := io.ReadFull(c, b); err != nil {
					break
				}
				x.back++
				x.backAt = simrt.Now()
			}
			x.eof, x.eofAt = true, simrt.Now()
		})
		for i := int64(0); i < o.A; i++ {
			b := make([]byte, 4+o.B)
			binary.BigEndian.PutUint32(b, uint32(o.B))
			if _, err := c.Write(b); err != nil {
				return
			}
			x.sent++
		}
		x.sentAll = simrt.Now()
		simrt.Sleep(ms(o.D))
		switch o.C {
		case 1:
			x.ended = true
			c.Close()
		case 2:
			x.ended = true
			x.c.Abort()
		case 3:
			c.Write([]byte{0, 0, 1, 0, 7})
		}
	case "ldial":
		n := len(e.W.Links)
		var proto link.Protocol = link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			if o.C == 1 {
				return nil, errNoCodec
			}
			return &frameCodec{rw.(io.ReadWriteCloser)}, nil
		})
		if o.C == 1 && o.A%3 == 1 {
			proto = codec.Bufio(proto, 16, 16)
		} else if o.C == 1 && o.A%3 == 2 {
			proto = codec.FixLen(proto, 2, binary.BigEndian, 100, 100)
		}
		var s *link.Session
		var err error
		if o.D == 1 {
			s, err = link.DialTimeout("tcp", lAddr, time.Second, proto, int(e.P.C("buf")))
		} else {
			s, err = link.Dial("tcp", lAddr, proto, int(e.P.C("buf")))
		}
		if o.C == 1 && s != nil {
			e.Bad("L04", "a session without a codec", "")
		}
		if err != nil {
			for _, k := range e.W.Links[n:] {
				if o.C == 1 && k.C.Group() == l.g && !k.C.IsClosed() && err == errNoCodec && len(e.W.Links) == n+1 {
					e.Bad("L04", "a connection whose codec cannot be made stays open", "dialled")
				}
			}
			return
		}
		x := &lcli{o: o, s: s, c: s.Codec().(*frameCodec).rw.(*snet.TCPConn), at: simrt.Now(), seq: simrt.Seq(), eofAt: never, backAt: never, sentAll: never}
		l.clis = append(l.clis, x)
		simrt.Go(func() {
			for {
				if _, err := s.Receive(); err != nil {
					break
				}
				x.back++
				x.backAt = simrt.Now()
			}
			x.eof, x.eofAt = true, simrt.Now()
		})
		for i := int64(0); i < o.A; i++ {
			if s.Send(make([]byte, o.B)) != nil {
				return
			}
			x.sent++
		}
		x.sentAll = simrt.Now()
	}
}

func (l *lserve) check() {
	e := l.e
	if len(l.serveRet) == 0 {
		e.Bad("L04", "Serve does not return after Stop", "")
	} else {
		if l.serveAt < l.stopAt {
			e.Bad("L04", "Serve returns although nobody stopped the server", "%v", l.serveRet[0])
		}
		if d := l.serveAt - l.stopAt; d > e.Tol+time.Second && !e.P.Has("single") {
			e.Bad("L04", "Serve returns late after Stop", "%v", d)
		}
		if l.serveRet[0] != io.EOF {
			e.Bad("L04", "Serve of a stopped server reports a failure", "%v", l.serveRet[0])
		}
	}
	for _, c := range l.stops {
		if c.ret == open {
			e.Bad("L04", "Stop does not return", "")
		}
	}
	if snet.Listening(lAddr) != nil {
		e.Bad("L04", "the server listens after Stop", "")
	}
	for _, k := range e.W.Links {
		if k.Accepted && !k.S.IsClosed() {
			e.Bad("L04", "an accepted connection is open after Stop", "link %s", k.C.LocalAddr())
		}
	}
	for _, h := range l.hands {
		if !h.s.IsClosed() {
			e.Bad("L04", "a session is open after Stop", "session %d", h.s.ID())
		}
		if h.ret == open {
			e.Bad("L04", "a handler does not see the end of its session", "session %d", h.s.ID())
		}
		if h.cb != 1 {
			e.Bad("L04,L01", "a close callback does not run exactly once", "session %d: %d", h.s.ID(), h.cb)
		}
		if l.srv.GetSession(h.s.ID()) != nil {
			e.Bad("L04", "the server knows a closed session", "session %d", h.s.ID())
		}
	}
	// clients that stayed are told
	for _, x := range l.clis {
		if !x.ended && !x.eof {
			e.Bad("L04", "a client is not told that the server stopped", "%v", x.c.LocalAddr())
		}
		// Service before Stop: a connection made in time is served.
		single := e.P.Has("single")
		lim := e.Tol + 50*time.Millisecond + ms(e.P.C("slowcodec"))*2 + l.tmpWait
		var h *lhand
		for _, y := range l.hands {
			if y.conn == x.c.Link().S {
				h = y
			}
		}
		failed := false
		for _, c := range l.failed {
			if c == x.c.Link().S {
				failed = true
			}
		}
		if failed && h != nil {
			e.Bad("L04", "a connection without a codec gets a handler", "")
		}
		if !single && !failed && h == nil && x.at+lim < l.stopAt && !(x.ended && x.o.C == 2) {
			e.Bad("L04", "a connection is not served", "connected at %v, stopped at %v", x.at, l.stopAt)
		}
		if h != nil {
			e.Count("session served")
		}
		if !single && h != nil && e.P.C("handler") == 0 && !x.ended && !l.forced[h.s] && x.o.C == 0 && x.sentAll != never && x.sentAll+lim+time.Second < l.stopAt && x.back != x.sent && (x.s == nil || x.o.A <= e.P.C("buf") || e.P.C("buf") == 0) && (e.P.C("buf") == 0 || int64(x.sent) <= e.P.C("buf")) {
			e.Bad("L04", "a served connection does not get its answers", "%d of %d", x.back, x.sent)
		}
		if x.back > x.sent {
			e.Bad("L04", "a client gets more answers than it sent messages", "%d of %d", x.back, x.sent)
		}
		if x.ended && h != nil {
			e.Count("client left")
		}
	}
	for _, c := range l.failed {
		if !c.IsClosed() {
			e.Bad("L04", "a connection whose codec cannot be made stays open", "accepted")
		}
	}
	for _, x := range l.clis {
		if x.s != nil {
			x.s.Close()
		}
	}
	simrt.Sleep(time.Second + e.Tol)
	if live := simrt.Live(l.g); len(live) > 0 {
		e.Bad("L04", "a task of the server outlives it", "%s blocked on %q", live[0].Name, live[0].Why)
	}
}
