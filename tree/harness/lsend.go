package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	ssync "github.com/younglifestyle/secs4go/verifsim/shim/sync"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// Concurrent senders on one session over a simulated connection whose reader can stall,
// disappear or break the connection (L03).

func init() {
	scenario("lsend", runLSend)
	property("L03", 300000, 15000000, gen{1, "lsend", genL03})
}

// recCodec records what the session hands to its codec.
type recCodec struct {
	link.Codec
	l    *lsend
	rdrs int
	wrts int
	n    int64
}

func (c *recCodec) Send(m interface{}) error {
	c.wrts++
	if c.wrts > 1 {
		c.l.e.Bad("L03", "two sends of one session are in its codec at the same time", "")
	}
	b := m.([]byte)
	if len(b) >= 4 {
		id := int(binary.BigEndian.Uint32(b))
		if s := c.l.find(id); s != nil {
			s.taken = simrt.Seq()
			c.l.taken = append(c.l.taken, id)
		}
	}
	var err error
	if c.n++; c.n == c.l.e.P.C("failat") {
		simrt.Tracef("the codec fails")
		c.l.e.Count("fault codec")
		c.l.bad = true
		err = errMem
	} else {
		err = c.Codec.Send(m)
	}
	c.wrts--
	if err != nil {
		c.l.sendErr = true
	}
	return err
}

func (c *recCodec) Receive() (interface{}, error) {
	c.rdrs++
	if c.rdrs > 1 {
		c.l.e.Bad("L03", "two receives of one session are in its codec at the same time", "")
	}
	defer func() { c.rdrs-- }()
	m, err := c.Codec.Receive()
	if err != nil {
		c.l.recvErr = true
		if c.l.e.P.Has("partial") { // what it has of the message, and the error
			return []byte{1}, err
		}
	}
	return m, err
}

func (c *recCodec) Close() error { c.l.codClosed++; return c.Codec.Close() }

// clearCodec also takes over the messages that were not sent.
type clearCodec struct{ *recCodec }

func (c *clearCodec) ClearSendChan(ch *simrt.Chan[interface{}]) {
	for m := range simrt.RangeChan(ch) {
		b := m.([]byte)
		c.l.cleared = append(c.l.cleared, int(binary.BigEndian.Uint32(b)))
	}
}

// frameCodec writes its head and body separately.
type frameCodec struct{ rw io.ReadWriteCloser }

func (c *frameCodec) Send(m interface{}) error {
	b := m.([]byte)
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(b)))
	if _, err := c.rw.Write(h[:]); err != nil {
		return err
	}
	_, err := c.rw.Write(b)
	return err
}
func (c *frameCodec) Receive() (interface{}, error) {
	var h [4]byte
	if _, err := io.ReadFull(c.rw, h[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(h[:]))
	if _, err := io.ReadFull(c.rw, b); err != nil {
		return nil, err
	}
	return b, nil
}
func (c *frameCodec) Close() error { return c.rw.Close() }

type failClose struct{ io.ReadWriter }

func (failClose) Close() error { return errMemClose }

type lmsg struct {
	id       int
	task     int64
	n        int
	inv, ret int64
	at, end  time.Duration
	err      error
	taken    int64 // handed to the codec
	got      int64 // received by the peer
}

type lsend struct {
	e         *Env
	g         *simrt.Group
	s         *link.Session
	c, p      *snet.TCPConn
	msgs      []*lmsg
	byID      map[int]*lmsg
	taken     []int
	cleared   []int
	codClosed int
	sendErr   bool
	recvErr   bool
	in        []byte
	order     []int
	stop      bool
	pause     time.Duration
	eof       bool
	closes    []*lcall
	closedAt  int64
	recvs     []int
	sent      []int
	clogged   bool
	pmu       ssync.Mutex
	bad       bool
}

func (l *lsend) find(id int) *lmsg { return l.byID[id] }

func genL03(r *rand.Rand, p *Plan) {
	p.Cfg["buf"] = pick(r, 0, 0, 1, 2, 3, 8, 32)
	p.Cfg["codec"] = int64(r.Intn(4)) // own framing, FixLen over Byte, buffered FixLen over Byte, own framing buffered
	p.Cfg["clear"] = int64(r.Intn(2))
	p.Cfg["withid"] = int64(r.Intn(2))
	p.Cfg["pause"] = pick(r, 0, 0, 1, 5)
	if p.Cfg["net.sndbuf"] == 0 {
		p.Cfg["net.sndbuf"] = pick(r, 0, 64, 300)
	}
	span := pick(r, 0, 0, 3, 30, 200)
	for d := 1 + r.Intn(4); d > 0; d-- {
		for i := 1 + r.Intn(6); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "snd", A: pick(r, 4, 4, 5, 20, 60, 200, 1000), D: int64(d)})
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "psnd", A: pick(r, 4, 10, 300)})
	}
	if chance(r, 0.5) {
		t := between(r, 0, span)
		p.Ops = append(p.Ops, Op{At: t, K: "stop"})
		if chance(r, 0.6) {
			p.Ops = append(p.Ops, Op{At: t + between(r, 1, 100), K: "go"})
		}
	}
	if chance(r, 0.3) {
		t := between(r, 0, span)
		p.Ops = append(p.Ops, Op{At: t, K: "freeze", A: int64(r.Intn(2))})
		p.Ops = append(p.Ops, Op{At: t + between(r, 1, 100), K: "thaw"})
	}
	p.Cfg["partial"] = int64(r.Intn(2))
	p.Cfg["receivers"] = pick(r, 1, 1, 1, 2, 3)
	if chance(r, 0.1) {
		p.Cfg["failat"] = 1 + int64(r.Intn(6))
		return
	}
	switch r.Intn(8) {
	case 0, 1:
		for i := 1 + r.Intn(2); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: between(r, 0, span+5), K: "close"})
		}
	case 2:
		p.Ops = append(p.Ops, Op{At: between(r, 0, span+5), K: "pclose"})
	case 3:
		p.Ops = append(p.Ops, Op{At: between(r, 0, span+5), K: "reset"})
	case 4:
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "break", A: between(r, 0, 500)})
	}
}

func (l *lsend) body(id, n int) []byte {
	b := make([]byte, n)
	binary.BigEndian.PutUint32(b, uint32(id))
	for i := 4; i < n; i++ {
		b[i] = byte(id*31 + i*7)
	}
	return b
}

func (l *lsend) same(b []byte) *lmsg {
	if len(b) < 4 {
		return nil
	}
	m := l.find(int(binary.BigEndian.Uint32(b)))
	if m == nil || m.n != len(b) || string(b) != string(l.body(m.id, m.n)) {
		return nil
	}
	return m
}

// peer reads what the session sends.
func (l *lsend) peer() {
	buf := make([]byte, 4096)
	for {
		for l.stop && !l.p.IsDown() {
			simrt.Sleep(time.Millisecond)
		}
		if l.pause > 0 {
			simrt.Sleep(l.pause)
		}
		n, err := l.p.Read(buf)
		l.in = append(l.in, buf[:n]...)
		for len(l.in) >= 4 {
			k := int(binary.BigEndian.Uint32(l.in))
			if k < 4 || k > 2000 {
				l.e.Bad("L03", "the transmitted stream is damaged", "length %d at a message boundary", k)
				return
			}
			if len(l.in) < 4+k {
				break
			}
			m := l.same(l.in[4 : 4+k])
			if m == nil {
				l.e.Bad("L03", "a transmitted message is damaged", "%x", l.in[:4+k])
				return
			}
			if m.got != 0 {
				l.e.Bad("L03", "a message is transmitted twice", "message %d", m.id)
			}
			m.got = simrt.Seq()
			l.order = append(l.order, m.id)
			l.in = l.in[4+k:]
			simrt.Tracef("peer received message %d", m.id)
		}
		if err != nil {
			l.eof = true
			l.p.Close()
			return
		}
	}
}

func (l *lsend) receiver() {
	for {
		m, err := l.s.Receive()
		if err != nil {
			if !l.s.IsClosed() {
				l.e.Bad("L03", "a session whose receiving failed stays open", "%v", err)
			}
			return
		}
		b := m.([]byte)
		id := int(binary.BigEndian.Uint32(b))
		if string(b) != string(l.body(id, len(b))) {
			l.e.Bad("L03", "a received message is damaged", "%x", b)
		}
		l.recvs = append(l.recvs, id)
	}
}

func (l *lsend) doClose() {
	c := &lcall{k: "close", inv: simrt.Seq(), ret: open}
	l.closes = append(l.closes, c)
	c.err = l.s.Close()
	c.ret = simrt.Seq()
	simrt.Tracef("close: %v", c.err)
}

func (l *lsend) send(o Op) {
	m := &lmsg{id: len(l.msgs) + 1, task: o.D, n: int(o.A), ret: open}
	l.msgs = append(l.msgs, m)
	l.byID[m.id] = m
	b := l.body(m.id, m.n)
	m.at, m.inv = simrt.Now(), simrt.Seq()
	m.err = l.s.Send(b)
	m.end, m.ret = simrt.Now(), simrt.Seq()
	simrt.Tracef("send %d: %v", m.id, m.err)
	l.e.Work++
	if m.err != nil && !l.s.IsClosed() && m.err != link.SessionClosedError {
		l.e.Bad("L03", "a session whose sending failed stays open", "%v", m.err)
	}
	if m.err == link.SessionClosedError && !l.s.IsClosed() {
		l.e.Bad("L03", "Send on an open session reports that it is closed", "message %d", m.id)
	}
}

func runLSend(e *Env) {
	l := &lsend{e: e, g: simrt.NewGroup("sut"), byID: map[int]*lmsg{}, closedAt: open, pause: ms(e.P.C("pause"))}
	a, b := snet.Pipe()
	l.c, l.p = a.(*snet.TCPConn), b.(*snet.TCPConn)
	hg := simrt.NewGroup("harness-peer")
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		var c link.Codec
		var err error
		switch e.P.C("codec") {
		case 0:
			c = &frameCodec{rw.(io.ReadWriteCloser)}
		case 1:
			c, err = codec.FixLen(codec.Byte(), 4, binary.BigEndian, 4000, 4000).NewCodec(rw)
		case 3: // a base whose Close reports an error
			c, err = codec.Bufio(link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
				return &frameCodec{failClose{rw}}, nil
			}), 100, 100).NewCodec(rw)
		default:
			c, err = codec.Bufio(codec.FixLen(codec.Byte(), 4, binary.BigEndian, 4000, 4000), 100, 100).NewCodec(rw)
		}
		if err != nil {
			return nil, err
		}
		rc := &recCodec{Codec: c, l: l}
		if e.P.Has("clear") {
			return &clearCodec{rc}, nil
		}
		return rc, nil
	})
	simrt.In(l.g, func() {
		c, err := proto.NewCodec(l.c)
		if err != nil {
			panic(err)
		}
		if e.P.Has("withid") {
			l.s = link.NewSessionWithId(c, int(e.P.C("buf")), 4711)
		} else {
			l.s = link.NewSession(c, int(e.P.C("buf")))
		}
	})
	l.s.AddCloseCallback(l, 0, func() { l.closedAt = simrt.Seq() })
	simrt.GoIn(hg, "peer-reader", l.peer)
	for i := max(1, e.P.C("receivers")); i > 0; i-- {
		simrt.GoIn(l.g, "receiver", l.receiver)
	}
	by := map[int64][]Op{}
	var ids []int64
	busy := map[int64]int{}
	last := int64(0)
	for _, o := range e.P.Ops {
		last = max(last, o.At)
		if o.K != "snd" {
			o := o
			gg, nm := hg, "peer-op"
			if o.K == "close" {
				gg, nm = l.g, "closer"
			}
			simrt.GoIn(gg, nm, func() {
				simrt.Sleep(ms(o.At) - simrt.Now())
				l.fault(o)
			})
			continue
		}
		if by[o.D] == nil {
			ids = append(ids, o.D)
		}
		by[o.D] = append(by[o.D], o)
	}
	for _, d := range ids {
		d := d
		busy[d] = 1
		simrt.GoIn(l.g, fmt.Sprintf("sender%d", d), func() {
			for _, o := range by[d] {
				if w := ms(o.At) - simrt.Now(); w > 0 {
					simrt.Sleep(w)
				}
				l.send(o)
			}
			delete(busy, d)
		})
	}
	simrt.Sleep(ms(last) + time.Second + e.Tol)
	l.c.Link().Thaw(true)
	l.c.Link().Thaw(false)
	simrt.Sleep(10*time.Second + e.Tol)
	closed := l.s.IsClosed()
	for d := range busy {
		if e.P.C("buf") > 0 || closed || !l.stop {
			e.Bad("L03", "a send does not end", "sender %d, session closed %v", d, closed)
		}
	}
	l.check(closed)
	// whatever was under way ends when the session is closed
	l.doClose()
	simrt.Sleep(time.Second + e.Tol)
	for d := range busy {
		e.Bad("L03", "a send does not end when the session is closed", "sender %d", d)
	}
	if live := simrt.Live(l.g); len(live) > 0 {
		e.Bad("L01,L03", "a task of the session outlives it", "%s blocked on %q", live[0].Name, live[0].Why)
	}
	if !l.c.IsClosed() {
		e.Bad("L01,L03", "the connection of a closed session stays open", "")
	}
	if l.codClosed != 1 {
		e.Bad("L01,L03", "the codec is not closed exactly once", "%d", l.codClosed)
	}
}

func (l *lsend) fault(o Op) {
	l.e.Count("fault " + o.K)
	simrt.Tracef("op %s %d", o.K, o.A)
	switch o.K {
	case "close":
		l.doClose()
	case "stop":
		l.stop, l.clogged = true, true
	case "go":
		l.stop = false
	case "freeze":
		l.c.Link().Freeze(o.A == 1)
	case "thaw":
		l.c.Link().Thaw(true)
		l.c.Link().Thaw(false)
	case "pclose":
		l.bad = true
		l.p.Close()
	case "reset":
		l.bad = true
		l.c.Link().Reset()
	case "break":
		l.bad = true
		l.c.BreakAfter(o.A)
	case "psnd":
		l.pmu.Lock()
		defer l.pmu.Unlock()
		id := 1000 + len(l.sent)
		b := l.body(id, int(o.A))
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(len(b)))
		l.sent = append(l.sent, id)
		l.p.Write(append(h, b...))
	}
}

func (l *lsend) check(closed bool) {
	e := l.e
	buf := int(e.P.C("buf"))
	early := open // first Close
	for _, c := range l.closes {
		early = min(early, c.inv)
	}
	blocked := false
	for _, m := range l.msgs {
		if m.err == link.SessionBlockedError {
			blocked = true
		}
	}
	if closed && !l.bad && early == open && !blocked {
		e.Bad("L03", "a session is closed without cause", "")
	}
	if l.sendErr && !closed {
		e.Bad("L03", "a session whose sending failed stays open", "its codec failed")
	}
	pos := map[int]int{}
	for i, id := range l.order {
		pos[id] = i
	}
	acc := 0
	for i, m := range l.msgs {
		if m.ret == open {
			continue
		}
		if buf > 0 && m.end-m.at > e.Tol {
			e.Bad("L03", "a send with a queue waits", "message %d: %v", m.id, m.end-m.at)
		}
		if m.err == nil {
			acc++
		}
		if m.err != nil && buf > 0 && (m.got != 0 || m.taken != 0) {
			e.Bad("L03", "a refused message is transmitted", "message %d: %v", m.id, m.err)
		}
		if m.err == nil && m.got == 0 && !closed && !l.stop && !l.bad {
			e.Bad("L03", "an accepted message is not transmitted although the session stays open", "message %d", m.id)
		}
		if m.err == nil && buf == 0 && m.taken == 0 {
			e.Bad("L03", "a send without a queue reports success and sends nothing", "message %d", m.id)
		}
		for _, c := range l.closes {
			if m.inv > c.ret && (m.err != link.SessionClosedError) {
				e.Bad("L03", "a message is accepted after the session was closed", "message %d: %v", m.id, m.err)
			}
			if c.ret < m.inv && m.got != 0 {
				e.Bad("L03", "a message is transmitted that was sent after the close", "message %d", m.id)
			}
		}
		if m.err == link.SessionBlockedError {
			// The queue is full only if buf messages were accepted and not yet taken.
			n := 0
			for _, x := range l.msgs {
				if x != m && x.inv < m.ret && (x.err == nil || x.ret == open) && (x.taken == 0 || x.taken > m.inv) {
					n++
				}
			}
			e.Count("queue full")
			if buf == 0 || n < buf {
				e.Bad("L03", "Send reports a full queue that has room", "message %d: at most %d of %d queued", m.id, n, buf)
			}
			if !closed {
				e.Bad("L03", "the session stays open after its queue overflowed", "")
			}
		}
		if m.got != 0 {
			for _, x := range l.msgs[:i] {
				if x.got != 0 && x.ret < m.inv && pos[x.id] > pos[m.id] {
					e.Bad("L03", "messages are transmitted out of order", "message %d before %d", m.id, x.id)
				}
				// a gap: nothing accepted earlier may be missing, unless the codec took
				// over the unsent messages when the session was closed
				if x.got == 0 && x.err == nil && x.ret < m.inv && !e.P.Has("clear") {
					e.Bad("L03", "a message is dropped from the middle of the stream", "message %d arrived, %d did not", m.id, x.id)
				}
			}
		}
	}
	cl := map[int]bool{}
	for _, id := range l.cleared {
		if cl[id] {
			e.Bad("L03", "an unsent message is handed back twice", "message %d", id)
		}
		cl[id] = true
		if m := l.find(id); m.taken != 0 || m.err != nil {
			e.Bad("L03", "a message is both sent and handed back as unsent", "message %d", id)
		}
	}
	if closed && buf > 0 && e.P.Has("clear") {
		for _, m := range l.msgs {
			if m.err == nil && m.ret != open && m.taken == 0 && !cl[m.id] {
				e.Bad("L03", "an unsent message is not handed back", "message %d", m.id)
			}
		}
	}
	if e.P.Has("withid") && l.s.ID() != 4711 {
		e.Bad("L03", "the session has not the identifier it was made with", "%d", l.s.ID())
	}
	e.CountN("accepted", int64(acc))
	e.CountN("transmitted", int64(len(l.order)))
	e.CountN("handed back", int64(len(l.cleared)))
	if closed {
		e.Count("session closed")
	}
	// the other direction
	if e.P.C("receivers") > 1 {
		sort.Ints(l.recvs)
	}
	for i, id := range l.recvs {
		if i >= len(l.sent) {
			e.Bad("L03", "more messages are received than were sent", "")
			break
		}
		if id != l.sent[i] {
			e.Bad("L03", "messages are received out of order", "")
		}
	}
	if !closed && !l.bad && len(l.recvs) != len(l.sent) {
		e.Bad("L03", "a message sent by the peer is not received", "%d of %d", len(l.recvs), len(l.sent))
	}
}
