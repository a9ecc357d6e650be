package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// The stream codecs over simulated connections: any segmentation, broken connections,
// sizes around every limit, hostile peers on other sessions (L05).

func init() {
	scenario("lcodec", runLCodec)
	property("L05", 150000, 15000000, gen{1, "lcodec", genL05})
}

// jmsg and jother are the registered message types.
type jmsg struct {
	ID   int
	Text string
	Data []byte
	Sub  *jother
	L    []float64
}
type jother struct {
	ID int
	M  map[string]string
}

func genL05(r *rand.Rand, p *Plan) {
	p.Cfg["buf"] = pick(r, 0, 0, 64)
	p.Cfg["n"] = pick(r, 1, 2, 4, 8)
	p.Cfg["little"] = int64(r.Intn(2))
	p.Cfg["kind"] = int64(r.Intn(8)) // see protocol
	p.Cfg["rb"] = pick(r, 0, 1, 16, 17, 100, 4096)
	p.Cfg["wb"] = pick(r, 0, 1, 16, 100, 4096)
	p.Cfg["max"] = pick(r, 60, 200, 255, 256, 300, 1000, 5000, 65535, 65536, 100000)
	p.Cfg["rmax"] = p.Cfg["max"]
	if chance(r, 0.25) {
		p.Cfg["rmax"] = pick(r, 50, 100, 255, 1000)
	}
	if p.Cfg["net.seg"] == 2 || p.Cfg["net.short"] == 1 || p.Cfg["net.sndbuf"] > 0 {
		p.Cfg["max"] = min(p.Cfg["max"], 5000)
		if p.Cfg["net.sndbuf"] == 64 {
			p.Cfg["max"] = min(p.Cfg["max"], 1000)
		}
	}
	lim := p.Cfg["max"]
	if p.Cfg["n"] == 1 {
		lim = min(lim, 255)
	} else if p.Cfg["n"] == 2 {
		lim = min(lim, 65535)
	}
	span := pick(r, 0, 5, 100)
	size := func() int64 {
		switch r.Intn(8) {
		case 0:
			return lim
		case 1:
			return pick(r, 4090, 4091, 4092, 4093, 5000)
		case 2:
			return pick(r, 0, 1, 255, 256, lim-1)
		default:
			return between(r, 0, 120)
		}
	}
	for s := int64(0); s < 1+int64(r.Intn(2)); s++ {
		for i := 1 + r.Intn(8); i > 0; i-- {
			n := min(size(), lim)
			if chance(r, 0.04) {
				n = lim + between(r, 1, 300)
			}
			p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "snd", A: n, B: int64(r.Intn(2)), C: int64(r.Intn(8)), D: s})
			if chance(r, 0.02) {
				p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "snd", A: -1, B: int64(r.Intn(2)), C: int64(r.Intn(2)), D: s})
			}
		}
		switch r.Intn(8) {
		case 0:
			p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "break", A: between(r, 0, 2000), B: int64(r.Intn(2)), D: s})
		case 1:
			p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "reset", D: s})
		case 2:
			p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "close", B: int64(r.Intn(2)), D: s})
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: between(r, 0, span), K: "junk", A: int64(r.Intn(10)), B: r.Int63n(1 << 30)})
	}
}

type cend struct {
	name string
	s    *link.Session
	conn *snet.TCPConn
	sent []any // successfully, in order
	errs []error
	next int
	all  []any // every message handed to Send, in order
	seqs []int64
	recv []any
	rerr error
	out  chan any
	q    []Op
	t    *simrt.Task
	mu   bool
}

type lcodec struct {
	e     *Env
	g     *simrt.Group
	pairs []*cpair
	jp    *codec.JsonProtocol
}

type cpair struct {
	i       int
	end     [2]*cend
	faulty  bool
	tooBig  bool
	closing bool
}

func (l *lcodec) kind() int64 { return l.e.P.C("kind") }

// protocol builds the codec stack under test.
func (l *lcodec) protocol(recv int64) link.Protocol {
	p := l.e.P
	var bo binary.ByteOrder = binary.BigEndian
	if p.Has("little") {
		bo = binary.LittleEndian
	}
	fix := func(base link.Protocol) link.Protocol {
		return codec.FixLen(base, int(p.C("n")), bo, int(recv), int(p.C("max")))
	}
	switch l.kind() {
	case 0:
		return fix(codec.Byte())
	case 1:
		return fix(l.jp)
	case 2:
		return l.jp
	case 3:
		return codec.Bufio(fix(codec.Byte()), int(p.C("rb")), int(p.C("wb")))
	case 4:
		return codec.Bufio(fix(l.jp), int(p.C("rb")), int(p.C("wb")))
	case 6:
		return codec.Byte()
	case 7:
		return codec.Bufio(codec.Byte(), int(p.C("rb")), int(p.C("wb")))
	default:
		return codec.Bufio(l.jp, int(p.C("rb")), int(p.C("wb")))
	}
}

func (l *lcodec) raw() bool      { return l.kind() >= 6 } // no message boundaries
func (l *lcodec) bytesMsg() bool { return l.kind() == 0 || l.kind() == 3 || l.raw() }
func (l *lcodec) framed() bool   { return l.kind() != 2 && l.kind() != 5 && !l.raw() }

// limit is the largest body both ends agree on.
func (l *lcodec) limit(m int64) int64 {
	switch l.e.P.C("n") {
	case 1:
		return min(m, 255)
	case 2:
		return min(m, 65535)
	}
	return m
}

// message makes message number id with a body of exactly n bytes where that is possible.
func (l *lcodec) message(id int, n int64, kind int64) any {
	if l.bytesMsg() {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(id*37 + i*11 + i>>8)
		}
		return b
	}
	text := func(k int64) string {
		var s strings.Builder
		al := []rune("ab\"\\{}[]: ,\n\u00e9\u4e16\U0001F600<&\u2028")
		for i := int64(0); int64(s.Len()) < k; i++ {
			s.WriteRune(al[int(i*7+int64(id))%len(al)])
		}
		return s.String()
	}
	switch kind {
	case 0:
		return &jother{ID: id, M: map[string]string{"k": text(n / 3)}}
	case 1:
		return jother{ID: id}
	case 2:
		return map[string]any{"id": float64(id), "t": text(n / 4)}
	case 3:
		return &jmsg{ID: id, Data: make([]byte, n/2), L: []float64{1.5, -2e300, float64(id)}}
	case 4:
		return (*jmsg)(nil)
	}
	m := &jmsg{ID: id, Text: text(n / 5), Sub: &jother{ID: -id}}
	// fill up to the exact length with plain text
	if b := l.encoded(m); int64(len(b)) < n {
		m.Text += strings.Repeat("x", int(n)-len(b))
	}
	return m
}

func (l *lcodec) encoded(m any) []byte {
	if b, ok := m.([]byte); ok {
		return b
	}
	head := ""
	switch m.(type) {
	case *jmsg, jmsg:
		head = "verif/jmsg"
		if l.e.P.C("rb")%2 == 0 {
			head = "J"
		}
	case *jother, jother:
		t := reflect.TypeOf(jother{})
		head = t.PkgPath() + "/" + t.Name()
	}
	b, _ := json.Marshal(map[string]any{"Head": head, "Body": m})
	return append(b, '\n')
}

// equal compares what was received with what was sent.
func (l *lcodec) equal(sent, got any) bool {
	if b, ok := sent.([]byte); ok {
		g, ok := got.([]byte)
		return ok && bytes.Equal(b, g)
	}
	if j, ok := sent.(jother); ok {
		sent = &j
	}
	if j, ok := sent.(*jmsg); ok && j == nil {
		return got == nil || reflect.ValueOf(got).IsNil()
	}
	if m, ok := sent.(*jmsg); ok && m.Data != nil && len(m.Data) == 0 {
		c := *m
		c.Data = []byte{}
		sent = &c
	}
	return reflect.DeepEqual(sent, got)
}

func runLCodec(e *Env) {
	l := &lcodec{e: e, g: simrt.NewGroup("sut")}
	hg := simrt.NewGroup("harness-peer")
	l.jp = codec.Json()
	if e.P.C("rb")%2 == 0 {
		l.jp.RegisterName("J", &jmsg{})
	} else {
		l.jp.RegisterName("verif/jmsg", jmsg{})
	}
	if e.P.C("wb")%2 == 0 {
		l.jp.Register(&jother{})
	} else {
		l.jp.Register(jother{})
	}
	accepted := map[*snet.TCPConn]*link.Session{}
	rawJunk := map[*snet.TCPConn]*cend{}
	var srv *link.Server
	simrt.In(l.g, func() {
		ls, err := snet.Listen("tcp", lAddr)
		if err != nil {
			panic(err)
		}
		srvProto := l.protocol(e.P.C("rmax"))
		var last *snet.TCPConn
		wrap := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			c, err := srvProto.NewCodec(rw)
			if err != nil {
				return nil, err
			}
			last = rw.(*snet.TCPConn)
			return &tagCodec{c, last}, nil
		})
		srv = link.NewServer(ls, wrap, int(e.P.C("buf")), link.HandlerFunc(func(s *link.Session) {
			c := s.Codec().(*tagCodec).conn
			accepted[c] = s
			x := rawJunk[c.Link().C]
			if x == nil {
				x = l.endOf(c)
			}
			if x == nil { // not yet known: the dialler has not returned
				for i := 0; i < 200 && x == nil; i++ {
					simrt.Sleep(5 * time.Millisecond)
					if x = rawJunk[c.Link().C]; x == nil {
						x = l.endOf(c)
					}
				}
			}
			if x == nil {
				s.Close()
				return
			}
			x.s, x.conn = s, c
			l.receive(x)
		}))
	})
	simrt.GoIn(l.g, "serve", func() { srv.Serve() })
	n := int64(0)
	for _, o := range e.P.Ops {
		if o.K != "junk" {
			n = max(n, o.D+1)
		}
	}
	for i := int64(0); i < n; i++ {
		p := &cpair{i: int(i)}
		p.end[0], p.end[1] = &cend{name: fmt.Sprintf("client %d", i)}, &cend{name: fmt.Sprintf("server %d", i)}
		l.pairs = append(l.pairs, p)
		simrt.In(l.g, func() {
			s, err := link.Dial("tcp", lAddr, l.tagged(l.protocol(e.P.C("rmax"))), int(e.P.C("buf")))
			if err != nil {
				panic(err)
			}
			p.end[0].s, p.end[0].conn = s, s.Codec().(*tagCodec).conn
		})
		simrt.GoIn(l.g, "client-receiver", func() { l.receive(p.end[0]) })
	}
	simrt.Sleep(time.Second + e.Tol)
	for _, p := range l.pairs {
		if p.end[1].s == nil {
			e.Bad("L04,L05", "a connection is not served", "")
			return
		}
	}
	t0 := simrt.Now()
	last := int64(0)
	var junk []*cend
	for _, o := range e.P.Ops {
		o := o
		last = max(last, o.At)
		switch o.K {
		case "snd":
			x := l.pairs[o.D].end[o.B]
			x.q = append(x.q, o)
		case "junk":
			x := &cend{name: "junk"}
			junk = append(junk, x)
			simrt.GoIn(hg, "junk", func() {
				simrt.Sleep(ms(o.At))
				l.junk(o, x, rawJunk)
			})
		default:
			simrt.GoIn(hg, o.K, func() {
				simrt.Sleep(ms(o.At))
				p := l.pairs[o.D]
				e.Count("fault " + o.K)
				p.faulty = true
				switch o.K {
				case "break":
					p.end[o.B].conn.BreakAfter(o.A)
				case "reset":
					p.end[0].conn.Link().Reset()
				case "close":
					p.end[o.B].s.Close()
				}
			})
		}
	}
	left := 0
	for _, p := range l.pairs {
		for b := range p.end {
			p, x := p, p.end[b]
			if len(x.q) == 0 {
				continue
			}
			left++
			simrt.GoIn(l.g, "sender", func() {
				for i, o := range x.q {
					if w := t0 + ms(o.At) - simrt.Now(); w > 0 {
						simrt.Sleep(w)
					}
					l.send(p, x, i, o)
				}
				left--
			})
		}
	}
	simrt.Sleep(ms(last) + 20*time.Second + e.Tol)
	if left > 0 {
		e.Bad("L05,L03", "a send does not end", "")
	}
	l.check(junk)
	for _, p := range l.pairs {
		p.end[0].s.Close()
	}
	srv.Stop()
	simrt.Sleep(time.Second + e.Tol)
	for _, k := range e.W.Links {
		if k.Accepted && !k.S.IsClosed() {
			e.Bad("L05,L04", "the connection of a closed session stays open", "server side")
		}
		if k.C.Group() == l.g && !k.C.IsClosed() {
			e.Bad("L05,L04", "the connection of a closed session stays open", "client side")
		}
	}
}

type tagCodec struct {
	link.Codec
	conn *snet.TCPConn
}

func (l *lcodec) tagged(p link.Protocol) link.Protocol {
	return link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		c, err := p.NewCodec(rw)
		return &tagCodec{c, rw.(*snet.TCPConn)}, err
	})
}

func (l *lcodec) endOf(c *snet.TCPConn) *cend {
	for _, p := range l.pairs {
		if p.end[0].conn == c.Link().C {
			return p.end[1]
		}
	}
	return nil
}

func (l *lcodec) receive(x *cend) {
	for {
		m, err := x.s.Receive()
		if err != nil {
			x.rerr = err
			simrt.Tracef("%s: receive: %v", x.name, err)
			return
		}
		if b, ok := m.([]byte); ok {
			m = append([]byte{}, b...)
		}
		x.recv = append(x.recv, m)
		simrt.Tracef("%s: received %.60q", x.name, fmt.Sprint(m))
	}
}

func (l *lcodec) send(p *cpair, x *cend, i int, o Op) {
	if o.A < 0 {
		l.sendBad(p, x, o)
		return
	}
	m := l.message(i+1+1000*int(o.B), o.A, o.C)
	size := int64(len(l.encoded(m)))
	big := l.framed() && size > l.limit(l.e.P.C("max"))
	rbig := l.framed() && size > l.limit(l.e.P.C("rmax"))
	if big || rbig {
		p.tooBig = true
	}
	wasOpen := !x.s.IsClosed()
	err := x.s.Send(m)
	if !wasOpen && err != link.SessionClosedError {
		l.e.Bad("L05,L03", "Send on a closed session does not report that it is closed", "%v", err)
	}
	simrt.Tracef("%s: send %d bytes: %v", x.name, size, err)
	l.e.Work++
	if big && l.e.P.C("buf") == 0 {
		l.e.Count("oversized send")
		if err == nil {
			l.e.Bad("L05", "an oversized message is accepted", "%d bytes, limit %d", size, l.limit(l.e.P.C("max")))
		} else if wasOpen && !p.faulty && err != codec.ErrTooLargePacket && err != link.SessionClosedError && !x.s.IsClosed() {
			l.e.Bad("L05", "an oversized message is not reported as such", "%v", err)
		}
	}
	if err != nil && !p.faulty && !p.tooBig && !x.s.IsClosed() {
		l.e.Bad("L05", "a send fails on an undisturbed connection", "%v", err)
	}
	x.all = append(x.all, m)
	if err == nil && !big {
		x.sent = append(x.sent, m)
	}
}

// sendBad sends something the codec has no form for.
func (l *lcodec) sendBad(p *cpair, x *cend, o Op) {
	var m any = func() {}
	if l.bytesMsg() {
		m = "text"
	} else if o.C != 0 {
		m = &struct{ C chan int }{}
	}
	p.tooBig = true
	l.e.Count("send of something without a form")
	err := x.s.Send(m)
	if err == nil && l.e.P.C("buf") == 0 {
		l.e.Bad("L05", "something that cannot be encoded is accepted", "%T", m)
	}
	simrt.Sleep(time.Second + l.e.Tol)
	if !x.s.IsClosed() {
		l.e.Bad("L05,L03", "a session whose sending failed stays open", "%T", m)
	}
}

func (l *lcodec) check(junk []*cend) {
	e := l.e
	for _, p := range l.pairs {
		for b := range p.end {
			x, y := p.end[b], p.end[1-b]
			if l.raw() {
				var all, got []byte
				for _, m := range x.all {
					all = append(all, m.([]byte)...)
				}
				for _, m := range y.recv {
					got = append(got, m.([]byte)...)
				}
				x.all, x.sent, y.recv = []any{all}, []any{all}, []any{got}
				if len(got) < len(all) && bytes.Equal(got, all[:len(got)]) {
					x.all[0] = got
					if !p.faulty && !p.tooBig {
						e.Bad("L05", "bytes do not arrive", "%s: %d of %d", y.name, len(got), len(all))
					}
				}
			}
			for i, m := range y.recv {
				if i >= len(x.all) {
					e.Bad("L05", "more messages arrive than were sent", "%s", y.name)
					break
				}
				if !l.equal(x.all[i], m) {
					if big := l.framed() && int64(len(l.encoded(x.all[i]))) > l.limit(e.P.C("rmax")); big {
						e.Bad("L05", "an oversized message is delivered", "%s", y.name)
					}
					e.Bad("L05", "a message arrives altered", "%s message %d: sent %.200q, got %.200q", y.name, i, fmt.Sprintf("%v", x.all[i]), fmt.Sprintf("%v", m))
				}
				if l.framed() && int64(len(l.encoded(m))) > l.limit(e.P.C("rmax")) {
					e.Bad("L05", "an oversized message is delivered", "%s", y.name)
				}
			}
			if !p.faulty && !p.tooBig && len(y.recv) != len(x.sent) {
				e.Bad("L05", "a message does not arrive", "%s: %d of %d, then %v", y.name, len(y.recv), len(x.sent), y.rerr)
			}
			if !p.faulty && !p.tooBig && (x.s.IsClosed() || x.rerr != nil) {
				e.Bad("L05", "an undisturbed session is closed", "%s: %v", x.name, x.rerr)
			}
			if x.rerr != nil && !x.s.IsClosed() {
				e.Bad("L05", "a session that cannot receive stays open", "%s", x.name)
			}
			e.CountN("delivered", int64(len(y.recv)))
		}
	}
	for _, x := range junk {
		// what a hostile peer got delivered is a prefix of the complete messages it sent
		for i, m := range x.recv {
			if i >= len(x.sent) || !l.equal(x.sent[i], m) {
				e.Bad("L05", "damaged input is delivered as a message", "%.100q", fmt.Sprint(m))
			}
		}
		if x.s != nil && len(x.recv) < len(x.sent) {
			e.Bad("L05", "a complete message before damaged input is not delivered", "%d of %d, then %v", len(x.recv), len(x.sent), x.rerr)
		}
		if x.s != nil {
			e.Count("junk session")
		}
	}
}

// junk sends complete messages and then something damaged, and closes.
func (l *lcodec) junk(o Op, x *cend, reg map[*snet.TCPConn]*cend) {
	c, err := snet.Dial("tcp", lAddr)
	if err != nil {
		return
	}
	reg[c.(*snet.TCPConn)] = x
	if l.raw() {
		c.Close()
		return
	}
	r := rand.New(rand.NewSource(o.B))
	n := int(l.e.P.C("n"))
	head := func(size uint64) []byte {
		b := make([]byte, 8)
		if l.e.P.Has("little") {
			binary.LittleEndian.PutUint64(b, size)
			return b[:n]
		}
		binary.BigEndian.PutUint64(b, size)
		return b[8-n:]
	}
	frame := func(b []byte) []byte {
		if l.framed() {
			return append(head(uint64(len(b))), b...)
		}
		return b
	}
	var out []byte
	for i := r.Intn(3); i > 0; i-- {
		m := l.message(500+i, int64(r.Intn(40)), 0)
		if b := l.encoded(m); !l.framed() || int64(len(b)) <= l.limit(l.e.P.C("rmax")) {
			x.sent = append(x.sent, m)
			out = append(out, frame(b)...)
		}
	}
	if b := []byte(`{"Head":"nobody","Body":{"a":1}}`); !l.bytesMsg() && r.Intn(3) == 0 && (!l.framed() || int64(len(b)) <= l.limit(l.e.P.C("rmax"))) {
		// a type nobody registered
		x.sent = append(x.sent, map[string]any{"a": 1.0})
		out = append(out, frame(b)...)
	}
	bad := []string{`{"Head":"J"}`, `{"Head":"verif/jmsg","Body":7}`, `{}`, `{"Head":1}`, `[`, `"x`, `{"Head":"J","Body":{"ID":"no"}}`, `}{`, "\x00\xff", `{"Head":"","Body":`}[o.A]
	if l.e.P.C("rb")%2 != 0 {
		bad = strings.ReplaceAll(bad, `"J"`, `"verif/jmsg"`)
	} else {
		bad = strings.ReplaceAll(bad, `"verif/jmsg"`, `"J"`)
	}
	l.e.Count("fault junk")
	switch {
	case l.framed() && o.A%2 == 0: // a length nobody may believe, or a message cut short
		switch r.Intn(4) {
		case 0:
			out = append(out, head(0xFFFFFFFFFFFFFFFF)...)
		case 1:
			out = append(out, head(uint64(l.limit(l.e.P.C("rmax")))+1)...)
			if l.limit(l.e.P.C("rmax"))+1 == 1<<(8*uint(n)) {
				out = append(out[:len(out)-n], head(0)[:n-1]...) // a cut head
			}
		case 2:
			out = append(out, head(0x8000000000000001)...)
			if n < 8 {
				out = append(out[:len(out)-n], head(uint64(min(40, l.limit(l.e.P.C("rmax")))))...)
			}
		default:
			out = append(out, head(20)...)
			out = append(out, "short"...)
		}
	case l.bytesMsg():
		out = append(out, head(9)...)
		out = append(out, 'x')
	default:
		out = append(out, frame([]byte(bad))...)
	}
	c.Write(out)
	simrt.Sleep(ms(int64(r.Intn(50))))
	simrt.Sleep(2 * time.Second)
	c.Close()
}
