// Package net mirrors the standard package with a simulated TCP network.
package net

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/younglifestyle/secs4go/verifsim/shim/context"
	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type (
	Conn                = net.Conn
	Listener            = net.Listener
	Addr                = net.Addr
	Error               = net.Error
	OpError             = net.OpError
	TCPAddr             = net.TCPAddr
	UDPAddr             = net.UDPAddr
	IP                  = net.IP
	IPNet               = net.IPNet
	IPMask              = net.IPMask
	AddrError           = net.AddrError
	ParseError          = net.ParseError
	DNSError            = net.DNSError
	Buffers             = net.Buffers
	UnknownNetworkError = net.UnknownNetworkError
)

var ErrClosed = net.ErrClosed

func JoinHostPort(h, p string) string                { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error) { return net.SplitHostPort(s) }
func ParseIP(s string) IP                            { return net.ParseIP(s) }
func ParseCIDR(s string) (IP, *IPNet, error)         { return net.ParseCIDR(s) }
func IPv4(a, b, c, d byte) IP                        { return net.IPv4(a, b, c, d) }
func ResolveTCPAddr(n, a string) (*TCPAddr, error)   { return net.ResolveTCPAddr(n, a) }
func LookupHost(h string) ([]string, error)          { return []string{"127.0.0.1"}, nil }

// NetCfg tunes the network; everything random is drawn from the noise stream.
type NetCfg struct {
	MinDelay  time.Duration
	Jitter    time.Duration
	SegMode   int           // 0: whole writes, 1: random cuts, 2: tiny segments
	Short     bool          // reads may return less than is available
	SndBuf    int           // bytes in flight per direction before Write blocks
	ConnDelay time.Duration // extra delay of connection establishment (random up to)
}

// DialRec is one connection attempt as the network saw it.
type DialRec struct {
	At, End time.Duration
	Seq     int64
	Addr    string
	G       *simrt.Group
	Outcome string // "", "ok", "refused", "timeout"
	Link    *Link
}

// LsnRec is one listener.
type LsnRec struct {
	At, ClosedAt time.Duration
	Addr         string
	G            *simrt.Group
	L            *TCPListener
}

type World struct {
	Cfg       NetCfg
	listeners map[string]*TCPListener
	Links     []*Link
	Dials     []*DialRec
	Lsns      []*LsnRec
	Refuse    map[string]bool
	Blackhole map[string]bool
	DialHook  func(d *DialRec) string // "", "refuse", "blackhole", "reset" (accepted, then reset at once)
	port      int
	Stats     map[string]int64
	OnData    func(l *Link, fromClient bool, b []byte)
}

var W *World

// Reset installs a fresh network.
func Reset(cfg NetCfg) *World {
	if cfg.SndBuf == 0 {
		cfg.SndBuf = 256 << 10
	}
	W = &World{Cfg: cfg, listeners: map[string]*TCPListener{}, Refuse: map[string]bool{}, Blackhole: map[string]bool{}, port: 40000, Stats: map[string]int64{}}
	return W
}

// TapRec is a piece of the byte stream as written (At: when accepted by the socket).
type TapRec struct {
	At   time.Duration
	Seq  int64
	B    []byte
	Task string
}

// ArrRec notes that the stream up to offset Off had arrived at the peer at At.
type ArrRec struct {
	At  time.Duration
	Seq int64
	Off int64
}

// Link is one TCP connection.
type Link struct {
	ID        int
	Addr      string
	C, S      *TCPConn
	At        time.Duration
	Frozen    [2]bool // [0]: client->server, [1]: server->client
	held      [2][]func()
	Accepted  bool
	AccAt     time.Duration
	AccSeq    int64
	closedAny bool
}

type TCPConn struct {
	link          *Link
	client        bool
	peer          *TCPConn
	g             *simrt.Group
	local, remote *TCPAddr

	buf       []byte
	inflight  int   // bytes written by the peer, not yet read by us
	lastArr   int64 // time of the latest scheduled arrival at this end
	fin       bool
	rst       bool // reset received or local abort
	closed    bool
	ClosedAt  time.Duration
	ClosedSeq int64
	GoneAt    time.Duration // when this end learned of the peer's close/reset
	rdl, wdl  int64
	rt, wt    *simrt.Timer
	rq, wq    []*simrt.Task
	Tap       []TapRec // what this end wrote
	TapLen    int64
	Arr       []ArrRec // arrivals at this end
	arrOff    int64
	ReadOff   int64
	failAfter int64 // >=0: the connection breaks once this many more bytes were written
	stallRead bool
}

func (c *TCPConn) Link() *Link         { return c.link }
func (c *TCPConn) Group() *simrt.Group { return c.g }
func (c *TCPConn) IsClosed() bool      { return c.closed }
func (c *TCPConn) IsDown() bool        { return c.closed || c.rst || c.fin }
func (c *TCPConn) IsReset() bool       { return c.rst }
func (c *TCPConn) Unread() int         { return len(c.buf) }

const none = int64(-1)

func mkLink(addr string, client *simrt.Group) *Link {
	w := W
	l := &Link{ID: len(w.Links), Addr: addr, At: simrt.Now()}
	w.port++
	h, p, _ := net.SplitHostPort(addr)
	pn, _ := strconv.Atoi(p)
	ca := &TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: w.port}
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	sa := &TCPAddr{IP: ip, Port: pn}
	l.C = &TCPConn{link: l, client: true, g: client, local: ca, remote: sa, rdl: none, wdl: none, failAfter: none}
	l.S = &TCPConn{link: l, local: sa, remote: ca, rdl: none, wdl: none, failAfter: none}
	l.C.peer, l.S.peer = l.S, l.C
	w.Links = append(w.Links, l)
	return l
}

func (w *World) delay() time.Duration {
	d := w.Cfg.MinDelay
	if w.Cfg.Jitter > 0 {
		d += time.Duration(simrt.Rand().Int63n(int64(w.Cfg.Jitter) + 1))
	}
	return d
}

func dir(fromClient bool) int {
	if fromClient {
		return 0
	}
	return 1
}

// arrive schedules f at the peer end of c, in stream order.
func (c *TCPConn) arrive(f func()) {
	p := c.peer
	at := int64(simrt.Now()) + int64(W.delay())
	if at < p.lastArr {
		at = p.lastArr
	}
	p.lastArr = at
	l, d := c.link, dir(c.client)
	simrt.AtGlobal(time.Duration(at-int64(simrt.Now())), func() {
		if l.Frozen[d] {
			l.held[d] = append(l.held[d], f)
			return
		}
		f()
	})
}

// Freeze stops delivery in one direction (a partition, or a dead peer).
func (l *Link) Freeze(fromClient bool) { l.Frozen[dir(fromClient)] = true; W.Stats["freeze"]++ }

// Thaw resumes delivery; what was held arrives now.
func (l *Link) Thaw(fromClient bool) {
	d := dir(fromClient)
	l.Frozen[d] = false
	h := l.held[d]
	l.held[d] = nil
	for _, f := range h {
		f()
	}
}

// Reset breaks the connection at once, as seen by both ends.
func (l *Link) Reset() {
	W.Stats["reset"]++
	l.C.abort()
	l.S.abort()
}

// BreakAfter makes the connection break when this end has written n more bytes: the
// prefix reaches the peer, the rest is lost.
func (c *TCPConn) BreakAfter(n int64) { c.failAfter = n }

func (c *TCPConn) abort() {
	if c.rst || c.closed {
		return
	}
	c.rst = true
	if c.GoneAt == 0 {
		c.GoneAt = simrt.Now()
	}
	c.buf = nil
	c.wakeAll()
}

func wake(q *[]*simrt.Task) {
	l := *q
	*q = nil
	for _, t := range l {
		simrt.Ready(t)
	}
}
func (c *TCPConn) wakeAll() { wake(&c.rq); wake(&c.wq) }

func (c *TCPConn) operr(op string, err error) error {
	return &OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *TCPConn) Read(b []byte) (int, error) {
	if !simrt.InSim() {
		return 0, io.EOF
	}
	simrt.Point()
	for {
		if c.closed {
			return 0, c.operr("read", ErrClosed)
		}
		if c.rdl != none && int64(simrt.Now()) >= c.rdl {
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.rst {
			return 0, c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(c.buf) > 0 {
			n := min(len(b), len(c.buf))
			if W.Cfg.Short && n > 1 && simrt.Rand().Intn(3) == 0 {
				n = 1 + simrt.Rand().Intn(n)
				W.Stats["short_read"]++
			}
			copy(b, c.buf[:n])
			c.buf = c.buf[n:]
			c.inflight -= n
			c.ReadOff += int64(n)
			wake(&c.peer.wq)
			simrt.Mix(uint64(n)<<8 | 1)
			return n, nil
		}
		if c.fin {
			return 0, io.EOF
		}
		c.rq = append(c.rq, simrt.Cur())
		simrt.Block("net read")
	}
}

// Roomy makes the send buffers large from now on.
func (w *World) Roomy() {
	w.Cfg.SndBuf = 256 << 10
	for _, l := range w.Links {
		wake(&l.C.wq)
		wake(&l.S.wq)
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if !simrt.InSim() {
		return 0, io.ErrClosedPipe
	}
	simrt.Point()
	n := 0
	for {
		if c.closed {
			return n, c.operr("write", ErrClosed)
		}
		if c.rst {
			return n, c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.wdl != none && int64(simrt.Now()) >= c.wdl {
			return n, c.operr("write", os.ErrDeadlineExceeded)
		}
		if n == len(b) {
			return n, nil
		}
		space := W.Cfg.SndBuf - c.peer.inflight
		if space <= 0 {
			W.Stats["write_block"]++
			c.wq = append(c.wq, simrt.Cur())
			simrt.Block("net write")
			continue
		}
		k := min(space, len(b)-n)
		brk := false
		if c.failAfter >= 0 && int64(k) >= c.failAfter {
			k = int(c.failAfter)
			brk = true
		}
		if k > 0 {
			c.push(b[n:n+k], len(b))
			n += k
		}
		if c.failAfter >= 0 {
			c.failAfter -= int64(k)
		}
		if brk {
			W.Stats["break_mid_write"]++
			c.failAfter = none
			p := c.peer
			c.rst = true
			c.GoneAt = simrt.Now()
			c.buf = nil
			c.wakeAll()
			c.arrive(func() { p.gone(); p.fin = true; wake(&p.rq) })
			return n, c.operr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
	}
}

// push hands bytes of a write of total bytes to the network.
func (c *TCPConn) push(b []byte, total int) {
	data := append([]byte(nil), b...)
	c.Tap = append(c.Tap, TapRec{At: simrt.Now(), Seq: simrt.Seq(), B: data, Task: simrt.Cur().Name})
	c.TapLen += int64(len(data))
	simrt.Mix(uint64(len(data))<<8 | 2)
	for _, x := range data {
		simrt.Mix(uint64(x))
	}
	if W.OnData != nil {
		W.OnData(c.link, c.client, data)
	}
	p := c.peer
	p.inflight += len(data)
	r := simrt.Rand()
	for len(data) > 0 {
		k := len(data)
		switch W.Cfg.SegMode {
		case 1:
			if k > 1 && r.Intn(2) == 0 {
				k = 1 + r.Intn(k)
			}
		case 2:
			if len(data) < 400 {
				k = min(k, 1+r.Intn(3))
			} else {
				k = min(k, 1+r.Intn(max(200, total/500)))
			}
		}
		seg := data[:k]
		data = data[k:]
		W.Stats["segment"]++
		c.arrive(func() {
			if p.closed || p.rst {
				// data for a closed socket: the kernel answers with a reset
				if p.closed && !c.closed && !c.rst {
					p.arrive(func() { c.abort() })
				}
				return
			}
			p.buf = append(p.buf, seg...)
			p.arrOff += int64(len(seg))
			p.Arr = append(p.Arr, ArrRec{At: simrt.Now(), Seq: simrt.Seq(), Off: p.arrOff})
			wake(&p.rq)
		})
	}
}

func (c *TCPConn) gone() {
	if c.GoneAt == 0 {
		c.GoneAt = simrt.Now()
	}
}

func (c *TCPConn) Close() error {
	if simrt.Tear() || simrt.S == nil {
		return nil
	}
	simrt.Point()
	if c.closed {
		return c.operr("close", ErrClosed)
	}
	c.shut()
	return nil
}

func (c *TCPConn) shut() {
	if c.closed {
		return
	}
	unread := len(c.buf) > 0
	c.closed = true
	c.ClosedAt = simrt.Now()
	c.ClosedSeq = simrt.Seq()
	c.rt.Stop()
	c.wt.Stop()
	c.buf = nil
	c.wakeAll()
	p := c.peer
	if c.rst {
		return
	}
	simrt.Mix(uint64(c.link.ID)<<8 | 3)
	if unread {
		c.arrive(func() { p.abort() })
	} else {
		c.arrive(func() { p.gone(); p.fin = true; wake(&p.rq) })
	}
}

// CloseWrite sends FIN only.
func (c *TCPConn) CloseWrite() error {
	p := c.peer
	c.arrive(func() { p.gone(); p.fin = true; wake(&p.rq) })
	return nil
}
func (c *TCPConn) CloseRead() error { return nil }

// Abort is Close with a reset (SO_LINGER 0).
func (c *TCPConn) Abort() {
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedAt = simrt.Now()
	c.ClosedSeq = simrt.Seq()
	c.buf = nil
	c.wakeAll()
	p := c.peer
	c.arrive(func() { p.abort() })
}

func (c *TCPConn) LocalAddr() Addr  { return c.local }
func (c *TCPConn) RemoteAddr() Addr { return c.remote }

func (c *TCPConn) setDL(dl *int64, tm **simrt.Timer, q *[]*simrt.Task, t time.Time) {
	(*tm).Stop()
	*tm = nil
	if t.IsZero() {
		*dl = none
		return
	}
	d := int64(t.Sub(stime.Epoch))
	if d < 0 {
		d = 0
	}
	*dl = d
	left := d - int64(simrt.Now())
	if left <= 0 {
		wake(q)
		return
	}
	*tm = simrt.AtGlobal(time.Duration(left), func() { wake(q) })
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if simrt.Tear() {
		return nil
	}
	simrt.Point()
	if c.closed {
		return c.operr("set", ErrClosed)
	}
	c.setDL(&c.rdl, &c.rt, &c.rq, t)
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if simrt.Tear() {
		return nil
	}
	simrt.Point()
	if c.closed {
		return c.operr("set", ErrClosed)
	}
	c.setDL(&c.wdl, &c.wt, &c.wq, t)
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

// ---- listeners

type TCPListener struct {
	addr    *TCPAddr
	key     string
	g       *simrt.Group
	pending []*TCPConn
	closed  bool
	q       []*simrt.Task
	dl      int64
	dt      *simrt.Timer
	ErrQ    []error // injected Accept errors
	Rec     *LsnRec
	AcceptN int
}

func key(addr string) string {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	if h == "" || h == "0.0.0.0" || h == "::" || h == "localhost" || h == "[::]" {
		h = "127.0.0.1"
	}
	return h + ":" + p
}

func Listen(network, address string) (Listener, error) {
	if !simrt.InSim() {
		return nil, fmt.Errorf("listen outside simulation")
	}
	simrt.Point()
	if !strings.HasPrefix(network, "tcp") {
		return nil, &OpError{Op: "listen", Net: network, Err: UnknownNetworkError(network)}
	}
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	if p == "0" {
		W.port++
		p = strconv.Itoa(W.port)
		address = net.JoinHostPort(h, p)
	}
	pn, err := strconv.Atoi(p)
	if err != nil || pn < 0 || pn > 65535 {
		return nil, &OpError{Op: "listen", Net: network, Err: &AddrError{Err: "invalid port", Addr: address}}
	}
	k := key(address)
	if l := W.listeners[k]; l != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	kh, _, _ := net.SplitHostPort(k)
	l := &TCPListener{addr: &TCPAddr{IP: net.ParseIP(kh), Port: pn}, key: k, g: simrt.CurGroup(), dl: none}
	l.Rec = &LsnRec{At: simrt.Now(), ClosedAt: -1, Addr: k, G: l.g, L: l}
	W.Lsns = append(W.Lsns, l.Rec)
	W.listeners[k] = l
	l.g.OnKill = append(l.g.OnKill, func() { l.shut() })
	return l, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if !simrt.InSim() {
		return nil, ErrClosed
	}
	simrt.Point()
	for {
		if l.closed {
			return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: ErrClosed}
		}
		if len(l.ErrQ) > 0 {
			e := l.ErrQ[0]
			l.ErrQ = l.ErrQ[1:]
			W.Stats["accept_error"]++
			return nil, e
		}
		if l.dl != none && int64(simrt.Now()) >= l.dl {
			return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
		}
		if len(l.pending) > 0 {
			c := l.pending[0]
			l.pending = l.pending[1:]
			c.g = simrt.CurGroup()
			c.link.Accepted, c.link.AccAt, c.link.AccSeq = true, simrt.Now(), simrt.Seq()
			l.AcceptN++
			own(c)
			return c, nil
		}
		l.q = append(l.q, simrt.Cur())
		simrt.Block("net accept")
	}
}

// TempAcceptError is what Accept reports when the process is out of descriptors.
func TempAcceptError() error {
	return &OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EMFILE)}
}

// AbortedAcceptError is ECONNABORTED from accept.
func AbortedAcceptError() error {
	return &OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.ECONNABORTED)}
}

// Inject makes the next Accept calls fail with the given errors.
func (l *TCPListener) Inject(errs ...error) {
	l.ErrQ = append(l.ErrQ, errs...)
	wake(&l.q)
}

func (l *TCPListener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	l.Rec.ClosedAt = simrt.Now()
	if W.listeners[l.key] == l {
		delete(W.listeners, l.key)
	}
	for _, c := range l.pending {
		c.Abort()
	}
	l.pending = nil
	wake(&l.q)
}

func (l *TCPListener) Close() error {
	if simrt.Tear() || simrt.S == nil {
		return nil
	}
	simrt.Point()
	if l.closed {
		return &OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: ErrClosed}
	}
	l.shut()
	return nil
}
func (l *TCPListener) Addr() Addr { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error {
	l.dt.Stop()
	l.dt = nil
	if t.IsZero() {
		l.dl = none
		return nil
	}
	l.dl = int64(t.Sub(stime.Epoch))
	left := l.dl - int64(simrt.Now())
	if left <= 0 {
		wake(&l.q)
		return nil
	}
	l.dt = simrt.AtGlobal(time.Duration(left), func() { wake(&l.q) })
	return nil
}
func (l *TCPListener) IsClosed() bool { return l.closed }

// Listening reports the live listener on addr.
func Listening(addr string) *TCPListener { return W.listeners[key(addr)] }

// own registers what happens to the socket when its process is killed.
func own(c *TCPConn) {
	c.g.OnKill = append(c.g.OnKill, func() {
		if c.closed {
			return
		}
		if c.g.Name == "" {
			return
		}
		if SilentKill {
			// power loss: nothing is sent, the peer learns nothing
			c.closed = true
			c.buf = nil
			return
		}
		if simrt.Rand().Intn(2) == 0 {
			c.Abort()
		} else {
			c.shut()
		}
	})
}

// SilentKill makes the death of a group invisible to its peers (host power loss).
var SilentKill bool

func Dial(network, address string) (Conn, error) { return dial(network, address, 0) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return dial(network, address, d)
}
func DialTCP(network string, la, ra *TCPAddr) (*TCPConn, error) {
	c, err := dial(network, ra.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return dial(network, address, d.limit())
}
func (d *Dialer) limit() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		l := stime.Until(d.Deadline)
		if t == 0 || l < t {
			t = l
		}
	}
	return t
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	type res struct {
		c   Conn
		err error
	}
	ch := simrt.MakeChan[res](1)
	lim := d.limit()
	abandoned := false
	simrt.Go(func() {
		c, err := dial(network, address, lim)
		if abandoned && c != nil {
			c.Close()
			return
		}
		ch.Send(res{c, err})
	})
	a, b := simrt.CaseRecv(ch), simrt.CaseRecv(ctx.Done())
	if simrt.Select(false, a, b) == 0 {
		return a.V.c, a.V.err
	}
	abandoned = true
	return nil, &OpError{Op: "dial", Net: network, Err: ctx.Err()}
}

type ListenConfig struct {
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}

func dial(network, address string, limit time.Duration) (Conn, error) {
	if !simrt.InSim() {
		return nil, ErrClosed
	}
	simrt.Point()
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	_ = h
	pn, err := strconv.Atoi(p)
	if err != nil || pn <= 0 || pn > 65535 {
		return nil, &OpError{Op: "dial", Net: network, Err: &AddrError{Err: "invalid port", Addr: address}}
	}
	k := key(address)
	rec := &DialRec{At: simrt.Now(), Seq: simrt.Seq(), Addr: k, G: simrt.CurGroup()}
	W.Dials = append(W.Dials, rec)
	simrt.Mix(0xD1A1)
	act := ""
	if W.DialHook != nil {
		act = W.DialHook(rec)
	}
	if W.Refuse[k] {
		act = "refuse"
	}
	if W.Blackhole[k] {
		act = "blackhole"
	}
	if act == "blackhole" {
		W.Stats["dial_blackhole"]++
		osLimit := 127 * time.Second
		if limit <= 0 || limit > osLimit {
			simrt.Sleep(osLimit)
			rec.End, rec.Outcome = simrt.Now(), "timeout"
			return nil, &OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
		}
		simrt.Sleep(limit)
		rec.End, rec.Outcome = simrt.Now(), "timeout"
		return nil, &OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	d := 2 * W.delay()
	if W.Cfg.ConnDelay > 0 {
		d += time.Duration(simrt.Rand().Int63n(int64(W.Cfg.ConnDelay) + 1))
	}
	if limit > 0 && d >= limit {
		simrt.Sleep(limit)
		rec.End, rec.Outcome = simrt.Now(), "timeout"
		return nil, &OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	simrt.Sleep(d)
	l := W.listeners[k]
	if act == "refuse" || l == nil {
		W.Stats["dial_refused"]++
		rec.End, rec.Outcome = simrt.Now(), "refused"
		return nil, &OpError{Op: "dial", Net: network, Addr: &TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: pn}, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	lk := mkLink(k, simrt.CurGroup())
	rec.End, rec.Outcome, rec.Link = simrt.Now(), "ok", lk
	lk.S.g = l.g
	own(lk.C)
	if act == "reset" {
		W.Stats["accept_then_reset"]++
		lk.Accepted = true
		lk.S.Abort()
		return lk.C, nil
	}
	l.pending = append(l.pending, lk.S)
	wake(&l.q)
	return lk.C, nil
}

// Pipe returns two connected ends.
func Pipe() (Conn, Conn) {
	l := mkLink("127.0.0.1:1", simrt.CurGroup())
	l.S.g = simrt.CurGroup()
	l.Accepted = true
	return l.C, l.S
}
