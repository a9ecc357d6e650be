package main

import (
	"fmt"
	"math/rand"
	"time"

	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// RX is a frame the raw peer received, TX one it sent.
type RX struct {
	F   *Frame
	At  time.Duration
	Seq int64
}

// PC is one connection of the raw peer: it speaks HSMS at the byte level.
type PC struct {
	e         *Env
	id        int
	C         *snet.TCPConn
	Link      *snet.Link
	in        []byte
	RX        []RX
	TX        []RX
	Junk      bool // something other than well-formed frames was sent
	down      bool
	onFrame   func(pc *PC, f *Frame)
	onDown    func(pc *PC)
	outq      [][]byte
	wtask     *simrt.Task
	Sel       bool // a select exchange completed, as the peer sees it
	SelAt     time.Duration
	SelSeq    int64
	sys       uint32
	readPause time.Duration // the peer reads slowly
	stopRead  bool
	clogged   bool // it stopped reading at some time
	hold      bool // a message is half sent: nothing else may be sent before its rest
	heldq     [][]byte
	BadStream string
}

func (e *Env) newPC(g *simrt.Group, id int, c *snet.TCPConn, onFrame func(*PC, *Frame), onDown func(*PC)) *PC {
	pc := &PC{e: e, id: id, C: c, Link: c.Link(), onFrame: onFrame, onDown: onDown, sys: uint32(0x50000000 + id*0x10000)}
	simrt.GoIn(g, fmt.Sprintf("peer%d-rd", id), pc.reader)
	pc.wtask = simrt.GoIn(g, fmt.Sprintf("peer%d-wr", id), pc.writer)
	return pc
}

func (pc *PC) reader() {
	buf := make([]byte, 8192)
	for {
		for pc.stopRead && !pc.C.IsDown() {
			simrt.Sleep(10 * time.Millisecond)
		}
		if pc.readPause > 0 {
			simrt.Sleep(pc.readPause)
		}
		n, err := pc.C.Read(buf)
		pc.in = append(pc.in, buf[:n]...)
		for {
			f, r, cerr := cut(pc.in)
			if cerr != nil {
				pc.BadStream = cerr.Error()
				pc.close()
				return
			}
			if f == nil {
				break
			}
			pc.in = r
			pc.RX = append(pc.RX, RX{f, simrt.Now(), simrt.Seq()})
			if simrt.Tracing() {
				simrt.Tracef("peer conn %d <- %v", pc.id, f)
			}
			if pc.onFrame != nil {
				pc.onFrame(pc, f)
			}
		}
		if err != nil {
			pc.down = true
			pc.C.Close()
			pc.kick()
			if pc.onDown != nil {
				pc.onDown(pc)
			}
			return
		}
	}
}

func (pc *PC) kick() {
	if pc.wtask != nil && pc.wtask.Why == "peer idle" {
		pc.wtask.Why = ""
		simrt.Ready(pc.wtask)
	}
}

func (pc *PC) writer() {
	for {
		for len(pc.outq) == 0 {
			if pc.down || pc.C.IsClosed() {
				pc.wtask = nil
				return
			}
			simrt.Block("peer idle")
		}
		b := pc.outq[0]
		pc.outq = pc.outq[1:]
		if _, err := pc.C.Write(b); err != nil {
			pc.outq = nil
			pc.wtask = nil
			return
		}
	}
}

func (pc *PC) raw(b []byte) {
	if pc.wtask == nil || pc.down || pc.C.IsClosed() {
		return
	}
	if pc.hold {
		pc.heldq = append(pc.heldq, b)
		return
	}
	pc.outq = append(pc.outq, b)
	pc.kick()
}

// rawHead sends the rest of a half sent message and then what was held back.
func (pc *PC) rawHead(b []byte) {
	q := pc.heldq
	pc.hold, pc.heldq = false, nil
	pc.raw(b)
	for _, x := range q {
		pc.raw(x)
	}
}

func (pc *PC) send(f *Frame) {
	if simrt.Tracing() {
		simrt.Tracef("peer conn %d -> %v", pc.id, f)
	}
	pc.TX = append(pc.TX, RX{f, simrt.Now(), simrt.Seq()})
	pc.raw(f.Bytes())
}

func (pc *PC) close() {
	if !pc.C.IsClosed() {
		pc.C.Close()
		pc.kick()
	}
	pc.down = true
}
func (pc *PC) abort() {
	if !pc.C.IsClosed() {
		pc.C.Abort()
		pc.kick()
	}
	pc.down = true
}

func (pc *PC) next() uint32 { pc.sys++; return pc.sys }

// WF is a frame cut out of the bytes one end wrote.
type WF struct {
	F          *Frame
	At0, At1   time.Duration // first and last byte accepted by the socket
	Seq0, Seq1 int64
	End        int64 // offset of its last byte in the stream
}

// written parses the byte stream one end wrote; rest is an incomplete tail.
func written(c *snet.TCPConn) (fs []WF, rest int, err error) {
	var b []byte
	var off int64
	type mark struct {
		end int64
		r   *snet.TapRec
	}
	var marks []mark
	for i := range c.Tap {
		off += int64(len(c.Tap[i].B))
		b = append(b, c.Tap[i].B...)
		marks = append(marks, mark{off, &c.Tap[i]})
	}
	pos := int64(0)
	mi := 0
	at := func(o int64) *snet.TapRec { // record holding byte o
		for mi < len(marks) && marks[mi].end <= o {
			mi++
		}
		return marks[mi].r
	}
	for {
		f, r, e := cut(b)
		if e != nil {
			return fs, len(b), e
		}
		if f == nil {
			return fs, len(b), nil
		}
		n := int64(len(b) - len(r))
		a := at(pos)
		z := at(pos + n - 1)
		fs = append(fs, WF{f, a.At, z.At, a.Seq, z.Seq, pos + n})
		pos += n
		b = r
	}
}

// arrived tells when the stream up to off had reached the end c (ok=false: never).
func arrived(c *snet.TCPConn, off int64) (time.Duration, int64, bool) {
	for _, a := range c.Arr {
		if a.Off >= off {
			return a.At, a.Seq, true
		}
	}
	return 0, 0, false
}

// payload makes an item of a shape given by kind and size, reproducibly.
func payload(seed int64, kind, size int64) *Item {
	r := rand.New(rand.NewSource(seed))
	n := int(size)
	by := func(k int) []byte {
		b := make([]byte, k)
		r.Read(b)
		return b
	}
	switch kind % 12 {
	case 0:
		return A("x")
	case 1:
		b := by(n)
		for i := range b {
			b[i] = 32 + b[i]%95
		}
		return A(string(b))
	case 2:
		return B(by(n)...)
	case 3:
		b := by(n)
		for i := range b {
			b[i] &= 1
		}
		return Bo(b...)
	case 4:
		it := &Item{F: []byte{fU1, fU2, fU4, fU8}[r.Intn(4)]}
		it.D = by(n * width(it.F))
		return it
	case 5:
		it := &Item{F: []byte{fI1, fI2, fI4, fI8}[r.Intn(4)]}
		it.D = by(n * width(it.F))
		return it
	case 6:
		var v []float64
		for i := 0; i < n; i++ {
			v = append(v, r.NormFloat64()*1e6)
		}
		return F8(v...)
	case 7:
		var v []float32
		for i := 0; i < n; i++ {
			v = append(v, float32(r.NormFloat64()*1e6))
		}
		return F4(v...)
	case 8: // flat list
		it := L()
		for i := 0; i < n; i++ {
			it.L = append(it.L, U2(uint64(i)))
		}
		return it
	case 9: // nested
		it := L(A("leaf"), L())
		for i := 0; i < n && i < 40; i++ {
			it = L(U1(uint64(i)), it)
		}
		return it
	case 10: // mixed
		it := L()
		for i := 0; i < n && i < 60; i++ {
			it.L = append(it.L, payload(seed+int64(i)+1, int64(r.Intn(10)), int64(r.Intn(6))))
		}
		return it
	}
	return L()
}
