package main

// H17: the message log. The writers the log is configured with record every Write; after
// the run each writer's output is cut into entries, which are compared with what crossed
// the wire and with the configurations that were in force.

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func init() {
	property("H17", 30000, 1500000, gen{3, "traffic", genH17}, gen{1, "gem", genH17gem})
}

// logSink is one destination of the log.
type logSink struct {
	e     *Env
	m     *mlog
	idx   int
	slow  time.Duration
	fail  int64 // 1: fails, 2: now and then, 3: writes short
	n     int
	busy  bool
	b     []byte
	marks []logMark
}

type logMark struct {
	end int64
	stamp
}

func (w *logSink) Write(b []byte) (int, error) {
	if w.busy {
		w.e.Bad("H17", "the log's writer is used by two at the same time", "writer %d", w.idx)
	}
	w.busy = true
	defer func() { w.busy = false }()
	w.b = append(w.b, b...)
	w.marks = append(w.marks, logMark{int64(len(w.b)), stamp{simrt.Now(), simrt.Seq()}})
	w.n++
	if w.slow > 0 {
		w.e.Count("slow_log_writer")
		w.m.slept += w.slow
		simrt.Sleep(w.slow)
	}
	if w.fail == 1 || w.fail == 2 && w.n%3 == 0 {
		w.e.Count("log_write_fails")
		return 0, errors.New("no space left on device")
	}
	if w.fail == 3 {
		w.e.Count("log_write_short")
		return len(b) / 2, errors.New("short write")
	}
	return len(b), nil
}

// logCfg is one configuration and when it was put in force.
type logCfg struct {
	on, ctl bool
	sml, bn bool
	ex      map[string]bool
	w       int
	t0, t1  time.Duration
	done    bool
}

type mlog struct {
	l     *HLab
	sinks []*logSink
	cfgs  []*logCfg
	slept time.Duration
}

var hctlNames = map[byte]string{tSelReq: "select.req", tSelRsp: "select.rsp", tDesReq: "deselect.req", tDesRsp: "deselect.rsp",
	tLnkReq: "linktest.req", tLnkRsp: "linktest.rsp", tReject: "reject.req", tSepReq: "separate.req"}
var ctlOrder = []byte{tSelReq, tSelRsp, tDesReq, tDesRsp, tLnkReq, tLnkRsp, tReject, tSepReq}

func newLog(l *HLab) *mlog {
	m := &mlog{l: l}
	for i := 0; i < 3; i++ {
		m.sinks = append(m.sinks, &logSink{e: l.e, m: m, idx: i, slow: ms(l.e.P.C(fmt.Sprintf("lw%d.slow", i))), fail: l.e.P.C(fmt.Sprintf("lw%d.fail", i))})
	}
	return m
}

// make turns the numbers of a plan into a configuration: a writer, b mode and flags
// (8: off, 16: control messages too), c excluded control messages, d how they are spelt.
func (m *mlog) make(a, b, c, d int64) (*logCfg, []string, hsms.LoggingMode) {
	k := &logCfg{on: b&8 == 0, ctl: b&16 != 0, w: int(a % 3), ex: map[string]bool{}, t0: simrt.Now()}
	mode := hsms.LoggingMode(b & 3)
	k.sml = mode != hsms.LoggingModeBinary
	k.bn = mode == hsms.LoggingModeBinary || mode == hsms.LoggingModeBoth
	var keys []string
	for i, t := range ctlOrder {
		if c>>uint(i)&1 == 0 {
			continue
		}
		n := hctlNames[t]
		k.ex[n] = true
		switch (d + int64(i)) % 4 {
		case 1:
			n = strings.ToUpper(n)
		case 2:
			n = " " + strings.ToUpper(n[:1]) + n[1:] + "\t"
		}
		keys = append(keys, n)
	}
	if d%3 == 1 {
		keys = append(keys, "  ", "data message")
	}
	m.cfgs = append(m.cfgs, k)
	return k, keys, mode
}

// configure puts a configuration in force.
func (m *mlog) configure(a, b, c, d int64) {
	k, keys, mode := m.make(a, b, c, d)
	ex := map[string]struct{}{}
	for _, x := range keys {
		ex[x] = struct{}{}
	}
	m.l.ep.ConfigureLogging(hsms.LoggingConfig{Enabled: k.on, Mode: mode, IncludeControlMessages: k.ctl, ExcludedControlMessageTypes: ex, Writer: m.sinks[k.w]})
	for x := range ex { // what it was given belongs to the caller
		delete(ex, x)
	}
	if d%2 == 0 {
		for _, t := range ctlOrder {
			ex[hctlNames[t]] = struct{}{}
		}
	}
	k.t1, k.done = simrt.Now(), true
}

// inForce lists the configurations that may have been in force in a period.
func (m *mlog) inForce(a, b time.Duration) []*logCfg {
	var out []*logCfg
	for i, k := range m.cfgs {
		if k.t0 > b {
			continue
		}
		over := false // replaced for good before a
		for _, n := range m.cfgs[i+1:] {
			if n.done && n.t1 < a && k.done && n.t0 > k.t1 {
				over = true
			}
		}
		if !over {
			out = append(out, k)
		}
	}
	return out
}

// entry is one message in the log.
type entry struct {
	w        int
	in, data bool
	S, F     int
	wait     string
	typ      string
	sess     int
	status   int
	sys      uint32
	sml      string
	hasSML   bool
	bin      []byte
	hasBin   bool
	ts       string
	stamp
	used bool
	text string
}

func (x *entry) String() string { return fmt.Sprintf("%q", x.text) }

var (
	reHead = regexp.MustCompile(`\[(IN|OUT|RX|TX)\]\[(DATA|CTRL)\](.*)$`)
	reSF   = regexp.MustCompile(`\bS(\d+)F(\d+)\b`)
	reSess = regexp.MustCompile(`\bsession=(\d+)`)
	reWait = regexp.MustCompile(`\bwait=(\w+)`)
	reStat = regexp.MustCompile(`\bstatus=(\d+)`)
	reSys  = regexp.MustCompile(`\bsystem=([0-9A-Fa-f]{8})\b`)
	reType = regexp.MustCompile(`\b(select|deselect|linktest|reject|separate)\.(req|rsp)\b`)
	reTime = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}) `)
)

func num1(re *regexp.Regexp, s string) int {
	if m := re.FindStringSubmatch(s); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return -1
}

// entries cuts one writer's output into entries.
func (m *mlog) entries(w *logSink) (out []*entry) {
	e := m.l.e
	var cur *entry
	part := ""
	pos := int64(0)
	mi := 0
	finish := func() {
		if cur == nil {
			return
		}
		if cur.hasBin {
			b, err := hex.DecodeString(cur.typHex())
			if err != nil {
				e.Bad("H17", "a hexadecimal log entry cannot be read", "%v: %v", cur, err)
			}
			cur.bin = b
		}
		cur = nil
	}
	lines := strings.SplitAfter(string(w.b), "\n")
	for _, raw := range lines {
		start := pos
		pos += int64(len(raw))
		for mi < len(w.marks) && w.marks[mi].end <= start {
			mi++
		}
		line := strings.TrimRight(raw, "\n")
		if raw != "" && !strings.HasSuffix(raw, "\n") {
			e.Bad("H17", "the log ends within an entry", "%q", raw)
		}
		if line == "" {
			if raw != "" {
				finish()
			}
			continue
		}
		h := reHead.FindStringSubmatch(line)
		if h == nil || line[0] == ' ' {
			if cur == nil || !cur.data {
				e.Bad("H17", "the log has text that belongs to no entry", "writer %d: %q", w.idx, line)
				continue
			}
			cur.text += "\n" + line
			t := strings.TrimSpace(line)
			switch {
			case t == "SML:" && part == "":
				part, cur.hasSML = "sml", true
			case t == "BIN:":
				if cur.hasBin {
					e.Bad("H17", "a log entry has two hexadecimal parts", "%v", cur)
				}
				part, cur.hasBin = "bin", true
			case part == "sml":
				cur.sml += t + "\n"
			case part == "bin":
				cur.typ += strings.ReplaceAll(t, " ", "")
			default:
				e.Bad("H17", "the log has text that belongs to no entry", "writer %d: %q", w.idx, line)
			}
			continue
		}
		if cur != nil {
			finish()
		}
		x := &entry{w: w.idx, in: h[1] == "IN" || h[1] == "RX", data: h[2] == "DATA", text: line, stamp: w.marks[mi].stamp, sess: num1(reSess, h[3]), status: num1(reStat, h[3])}
		if t := reTime.FindStringSubmatch(line); t != nil {
			x.ts = t[1]
		}
		if q := reSys.FindStringSubmatch(h[3]); q != nil {
			v, _ := strconv.ParseUint(q[1], 16, 32)
			x.sys = uint32(v)
		}
		if x.data {
			sf, wt := reSF.FindStringSubmatch(h[3]), reWait.FindStringSubmatch(h[3])
			if sf == nil || wt == nil || x.sess < 0 || x.ts == "" || (h[1] != "IN" && h[1] != "OUT") {
				e.Bad("H17", "a log entry lacks what it is about", "%v", x)
				continue
			}
			x.S, _ = strconv.Atoi(sf[1])
			x.F, _ = strconv.Atoi(sf[2])
			x.wait = strings.ToLower(wt[1])
			part = ""
			cur = x
			out = append(out, x)
			continue
		}
		if i := strings.Index(h[3], "[BIN]"); i >= 0 {
			b, err := hex.DecodeString(strings.TrimSpace(h[3][i+5:]))
			if err != nil {
				e.Bad("H17", "a hexadecimal log entry cannot be read", "%v: %v", x, err)
			}
			x.bin, x.hasBin = b, true
		} else {
			x.hasSML = true
			x.typ = reType.FindString(h[3])
			if x.typ == "" || x.sess < 0 || x.status < 0 {
				e.Bad("H17", "a log entry lacks what it is about", "%v", x)
				continue
			}
		}
		// the two lines of one control message
		if n := len(out); n > 0 && x.hasBin && !out[n-1].data && out[n-1].hasSML && !out[n-1].hasBin && out[n-1].in == x.in {
			p := out[n-1]
			if f, _, err := cut(x.bin); err == nil && f != nil && f.Sys == p.sys && hctlNames[f.Typ] == p.typ {
				p.bin, p.hasBin = x.bin, true
				p.text += "\n" + line
				continue
			}
		}
		out = append(out, x)
	}
	finish()
	return out
}

func (x *entry) typHex() string {
	h := x.typ
	x.typ = ""
	return h
}

func fields(s string) string { return strings.Join(strings.Fields(s), " ") }

// about tells whether an entry concerns the frame, going by its head (or, if it has none, its bytes).
func (x *entry) about(f *Frame) bool {
	if x.data != (f.Typ == tData) {
		return false
	}
	if x.data {
		return x.S == f.S() && x.F == f.F() && x.sess == int(f.Sess) && x.sys == f.Sys && (x.wait == "true") == f.W()
	}
	if x.hasSML {
		return x.typ == hctlNames[f.Typ] && x.sess == int(f.Sess) && x.sys == f.Sys && x.status == int(f.B3)
	}
	return bytes.Equal(x.bin, f.Bytes())
}

// differs tells how an entry's content differs from the frame's.
func (x *entry) differs(f *Frame) string {
	if x.hasBin && !bytes.Equal(x.bin, f.Bytes()) {
		return "its hexadecimal part is not the message"
	}
	if x.data && x.hasSML {
		text := fields(x.sml)
		head := strings.SplitN(x.sml, "\n", 2)[0]
		if !strings.Contains(head, fmt.Sprintf("S%dF%d", f.S(), f.F())) {
			return "its SML is of another message"
		}
		if it := f.Item(); it != nil && !strings.Contains(text, fields(fmt.Sprint(it.ToAST()))) {
			return "its SML is not the message's"
		}
	}
	return ""
}

func (k *logCfg) wants(f *Frame) bool {
	if !k.on {
		return false
	}
	return f.Typ == tData || k.ctl && !k.ex[hctlNames[f.Typ]]
}

// check compares the log with what crossed the wire.
func (m *mlog) check(quiet bool) {
	e := m.l.e
	simrt.Sleep(2 * m.slept)
	end := simrt.Now()
	cs := m.l.conns()
	slack := e.Tol + simrt.Spun() + m.l.slow + m.slept + m.l.blockedTime() + 10*time.Millisecond
	var all []*entry
	for _, w := range m.sinks {
		all = append(all, m.entries(w)...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Seq < all[j].Seq })
	type key struct {
		in, data bool
		sys      uint32
	}
	idx := map[key][]*entry{}
	for _, x := range all {
		k := key{x.in, x.data, x.sys}
		if !x.data && !x.hasSML && len(x.bin) >= 14 {
			k.sys = be32(x.bin[10:])
		}
		idx[k] = append(idx[k], x)
		// the configuration it was written under
		ok := false
		for _, c := range m.inForce(x.At-slack, x.At) {
			if c.on && c.w == x.w && c.sml == x.hasSML && c.bn == x.hasBin && (x.data || c.ctl && !c.ex[x.typ]) {
				ok = true
			}
		}
		if !ok {
			e.Bad("H17", "the log is not written as configured", "at %v on writer %d: %v", x.At, x.w, x)
		}
		if x.ts != "" {
			at := stime.Epoch.Add(x.At).In(time.Local)
			t, err := time.ParseInLocation("2006-01-02 15:04:05.000", x.ts, time.Local)
			if err != nil || t.After(at) || at.Sub(t) > slack+time.Millisecond {
				e.Bad("H17", "a log entry has the wrong time", "written at %v (allowed lag %v): %v", at, slack, x)
			}
		}
	}
	e.CountN("log_entries", int64(len(all)))
	lost := false
	for _, c := range cs {
		if !c.alive {
			lost = true
		}
	}
	find := func(f *Frame, in bool, after, before int64) (_ *entry, bad string) {
		var badx *entry
		for _, x := range idx[key{in, f.Typ == tData, f.Sys}] {
			if x.used || !x.about(f) {
				continue
			}
			if d := x.differs(f); d != "" {
				bad, badx = d, x
				continue
			}
			if x.Seq < after || x.Seq > before {
				bad, badx = "it was written at the wrong time", x
				continue
			}
			x.used = true
			return x, ""
		}
		if badx != nil {
			return nil, fmt.Sprintf("; there is %v, but %s", badx, bad)
		}
		return nil, ""
	}
	// those that must be there choose first
	got := map[WF]*entry{}
	mustHave := func(c *conn, w WF, in bool, at time.Duration) bool {
		must := true
		lo, hi := at-slack, at
		if in {
			lo, hi = at, at+slack
			must = c.alive && quiet && !c.pc.Junk && hi < end
		}
		for _, g := range m.inForce(lo, hi) {
			must = must && g.wants(w.F)
		}
		return must
	}
	logged := func(f *Frame) bool { return f.PType == 0 && (f.Typ == tData || hctlNames[f.Typ] != "") }
	for pass := 0; pass < 2; pass++ {
		for _, c := range cs {
			for _, w := range c.wr { // sent: logged before it goes out
				must := mustHave(c, w, false, w.At0)
				if !logged(w.F) || must != (pass == 0) {
					continue
				}
				x, bad := find(w.F, false, 0, w.Seq0)
				if x == nil && must {
					e.Bad("H17", "a message was sent and not logged", "%v at %v%s", w.F, w.At0, bad)
				}
			}
			for k, w := range c.pw {
				t, seq, ok := c.arr(k)
				if !ok {
					break
				}
				must := mustHave(c, w, true, t)
				if !logged(w.F) || must != (pass == 0) {
					continue
				}
				x, bad := find(w.F, true, seq, 1<<62)
				if x == nil && must {
					e.Bad("H17", "a message was received and not logged", "%v arrived %v%s", w.F, t, bad)
				}
				got[w] = x
			}
		}
	}
	for _, c := range cs { // received: logged in order of arrival
		var prev *entry
		gap := ""
		for k, w := range c.pw {
			t, _, ok := c.arr(k)
			if !ok {
				break
			}
			if !logged(w.F) || w.F.Typ == tLnkRsp || c.pc.Junk {
				continue
			}
			x := got[w]
			if x == nil {
				must := true
				for _, g := range m.inForce(t, t+slack) {
					must = must && g.wants(w.F)
				}
				if must && gap == "" {
					gap = fmt.Sprintf("%v arrived %v", w.F, t)
				}
				continue
			}
			if gap != "" {
				e.Bad("H17", "a message was received and not logged", "%s, but a later one of the same connection was", gap)
			}
			if prev != nil && x.Seq < prev.Seq {
				e.Bad("H17", "received messages are logged out of order", "%v at %v, %v at %v", prev, prev.At, x, x.At)
			}
			prev = x
		}
	}
	sent := map[string]bool{}
	for _, x := range all {
		k := fmt.Sprint(x.in, x.typ, x.S, x.F, x.sys)
		once := !x.in && (x.data && x.F%2 == 1 && x.S != 9 || strings.HasSuffix(x.typ, ".req") && x.typ != "reject.req")
		if once && sent[k] {
			e.Bad("H17", "a message is logged twice", "%v", x)
		}
		sent[k] = true
	}
	for _, x := range all {
		if x.used {
			continue
		}
		if x.At < end-slack && (x.in || !lost && quiet) {
			e.Bad("H17", "the log has a message that was not sent or received", "%v at %v (writer %d)", x, x.At, x.w)
		}
	}
	// a message is logged before its handler sees it
	for _, h := range m.l.hrecs {
		for _, x := range all {
			if x.used && x.in && x.data && x.sys == h.Sys && x.S == h.S && x.F == h.F && x.sess == h.Sess && strings.Contains(x.text, h.Tok) && h.Tok != "" && x.Seq > h.Seq && x.hasSML {
				e.Bad("H17", "a message is logged after it was handled", "%v", x)
			}
		}
	}
	e.Work += int64(len(all))
}

// genLogCfg draws what the log is configured with.
func genLogCfg(r *rand.Rand) (a, b, c, d int64) {
	a = int64(r.Intn(3))
	b = int64(r.Intn(4)) | pick(r, 0, 0, 16, 16, 16, 8, 24)
	c = pick(r, 0, 0, r.Int63n(256), 1<<uint(r.Intn(8)), 0x30)
	d = int64(r.Intn(12))
	return
}

func addLogging(r *rand.Rand, p *Plan, span int64) {
	p.Cfg["mlog"] = 1
	p.Cfg["lg.w"], p.Cfg["lg.b"], p.Cfg["lg.c"], p.Cfg["lg.d"] = genLogCfg(r)
	if chance(r, 0.7) {
		p.Cfg["lg.b"] &^= 8
	}
	for i := 0; i < 3; i++ {
		if chance(r, 0.15) {
			p.Cfg[fmt.Sprintf("lw%d.slow", i)] = pick(r, 1, 5, 30)
		}
		if chance(r, 0.2) {
			p.Cfg[fmt.Sprintf("lw%d.fail", i)] = pick(r, 1, 2, 3)
		}
	}
	if chance(r, 0.4) {
		for i := 1 + r.Intn(3); i > 0; i-- {
			o := Op{At: between(r, 0, span), K: "logcfg"}
			o.A, o.B, o.C, o.D = genLogCfg(r)
			p.Ops = append(p.Ops, o)
		}
	}
}

func genH17(r *rand.Rand, p *Plan) {
	switch r.Intn(5) {
	case 0:
		genH01(r, p)
	case 1:
		genH02(r, p)
	case 2:
		genH06(r, p)
		p.Cfg["net.sndbuf"], p.Cfg["slowread"] = 0, 0
	case 3:
		genH16(r, p)
	default:
		genH03(r, p)
	}
	span := last(p)
	p.Cfg["lt"] = pick(r, 1, 1, 2, 5)
	if chance(r, 0.4) {
		p.Cfg["ctl"] = 1
		for i := 1 + r.Intn(4); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: between(r, 0, span+10), K: "frame", A: pick(r, tSelReq, tSelReq, tLnkReq, tLnkReq, tSelRsp, tLnkRsp, tReject, tDesRsp, tDesReq), B: pick(r, p.Cfg["psess"], p.Cfg["psess"], 0xffff), C: pick(r, 0, 0, 1, 3)})
		}
	}
	if chance(r, 0.25) {
		p.Cfg["ctl"] = 1
		p.Cfg["redial"] = 1
		p.Ops = append(p.Ops, Op{At: span + between(r, 0, 300), K: "disable"})
		if chance(r, 0.6) {
			p.Ops = append(p.Ops, Op{At: span + 310 + between(r, 0, 1500), K: "enable"})
		}
	}
	for i := range p.Ops { // formatting these takes the simulator's idea of a second
		if o := &p.Ops[i]; (o.K == "snd" || o.K == "req" || o.K == "bigprim") && o.C > 4000 {
			o.C = 4000
		}
	}
	addLogging(r, p, span+20)
}

func genH17gem(r *rand.Rand, p *Plan) {
	switch r.Intn(6) {
	case 0:
		genG05(r, p)
	case 1:
		genG07(r, p)
	case 2:
		genG09(r, p)
	case 3:
		genCalls(kS1F3, kS2F41)(r, p)
	case 4:
		genG12(r, p)
	default:
		genG01(r, p)
	}
	p.Cfg["lt"] = pick(r, 1, 2, 5)
	addLogging(r, p, last(p)+20)
}
