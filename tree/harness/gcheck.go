package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// check judges the recorded run of one GEM site.
func (s *gsite) check() {
	s.history()
	s.cover()
	reqs := s.requests()
	for _, q := range reqs {
		if q.rep != nil {
			s.e.Work++
		}
	}
	for _, f := range []struct {
		props string
		f     func([]*greq)
	}{{"G04,G05", s.checkReports}, {"G06", s.checkConstants}, {"G07", s.checkAlarms}, {"G08", s.checkPrograms},
		{"G09", s.checkCommands}, {"G10", s.checkStatus}, {"G11", s.checkClock}, {"G01,G04,G05,G06,G07,G08,G09,G10,G11", s.checkCalls},
		{"G05,G07", s.checkHostEvents}, {"G01,G02", s.checkComm}, {"G03", s.checkControl}, {"G13", s.checkSide}, {"G01", func([]*greq) { s.checkRoles() }},
		{"G01,G03,G04,G05,G06,G07,G08,G09,G10,G11,G12", s.checkAnswers}} {
		if strings.Contains(","+f.props+",", ","+s.e.Prop+",") {
			f.f(reqs)
		}
	}
}

func (s *gsite) cover() {
	e := s.e
	for _, c := range s.cs {
		e.CountN("frames_in", int64(len(c.in)))
		e.CountN("frames_out", int64(len(c.out)))
		if c.lost != never {
			e.Count("connections_lost")
		}
	}
	e.CountN("app_calls", int64(len(s.ops)))
	e.CountN("communicating_events", int64(len(s.comm)))
	e.CountN("control_events", int64(len(s.chain)))
}

func ack(f *hf) (int, bool) {
	if f == nil || f.It == nil {
		return 0, false
	}
	it := f.It
	if it.F == fList && len(it.L) > 0 {
		it = it.L[0]
	}
	if it.F != fBin || len(it.D) != 1 {
		return 0, false
	}
	return int(it.D[0]), true
}

func (q *greq) String() string {
	return fmt.Sprintf("S%dF%d %v sys=%08x at %v", q.sf[0], q.sf[1], q.f.It, q.f.F.Sys, q.f.At)
}

// handled tells whether a GEM handler of this kind serves the primary.
func (s *gsite) handled(sf [2]int) bool {
	switch sf {
	case [2]int{1, 1}, [2]int{1, 13}:
		return true
	case [2]int{5, 1}, [2]int{6, 11}:
		return s.host
	}
	_, ok := sfProp[sf]
	return ok && !s.host
}

func (s *gsite) checkAnswers(reqs []*greq) {
	e := s.e
	for _, q := range reqs {
		name := fmt.Sprintf("S%dF%d", q.sf[0], q.sf[1])
		ids := "G12"
		if own := sfProp[q.sf]; own != "" { // and the property that rules the answer
			ids += "," + own
		}
		if !s.handled(q.sf) { // what only the other role serves
			if q.rep != nil || q.n > 1 {
				e.Bad("G12", "a primary of the other role is answered: "+name, "%s answered by %v", q, firstOf(q.rep, q.s9))
			} else if q.live && (q.s9 == nil || q.s9.F.F() != 5 && q.s9.F.F() != 3) {
				e.Bad("G12", "a primary of the other role is not refused: "+name, "%s answered by %v", q, firstOf(q.s9, nil))
			}
			e.Count("foreign primaries")
			continue
		}
		if !q.w {
			if q.n > 0 {
				e.Bad("G12", "answer to a primary that wants none: "+name, "%s", q)
			}
			continue
		}
		if q.n > 1 {
			e.Bad(ids, "more than one answer: "+name, "%d to %s", q.n, q)
		}
		if q.live && q.n == 0 {
			e.Bad(ids, "no answer: "+name, "%s", q)
		}
		if q.live {
			e.Count("answers_checked")
			if q.mut {
				e.Count("malformed_answered")
			}
		}
		if q.n == 1 && !q.mut && s.handled(q.sf) && (q.rep == nil || q.rep.F.F() != q.sf[1]+1) {
			e.Bad(ids, "a well-formed primary is refused: "+name, "%s answered by %v", q, firstOf(q.rep, q.s9))
		} else if q.n == 1 && q.rep != nil && q.rep.F.F() == q.sf[1]+1 {
			if q.sf == [2]int{1, 13} && !s.introduces(q.rep.It) || q.sf == [2]int{1, 1} && enc(q.rep.It) != enc(L(s.ident())) && enc(q.rep.It) != enc(s.ident()) {
				e.Bad("G12", "the endpoint does not say what it is: "+name, "%s answered by %v", q, q.rep.It)
			}
		}
	}
}

func firstOf(a, b *hf) *Frame {
	if a != nil {
		return a.F
	}
	if b != nil {
		return b.F
	}
	return nil
}

// ---- reports

type rcfg struct {
	reps  map[string][]string
	links map[string]rlink
	ids   map[string]bool // what was registered since the start
}

type rlink struct {
	reps []string
	on   bool
}

func (c rcfg) clone() rcfg {
	n := rcfg{map[string][]string{}, map[string]rlink{}, c.ids}
	for k, v := range c.reps {
		n.reps[k] = v
	}
	for k, v := range c.links {
		n.links[k] = v
	}
	return n
}

func (c rcfg) key() string {
	var s []string
	for k, v := range c.reps {
		s = append(s, "r "+k+"="+strings.Join(v, ","))
	}
	for k, v := range c.links {
		s = append(s, fmt.Sprintf("l %s=%s/%v", k, strings.Join(v.reps, ","), v.on))
	}
	for k := range c.ids {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// idEntries parses a list of [id, [ids]].
func idEntries(it *Item) (ks []string, vs [][]string, ok bool) {
	es, ok := listEntries(it)
	if !ok {
		return nil, nil, false
	}
	for _, e := range es {
		if e.F != fList || len(e.L) < 2 || e.L[1].F != fList {
			return nil, nil, false
		}
		k, ok := idKey(e.L[0])
		if !ok {
			return nil, nil, false
		}
		v := []string{}
		for _, x := range e.L[1].L {
			y, ok := idKey(x)
			if !ok {
				return nil, nil, false
			}
			v = append(v, y)
		}
		ks, vs = append(ks, k), append(vs, v)
	}
	return ks, vs, true
}

func has(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func twice(l []string, k string) bool {
	n := 0
	for _, x := range l {
		if x == k {
			n++
		}
	}
	return n > 1
}

// repetitive tells whether a configuration request names an event or a report twice. It
// may be refused for that, or taken entry by entry.
func repetitive(sf [2]int, it *Item) bool {
	ks, vs, ok := idEntries(it)
	if !ok || sf[1] == 37 {
		return false
	}
	for i, k := range ks {
		if twice(ks, k) {
			return true
		}
		for _, v := range vs[i] {
			if sf[1] == 35 && twice(vs[i], v) {
				return true
			}
		}
	}
	return false
}

// apply gives the acknowledge codes that fit a configuration request, and the
// configuration after it if none does.
func (s *gsite) apply(c rcfg, sf [2]int, it *Item) (map[int]bool, rcfg) {
	bad := map[int]bool{}
	n := c.clone()
	switch sf[1] {
	case 33:
		ks, vs, ok := idEntries(it)
		if !ok {
			bad[2] = true
			return bad, c
		}
		if len(ks) == 0 {
			return bad, rcfg{map[string][]string{}, map[string]rlink{}, c.ids}
		}
		for i, k := range ks {
			if _, ok := c.reps[k]; ok && len(vs[i]) > 0 && !twice(ks, k) {
				bad[3] = true
			}
			for _, v := range vs[i] {
				if x := s.fx.vars[v]; x == nil || x.reg.late && !c.ids["v "+v] {
					bad[4] = true
				}
			}
			if len(vs[i]) > 0 {
				n.reps[k] = vs[i]
				continue
			}
			delete(n.reps, k)
			for ce, l := range n.links {
				var left []string
				for _, x := range l.reps {
					if x != k {
						left = append(left, x)
					}
				}
				if len(left) == 0 {
					delete(n.links, ce)
				} else {
					n.links[ce] = rlink{left, l.on}
				}
			}
		}
	case 35:
		ks, vs, ok := idEntries(it)
		if !ok {
			bad[2] = true
			return bad, c
		}
		for i, k := range ks {
			if !has(s.fx.ces, k) || s.fx.reg("ce", k).late && !c.ids["c "+k] {
				bad[4] = true
			}
			for _, v := range vs[i] {
				if _, ok := c.reps[v]; !ok {
					bad[5] = true
				}
				if has(c.links[k].reps, v) && !twice(ks, k) {
					bad[3] = true
				}
			}
			if len(vs[i]) == 0 {
				delete(n.links, k)
				continue
			}
			l, ok := n.links[k]
			if !ok {
				l.on = true
			}
			n.links[k] = rlink{append(append([]string{}, l.reps...), vs[i]...), l.on}
		}
	case 37:
		if it == nil || it.F != fList || len(it.L) < 2 || it.L[1].F != fList || it.L[0].F != fBin && it.L[0].F != fBool || len(it.L[0].D) == 0 {
			bad[1] = true
			return bad, c
		}
		on := it.L[0].D[0] != 0
		var ks []string
		for _, x := range it.L[1].L {
			k, ok := idKey(x)
			if !ok {
				bad[1] = true
				return bad, c
			}
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			for k := range c.links {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			l, ok := c.links[k]
			if !ok {
				bad[1] = true
				continue
			}
			n.links[k] = rlink{l.reps, on}
		}
	}
	return bad, n
}

// robs is one report as seen on the wire.
type robs struct {
	key  string
	vals []string
}

func reportsOf(it *Item) (ce string, rs []robs, ok bool) {
	if it == nil || it.F != fList || len(it.L) < 3 || it.L[2].F != fList {
		return "", nil, false
	}
	ce, ok = idKey(it.L[1])
	if !ok && enc(it.L[1]) != empty {
		return "", nil, false
	}
	for _, r := range it.L[2].L {
		if r.F != fList || len(r.L) != 2 || r.L[1].F != fList {
			return "", nil, false
		}
		o := robs{}
		if o.key, ok = idKey(r.L[0]); !ok {
			return "", nil, false
		}
		for _, v := range r.L[1].L {
			o.vals = append(o.vals, enc(v))
		}
		rs = append(rs, o)
	}
	return ce, rs, true
}

// shows tells whether the reports are those of the event in configuration c, with values
// the variables had in [a,b].
func (s *gsite) shows(c rcfg, ce string, rs []robs, a, b int64) bool {
	l := c.links[ce]
	if len(l.reps) != len(rs) {
		return false
	}
	for i, k := range l.reps {
		vs := c.reps[k]
		if rs[i].key != k || len(vs) != len(rs[i].vals) {
			return false
		}
		for j, v := range vs {
			if !s.fx.vars[v].may(rs[i].vals[j], a, b) {
				return false
			}
		}
	}
	return true
}

func (s *gsite) checkReports(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	s.judgeRegs("G04,G05")
	var ops []lop[rcfg]
	for _, q := range reqs {
		q := q
		switch {
		case q.sf[0] == 2 && (q.sf[1] == 33 || q.sf[1] == 35 || q.sf[1] == 37):
			o := lop[rcfg]{inv: q.inv, ret: q.ret, name: q.String()}
			code, ok := ack(q.rep)
			switch {
			case q.rep != nil && q.rep.F.F() == q.sf[1]+1 && !ok:
				e.Bad("G04", fmt.Sprintf("acknowledge of S2F%d has no code", q.sf[1]), "%s answered by %v", q, q.rep.F)
				return
			case ok && q.rep.F.F() == q.sf[1]+1:
				e.Count(fmt.Sprintf("S2F%d_ack%d", q.sf[1], code))
				o.name += fmt.Sprintf(" acknowledged with %d", code)
				o.step = func(c rcfg) (rcfg, bool) {
					bad, n := s.apply(c, q.sf, q.f.It)
					if code == 0 {
						return n, len(bad) == 0
					}
					return c, bad[code] || q.mut || code == 3 && repetitive(q.sf, q.f.It)
				}
			case q.n > 0: // refused as a whole
				continue
			default:
				o.opt = !q.live || q.w || q.mut || repetitive(q.sf, q.f.It)
				o.step = func(c rcfg) (rcfg, bool) {
					bad, n := s.apply(c, q.sf, q.f.It)
					if len(bad) > 0 {
						return c, !o.opt
					}
					return n, true
				}
			}
			ops = append(ops, o)
		case q.sf == [2]int{6, 15}:
			if q.rep == nil || q.rep.F.F() != 16 {
				continue
			}
			it := q.f.It
			if it != nil && it.F == fList && len(it.L) > 0 {
				it = it.L[0]
			}
			ce, ok := idKey(it)
			if !ok {
				continue
			}
			rce, rs, ok := reportsOf(q.rep.It)
			if !ok || rce != ce {
				e.Bad("G05", "S6F16 is malformed or names another event", "%s answered by %v", q, q.rep.F)
				return
			}
			ops = append(ops, lop[rcfg]{inv: q.inv, ret: q.ret, name: fmt.Sprintf("%s answered by %v", q, q.rep.It), step: func(c rcfg) (rcfg, bool) {
				l, ok := c.links[ce]
				if !ok || !l.on && len(rs) == 0 || !has(s.fx.ces, ce) {
					return c, len(rs) == 0
				}
				return c, s.shows(c, ce, rs, q.inv, q.ret)
			}})
			e.Count("report_requests_checked")
		}
	}
	ems, ok := s.emissions(s.exchanges(reqs))
	if !ok {
		return
	}
	ops = append(ops, ems...)
	for _, g := range s.fx.regs {
		if !g.late || !g.done || g.class == "ec" {
			continue
		}
		k := "v " + g.key
		if g.class == "ce" {
			k = "c " + g.key
		}
		ops = append(ops, lop[rcfg]{inv: g.q0, ret: g.q1, name: "registration of " + g.class + " " + g.key, step: func(c rcfg) (rcfg, bool) {
			n := c.clone()
			n.ids = map[string]bool{k: true}
			for x := range c.ids {
				n.ids[x] = true
			}
			return n, true
		}})
		e.Count("registrations_while_running")
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	if ok, msg := linear(rcfg{map[string][]string{}, map[string]rlink{}, map[string]bool{}}, rcfg.key, ops); !ok {
		kind := "a request"
		if strings.Contains(msg, "event") {
			kind = "an event report"
		}
		e.Bad("G04,G05", "report configuration: "+kind+" fits no order of the requests", "%s", msg)
	}
	e.CountN("report_ops_checked", int64(len(ops)))
}

// emissions matches the event reports on the wire with the triggers.
func (s *gsite) emissions(xs []*exch) ([]lop[rcfg], bool) {
	e := s.e
	type trig struct {
		x    *gop
		n    int
		sure bool
	}
	by := map[string][]*trig{}
	for _, x := range s.ops {
		if x.kind != "trig" {
			continue
		}
		q1, at1 := x.QE, x.AtE
		if q1 == 0 {
			q1, at1 = s.endSeq, s.endAt
		}
		x.QE, x.AtE = q1, at1
		if x.done && x.err != nil {
			if w := s.mustComm(xs, x.At, x.End); w != nil && x.o.B == 0 && len(x.ce) > 0 {
				e.Bad("G05", "a trigger is refused while communicating", "%v at %v: %v; established at %v on connection %d", x.ce, x.At, x.err, w.acc, w.c.id)
				return nil, false
			}
			e.Count("trigger_refused")
			continue
		}
		sure := false
		for _, c := range s.cs {
			if c.selAt != never && c.selAt < x.At-e.Tol && (c.lost == never || c.lost > at1) && x.done {
				sure = true
			}
		}
		for _, ce := range x.ce {
			by[ce] = append(by[ce], &trig{x, 1, sure})
		}
	}
	type em struct {
		f  *hf
		ce string
		rs []robs
	}
	frames := map[string][]em{}
	for _, c := range s.cs {
		for _, f := range c.out {
			if f.F.Typ != tData || f.F.S() != 6 || f.F.F() != 11 {
				continue
			}
			ce, rs, ok := reportsOf(f.It)
			if !ok {
				e.Bad("G05", "S6F11 is malformed", "%v", f.F)
				return nil, false
			}
			if !has(s.fx.ces, ce) {
				e.Bad("G05", "event report for an unknown event", "%v", f.F)
				return nil, false
			}
			frames[ce] = append(frames[ce], em{f, ce, rs})
		}
	}
	var ops []lop[rcfg]
	for _, ce := range s.fx.ces {
		ts := by[ce]
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].x.Q0 < ts[j].x.Q0 })
		fs := frames[ce]
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].f.Seq < fs[j].f.Seq })
		// triggers whose windows overlap belong together
		for i := 0; i < len(ts); {
			lo, hi := ts[i].x.Q0, ts[i].x.QE
			j, silent, max := i, 0, 0
			for ; j < len(ts) && ts[j].x.Q0 <= hi; j++ {
				if ts[j].x.QE > hi {
					hi = ts[j].x.QE
				}
				max++
				if ts[j].sure {
					silent++
				}
			}
			n := 0
			for len(fs) > 0 && fs[0].f.Seq <= hi {
				if fs[0].f.Seq < lo {
					break
				}
				f := fs[0]
				fs = fs[1:]
				n++
				ops = append(ops, lop[rcfg]{inv: lo, ret: f.f.Seq, name: fmt.Sprintf("event report %v at %v", f.f.It, f.f.At), step: func(c rcfg) (rcfg, bool) {
					l, ok := c.links[ce]
					return c, ok && l.on && s.shows(c, ce, f.rs, lo, f.f.Seq)
				}})
				e.Count("event_reports_checked")
			}
			if n > max {
				e.Bad("G05", "more event reports than triggers", "event %s: %d reports for %d triggers from %v", ce, n, max, ts[i].x.At)
				return nil, false
			}
			t0 := ts[i].x.At
			for k := n; k < silent; k++ {
				ops = append(ops, lop[rcfg]{inv: lo, ret: hi, name: fmt.Sprintf("no event report for trigger of %s at %v", ce, t0), step: func(c rcfg) (rcfg, bool) {
					l, ok := c.links[ce]
					return c, !ok || !l.on
				}})
				e.Count("silent_triggers_checked")
			}
			i = j
		}
		if len(fs) > 0 {
			e.Bad("G05", "an event report nobody triggered", "%v at %v", fs[0].f.F, fs[0].f.At)
			return nil, false
		}
	}
	return ops, true
}

// ---- equipment constants

type ecState map[string]string

func (s ecState) key() string {
	var ks []string
	for k, v := range s {
		ks = append(ks, fmt.Sprintf("%s=%x", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *gsite) ec(key string) *constant {
	for _, c := range s.fx.ecs {
		if c.key == key {
			return c
		}
	}
	return nil
}

func (s *gsite) checkConstants(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	s.judgeRegs("G06")
	const order = "listed"
	const own = "before registration " // set by the application before
	init := ecState{}
	var ops []lop[ecState]
	for _, c := range s.fx.ecs {
		c := c
		if !c.reg.late {
			init[c.key] = c.shown(c.def)
			init[order] += c.key + "\n"
		} else if c.reg.done {
			ops = append(ops, lop[ecState]{inv: c.reg.q0, ret: c.reg.q1, name: "registration of " + c.key, step: func(st ecState) (ecState, bool) {
				n := ecState{}
				for k, v := range st {
					n[k] = v
				}
				n[c.key] = c.shown(c.def)
				if v, ok := st[own+c.key]; ok {
					n[c.key] = v
				}
				n[order] += c.key + "\n"
				return n, true
			}})
			e.Count("registrations_while_running")
		}
	}
	// what the application itself does with its constants
	var hostW [][2]int64 // when the host's updates may be under way
	for _, q := range reqs {
		if q.sf == [2]int{2, 15} {
			hostW = append(hostW, [2]int64{q.inv, q.ret})
		}
	}
	during := func(ws [][2]int64, a, b int64) bool {
		for _, w := range ws {
			if w[0] <= b && w[1] >= a {
				return true
			}
		}
		return false
	}
	var ownW [][2]int64
	for _, x := range s.ops {
		x := x
		if x.kind != "setec" && x.kind != "getec" {
			continue
		}
		c := s.ec(x.key)
		if !x.done {
			x.Q1 = s.endSeq
		}
		o := lop[ecState]{inv: x.Q0, ret: x.Q1, opt: !x.done, name: fmt.Sprintf("%s %s %v at %v err=%v", x.kind, x.key, x.args, x.At, x.err)}
		if x.kind == "getec" {
			if !x.done {
				continue
			}
			if c.dead != (x.err != nil) {
				e.Bad("G06", "the application's own reading of a constant goes wrong", "%s", o.name)
				return
			}
			if x.err != nil || during(hostW, x.Q0, x.Q1) {
				continue
			}
			v := enc(x.args)
			o.step = func(st ecState) (ecState, bool) {
				if w, ok := st[x.key]; ok {
					return st, v == w
				}
				if w, ok := st[own+x.key]; ok {
					return st, v == w
				}
				return st, v == enc(c.def)
			}
			ops = append(ops, o)
			e.Count("constants_read_locally")
			continue
		}
		bad := x.idx != 0 || c.valid != nil && !c.valid(x.args)
		if x.done && bad != (x.err != nil) {
			e.Bad("G06", "the application's own change of a constant goes wrong", "%s, refused by the constant: %v", o.name, bad)
			return
		}
		if bad {
			continue
		}
		e.Count("constants_set_locally")
		ownW = append(ownW, [2]int64{x.Q0, x.Q1})
		o.opt = o.opt || during(hostW, x.Q0, x.Q1)
		v := c.shown(x.args)
		o.step = func(st ecState) (ecState, bool) {
			if _, ok := st[x.key]; !ok {
				return st.put(own+x.key, v), true
			}
			return st.put(x.key, v), true
		}
		ops = append(ops, o)
	}
	update := func(st ecState, it *Item) (map[int]bool, ecState) {
		bad := map[int]bool{}
		n := ecState{}
		for k, v := range st {
			n[k] = v
		}
		if it == nil || it.F != fList {
			bad[2] = true
			return bad, st
		}
		for _, u := range it.L {
			if u.F != fList || len(u.L) < 2 {
				bad[2] = true
				continue
			}
			k, ok := idKey(u.L[0])
			if !ok {
				bad[2] = true
				continue
			}
			c := s.ec(k)
			if _, ok := st[k]; c == nil || !ok {
				bad[1] = true
				continue
			}
			if c.valid != nil && !c.valid(u.L[1]) {
				bad[3] = true
				continue
			}
			n[k] = c.shown(u.L[1])
		}
		return bad, n
	}
	for _, q := range reqs {
		q := q
		if q.sf[0] != 2 {
			continue
		}
		o := lop[ecState]{inv: q.inv, ret: q.ret, name: q.String()}
		switch q.sf[1] {
		case 15:
			code, ok := ack(q.rep)
			switch {
			case q.rep != nil && q.rep.F.F() == 16 && !ok:
				e.Bad("G06", "acknowledge of S2F15 has no code", "%s answered by %v", q, q.rep.F)
				return
			case ok && q.rep.F.F() == 16:
				e.Count(fmt.Sprintf("S2F15_ack%d", code))
				o.name += fmt.Sprintf(" acknowledged with %d", code)
				o.step = func(st ecState) (ecState, bool) {
					bad, n := update(st, q.f.It)
					if code == 0 {
						return n, len(bad) == 0
					}
					return st, bad[code] || q.mut
				}
			case q.n > 0:
				continue
			default:
				o.opt = !q.live || q.w || q.mut
				o.step = func(st ecState) (ecState, bool) {
					bad, n := update(st, q.f.It)
					if len(bad) > 0 {
						return st, !o.opt
					}
					return n, true
				}
			}
			ops = append(ops, o)
		case 13:
			if q.rep == nil || q.rep.F.F() != 14 || q.f.It == nil || q.f.It.F != fList {
				continue
			}
			r := q.rep.It
			var keys []string
			for _, x := range q.f.It.L {
				k, ok := idKey(x)
				if !ok {
					k = "?"
				}
				keys = append(keys, k)
			}
			all := len(keys) == 0
			if r == nil || r.F != fList || !all && len(r.L) != len(keys) {
				e.Bad("G06", "S2F14 does not have one entry per constant", "%s answered by %v", q, q.rep.F)
				return
			}
			o.name += fmt.Sprintf(" answered by %v", r)
			o.step = func(st ecState) (ecState, bool) {
				keys := keys
				if all {
					if keys = strings.Split(st[order], "\n"); len(keys)-1 != len(r.L) {
						return st, false
					}
					keys = keys[:len(r.L)]
				}
				for i, k := range keys {
					v, ok := st[k]
					if !ok {
						v = empty
					}
					if enc(r.L[i]) != v {
						return st, false
					}
				}
				return st, true
			}
			e.Count("constant_reads_checked")
			if !all && during(ownW, q.inv, q.ret) { // read one by one
				for i, k := range keys {
					i, k, o := i, k, o
					o.name += fmt.Sprintf(", entry %d", i)
					o.step = func(st ecState) (ecState, bool) {
						v, ok := st[k]
						if !ok {
							v = empty
						}
						return st, enc(r.L[i]) == v
					}
					ops = append(ops, o)
				}
				continue
			}
			if all && during(ownW, q.inv, q.ret) {
				continue
			}
			ops = append(ops, o)
		case 29:
			s.checkECInfo(q)
		}
	}
	if ok, msg := linear(init, ecState.key, ops); !ok {
		e.Bad("G06", "equipment constants: no order of the updates explains the answers", "%s", msg)
	}
	e.CountN("constant_ops_checked", int64(len(ops)))
}

func orEmpty(it *Item) *Item {
	if it == nil {
		return L()
	}
	return it
}

func (s *gsite) checkECInfo(q *greq) {
	if q.rep == nil || q.rep.F.F() != 30 || q.f.It == nil || q.f.It.F != fList {
		return
	}
	good := false
	r := q.rep.It
	fits := func(x *Item, k0 string, ok0 bool, c *constant) bool {
		if x.F != fList || len(x.L) != 6 {
			return false
		}
		k, ok := idKey(x.L[0])
		good := ok == ok0 && (!ok || k == k0) && (ok || enc(x.L[0]) == empty)
		exp := []*Item{A(""), L(), L(), L(), A("")}
		if c != nil {
			exp = []*Item{A(c.name), orEmpty(c.min), orEmpty(c.max), c.def, A(c.unit)}
		}
		for j, y := range exp {
			good = good && enc(x.L[j+1]) == enc(y)
		}
		return good
	}
	if r != nil && r.F == fList && len(q.f.It.L) == 0 {
		for _, gs := range s.fx.orders("ec", q.inv, q.rep.Seq) {
			g := len(gs) == len(r.L)
			for i := 0; g && i < len(gs); i++ {
				g = fits(r.L[i], gs[i].key, true, s.ec(gs[i].key))
			}
			good = good || g
		}
	} else if r != nil && r.F == fList && len(r.L) == len(q.f.It.L) {
		good = true
		for i, x := range q.f.It.L {
			k, ok := idKey(x)
			c, in := s.ec(k), -1
			if c != nil {
				in = c.reg.in(q.inv, q.rep.Seq)
			}
			good = good && (in <= 0 && fits(r.L[i], k, ok, nil) || in >= 0 && fits(r.L[i], k, ok, c))
		}
	}
	if !good {
		s.e.Bad("G06", "S2F30 does not describe the constants asked for", "%s answered by %v", q, q.rep.F)
	}
	s.e.Count("constant_info_checked")
}

// ---- alarms

type alState string // three letters per alarm: enabled, set, registered

func (a alState) with(i, f int, on bool) alState {
	b := []byte(a)
	b[3*i+f] = "-x"[b2i(on)]
	return alState(b)
}
func (a alState) key() string       { return string(a) }
func (a alState) get(i, f int) bool { return a[3*i+f] == 'x' }
func (s *gsite) alarmIdx(id uint64) int {
	for i, a := range s.fx.alarms {
		if uint64(a.id) == id {
			return i
		}
	}
	return -1
}

// almID reads an alarm identifier: an index, -1 if there is no such alarm, false if it is none.
func (s *gsite) almID(it *Item) (int, bool) {
	switch it.F {
	case fU1, fU2, fU4, fU8:
		v, ok := it.Uint(0)
		if !ok {
			v = 0
		}
		return s.alarmIdx(v), true
	case fI1, fI2, fI4, fI8:
		v, ok := it.Int(0)
		if !ok || v < 0 {
			return -1, true
		}
		return s.alarmIdx(uint64(v)), true
	}
	return -1, false
}

func (s *gsite) checkAlarms(reqs []*greq) {
	if s.fx == nil {
		return
	}
	xs := s.exchanges(reqs)
	e := s.e
	fx := s.fx
	var ops []lop[alState]
	init := alState(strings.Repeat("x-x", len(fx.alarms)))
	for i := range fx.alarms {
		if e.P.C("late.al")>>i&1 != 0 {
			init = init.with(i, 2, false)
		}
	}
	late := e.P.C("late.al")
	used := map[*hf]bool{}
	for _, x := range s.ops {
		x := x
		o := lop[alState]{inv: x.Q0, ret: x.Q1, name: fmt.Sprintf("%s alarm %d %v at %v err=%v", x.kind, x.idx, x.on, x.At, x.err)}
		if !x.done {
			x.Q1, x.QE, x.AtE, o.ret, o.opt = s.endSeq, s.endSeq, s.endAt, s.endSeq, true
		}
		if x.QE == 0 {
			x.QE, x.AtE = s.endSeq, s.endAt
		}
		switch x.kind {
		case "almen":
			if x.idx < 0 {
				if x.done && x.err == nil {
					e.Bad("G07", "an unknown alarm is enabled or disabled", "%s", o.name)
					return
				}
				continue
			}
			o.step = func(a alState) (alState, bool) {
				if !a.get(x.idx, 2) {
					return a, x.err != nil || !x.done
				}
				return a.with(x.idx, 0, x.on), x.err == nil
			}
			ops = append(ops, o)
		case "almreg":
			o.step = func(a alState) (alState, bool) {
				return a.with(x.idx, 0, true).with(x.idx, 1, false).with(x.idx, 2, true), true
			}
			ops = append(ops, o)
		case "alarm":
			var got []*hf
			if x.idx >= 0 {
				for _, c := range s.cs {
					for _, f := range c.out {
						if f.F.Typ == tData && f.F.S() == 5 && f.F.F() == 1 && f.Seq >= x.Q0 && f.Seq <= x.QE && f.It != nil && len(f.It.L) == 3 {
							if v, ok := f.It.L[1].Uint(0); ok && v == uint64(fx.alarms[x.idx].id) {
								got = append(got, f)
								used[f] = true
							}
						}
					}
				}
			} else if x.done && x.err == nil {
				e.Bad("G07", "raising an unknown alarm succeeds", "%s", o.name)
				return
			}
			if len(got) > 1 {
				e.Bad("G07", "more than one alarm report for one change", "%s: %d", o.name, len(got))
				return
			}
			if w := s.mustComm(xs, x.At, x.End); w != nil && x.done && errors.Is(x.err, gem.ErrNotCommunicating) {
				e.Bad("G07", "an alarm is refused while communicating", "alarm %d at %v; established at %v on connection %d", x.idx, x.At, w.acc, w.c.id)
				return
			}
			if len(got) > 0 && x.done && !s.mayComm(xs, x.Q1, x.At) {
				e.Bad("G01,G07", "a call goes ahead although communication is not established", "alarm %d at %v until %v: %v", x.idx, x.At, x.End, x.err)
				return
			}
			if errors.Is(x.err, gem.ErrNotCommunicating) || x.idx < 0 {
				if len(got) > 0 {
					e.Bad("G07", "a refused alarm change is reported", "%s: %v", o.name, got[0].F)
					return
				}
				continue
			}
			sent := len(got) == 1
			if sent {
				it := got[0].It
				if it.L[0].F != fBin || len(it.L[0].D) != 1 || (it.L[0].D[0] != 0) != x.on || it.L[2].F != fAsc || string(it.L[2].D) != fx.alarms[x.idx].text {
					e.Bad("G07", "alarm report with wrong content", "%s: %v", o.name, it)
					return
				}
			}
			sure := x.done && x.err == nil
			if sure {
				sure = false
				for _, c := range s.cs {
					if c.selAt != never && c.selAt < x.At-e.Tol && (c.lost == never || c.lost > x.AtE) {
						sure = true
					}
				}
			}
			o.name += fmt.Sprintf(" reported=%v", sent)
			o.step = func(a alState) (alState, bool) {
				if !a.get(x.idx, 2) {
					return a, (x.err != nil || !x.done) && !sent
				}
				en := a.get(x.idx, 0)
				return a.with(x.idx, 1, x.on), !(sent && !en) && !(sure && !sent && en)
			}
			ops = append(ops, o)
			e.Count("alarm_changes_checked")
		}
	}
	for _, c := range s.cs {
		for _, f := range c.out {
			if f.F.Typ == tData && f.F.S() == 5 && f.F.F() == 1 && !used[f] {
				e.Bad("G07", "an alarm report without a change", "%v at %v", f.F, f.At)
				return
			}
		}
	}
	for _, q := range reqs {
		q := q
		if q.sf[0] != 5 {
			continue
		}
		o := lop[alState]{inv: q.inv, ret: q.ret, name: q.String()}
		switch q.sf[1] {
		case 3:
			it := q.f.It
			weird := it == nil || it.F != fList || len(it.L) < 2 || it.L[0].F != fBin || len(it.L[0].D) == 0 || it.L[0].D[0]&0x7f != 0 || it.L[1].F != fList
			fit := !weird
			var ids []int
			if fit {
				for _, x := range it.L[1].L {
					i, ok := s.almID(x)
					if !ok || i < 0 {
						fit = false
						break
					}
					ids = append(ids, i)
				}
			}
			known := func(a alState) bool {
				for _, i := range ids {
					if !a.get(i, 2) {
						return false
					}
				}
				return true
			}
			set := func(a alState) alState {
				for _, i := range ids {
					a = a.with(i, 0, it.L[0].D[0]&0x80 != 0)
				}
				return a
			}
			code, ok := ack(q.rep)
			switch {
			case q.rep != nil && q.rep.F.F() == 4 && !ok:
				e.Bad("G07", "acknowledge of S5F3 has no code", "%s answered by %v", q, q.rep.F)
				return
			case ok && q.rep.F.F() == 4:
				e.Count(fmt.Sprintf("S5F3_ack%d", code))
				if code == 0 && weird {
					e.Count("odd_S5F3_accepted")
					return // what it means is open
				}
				if late == 0 && (code == 0) != fit && !q.mut || code == 0 && !fit {
					e.Bad("G07", "S5F3 is acknowledged wrongly", "%s acknowledged with %d", q, code)
					return
				}
				if code != 0 && (!fit || q.mut) {
					continue
				}
				o.step = func(a alState) (alState, bool) {
					if known(a) != (code == 0) {
						return a, false
					}
					if code != 0 {
						return a, true
					}
					return set(a), true
				}
			case q.n > 0:
				continue
			default:
				if !fit {
					if q.mut && weird {
						return
					}
					continue
				}
				o.opt = !q.live || q.w || q.mut
				o.step = func(a alState) (alState, bool) {
					if !known(a) {
						return a, true
					}
					return set(a), true
				}
			}
			ops = append(ops, o)
		case 5, 7:
			if q.rep == nil || q.rep.F.F() != q.sf[1]+1 {
				continue
			}
			r := q.rep.It
			o.name += fmt.Sprintf(" answered by %v", r)
			if r == nil || r.F != fList {
				e.Bad("G07", "the alarm list is no list", "%s", o.name)
				return
			}
			got := map[int]byte{}
			last := -1
			for _, x := range r.L {
				if x.F != fList || len(x.L) != 3 || x.L[0].F != fBin || len(x.L[0].D) != 1 || x.L[2].F != fAsc {
					e.Bad("G07", "an entry of the alarm list is malformed", "%s", o.name)
					return
				}
				i, ok := s.almID(x.L[1])
				if !ok || i < 0 || string(x.L[2].D) != fx.alarms[i].text {
					e.Bad("G07", "the alarm list names a wrong alarm", "%s", o.name)
					return
				}
				if _, dup := got[i]; dup {
					e.Bad("G07", "the alarm list names an alarm twice", "%s", o.name)
					return
				}
				got[i] = x.L[0].D[0]
				if fx.alarms[i].id < last {
					e.Bad("G07", "the alarm list is not in order", "%s", o.name)
					return
				}
				last = fx.alarms[i].id
			}
			only := q.sf[1] == 7
			o.step = func(a alState) (alState, bool) {
				for i := range fx.alarms {
					c, ok := got[i]
					en, st := a.get(i, 0), a.get(i, 1)
					if ok != ((en || !only) && a.get(i, 2)) {
						return a, false
					}
					if ok && ((c&0x80 != 0) != st || (c&0x40 != 0) != en) {
						return a, false
					}
				}
				return a, true
			}
			ops = append(ops, o)
			e.Count("alarm_lists_checked")
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	if ok, msg := linear(init, alState.key, ops); !ok {
		e.Bad("G07", "alarms: no order of the changes explains reports and lists", "%s", msg)
	}
}

// ---- process programs

func (s *gsite) checkPrograms(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	nocb := e.P.C("nocb")
	upl, rqh := nocb&16 != 0, nocb&48 == 48
	var ops []lop[ecState]
	calls := map[string]int{}
	for _, c := range s.fx.uploads {
		calls[c.Name+"\x00"+c.Args]++
	}
	liveC, allC := map[string]int{}, map[string]int{}
	for _, x := range s.ops {
		x := x
		if x.kind == "listpp" && x.done && !rqh {
			if x.idx > 0 {
				e.Bad("G08", "a process program is listed twice", "%v", x.res)
				return
			}
			got := x.res.(ecState).key()
			ops = append(ops, lop[ecState]{inv: x.Q0, ret: x.Q1, name: fmt.Sprintf("list at %v: %v", x.At, x.res), step: func(st ecState) (ecState, bool) {
				return st, st.key() == got
			}})
			e.Count("program_lists_checked")
		}
		if x.kind != "regpp" || rqh {
			continue
		}
		if x.done && x.err != nil {
			e.Bad("G08", "registering a process program fails", "%v", x.err)
			return
		}
		o := lop[ecState]{inv: x.Q0, ret: x.Q1, name: "program " + x.key + " registered"}
		if !x.done {
			o.ret, o.opt = s.endSeq, true
		}
		o.step = func(st ecState) (ecState, bool) { return st.put(x.key, x.body), true }
		ops = append(ops, o)
	}
	for _, q := range reqs {
		q := q
		if q.sf[0] != 7 {
			continue
		}
		o := lop[ecState]{inv: q.inv, ret: q.ret, name: q.String()}
		switch q.sf[1] {
		case 3:
			it := q.f.It
			key, fit, body := "", false, ""
			if it != nil && it.F == fList && len(it.L) >= 2 {
				key, fit = idKey(it.L[0])
				fit = fit && (it.L[1].F == fAsc || it.L[1].F == fBin)
				body = string(it.L[1].D)
			}
			if fit {
				allC[key+"\x00"+body]++
				if q.live && !q.mut {
					liveC[key+"\x00"+body]++
				}
			}
			refuse := upl && len(body) > 0 && body[0] == '!'
			code, ok := ack(q.rep)
			o.step = func(st ecState) (ecState, bool) { return st.put(key, body), true }
			switch {
			case q.rep != nil && q.rep.F.F() == 4 && !ok:
				e.Bad("G08", "acknowledge of S7F3 has no code", "%s answered by %v", q, q.rep.F)
				return
			case ok && q.rep.F.F() == 4:
				e.Count(fmt.Sprintf("S7F3_ack%d", code))
				o.name += fmt.Sprintf(" acknowledged with %d", code)
				if code == 0 && (!fit || refuse) {
					e.Bad("G08", "a process program that cannot be stored is acknowledged", "%s", o.name)
					return
				}
				if fit && refuse && !q.mut && code != uplAck(body) {
					e.Bad("G08", "the acknowledge is not the application's", "%s", o.name)
					return
				}
				if code != 0 && fit && !refuse && !q.mut {
					e.Bad("G08", "a process program is refused", "%s", o.name)
					return
				}
				if code != 0 {
					continue
				}
			case q.n > 0:
				continue
			default:
				if !fit || refuse {
					continue
				}
				o.opt = !q.live || q.w || q.mut
			}
			ops = append(ops, o)
		case 5:
			it := q.f.It
			if it != nil && it.F == fList && len(it.L) > 0 {
				it = it.L[0]
			}
			key, fit := idKey(it)
			if q.rep == nil || q.rep.F.F() != 6 || !fit {
				continue
			}
			r := q.rep.It
			o.name += fmt.Sprintf(" answered by %v", r)
			if r == nil || r.F != fList || len(r.L) != 3 || r.L[1].F != fAsc && r.L[1].F != fBin || r.L[2].F != fBin || len(r.L[2].D) != 1 {
				e.Bad("G08", "S7F6 is malformed", "%s", o.name)
				return
			}
			if k, ok := idKey(r.L[0]); !ok || k != key {
				e.Bad("G08", "S7F6 names another program", "%s", o.name)
				return
			}
			o.step = func(st ecState) (ecState, bool) {
				b, ok := st[key]
				if !ok {
					return st, r.L[2].D[0] != 0 && len(r.L[1].D) == 0 && (!rqh || q.mut || int(r.L[2].D[0]) == ppAck(key))
				}
				return st, r.L[2].D[0] == 0 && string(r.L[1].D) == b
			}
			ops = append(ops, o)
			e.Count("program_reads_checked")
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	if ok, msg := linear(ecState{}, ecState.key, ops); !ok {
		e.Bad("G08", "process programs: no order of the uploads explains the answers", "%s", msg)
	}
	if upl {
		for k, n := range calls {
			if n > allC[k] {
				e.Bad("G08", "the upload handler is called without an upload", "%q: %d calls, %d uploads", k, n, allC[k])
			}
		}
		for k, n := range liveC {
			if calls[k] < n {
				e.Bad("G08", "an upload does not reach the handler", "%q: %d calls, %d uploads", k, calls[k], n)
			}
		}
	}
	e.CountN("program_ops_checked", int64(len(ops)))
}

func (s ecState) put(k, v string) ecState {
	n := ecState{}
	for a, b := range s {
		n[a] = b
	}
	n[k] = v
	return n
}

// ---- remote commands

// cmdOf parses a remote command as an equipment must.
func cmdOf(it *Item) (name, args string, ok bool) {
	if it == nil || it.F != fList || len(it.L) == 0 {
		return
	}
	if name, ok = idKey(it.L[0]); !ok {
		return
	}
	if len(it.L) > 1 && it.L[1].F == fList {
		for _, p := range it.L[1].L {
			if p.F != fList || len(p.L) == 0 {
				continue
			}
			k, ok := idKey(p.L[0])
			if !ok {
				continue
			}
			args += k + "="
			if len(p.L) > 1 {
				args += fmt.Sprintf("%x", enc(p.L[1]))
			}
			args += ";"
		}
	}
	return name, args, true
}

func (s *gsite) checkCommands(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	count := func(rs []*rcall) map[string]int {
		m := map[string]int{}
		for _, c := range rs {
			m[c.Name+" "+c.Args]++
		}
		return m
	}
	ran, ev := count(s.fx.cmds), count(s.fx.cmdEv)
	ret := map[string]*rcall{}
	for _, c := range s.fx.cmds {
		ret[c.Name+" "+c.Args] = c
	}
	muts := 0
	seen := map[string]bool{}
	for _, q := range reqs {
		if q.sf != [2]int{2, 41} {
			continue
		}
		name, args, ok := cmdOf(q.f.It)
		code, acked := -1, false
		if q.rep != nil && q.rep.F.F() == 42 {
			it := q.rep.It
			if it == nil || it.F != fList || len(it.L) != 2 || it.L[0].F != fBin || len(it.L[0].D) != 1 {
				e.Bad("G09", "S2F42 is malformed", "%s answered by %v", q, q.rep.F)
				return
			}
			code, acked = int(it.L[0].D[0]), true
			e.Count(fmt.Sprintf("S2F42_ack%d", code))
		}
		if q.mut {
			muts++
			if !ok && code == 0 {
				e.Bad("G09", "a malformed remote command is acknowledged", "%s", q)
				return
			}
			continue
		}
		k := name + " " + args
		seen[k] = true
		who := within(s.fx.rcs, q.inv, q.ret)
		noh, all := !who["app"], !who["nobody"]
		n := ran[k]
		switch {
		case noh && n > 0 || n > 1:
			e.Bad("G09", "a remote command runs too often", "%s: %d times", q, n)
			return
		case noh && code == 0:
			e.Bad("G09", "a remote command is acknowledged although nobody handles it", "%s", q)
			return
		case n == 0 && code == 0:
			e.Bad("G09", "a remote command is acknowledged and not run", "%s", q)
			return
		case all && q.live && n == 0:
			e.Bad("G09", "a remote command does not reach the application as sent", "%s; the application got %v", q, ran)
			return
		case acked && all && n == 0:
			e.Bad("G09", "a remote command is answered and not run", "%s", q)
			return
		}
		if ev[k] > 1 || q.live && ev[k] != 1 {
			e.Bad("G09", "RemoteCommandReceived is not fired exactly once", "%s: %d times", q, ev[k])
			return
		}
		if acked && n == 1 {
			c := ret[k]
			if code != c.Ret && (c.Ret >= 0 || code == 0) {
				e.Bad("G09", "the acknowledge is not the result of the execution", "%s: ran with %d, acknowledged with %d", q, c.Ret, code)
				return
			}
			if c.End == 0 || c.End > q.rep.Seq {
				e.Bad("G09", "acknowledged before the execution ended", "%s", q)
				return
			}
			want := L()
			if strings.HasSuffix(c.Name, "PACK") {
				for i, p := range q.f.It.L[1].L {
					pk, _ := idKey(p.L[0])
					want.L = append(want.L, L(A(pk), B(byte(packs[i%len(packs)]))))
				}
			}
			got := L()
			for _, p := range q.rep.It.L[1].L {
				pk, _ := idKey(p.At(0))
				got.L = append(got.L, L(A(pk), orEmpty(p.At(1))))
			}
			if enc(got) != enc(want) {
				e.Bad("G09", "parameter acknowledges are not those of the execution", "%s: %v, want %v", q, got, want)
				return
			}
			e.Count("commands_checked")
		}
	}
	extra := 0
	for k, n := range ran {
		if !seen[k] {
			extra += n
		}
	}
	if extra > muts {
		e.Bad("G09", "the application gets a command nobody sent", "%v", ran)
	}
}

// ---- status variables

func (s *gsite) sv(key string) *vreg {
	for _, v := range s.fx.svs {
		if v.key == key {
			return v
		}
	}
	return nil
}

func (s *gsite) checkStatus(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	s.judgeRegs("G10")
	for _, q := range reqs {
		if q.sf[0] != 1 || q.sf[1] != 3 && q.sf[1] != 11 || q.rep == nil || q.rep.F.F() != q.sf[1]+1 || q.f.It == nil || q.f.It.F != fList {
			continue
		}
		r := q.rep.It
		if r == nil || r.F != fList {
			e.Bad("G10", fmt.Sprintf("S1F%d does not have one entry per variable", q.sf[1]+1), "%s answered by %v", q, q.rep.F)
			return
		}
		fits := func(x *Item, key string, ok0 bool, v *vreg) bool {
			if q.sf[1] == 3 {
				return v == nil && enc(x) == empty || v != nil && v.may(enc(x), q.inv, q.rep.Seq)
			}
			name, unit := "", ""
			if v != nil {
				name, unit = v.name, v.unit
			}
			if x.F != fList || len(x.L) != 3 {
				return false
			}
			k, ok := idKey(x.L[0])
			return ok == ok0 && (!ok || k == key) && (ok || enc(x.L[0]) == empty) && enc(x.L[1]) == enc(A(name)) && enc(x.L[2]) == enc(A(unit))
		}
		what := "S1F4 holds a value the variable did not have"
		if q.sf[1] == 11 {
			what = "S1F12 does not describe the variable asked for"
		}
		if len(q.f.It.L) == 0 {
			same, good := false, false
			for _, gs := range s.fx.orders("sv", q.inv, q.rep.Seq) {
				g := len(gs) == len(r.L)
				same = same || g
				for i := 0; g && i < len(gs); i++ {
					g = fits(r.L[i], gs[i].key, true, s.sv(gs[i].key))
				}
				good = good || g
			}
			if !same {
				e.Bad("G10", fmt.Sprintf("S1F%d does not have one entry per variable", q.sf[1]+1), "%s answered by %v", q, q.rep.F)
				return
			}
			if !good {
				e.Bad("G10", what, "%v to %s", r, q)
				return
			}
			e.Count("status_lists_checked")
			continue
		}
		if len(r.L) != len(q.f.It.L) {
			e.Bad("G10", fmt.Sprintf("S1F%d does not have one entry per variable", q.sf[1]+1), "%s answered by %v", q, q.rep.F)
			return
		}
		for i, x := range q.f.It.L {
			k, ok := idKey(x)
			v, in := s.sv(k), -1
			if v != nil {
				in = v.reg.in(q.inv, q.rep.Seq)
			}
			if !(in <= 0 && fits(r.L[i], k, ok, nil) || in >= 0 && fits(r.L[i], k, ok, v)) {
				e.Bad("G10", what, "entry %d (%s) of %v to %s", i, k, r, q)
				return
			}
			e.Count("status_values_checked")
		}
	}
}

// ---- clock

func parseClock(t string) (stime.Time, bool) {
	if len(t) < 14 {
		return stime.Time{}, false
	}
	v, err := stime.Parse("20060102150405", t[:14])
	return v, err == nil
}

func (s *gsite) checkClock(reqs []*greq) {
	if s.fx == nil {
		return
	}
	e := s.e
	calls := map[string]int{}
	for _, c := range s.fx.clocks {
		calls[c.Name]++
	}
	live, all := map[string]int{}, map[string]int{}
	now0 := stime.Now()
	// right tells whether a text is the equipment's time at some point in between
	right := func(text string, a, b int64, at0, at1 time.Duration) bool {
		in := within(s.fx.provs, a, b)
		between := func(t stime.Time, o time.Duration) bool {
			return !t.Before(now0.Add(at0-simrt.Now()).Add(o).Truncate(time.Second)) && !t.After(now0.Add(at1-simrt.Now()).Add(o))
		}
		if in["system"] {
			t, err := stime.ParseInLocation("20060102150405", text[:14], now0.Location())
			if err == nil && between(t, 0) {
				return true
			}
		}
		if !in["app"] {
			return false
		}
		t, ok := parseClock(text)
		t = t.Add(-time.Duration(e.P.C("tz")) * 15 * time.Minute)
		last := -1
		for i, o := range s.fx.offs {
			if o.s0 <= a {
				last = i
			}
		}
		for i, o := range s.fx.offs {
			if ok && i >= last && o.s0 <= b && between(t, o.off) {
				return true
			}
		}
		return false
	}
	for _, x := range s.ops {
		if x.kind != "gtime" || !x.done {
			continue
		}
		if len(x.key) != 16 || !right(x.key, x.Q0, x.Q1, x.At, x.End) {
			e.Bad("G11", "GetEquipmentTime is not the equipment's time", "%q at %v", x.key, now0.Add(x.At-simrt.Now()))
			return
		}
		e.Count("clock_reads_by_the_application")
	}
	for _, q := range reqs {
		switch q.sf {
		case [2]int{2, 17}:
			if q.rep == nil || q.rep.F.F() != 18 {
				continue
			}
			it := q.rep.It
			if it == nil || it.F != fAsc || len(it.D) != 16 {
				e.Bad("G11", "S2F18 is no time", "%s answered by %v", q, q.rep.F)
				return
			}
			if !right(string(it.D), q.inv, q.rep.Seq, q.f.At, q.rep.At) {
				e.Bad("G11", "S2F18 is not the equipment's time", "%s at %v answered by %q; offsets %v", q, now0.Add(q.f.At-simrt.Now()), it.D, s.fx.offs)
				return
			}
			e.Count("clock_reads_checked")
		case [2]int{2, 31}:
			it := q.f.It
			var t stime.Time
			fit := it != nil && it.F == fAsc
			if fit {
				t, fit = parseClock(string(it.D))
			}
			code, ok := ack(q.rep)
			if q.rep != nil && q.rep.F.F() == 32 && !ok {
				e.Bad("G11", "acknowledge of S2F31 has no code", "%s answered by %v", q, q.rep.F)
				return
			}
			acked := ok && q.rep.F.F() == 32
			if acked {
				e.Count(fmt.Sprintf("S2F32_ack%d", code))
			}
			who := within(s.fx.syncs, q.inv, q.ret)
			if !fit || !who["app"] {
				if acked && code == 0 {
					e.Bad("G11", "a time that is not set is acknowledged", "%s", q)
					return
				}
				continue
			}
			k := t.UTC().Format("20060102150405")
			all[k]++
			if who["nobody"] {
				continue
			}
			if q.live && (!q.mut || acked) {
				live[k]++
			}
			want := 0
			switch {
			case t.Year() < 2000:
				want = 2
			case t.Minute() == 13:
				want = -1
			case t.Minute() == 14:
				want = 5
			}
			if acked && code != want && !(want == -1 && code != 0) {
				e.Bad("G11", "the time acknowledge is not the handler's", "%s: %d, want %d", q, code, want)
				return
			}
		}
	}
	for k, n := range calls {
		if n > all[k] {
			e.Bad("G11", "the clock is set without a request", "%s: %d calls, %d requests", k, n, all[k])
		}
	}
	for k, n := range live {
		if calls[k] < n {
			e.Bad("G11", "a time request does not reach the handler", "%s: %d calls, %d requests", k, calls[k], n)
		}
	}
}

// ---- the host's calls

// expected is what a call must return for a well-formed answer; ok is false if it is not
// well-formed.
func (x *gop) expected(r *hf) (out any, ok bool) {
	it := r.It
	list := func(n int) bool { return it != nil && it.F == fList && (n < 0 || len(it.L) == n) }
	code := func() (int, bool) {
		if it == nil || it.F != fBin || len(it.D) != 1 {
			return 0, false
		}
		return int(it.D[0]), true
	}
	if r.F.F() != x.F+1 {
		return nil, false
	}
	l := L()
	switch [2]int{x.S, x.F} {
	case [2]int{1, 3}, [2]int{2, 13}:
		if !list(len(x.args.L)) {
			return nil, false
		}
		for i, v := range it.L {
			k, _ := idKey(x.args.L[i])
			l.L = append(l.L, L(A(k), v))
		}
		return l, true
	case [2]int{1, 11}, [2]int{2, 29}:
		if !list(-1) {
			return nil, false
		}
		n := 3
		if x.F == 29 {
			n = 6
		}
		for _, v := range it.L {
			if v.F != fList || len(v.L) != n || v.L[1].F != fAsc || v.L[n-1].F != fAsc {
				return nil, false
			}
			k, ok := idKey(v.L[0])
			if !ok {
				return nil, false
			}
			y := L(A(k))
			y.L = append(y.L, v.L[1:]...)
			l.L = append(l.L, y)
		}
		return l, true
	case [2]int{2, 15}, [2]int{2, 33}, [2]int{2, 35}, [2]int{2, 37}, [2]int{2, 31}, [2]int{5, 3}, [2]int{7, 3}:
		return code()
	case [2]int{6, 15}:
		ce, rs, ok := reportsOf(it)
		if !ok || ce == "" || !uintFmt(it.L[0].F) {
			return nil, false
		}
		id, ok := it.L[0].Uint(0)
		if !ok || len(it.L) != 3 {
			return nil, false
		}
		rl := L()
		for i, r := range rs {
			rl.L = append(rl.L, L(A(r.key), it.L[2].L[i].L[1]))
		}
		return L(U8(id), A(ce), rl), true
	case [2]int{7, 5}:
		if !list(3) || it.L[1].F != fAsc && it.L[1].F != fBin || it.L[2].F != fBin || len(it.L[2].D) != 1 {
			return nil, false
		}
		return L(A(string(it.L[1].D)), I4(int64(it.L[2].D[0]))), true
	case [2]int{2, 41}:
		if !list(2) || it.L[0].F != fBin || len(it.L[0].D) != 1 || it.L[0].D[0] > 6 || it.L[1].F != fList {
			return nil, false
		}
		for _, p := range it.L[1].L {
			if p.F != fList || len(p.L) != 2 || p.L[1].F != fBin || len(p.L[1].D) != 1 || p.L[1].D[0] == 0 || p.L[1].D[0] > 63 {
				return nil, false
			}
			k, ok := idKey(p.L[0])
			if !ok {
				return nil, false
			}
			l.L = append(l.L, L(A(k), U1(uint64(p.L[1].D[0]))))
		}
		return L(U1(uint64(it.L[0].D[0])), l), true
	case [2]int{2, 17}:
		if it == nil || it.F != fAsc {
			return nil, false
		}
		return string(it.D), true
	case [2]int{5, 5}, [2]int{5, 7}:
		if !list(-1) {
			return nil, false
		}
		for _, v := range it.L {
			if v.F != fList || len(v.L) != 3 || v.L[0].F != fBin || len(v.L[0].D) != 1 || v.L[2].F != fAsc {
				return nil, false
			}
			id, ok := v.L[1].Uint(0)
			if !uintFmt(v.L[1].F) || !ok {
				i, ok2 := v.L[1].Int(0)
				if v.L[1].F != fI1 && v.L[1].F != fI2 && v.L[1].F != fI4 && v.L[1].F != fI8 || !ok2 || i < 0 {
					return nil, false
				}
				id = uint64(i)
			}
			c := v.L[0].D[0]
			l.L = append(l.L, L(U8(id), A(string(v.L[2].D)), Bo(c>>7&1), Bo(c>>6&1)))
		}
		return l, true
	}
	return nil, false
}

func sameRes(a, b any) bool {
	x, ok := a.(*Item)
	y, ok2 := b.(*Item)
	if ok != ok2 {
		return false
	}
	if ok {
		return x.Equal(y)
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// lenient tells whether a result may have been read from an answer that is not well-formed:
// the acknowledge is what it begins with, anything else is a list.
func (x *gop) lenient(r *hf) bool {
	it := r.It
	first := func(it *Item) int {
		for it != nil && it.F == fList && len(it.L) > 0 {
			it = it.L[0]
		}
		if it == nil || it.F != fBin || len(it.D) == 0 {
			return -1
		}
		return int(it.D[0])
	}
	if r.F.F() != x.F+1 || it == nil {
		return false
	}
	if c, ok := x.res.(int); ok {
		return c == first(it) || it.F == fList && len(it.L) > 0 && c == first(it.L[0])
	}
	if it.F != fList {
		return false
	}
	switch [2]int{x.S, x.F} {
	case [2]int{2, 41}:
		c, _ := x.res.(*Item).L[0].Uint(0)
		return len(it.L) > 0 && (int(c) == first(it.L[0]) || first(it.L[0]) > 6)
	case [2]int{7, 5}:
		c, _ := x.res.(*Item).L[1].Int(0)
		if len(it.L) < 2 || string(x.res.(*Item).L[0].D) != string(it.L[1].D) {
			return false
		}
		return len(it.L) == 2 && c == 0 || len(it.L) > 2 && int(c) == first(it.L[2])
	}
	return true
}

// sameArgs compares a request body with the arguments of a call.
func (x *gop) sameArgs(it *Item) bool {
	if x.args == nil {
		return true
	}
	if x.any0 {
		return it != nil && it.F == fList && len(it.L) == len(x.args.L) && norm(L(it.L[1:]...)) == norm(L(x.args.L[1:]...))
	}
	if x.S == 2 && x.F == 37 { // a flag of either kind
		return it != nil && it.F == fList && len(it.L) == 2 && (it.L[0].F == fBool || it.L[0].F == fBin) && len(it.L[0].D) == 1 &&
			(it.L[0].D[0] != 0) == (x.args.L[0].D[0] != 0) && norm(it.L[1]) == norm(x.args.L[1])
	}
	return it != nil && norm(it) == norm(x.args)
}

// norm renders an item with numbers by value.
func norm(it *Item) string {
	if it == nil {
		return "-"
	}
	if it.F == fList {
		s := "["
		for _, x := range it.L {
			s += norm(x) + " "
		}
		return s + "]"
	}
	if k, ok := idKey(it); ok && it.F != fAsc && len(it.D) == width(it.F) {
		return k
	}
	if v, ok := it.Int(0); ok && (it.F == fI1 || it.F == fI2 || it.F == fI4 || it.F == fI8) && len(it.D) == width(it.F) {
		return fmt.Sprintf("N:%d", v)
	}
	return fmt.Sprintf("%x", enc(it))
}

func (s *gsite) checkCalls(reqs []*greq) {
	if !s.host {
		return
	}
	xs := s.exchanges(reqs)
	e := s.e
	type wire struct {
		c   *gconn
		f   *hf
		rep *hf
	}
	var ws []*wire
	for _, c := range s.cs {
		for _, f := range c.out {
			if f.F.Typ != tData || f.F.F()%2 == 0 || f.F.S() == 1 && f.F.F() == 13 || f.F.S() == 9 {
				continue
			}
			w := &wire{c: c, f: f}
			for _, r := range c.in {
				if r.F.Typ == tData && r.F.Sys == f.F.Sys && r.F.F()%2 == 0 && r.F.S() == f.F.S() && r.Seq > f.Seq {
					w.rep = r
					break
				}
			}
			ws = append(ws, w)
		}
	}
	for _, x := range s.ops {
		if x.kind == "badcall" {
			if e.Count("bad_calls"); !x.done || x.err == nil {
				e.Bad(sfProp[[2]int{x.S, x.F}], fmt.Sprintf("a host call with an argument no message can carry succeeds: S%dF%d", x.S, x.F), "at %v", x.At)
				return
			}
		}
		if !strings.HasPrefix(x.kind, "call-") || x.skipped {
			continue
		}
		prop := sfProp[[2]int{x.S, x.F}]
		if !x.done {
			x.Q1, x.End = s.endSeq, s.endAt
		}
		var mine []*wire
		for _, w := range ws {
			if w.f.F.S() == x.S && w.f.F.F() == x.F && w.f.Seq >= x.Q0 && w.f.Seq <= x.Q1+1 && x.sameArgs(w.f.It) {
				mine = append(mine, w)
			}
		}
		if errors.Is(x.err, gem.ErrNotCommunicating) {
			if w := s.mustComm(xs, x.At, x.End); w != nil && x.done {
				e.Bad("G01,"+prop, "a call is refused as not communicating while communication is established", "%s at %v; established at %v on connection %d", x.kind, x.At, w.acc, w.c.id)
				return
			}
			e.Count("call_refused")
			continue
		}
		if len(mine) > 0 && x.done && !s.mayComm(xs, x.Q1, x.At) {
			e.Bad("G01,"+prop, "a call goes ahead although communication is not established", "%s at %v until %v: %v", x.kind, x.At, x.End, x.err)
			return
		}
		if !x.done {
			continue
		}
		if x.err == nil {
			ok := false
			odd := false
			for _, w := range mine {
				if w.rep == nil || w.rep.Seq > x.Q1 {
					continue
				}
				exp, fit := x.expected(w.rep)
				odd = odd || !fit && x.lenient(w.rep)
				if fit && sameRes(exp, x.res) {
					ok = true
				}
			}
			if !ok && !odd {
				e.Bad(prop, fmt.Sprintf("a host call returns what no answer says: S%dF%d", x.S, x.F), "%s at %v returned %v; %d requests on the wire%s", x.kind, x.At, x.res, len(mine), func() string {
					for _, w := range mine {
						if w.rep != nil {
							return fmt.Sprintf(", answered by %v", w.rep.It)
						}
					}
					return ""
				}())
				return
			}
			e.Count("calls_succeeded")
			continue
		}
		// alone with its request, answered in time: it must not fail
		others := 0
		for _, y := range s.ops {
			if y != x && y.S == x.S && y.F == x.F && y.Q0 <= x.Q1 && (y.Q1 >= x.Q0 || y.Q1 == 0) {
				others++
			}
		}
		if len(mine) == 0 && others == 0 {
			for _, c := range s.cs {
				if c.selAt != never && c.selAt < x.At-e.Tol && (c.lost == never || c.lost > x.End+e.Tol) {
					e.Bad(prop, fmt.Sprintf("a host call fails without sending anything: S%dF%d", x.S, x.F), "%s at %v: %v", x.kind, x.At, x.err)
					return
				}
			}
		}
		if len(mine) == 1 && others == 0 && mine[0].rep != nil {
			w := mine[0]
			if exp, fit := x.expected(w.rep); fit && w.rep.At < w.f.At+s.t3-e.Tol && w.c.alive(w.rep.At+e.Tol) {
				e.Bad(prop, fmt.Sprintf("a host call fails although it was answered: S%dF%d", x.S, x.F), "%s at %v: %v; answer %v means %v", x.kind, x.At, x.err, w.rep.It, exp)
				return
			}
		}
		e.Count("calls_failed")
	}
	// nothing on the wire that nobody called for
	for _, w := range ws {
		ok := w.f.F.S() == 1 && w.f.F.F() == 1
		for _, x := range s.ops {
			if strings.HasPrefix(x.kind, "call-") && x.S == w.f.F.S() && x.F == w.f.F.F() && x.Q0 <= w.f.Seq && w.f.Seq <= x.Q1+1 && x.sameArgs(w.f.It) && !x.skipped {
				ok = true
			}
		}
		if !ok {
			e.Bad(sfProp[[2]int{w.f.F.S(), w.f.F.F()}], "a host request nobody asked for", "%v at %v", w.f.F, w.f.At)
			return
		}
	}
}

// ---- what the host's application is told

func (s *gsite) checkHostEvents(reqs []*greq) {
	if !s.host {
		return
	}
	e := s.e
	for _, k := range []struct {
		prop string
		sf   [2]int
		got  []hostEvent
		conv func(it *Item) *Item
	}{{"G05", [2]int{6, 11}, s.reports, eventItem}, {"G07", [2]int{5, 1}, s.alarms, alarmItem}} {
		if k.prop != e.Prop {
			continue
		}
		type exp struct {
			q  *greq
			it *Item
		}
		var ex []exp
		odd := 0
		for _, q := range reqs {
			if q.sf != k.sf {
				continue
			}
			it := k.conv(q.f.It)
			if it == nil || q.mut {
				odd++
				continue
			} else {
				ex = append(ex, exp{q, it})
			}
			if c, ok := ack(q.rep); ok && q.rep.F.F() == q.sf[1]+1 && c != 0 {
				e.Bad(k.prop, fmt.Sprintf("S%dF%d is acknowledged with an error", k.sf[0], k.sf[1]), "%s: %d", q, c)
				return
			}
		}
		i := 0
		for _, g := range k.got {
			j := i
			for j < len(ex) && (!ex[j].it.Equal(g.it) || ex[j].q.inv > g.Seq) {
				j++
			}
			if j == len(ex) {
				if odd--; odd < 0 {
					e.Bad(k.prop, fmt.Sprintf("the application gets a report nobody sent: S%dF%d", k.sf[0], k.sf[1]), "%v at %v; %d expected before it", g.it, g.At, i)
					return
				}
				continue
			}
			for ; i < j; i++ {
				if ex[i].q.live {
					e.Bad(k.prop, fmt.Sprintf("a report does not reach the application in order: S%dF%d", k.sf[0], k.sf[1]), "%s", ex[i].q)
					return
				}
			}
			i = j + 1
			e.Count("host_events_checked")
		}
		for ; i < len(ex); i++ {
			if ex[i].q.live {
				e.Bad(k.prop, fmt.Sprintf("a report does not reach the application: S%dF%d", k.sf[0], k.sf[1]), "%s", ex[i].q)
				return
			}
		}
	}
}

func uintFmt(f byte) bool { return f == fU1 || f == fU2 || f == fU4 || f == fU8 }

// eventItem renders a well-formed S6F11 body like reportItem does.
func eventItem(it *Item) *Item {
	if it == nil || it.F != fList || len(it.L) != 3 {
		return nil
	}
	id, ok := it.L[0].Uint(0)
	ce, rs, ok2 := reportsOf(it)
	if !ok || !ok2 || ce == "" {
		return nil
	}
	rl := L()
	for i, r := range rs {
		rl.L = append(rl.L, L(A(r.key), it.L[2].L[i].L[1]))
	}
	return L(U8(id), A(ce), rl)
}

func alarmItem(it *Item) *Item {
	if it == nil || it.F != fList || len(it.L) != 3 || it.L[0].F != fBin || len(it.L[0].D) != 1 || it.L[2].F != fAsc {
		return nil
	}
	k, ok := idKey(it.L[1])
	if !ok || it.L[1].F == fAsc {
		return nil
	}
	var id uint64
	fmt.Sscan(k[2:], &id)
	if id > 1<<31 {
		return nil
	}
	return L(B(byte(b2i(it.L[0].D[0] != 0))), U8(id), A(string(it.L[2].D)))
}
