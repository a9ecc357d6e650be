package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// vrec is one value a variable took, and when.
type vrec struct {
	enc    string
	s0, s1 int64
}

// vreg is the application's record of one variable.
type vreg struct {
	key, name, unit string
	kind            string // static, prov (fresh value at each call), fail (a provider that has none)
	hist            []vrec // the stored value
	prov            []vrec // what the provider gave
	modes           []vmode
	set             func(n ast.ItemNode)
	setProv         func(kind string)
	reg             *reg
}

// vmode is where the variable takes its value from, since when.
type vmode struct {
	kind   string
	s0, s1 int64
}

// within gives the phases the variable may have been in at some point in [a,b].
func within(ms []vmode, a, b int64) map[string]bool {
	out := map[string]bool{}
	for _, m := range ms { // one begins after the other has ended
		if m.s0 > b {
			break
		}
		if m.s1 < a {
			clear(out)
		}
		out[m.kind] = true
	}
	return out
}

// reg is one item of the equipment the application registers: at the start or while it
// runs, and perhaps again.
type reg struct {
	class, key string
	late       bool // not registered at the start
	first      func() error
	again      func() error
	q0, q1     int64 // when the registration that succeeded took place
	done       bool
}

// in tells whether the item is registered at some point in [a,b]: 1 throughout, -1 never, 0 open.
func (g *reg) in(a, b int64) int {
	switch {
	case !g.late || g.done && g.q1 <= a:
		return 1
	case !g.done || g.q0 >= b:
		return -1
	}
	return 0
}

// add registers an item now or, if the plan says so, later.
func (f *fixture) add(class, key string, first, again func() error) *reg {
	n := 0
	for _, g := range f.regs {
		if g.class == class {
			n++
		}
	}
	g := &reg{class: class, key: key, first: first, again: again, late: f.e.P.C("late."+class)>>n&1 != 0}
	f.regs = append(f.regs, g)
	if !g.late {
		if err := first(); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return g
}

func (f *fixture) reg(class, key string) *reg {
	for _, g := range f.regs {
		if g.class == class && g.key == key {
			return g
		}
	}
	return nil
}

// orders gives the orders in which the items of a class may be listed at some point in [a,b].
func (f *fixture) orders(class string, a, b int64) [][]*reg {
	var base, late []*reg
	for _, g := range f.regs {
		switch {
		case g.class != class || g.in(a, b) < 0:
		case g.late:
			late = append(late, g)
		default:
			base = append(base, g)
		}
	}
	var out [][]*reg
	used := make([]bool, len(late))
	var rec func(l []*reg)
	rec = func(l []*reg) {
		full := true
		for i, g := range late {
			if !used[i] && g.in(a, b) == 1 {
				full = false
			}
		}
		if full {
			out = append(out, append([]*reg{}, l...))
		}
		for i, g := range late {
			ok := !used[i]
			for j, h := range late {
				if j != i && !used[j] && h.q1 <= g.q0 {
					ok = false
				}
			}
			if ok {
				used[i] = true
				rec(append(l[:len(l):len(l)], g))
				used[i] = false
			}
		}
	}
	rec(base)
	return out
}

// judgeRegs checks the registrations made while the equipment ran.
func (s *gsite) judgeRegs(id string) {
	if s.fx == nil {
		return
	}
	e := s.e
	for _, x := range s.ops {
		if x.kind == "enrol" && x.ok && (!x.done || x.err == nil) {
			e.Bad(id, "registering nothing does not fail", "%s", x.o.S)
		}
	}
	for _, g := range s.fx.regs {
		var won, lost []*gop
		for _, x := range s.ops {
			if x.kind != "enrol" || x.reg != g {
				continue
			}
			switch {
			case !x.done:
				e.Bad(id, "a registration never returns", "%s %s", g.class, g.key)
				return
			case x.err == nil:
				won = append(won, x)
			default:
				lost = append(lost, x)
			}
			e.Count("registrations_judged")
		}
		if len(won) > 1 || len(won) == 1 && !g.late {
			e.Bad(id, "one identifier is registered twice", "%s %s", g.class, g.key)
			return
		}
		for _, x := range lost {
			if g.late && (len(won) == 0 || won[0].Q0 >= x.Q1) {
				e.Bad(id, "a new identifier is refused", "%s %s: %v", g.class, g.key, x.err)
			}
		}
	}
}

const empty = "\x01\x00" // an item of length zero, as a list holds it

func enc(it *Item) string { return string(it.Enc(nil)) }

// may tells whether the variable can have shown this value in [a,b].
func (v *vreg) may(val string, a, b int64) bool {
	in := within(v.modes, a, b)
	if in["fail"] && val == empty {
		return true
	}
	for _, h := range v.prov {
		if in["prov"] && h.enc == val && h.s0 >= a && h.s0 <= b {
			return true
		}
	}
	if !in["static"] {
		return false
	}
	last := int64(-1) // the latest start among writes that ended before a
	for _, h := range v.hist {
		if h.s1 < a && h.s0 > last {
			last = h.s0
		}
	}
	for _, h := range v.hist {
		if h.enc != val || h.s0 > b {
			continue
		}
		if h.s1 >= a || h.s1 >= last {
			return true
		}
	}
	return false
}

// constant is an equipment constant as configured.
type constant struct {
	key, name, unit string
	min, max, def   *Item
	valid           func(it *Item) bool
	cur             string // held by the application (updater and provider)
	app             bool
	dead            bool // its provider fails: it has no value to show
	ec              *gem.EquipmentConstant
	reg             *reg
}

// shown is what a read of the constant holds once it has been set to it.
func (c *constant) shown(it *Item) string {
	if c.dead {
		return empty
	}
	return enc(it)
}

// rcall is one invocation of an application callback.
type rcall struct {
	At   time.Duration
	Seq  int64
	Name string
	Args string
	Ret  int
	End  int64
}

// fixture is the equipment application.
type fixture struct {
	e        *Env
	gh       *gem.GemHandler
	site     *gsite
	again    bool // callbacks register themselves again
	svs, dvs []*vreg
	vars     map[string]*vreg
	ecs      []*constant
	ces      []string
	regs     []*reg
	alarms   []alarmDef
	n        uint64
	cmds     []*rcall // remote command handler
	cmdEv    []*rcall // RemoteCommandReceived
	uploads  []*rcall
	ppreqs   []*rcall
	clocks   []*rcall // clock handler
	offs     []vrec2
	provs    []vmode // where the time comes from: app, system
	syncs    []vmode // who sets the clock: app, nobody
	rcs      []vmode // who runs remote commands: app, nobody
	off      time.Duration
	look     func()            // looks at a status variable
	pps      map[string]string // request handler's own programs
}

type vrec2 struct {
	off    time.Duration
	s0, s1 int64
}

type alarmDef struct {
	id   int
	text string
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func keyOf(id any) string {
	switch v := id.(type) {
	case int:
		return fmt.Sprintf("N:%d", v)
	case uint64:
		return fmt.Sprintf("N:%d", v)
	case string:
		return "S:" + v
	}
	return "?"
}

// idKey reads an identifier off the wire.
func idKey(it *Item) (string, bool) {
	if it == nil {
		return "", false
	}
	switch it.F {
	case fAsc:
		return "S:" + string(it.D), true
	case fU1, fU2, fU4, fU8:
		if v, ok := it.Uint(0); ok {
			return fmt.Sprintf("N:%d", v), true
		}
	case fI1, fI2, fI4, fI8:
		if v, ok := it.Int(0); ok && v >= 0 {
			return fmt.Sprintf("N:%d", v), true
		}
	}
	return "", false
}

// Int is the k-th value of a signed item.
func (it *Item) Int(k int) (int64, bool) {
	w := width(it.F)
	if w == 0 || len(it.D) < (k+1)*w {
		return 0, false
	}
	var v uint64
	for _, b := range it.D[k*w : (k+1)*w] {
		v = v<<8 | uint64(b)
	}
	sh := uint(64 - 8*w)
	return int64(v<<sh) >> sh, true
}

func (f *fixture) fresh() *Item { f.n++; return U4(f.n) }

// inside is what an application callback does with the library itself, if it does.
func (f *fixture) inside(sv bool) {
	if f.e.P.C("reent") == 0 {
		return
	}
	f.gh.State()
	f.gh.ControlState()
	f.gh.ListProcessPrograms()
	if f.look != nil && !sv {
		f.look()
	}
	for _, g := range f.regs {
		if !g.late { // refused, as it is there already
			g.again()
		}
	}
	f.e.Count("calls_from_callbacks")
}

func (f *fixture) addVar(sv bool, id any, kind string) {
	v := &vreg{key: keyOf(id), kind: kind, name: "name " + keyOf(id), unit: "unit"}
	prov := func() (ast.ItemNode, error) {
		if f.inside(sv); f.e.P.C("reent") != 0 && len(v.prov) == 0 && v.set != nil {
			f.setVar(v) // kept for when there is no provider
		}
		it := f.fresh()
		v.prov = append(v.prov, vrec{enc(it), simrt.Seq(), simrt.Seq()})
		return it.ToAST(), nil
	}
	switch kind {
	case "prov", "static":
		v.modes = []vmode{{kind, 0, 0}}
	case "none":
		v.modes = []vmode{{"static", 0, 0}}
	default:
		v.modes = []vmode{{"fail", 0, 0}}
	}
	if kind != "static" {
		v.hist = []vrec{{empty, 0, 0}}
	}
	if sv {
		var o []gem.StatusVariableOption
		switch kind {
		case "prov":
			o = append(o, gem.WithStatusValueProvider(prov))
		case "static":
			it := f.fresh()
			v.hist = append(v.hist, vrec{enc(it), 0, 0})
			o = append(o, gem.WithStatusValue(it.ToAST()))
		case "err":
			o = append(o, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("sensor failed") }))
		case "nil":
			o = append(o, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, nil }))
		}
		x := must(gem.NewStatusVariable(goID(v.key), v.name, v.unit, o...))
		v.set = x.SetValue
		if kind == "static" {
			f.look = func() { x.Value() }
		}
		v.setProv = func(k string) {
			switch k {
			case "prov":
				x.SetValueProvider(prov)
			case "fail":
				x.SetValueProvider(func() (ast.ItemNode, error) { return nil, errRefused })
			default:
				x.SetValueProvider(nil)
			}
		}
		v.reg = f.add("sv", v.key, func() error { return f.gh.RegisterStatusVariable(x) }, func() error {
			return f.gh.RegisterStatusVariable(must(gem.NewStatusVariable(goID(v.key), "another", "other", gem.WithStatusValue(A("other").ToAST()))))
		})
		f.svs = append(f.svs, v)
	} else {
		var o []gem.DataVariableOption
		switch kind {
		case "prov":
			o = append(o, gem.WithDataValueProvider(prov))
		case "static":
			it := f.fresh()
			v.hist = append(v.hist, vrec{enc(it), 0, 0})
			o = append(o, gem.WithDataValue(it.ToAST()))
		case "err":
			o = append(o, gem.WithDataValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("no value") }))
		}
		x := must(gem.NewDataVariable(goID(v.key), v.name, o...))
		v.set = x.SetValue
		v.setProv = func(k string) {
			switch k {
			case "prov":
				x.SetValueProvider(prov)
			case "fail":
				x.SetValueProvider(func() (ast.ItemNode, error) { return nil, errRefused })
			default:
				x.SetValueProvider(nil)
			}
		}
		v.reg = f.add("dv", v.key, func() error { return f.gh.RegisterDataVariable(x) }, func() error {
			return f.gh.RegisterDataVariable(must(gem.NewDataVariable(goID(v.key), "another", gem.WithDataValue(A("other").ToAST()))))
		})
		f.dvs = append(f.dvs, v)
	}
	f.vars[v.key] = v
}

// setProv changes where a variable takes its value from.
func (f *fixture) setProv(v *vreg, kind string) {
	v.modes = append(v.modes, vmode{kind, simrt.Seq(), 1 << 60})
	k := len(v.modes) - 1
	v.setProv(kind)
	v.modes[k].s1 = simrt.Seq()
}

// setVar writes a fresh value.
func (f *fixture) setVar(v *vreg) {
	it := f.fresh()
	n := it.ToAST()
	r := vrec{enc(it), simrt.Seq(), 1 << 60}
	v.hist = append(v.hist, r)
	k := len(v.hist) - 1
	v.set(n)
	v.hist[k].s1 = simrt.Seq()
}

func (f *fixture) addEC(c *constant, id any, deco ...gem.EquipmentConstantOption) {
	c.key = keyOf(id)
	c.name, c.unit = "ec "+c.key, "u"
	if c.min != nil {
		deco = append(deco, gem.WithEquipmentConstantMin(c.min.ToAST()))
	}
	if c.max != nil {
		deco = append(deco, gem.WithEquipmentConstantMax(c.max.ToAST()))
	}
	deco = append(deco, gem.WithEquipmentConstantUnit(c.unit))
	x := must(gem.NewEquipmentConstant(goID(c.key), c.name, c.def.ToAST(), deco...))
	c.ec = x
	c.reg = f.add("ec", c.key, func() error { return f.gh.RegisterEquipmentConstant(x) }, func() error {
		return f.gh.RegisterEquipmentConstant(must(gem.NewEquipmentConstant(goID(c.key), "another", A("other").ToAST())))
	})
	f.ecs = append(f.ecs, c)
}

var errRefused = errors.New("refused")

const (
	bigID  = 70000
	hugeID = 1 << 33
)

// newFixture equips an equipment handler. bits of nocb leave callbacks out.
func newFixture(e *Env, gh *gem.GemHandler) *fixture {
	f := &fixture{e: e, gh: gh, vars: map[string]*vreg{}, pps: map[string]string{}, n: 1000}
	nocb := e.P.C("nocb")
	f.again = e.P.C("reent") != 0
	for _, o := range e.P.Ops {
		f.again = f.again && o.K != "clkset"
	}
	f.addVar(true, 1, "static")
	f.addVar(true, 2, "prov")
	f.addVar(true, "SVX", "static")
	f.addVar(true, 4, "none")
	f.addVar(true, bigID, "prov")
	f.addVar(true, hugeID+1, "static")
	if nocb&1 != 0 {
		f.addVar(true, 6, "err")
		f.addVar(true, 7, "nil")
	}
	f.addVar(false, 101, "static")
	f.addVar(false, 102, "prov")
	f.addVar(false, "DVX", "static")
	f.addVar(false, 104, "none")
	if nocb&1 != 0 {
		f.addVar(false, 106, "err")
	}
	le := func(n uint64) func(*Item) bool {
		return func(it *Item) bool { v, ok := it.Uint(0); return ok && it.F == fU4 && v <= n }
	}
	check := func(c *constant) gem.EquipmentConstantOption {
		return gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if f.e.P.C("reent") != 0 {
				simrt.Sleep(time.Millisecond)
				c.ec.Value()
				f.inside(false)
			}
			if !c.valid(FromAST(n)) {
				return errRefused
			}
			return nil
		})
	}
	f.addEC(&constant{def: U4(1)}, 201)
	c2 := &constant{def: U4(5), min: U4(0), max: U4(1000), valid: le(1000)}
	f.addEC(c2, 202, check(c2))
	f.addEC(&constant{def: A("dflt"), min: A("a")}, "EC3")
	c4 := &constant{def: U4(7), app: true, cur: enc(U4(7)), valid: le(500)}
	f.addEC(c4, 204, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
		f.inside(false)
		it := FromAST(n)
		if !c4.valid(it) {
			return errRefused
		}
		c4.cur = enc(it)
		return nil
	}), gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) {
		it, _ := Dec([]byte(c4.cur))
		return it.ToAST(), nil
	}))
	c5 := &constant{def: U4(9), max: U4(100), valid: le(100)}
	f.addEC(c5, bigID+5, check(c5))
	c6 := &constant{def: U4(3), app: true, cur: enc(U4(3)), valid: le(500)}
	f.addEC(c6, 206, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
		if f.e.P.C("reent") != 0 {
			c6.ec.Value()
			f.inside(false)
		}
		it := FromAST(n)
		if !c6.valid(it) {
			return errRefused
		}
		c6.cur = enc(it)
		return nil
	}))
	f.addEC(&constant{def: U4(1)}, hugeID+201)
	c8 := &constant{def: U4(2), app: true, dead: true, valid: le(500)}
	f.addEC(c8, 207, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
		if !c8.valid(FromAST(n)) {
			return errRefused
		}
		return nil
	}), gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return nil, errRefused }))
	for _, id := range []any{301, 302, "CEX", bigID + 1} {
		k := keyOf(id)
		do := func() error { return gh.RegisterCollectionEvent(must(gem.NewCollectionEvent(goID(k), "ce"))) }
		f.add("ce", k, do, do)
		f.ces = append(f.ces, k)
	}
	for _, a := range []alarmDef{{77, "pressure"}, {1, "door open"}, {5, ""}, {300, "temp"}, {bigID, "overrun"}, {hugeID + 77, "leak"}} {
		if e.P.C("late.al")>>len(f.alarms)&1 == 0 {
			gh.RegisterAlarm(gem.Alarm{ID: a.id, Text: a.text})
		}
		f.alarms = append(f.alarms, a)
	}
	f.rcs = []vmode{{"nobody", 0, 0}}
	if nocb&2 == 0 {
		gh.SetRemoteCommandHandler(f.remote)
		f.rcs[0].kind = "app"
	}
	gh.Events().RemoteCommandReceived.AddCallback(func(d map[string]interface{}) {
		q := d["request"].(gem.RemoteCommandRequest)
		f.cmdEv = append(f.cmdEv, &rcall{At: simrt.Now(), Seq: simrt.Seq(), Name: keyOf(q.CommandID), Args: cmdArgs(q)})
	})
	f.offs = []vrec2{{0, 0, 0}}
	f.provs, f.syncs = []vmode{{"system", 0, 0}}, []vmode{{"nobody", 0, 0}}
	if nocb&4 == 0 {
		gh.SetTimeProvider(f.now)
		f.provs[0].kind = "app"
	}
	if nocb&8 == 0 {
		gh.SetClockSyncHandler(f.sync)
		f.syncs[0].kind = "app"
	}
	if nocb&16 != 0 {
		gh.SetProcessProgramUploadHandler(func(id interface{}, body string) int {
			f.inside(false)
			c := &rcall{Seq: simrt.Seq(), Name: keyOf(id), Args: body}
			if len(body) > 0 && body[0] == '!' {
				c.Ret = uplAck(body)
			} else {
				f.pps[c.Name] = body
			}
			f.uploads = append(f.uploads, c)
			return c.Ret
		})
	}
	if nocb&48 == 48 {
		gh.SetProcessProgramRequestHandler(func(id interface{}) (string, int) {
			f.inside(false)
			if f.e.P.C("reent") != 0 {
				f.gh.ListProcessPrograms()
			}
			c := &rcall{Seq: simrt.Seq(), Name: keyOf(id)}
			f.ppreqs = append(f.ppreqs, c)
			if b, ok := f.pps[c.Name]; ok {
				return b, 0
			}
			return "ignored", ppAck(c.Name)
		})
	}
	return f
}

func cmdArgs(q gem.RemoteCommandRequest) string {
	s := ""
	for _, p := range q.Parameters {
		s += keyOf(p.Identifier) + "="
		if it := FromAST(p.Value); it != nil {
			s += fmt.Sprintf("%x", enc(it))
		}
		s += ";"
	}
	return s
}

// uplAck is how the application refuses an upload, ppAck how it refuses a request.
func uplAck(body string) int { return []int{3, 64, 128, 200, 255}[len(body)%5] }
func ppAck(key string) int   { return []int{1, 4, 127, 128, 255}[int(key[len(key)-1])%5] }

// packs are parameter acknowledges; everything from 4 on is the equipment's own.
var packs = []gem.CPACKCode{1, 63, 3, 2, 62, 4}

// remote is the application's remote command handler; the command's name says what it does.
func (f *fixture) remote(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
	c := &rcall{At: simrt.Now(), Seq: simrt.Seq(), Name: keyOf(q.CommandID), Args: cmdArgs(q)}
	f.cmds = append(f.cmds, c)
	defer func() { c.End = simrt.Seq() }()
	f.e.Work++
	if f.inside(false); f.again {
		f.gh.SetRemoteCommandHandler(f.remote)
	}
	if f.e.P.C("reent") != 0 && q.Command == "START" && len(f.cmds) < 4 {
		f.site.inline = true
		f.site.app(&Op{I: int64(1000 + len(f.cmds)), K: "trig", A: int64(len(f.cmds))})
		f.site.inline = false
	}
	switch q.Command {
	case "SLOW":
		simrt.Sleep(ms(f.e.P.C("slowcmd")))
		return gem.RemoteCommandResult{}, nil
	case "FAIL":
		c.Ret = 2
		return gem.RemoteCommandResult{}, errRefused
	case "FAIL3":
		c.Ret = 3
		return gem.RemoteCommandResult{HCACK: 3}, errRefused
	case "BUSY":
		c.Ret = 2
		return gem.RemoteCommandResult{HCACK: 2}, nil
	case "PACK":
		c.Ret = 3
		r := gem.RemoteCommandResult{HCACK: 3}
		for _, p := range q.Parameters {
			r.ParameterAcks = append(r.ParameterAcks, gem.RemoteCommandParameterAck{Name: p.Identifier, Ack: packs[len(r.ParameterAcks)%len(packs)]})
		}
		return r, nil
	case "ODD": // no code of the standard
		c.Ret = -1
		return gem.RemoteCommandResult{HCACK: 200}, nil
	case "LATER":
		c.Ret = 4
		return gem.RemoteCommandResult{HCACK: 4}, nil
	}
	return gem.RemoteCommandResult{}, nil
}

// now is the equipment's clock: it can be set, and runs from there.
func (f *fixture) now() stime.Time {
	if f.inside(false); f.again {
		f.gh.SetTimeProvider(f.now)
	}
	return stime.Now().UTC().Add(f.off).In(f.zone())
}

// zone is the equipment's.
func (f *fixture) zone() *stime.Location {
	return stime.FixedZone("here", int(f.e.P.C("tz"))*900)
}

// sync is the application's handler for setting the clock.
func (f *fixture) sync(t stime.Time) (byte, error) {
	c := &rcall{At: simrt.Now(), Seq: simrt.Seq(), Name: t.UTC().Format("20060102150405")}
	f.clocks = append(f.clocks, c)
	defer func() { c.End = simrt.Seq() }()
	f.inside(false)
	if f.e.P.C("reent") != 0 {
		f.gh.GetEquipmentTime()
	}
	if f.again {
		f.gh.SetClockSyncHandler(f.sync)
	}
	switch {
	case t.Year() < 2000:
		c.Ret = 2
		return 2, nil
	case t.Minute() == 13:
		c.Ret = 1
		return 0, errRefused
	case t.Minute() == 14:
		c.Ret = 5
		return 5, nil
	}
	off := t.Sub(stime.Now().UTC()) - time.Duration(f.e.P.C("tz"))*15*time.Minute
	f.offs = append(f.offs, vrec2{off, simrt.Seq(), simrt.Seq()})
	f.off = off
	return 0, nil
}

// ---- requests

const (
	kS1F1 = iota
	kS1F3
	kS1F11
	kS2F13
	kS2F15
	kS2F29
	kS2F33
	kS2F35
	kS2F37
	kS5F3
	kS5F5
	kS5F7
	kS6F15
	kS7F3
	kS7F5
	kS2F41
	kS2F17
	kS2F31
	kS1F15
	kS1F17
	kS1F13
	kNEq
)

// primaries for a host under test
const (
	kS5F1 = 30 + iota
	kS6F11
	kHS1F1
	kHS1F13
)

var kindSF = map[int64][2]int{kS1F1: {1, 1}, kS1F3: {1, 3}, kS1F11: {1, 11}, kS2F13: {2, 13}, kS2F15: {2, 15}, kS2F29: {2, 29}, kS2F33: {2, 33},
	kS2F35: {2, 35}, kS2F37: {2, 37}, kS5F3: {5, 3}, kS5F5: {5, 5}, kS5F7: {5, 7}, kS6F15: {6, 15}, kS7F3: {7, 3}, kS7F5: {7, 5}, kS2F41: {2, 41},
	kS2F17: {2, 17}, kS2F31: {2, 31}, kS1F15: {1, 15}, kS1F17: {1, 17}, kS1F13: {1, 13}, kS5F1: {5, 1}, kS6F11: {6, 11}, kHS1F1: {1, 1}, kHS1F13: {1, 13}}

// sfProp: the property that rules how a primary is answered.
var sfProp = map[[2]int]string{{1, 3}: "G10", {1, 11}: "G10", {2, 13}: "G06", {2, 15}: "G06", {2, 29}: "G06", {2, 33}: "G04", {2, 35}: "G04", {2, 37}: "G04",
	{5, 3}: "G07", {5, 5}: "G07", {5, 7}: "G07", {6, 15}: "G05", {7, 3}: "G08", {7, 5}: "G08", {2, 41}: "G09", {2, 17}: "G11", {2, 31}: "G11", {1, 15}: "G03", {1, 17}: "G03", {1, 13}: "G01", {1, 1}: "G03"}

func numItem(r *rand.Rand, v uint64) *Item {
	for {
		switch r.Intn(9) {
		case 0:
			if v < 256 {
				return U1(v)
			}
		case 1:
			if v < 65536 {
				return U2(v)
			}
		case 2, 3:
			if v < 1<<32 {
				return U4(v)
			}
		case 4:
			return U8(v)
		case 5:
			if v < 128 {
				return I1(int64(v))
			}
		case 6:
			if v < 32768 {
				return I2(int64(v))
			}
		case 7:
			if v < 1<<31 {
				return I4(int64(v))
			}
		case 8:
			if v < 1<<63 {
				return I8(int64(v))
			}
		}
	}
}

// idItem encodes an identifier key.
func idItem(r *rand.Rand, key string) *Item {
	if key[0] == 'S' {
		return A(key[2:])
	}
	n, _ := strconv.ParseUint(key[2:], 10, 64)
	return numItem(r, n)
}

var (
	svKeys  = []string{"N:1", "N:2", "N:8589934593", "S:SVX", "N:4", "N:70000", "N:6", "N:7", "N:99", "S:none"}
	ecKeys  = []string{"N:201", "N:202", "S:EC3", "N:204", "N:70005", "N:206", "N:8589934793", "N:207"}
	vidKeys = []string{"N:1", "N:2", "N:8589934593", "S:SVX", "N:4", "N:70000", "N:101", "N:102", "S:DVX", "N:104"}
	ceKeys  = []string{"N:301", "N:302", "S:CEX", "N:70001"}
	rpKeys  = []string{"N:1", "N:2", "S:RPX", "N:70002", "N:8589934594"}
	ppKeys  = []string{"S:PP1", "S:7", "N:7", "N:8589934599"}
	almIDs  = []uint64{77, 1, 5, 300, 70000, 8589934669}
)

func pickKey(r *rand.Rand, ks []string, bad float64) string {
	if chance(r, bad) {
		return []string{"N:9999", "S:nosuch", "N:0", "S:"}[r.Intn(4)]
	}
	return ks[r.Intn(len(ks))]
}

func text(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}

func distinct(r *rand.Rand, ks []string, n int, bad float64) []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := pickKey(r, ks, bad)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// some is distinct, now and then with one of the keys twice.
func some(r *rand.Rand, ks []string, n int, bad float64) []string {
	out := distinct(r, ks, n, bad)
	if len(out) > 0 && chance(r, 0.12) {
		out = append(out, out[r.Intn(len(out))])
	}
	return out
}

// world is what the requests of a plan are about; most of what a request of a small world
// asks for can be done.
type world struct {
	sv, ec, vid, ce, rp, pp []string
	alm                     []uint64
	small                   bool
}

var allWorld = &world{svKeys, ecKeys, vidKeys, ceKeys, rpKeys, ppKeys, almIDs, false}

// worldOf gives the world of an operation by its D.
func worldOf(d int64) *world {
	if d>>31 == 0 {
		return allWorld
	}
	r := rand.New(rand.NewSource(hash64("world", d>>31, 0)))
	few := func(ks []string, n int) []string {
		var out []string
		for _, i := range r.Perm(len(ks))[:n] {
			out = append(out, ks[i])
		}
		return out
	}
	w := &world{small: true}
	w.sv, w.ec, w.vid = few(svKeys, 2), few(ecKeys, 2), few(vidKeys, 2)
	w.ce, w.rp, w.pp = few(ceKeys, 1+r.Intn(2)), few(rpKeys, 2+r.Intn(2)), few(ppKeys, 2)
	for _, i := range r.Perm(len(almIDs))[:1+r.Intn(2)] {
		w.alm = append(w.alm, almIDs[i])
	}
	return w
}

// body builds the body of a request of the given kind.
func body(kind int64, r *rand.Rand, tag int64, w *world) *Item {
	svKeys, ecKeys, vidKeys, ceKeys, rpKeys, ppKeys, almIDs := w.sv, w.ec, w.vid, w.ce, w.rp, w.pp, w.alm
	most, odd := 3, 1.0
	if w.small {
		most, odd = 1, 0.2
	}
	ids := func(ks []string, max int, bad float64) *Item {
		it := L()
		for i := r.Intn(max + 1); i > 0; i-- {
			it.L = append(it.L, idItem(r, pickKey(r, ks, bad)))
		}
		return it
	}
	wrap := func(it *Item) *Item { // with or without a DATAID
		if len(it.L) == 0 || r.Intn(4) > 0 {
			return L(numItem(r, uint64(r.Intn(300))), it)
		}
		return it
	}
	switch kind {
	case kS1F3, kS1F11:
		return ids(svKeys, 5, 0.1)
	case kS2F13, kS2F29:
		return ids(ecKeys, 4, 0.15)
	case kS2F15:
		it := L()
		for _, k := range some(r, ecKeys, 1+r.Intn(4), 0.08) {
			v := U4(uint64(r.Intn(110)))
			switch {
			case k == "S:EC3":
				v = A(text(r, r.Intn(6)))
			case chance(r, 0.15):
				v = U4(uint64(r.Intn(3000)))
			case chance(r, 0.05):
				v = A("not a number")
			}
			it.L = append(it.L, L(idItem(r, k), v))
		}
		if chance(r, 0.03) {
			it.L = append(it.L, L(U1(1)))
		}
		return it
	case kS2F33:
		if chance(r, 0.08*odd) {
			return []*Item{L(), L(U4(0), L())}[r.Intn(2)]
		}
		it := L()
		for _, k := range some(r, rpKeys, 1+r.Intn(most), 0) {
			e := L(idItem(r, k), L())
			if chance(r, 0.7) {
				for i := 1 + r.Intn(4); i > 0; i-- {
					e.L[1].L = append(e.L[1].L, idItem(r, pickKey(r, vidKeys, 0.05*odd)))
				}
			}
			it.L = append(it.L, e)
		}
		return wrap(it)
	case kS2F35:
		it := L()
		for _, k := range some(r, ceKeys, 1+r.Intn(most), 0.05*odd) {
			e := L(idItem(r, k), L())
			if chance(r, 0.8) {
				for _, x := range some(r, rpKeys, 1+r.Intn(most), 0.04*odd) {
					e.L[1].L = append(e.L[1].L, idItem(r, x))
				}
			}
			it.L = append(it.L, e)
		}
		return wrap(it)
	case kS2F37:
		c := Bo(byte(r.Intn(2)))
		if chance(r, 0.4) {
			c = B(byte(r.Intn(2) * []int{1, 128, 255}[r.Intn(3)]))
		}
		return L(c, ids(ceKeys, most, 0.08*odd))
	case kS5F3:
		it := L()
		for i := r.Intn(4); i > 0; i-- {
			id := almIDs[r.Intn(len(almIDs))]
			if chance(r, 0.06) {
				id = 4242
			}
			it.L = append(it.L, numItem(r, id))
		}
		return L(B(byte(128*r.Intn(2))), it)
	case kS5F5, kS5F7:
		return []*Item{L(), nil, L(U4(1))}[r.Intn(3)]
	case kS6F15:
		k := idItem(r, pickKey(r, ceKeys, 0.1))
		if chance(r, 0.2) {
			return L(k)
		}
		return k
	case kS7F3:
		b := text(r, []int{0, 1, 5, 40, 300, 3000}[r.Intn(6)])
		if chance(r, 0.15) {
			b = "!" + b
		}
		v := A(b)
		switch {
		case chance(r, 0.12):
			d := make([]byte, r.Intn(30))
			r.Read(d)
			v = B(d...)
		case chance(r, 0.03):
			v = L(A("formatted"), U1(1))
		}
		return L(idItem(r, ppKeys[r.Intn(len(ppKeys))]), v)
	case kS7F5:
		k := idItem(r, pickKey(r, ppKeys, 0.1))
		if chance(r, 0.15) {
			return L(k)
		}
		return k
	case kS2F41:
		ps := L(L(A("N"), U4(uint64(tag))))
		for i := r.Intn(3); i > 0; i-- {
			p := L(idItem(r, []string{"S:P1", "N:3", "S:LOT"}[r.Intn(3)]), payload(r.Int63(), int64(r.Intn(11)), int64(r.Intn(5))))
			if chance(r, 0.1) { // a parameter without a value
				p.L = p.L[:1]
			}
			ps.L = append(ps.L, p)
		}
		return L(idItem(r, cmdNames[r.Intn(len(cmdNames))]), ps)
	case kS2F17:
		return []*Item{L(), nil}[r.Intn(2)]
	case kS2F31:
		return A(clockText(r))
	case kS1F1, kS1F15, kS1F17:
		return []*Item{nil, L(), nil}[r.Intn(3)]
	case kS1F13:
		return []*Item{L(), L(A("mdl"), A("rev"))}[r.Intn(2)]
	case kS5F1:
		return L(B(byte(r.Intn(2)*[]int{1, 128, 129}[r.Intn(3)])), numItem(r, uint64(r.Intn(100000))), A(text(r, r.Intn(20))))
	case kS6F11:
		rs := L()
		for i := r.Intn(4); i > 0; i-- {
			vs := L()
			for j := r.Intn(4); j > 0; j-- {
				vs.L = append(vs.L, payload(r.Int63(), int64(r.Intn(11)), int64(r.Intn(6))))
			}
			rs.L = append(rs.L, L(idItem(r, rpKeys[r.Intn(len(rpKeys))]), vs))
		}
		return L(U4(uint64(tag)), idItem(r, ceKeys[r.Intn(len(ceKeys))]), rs)
	case kHS1F1:
		return nil
	case kX10F3, kX12F1, kX3F17, kX64F1, kX1F5:
		return payload(r.Int63(), int64(r.Intn(11)), int64(r.Intn(6)))
	case kHS1F13:
		return L(A("mdl"), A("rev"))
	}
	return nil
}

var cmdNames = []string{"S:START", "S:STOP", "S:SLOW", "S:FAIL", "S:FAIL3", "S:BUSY", "S:PACK", "S:LATER", "N:9", "S:ODD"}

func clockText(r *rand.Rand) string {
	if chance(r, 0.2) {
		return []string{"", "2026", "20261399000000", "20260230120000", "2026011112300000x", "abcdefghijklmnop", "2026010112301", "19700101000000"}[r.Intn(8)]
	}
	y := 2001 + r.Intn(60)
	if chance(r, 0.1) {
		y = 1971 + r.Intn(25)
	}
	m := r.Intn(60)
	if chance(r, 0.15) {
		m = 13 + r.Intn(2)
	}
	return fmt.Sprintf("%04d%02d%02d%02d%02d%02d%02d", y, 1+r.Intn(12), 1+r.Intn(28), r.Intn(24), m, r.Intn(60), r.Intn(100))
}

// mutate damages a body somewhere.
func mutate(r *rand.Rand, it *Item) *Item {
	odd := func() *Item {
		switch r.Intn(14) {
		case 0:
			return L()
		case 1:
			return A("")
		case 2:
			return B()
		case 3:
			return &Item{F: fU4}
		case 4:
			return &Item{F: fI8}
		case 5:
			return I4(-5)
		case 6:
			return U8(1 << 40)
		case 7:
			return F8(1.5)
		case 8:
			return Bo()
		case 9:
			return U8(1<<64 - 1)
		case 10:
			return B(byte(r.Intn(256)), 2, 3)
		case 11:
			return L(L(L()))
		case 12:
			return &Item{F: fAsc, D: []byte{0xe9, 0x80, 0xff}}
		}
		return payload(r.Int63(), int64(r.Intn(12)), int64(r.Intn(4)))
	}
	if it == nil {
		return odd()
	}
	if len(it.L) > 0 && r.Intn(4) > 0 {
		c := &Item{F: it.F, L: append([]*Item{}, it.L...)}
		k := r.Intn(len(c.L))
		switch r.Intn(6) {
		case 0:
			c.L = append(c.L[:k], c.L[k+1:]...)
		case 1:
			c.L = append(c.L, odd())
		case 2:
			c.L[k] = odd()
		default:
			c.L[k] = mutate(r, c.L[k])
		}
		return c
	}
	if r.Intn(8) == 0 {
		return nil
	}
	return odd()
}
