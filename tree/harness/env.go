package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// Op is one step of a workload or one injected fault, at a virtual time in ms.
type Op struct {
	At int64  `json:"at"`
	K  string `json:"k"`
	A  int64  `json:"a,omitempty"`
	B  int64  `json:"b,omitempty"`
	C  int64  `json:"c,omitempty"`
	D  int64  `json:"d,omitempty"`
	S  string `json:"s,omitempty"`
	I  int64  `json:"i"` // identity, kept when other steps are dropped
}

// Plan is everything a run does apart from the schedule.
type Plan struct {
	Prop string           `json:"property"`
	Scn  string           `json:"scenario"`
	Cfg  map[string]int64 `json:"cfg"`
	Ops  []Op             `json:"ops"`
}

func (p *Plan) C(k string) int64  { return p.Cfg[k] }
func (p *Plan) Has(k string) bool { return p.Cfg[k] != 0 }

// RunSpec is one exactly repeatable execution.
type RunSpec struct {
	Plan   *Plan         `json:"plan"`
	Sched  int64         `json:"sched_seed"`
	Noise  int64         `json:"noise_seed"`
	Policy simrt.Policy  `json:"policy"`
	Tol    time.Duration `json:"tolerance_ns"`
}

// Viol is a violation of a property.
type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Env is the state of one run.
type Env struct {
	Spec  *RunSpec
	P     *Plan
	Prop  string
	W     *snet.World
	V     *Viol
	Other map[string]int64 // violations of properties not under check in this run
	Cov   map[string]int64
	Tol   time.Duration // how late a timer may be acted upon in this run
	Work  int64         // amount of real work observed
	atEnd []func()
	As    []string // violations of these properties count as well
}

type scnDef struct {
	name string
	run  func(e *Env)
}

type propDef struct {
	id   string
	gens []gen
	runs map[string]int // tier -> runs
}

type gen struct {
	w   int
	scn string
	f   func(r *rand.Rand, p *Plan)
}

var scns = map[string]func(e *Env){}
var props = map[string]*propDef{}

func scenario(name string, f func(e *Env)) { scns[name] = f }

// property registers the workload generators of a property, with weights.
func property(id string, quick, thorough int, gens ...gen) {
	props[id] = &propDef{id: id, gens: gens, runs: map[string]int{"quick": quick, "thorough": thorough}}
}

// Bad reports a violation; it ends the run if it concerns the property under check.
// ids is a comma separated list of properties.
func (e *Env) Bad(ids, class, f string, a ...any) {
	if e.V != nil {
		return
	}
	hit := false
	for _, x := range strings.Split(ids, ",") {
		hit = hit || x == e.Prop || slices.Contains(e.As, x)
	}
	if !hit {
		e.Other[ids+":"+class]++
		return
	}
	if simrt.Tracing() {
		for _, t := range simrt.Live(nil) {
			simrt.Tracef("live task %s blocked on %q since %v", t.Name, t.Why, t.Since)
		}
	}
	e.V = &Viol{Class: class, Msg: fmt.Sprintf(f, a...)}
	simrt.Tracef("VIOLATION %s: %s", class, e.V.Msg)
	if simrt.Cur() != nil && simrt.InSim() {
		simrt.Fail("violation", class)
	}
}

func (e *Env) Count(k string)           { e.Cov[k]++ }
func (e *Env) CountN(k string, n int64) { e.Cov[k] += n }
func ms(n int64) time.Duration          { return time.Duration(n) * time.Millisecond }
func secs(n int64) time.Duration        { return time.Duration(n) * time.Second }

// hash64 derives sub-seeds.
func hash64(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func sortOps(ops []Op) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].At < ops[j].At })
}

// pick draws from weighted choices.
func pick(r *rand.Rand, v ...int64) int64 { return v[r.Intn(len(v))] }
func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }
func between(r *rand.Rand, a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + r.Int63n(b-a+1)
}
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// genNet draws network conditions.
func genNet(r *rand.Rand, p *Plan) {
	p.Cfg["net.min_us"] = pick(r, 0, 50, 200, 1000)
	p.Cfg["net.jit_us"] = pick(r, 0, 100, 1000, 5000)
	p.Cfg["net.seg"] = pick(r, 0, 0, 1, 1, 2)
	p.Cfg["net.short"] = pick(r, 0, 0, 1)
	p.Cfg["net.sndbuf"] = pick(r, 0, 0, 0, 0, 4096, 64, 300)
	p.Cfg["net.conn_us"] = pick(r, 0, 0, 2000, 50000)
}

func (e *Env) netCfg() snet.NetCfg {
	p := e.P
	return snet.NetCfg{MinDelay: time.Duration(p.C("net.min_us")) * time.Microsecond, Jitter: time.Duration(p.C("net.jit_us")) * time.Microsecond,
		SegMode: int(p.C("net.seg")), Short: p.Has("net.short"), SndBuf: int(p.C("net.sndbuf")), ConnDelay: time.Duration(p.C("net.conn_us")) * time.Microsecond}
}

// genPolicy draws how this run is scheduled.
func genPolicy(r *rand.Rand) simrt.Policy {
	var p simrt.Policy
	switch k := r.Intn(20); {
	case k < 2:
		p.Mode = "fifo"
		p.Mean = 1e9
	case k < 13:
		p.Mode = "random"
		p.Mean = []float64{1.5, 3, 6, 12, 25, 50, 100, 400, 2000}[r.Intn(9)]
	default:
		p.Mode = "pct"
		p.PCTDepth = 1 + r.Intn(6)
		p.PCTLen = []int{200, 1000, 4000, 16000}[r.Intn(4)]
		p.Mean = 1e9
	}
	if r.Intn(10) < 4 {
		p.SlipP = []float64{0.02, 0.1, 0.4}[r.Intn(3)]
		p.SlipMax = []time.Duration{time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond}[r.Intn(3)]
		p.SlipTotal = 60 * time.Millisecond
	}
	if r.Intn(10) < 3 {
		p.StallP = []float64{0.001, 0.01, 0.1}[r.Intn(3)]
		p.StallMax = []time.Duration{2 * time.Millisecond, 20 * time.Millisecond, 80 * time.Millisecond}[r.Intn(3)]
		p.StallTotal = 250 * time.Millisecond
	}
	return p
}

var surveying bool
var pools = map[string][4][]int{}

// sites lists the statements of the code under test that runs of a property reach, and those
// among them that use a map, or a field, that other tasks use under no common lock, and those
// that take a lock.
func sites(prop, tier string) [4][]int {
	if l, ok := pools[prop]; ok {
		return l
	}
	surveying = true
	reached, maps, fields, locks := simrt.Survey(func() {
		for i := int64(0); i < 120; i++ {
			execute(makeSpec(prop, tier, 1, i), false)
		}
	})
	surveying = false
	pools[prop] = [4][]int{reached, maps, fields, locks}
	if os.Getenv("VSIM_SUSPECTS") != "" {
		fmt.Fprintln(os.Stderr, prop, len(reached), maps, fields, len(locks))
	}
	return pools[prop]
}

// genHot has tasks held up at a few statements, for a moment or longer, so that the others
// go on meanwhile.
func genHot(r *rand.Rand, p *simrt.Policy, sites []int) {
	if len(sites) == 0 {
		return
	}
	for i := []int{1, 1, 1, 2, 3}[r.Intn(5)]; i > 0; i-- {
		p.Hot = append(p.Hot, sites[r.Intn(len(sites))])
	}
	p.HotP = []float64{1, 0.5, 0.2}[r.Intn(3)]
	if p.StallTotal == 0 {
		p.StallTotal = []time.Duration{2 * time.Millisecond, 250 * time.Millisecond}[r.Intn(2)]
		if r.Intn(3) == 0 {
			p.HotLong, p.StallTotal = true, 400*time.Millisecond
		}
	}
}
