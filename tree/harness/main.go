// Command harness runs simulated executions of the code under test.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	_ "github.com/younglifestyle/secs4go/verifsim/shim/context"
	_ "github.com/younglifestyle/secs4go/verifsim/shim/crand"
	_ "github.com/younglifestyle/secs4go/verifsim/shim/maps"
	snet "github.com/younglifestyle/secs4go/verifsim/shim/net"
	_ "github.com/younglifestyle/secs4go/verifsim/shim/rand2"
	_ "github.com/younglifestyle/secs4go/verifsim/shim/runtime"
	_ "github.com/younglifestyle/secs4go/verifsim/shim/signal"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

var out = bufio.NewWriter(os.Stdout)

// makeSpec derives run number i of a property's batch.
func makeSpec(prop, tier string, seed, i int64) *RunSpec {
	pd := props[prop]
	r := rand.New(rand.NewSource(hash64("plan", prop, seed, i)))
	tot := 0
	for _, g := range pd.gens {
		tot += g.w
	}
	k := r.Intn(tot)
	var g gen
	for _, g = range pd.gens {
		if k < g.w {
			break
		}
		k -= g.w
	}
	p := &Plan{Prop: prop, Scn: g.scn, Cfg: map[string]int64{}}
	genNet(r, p)
	if tier == "thorough" {
		p.Cfg["big"] = 1
	}
	g.f(r, p)
	sortOps(p.Ops)
	for i := range p.Ops {
		p.Ops[i].I = int64(i)
	}
	s := &RunSpec{Plan: p, Sched: hash64("sched", prop, seed, i), Noise: hash64("noise", prop, seed, i), Policy: genPolicy(r)}
	if hold := r.Intn(6) == 0; !surveying {
		switch pool := sites(prop, tier); {
		case len(pool[1]) > 0 && r.Intn(3) == 0:
			genHot(r, &s.Policy, pool[1])
		case hold:
			genHot(r, &s.Policy, pool[[]int{0, 2, 3}[r.Intn(3)]])
		}
	}
	s.Tol = s.Policy.SlipTotal + s.Policy.StallTotal + 30*time.Millisecond
	return s
}

// Outcome is what one run showed.
type Outcome struct {
	V   *Viol
	Err string // harness trouble
	Res *simrt.Result
	Env *Env
	Net map[string]int64
}

var numRe = regexp.MustCompile(`0x[0-9a-f]+|\b[0-9]+\b`)

func execute(spec *RunSpec, trace bool) *Outcome {
	pl := *spec.Plan
	pl.Cfg = map[string]int64{}
	for k, v := range spec.Plan.Cfg {
		pl.Cfg[k] = v
	}
	e := &Env{Spec: spec, P: &pl, Prop: spec.Plan.Prop, Other: map[string]int64{}, Cov: map[string]int64{}}
	e.Tol = spec.Tol
	run := scns[spec.Plan.Scn]
	if run == nil {
		return &Outcome{Err: "no scenario " + spec.Plan.Scn}
	}
	for k := range hooks {
		hooks[k]()
	}
	res := simrt.Run(simrt.Config{SchedSeed: spec.Sched, NoiseSeed: spec.Noise, Policy: spec.Policy, Trace: trace, MaxSteps: 60_000_000, MaxAlloc: 24 << 20, MaxTime: 24 * time.Hour}, func() {
		e.W = snet.Reset(e.netCfg())
		run(e)
	})
	o := &Outcome{Res: res, Env: e, V: e.V}
	if e.W != nil {
		o.Net = e.W.Stats
	}
	if o.V == nil && res.Fail != nil {
		f := res.Fail
		switch f.Kind {
		case "violation":
		case "time":
			o.Err = "simulated time limit: " + f.Msg
		default:
			top := topFrame(f.Stack)
			if f.Group == "harness" || strings.HasPrefix(top, "main.") {
				o.Err = fmt.Sprintf("harness %s: %s\n%s", f.Kind, f.Msg, f.Stack)
				break
			}
			msg := numRe.ReplaceAllString(strings.SplitN(f.Msg, "\n", 2)[0], "N")
			if f.Kind == "deadlock" || f.Kind == "steps" || f.Kind == "livelock" {
				msg = ""
			}
			o.V = &Viol{Class: strings.TrimSpace(f.Kind + " " + msg + " " + top), Msg: f.Msg + "\n" + f.Stack}
		}
	}
	return o
}

// topFrame names the innermost function of the code under test (or of the harness).
func topFrame(stack string) string {
	if i := strings.Index(stack, ": "); i >= 0 {
		stack = stack[i+2:]
	}
	for _, l := range strings.Split(strings.SplitN(stack, "\n", 2)[0], " < ") {
		if i := strings.IndexByte(l, '@'); i >= 0 {
			l = l[:i]
		}
		if l == "" || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return l
	}
	return ""
}

// hooks reset harness state that outlives a run.
var hooks []func()

// ReplayFile is the artefact of a violation.
type ReplayFile struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Msg       string   `json:"message"`
	Seed      int64    `json:"verif_seed"`
	Index     int64    `json:"run_index"`
	Hash      string   `json:"event_hash"`
	Minimised string   `json:"minimised"`
	Spec      *RunSpec `json:"run"`
	Trace     []string `json:"trace"`
}

// minimise shrinks a failing run while the same class of violation persists.
func minimise(spec *RunSpec, class string, budget time.Duration) (*RunSpec, string) {
	deadline := time.Now().Add(budget)
	tries := 0
	test := func(s *RunSpec) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		o := execute(s, false)
		return o.V != nil && o.V.Class == class
	}
	clone := func(s *RunSpec) *RunSpec {
		b, _ := json.Marshal(s)
		var c RunSpec
		json.Unmarshal(b, &c)
		return &c
	}
	cur := clone(spec)
	ops0 := len(cur.Plan.Ops)
	// the schedule as explicit decisions: with the same plan it reproduces the run exactly
	o := execute(cur, false)
	rep := clone(cur)
	rep.Policy = simrt.Policy{Mode: "replay", Devs: o.Res.Devs}
	devs0 := len(o.Res.Devs)
	// 1. drop workload and fault steps (seeded schedule kept)
	dropOps := func(base *RunSpec) *RunSpec {
		for sz := (len(base.Plan.Ops) + 1) / 2; sz >= 1; sz /= 2 {
			for i := 0; i < len(base.Plan.Ops); {
				c := clone(base)
				j := min(i+sz, len(c.Plan.Ops))
				c.Plan.Ops = append(c.Plan.Ops[:i:i], c.Plan.Ops[j:]...)
				if test(c) {
					base = c
				} else {
					i += sz
				}
				if time.Now().After(deadline) {
					return base
				}
			}
		}
		return base
	}
	cur = dropOps(cur)
	// 2. quieten the network and the schedule
	for _, k := range []string{"net.seg", "net.short", "net.sndbuf", "net.jit_us", "net.conn_us"} {
		if cur.Plan.Cfg[k] != 0 {
			c := clone(cur)
			c.Plan.Cfg[k] = 0
			if test(c) {
				cur = c
			}
		}
	}
	if c := clone(cur); c.Policy.Mode != "fifo" {
		c.Policy = simrt.Policy{Mode: "fifo", Mean: 1e9}
		if test(c) {
			cur = c
		}
	}
	// 3. fix the schedule and remove its deviations one by one (delta debugging)
	o = execute(cur, false)
	rep = clone(cur)
	rep.Policy = simrt.Policy{Mode: "replay", Devs: o.Res.Devs}
	if test(rep) {
		cur = rep
		for sz := (len(cur.Policy.Devs) + 1) / 2; sz >= 1; sz /= 2 {
			for i := 0; i < len(cur.Policy.Devs); {
				c := clone(cur)
				j := min(i+sz, len(c.Policy.Devs))
				c.Policy.Devs = append(c.Policy.Devs[:i:i], c.Policy.Devs[j:]...)
				if test(c) {
					cur = c
				} else {
					i += sz
				}
				if time.Now().After(deadline) {
					break
				}
			}
			if time.Now().After(deadline) {
				break
			}
		}
		cur = dropOps(cur)
	}
	return cur, fmt.Sprintf("ops %d -> %d, schedule decisions %d -> %d (%s), %d runs", ops0, len(cur.Plan.Ops), devs0, len(cur.Policy.Devs), cur.Policy.Mode, tries)
}

type known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
}

// Report is what a worker prints.
type Report struct {
	Runs, Nontrivial int64
	SimNanos         int64
	Steps            int64
	Hashes           []uint64
	Cov, Net, Sched  map[string]int64
	Other            map[string]int64
	Scn              map[string]int64
	Known            map[string]int64
	Samples          []json.RawMessage
	Violation        string // replay path
	Class            string
	Err              string
	Done             bool
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	from := flag.Int64("from", 0, "")
	step := flag.Int64("step", 1, "")
	count := flag.Int64("count", 100, "total number of runs of the batch")
	budget := flag.Duration("budget", time.Minute, "wall clock cap")
	minb := flag.Duration("min", 40*time.Second, "minimisation budget")
	dir := flag.String("dir", ".", "where replays go")
	knownF := flag.String("known", "", "known findings")
	replay := flag.String("replay", "", "replay a file")
	crash := flag.Int64("crash", -1, "run only this index, leaving a replay file in case the process dies")
	one := flag.Int64("one", -1, "run only this index and trace it")
	hashes := flag.Bool("hashes", false, "print index and hash of every run")
	list := flag.Bool("list", false, "")
	state := flag.String("state", "", "file that names the run in progress")
	keep := flag.Bool("all", false, "do not stop at a violation; count classes")
	keepd := flag.Bool("runs", false, "print the number of runs of the tier")
	flag.Parse()
	log.SetOutput(io.Discard)
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(512 << 20)
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(out, strings.Join(ids, " "))
		out.Flush()
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *keepd {
		fmt.Fprintln(out, props[*prop].runs[*tier])
		out.Flush()
		return
	}
	if *crash >= 0 {
		s := makeSpec(*prop, *tier, *seed, *crash)
		rf := ReplayFile{Property: *prop, Class: "process crash", Msg: "the process dies in this run", Seed: *seed, Index: *crash, Minimised: "not minimised", Spec: s}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(filepath.Join(*dir, fmt.Sprintf("%s-%d-%d.json", *prop, *seed, *crash)), b, 0o644)
		go func() {
			time.Sleep(100 * time.Second)
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "run %d hangs\n%s\n", *crash, buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}()
		execute(s, false)
		return
	}
	if *one >= 0 {
		s := makeSpec(*prop, *tier, *seed, *one)
		b, _ := json.Marshal(s)
		fmt.Fprintf(out, "%s\n", b)
		o := execute(s, true)
		for _, l := range o.Res.Trace {
			fmt.Fprintln(out, l)
		}
		fmt.Fprintf(out, "viol=%+v err=%s steps=%d t=%v hash=%016x work=%d cov=%v other=%v net=%v\n", o.V, o.Err, o.Res.Steps, o.Res.Now, o.Res.Hash, o.Env.Work, o.Env.Cov, o.Env.Other, o.Net)
		out.Flush()
		return
	}
	var kn []known
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var kf struct {
			Findings []known `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		kn = kf.Findings
	}
	rep := &Report{Cov: map[string]int64{}, Net: map[string]int64{}, Sched: map[string]int64{}, Other: map[string]int64{}, Scn: map[string]int64{}, Known: map[string]int64{}}
	deadline := time.Now().Add(*budget)
	var curIdx, started atomic.Int64
	curIdx.Store(-1)
	go func() { // watchdog: a run that hangs for real is harness trouble
		for {
			time.Sleep(time.Second)
			if s := started.Load(); s != 0 && time.Now().UnixNano()-s > int64(100*time.Second) {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "watchdog: run %d of %s hangs\n%s\n", curIdx.Load(), *prop, buf[:n])
				os.Exit(3)
			}
		}
	}()
	add := func(dst, src map[string]int64) {
		for k, v := range src {
			dst[k] += v
		}
	}
	var stf *os.File
	if *state != "" {
		stf, _ = os.Create(*state)
	}
	for i := *from; i < *count; i += *step {
		if time.Now().After(deadline) {
			break
		}
		spec := makeSpec(*prop, *tier, *seed, i)
		curIdx.Store(i)
		if stf != nil {
			stf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		started.Store(time.Now().UnixNano())
		o := execute(spec, false)
		started.Store(0)
		if o.Err != "" {
			rep.Err = fmt.Sprintf("run %d: %s", i, o.Err)
			break
		}
		if *hashes {
			fmt.Fprintf(out, "%d %016x\n", i, o.Res.Hash)
		}
		rep.Runs++
		rep.SimNanos += int64(o.Res.Now)
		rep.Steps += o.Res.Steps
		rep.Scn[spec.Plan.Scn]++
		if o.Env.Work > 0 {
			rep.Nontrivial++
			rep.Hashes = append(rep.Hashes, o.Res.Hash)
		}
		add(rep.Cov, o.Env.Cov)
		add(rep.Net, o.Net)
		add(rep.Other, o.Env.Other)
		rep.Sched["preemptions"] += o.Res.Preempts
		rep.Sched["switches"] += o.Res.Switches
		rep.Sched["timer_slips"] += o.Res.Slips
		rep.Sched["task_stalls"] += o.Res.Stalls
		rep.Sched["tasks_held_at_a_statement"] += o.Res.SiteStalls
		if len(spec.Policy.Hot) > 0 {
			rep.Sched["runs_with_held_statements"]++
		}
		rep.Sched["timer_fires"] += o.Res.TimerFires
		rep.Sched["mode_"+spec.Policy.Mode]++
		if len(rep.Samples) < 2 && i/(*step) < 4 {
			b, _ := json.Marshal(map[string]any{"index": i, "scenario": spec.Plan.Scn, "cfg": spec.Plan.Cfg, "ops": spec.Plan.Ops, "policy": spec.Policy, "steps": o.Res.Steps, "sim_s": o.Res.Now.Seconds(), "hash": fmt.Sprintf("%016x", o.Res.Hash)})
			if len(b) < 12000 {
				rep.Samples = append(rep.Samples, b)
			}
		}
		if o.V == nil {
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.Property == *prop && k.Class == o.V.Class {
				rep.Known[k.What]++
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		if *keep {
			rep.Other["VIOL "+o.V.Class+fmt.Sprintf(" (first run %d)", i)]++
			continue
		}
		started.Store(0)
		ms, how := minimise(spec, o.V.Class, *minb)
		mo := execute(ms, true)
		if mo.V == nil || mo.V.Class != o.V.Class {
			ms, how = spec, "not minimised"
			mo = execute(ms, true)
		}
		if mo.V == nil {
			rep.Err = fmt.Sprintf("run %d: violation %q did not repeat", i, o.V.Class)
			break
		}
		rf := ReplayFile{Property: *prop, Class: mo.V.Class, Msg: mo.V.Msg, Seed: *seed, Index: i, Hash: fmt.Sprintf("%016x", mo.Res.Hash), Minimised: how, Spec: ms, Trace: tailTrace(mo.Res.Trace, 400)}
		b, _ := json.MarshalIndent(rf, "", " ")
		path := filepath.Join(*dir, fmt.Sprintf("%s-%d-%d.json", *prop, *seed, i))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			rep.Err = err.Error()
			break
		}
		rep.Violation, rep.Class = path, mo.V.Class
		break
	}
	rep.Done = true
	b, _ := json.Marshal(rep)
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func tailTrace(t []string, n int) []string {
	if len(t) > n {
		return t[len(t)-n:]
	}
	return t
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := execute(rf.Spec, true)
	for _, l := range o.Res.Trace {
		fmt.Fprintln(out, l)
	}
	defer out.Flush()
	if o.Err != "" {
		fmt.Fprintln(out, "error:", o.Err)
		return 2
	}
	h := fmt.Sprintf("%016x", o.Res.Hash)
	if o.V == nil {
		fmt.Fprintf(out, "no violation; hash %s (recorded %s)\n", h, rf.Hash)
		return 0
	}
	fmt.Fprintf(out, "class: %s\nmessage: %s\nhash %s (recorded %s)\n", o.V.Class, o.V.Msg, h, rf.Hash)
	if o.V.Class != rf.Class || h != rf.Hash {
		fmt.Fprintf(out, "replay differs from the recording (class %q)\n", rf.Class)
	}
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
