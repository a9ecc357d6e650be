// Package simrt is the simulation runtime: a cooperative scheduler on a virtual clock.
// Exactly one task runs at any time; who runs next, when a running task is preempted,
// when a timer is allowed to fire early relative to runnable tasks, and which of several
// ready alternatives is taken are all decided here, from one seed or from an explicit
// list of decisions.
package simrt

import (
	"container/heap"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Dev is one recorded deviation from the default schedule (run the current task until it
// blocks, then the task that has been ready longest).
type Dev struct {
	K byte  `json:"k"` // 'p' preempt at step N to runnable C; 's' slip: fire next timer at step N; 'z' stall current for C ns; 'c' choice number N takes alternative C
	N int64 `json:"n"`
	C int64 `json:"c"`
}

// Policy says how schedule decisions are drawn.
type Policy struct {
	Mode       string  // "random", "pct", "fifo", "replay"
	Mean       float64 // mean number of points between preemptions (random/fifo)
	PCTDepth   int
	PCTLen     int
	SlipP      float64 // probability that a preemption point lets the next timer fire
	SlipMax    time.Duration
	SlipTotal  time.Duration
	StallP     float64
	StallMax   time.Duration
	StallTotal time.Duration
	Hot        []int   // yield points at which tasks are held up
	HotP       float64 // how often
	HotLong    bool    // and for long
	Devs       []Dev   // replay
}

type Config struct {
	SchedSeed int64
	NoiseSeed int64
	Policy    Policy
	MaxSteps  int64
	MaxTime   time.Duration
	Trace     bool
	MaxAlloc  int64
}

// Failure describes why a run ended abnormally.
type Failure struct {
	Kind  string // "panic", "fatal", "deadlock", "livelock", "steps", "alloc"
	Msg   string
	Group string
	Stack string
}

type state int

const (
	stRunnable state = iota
	stRunning
	stBlocked
	stDone
)

type Group struct {
	Name   string
	Dead   bool
	Tasks  int
	OnKill []func()
}

type Task struct {
	id     int
	Name   string
	G      *Group
	wake   chan struct{}
	st     state
	kill   bool
	Why    string // what it is blocked on
	prio   int64
	exited chan struct{}
	// wait plumbing
	sel     *selWait
	ok      bool
	tmo     bool
	gen     int64
	Since   int64
	Created string
	// while surveying
	held   []heldLock
	parent *Task
	born   int64
}

type event struct {
	at, seq int64
	f       func()
	dead    bool
	g       *Group
	idx     int
}
type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *evHeap) Push(x any)   { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return e
}

// Sim is one simulated execution.
type Sim struct {
	cfg                 Config
	now                 int64
	seq                 int64
	q                   evHeap
	runq                []*Task
	cur                 *Task
	tasks               map[int]*Task
	nextID              int
	rs                  *rand.Rand // schedule
	rn                  *rand.Rand // noise (network, map order, rand)
	steps0              int64      // steps at the last countdown reload
	reload              int64
	dec                 int64
	devs                []Dev
	repP                map[int64]Dev
	repC                map[int64]int64
	pSteps              []int64 // sorted step numbers in replay mode
	pIdx                int
	fail                *Failure
	done                chan struct{}
	ended               bool
	tear                bool
	slipLeft, stallLeft int64
	lastNow             int64
	clk                 []tick
	forced              int
	spun                int64 // time that passed while a task was computing
	progress            int64 // step of the last voluntary or forced switch
	pctPts              map[int64]bool
	pctList             []int64
	prioLow             int64
	Switches            int64
	Preempts            int64
	Slips               int64
	Stalls              int64
	siteStalls          int64
	TimerFires          int64
	hash                uint64
	trace               []string
	AllocPeak           int64
	mapState            map[uintptr]*mapUse
	rootG               *Group
	groups              []*Group
	Probes              map[string]int64
	noPreempt           int
}

// S is the running simulation, nil outside one.
var S *Sim

// Countdown is decremented by every yield point; the slow path runs when it goes negative.
var Countdown int64 = 1 << 62

// Point is a potential preemption point.
func Point() {
	Countdown--
	if Countdown < 0 {
		slowPoint()
	}
}

// Hot marks the yield points, by number, at which something is to happen.
var hot [1 << 18]bool
var surveying bool
var surveyed []int
var seen map[int]bool

type fieldUse struct {
	name int
	w    bool
}

type fieldKey struct {
	name int
	g    *Group
}

// fieldsAt tells which fields and package variables the statement after a yield point uses.
var fieldsAt = map[int][]fieldUse{}
var fieldNames = map[string]int{}
var lockAt = map[int]bool{}

// Fields announces such uses, one to a line: number, r or w, name.
func Fields(l string) {
	for _, u := range strings.Split(l, "\n") {
		p := strings.SplitN(u, " ", 3)
		k, err := strconv.Atoi(p[0])
		if err != nil {
			panic(err)
		}
		if p[1] == "l" {
			lockAt[k] = true
			continue
		}
		n, ok := fieldNames[p[2]]
		if !ok {
			n = len(fieldNames) + 1
			fieldNames[p[2]] = n
		}
		fieldsAt[k] = append(fieldsAt[k], fieldUse{n, p[1] == "w"})
	}
}

// PointAt is the yield point with a number.
func PointAt(site int) {
	Countdown--
	if Countdown < 0 || hot[site&(1<<18-1)] {
		slowAt(site)
	}
}

func slowAt(site int) {
	if Countdown < 0 {
		slowPoint()
		return
	}
	s := S
	if surveying {
		if !seen[site] {
			seen[site] = true
			surveyed = append(surveyed, site)
		}
		if len(fieldsAt[site]) == 0 {
			hot[site] = false
		} else if s != nil && !s.tear && s.cur != nil {
			for _, f := range fieldsAt[site] {
				s.surveyUse(fieldKey{f.name, s.cur.G}, nil, site, f.w)
			}
		}
		return
	}
	if s == nil || s.tear || s.cur == nil || s.noPreempt > 0 || s.cur.kill || s.cur.G == s.rootG || s.cur.G.Name == "harness" {
		return
	}
	p := &s.cfg.Policy
	if s.stallLeft <= 0 || s.siteStalls >= 300 || s.rs.Float64() >= p.HotP {
		return
	}
	d := int64(time.Microsecond)
	switch k := s.rs.Intn(20); {
	case p.HotLong:
		d = int64(time.Millisecond) << s.rs.Intn(9)
		d += s.rs.Int63n(d)
	case k < 9:
	case k < 14:
		d = 1 + s.rs.Int63n(int64(200*time.Microsecond))
	case k < 18:
		d = 1 + s.rs.Int63n(int64(5*time.Millisecond))
	default:
		d = 1 + s.rs.Int63n(int64(80*time.Millisecond))
	}
	d = min(d, s.stallLeft)
	s.stallLeft -= d
	s.devs = append(s.devs, Dev{'z', s.stepsNow(), d})
	s.siteStalls++
	s.sleep(d, "held")
}

// Survey reports which numbered yield points are reached while f runs, and at which of them
// tasks use a map, or a field, that another task uses under no common lock, or are about to
// take a lock.
func Survey(f func()) (reached, maps, fields, locks []int) {
	for i := range hot {
		hot[i] = true
	}
	hot[0] = false // no particular one
	surveying, surveyed, seen = true, nil, map[int]bool{}
	suspects, uses, usesOf = map[int]bool{}, nil, nil
	f()
	surveying = false
	uses, usesOf = nil, nil
	for i := range hot {
		hot[i] = false
	}
	sort.Ints(surveyed)
	for k, isMap := range suspects {
		if isMap {
			maps = append(maps, k)
		} else {
			fields = append(fields, k)
		}
	}
	sort.Ints(maps)
	sort.Ints(fields)
	for _, k := range surveyed {
		if lockAt[k] {
			locks = append(locks, k)
		}
	}
	return surveyed, maps, fields, locks
}

type heldLock struct {
	m any
	w bool
}

// Held notes that the current task holds a lock, for writing or for reading.
func Held(m any, w bool) {
	if surveying && S != nil && S.cur != nil {
		S.cur.held = append(S.cur.held, heldLock{m, w})
	}
}

// Unheld notes that a lock is released.
func Unheld(m any) {
	if !surveying || S == nil || S.cur == nil {
		return
	}
	drop := func(t *Task) bool {
		for i := len(t.held) - 1; i >= 0; i-- {
			if t.held[i].m == m {
				t.held = append(t.held[:i:i], t.held[i+1:]...)
				return true
			}
		}
		return false
	}
	if drop(S.cur) {
		return
	}
	for i := 0; i < S.nextID; i++ { // locked by another task
		if t := S.tasks[i]; t != nil && drop(t) {
			return
		}
	}
}

type mapAccess struct {
	site int
	t    *Task
	w    bool
	held []heldLock
	n    int64
}

type mapAccesses struct {
	m any
	l []mapAccess
}

var (
	suspects map[int]bool
	uses     map[any]*mapAccesses
	usesOf   *Sim
	useN     int64
)

// before tells whether the access precedes everything the task does, which was started later.
func (a *mapAccess) before(t *Task) bool {
	for ; t != nil; t = t.parent {
		if t.parent == a.t && t.born > a.n {
			return true
		}
	}
	return false
}

// surveyUse compares a use of a map or field with those by other tasks.
func (s *Sim) surveyUse(p, m any, site int, w bool) {
	if usesOf != s {
		uses, usesOf = map[any]*mapAccesses{}, s
	}
	u := uses[p]
	if u == nil {
		u = &mapAccesses{m: m}
		uses[p] = u
	}
	t, known := s.cur, false
	useN++
	for i := range u.l {
		a := &u.l[i]
		if a.t == t {
			if a.site == site && a.w == w && len(a.held) == len(t.held) {
				known, a.n = true, useN
			}
			continue
		}
		if !a.w && !w || a.before(t) {
			continue
		}
		common := false
		for _, x := range a.held {
			for _, y := range t.held {
				common = common || x.m == y.m && (x.w || y.w)
			}
		}
		if !common {
			suspects[site], suspects[a.site] = m != nil, m != nil
		}
	}
	if !known && len(u.l) < 64 {
		u.l = append(u.l, mapAccess{site, t, w, append([]heldLock{}, t.held...), useN})
	}
}

const checkEvery = 20000
const forceEvery = 50000

func (s *Sim) stepsNow() int64 { return s.steps0 + (s.reload - Countdown) }

func (s *Sim) setCountdown(n int64) {
	s.steps0 = s.stepsNow()
	s.reload = n
	Countdown = n
}

func (s *Sim) nextCountdown() {
	n := int64(checkEvery)
	if d := s.progress + forceEvery - s.stepsNow() - 1; d < n {
		n = max(d, 0)
	}
	p := &s.cfg.Policy
	switch p.Mode {
	case "replay":
		for s.pIdx < len(s.pSteps) {
			d := s.pSteps[s.pIdx] - s.stepsNow()
			if d <= 0 {
				s.pIdx++
				continue
			}
			if d-1 < n {
				n = d - 1
			}
			break
		}
	case "pct":
		for len(s.pctList) > 0 {
			d := s.pctList[0] - s.stepsNow()
			if d <= 0 {
				s.pctList = s.pctList[1:]
				continue
			}
			if d-1 < n {
				n = d - 1
			}
			break
		}
		if p.SlipP > 0 || p.StallP > 0 {
			k := int64(s.rs.ExpFloat64() * 200)
			if k < n {
				n = k
			}
		}
	default:
		if p.Mean > 0 {
			k := int64(s.rs.ExpFloat64() * p.Mean)
			if k < n {
				n = k
			}
		}
	}
	s.setCountdown(n)
}

func slowPoint() {
	s := S
	if s == nil || s.tear || s.cur == nil {
		if s != nil && s.tear {
			// a task being torn down must not run on
			if t := s.cur; t != nil && t.kill {
				Countdown = 1 << 40
				return
			}
		}
		Countdown = 1 << 62
		return
	}
	step := s.stepsNow()
	if step > s.cfg.MaxSteps {
		s.failNow(&Failure{Kind: "steps", Msg: fmt.Sprintf("step limit %d reached at t=%v", s.cfg.MaxSteps, time.Duration(s.now))})
	}
	if s.noPreempt > 0 {
		s.setCountdown(5)
		return
	}
	if step >= s.progress+forceEvery {
		// the current task has run very long without blocking: be fair to the others, and
		// let time pass, since a spinning task uses up time too
		s.progress = step
		if s.now == s.lastNow {
			s.forced++
		} else {
			s.lastNow, s.forced = s.now, 0
		}
		if s.forced > 120 {
			s.failNow(&Failure{Kind: "livelock", Msg: fmt.Sprintf("task %s spins without progress of simulated time (t=%v)", s.cur.Name, time.Duration(s.now)), Group: s.cur.G.Name, Stack: stack()})
		}
		s.nextCountdown()
		if len(s.runq) > 0 {
			s.preemptTo(0)
		} else if len(s.q) > 0 && s.q[0].at-s.now < int64(time.Second) {
			was := s.now
			s.fireNext()
			s.spun += s.now - was
		}
		return
	}
	p := &s.cfg.Policy
	switch p.Mode {
	case "replay":
		d, ok := s.repP[step]
		s.nextCountdown()
		if ok {
			switch d.K {
			case 'p':
				if len(s.runq) > 0 {
					i := d.C % int64(len(s.runq))
					s.devs = append(s.devs, Dev{'p', step, i})
					s.preemptTo(int(i))
				}
			case 's':
				if len(s.q) > 0 {
					s.devs = append(s.devs, Dev{'s', step, 0})
					s.Slips++
					s.fireNext()
				}
			case 'z':
				s.devs = append(s.devs, d)
				s.Stalls++
				s.sleep(d.C, "stalled")
			}
		}
	case "pct":
		change := s.pctPts[step]
		if change {
			s.prioLow--
			s.cur.prio = s.prioLow
		}
		s.nextCountdown()
		if s.maybeSlip(step) {
			return
		}
		best, bi := s.cur, -1
		for i, t := range s.runq {
			if t.prio > best.prio {
				best, bi = t, i
			}
		}
		if bi >= 0 {
			s.devs = append(s.devs, Dev{'p', step, int64(bi)})
			s.preemptTo(bi)
		}
	default:
		s.nextCountdown()
		if p.Mean <= 0 {
			return
		}
		if s.maybeSlip(step) {
			return
		}
		if len(s.runq) > 0 {
			i := s.rs.Intn(len(s.runq))
			s.devs = append(s.devs, Dev{'p', step, int64(i)})
			s.preemptTo(i)
		}
	}
}

func (s *Sim) maybeSlip(step int64) bool {
	p := &s.cfg.Policy
	if p.StallP > 0 && s.stallLeft > 0 && s.cur.G.Name != "harness" && s.rs.Float64() < p.StallP {
		d := int64(s.rs.Int63n(int64(p.StallMax)) + 1)
		if s.rs.Intn(2) == 0 {
			d = d/50 + 1
		}
		d = min(d, s.stallLeft)
		s.stallLeft -= d
		s.devs = append(s.devs, Dev{'z', step, d})
		s.Stalls++
		s.sleep(d, "stalled")
		return true
	}
	if p.SlipP > 0 && s.slipLeft > 0 && len(s.q) > 0 && s.rs.Float64() < p.SlipP {
		d := s.q[0].at - s.now
		if d <= int64(p.SlipMax) && d <= s.slipLeft {
			s.slipLeft -= d
			s.devs = append(s.devs, Dev{'s', step, 0})
			s.Slips++
			s.fireNext()
			return true
		}
	}
	return false
}

// Choose picks one of n alternatives; 0 is the default.
func (s *Sim) choose(n int) int {
	if n <= 1 {
		return 0
	}
	s.dec++
	c := 0
	switch s.cfg.Policy.Mode {
	case "replay":
		if v, ok := s.repC[s.dec]; ok {
			c = int(v % int64(n))
		}
	case "fifo":
		if s.rs.Intn(20) == 0 {
			c = s.rs.Intn(n)
		}
	default:
		c = s.rs.Intn(n)
	}
	if c != 0 {
		s.devs = append(s.devs, Dev{'c', s.dec, int64(c)})
	}
	return c
}

func (s *Sim) pickNext() int {
	n := len(s.runq)
	if n <= 1 {
		return 0
	}
	if s.cfg.Policy.Mode == "pct" {
		s.dec++
		best := 0
		for i, t := range s.runq {
			if t.prio > s.runq[best].prio {
				best = i
			}
		}
		if best != 0 {
			s.devs = append(s.devs, Dev{'c', s.dec, int64(best)})
		}
		return best
	}
	return s.choose(n)
}

func (s *Sim) mix(v uint64) { s.hash = (s.hash ^ v) * 0x9E3779B97F4A7C15; s.hash ^= s.hash >> 29 }

// Mix folds v into the execution's event hash.
func Mix(v uint64) {
	if S != nil {
		S.mix(v)
	}
}

func (s *Sim) tracef(f string, a ...any) {
	if s.cfg.Trace {
		n := "-"
		if s.cur != nil {
			n = s.cur.Name
		}
		s.trace = append(s.trace, fmt.Sprintf("%12.6f %-28s %s", float64(s.now)/1e9, n, fmt.Sprintf(f, a...)))
	}
}

// Tracef adds a line to the trace (only when tracing; never affects the schedule).
func Tracef(f string, a ...any) {
	if S != nil {
		S.tracef(f, a...)
	}
}

func Tracing() bool { return S != nil && S.cfg.Trace }

// fireNext advances the clock to the next timer event and runs it.
func (s *Sim) fireNext() {
	e := heap.Pop(&s.q).(*event)
	if e.dead {
		return
	}
	e.dead = true
	if e.at > s.now {
		s.now = e.at
		s.clk = append(s.clk, tick{s.now, s.seq})
	}
	s.TimerFires++
	if e.g != nil && e.g.Dead {
		return
	}
	s.mix(uint64(e.at)*31 + 7)
	e.f()
}

func (s *Sim) dropDead() {
	for len(s.q) > 0 && s.q[0].dead {
		heap.Pop(&s.q)
	}
}

// Timer is a pending event.
type Timer struct{ e *event }

// Stop cancels the event; it reports whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.e == nil || t.e.dead {
		return false
	}
	t.e.dead = true
	if S != nil && t.e.idx < len(S.q) && S.q[t.e.idx] == t.e {
		heap.Remove(&S.q, t.e.idx)
	}
	return true
}

// At runs f (which must not block) at virtual time now+d.
func At(d time.Duration, f func()) *Timer {
	s := S
	if s == nil {
		return &Timer{}
	}
	if d < 0 {
		d = 0
	}
	s.seq++
	at := s.now + int64(d)
	if at < s.now {
		at = 1<<63 - 1
	}
	e := &event{at: at, seq: s.seq, f: f}
	if s.cur != nil && s.cur.G != s.rootG {
		e.g = s.cur.G
	}
	heap.Push(&s.q, e)
	return &Timer{e}
}

// AtGlobal is At for events that survive the death of the group that caused them.
func AtGlobal(d time.Duration, f func()) *Timer {
	t := At(d, f)
	if t.e != nil {
		t.e.g = nil
	}
	return t
}

func (s *Sim) makeRunnable(t *Task) {
	if t.st != stBlocked {
		return
	}
	t.st = stRunnable
	t.Why = ""
	if t.G.Dead {
		return
	}
	s.runq = append(s.runq, t)
}

func (s *Sim) takeRun(i int) *Task {
	t := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	return t
}

// preemptTo parks the current task as runnable and runs runq[i].
func (s *Sim) preemptTo(i int) {
	t := s.cur
	n := s.takeRun(i)
	t.st = stRunnable
	s.runq = append(s.runq, t)
	s.Preempts++
	s.switchTo(t, n)
}

func (s *Sim) switchTo(t, n *Task) {
	s.progress = s.stepsNow()
	if n == t {
		t.st = stRunning
		return
	}
	s.Switches++
	s.mix(uint64(n.id)<<32 ^ uint64(s.stepsNow()))
	n.st = stRunning
	s.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if t.kill {
		s.goexit(t)
	}
}

func (s *Sim) goexit(t *Task) {
	Countdown = 1 << 40
	runtime.Goexit()
}

// schedule is called by a task that has just blocked or ended; it returns the next task.
func (s *Sim) next() *Task {
	for {
		if len(s.runq) > 0 {
			return s.takeRun(s.pickNext())
		}
		s.dropDead()
		if len(s.q) == 0 {
			return nil
		}
		if s.q[0].at > int64(s.cfg.MaxTime) {
			return nil
		}
		s.fireNext()
	}
}

// block parks the current task until it is made runnable.
func (s *Sim) block(why string) {
	t := s.cur
	if t.kill {
		s.goexit(t)
	}
	if s.noPreempt > 0 && t.G == s.rootG {
		panic("simrt: blocking inside Atomic: " + why)
	}
	t.st = stBlocked
	t.Why = why
	t.Since = s.now
	n := s.next()
	if n == nil {
		s.finish(t)
		return
	}
	s.switchTo(t, n)
}

// finish ends the run because nothing can ever run again (or the time limit is reached).
func (s *Sim) finish(t *Task) {
	s.dropDead()
	if len(s.q) > 0 {
		s.fail = &Failure{Kind: "time", Msg: "simulated time limit reached"}
	} else {
		s.fail = &Failure{Kind: "deadlock", Msg: "no task can run: " + s.blockedList()}
	}
	s.endRun()
	if t != nil && t.st != stDone {
		<-t.wake
		s.goexit(t)
	}
}

func (s *Sim) blockedList() string {
	var b []string
	for i := 0; i < s.nextID; i++ {
		if t := s.tasks[i]; t != nil && t.st == stBlocked && !t.G.Dead {
			b = append(b, fmt.Sprintf("%s on %s since %v", t.Name, t.Why, time.Duration(t.Since)))
		}
	}
	return strings.Join(b, "; ")
}

func (s *Sim) endRun() {
	if !s.ended {
		s.ended = true
		close(s.done)
	}
}

// failNow records a failure, ends the run and never returns.
func (s *Sim) failNow(f *Failure) {
	if s.fail == nil {
		s.fail = f
	}
	t := s.cur
	s.endRun()
	<-t.wake
	s.goexit(t)
}

// Fatal ends the run as a process crash that recover cannot stop (for example an unlock
// of an unlocked mutex or concurrent map access).
func Fatal(msg string) {
	s := S
	if s == nil || s.cur == nil || s.tear {
		panic(msg)
	}
	s.failNow(&Failure{Kind: "fatal", Msg: msg, Group: s.cur.G.Name, Stack: stack()})
}

func stack() string {
	return trimStack(string(debug.Stack()))
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.Contains(l, "verifsim/simrt") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		f := strings.TrimSpace(lines[i+1])
		if k := strings.LastIndex(f, "/"); k >= 0 {
			f = f[k+1:]
		}
		if k := strings.Index(f, " +0x"); k >= 0 {
			f = f[:k]
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "/"); k >= 0 {
			l = l[k+1:]
		}
		out = append(out, l+"@"+f)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Go starts a task in the current task's group.
func Go(f func()) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: go statement outside a simulation")
	}
	if s.tear {
		return
	}
	s.spawn(s.cur.G, callerName(), f)
	Point()
}

func callerName() string {
	pc, file, line, ok := runtime.Caller(2)
	if !ok {
		return "?"
	}
	fn := runtime.FuncForPC(pc).Name()
	if k := strings.LastIndex(fn, "/"); k >= 0 {
		fn = fn[k+1:]
	}
	_ = file
	_ = line
	return fn
}

// GoIn starts a named task in group g.
func GoIn(g *Group, name string, f func()) *Task {
	return S.spawn(g, name, f)
}

func (s *Sim) spawn(g *Group, name string, f func()) *Task {
	t := &Task{id: s.nextID, G: g, wake: make(chan struct{}), exited: make(chan struct{}), st: stRunnable}
	s.nextID++
	t.Name = fmt.Sprintf("%s/%s#%d", g.Name, name, t.id)
	t.Created = name
	if surveying {
		useN++
		t.parent, t.born = s.cur, useN
	}
	t.prio = int64(s.rs.Intn(1 << 30))
	s.tasks[t.id] = t
	g.Tasks++
	if g.Dead {
		return t
	}
	s.runq = append(s.runq, t)
	go func() {
		normal := false
		defer func() {
			var r any
			if !normal {
				r = recover()
			}
			if t.kill {
				close(t.exited)
				return
			}
			if r != nil {
				t.st = stDone
				s.fail = &Failure{Kind: "panic", Msg: fmt.Sprint(r), Group: g.Name, Stack: t.Name + ": " + stack()}
				s.endRun()
				close(t.exited)
				return
			}
			// normal end (or runtime.Goexit by the code itself)
			t.st = stDone
			g.Tasks--
			delete(s.tasks, t.id)
			s.mix(uint64(t.id) + 0x5555)
			close(t.exited)
			n := s.next()
			if n == nil {
				s.finish(t)
				return
			}
			s.Switches++
			s.progress = s.stepsNow()
			s.mix(uint64(n.id)<<32 ^ uint64(s.stepsNow()))
			n.st = stRunning
			s.cur = n
			n.wake <- struct{}{}
		}()
		<-t.wake
		if t.kill {
			runtime.Goexit()
		}
		f()
		normal = true
	}()
	return t
}

// Result summarises a run.
type Result struct {
	Fail                                          *Failure
	Devs                                          []Dev
	Steps                                         int64
	Now                                           time.Duration
	Switches, Preempts, Slips, Stalls, TimerFires int64
	SiteStalls                                    int64
	Hash                                          uint64
	Trace                                         []string
	AllocPeak                                     int64
	Tasks                                         int
}

// Run executes main as the root task of a fresh simulation.
func Run(cfg Config, main func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 40_000_000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 30 * 24 * time.Hour
	}
	if cfg.MaxAlloc == 0 {
		cfg.MaxAlloc = 128 << 20
	}
	s := &Sim{cfg: cfg, tasks: map[int]*Task{}, done: make(chan struct{}),
		rs: rand.New(rand.NewSource(cfg.SchedSeed)), rn: rand.New(rand.NewSource(cfg.NoiseSeed)),
		mapState: map[uintptr]*mapUse{}, hash: 0xcbf29ce484222325, Probes: map[string]int64{}}
	s.slipLeft = int64(cfg.Policy.SlipTotal)
	s.stallLeft = int64(cfg.Policy.StallTotal)
	p := &s.cfg.Policy
	if p.Mode == "replay" {
		s.repP, s.repC = map[int64]Dev{}, map[int64]int64{}
		for _, d := range p.Devs {
			if d.K == 'c' {
				s.repC[d.N] = d.C
			} else {
				if _, dup := s.repP[d.N]; !dup {
					s.pSteps = append(s.pSteps, d.N)
				}
				s.repP[d.N] = d
			}
		}
		sortInt64(s.pSteps)
	}
	if p.Mode == "pct" {
		s.pctPts = map[int64]bool{}
		for i := 0; i < p.PCTDepth; i++ {
			n := int64(s.rs.Intn(p.PCTLen) + 1)
			if !s.pctPts[n] {
				s.pctPts[n] = true
				s.pctList = append(s.pctList, n)
			}
		}
		sortInt64(s.pctList)
	}
	s.rootG = &Group{Name: "harness"}
	s.groups = append(s.groups, s.rootG)
	ResetGlobals()
	S = s
	Countdown = 0
	s.reload = 0
	s.nextCountdown()
	t := s.spawn(s.rootG, "main", func() {
		main()
		s.endRun()
		s.cur.st = stDone
		<-s.cur.wake
		s.goexit(s.cur)
	})
	for _, k := range p.Hot {
		hot[k] = true
	}
	s.takeRun(0)
	s.cur = t
	t.st = stRunning
	t.wake <- struct{}{}
	<-s.done
	for _, k := range p.Hot {
		hot[k] = false
	}
	res := &Result{Fail: s.fail, Devs: s.devs, Steps: s.stepsNow(), Now: time.Duration(s.now), Switches: s.Switches,
		Preempts: s.Preempts, Slips: s.Slips, Stalls: s.Stalls, SiteStalls: s.siteStalls, TimerFires: s.TimerFires, Trace: s.trace, AllocPeak: s.AllocPeak, Tasks: s.nextID}
	s.mix(uint64(s.now))
	s.mix(uint64(res.Steps))
	res.Hash = s.hash
	// tear down: wake every parked task so that it exits
	s.tear = true
	Countdown = 1 << 40
	for i := 0; i < s.nextID; i++ {
		t := s.tasks[i]
		if t == nil {
			continue
		}
		select {
		case <-t.exited:
			continue
		default:
		}
		t.kill = true
		s.cur = t
		select {
		case t.wake <- struct{}{}:
			<-t.exited
		case <-t.exited:
		}
	}
	s.cur = nil
	S = nil
	Countdown = 1 << 62
	return res
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ---- services for harness and shims

// InSim reports whether a simulation task is running; a task being torn down exits here.
func InSim() bool { return inSim() }

// Tear reports whether the simulation is being torn down.
func Tear() bool { return S != nil && S.tear }

// Block parks the current task until Ready is called on it.
func Block(why string) { S.block(why) }

// Ready makes a blocked task runnable.
func Ready(t *Task) { S.makeRunnable(t) }

// IsDead reports whether the task's group was killed.
func (t *Task) IsDead() bool { return t.G.Dead }

// Choose takes a schedule decision among n alternatives.
func Choose(n int) int { return S.choose(n) }

func Now() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.now)
}

// tick notes the event number at which the clock reached a time.
type tick struct{ at, seq int64 }

// Spun is the time that passed because a task computed for very long.
func Spun() time.Duration { return time.Duration(S.spun) }

// SeqAt is an event number above all events up to time t and below all later ones.
func SeqAt(t time.Duration) int64 {
	k := sort.Search(len(S.clk), func(i int) bool { return S.clk[i].at > int64(t) })
	if k == len(S.clk) {
		return S.seq + 1
	}
	return S.clk[k].seq
}

// Seq returns a fresh number from the global event counter.
func Seq() int64 {
	S.seq++
	return S.seq
}

func Steps() int64 { return S.stepsNow() }

// Sleep blocks the current task for d of virtual time.
func Sleep(d time.Duration) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.tear {
		s.goexit(s.cur)
	}
	s.sleep(int64(d), "sleep")
}

func (s *Sim) sleep(d int64, why string) {
	t := s.cur
	At(time.Duration(d), func() { s.makeRunnable(t) })
	s.block(why)
}

// Rand is the noise stream (network timing, map order, math/rand).
func Rand() *rand.Rand {
	if S == nil {
		return rand.New(rand.NewSource(1))
	}
	return S.rn
}

// NewGroup makes a group of tasks that can be killed together.
func NewGroup(name string) *Group {
	g := &Group{Name: name}
	S.groups = append(S.groups, g)
	return g
}

func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

func CurGroup() *Group {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.G
}

// In runs f in the current task with its group switched to g, so that tasks, timers and
// sockets f creates belong to g.
func In(g *Group, f func()) {
	t := S.cur
	old := t.G
	t.G = g
	defer func() { t.G = old }()
	f()
}

// Kill ends all tasks of g at once, at whatever point they are (a process crash): none
// of them runs again. Memory is abandoned, sockets are handled by OnKill hooks.
func Kill(g *Group) {
	s := S
	g.Dead = true
	var rq []*Task
	for _, t := range s.runq {
		if !t.G.Dead {
			rq = append(rq, t)
		}
	}
	s.runq = rq
	for _, f := range g.OnKill {
		f()
	}
	Point()
}

// LiveTask describes a task that has not ended.
type LiveTask struct {
	Name, Created, Why string
	Runnable           bool
	Since              time.Duration
}

// Live lists the tasks of g (nil: of all groups) that have not ended.
func Live(g *Group) []LiveTask {
	var out []LiveTask
	for i := 0; i < S.nextID; i++ {
		t := S.tasks[i]
		if t == nil || g != nil && t.G != g || t.st == stDone {
			continue
		}
		out = append(out, LiveTask{t.Name, t.Created, t.Why, t.st != stBlocked, time.Duration(t.Since)})
	}
	return out
}

// Atomic runs f without preemption (harness use only).
func Atomic(f func()) {
	S.noPreempt++
	f()
	S.noPreempt--
}

// Probe counts a condition of interest.
func Probe(name string) {
	if S != nil {
		S.Probes[name]++
	}
}

// Fail ends the run with the given failure (harness oracles).
func Fail(kind, msg string) {
	S.failNow(&Failure{Kind: kind, Msg: msg, Group: S.cur.G.Name})
}

// AllocN accounts for make([]T, n) with a computed n.
func AllocN[T any](n int) int {
	s := S
	if s != nil && !s.tear && s.cur != nil && s.cur.G != s.rootG && n > 1024 {
		var z [1]T
		b := int64(n) * int64(sizeof(z))
		if b > s.AllocPeak {
			s.AllocPeak = b
		}
		if b > s.cfg.MaxAlloc {
			s.failNow(&Failure{Kind: "alloc", Msg: fmt.Sprintf("a slice of %d bytes is allocated", b), Group: s.cur.G.Name, Stack: stack()})
		}
	}
	return n
}

// ---- package variables of the code under test

type reset struct {
	pkg, idx int
	f        func()
}

var (
	resetPkgs = map[string]int{}
	resets    []reset
	resetsOK  bool
)

// OnReset registers the re-initialisation of a package variable.
func OnReset(pkg string, idx int, f func()) {
	if _, ok := resetPkgs[pkg]; !ok {
		resetPkgs[pkg] = len(resetPkgs)
	}
	resets = append(resets, reset{resetPkgs[pkg], idx, f})
	resetsOK = false
}

// Zero gives a variable its zero value.
func Zero[T any](p *T) { var z T; *p = z }

// ResetGlobals gives every package variable its initial value.
func ResetGlobals() {
	if !resetsOK {
		sort.SliceStable(resets, func(i, j int) bool {
			a, b := resets[i], resets[j]
			if a.pkg != b.pkg {
				return a.pkg < b.pkg
			}
			return a.idx < b.idx
		})
		resetsOK = true
	}
	for _, r := range resets {
		r.f()
	}
}
