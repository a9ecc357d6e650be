// Package sync mirrors the standard package on the simulation runtime.
package sync

import (
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      []*simrt.Task
	owner  *simrt.Task
}

func (m *Mutex) Lock() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	for m.locked {
		m.q = append(m.q, simrt.Cur())
		simrt.Block("mutex")
	}
	m.locked = true
	m.owner = simrt.Cur()
	simrt.Held(m, true)
}

func (m *Mutex) TryLock() bool {
	if !simrt.InSim() {
		return true
	}
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Held(m, true)
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Tear() || simrt.S == nil {
		return
	}
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.owner = nil
	simrt.Unheld(m)
	wakeOne(&m.q)
	simrt.Point()
}

func wakeOne(q *[]*simrt.Task) {
	l := (*q)[:0]
	for _, t := range *q {
		if !t.IsDead() {
			l = append(l, t)
		}
	}
	*q = l
	if len(l) == 0 {
		return
	}
	i := simrt.Choose(len(l))
	t := l[i]
	*q = append(l[:i], l[i+1:]...)
	simrt.Ready(t)
}

type rwWait struct {
	t       *simrt.Task
	granted bool
}

type RWMutex struct {
	writer  bool
	readers int
	rq, wq  []*rwWait
}

func live(q []*rwWait) []*rwWait {
	l := q[:0]
	for _, w := range q {
		if !w.t.IsDead() {
			l = append(l, w)
		}
	}
	return l
}

func (m *RWMutex) Lock() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	defer simrt.Held(m, true)
	if !m.writer && m.readers == 0 {
		m.writer = true
		return
	}
	w := &rwWait{t: simrt.Cur()}
	m.wq = append(m.wq, w)
	for !w.granted {
		simrt.Block("rwmutex write lock")
	}
}

func (m *RWMutex) TryLock() bool {
	if !simrt.InSim() {
		return true
	}
	simrt.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.Held(m, true)
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Tear() || simrt.S == nil {
		return
	}
	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	simrt.Unheld(m)
	m.rq, m.wq = live(m.rq), live(m.wq)
	if len(m.rq) > 0 {
		for _, w := range m.rq {
			w.granted = true
			m.readers++
			simrt.Ready(w.t)
		}
		m.rq = nil
	} else {
		m.grantWriter()
	}
	simrt.Point()
}

func (m *RWMutex) grantWriter() {
	m.wq = live(m.wq)
	if len(m.wq) == 0 {
		return
	}
	i := simrt.Choose(len(m.wq))
	w := m.wq[i]
	m.wq = append(m.wq[:i:i], m.wq[i+1:]...)
	w.granted = true
	m.writer = true
	simrt.Ready(w.t)
}

func (m *RWMutex) RLock() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	m.wq = live(m.wq)
	defer simrt.Held(m, false)
	if !m.writer && len(m.wq) == 0 {
		m.readers++
		return
	}
	w := &rwWait{t: simrt.Cur()}
	m.rq = append(m.rq, w)
	for !w.granted {
		simrt.Block("rwmutex read lock")
	}
}

func (m *RWMutex) TryRLock() bool {
	if !simrt.InSim() {
		return true
	}
	simrt.Point()
	if m.writer || len(live(m.wq)) > 0 {
		return false
	}
	m.readers++
	simrt.Held(m, false)
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Tear() || simrt.S == nil {
		return
	}
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Unheld(m)
	if m.readers == 0 {
		m.grantWriter()
	}
	simrt.Point()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	q []*simrt.Task
}

func (w *WaitGroup) Add(d int) {
	if simrt.Tear() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, t := range w.q {
			simrt.Ready(t)
		}
		w.q = nil
	}
	if simrt.S != nil {
		simrt.Point()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	if w.n > 0 {
		w.q = append(w.q, simrt.Cur())
		simrt.Block("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if simrt.S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L Locker
	q []*simrt.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if !simrt.InSim() {
		return
	}
	t := simrt.Cur()
	c.q = append(c.q, t)
	c.L.Unlock()
	for contains(c.q, t) {
		simrt.Block("cond")
	}
	c.L.Lock()
}

func contains(q []*simrt.Task, t *simrt.Task) bool {
	for _, x := range q {
		if x == t {
			return true
		}
	}
	return false
}

func (c *Cond) Signal() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	var l []*simrt.Task
	for _, t := range c.q {
		if !t.IsDead() {
			l = append(l, t)
		}
	}
	c.q = l
	if len(l) == 0 {
		return
	}
	t := l[0] // real conditions wake in FIFO order
	c.q = l[1:]
	simrt.Ready(t)
}
func (c *Cond) Broadcast() {
	if !simrt.InSim() {
		return
	}
	simrt.Point()
	q := c.q
	c.q = nil
	for _, t := range q {
		simrt.Ready(t)
	}
}

type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v != nil && len(p.free) < 64 {
		p.free = append(p.free, v)
	}
}

// Map keeps insertion order so that Range is reproducible.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) pt() {
	if simrt.S != nil {
		simrt.Point()
	}
}
func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	m.keys = append(m.keys, k)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.pt(); m.m, m.keys = nil, nil }
