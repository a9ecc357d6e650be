package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
	"sort"
)

// selWait is the wait record of one blocked channel operation or select.
type selWait struct {
	t    *Task
	done int // -1 while waiting, else the case that fired
}

// Chan replaces Go's channel types.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*rwait[T]
	sendq  []*swait[T]
}

type rwait[T any] struct {
	w   *selWait
	idx int
	v   T
	ok  bool
}
type swait[T any] struct {
	w   *selWait
	idx int
	v   T
	bad bool // channel closed while waiting
}

func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{cap: n}
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

func (c *Chan[T]) popRecv() *rwait[T] {
	for len(c.recvq) > 0 {
		i := 0
		r := c.recvq[i]
		c.recvq = c.recvq[1:]
		if r.w.done >= 0 || r.w.t.G.Dead {
			continue
		}
		return r
	}
	return nil
}
func (c *Chan[T]) popSend() *swait[T] {
	for len(c.sendq) > 0 {
		r := c.sendq[0]
		c.sendq = c.sendq[1:]
		if r.w.done >= 0 || r.w.t.G.Dead {
			continue
		}
		return r
	}
	return nil
}

func (c *Chan[T]) canSend() bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	for len(c.recvq) > 0 && (c.recvq[0].w.done >= 0 || c.recvq[0].w.t.G.Dead) {
		c.recvq = c.recvq[1:]
	}
	return len(c.recvq) > 0
}
func (c *Chan[T]) canRecv() bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) > 0 {
		return true
	}
	for len(c.sendq) > 0 && (c.sendq[0].w.done >= 0 || c.sendq[0].w.t.G.Dead) {
		c.sendq = c.sendq[1:]
	}
	return len(c.sendq) > 0
}

func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if r := c.popRecv(); r != nil {
		r.v, r.ok = v, true
		r.w.done = r.idx
		S.makeRunnable(r.w.t)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.v)
			w.w.done = w.idx
			S.makeRunnable(w.w.t)
		}
		return v, true
	}
	if w := c.popSend(); w != nil {
		w.w.done = w.idx
		S.makeRunnable(w.w.t)
		return w.v, true
	}
	return v, false // closed
}

func inSim() bool {
	s := S
	if s == nil || s.cur == nil {
		return false
	}
	if s.tear {
		s.goexit(s.cur)
	}
	return true
}

func (c *Chan[T]) Send(v T) {
	if !inSim() {
		if c != nil && len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			return
		}
		panic("simrt: blocking send outside simulation")
	}
	Point()
	if c == nil {
		S.block("nil channel send")
	}
	if c.canSend() {
		c.doSend(v)
		return
	}
	w := &swait[T]{w: &selWait{t: S.cur, done: -1}, v: v}
	c.sendq = append(c.sendq, w)
	S.block("chan send")
	if w.bad {
		panic("send on closed channel")
	}
}

// TrySend is a non-blocking send used by timers.
func (c *Chan[T]) TrySend(v T) bool {
	if c.closed || !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

func (c *Chan[T]) Recv2() (T, bool) {
	if !inSim() {
		panic("simrt: receive outside simulation")
	}
	Point()
	if c == nil {
		S.block("nil channel receive")
	}
	if c.canRecv() {
		return c.doRecv()
	}
	w := &rwait[T]{w: &selWait{t: S.cur, done: -1}}
	c.recvq = append(c.recvq, w)
	S.block("chan receive")
	return w.v, w.ok
}
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

func (c *Chan[T]) Close() {
	if S != nil && S.tear {
		return
	}
	Point()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		r := c.popRecv()
		if r == nil {
			break
		}
		r.ok = false
		r.w.done = r.idx
		S.makeRunnable(r.w.t)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.bad = true
		w.w.done = w.idx
		S.makeRunnable(w.w.t)
	}
}

// Drain discards what is buffered (timers).
func (c *Chan[T]) Drain() { c.buf = nil }

// SelCase is one alternative of a select.
type SelCase interface {
	ready() bool
	fire()
	enqueue(w *selWait, idx int)
	after()
}

type RecvCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
	w  *rwait[T]
}

func CaseRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }
func (r *RecvCase[T]) ready() bool            { return r.c.canRecv() }
func (r *RecvCase[T]) fire()                  { r.V, r.OK = r.c.doRecv() }
func (r *RecvCase[T]) enqueue(w *selWait, idx int) {
	if r.c == nil {
		return
	}
	r.w = &rwait[T]{w: w, idx: idx}
	if len(r.c.recvq) > 8 {
		r.c.recvq = slices.DeleteFunc(r.c.recvq, func(q *rwait[T]) bool { return q.w.done >= 0 })
	}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *RecvCase[T]) after() { r.V, r.OK = r.w.v, r.w.ok }

type SendCase[T any] struct {
	c *Chan[T]
	v T
	w *swait[T]
}

func CaseSend[T any](c *Chan[T], v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }
func (r *SendCase[T]) ready() bool                 { return r.c.canSend() }
func (r *SendCase[T]) fire()                       { r.c.doSend(r.v) }
func (r *SendCase[T]) enqueue(w *selWait, idx int) {
	if r.c == nil {
		return
	}
	r.w = &swait[T]{w: w, idx: idx, v: r.v}
	if len(r.c.sendq) > 8 {
		r.c.sendq = slices.DeleteFunc(r.c.sendq, func(q *swait[T]) bool { return q.w.done >= 0 })
	}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *SendCase[T]) after() {
	if r.w.bad {
		panic("send on closed channel")
	}
}

// Select performs a select statement; -1 means the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	if !inSim() {
		for i, c := range cases {
			if c.ready() {
				c.fire()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("simrt: blocking select outside simulation")
	}
	Point()
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[S.choose(len(rd))]
		cases[i].fire()
		return i
	}
	if hasDefault {
		return -1
	}
	w := &selWait{t: S.cur, done: -1}
	for i, c := range cases {
		c.enqueue(w, i)
	}
	S.block("select")
	cases[w.done].after()
	return w.done
}

// RangeChan iterates over received values until the channel is closed.
func RangeChan[T any](c *Chan[T]) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// MapRange iterates over a map in an order drawn from the noise stream.
func MapRange[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys[M, K, V](m) {
			MapR(m, site)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys returns the keys in an order drawn from the noise stream.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if S != nil {
		S.rn.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	case []int64:
		slices.Sort(ks)
		return
	case []uint64:
		slices.Sort(ks)
		return
	case []uint32:
		slices.Sort(ks)
		return
	}
	sort.SliceStable(keys, func(i, j int) bool {
		return cmpAny(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) < 0
	})
}

func cmpAny(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Bool:
		if a.Bool() == b.Bool() {
			return 0
		}
		if !a.Bool() {
			return -1
		}
		return 1
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpAny(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpAny(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return 0
			}
			if a.IsNil() {
				return -1
			}
			return 1
		}
		ea, eb := a.Elem(), b.Elem()
		if ea.Type() != eb.Type() {
			return cmp.Compare(ea.Type().String(), eb.Type().String())
		}
		return cmpAny(ea, eb)
	case reflect.Pointer, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if a.Pointer() == b.Pointer() {
			return 0
		}
		// identity-keyed maps have no reproducible order of their own: order by the plain
		// fields of the objects pointed to
		if a.Kind() == reflect.Pointer && a.Elem().Kind() == reflect.Struct && !a.IsNil() && !b.IsNil() {
			ea, eb := a.Elem(), b.Elem()
			for i := 0; i < ea.NumField(); i++ {
				switch ea.Field(i).Kind() {
				case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint64, reflect.Uint32, reflect.Uint, reflect.Uint16, reflect.String:
					if c := cmpAny(ea.Field(i), eb.Field(i)); c != 0 {
						return c
					}
				}
			}
		}
		return cmp.Compare(ptrRank(a.Pointer()), ptrRank(b.Pointer()))
	}
	panic(fmt.Sprintf("simrt: unsupported map key kind %v", a.Kind()))
}

// ---- map access tracking

type mapUse struct {
	w       *Task
	readers int
	t       *Task
	m       any // keeps the map, and with it its address
}

var ptrRanks map[uintptr]int64

func ptrRank(p uintptr) int64 {
	if r, ok := ptrRanks[p]; ok {
		return r
	}
	if ptrRanks == nil {
		ptrRanks = map[uintptr]int64{}
	}
	r := int64(len(ptrRanks))
	ptrRanks[p] = r
	return r
}

func mapPtr(m any) uintptr {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return 0
	}
	return v.Pointer()
}

// MapR marks a read of map m by the current task; a concurrent write is fatal.
func MapR(m any, site int) {
	s := S
	if s == nil || s.tear || s.cur == nil {
		return
	}
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if surveying && site != 0 {
		s.surveyUse(p, m, site, false)
	}
	u := s.mapState[p]
	if u == nil {
		u = &mapUse{m: m}
		s.mapState[p] = u
	}
	if u.w != nil && u.w != s.cur {
		Fatal("concurrent map read and map write")
	}
	u.readers++
	PointAt(site)
	u.readers--
	if u.w == nil && u.readers == 0 {
		delete(s.mapState, p)
	}
}

// MapW marks a write.
func MapW(m any, site int) {
	s := S
	if s == nil || s.tear || s.cur == nil {
		return
	}
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if surveying && site != 0 {
		s.surveyUse(p, m, site, true)
	}
	u := s.mapState[p]
	if u == nil {
		u = &mapUse{m: m}
		s.mapState[p] = u
	}
	if u.w != nil {
		Fatal("concurrent map writes")
	}
	if u.readers > 0 {
		Fatal("concurrent map read and map write")
	}
	u.w = s.cur
	PointAt(site)
	u.w = nil
	if u.readers == 0 {
		delete(s.mapState, p)
	}
}
