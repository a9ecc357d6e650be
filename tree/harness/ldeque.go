package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/younglifestyle/secs4go/utils"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

// Concurrent puts and gets on the queue that hands over the answers (L06).

func init() {
	scenario("ldeque", runLDeque)
	property("L06", 200000, 10000000, gen{1, "ldeque", genL06})
}

func genL06(r *rand.Rand, p *Plan) {
	span := pick(r, 0, 0, 0, 0, 3, 500, 2500)
	n := 0
	if chance(r, 0.4) { // as many items as there are getters, all at the same time
		k := 2 + r.Int63n(3)
		for d := int64(0); d < k; d++ {
			p.Ops = append(p.Ops, Op{K: "get", A: pick(r, 1, 1, 3), D: d})
			p.Ops = append(p.Ops, Op{K: "put", D: k + d*int64(r.Intn(2))})
		}
		return
	}
	for d := 2 + r.Intn(5); d > 0; d-- {
		get := d > 1 && chance(r, 0.7)
		for i := 1 + r.Intn(4); i > 0 && n < 16; i-- {
			o := Op{At: between(r, 0, span), K: "put", D: int64(d)}
			if get != chance(r, 0.15) {
				o.K, o.A = "get", pick(r, -1, 0, 1, 1, 2, 3)
			}
			p.Ops = append(p.Ops, o)
			n++
		}
	}
	if chance(r, 0.2) { // around the end of a wait
		for i := range p.Ops {
			if o := &p.Ops[i]; o.K == "put" {
				o.At = pick(r, 1, 2)*1000 + between(r, -1, 1)
			}
		}
	}
}

type dcall struct {
	task     int64
	put      bool
	v        int
	got      interface{}
	err      error
	wait     time.Duration
	at, end  time.Duration
	inv, ret int64
}

func (c *dcall) String() string {
	if c.put {
		return fmt.Sprintf("put(%d) at %v", c.v, c.at)
	}
	return fmt.Sprintf("get(%v) = %v, %v from %v until %v", c.wait, c.got, c.err, c.at, c.end)
}

func runLDeque(e *Env) {
	g := simrt.NewGroup("sut")
	var q *utils.Deque
	simrt.In(g, func() { q = utils.NewDeque() })
	var calls []*dcall
	nv := 0
	by := map[int64][]Op{}
	var ids []int64
	end := time.Duration(0)
	for _, o := range e.P.Ops {
		if by[o.D] == nil {
			ids = append(ids, o.D)
		}
		by[o.D] = append(by[o.D], o)
		end = max(end, ms(o.At))
		end += secs(max(o.A, 0)) + e.Tol
	}
	for _, d := range ids {
		d := d
		simrt.GoIn(g, fmt.Sprintf("user%d", d), func() {
			for _, o := range by[d] {
				if w := ms(o.At) - simrt.Now(); w > 0 {
					simrt.Sleep(w)
				}
				c := &dcall{task: d, put: o.K == "put", wait: secs(o.A), ret: open}
				if c.put {
					nv++
					c.v = nv
				}
				calls = append(calls, c)
				c.at, c.inv = simrt.Now(), simrt.Seq()
				if c.put {
					q.Put(c.v)
				} else {
					c.got, c.err = q.Get(int(o.A))
				}
				c.end, c.ret = simrt.Now(), simrt.Seq()
				if simrt.Tracing() {
					simrt.Tracef("user %d: %v", d, c)
				}
				e.Work++
			}
		})
	}
	simrt.Sleep(end + time.Second + e.Tol)

	var ops []lop[string]
	for _, c := range calls {
		c := c
		if c.ret == open {
			e.Bad("L06", "a call on a queue does not end", "%v", c)
			return
		}
		switch {
		case c.put:
			ops = append(ops, lop[string]{inv: c.inv, ret: c.ret, name: c.String(), step: func(s string) (string, bool) { return s + string(rune('0'+c.v)), true }})
		case c.err == nil:
			v, ok := c.got.(int)
			if !ok {
				e.Bad("L06", "a get returns what was not put", "%v", c)
				return
			}
			e.Count("items got")
			ops = append(ops, lop[string]{inv: c.inv, ret: c.ret, name: c.String(), step: func(s string) (string, bool) {
				if s == "" || s[0] != byte('0'+v) {
					return s, false
				}
				return s[1:], true
			}})
			if c.wait > 0 && c.end > c.at+c.wait+e.Tol {
				e.Bad("L06", "a get waits longer than it was told", "%v", c)
			}
		default:
			e.Count("gets given up")
			if c.got != nil {
				e.Bad("L06", "a get returns an item and an error", "%v", c)
			}
			if c.end < c.at+c.wait {
				e.Bad("L06", "a get gives up too soon", "%v", c)
			}
			if c.end > c.at+max(c.wait, 0)+e.Tol {
				e.Bad("L06", "a get waits longer than it was told", "%v", c)
			}
		}
		if !c.put && (c.err != nil || c.end > c.at+e.Tol) {
			// It waited: the queue was empty not long before it ended.
			from := c.inv
			if c.end > c.at+e.Tol {
				from = max(from, simrt.SeqAt(c.end-e.Tol))
			}
			e.Count("waits judged")
			ops = append(ops, lop[string]{inv: from, ret: c.ret, name: "nothing in the queue for " + c.String(), step: func(s string) (string, bool) { return s, s == "" }})
		}
	}
	ok, msg := linear("", func(s string) string { return s }, ops)
	if !ok {
		e.Bad("L06", "queue history no order of the calls explains", "%s", msg)
	}
	e.Count("queue history")
	if live := simrt.Live(g); len(live) > 0 {
		e.Bad("L06", "a task of the queue is left", "%v", live)
	}
}
