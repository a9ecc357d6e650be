package main

import "fmt"

// lop is one operation of a history: it took effect at some point between inv and ret,
// or, if opt, possibly not at all. step returns the state after it, or false if what was
// observed of the operation is impossible in state s.
type lop[S any] struct {
	inv, ret int64
	opt      bool
	name     string
	step     func(s S) (S, bool)
}

// linear decides whether the history has a sequential order that a reference model allows.
// The message names the operation no order could place.
func linear[S any](init S, key func(S) string, ops []lop[S]) (bool, string) {
	n := len(ops)
	done := make([]bool, n)
	seen := map[string]bool{}
	best, bestMsg := -1, ""
	budget := 400000
	var rec func(s S, nd int, maxInv int64) bool
	rec = func(s S, nd int, maxInv int64) bool {
		m := int64(1) << 62
		mi := -1
		left := 0
		for i := range ops {
			if !done[i] && !ops[i].opt {
				left++
				if ops[i].ret < m {
					m, mi = ops[i].ret, i
				}
			}
		}
		if left == 0 {
			return true
		}
		if nd > best {
			best, bestMsg = nd, fmt.Sprintf("%s impossible in state %s", ops[mi].name, key(s))
		}
		budget--
		if budget < 0 {
			return true // undecided: not a violation
		}
		bs := make([]byte, (n+7)/8)
		for i, d := range done {
			if d {
				bs[i/8] |= 1 << (i % 8)
			}
		}
		k := string(bs) + "|" + key(s)
		if seen[k] {
			return false
		}
		seen[k] = true
		for i := range ops {
			o := &ops[i]
			if done[i] || o.inv > m || o.ret < maxInv {
				continue
			}
			ns, ok := o.step(s)
			if !ok {
				continue
			}
			done[i] = true
			mv := maxInv
			if o.inv > mv {
				mv = o.inv
			}
			nd2 := nd
			if !o.opt {
				nd2++
			}
			if rec(ns, nd2, mv) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if rec(init, 0, -1) {
		return true, ""
	}
	return false, bestMsg
}
