// Package context mirrors the standard package on the simulation runtime.
package context

import (
	"errors"
	"fmt"
	"time"

	stime "github.com/younglifestyle/secs4go/verifsim/shim/time"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *simrt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = errors.New("context canceled")

type deadlineErr struct{}

func (deadlineErr) Error() string   { return "context deadline exceeded" }
func (deadlineErr) Timeout() bool   { return true }
func (deadlineErr) Temporary() bool { return true }

var DeadlineExceeded error = deadlineErr{}

type emptyCtx struct{ name string }

func (emptyCtx) Deadline() (time.Time, bool)  { return time.Time{}, false }
func (emptyCtx) Done() *simrt.Chan[struct{}]  { return nil }
func (emptyCtx) Err() error                   { return nil }
func (emptyCtx) Value(any) any                { return nil }
func (e emptyCtx) String() string             { return e.name }

func Background() Context { return emptyCtx{"context.Background"} }
func TODO() Context       { return emptyCtx{"context.TODO"} }

type node struct {
	parent   Context
	done     *simrt.Chan[struct{}]
	err      error
	cause    error
	dl       time.Time
	hasDL    bool
	timer    *simrt.Timer
	kids     []*node
	after    []*afterFn
	up       *node
}

type afterFn struct {
	f    func()
	dead bool
}

type nodeKey struct{}

func (n *node) Deadline() (time.Time, bool) {
	if n.hasDL {
		return n.dl, true
	}
	return n.parent.Deadline()
}
func (n *node) Done() *simrt.Chan[struct{}] { return n.done }
func (n *node) Err() error                  { simrt.Point(); return n.err }
func (n *node) Value(k any) any {
	if _, ok := k.(nodeKey); ok {
		return n
	}
	return n.parent.Value(k)
}

func (n *node) cancel(err, cause error) {
	if n.err != nil || simrt.Tear() {
		return
	}
	n.err = err
	if cause == nil {
		cause = err
	}
	n.cause = cause
	n.done.Close()
	n.timer.Stop()
	for _, k := range n.kids {
		k.cancel(err, cause)
	}
	for _, a := range n.after {
		if !a.dead {
			a.dead = true
			simrt.Go(a.f)
		}
	}
}

func newNode(parent Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{parent: parent, done: simrt.MakeChan[struct{}](0)}
	if u, ok := parent.Value(nodeKey{}).(*node); ok && u != nil {
		if u.err != nil {
			n.err, n.cause = nil, nil
			n.cancel(u.err, u.cause)
		} else {
			u.kids = append(u.kids, n)
			n.up = u
		}
	}
	return n
}

func WithCancel(parent Context) (Context, CancelFunc) {
	n := newNode(parent)
	return n, func() { n.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	n := newNode(parent)
	return n, func(c error) { n.cancel(Canceled, c) }
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	n := newNode(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		n.dl, n.hasDL = d, true
		if n.err == nil {
			g := simrt.CurGroup()
			left := stime.Until(d)
			if left <= 0 {
				n.cancel(DeadlineExceeded, cause)
			} else {
				n.timer = simrt.At(left, func() {
					simrt.GoIn(g, "context-deadline", func() { n.cancel(DeadlineExceeded, cause) })
				})
			}
		}
	}
	return n, func() { n.cancel(Canceled, nil) }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}
func (c *valueCtx) String() string { return fmt.Sprint(c.Context, ".WithValue") }

func WithValue(parent Context, k, v any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return &valueCtx{parent, k, v}
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() *simrt.Chan[struct{}] { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if _, ok := k.(nodeKey); ok {
		return nil
	}
	return w.c.Value(k)
}
func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func Cause(c Context) error {
	if n, ok := c.Value(nodeKey{}).(*node); ok && n != nil {
		return n.cause
	}
	return c.Err()
}

func AfterFunc(c Context, f func()) func() bool {
	a := &afterFn{f: f}
	if n, ok := c.Value(nodeKey{}).(*node); ok && n != nil {
		if n.err != nil {
			a.dead = true
			simrt.Go(f)
		} else {
			n.after = append(n.after, a)
		}
	}
	return func() bool {
		was := !a.dead
		a.dead = true
		return was
	}
}
