// Package vctx replaces package context.
package vctx

import (
	"context"
	"fmt"
	"time"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type bg struct{}

func (bg) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (bg) Done() *vrt.Chan[struct{}]         { return nil }
func (bg) Err() error                        { return nil }
func (bg) Value(key interface{}) interface{} { return nil }
func (bg) String() string                    { return "context.Background" }

func Background() Context { return bg{} }
func TODO() Context       { return bg{} }

type node struct {
	parent   Context
	done     *vrt.Chan[struct{}]
	o        vrt.Obj
	rb       byte
	err      error
	cause    error
	kids     []*node
	deadline time.Time
	hasDl    bool
	timer    *vrt.Timer
	key, val interface{}
	after    func() // AfterFunc
}

func (n *node) Deadline() (time.Time, bool) {
	if n.hasDl {
		return n.deadline, true
	}
	return n.parent.Deadline()
}

func (n *node) Done() *vrt.Chan[struct{}] {
	if n.done != nil {
		return n.done
	}
	return n.parent.Done()
}

func (n *node) Err() error {
	if n.done == nil {
		return n.parent.Err()
	}
	if vrt.Point("ctx err") {
		n.o.Op(1, 0)
		vrt.RaceAcq(unsafe.Pointer(&n.rb))
	}
	return n.err
}

func (n *node) Value(key interface{}) interface{} {
	if n.key != nil && n.key == key {
		return n.val
	}
	return n.parent.Value(key)
}

func (n *node) String() string { return fmt.Sprintf("context.%p", n) }

func nearest(c Context) *node {
	for {
		n, ok := c.(*node)
		if !ok {
			return nil
		}
		if n.done != nil {
			return n
		}
		c = n.parent
	}
}

func (n *node) cancel(err, cause error, sys bool) {
	if n.err != nil {
		return
	}
	n.err = err
	if cause == nil {
		cause = err
	}
	n.cause = cause
	if sys || !vrt.Active() {
		n.done.SysClose()
	} else {
		vrt.Close(n.done)
	}
	if n.after != nil {
		f := n.after
		n.after = nil
		if !sys {
			vrt.RaceRel(unsafe.Pointer(&n.rb))
		}
		vrt.SysGo("ctx after", func() {
			vrt.RaceAcq(unsafe.Pointer(&n.rb))
			f()
		})
	}
	for _, k := range n.kids {
		k.cancel(err, cause, sys)
	}
}

func newNode(parent Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{parent: parent, done: vrt.NewChan[struct{}](0)}
	if p := nearest(parent); p != nil {
		if vrt.Point("ctx new") {
			p.o.Op(2, 0)
		}
		if p.err != nil {
			n.err, n.cause = p.err, p.cause
			n.done.SysClose()
		} else {
			p.kids = append(p.kids, n)
		}
	}
	return n
}

func (n *node) userCancel(err, cause error) {
	if vrt.Aborting() {
		return
	}
	if vrt.Point("ctx cancel") {
		n.o.Op(3, 0)
		vrt.RaceRel(unsafe.Pointer(&n.rb))
	}
	if n.timer != nil {
		vrt.StopTimer(n.timer)
	}
	n.cancel(err, cause, false)
}

func WithCancel(parent Context) (Context, CancelFunc) {
	n := newNode(parent)
	return n, func() { n.userCancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	n := newNode(parent)
	return n, func(c error) { n.userCancel(Canceled, c) }
}

func Cause(c Context) error {
	if n := nearest(c); n != nil {
		return n.cause
	}
	return c.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	n := newNode(parent)
	n.deadline, n.hasDl = d, true
	if left := d.UnixNano() - vrt.SysNow(); n.err == nil && left <= 0 {
		n.cancel(DeadlineExceeded, nil, false)
	} else if n.err == nil {
		n.timer = vrt.NewTimer(left, 0, func() { n.cancel(DeadlineExceeded, nil, true) })
	}
	return n, func() { n.userCancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, vrt.SysNow()+int64(d)).UTC())
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	n := newNode(parent)
	n.deadline, n.hasDl = d, true
	if left := d.UnixNano() - vrt.SysNow(); n.err == nil && left <= 0 {
		n.cancel(DeadlineExceeded, cause, false)
	} else if n.err == nil {
		n.timer = vrt.NewTimer(left, 0, func() { n.cancel(DeadlineExceeded, cause, true) })
	}
	return n, func() { n.userCancel(Canceled, nil) }
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, vrt.SysNow()+int64(d)).UTC(), cause)
}

// Ended tells, without a scheduling point, whether c is done. Shims only.
func Ended(c Context) bool {
	n := nearest(c)
	return n != nil && n.err != nil
}

// AfterFunc runs f in its own thread once parent is done.
func AfterFunc(parent Context, f func()) (stop func() bool) {
	n := newNode(parent)
	if n.err != nil {
		vrt.GoNamed("ctx after", f)
		return func() bool { return false }
	}
	n.after = f
	vrt.RaceRel(unsafe.Pointer(&n.rb))
	return func() bool {
		if vrt.Point("ctx stop") {
			n.o.Op(4, 0)
		}
		was := n.after != nil
		n.after = nil
		n.userCancel(Canceled, nil)
		return was
	}
}

// WithoutCancel keeps parent's values only.
func WithoutCancel(parent Context) Context { return &orphan{parent} }

type orphan struct{ c Context }

func (o *orphan) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (o *orphan) Done() *vrt.Chan[struct{}]         { return nil }
func (o *orphan) Err() error                        { return nil }
func (o *orphan) Value(key interface{}) interface{} { return o.c.Value(key) }

func WithValue(parent Context, key, val interface{}) Context {
	return &node{parent: parent, key: key, val: val}
}
