package vrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Chan is a channel with Go's FIFO waiter queues, executed by the controlled
// scheduler.  All of its state lives in the untyped core, so that no generic code
// (which is compiled, and race-instrumented, in the using package) touches it.
type Chan[T any] struct {
	k core
	_ [0]T
}

type core struct {
	obj    Obj
	buf    []interface{}
	slots  []byte // race-detector addresses, one per buffer slot
	head   uint64 // receives so far
	tail   uint64 // sends so far
	cap    int
	closed bool
	closeB byte
	opB    byte // read by sends, written by close, like the runtime reports to the race detector
	sendq  []*waiter
	recvq  []*waiter
}

// waiter is one blocked case of a thread; all cases of a select share sel.
type waiter struct {
	sel *selState
	idx int
	val interface{}
	res *box
}

type selState struct {
	done  bool
	which int
	sync  byte
}

type box struct {
	val interface{}
	ok  bool
}

func coreOf[T any](c *Chan[T]) *core { return (*core)(unsafe.Pointer(c)) }

func as[T any](x interface{}) T {
	if x == nil {
		var z T
		return z
	}
	return x.(T)
}

func MakeLike[C ~*Chan[T], T any](_ C, n int) *Chan[T] {
	c := &Chan[T]{}
	coreOf(c).init(n)
	return c
}

func (c *core) init(n int) {
	if n < 0 {
		panic(plainError("makechan: size out of range"))
	}
	c.cap = n
	if RaceEnabled && n > 0 {
		c.slots = make([]byte, n)
	}
}

// NewChan is for the harness and shims.
func NewChan[T any](n int) *Chan[T] { return MakeLike((*Chan[T])(nil), n) }

func (c *core) slot(i uint64) unsafe.Pointer {
	if len(c.slots) == 0 {
		return unsafe.Pointer(&c.closeB)
	}
	return unsafe.Pointer(&c.slots[int(i%uint64(len(c.slots)))])
}

// ---- non-blocking attempts -------------------------------------------------

func dq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (c *core) trySend(v interface{}) bool {
	if c.closed {
		panic(sendOnClosed)
	}
	if w := dq(&c.recvq); w != nil {
		w.res.val, w.res.ok = v, true
		w.sel.done, w.sel.which = true, w.idx
		RaceAcq(unsafe.Pointer(&w.sel.sync))
		RaceRel(unsafe.Pointer(&w.sel.sync))
		if c.cap > 0 {
			c.head++
			c.tail++
		}
		return true
	}
	if len(c.buf) < c.cap {
		p := c.slot(c.tail)
		RaceAcq(p)
		RaceRel(p)
		c.buf = append(c.buf, v)
		c.tail++
		return true
	}
	return false
}

func (c *core) tryRecv() (v interface{}, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		p := c.slot(c.head)
		RaceAcq(p)
		RaceRel(p)
		c.head++
		if w := dq(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			q := c.slot(c.tail)
			RaceAcq(unsafe.Pointer(&w.sel.sync))
			RaceAcq(q)
			RaceRel(q)
			c.tail++
			w.sel.done, w.sel.which = true, w.idx
			RaceRel(unsafe.Pointer(&w.sel.sync))
		}
		return v, true, true
	}
	if w := dq(&c.sendq); w != nil {
		v = w.val
		RaceAcq(unsafe.Pointer(&w.sel.sync))
		RaceRel(unsafe.Pointer(&w.sel.sync))
		w.sel.done, w.sel.which = true, w.idx
		return v, true, true
	}
	if c.closed {
		RaceAcq(unsafe.Pointer(&c.closeB))
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

const (
	sendOnClosed  = plainError("send on closed channel")
	closeOfClosed = plainError("close of closed channel")
	closeOfNil    = plainError("close of nil channel")
)

func forever(why string) {
	Block(why, func() bool { return false })
}

// ---- send --------------------------------------------------------------------

func SendFn[C ~*Chan[T], T any](ch C) func(T) {
	return func(v T) { coreOf((*Chan[T])(ch)).send(v) }
}

func (c *core) send(v interface{}) {
	if !Point("send") {
		if c != nil && ex == nil && len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			c.tail++
		}
		return
	}
	if c == nil {
		forever("send on nil channel")
		return
	}
	c.obj.Op(1, 0)
	RaceReads(unsafe.Pointer(&c.opB))
	if c.trySend(v) {
		return
	}
	s := &selState{}
	w := &waiter{sel: s, val: v}
	RaceRel(unsafe.Pointer(&s.sync))
	c.sendq = append(c.sendq, w)
	Block("chan send", func() bool { return s.done })
	if Aborting() {
		return
	}
	RaceAcq(unsafe.Pointer(&s.sync))
	c.obj.Op(11, 0)
	if s.which < 0 {
		panic(sendOnClosed)
	}
}

// ---- receive -----------------------------------------------------------------

func Recv[C ~*Chan[T], T any](ch C) T {
	v, _ := coreOf((*Chan[T])(ch)).recv()
	return as[T](v)
}

func Recv2[C ~*Chan[T], T any](ch C) (T, bool) {
	v, ok := coreOf((*Chan[T])(ch)).recv()
	return as[T](v), ok
}

func (c *core) recv() (v interface{}, ok bool) {
	if !Point("recv") {
		if c != nil && ex == nil && len(c.buf) > 0 {
			v, ok = c.buf[0], true
			c.buf = c.buf[1:]
			c.head++
		}
		return
	}
	if c == nil {
		forever("receive from nil channel")
		return
	}
	c.obj.Op(2, 0)
	v, ok, done := c.tryRecv()
	if done {
		return v, ok
	}
	s := &selState{}
	res := &box{}
	w := &waiter{sel: s, res: res}
	RaceRel(unsafe.Pointer(&s.sync))
	c.recvq = append(c.recvq, w)
	Block("chan receive", func() bool { return s.done })
	if Aborting() {
		return
	}
	RaceAcq(unsafe.Pointer(&s.sync))
	c.obj.Op(12, 0)
	return res.val, res.ok
}

func RangeChan[C ~*Chan[T], T any](ch C) (C, T) {
	var z T
	return ch, z
}

func RecvMore[C ~*Chan[T], T any](ch C, p *T) bool {
	if Aborting() {
		return false
	}
	v, ok := coreOf((*Chan[T])(ch)).recv()
	if !ok {
		return false
	}
	if p != nil {
		*p = as[T](v)
	}
	return true
}

// ---- close, len, cap -----------------------------------------------------------

func Close[C ~*Chan[T], T any](ch C) { coreOf((*Chan[T])(ch)).doClose() }

func (c *core) doClose() {
	if !Point("close") {
		if c != nil {
			c.closed = true
		}
		return
	}
	if c == nil {
		panic(closeOfNil)
	}
	c.obj.Op(3, 0)
	if c.closed {
		panic(closeOfClosed)
	}
	RaceWrites(unsafe.Pointer(&c.opB))
	c.closeNow()
}

func (c *core) closeNow() {
	c.closed = true
	RaceRel(unsafe.Pointer(&c.closeB))
	for {
		w := dq(&c.recvq)
		if w == nil {
			break
		}
		w.res.val, w.res.ok = nil, false
		RaceRel(unsafe.Pointer(&w.sel.sync))
		w.sel.done, w.sel.which = true, w.idx
	}
	for {
		w := dq(&c.sendq)
		if w == nil {
			break
		}
		RaceRel(unsafe.Pointer(&w.sel.sync))
		w.sel.done, w.sel.which = true, -1-w.idx
	}
}

func Len[C ~*Chan[T], T any](ch C) int { return coreOf((*Chan[T])(ch)).length() }

func (c *core) length() int {
	if c == nil {
		return 0
	}
	if Point("len") {
		c.obj.Op(4, 0)
	}
	return len(c.buf)
}

func Cap[C ~*Chan[T], T any](ch C) int { return coreOf((*Chan[T])(ch)).capacity() }

func (c *core) capacity() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// SysSend delivers v from scheduler context without blocking (timers, signals); false if dropped.
func (c *Chan[T]) SysSend(v T) bool { return coreOf(c).sysSend(v) }

func (c *core) sysSend(v interface{}) bool {
	if c.closed {
		return false
	}
	c.obj.opBy(HashStr("sys"), 1)
	return c.trySend(v)
}

// SysClose closes from scheduler context (context deadlines).
func (c *Chan[T]) SysClose() { coreOf(c).sysClose() }

func (c *core) sysClose() {
	if !c.closed {
		c.obj.opBy(HashStr("sys"), 2)
		c.closeNow()
	}
}

// Drain empties the buffer (timer Reset/Stop semantics).
func (c *Chan[T]) Drain() { coreOf(c).drain() }
func (c *core) drain()    { c.buf = nil }

// Ready reports whether a receive would not block (for harness conditions).
func (c *Chan[T]) Ready() bool { return (&sc{c: coreOf(c)}).ready() }

// ---- select --------------------------------------------------------------------

// sc is one communication clause.
type sc struct {
	c    *core
	send bool
	v    interface{}
	ok   bool
	box  box
}

type Case interface{ clause() *sc }

type RecvC[T any] struct {
	Val T
	Ok  bool
	s   sc
}

type SendC[T any] struct{ s sc }

func (r *RecvC[T]) clause() *sc { return &r.s }
func (r *SendC[T]) clause() *sc { return &r.s }

// got copies the received value out; it runs in the receiving thread.
func (r *RecvC[T]) got() { r.Val, r.Ok = as[T](r.s.v), r.s.ok }

type getter interface{ got() }

func RecvCase[C ~*Chan[T], T any](ch C) *RecvC[T] {
	return &RecvC[T]{s: sc{c: coreOf((*Chan[T])(ch))}}
}

func SendCase[C ~*Chan[T], T any](ch C) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{s: sc{c: coreOf((*Chan[T])(ch)), send: true, v: v}} }
}

func liveW(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (s *sc) ready() bool {
	if s.send {
		return s.c.closed || len(s.c.buf) < s.c.cap || liveW(s.c.recvq)
	}
	return len(s.c.buf) > 0 || s.c.closed || liveW(s.c.sendq)
}

func (s *sc) exec() {
	if s.send {
		s.c.trySend(s.v)
	} else {
		s.v, s.ok, _ = s.c.tryRecv()
	}
}

// Select performs a select statement; it returns the index of the case that ran, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	var list [8]*sc
	ss := list[:0]
	for _, c := range cases {
		ss = append(ss, c.clause())
	}
	i := sel(hasDefault, ss)
	if i >= 0 && i < len(cases) {
		if g, ok := cases[i].(getter); ok {
			g.got()
		}
	}
	return i
}

func sel(hasDefault bool, cases []*sc) int {
	if !Point("select") {
		if ex == nil { // inert: first ready case, else default
			for i, c := range cases {
				if c.c != nil && c.ready() {
					c.exec()
					return i
				}
			}
		}
		if hasDefault {
			return -1
		}
		return 0
	}
	e := ex
	var rdy []int
	for i, c := range cases {
		if c.c != nil {
			c.c.obj.Op(5, 0)
			if c.ready() {
				rdy = append(rdy, i)
			}
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			if e.SelFree {
				k = Choose(len(rdy))
			} else {
				k = ChooseDev(len(rdy))
			}
		}
		i := rdy[k]
		cases[i].c.obj.Op(6, 0)
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	RaceRel(unsafe.Pointer(&s.sync))
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			c.c.sendq = append(c.c.sendq, &waiter{sel: s, idx: i, val: c.v})
		} else {
			c.c.recvq = append(c.c.recvq, &waiter{sel: s, idx: i, res: &c.box})
		}
	}
	Block("select", func() bool { return s.done })
	if Aborting() {
		return 0
	}
	RaceAcq(unsafe.Pointer(&s.sync))
	i := s.which
	if i < 0 {
		i = -1 - i
	}
	c := cases[i]
	c.c.obj.Op(7, 0)
	if c.send {
		if s.which < 0 {
			panic(sendOnClosed)
		}
	} else {
		c.v, c.ok = c.box.val, c.box.ok
	}
	return i
}

// ---- map iteration ---------------------------------------------------------------

type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func mapIt[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if MapOrder != nil {
		it.keys = MapOrder2(it.keys)
	} else if e := ex; e != nil && !e.abort && e.MapPerm && len(it.keys) > 1 && len(it.keys) <= 5 {
		it.keys = perm(it.keys, Choose(fact(len(it.keys))))
	}
	return it
}

// MapOrder, when set, selects the permutation index of a map walk of n keys (outside executions).
var MapOrder func(n int) int

func MapOrder2[K any](keys []K) []K { return perm(keys, MapOrder(len(keys))) }

func fact(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

// perm returns the k-th permutation (factorial number system; k is taken modulo n!).
func perm[K any](a []K, k int) []K {
	n := len(a)
	src := append([]K(nil), a...)
	out := make([]K, 0, n)
	if n <= 12 {
		k %= fact(n)
	}
	for i := n; i > 0; i-- {
		var j int
		if i-1 <= 12 {
			f := fact(i - 1)
			j = k / f
			k %= f
		}
		if j >= len(src) {
			j = len(src) - 1
		}
		out = append(out, src[j])
		src = append(src[:j], src[j+1:]...)
	}
	return out
}

func Perm[K any](a []K, k int) []K { return perm(a, k) }
func Fact(n int) int               { return fact(n) }

func sortKeys[K comparable](ks []K) {
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
		return
	case []int:
		sort.Ints(s)
		return
	}
	v := reflect.ValueOf(ks)
	if v.Len() > 0 {
		switch v.Index(0).Kind() {
		case reflect.String:
			sort.SliceStable(ks, func(i, j int) bool { return v.Index(i).String() < v.Index(j).String() })
			return
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.SliceStable(ks, func(i, j int) bool { return v.Index(i).Int() < v.Index(j).Int() })
			return
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			sort.SliceStable(ks, func(i, j int) bool { return v.Index(i).Uint() < v.Index(j).Uint() })
			return
		case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
			return
		}
	}
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
}

func (it *MapIt[K, V]) next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			if key == key { // deleted during the walk
				continue
			}
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func MapIter0[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] { return mapIt[K, V](m) }
func MapIterK[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K) {
	var k K
	return mapIt[K, V](m), k
}
func MapIterV[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], V) {
	var v V
	return mapIt[K, V](m), v
}
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return mapIt[K, V](m), k, v
}
func MapNext0[K comparable, V any](it *MapIt[K, V]) bool              { return it.next(nil, nil) }
func MapNextK[K comparable, V any](it *MapIt[K, V], k *K) bool        { return it.next(k, nil) }
func MapNextV[K comparable, V any](it *MapIt[K, V], v *V) bool        { return it.next(nil, v) }
func MapNextKV[K comparable, V any](it *MapIt[K, V], k *K, v *V) bool { return it.next(k, v) }
