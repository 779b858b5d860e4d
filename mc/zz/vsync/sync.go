// Package vsync replaces package sync.
package vsync

import (
	"hash/maphash"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	o      vrt.Obj
	locked bool
	rb     byte
}

func fatal(s string) { panic("fatal error: " + s) }

func (m *Mutex) Lock() {
	if !vrt.Point("lock") {
		return
	}
	m.fresh()
	if m.locked {
		vrt.Block("mutex lock", func() bool { return !m.locked })
		if vrt.Aborting() {
			return
		}
	}
	m.locked = true
	m.o.Op(1, 0)
	vrt.RaceAcq(unsafe.Pointer(&m.rb))
}

// fresh forgets what an earlier execution left behind.
func (m *Mutex) fresh() {
	if m.o.Stale() {
		m.locked = false
	}
}

func (m *Mutex) TryLock() bool {
	if !vrt.Point("trylock") {
		return true
	}
	m.fresh()
	m.o.Op(2, 0)
	if m.locked {
		return false
	}
	m.locked = true
	vrt.RaceAcq(unsafe.Pointer(&m.rb))
	return true
}

func (m *Mutex) Unlock() {
	if !vrt.Point("unlock") {
		return
	}
	m.o.Op(3, 0)
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	vrt.RaceRel(unsafe.Pointer(&m.rb))
	m.locked = false
}

// RWMutex: a waiting writer blocks new readers, an unlocking writer admits the waiting readers.
type RWMutex struct {
	o       vrt.Obj
	w       bool // writers' mutex
	pending bool // a writer holds or waits for the lock
	holds   bool
	readers int
	waitR   []*bool
	rb, wb  byte
}

// fresh forgets what an earlier execution left behind.
func (m *RWMutex) fresh() {
	if m.o.Stale() {
		m.w, m.pending, m.holds, m.readers, m.waitR = false, false, false, 0, nil
	}
}

func (m *RWMutex) RLock() {
	if !vrt.Point("rlock") {
		return
	}
	m.fresh()
	m.o.Op(1, 0)
	if m.pending {
		g := new(bool)
		m.waitR = append(m.waitR, g)
		vrt.Block("rwmutex rlock", func() bool { return *g })
		if vrt.Aborting() {
			return
		}
		m.o.Op(11, 0)
	} else {
		m.readers++
	}
	vrt.RaceAcq(unsafe.Pointer(&m.wb))
}

func (m *RWMutex) TryRLock() bool {
	if !vrt.Point("tryrlock") {
		return true
	}
	m.fresh()
	m.o.Op(7, 0)
	if m.pending {
		return false
	}
	m.readers++
	vrt.RaceAcq(unsafe.Pointer(&m.wb))
	return true
}

func (m *RWMutex) RUnlock() {
	if !vrt.Point("runlock") {
		return
	}
	m.o.Op(2, 0)
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	vrt.RaceRel(unsafe.Pointer(&m.rb))
	m.readers--
}

func (m *RWMutex) Lock() {
	if !vrt.Point("wlock") {
		return
	}
	m.fresh()
	if m.w {
		vrt.Block("rwmutex lock", func() bool { return !m.w })
		if vrt.Aborting() {
			return
		}
	}
	m.w = true
	m.pending = true
	m.o.Op(3, 0)
	if m.readers > 0 {
		vrt.Block("rwmutex lock (readers)", func() bool { return m.readers == 0 })
		if vrt.Aborting() {
			return
		}
		m.o.Op(13, 0)
	}
	m.holds = true
	vrt.RaceAcq(unsafe.Pointer(&m.wb))
	vrt.RaceAcq(unsafe.Pointer(&m.rb))
}

func (m *RWMutex) TryLock() bool {
	if !vrt.Point("trywlock") {
		return true
	}
	m.o.Op(8, 0)
	if m.w || m.pending || m.readers > 0 {
		return false
	}
	m.w, m.pending, m.holds = true, true, true
	vrt.RaceAcq(unsafe.Pointer(&m.wb))
	vrt.RaceAcq(unsafe.Pointer(&m.rb))
	return true
}

func (m *RWMutex) Unlock() {
	if !vrt.Point("wunlock") {
		return
	}
	m.o.Op(4, 0)
	if !m.holds {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	vrt.RaceRel(unsafe.Pointer(&m.wb))
	m.holds = false
	m.pending = false
	m.readers += len(m.waitR)
	for _, g := range m.waitR {
		*g = true
	}
	m.waitR = nil
	m.w = false
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	o       vrt.Obj
	n       int
	waiters int
	rb      byte
}

func (w *WaitGroup) Add(d int) {
	if !vrt.Point("wg add") {
		return
	}
	w.o.Op(1, uint64(d))
	if d < 0 {
		vrt.RaceRel(unsafe.Pointer(&w.rb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n > 0 && d == w.n && w.waiters > 0 {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	if !vrt.Point("wg wait") {
		return
	}
	w.o.Op(2, 0)
	if w.n > 0 {
		zero := false
		w.waiters++
		vrt.Block("wg wait", func() bool {
			if w.n == 0 {
				zero = true
			}
			return zero
		})
		w.waiters--
		if vrt.Aborting() {
			return
		}
		w.o.Op(12, 0)
	}
	vrt.RaceAcq(unsafe.Pointer(&w.rb))
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !vrt.Active() {
		if !o.done && !vrt.Aborting() {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Map keeps entries in insertion order and finds them by hash. It uses no Go
// map: those announce their accesses to the race detector.
type Map struct {
	o           vrt.Obj
	tab         []*ent
	first, last *ent
	n           int
	rb          byte
}

type ent struct {
	k, v       interface{}
	h          uint64
	chain      *ent // in the table
	prev, next *ent // in order of insertion
}

var seed = maphash.MakeSeed()

func hash(k interface{}) uint64 { return maphash.Comparable(seed, k) }

func (m *Map) op(k string, code uint64) {
	if vrt.Point(k) {
		m.o.Op(code, 0)
		vrt.RaceAcq(unsafe.Pointer(&m.rb))
	}
}

func (m *Map) rel() { vrt.RaceRel(unsafe.Pointer(&m.rb)) }

func (m *Map) find(k interface{}) *ent {
	h := hash(k)
	if m.n == 0 {
		return nil
	}
	for e := m.tab[h%uint64(len(m.tab))]; e != nil; e = e.chain {
		if e.h == h && e.k == k {
			return e
		}
	}
	return nil
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.op("map load", 1)
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v interface{}) {
	m.op("map store", 2)
	m.rel()
	m.set(k, v)
}

func (m *Map) set(k, v interface{}) {
	if e := m.find(k); e != nil {
		e.v = v
		return
	}
	if m.n >= len(m.tab) {
		m.tab = make([]*ent, 2*m.n+8)
		for e := m.first; e != nil; e = e.next {
			p := &m.tab[e.h%uint64(len(m.tab))]
			e.chain = *p
			*p = e
		}
	}
	e := &ent{k: k, v: v, h: hash(k), prev: m.last}
	p := &m.tab[e.h%uint64(len(m.tab))]
	e.chain = *p
	*p = e
	if m.last == nil {
		m.first = e
	} else {
		m.last.next = e
	}
	m.last = e
	m.n++
}

func (m *Map) del(e *ent) {
	p := &m.tab[e.h%uint64(len(m.tab))]
	for *p != e {
		p = &(*p).chain
	}
	*p = e.chain
	if e.prev == nil {
		m.first = e.next
	} else {
		e.prev.next = e.next
	}
	if e.next == nil {
		m.last = e.prev
	} else {
		e.next.prev = e.prev
	}
	m.n--
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op("map loadorstore", 3)
	m.rel()
	if e := m.find(k); e != nil {
		return e.v, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op("map loadanddelete", 4)
	m.rel()
	if e := m.find(k); e != nil {
		v := e.v
		m.del(e)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.op("map swap", 5)
	m.rel()
	var old interface{}
	e := m.find(k)
	if e != nil {
		old = e.v
	}
	m.set(k, v)
	return old, e != nil
}

func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.op("map cas", 6)
	m.rel()
	if e := m.find(k); e != nil && e.v == old {
		e.v = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.op("map cad", 7)
	m.rel()
	if e := m.find(k); e != nil && e.v == old {
		m.del(e)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op("map range", 8)
	ks := make([]interface{}, 0, m.n)
	for e := m.first; e != nil; e = e.next {
		ks = append(ks, e.k)
	}
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
		if vrt.Aborting() {
			return
		}
	}
}

func (m *Map) Clear() {
	m.op("map clear", 9)
	m.rel()
	m.tab, m.first, m.last, m.n = nil, nil, nil, 0
}

// Pool may return any item put or none (a deviation).
type Pool struct {
	o     vrt.Obj
	New   func() interface{}
	items []interface{}
	rb    byte
}

func (p *Pool) Get() interface{} {
	if vrt.Point("pool get") {
		p.o.Op(1, 0)
		vrt.RaceAcq(unsafe.Pointer(&p.rb))
		if n := len(p.items); n > 0 && vrt.ChooseDev(2) == 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if vrt.Point("pool put") {
		p.o.Op(2, 0)
		vrt.RaceRel(unsafe.Pointer(&p.rb))
		p.items = append(p.items, x)
	}
}

type Cond struct {
	L Locker
	o vrt.Obj
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if !vrt.Active() {
		return
	}
	c.o.Op(1, 0)
	g := new(bool)
	c.q = append(c.q, g)
	c.L.Unlock()
	vrt.Block("cond wait", func() bool { return *g })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vrt.Point("cond signal") {
		return
	}
	c.o.Op(2, 0)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vrt.Point("cond broadcast") {
		return
	}
	c.o.Op(3, 0)
	for _, g := range c.q {
		*g = true
	}
	c.q = nil
}
