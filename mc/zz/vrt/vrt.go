// Package vrt is the controlled runtime of the model checker: a cooperative
// scheduler that owns every thread switch, channel operation, timer and
// environment choice of the instrumented program.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Obj is anything threads communicate through; it carries the hash of the
// happens-before history of the operations applied to it.
type Obj struct {
	fp  uint64
	gen uint32 // execution the hash belongs to (objects of packages that are not reinitialised outlive it)
}

var execGen uint32

// Stale tells, once per execution, that o was last used in an earlier one.
func (o *Obj) Stale() bool {
	if o.gen == execGen {
		return false
	}
	old := o.gen
	o.gen, o.fp = execGen, 0
	return old != 0
}

type Thread struct {
	e       *Exec
	idx     int
	uid     uint64
	fp      uint64
	kids    uint64
	wake    chan struct{}
	ready   func() bool // nil: runnable
	idle    int         // 1: waits until nothing runs, 2: and no timer is pending
	why     string
	done    bool
	started bool
	name    string
	fn      func()
	relBuf  byte // race-detector address: released at every park
}

type Dec struct {
	N    int    // alternatives
	C    int    // chosen
	Cost []int8 // nil: all free
	Key  uint64
	Base int // cost spent before this decision
}

type Timer struct {
	when   int64
	seq    int
	period int64
	fire   func() // runs in scheduler context, must not block
	active bool
	obj    Obj
}

type Opts struct {
	Bound     int  // deviation budget
	MaxSteps  int  // horizon
	NoEarly   bool // timers never fire while something can run
	EarlyFree bool // firing early costs nothing
	Patient   bool // no timer fires because a thread runs on and on
	DelayAll  bool // also charge for choosing a non-default thread at blocking points
	MapPerm   bool // map iteration order is a (deviation) choice
	NoCache   bool
	SelFree   bool // which ready select case runs is a free choice
	Trace     bool // record an operation log
	OpsOnly   func(kind string) bool
}

const (
	OutDone = iota
	OutPruned
	OutForeign
	OutDeadlock
	OutCrash
	OutHorizon
	OutNondet
	OutExit
	OutViolation
)

var outNames = []string{"done", "pruned", "foreign", "deadlock", "crash", "horizon", "nondet", "exit", "violation"}

type Result struct {
	Outcome int
	Msg     string
	Trace   []Dec
	Steps   int
	Races   int
	Log     []string
	Cost    int
}

func (r *Result) OutcomeName() string { return outNames[r.Outcome] }

type Exec struct {
	Opts
	threads []*Thread
	cur     *Thread
	prefix  []Dec // decisions to replay
	trace   []Dec
	cost    int
	nowNs   int64
	clock   Obj
	timers  []*Timer
	tseq    int
	steps   int
	consec  int
	sum     uint64
	finish  chan struct{}
	exited  chan struct{}
	over    bool
	abort   bool
	outcome int
	msg     string
	cache   *Cache
	log     []string
	races0  int
	Hooks   interface{}
	envObj  Obj
	hist    Obj
	unwind  byte
}

// Cache remembers visited happens-before states with the largest remaining
// budget.  The table may be shared between processes: whoever enters a state
// explores (or hands on) all of its continuations.
type Cache struct {
	tab  []uint64
	salt uint64
	Hits int
	New  int // distinct states entered here
	Full bool
}

func NewCache(tab []uint64, salt uint64) *Cache { return &Cache{tab: tab, salt: salt} }

// seen reports whether key was entered with at least rem, and enters it otherwise.
func (c *Cache) seen(key uint64, rem int) bool {
	key = mix(key, c.salt)
	id := key &^ 0xff
	if id == 0 {
		id = 0x100
	}
	mask := uint64(len(c.tab) - 1)
	pos := (key >> 20) & mask
	for probe := 0; probe < 64; probe++ {
		p := &c.tab[(pos+uint64(probe))&mask]
		for {
			v := atomic.LoadUint64(p)
			if v == 0 {
				if atomic.CompareAndSwapUint64(p, 0, id|uint64(rem&0xff)) {
					c.New++
					return false
				}
				continue
			}
			if v&^0xff != id {
				break
			}
			if int(v&0xff) >= rem {
				c.Hits++
				return true
			}
			if atomic.CompareAndSwapUint64(p, v, id|uint64(rem&0xff)) {
				return false
			}
		}
	}
	c.Full = true
	return false
}

var ex *Exec

// Active reports whether a controlled execution is running.
func Active() bool { return ex != nil && !ex.abort }

// Aborting: the execution is over and threads are being unwound.
func Aborting() bool { return ex != nil && ex.abort }

func mix(h uint64, v ...uint64) uint64 {
	for _, x := range v {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

const epoch = 1600000000 * int64(time.Second)

// Run performs one execution of body under control, replaying prefix first.
func Run(o Opts, prefix []Dec, cache *Cache, body func()) *Result {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	e := &Exec{Opts: o, prefix: prefix, cache: cache, finish: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	if o.NoCache {
		e.cache = nil
	}
	e.nowNs = epoch
	e.races0 = RaceErrors()
	execGen++
	ex = e
	t := e.newThread("main", body)
	e.cur = t
	raceOff()
	t.wake <- struct{}{}
	<-e.finish
	raceOn()
	races := RaceErrors() - e.races0
	for _, th := range e.threads {
		RaceAcq(unsafe.Pointer(&th.relBuf))
	}
	// unwind everything that is still alive, one thread after the other
	e.abort = true
	for i := 0; i < len(e.threads); i++ {
		th := e.threads[i]
		if th.done {
			continue
		}
		e.cur = th
		RaceRel(unsafe.Pointer(&e.unwind))
		raceOff()
		th.wake <- struct{}{}
		<-e.exited
		raceOn()
		RaceAcq(unsafe.Pointer(&th.relBuf))
	}
	ex = nil
	return &Result{Outcome: e.outcome, Msg: e.msg, Trace: e.trace, Steps: e.steps, Races: races, Log: e.log, Cost: e.cost}
}

func (e *Exec) newThread(name string, fn func()) *Thread {
	t := &Thread{e: e, idx: len(e.threads), name: name, fn: fn, wake: make(chan struct{}, 1)}
	if e.cur != nil {
		e.cur.kids++
		t.uid = mix(e.cur.uid, e.cur.kids, 77)
		t.fp = mix(e.cur.fp, 99)
	} else {
		t.uid = 1
	}
	e.threads = append(e.threads, t)
	e.sum += mix(t.uid, t.fp)
	go t.run()
	return t
}

func (t *Thread) run() {
	e := t.e
	raceOff()
	<-t.wake
	raceOn()
	normal := false
	defer func() {
		if r := recover(); r != nil && !e.abort {
			e.end(OutCrash, fmt.Sprintf("thread %s: panic: %s\n%s", t.name, panicText(r), trimStack(debug.Stack())))
		} else if !normal && !e.abort {
			// runtime.Goexit
		}
		t.done = true
		RaceRel(unsafe.Pointer(&t.relBuf))
		if e.abort || e.over {
			if e.over && !e.abort {
				// we are the thread that ended the execution
				raceOff()
				e.finish <- struct{}{}
				raceOn()
				return
			}
			raceOff()
			e.exited <- struct{}{}
			raceOn()
			return
		}
		e.setFp(t, mix(t.fp, 0xdead))
		if t.idx == 0 {
			e.end(OutDone, "")
			raceOff()
			e.finish <- struct{}{}
			raceOn()
			return
		}
		n := e.pickNext()
		if n == nil { // deadlock etc.: end() was called
			raceOff()
			e.finish <- struct{}{}
			raceOn()
			return
		}
		e.cur = n
		raceOff()
		n.wake <- struct{}{}
		raceOn()
	}()
	if !e.abort {
		t.started = true
		t.fn()
	}
	normal = true
}

func panicText(r interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", r)
		}
	}()
	s = fmt.Sprint(r)
	if len(s) > 400 {
		s = s[:400]
	}
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			i++
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		loc := strings.TrimSpace(lines[i+1])
		if strings.Contains(loc, "/zz/") || strings.Contains(l, "runtime.") {
			continue
		}
		if k := strings.LastIndex(loc, " +0x"); k >= 0 {
			loc = loc[:k]
		}
		out = append(out, strings.TrimSpace(l)+" "+loc)
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// end records the verdict; the calling thread must unwind afterwards.
func (e *Exec) end(outcome int, msg string) {
	if e.over {
		return
	}
	e.over = true
	e.outcome = outcome
	e.msg = msg
}

// stop ends the execution from the running thread.
func (e *Exec) stop(outcome int, msg string) {
	e.end(outcome, msg)
	e.abortSelf()
}

// abortSelf leaves the current thread; Goexit runs its deferred calls with the shims inert.
func (e *Exec) abortSelf() {
	// hand control back to Run, which sets abort and wakes every live thread including this one
	t := e.cur
	RaceRel(unsafe.Pointer(&t.relBuf))
	raceOff()
	e.finish <- struct{}{}
	<-t.wake
	raceOn()
	RaceAcq(unsafe.Pointer(&e.unwind))
	runtime.Goexit()
}

func (e *Exec) setFp(t *Thread, fp uint64) {
	e.sum -= mix(t.uid, t.fp)
	t.fp = fp
	e.sum += mix(t.uid, t.fp)
}

// Op records that the current thread applied an operation to o.
func (o *Obj) Op(kind uint64, extra uint64) {
	if ex == nil || ex.abort {
		return
	}
	if o.gen != execGen {
		o.gen, o.fp = execGen, 0
	}
	t := ex.cur
	h := mix(t.fp, o.fp, kind, extra)
	ex.setFp(t, h)
	o.fp = h
}

// sched-context operation (timers)
func (o *Obj) opBy(src uint64, kind uint64) {
	if o.gen != execGen {
		o.gen, o.fp = execGen, 0
	}
	o.fp = mix(o.fp, src, kind, 31)
}

func (e *Exec) runnable(t *Thread) bool {
	return !t.done && t.idle == 0 && (t.ready == nil || t.ready())
}

func (e *Exec) key(forThread uint64) uint64 {
	return mix(e.sum, e.clock.fp, forThread)
}

// visit prunes the execution if its state was visited with at least the present budget.
func (e *Exec) visit(key uint64) {
	if e.cache == nil || len(e.trace) < len(e.prefix) {
		return
	}
	if e.cache.seen(key, e.Bound-e.cost+1) {
		e.stop(OutPruned, "")
	}
}

// decide resolves a choice between n alternatives; cost nil means free.
func (e *Exec) decide(n int, cost []int8, key uint64) int {
	if n <= 1 {
		return 0
	}
	idx := len(e.trace)
	c := 0
	if idx < len(e.prefix) {
		p := &e.prefix[idx]
		c = p.C
		if p.N >= 0 && p.N != n || c >= n || p.Key != 0 && key != 0 && p.Key != key {
			e.stop(OutNondet, fmt.Sprintf("decision %d: %d alternatives (key %x), replay had %d (key %x)", idx, n, key, p.N, p.Key))
		}
	}
	e.trace = append(e.trace, Dec{N: n, C: c, Cost: cost, Key: key, Base: e.cost})
	if cost != nil {
		e.cost += int(cost[c])
	}
	return c
}

var onesCost [64][]int8 // [n]: 0,1,1,1...
var nextCost [64][]int8 // 0,1,2,..

func init() {
	for i := range onesCost {
		a := make([]int8, i)
		for j := 1; j < i; j++ {
			a[j] = 1
		}
		onesCost[i] = a
	}
}

func ones(n int) []int8 {
	if n < len(onesCost) {
		return onesCost[n]
	}
	a := make([]int8, n)
	for j := 1; j < n; j++ {
		a[j] = 1
	}
	return a
}

const fairLimit = 400

// Point is a scheduling point: the current thread is about to perform an operation.
func Point(kind string) bool {
	e := ex
	if e == nil || e.abort {
		return false
	}
	t := e.cur
	e.steps++
	if e.steps > e.MaxSteps {
		e.stop(OutHorizon, fmt.Sprintf("more than %d steps; thread %s at %s", e.MaxSteps, t.name, kind))
	}
	if e.Trace {
		e.log = append(e.log, fmt.Sprintf("%d %s@%d: %s", e.steps, t.name, t.idx, kind))
	}
	if e.over { // another goroutine of ours ended it (should not happen)
		return false
	}
	e.consec++
	fair := e.consec > fairLimit && !e.Patient
	key := e.key(mix(t.uid, 5))
	e.visit(key)
	defer e.setFp(t, mix(t.fp, 0x11))
	if !fair && e.cost >= e.Bound && !e.EarlyFree {
		return true
	}
	if e.OpsOnly != nil && !fair && !e.OpsOnly(kind) {
		return true
	}
	// candidates
	var cands []*Thread
	for _, o := range e.threads {
		if o != t && e.runnable(o) {
			cands = append(cands, o)
		}
	}
	early := 0
	if len(e.timers) > 0 && (!e.NoEarly || fair) {
		early = 1
	}
	n := 1 + len(cands) + early
	if n == 1 {
		return true
	}
	if fair {
		e.consec = 0
		if len(cands) > 0 {
			nx := cands[0]
			for _, c := range cands {
				if c.idx > t.idx {
					nx = c
					break
				}
			}
			e.switchTo(nx)
		} else {
			e.fireEarliest()
		}
		return true
	}
	cost := ones(n)
	if early == 1 && e.EarlyFree {
		cost = append([]int8(nil), cost...)
		cost[n-1] = 0
	}
	c := e.decide(n, cost, key)
	switch {
	case c == 0:
	case c <= len(cands):
		e.consec = 0
		e.switchTo(cands[c-1])
	default:
		e.fireEarliest()
		// the thread that set the timer may now run; the current one continues, later points may switch
	}
	return true
}

// switchTo parks the current thread (still runnable) and runs n.
func (e *Exec) switchTo(n *Thread) {
	t := e.cur
	if n == t {
		return
	}
	e.cur = n
	RaceRel(unsafe.Pointer(&t.relBuf))
	raceOff()
	n.wake <- struct{}{}
	<-t.wake
	raceOn()
	if e.abort {
		RaceAcq(unsafe.Pointer(&e.unwind))
		runtime.Goexit()
	}
}

// pickNext selects the thread to run when the current one cannot; nil if the execution ended.
func (e *Exec) pickNext() *Thread {
	e.consec = 0
	for {
		var cands []*Thread
		base := e.cur.idx
		n := len(e.threads)
		for i := 1; i <= n; i++ {
			o := e.threads[(base+i)%n]
			if e.runnable(o) {
				cands = append(cands, o)
			}
		}
		if len(cands) == 1 {
			return cands[0]
		}
		if len(cands) > 1 {
			var cost []int8
			if e.DelayAll {
				cost = ones(len(cands))
			}
			c := e.decideNoStop(len(cands), cost, e.key(mix(e.cur.uid, 6)))
			if c < 0 {
				return nil
			}
			return cands[c]
		}
		// nothing runs: idle waiters of kind 1, then timers, then idle waiters of kind 2
		for _, o := range e.threads {
			if !o.done && o.idle == 1 {
				o.idle = 0
				return o
			}
		}
		if len(e.timers) > 0 {
			e.steps++
			if e.steps > e.MaxSteps {
				e.end(OutHorizon, fmt.Sprintf("more than %d steps (timers keep firing)", e.MaxSteps))
				return nil
			}
			e.fireEarliest()
			continue
		}
		for _, o := range e.threads {
			if !o.done && o.idle == 2 {
				o.idle = 0
				return o
			}
		}
		var b strings.Builder
		for _, o := range e.threads {
			if !o.done {
				fmt.Fprintf(&b, "[%s: %s] ", o.name, o.why)
			}
		}
		e.end(OutDeadlock, "deadlock: "+b.String())
		return nil
	}
}

// decideNoStop is decide for contexts that cannot unwind; -1 means the execution ended.
func (e *Exec) decideNoStop(n int, cost []int8, key uint64) int {
	idx := len(e.trace)
	c := 0
	if idx < len(e.prefix) {
		p := &e.prefix[idx]
		c = p.C
		if p.N >= 0 && p.N != n || c >= n || p.Key != 0 && key != 0 && p.Key != key {
			e.end(OutNondet, fmt.Sprintf("decision %d: %d alternatives (key %x), replay had %d (key %x)", idx, n, key, p.N, p.Key))
			return -1
		}
	} else if e.cache != nil && key != 0 {
		if e.cache.seen(key, e.Bound-e.cost+1) {
			e.end(OutPruned, "")
			return -1
		}
	}
	e.trace = append(e.trace, Dec{N: n, C: c, Cost: cost, Key: key, Base: e.cost})
	if cost != nil {
		e.cost += int(cost[c])
	}
	return c
}

// Block parks the current thread until ready() holds and it is scheduled.
func Block(why string, ready func() bool) {
	e := ex
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.ready = ready
	t.why = why
	e.setFp(t, mix(t.fp, 0xb10c))
	e.yieldBlocked()
	t.ready = nil
	t.why = ""
}

func (e *Exec) yieldBlocked() {
	t := e.cur
	n := e.pickNext()
	if n == nil {
		e.abortSelf()
	}
	if n != t {
		e.switchTo(n)
	}
}

// WaitIdle returns when no other thread can run (timers do not fire).
func WaitIdle() { waitIdle(1) }

// WaitQuiet returns when no other thread can run and no timer is pending.
func WaitQuiet() { waitIdle(2) }

func waitIdle(kind int) {
	e := ex
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.idle = kind
	t.why = "idle wait"
	e.setFp(t, mix(t.fp, 0x1d1e))
	e.yieldBlocked()
	t.idle = 0
	// everything happened before: join all histories
	h := t.fp
	for _, o := range e.threads {
		if o != t {
			h = mix(h, o.fp)
			RaceAcq(unsafe.Pointer(&o.relBuf))
		}
	}
	e.setFp(t, h)
}

// Go starts a thread.
func Go(fn func()) {
	e := ex
	if e == nil || e.abort {
		return // package initialisation outside an execution, or unwinding
	}
	GoNamed("", fn)
}

func GoNamed(name string, fn func()) *Thread {
	e := ex
	if e == nil || e.abort {
		return nil
	}
	if name == "" {
		name = fmt.Sprintf("%s/%d", e.cur.name, e.cur.kids+1)
	}
	if len(e.threads) > 3000 {
		e.stop(OutHorizon, "more than 3000 threads")
	}
	t := e.newThread(name, fn)
	e.setFp(e.cur, mix(e.cur.fp, 0x60))
	Point("go")
	return t
}

// Live counts threads that have not ended (the calling one excluded).
func Live() int {
	n := 0
	if ex != nil {
		for _, t := range ex.threads {
			if !t.done && t != ex.cur {
				n++
			}
		}
	}
	return n
}

// LiveNames describes the live threads (for messages).
func LiveNames() string {
	var s []string
	if ex != nil {
		for _, t := range ex.threads {
			if !t.done && t != ex.cur {
				s = append(s, t.name+":"+t.why)
			}
		}
	}
	return strings.Join(s, ", ")
}

func (t *Thread) Done() bool { return t.done }

// Choose is a free nondeterministic choice of the environment.
func Choose(n int) int { return choose(n, nil) }

// ChooseDev is an environment choice whose non-default alternatives use up one deviation.
func ChooseDev(n int) int {
	if ex != nil && ex.cost >= ex.Bound {
		if !ex.abort {
			ex.setFp(ex.cur, mix(ex.cur.fp, 0xc4, 0))
		}
		return 0
	}
	return choose(n, ones(n))
}

func choose(n int, cost []int8) int {
	e := ex
	if e == nil || e.abort || n <= 1 {
		return 0
	}
	key := e.key(mix(e.cur.uid, 7, uint64(n)))
	e.visit(key)
	c := e.decide(n, cost, key)
	e.setFp(e.cur, mix(e.cur.fp, 0xc4, uint64(c)))
	return c
}

// Stop ends the current execution with a crash verdict (os.Exit and the like).
func Exit(msg string) {
	e := ex
	if e == nil || e.abort {
		return
	}
	e.stop(OutExit, msg)
}

// Fail ends the execution: the property is violated.
func Fail(f string, a ...interface{}) {
	e := ex
	if e == nil {
		panic("vrt.Fail outside an execution: " + fmt.Sprintf(f, a...))
	}
	if e.abort {
		return
	}
	e.stop(OutViolation, fmt.Sprintf(f, a...))
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if !Point("gosched") {
		return
	}
	e := ex
	var cands []*Thread
	for i := 1; i < len(e.threads); i++ {
		o := e.threads[(e.cur.idx+i)%len(e.threads)]
		if e.runnable(o) {
			cands = append(cands, o)
		}
	}
	if len(cands) > 0 {
		e.consec = 0
		e.switchTo(cands[0])
	} else if e.consec > 20 && len(e.timers) > 0 {
		e.fireEarliest()
	}
}

// ---- virtual time --------------------------------------------------------

func NowNs() int64 {
	e := ex
	if e == nil || e.abort {
		return epoch
	}
	e.setFp(e.cur, mix(e.cur.fp, e.clock.fp))
	return e.nowNs
}

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration {
	if ex == nil {
		return 0
	}
	return time.Duration(ex.nowNs - epoch)
}

func NewTimer(d int64, period int64, fire func()) *Timer {
	e := ex
	t := &Timer{fire: fire, period: period}
	if e == nil || e.abort {
		return t
	}
	e.clockOp()
	e.addTimer(t, d)
	return t
}

func (e *Exec) clockOp() { e.clock.Op(3, 0) }

func (e *Exec) addTimer(t *Timer, d int64) {
	if d < 0 {
		d = 0
	}
	t.when = e.nowNs + d
	t.active = true
	e.tseq++
	t.seq = e.tseq
	i := sort.Search(len(e.timers), func(i int) bool { return e.timers[i].when > t.when })
	e.timers = append(e.timers, nil)
	// element by element: bulk moves of pointers are visible to the race detector
	for k := len(e.timers) - 1; k > i; k-- {
		e.timers[k] = e.timers[k-1]
	}
	e.timers[i] = t
}

// StopTimer reports whether the timer was pending.
func StopTimer(t *Timer) bool {
	e := ex
	if e == nil || e.abort {
		return false
	}
	e.clockOp()
	was := t.active
	e.removeTimer(t)
	return was
}

func (e *Exec) removeTimer(t *Timer) {
	for i, x := range e.timers {
		if x == t {
			n := len(e.timers) - 1
			for k := i; k < n; k++ {
				e.timers[k] = e.timers[k+1]
			}
			e.timers[n] = nil
			e.timers = e.timers[:n]
			break
		}
	}
	t.active = false
}

func ResetTimer(t *Timer, d int64) bool {
	e := ex
	if e == nil || e.abort {
		return false
	}
	e.clockOp()
	was := t.active
	e.removeTimer(t)
	e.addTimer(t, d)
	return was
}

func (e *Exec) fireEarliest() {
	t := e.timers[0]
	e.timers = e.timers[1:]
	t.active = false
	if t.when > e.nowNs {
		e.nowNs = t.when
	}
	e.clock.opBy(uint64(e.nowNs), 1)
	if e.Trace {
		e.log = append(e.log, fmt.Sprintf("timer fires, now %v", time.Duration(e.nowNs-epoch)))
	}
	if t.period > 0 {
		e.addTimer(t, t.period)
	}
	t.fire()
}

// PendingTimers is the number of armed timers.
func PendingTimers() int {
	if ex == nil {
		return 0
	}
	return len(ex.timers)
}

// ---- history objects -------------------------------------------------------

// Env marks an operation on the shared environment (for the happens-before hash).
func EnvOp(kind uint64, extra uint64) {
	if ex != nil && !ex.abort {
		ex.envObj.Op(kind, extra)
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) { var z T; *p = z }

// Local is per-execution harness state.
func SetHooks(h interface{}) {
	if ex != nil {
		ex.Hooks = h
	}
}

func Hooks() interface{} {
	if ex == nil {
		return nil
	}
	return ex.Hooks
}

// CurName is the name of the running thread.
func CurName() string {
	if ex == nil || ex.cur == nil {
		return ""
	}
	return ex.cur.name
}

// Gen identifies the current execution.
func Gen() interface{} {
	if ex == nil {
		return nil
	}
	return ex
}

// SysNow is the virtual time, for scheduler context.
func SysNow() int64 {
	if ex == nil {
		return epoch
	}
	return ex.nowNs
}

// SysGo starts a thread from scheduler context (time.AfterFunc).
func SysGo(name string, fn func()) {
	e := ex
	if e == nil || e.abort {
		return
	}
	cur := e.cur
	e.tseq++
	t := &Thread{e: e, idx: len(e.threads), name: fmt.Sprintf("%s%d", name, len(e.threads)), fn: fn, wake: make(chan struct{}, 1)}
	_ = cur
	t.uid = mix(e.clock.fp, uint64(len(e.threads)), 78)
	t.fp = mix(e.clock.fp, 98)
	e.threads = append(e.threads, t)
	e.sum += mix(t.uid, t.fp)
	go t.run()
}

// HistOp orders harness-visible events: executions that differ in the order of
// recorded events are never identified by the state cache.
func HistOp(h uint64) {
	if ex != nil && !ex.abort {
		ex.hist.Op(21, h)
	}
}

// Join waits for the threads to end.
func Join(why string, ts ...*Thread) {
	if !Point("join") {
		return
	}
	e := ex
	ready := func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	}
	if !ready() {
		Block(why, ready)
	}
	if e.abort {
		return
	}
	h := e.cur.fp
	for _, t := range ts {
		h = mix(h, t.fp)
		RaceAcq(unsafe.Pointer(&t.relBuf))
	}
	e.setFp(e.cur, h)
}
