package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/zz/vfmt"
	"github.com/GalaIO/P2Pcrawler/zz/vlumber"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// Scn is one bounded space to be enumerated.
type Scn struct {
	Prop string
	Name string
	// Body is explored over all its schedules and environment choices within
	// Bounds (one pass per entry, each a deviation budget).
	Body   func()
	Opts   vrt.Opts
	Bounds []int
	// RaceBounds: the passes run in the race-detector build.
	RaceBounds []int
	// Bulk enumerates inputs (Body nil).
	Bulk func(b *B)
	// BulkRace: the bulk space is also run in the race-detector build.
	BulkRace bool
	// End judges how an execution ended; nil accepts only normal termination.
	End func(r *vrt.Result) string
	// Shards is the number of pieces a bulk space is split into (default 8).
	Shards int
	// Note is written to the evidence.
	Note string
	// Note on what finishing means: executions that hit the step horizon are
	// violations unless LaxHorizon.
	LaxHorizon bool
}

var registry = map[string]func(thorough bool) []*Scn{}

func reg(prop string, f func(thorough bool) []*Scn) {
	old := registry[prop]
	registry[prop] = func(t bool) []*Scn {
		var r []*Scn
		if old != nil {
			r = old(t)
		}
		for _, s := range f(t) {
			s.Prop = prop
			r = append(r, s)
		}
		return r
	}
}

// ---- shared memory between the coordinator and its workers --------------------

const (
	tabWords  = 1 << 24
	pageWords = 1 << 10 // per worker
	maxWork   = 16
)

// layout: [ctl page][worker pages...][table]
type shared struct {
	mem []uint64
}

func mapShared(path string) *shared {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	n := (pageWords*(maxWork+1) + tabWords) * 8
	if err := f.Truncate(int64(n)); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return &shared{unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), n/8)}
}

func (s *shared) hungry() *uint64 { return &s.mem[0] }
func (s *shared) page(w int) []uint64 {
	return s.mem[pageWords*(w+1) : pageWords*(w+2)]
}
func (s *shared) table() []uint64 { return s.mem[pageWords*(maxWork+1):] }

// page words: 0 heartbeat, 1 kind (0 idle, 1 explore, 2 bulk), 2 scenario, 3 case / prefix length, 4.. choices

// ---- executing one schedule -----------------------------------------------------

func resetShims() {
	vfmt.Sink = nil
	if os.Getenv("VMC_LOG") != "" {
		vfmt.Sink = func(s string) { os.Stderr.WriteString(s) }
	}
	vlumber.Sink, vlumber.Kept = nil, nil
	vrt.MapOrder = nil
	vos.Real = false
}

// judge turns a result into a violation message ("" if fine).
func judge(s *Scn, r *vrt.Result) string {
	if r.Races > 0 {
		return fmt.Sprintf("data race (%d reports)", r.Races)
	}
	switch r.Outcome {
	case vrt.OutPruned, vrt.OutNondet:
		return ""
	case vrt.OutViolation:
		return r.Msg
	}
	if s != nil && s.End != nil {
		return s.End(r)
	}
	switch r.Outcome {
	case vrt.OutDone:
		return ""
	case vrt.OutHorizon:
		if s != nil && s.LaxHorizon {
			return ""
		}
	}
	return r.OutcomeName() + ": " + r.Msg
}

func runOnce(s *Scn, o vrt.Opts, prefix []vrt.Dec, cache *vrt.Cache) *vrt.Result {
	resetShims()
	return vrt.Run(o, prefix, cache, s.Body)
}

// ---- bulk spaces ------------------------------------------------------------------

// B enumerates the cases of a bulk space that belong to this shard.
type B struct {
	s         *Scn
	shard, of uint64
	n         uint64 // cases seen
	only      int64
	page      []uint64
	ran       uint64
	steps     uint64
	states    uint64
	schedules uint64
	calls     uint64
	viol      func(id uint64, msg string)
	stop      bool
	deadline  time.Time
	timedOut  bool
	tick      int
	lastMsg   string
	sample    []string
}

func (b *B) take() bool {
	id := b.n
	b.n++
	if b.stop {
		return false
	}
	if b.only >= 0 {
		return id == uint64(b.only)
	}
	return id%b.of == b.shard
}

// Do runs one case; f returns a description of what is wrong, or "".
func (b *B) Do(f func() string) {
	if !b.take() {
		return
	}
	id := b.n - 1
	b.page[3] = id
	b.page[0]++
	b.ran++
	if b.tick++; b.tick&255 == 0 && time.Now().After(b.deadline) {
		b.stop, b.timedOut = true, true
		return
	}
	if m := guarded(f); m != "" {
		b.viol(id, m)
	}
}

// Sample notes a few of the cases for the evidence.
func (b *B) Sample(f string, a ...interface{}) {
	if len(b.sample) < 3 {
		b.sample = append(b.sample, fmt.Sprintf(f, a...))
	}
}

// Calls counts applications of the code under test beyond one per case.
func (b *B) Calls(n int) { b.calls += uint64(n) }

// Stopped reports that the time is up or a violation was found.
func (b *B) Stopped() bool { return b.stop }

func guarded(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %s\n%s", panicStr(r), shortStack(debug.Stack()))
		}
	}()
	return f()
}

func panicStr(r interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", r)
		}
	}()
	s = fmt.Sprint(r)
	if len(s) > 300 {
		s = s[:300]
	}
	return
}

func shortStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "github.com/GalaIO") && !strings.Contains(l, "/zz/") {
			out = append(out, l)
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Exec runs body once under control with default scheduling and choices.
func (b *B) Exec(o vrt.Opts, body func()) string {
	resetShims()
	r := vrt.Run(o, nil, nil, body)
	b.schedules++
	b.steps += uint64(r.Steps)
	return judge(&Scn{LaxHorizon: false}, r)
}

// Explore runs body over all its schedules and choices within o.Bound.
func (b *B) Explore(o vrt.Opts, body func()) string {
	cache := vrt.NewCache(make([]uint64, 1<<14), 0)
	s := &Scn{Body: body, Opts: o}
	var prefix []vrt.Dec
	for {
		r := runOnce(s, o, prefix, cache)
		b.schedules++
		b.steps += uint64(r.Steps)
		b.page[0]++
		if m := judge(s, r); m != "" {
			b.states += uint64(cache.New)
			return m + "\nschedule " + choicesOf(r.Trace)
		}
		if prefix = nextPrefix(r.Trace, 0, o.Bound); prefix == nil {
			break
		}
		if time.Now().After(b.deadline) {
			b.stop, b.timedOut = true, true
			break
		}
	}
	b.states += uint64(cache.New)
	return ""
}

func choicesOf(tr []vrt.Dec) string {
	var s []string
	for i, d := range tr {
		if d.C != 0 {
			s = append(s, fmt.Sprintf("%d:%d", i, d.C))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// nextPrefix is the next unexplored alternative of the deepest decision at or after base.
func nextPrefix(tr []vrt.Dec, base, bound int) []vrt.Dec {
	for i := len(tr) - 1; i >= base; i-- {
		if d, ok := nextAlt(tr[i], bound); ok {
			p := append([]vrt.Dec(nil), tr[:i]...)
			return append(p, d)
		}
	}
	return nil
}

func nextAlt(d vrt.Dec, bound int) (vrt.Dec, bool) {
	for c := d.C + 1; c < d.N; c++ {
		cost := 0
		if d.Cost != nil {
			cost = int(d.Cost[c])
		}
		if d.Base+cost <= bound {
			d.C = c
			return d, true
		}
	}
	return d, false
}
