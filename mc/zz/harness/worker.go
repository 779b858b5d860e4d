package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// task is a piece of work handed to a worker.
type task struct {
	Scn    int
	Bound  int
	Pass   int
	Trace  []vrt.Dec // explored so far
	Base   int       // alternatives of decisions at or after Base remain
	Fresh  bool      // run Trace itself first
	Shard  int       // bulk
	Of     int
	Sample bool
}

// report is what a worker says.
type report struct {
	Kind  string // split, done, viol
	Task  *task
	Stats stats
	Msg   string
	Trace []vrt.Dec
	Case  int64
	Cost  int
	Log   []string
}

type stats struct {
	Runs, Complete, Pruned, Nondet, Steps int64
	States, Hits                          int64
	Cases, Calls                          int64
	MaxDepth                              int64
	TimedOut                              bool
	TabFull                               bool
	Cost                                  [8]int64
	Samples                               []string
}

const slice = 1500 * time.Millisecond

func worker(prop string, thorough bool, id int, shm string, deadline time.Time) {
	sh := mapShared(shm)
	page := sh.page(id)
	scns := registry[prop](thorough)
	in := bufio.NewReader(os.Stdin)
	dec := json.NewDecoder(in)
	out := os.Stdout
	os.Stdout = os.Stderr
	enc := json.NewEncoder(out)
	for {
		var t task
		if err := dec.Decode(&t); err != nil {
			return
		}
		s := scns[t.Scn]
		page[2] = uint64(t.Scn)
		if t.Sample {
			o := s.Opts
			o.Trace = true
			o.Bound = t.Bound
			page[1], page[3] = 1, 0
			r := runOnce(s, o, nil, nil)
			page[1] = 0
			enc.Encode(report{Kind: "done", Task: &t, Log: r.Log})
			continue
		}
		if s.Bulk != nil {
			doBulk(s, &t, page, deadline, enc)
		} else {
			doExplore(s, &t, sh, page, deadline, enc)
		}
		page[1] = 0
	}
}

func doBulk(s *Scn, t *task, page []uint64, deadline time.Time, enc *json.Encoder) {
	page[3] = 0
	page[1] = 2
	nviol := 0
	b := &B{s: s, shard: uint64(t.Shard), of: uint64(t.Of), only: -1, page: page, deadline: deadline}
	b.viol = func(id uint64, msg string) {
		enc.Encode(report{Kind: "viol", Task: t, Msg: msg, Case: int64(id)})
		if nviol++; nviol >= 3 {
			b.stop = true
		}
	}
	resetShims()
	races0 := vrt.RaceErrors()
	s.Bulk(b)
	if n := vrt.RaceErrors() - races0; n > 0 {
		enc.Encode(report{Kind: "viol", Task: t, Msg: "data race", Case: int64(page[3])})
	}
	st := stats{Runs: int64(b.schedules), Complete: int64(b.ran), Steps: int64(b.steps + b.calls), States: int64(b.states), Cases: int64(b.ran), Calls: int64(b.calls), TimedOut: b.timedOut, Samples: b.sample}
	if b.schedules > 0 {
		st.Complete = int64(b.schedules)
	}
	enc.Encode(report{Kind: "done", Task: t, Stats: st})
}

var warm = map[int]bool{}

func doExplore(s *Scn, t *task, sh *shared, page []uint64, deadline time.Time, enc *json.Encoder) {
	var st stats
	cache := vrt.NewCache(sh.table(), vrt.HashStr(fmt.Sprint(s.Name, vrt.RaceEnabled)))
	o := s.Opts
	o.Bound = t.Bound
	start := time.Now()
	tr, base := t.Trace, t.Base
	prefix := tr
	if !t.Fresh {
		prefix = nextPrefix(tr, base, t.Bound)
	}
	lastSplit := start
	nviol := 0
	flush := func() {
		st.States, st.Hits, st.TabFull = int64(cache.New), int64(cache.Hits), cache.Full
		enc.Encode(report{Kind: "done", Task: t, Stats: st})
	}
	page[1] = 1
	if !warm[t.Scn] {
		// a first execution may differ (packages that are not reinitialised)
		warm[t.Scn] = true
		page[0]++
		page[3] = 0
		if r := runOnce(s, o, nil, nil); r.Races > 0 {
			enc.Encode(report{Kind: "viol", Task: t, Msg: judge(s, r), Trace: r.Trace, Case: -1, Cost: r.Cost})
		}
	}
	for prefix != nil || t.Fresh && st.Runs == 0 {
		page[0]++
		n := len(prefix)
		page[3] = uint64(n)
		for i := 0; i < n && i < pageWords-8; i++ {
			page[4+i] = uint64(prefix[i].C)
		}
		r := runOnce(s, o, prefix, cache)
		st.Runs++
		st.Steps += int64(r.Steps)
		switch r.Outcome {
		case vrt.OutPruned:
			st.Pruned++
		case vrt.OutNondet:
			st.Nondet++
			// take the choices without insisting on the same states; else go on with the next alternative
			for i := range prefix {
				prefix[i].Key = 0
			}
			if r2 := runOnce(s, o, prefix, cache); r2.Outcome != vrt.OutNondet {
				r = r2
			} else {
				r.Trace = prefix
			}
		default:
			st.Complete++
			if r.Cost < len(st.Cost) {
				st.Cost[r.Cost]++
			}
		}
		if d := int64(len(r.Trace)); d > st.MaxDepth {
			st.MaxDepth = d
		}
		if m := judge(s, r); m != "" {
			enc.Encode(report{Kind: "viol", Task: t, Msg: m, Trace: r.Trace, Case: -1, Cost: r.Cost})
			if nviol++; nviol >= 3 {
				break
			}
		}
		tr = r.Trace
		if len(tr) < base { // replay diverged
			break
		}
		if st.Runs&7 == 0 || r.Steps > 2000 {
			now := time.Now()
			if now.After(deadline) {
				st.TimedOut = true
				break
			}
			if now.Sub(start) > slice {
				if nextPrefix(tr, base, t.Bound) != nil {
					enc.Encode(report{Kind: "split", Task: &task{Scn: t.Scn, Bound: t.Bound, Pass: t.Pass, Trace: tr, Base: base}})
				}
				break
			}
			if atomic.LoadUint64(sh.hungry()) > 0 && now.Sub(lastSplit) > 2*time.Millisecond {
				lastSplit = now
				for i := base; i < len(tr); i++ {
					if _, ok := nextAlt(tr[i], t.Bound); ok {
						enc.Encode(report{Kind: "split", Task: &task{Scn: t.Scn, Bound: t.Bound, Pass: t.Pass, Trace: append([]vrt.Dec(nil), tr[:i+1]...), Base: i}})
						base = i + 1
						break
					}
				}
			}
		}
		prefix = nextPrefix(tr, base, t.Bound)
	}
	flush()
}
