package main

import (
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// poolRun observes the tasks of one pool. Fixed-size tables: no map writes or
// slice growth shared between threads (they would show up in the race build).
type poolRun struct {
	size    int
	n       int
	runs    [640]int
	state   [640]int // 0 not submitted, 1 being submitted, 2 accepted, 3 refused
	started [640]int64
	ended   [640]int64
	order   [640]int
	norder  int
	active  int
	done    int
}

// task kinds: 0 returns at once, 1 takes a second, 2 yields in the middle, 3 takes long
func (r *poolRun) task(id, kind int) misc.AsyncWorkFunc {
	return func() {
		vrt.HistOp(uint64(id)*10 + 1)
		r.runs[id]++
		if r.runs[id] > 1 {
			vrt.Fail("task %d runs a second time", id)
		}
		r.order[r.norder] = id
		r.norder++
		r.active++
		if r.active > r.size {
			vrt.Fail("%d tasks run at the same time in a pool of %d", r.active, r.size)
		}
		r.started[id] = int64(vrt.Elapsed())
		switch kind {
		case 1:
			vtime.Sleep(time.Second)
		case 2:
			vrt.Point("task")
		case 3:
			vtime.Sleep(time.Minute)
		}
		vrt.HistOp(uint64(id)*10 + 2)
		r.active--
		r.done++
		r.ended[id] = int64(vrt.Elapsed())
	}
}

func (r *poolRun) submit(p *misc.WorkPool, id, kind int) {
	r.state[id] = 1
	vrt.HistOp(uint64(id)*10 + 3)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.state[id] = 3
			}
		}()
		p.AsyncSubmit(r.task(id, kind))
		r.state[id] = 2
	}()
	vrt.HistOp(uint64(id)*10 + 4 + uint64(r.state[id]))
}

func (r *poolRun) settled() {
	vrt.WaitQuiet()
	for id := 0; id < r.n; id++ {
		switch {
		case r.state[id] == 1:
			vrt.Fail("submission of task %d never returned", id)
		case r.state[id] == 2 && r.runs[id] != 1:
			vrt.Fail("accepted task %d was run %d times", id, r.runs[id])
		case r.state[id] != 2 && r.runs[id] != 0:
			vrt.Fail("refused task %d was run", id)
		case r.state[id] == 2 && r.ended[id] == 0 && r.done < r.norder:
			vrt.Fail("task %d never finished", id)
		}
	}
}

func noWorkers(what string) {
	if n := vrt.Live(); n > 1 {
		vrt.Fail("%s: %d threads are left behind: %s", what, n-1, vrt.LiveNames())
	}
}

func refuses(p *misc.WorkPool, when string) {
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		p.AsyncSubmit(func() {})
	}()
	if ok {
		vrt.Fail("submission accepted %s", when)
	}
}

func init() {
	reg("C22", func(thorough bool) []*Scn {
		// running pool: everything submitted is run without help
		running := func(sizes []int, submitters, per int, kinds []int) func() {
			return func() {
				fresh()
				r := &poolRun{size: sizes[vrt.Choose(len(sizes))], n: submitters * per}
				p := misc.NewWorkPool(vctx.Background(), "pool", r.size)
				sc := scripts(submitters, per, len(kinds))
				var fs []func()
				for s := 0; s < submitters; s++ {
					s := s
					fs = append(fs, func() {
						for i, k := range sc[s] {
							r.submit(p, s*per+i, kinds[k])
						}
					})
				}
				threads(fs...)
				r.settled()
				for id := 0; id < r.n; id++ {
					if r.state[id] != 2 {
						vrt.Fail("task %d refused by a running pool", id)
					}
				}
				if submitters == 1 && r.size == 1 {
					for i := 0; i < r.norder; i++ {
						if r.order[i] != i {
							vrt.Fail("one submitter, one worker: run order %v", r.order[:r.norder])
						}
					}
				}
			}
		}
		// a free worker picks a task up although the others are busy for good
		free := func() {
			fresh()
			size := 2 + vrt.Choose(2)
			r := &poolRun{size: size, n: size + 1}
			p := misc.NewWorkPool(vctx.Background(), "pool", size)
			hold := vrt.NewChan[bool](0)
			for i := 0; i < size-1; i++ {
				p.AsyncSubmit(func() { vrt.Recv(hold) })
			}
			r.submit(p, 0, 2)
			vrt.WaitQuiet()
			if r.runs[0] != 1 {
				vrt.Fail("pool of %d: %d workers busy, the task does not start", size, size-1)
			}
			r.submit(p, 1, 0)
			vrt.WaitQuiet()
			if r.runs[1] != 1 {
				vrt.Fail("pool of %d: %d workers busy, the second task does not start", size, size-1)
			}
			vrt.Close(hold)
			vrt.WaitQuiet()
		}
		// closers: 0 Shutdown, 1 cancel, 2 both, 3 two Shutdowns, 4 Shutdown(0)
		closing := func(sizes []int, submitters, per int, kinds []int, closers []int) func() {
			return func() {
				fresh()
				r := &poolRun{size: sizes[vrt.Choose(len(sizes))], n: submitters * per}
				ctx, cancel := vctx.WithCancel(vctx.Background())
				p := misc.NewWorkPool(ctx, "pool", r.size)
				how := closers[vrt.Choose(len(closers))]
				sc := scripts(submitters, per, len(kinds))
				var fs []func()
				for s := 0; s < submitters; s++ {
					s := s
					fs = append(fs, func() {
						for i, k := range sc[s] {
							r.submit(p, s*per+i, kinds[k])
						}
					})
				}
				down := func(d time.Duration) func() {
					return func() {
						p.Shutdown(d)
						vrt.HistOp(777)
					}
				}
				switch how {
				case 0:
					fs = append(fs, func() {
						down(5 * time.Second)()
						refuses(p, "after Shutdown returned")
					})
				case 1:
					fs = append(fs, func() { cancel() })
				case 2:
					fs = append(fs, func() { cancel() }, down(5*time.Second))
				case 3:
					fs = append(fs, down(5*time.Second), down(time.Second))
				case 4:
					fs = append(fs, down(0))
				}
				threads(fs...)
				r.settled()
				refuses(p, "after the pool was shut down")
				cancel()
				vrt.WaitQuiet()
				noWorkers("pool shut down, all tasks finished")
			}
		}
		// the context ends before or while the pool is made
		born := func(sizes []int, nt int) func() {
			return func() {
				fresh()
				r := &poolRun{size: sizes[vrt.Choose(len(sizes))], n: nt}
				ctx, cancel := vctx.WithCancel(vctx.Background())
				how := vrt.Choose(4)
				var p *misc.WorkPool
				mk := func() {
					p = misc.NewWorkPool(ctx, "pool", r.size)
					for i := 0; i < nt; i++ {
						r.submit(p, i, 2)
					}
				}
				switch how {
				case 0:
					cancel()
					mk()
				case 1:
					threads(mk, func() { cancel() })
				case 2:
					c2, stop := vctx.WithTimeout(ctx, time.Second)
					ctx = c2
					threads(mk)
					vtime.Sleep(2 * time.Second)
					stop()
				case 3:
					c2, stop := vctx.WithTimeout(ctx, 0)
					ctx = c2
					threads(mk)
					stop()
				}
				r.settled()
				if p.Status() != misc.Shutdowned {
					vrt.Fail("the context is done but the pool's status is %d", p.Status())
				}
				refuses(p, "after cancellation")
				cancel()
				vrt.WaitQuiet()
				noWorkers("pool shut down, all tasks finished")
			}
		}
		// a task that does not end holds up neither submitters nor the shutdown
		stuck := func(nt int) func() {
			return func() {
				fresh()
				r := &poolRun{size: 1 + vrt.Choose(2), n: nt}
				ctx, cancel := vctx.WithCancel(vctx.Background())
				p := misc.NewWorkPool(ctx, "pool", r.size)
				hold := vrt.NewChan[bool](0)
				p.AsyncSubmit(func() { vrt.Recv(hold) })
				vrt.WaitQuiet()
				how := vrt.Choose(3)
				fs := []func(){func() {
					if how != 1 {
						at := vrt.Elapsed()
						p.Shutdown(time.Second)
						if took := vrt.Elapsed() - at; how == 0 && took > time.Second {
							vrt.Fail("Shutdown(1s) took %v", took)
						}
					}
					if how != 0 {
						cancel()
					}
				}}
				for i := 0; i < nt; i++ {
					i := i
					fs = append(fs, func() {
						if nt == 1 || r.size == 2 || i == 0 {
							r.submit(p, i, 0)
						}
					})
				}
				threads(fs...)
				vtime.Sleep(10 * time.Second)
				vrt.WaitQuiet()
				if p.Status() != misc.Shutdowned {
					vrt.Fail("a task does not end: status %d long after the timeout", p.Status())
				}
				refuses(p, "after the timeout, a task has not ended")
				vrt.Close(hold)
				r.settled()
				refuses(p, "after the pool was shut down")
				cancel()
				vrt.WaitQuiet()
				noWorkers("pool shut down, all tasks finished")
			}
		}
		// exact times: nothing takes longer than it must (clock moves only when all are idle)
		timing := func() {
			fresh()
			r := &poolRun{size: 1 + vrt.Choose(2)}
			ctx, cancel := vctx.WithCancel(vctx.Background())
			p := misc.NewWorkPool(ctx, "pool", r.size)
			r.n = vrt.Choose(4)
			durs := []int{0, 1, 3}
			for i := 0; i < r.n; i++ {
				r.submit(p, i, durs[vrt.Choose(3)])
			}
			timeouts := []time.Duration{0, 500 * time.Millisecond, 1500 * time.Millisecond, 10 * time.Second, 10 * time.Minute}
			how := vrt.Choose(len(timeouts) + 1)
			wait := time.Duration(vrt.Choose(2)) * 700 * time.Millisecond
			vtime.Sleep(wait)
			vrt.WaitIdle()
			at := vrt.Elapsed()
			var took time.Duration
			var timeout time.Duration
			if how < len(timeouts) {
				timeout = timeouts[how]
				p.Shutdown(timeout)
				took = vrt.Elapsed() - at
				if p.Status() != misc.Shutdowned {
					vrt.Fail("status %d after Shutdown returned", p.Status())
				}
				refuses(p, "after Shutdown returned")
			} else {
				cancel()
				vrt.WaitIdle()
				refuses(p, "after cancellation")
			}
			doneThen := r.done
			r.settled()
			var last int64
			for i := 0; i < r.n; i++ {
				if r.ended[i] > last {
					last = r.ended[i]
				}
			}
			if how < len(timeouts) {
				need := time.Duration(last) - at
				if need < 0 {
					need = 0
				}
				switch {
				case took > timeout:
					vrt.Fail("Shutdown(%v) took %v", timeout, took)
				case took > need:
					vrt.Fail("Shutdown(%v) took %v although all tasks were done after %v", timeout, took, need)
				case took < timeout && doneThen < r.n:
					vrt.Fail("Shutdown(%v) returned after %v with %d of %d tasks done", timeout, took, doneThen, r.n)
				}
			}
			cancel()
			vrt.WaitQuiet()
			noWorkers("pool shut down, all tasks finished")
			if vrt.Elapsed() > time.Hour {
				vrt.Fail("something keeps running")
			}
		}
		// shutdown while submitters are blocked on the full queue
		full := func() {
			fresh()
			r := &poolRun{size: 1, n: 6}
			ctx, cancel := vctx.WithCancel(vctx.Background())
			p := misc.NewWorkPool(ctx, "pool", 1)
			r.submit(p, 0, 1) // busy for a second
			r.submit(p, 1, 0)
			how := vrt.Choose(3)
			threads(func() {
				r.submit(p, 2, 0)
				r.submit(p, 3, 0)
			}, func() {
				r.submit(p, 4, 1)
				r.submit(p, 5, 0)
			}, func() {
				if how != 1 {
					p.Shutdown(100 * time.Millisecond)
				}
				if how != 0 {
					cancel()
				}
			})
			r.settled()
			refuses(p, "after the pool was shut down")
			cancel()
			vrt.WaitQuiet()
			noWorkers("pool shut down, all tasks finished")
		}
		// many tasks
		many := func(b *B) {
			sizes, ns := []int{1, 2, 3, 8, 16, 64}, []int{13, 65, 130, 300, 600}
			if thorough {
				sizes, ns = []int{1, 2, 3, 4, 5, 8, 10, 16, 31, 32, 33, 64, 100, 128, 256}, []int{1, 7, 13, 33, 65, 100, 129, 257, 300, 513, 600}
			}
			for _, size := range sizes {
				for _, n := range ns {
					for subs := 1; subs <= 4; subs *= 2 {
						for how := 0; how < 4; how++ {
							size, n, subs, how := size, n, subs, how
							b.Do(func() string {
								return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}, func() {
									fresh()
									r := &poolRun{size: size, n: n}
									ctx, cancel := vctx.WithCancel(vctx.Background())
									p := misc.NewWorkPool(ctx, "pool", size)
									var fs []func()
									for k := 0; k < subs; k++ {
										k := k
										fs = append(fs, func() {
											for i := k; i < n; i += subs {
												r.submit(p, i, []int{0, 1, 2, 0, 0}[i%5])
											}
										})
									}
									switch how {
									case 0:
									case 1: // while they are being submitted
										fs = append(fs, func() {
											vtime.Sleep(1500 * time.Millisecond)
											p.Shutdown(time.Hour)
										})
									case 2:
										fs = append(fs, func() {
											vtime.Sleep(1500 * time.Millisecond)
											cancel()
										})
									}
									threads(fs...)
									if how == 3 { // with the queue as it is then
										p.Shutdown(time.Hour)
									}
									r.settled()
									for i := 0; i < n; i++ {
										if (how == 0 || how == 3) && r.state[i] != 2 {
											vrt.Fail("%d tasks from %d submitters: task %d is refused by a running pool of %d", n, subs, i, size)
										}
										if r.runs[i] > 0 && r.ended[i] == 0 && r.started[i] > 0 {
											vrt.Fail("task %d has not ended", i)
										}
									}
									if subs == 1 && size == 1 {
										for i := 1; i < r.norder; i++ {
											if r.order[i] < r.order[i-1] {
												vrt.Fail("one submitter, one worker: task %d runs after %d", r.order[i], r.order[i-1])
											}
										}
									}
									if how == 0 {
										p.Shutdown(time.Hour)
									}
									refuses(p, "after the pool was shut down")
									cancel()
									vrt.WaitQuiet()
									noWorkers("pool shut down, all tasks finished")
								})
							})
						}
					}
				}
			}
		}
		// large pools: every worker is there, and all of them end
		contexts := func(b *B) {
			for kind := range ctxKinds {
				for _, size := range []int{1, 2, 5} {
					for first := 0; first <= 6; first++ {
						for _, late := range []int{0, 1, 3} {
							for task := 0; task < 4; task++ {
								kind, size, first, late, task := kind, size, first, late, task
								b.Do(func() string {
									return b.Exec(vrt.Opts{NoEarly: true}, func() {
										fresh()
										name := ctxKinds[kind].name
										r := &poolRun{size: size, n: first + late}
										ctx, end, after := ctxKinds[kind].mk()
										p := misc.NewWorkPool(ctx, "pool", size)
										sub := vrt.GoNamed("submitter", func() {
											for i := 0; i < first; i++ {
												r.submit(p, i, task)
											}
										})
										if after > 0 {
											vtime.Sleep(after - 10*time.Millisecond)
											for i := 0; i < first; i++ {
												// a full pool makes submitters wait, it refuses none
												if r.state[i] == 3 || r.state[i] != 2 && task != 3 && after > 10*time.Second {
													vrt.Fail("pool of %d, task %d: state %d although the context (%s) has not ended", size, i, r.state[i], name)
												}
											}
											lates := vrt.GoNamed("late", func() {
												for i := first; i < r.n; i++ {
													r.submit(p, i, task)
													if r.state[i] == 3 && vrt.Elapsed() < after {
														vrt.Fail("pool of %d, task %d is refused although the context (%s) has not ended", size, i, name)
													}
												}
											})
											vtime.Sleep(10 * time.Millisecond)
											if end != nil {
												end()
											}
											join(lates)
										}
										vrt.WaitIdle()
										refuses(p, "after the context was ended by "+name)
										join(sub)
										r.settled()
										if s := p.Status(); s != misc.Shutdowned {
											vrt.Fail("context ended by %s: status %d", name, s)
										}
										noWorkers("context ended by " + name)
									})
								})
							}
						}
					}
				}
			}
		}
		large := func(b *B) {
			sizes := []int{65, 100, 129, 256, 257, 300, 500, 513, 1025, 2000}
			for _, size := range sizes {
				for how := 0; how < 3; how++ {
					for _, busy := range []int{0, 1, size - 1, size} {
						size, how, busy := size, how, busy
						b.Do(func() string {
							return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}, func() {
								fresh()
								ctx, cancel := vctx.WithCancel(vctx.Background())
								p := misc.NewWorkPool(ctx, "pool", size)
								active, done := 0, 0
								for i := 0; i < busy; i++ {
									p.AsyncSubmit(func() {
										active++
										if active > size {
											vrt.Fail("%d tasks run at the same time in a pool of %d", active, size)
										}
										vtime.Sleep(time.Second)
										active--
										done++
									})
								}
								vtime.Sleep(100 * time.Millisecond)
								if active != busy {
									vrt.Fail("%d tasks in a pool of %d: only %d run", busy, size, active)
								}
								t0 := vrt.Elapsed()
								switch how {
								case 0:
									p.Shutdown(time.Hour)
								case 1:
									cancel()
								case 2:
									threads(func() { p.Shutdown(time.Hour) }, func() { cancel() })
								}
								if how == 0 {
									want := time.Duration(0)
									if busy > 0 {
										want = 900 * time.Millisecond
									}
									if d := vrt.Elapsed() - t0; d > want {
										vrt.Fail("pool of %d, %d tasks: Shutdown returns after %v, the tasks were done after %v", size, busy, d, want)
									}
								}
								vtime.Sleep(3 * time.Second)
								if done != busy {
									vrt.Fail("%d tasks in a pool of %d: %d are run", busy, size, done)
								}
								refuses(p, "after the pool was shut down")
								cancel()
								vrt.WaitQuiet()
								noWorkers("pool shut down, all tasks finished")
							})
						})
					}
				}
			}
		}
		two := []int{1, 2}
		// with DelayAll every departure from the default schedule counts, also at blocking points
		d := vrt.Opts{DelayAll: true}
		b2 := []int{2}
		if thorough {
			b2 = []int{2, 3}
		}
		s := []*Scn{
			{Name: "running: 1 submitter x 3 tasks", Body: running(two, 1, 3, []int{0, 1, 2}), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "running: 2 submitters x 2 tasks", Body: running([]int{1, 2, 3}, 2, 2, []int{0, 2}), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "running: busy workers", Body: free, Bounds: b2, RaceBounds: []int{1}},
			{Name: "closing: 1 submitter x 2 tasks", Body: closing(two, 1, 2, []int{0, 2}, []int{0, 1, 2, 3, 4}), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "closing: 1 submitter x 1 task", Body: closing(two, 1, 1, []int{0, 2}, []int{0, 1, 2, 3, 4}), Bounds: []int{0}},
			{Name: "closing: 2 submitters x 1 task", Body: closing(two, 2, 1, []int{0, 2}, []int{0, 1, 2}), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "closing: full queue, blocked submitters", Body: full, Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "a task does not end, 1 submitter", Body: stuck(1), Opts: d, Bounds: []int{2, 3}, RaceBounds: []int{1}},
			{Name: "a task does not end, 2 submitters", Body: stuck(2), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "context done when the pool is made", Body: born(two, 2), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "times", Body: timing, Opts: vrt.Opts{NoEarly: true}, Bounds: []int{1}},
			{Name: "many tasks", Bulk: many},
			{Name: "large pools", Bulk: large},
			{Name: "every way a context ends", Bulk: contexts},
		}
		if thorough {
			s = append(s, &Scn{Name: "closing: 2 submitters x 2 tasks", Body: closing(two, 2, 2, []int{0, 2}, []int{0, 1, 2, 3}), Opts: d, Bounds: []int{1, 2}, RaceBounds: []int{1}},
				&Scn{Name: "running: 1 submitter x 3 tasks, all orders at blocking points", Body: running(two, 1, 3, []int{0, 1, 2}), Bounds: []int{1, 2}},
				&Scn{Name: "closing: 2 submitters x 1 task, all orders at blocking points", Body: closing(two, 2, 1, []int{0, 2}, []int{0, 1, 2}), Bounds: []int{1, 2}},
				&Scn{Name: "times, 2 deviations", Body: timing, Opts: vrt.Opts{NoEarly: true}, Bounds: []int{2}},
				&Scn{Name: "closing: 3 submitters x 1 task", Body: closing([]int{1, 2, 3}, 3, 1, []int{0, 1}, []int{0, 1, 2}), Opts: d, Bounds: []int{1, 2}, RaceBounds: []int{1}})
		}
		return s
	})
}
