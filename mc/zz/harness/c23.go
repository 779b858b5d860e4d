package main

import (
	"os"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vsignal"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// down observes one shutdown. Fixed-size tables only (race build).
type down struct {
	status    func() misc.ShutdownStatus // nil: the default context, whose status is not exposed
	triggered bool
	returned  bool
	n         int
	before    [304]bool // registration returned before the trigger
	tried     [304]bool // registration began
	starts    [304]int
	ends      [304]int
	began     [304]int64
	saw       [304]int
	live      int
	most      int
}

// cleanup kinds: 0 instant, 1 takes a second, 2 yields, 3 waits until cleanup i+1 has started, 4 never returns
func (d *down) clean(i, kind int) misc.CleanFunc {
	return func() {
		vrt.HistOp(uint64(i)*100 + 1)
		if !d.triggered {
			vrt.Fail("cleanup %d runs although nothing asked for shutdown", i)
		}
		d.starts[i]++
		if d.starts[i] > 1 {
			vrt.Fail("cleanup %d starts a second time", i)
		}
		d.live++
		if d.live > d.most {
			d.most = d.live
		}
		d.began[i] = int64(vrt.Elapsed())
		if d.status != nil {
			d.saw[i] = int(d.status())
			if d.saw[i] == int(misc.Running) {
				vrt.Fail("cleanup %d sees status %d", i, d.saw[i])
			}
			if d.saw[i] == int(misc.Shutdowned) && !d.returned && vrt.Elapsed() < time.Second {
				// allowed only when the timeout has passed already
				vrt.HistOp(uint64(i)*100 + 9)
			}
		}
		switch kind {
		case 1:
			vtime.Sleep(time.Second)
		case 2:
			vrt.Point("cleanup")
		case 3:
			vrt.Block("waits for the next cleanup", func() bool { return d.starts[i+1] > 0 })
		case 4:
			vrt.Block("never returns", func() bool { return false })
		}
		vrt.HistOp(uint64(i)*100 + 2)
		d.live--
		d.ends[i]++
	}
}

// api is either an own shutdown context or the process-wide one.
type api struct {
	clean  func(...misc.CleanFunc)
	wait   func(time.Duration)
	cancel func()
}

func (d *down) open(own bool) api {
	ctx, cancel := vctx.WithCancel(vctx.Background())
	if own {
		s := misc.WithShutdownContext(ctx)
		d.status = s.Status
		if s.Status() != misc.Running {
			vrt.Fail("status %d before anything happened", s.Status())
		}
		return api{s.Clean, s.WaitShutdown, cancel}
	}
	misc.InitShutdownCtx(ctx)
	return api{misc.RegisterShutDownClean, misc.Wait4Shutdown, cancel}
}

// triggers: 0 cancel, 1 SIGINT, 2 SIGTERM, 3 cancel and SIGTERM, 4 SIGINT twice
func (d *down) trigger(a api, how int) {
	d.triggered = true
	vrt.HistOp(50000 + uint64(how))
	switch how {
	case 0:
		a.cancel()
	case 1:
		vsignal.Deliver(os.Interrupt)
	case 2:
		vsignal.Deliver(syscall.SIGTERM)
	case 3:
		a.cancel()
		vsignal.Deliver(syscall.SIGTERM)
	case 4:
		vsignal.Deliver(syscall.SIGINT)
		vsignal.Deliver(syscall.SIGINT)
	}
}

func (d *down) register(a api, i int, kinds ...int) {
	var fs []misc.CleanFunc
	for j, k := range kinds {
		fs = append(fs, d.clean(i+j, k))
		d.tried[i+j] = true
	}
	vrt.HistOp(60000 + uint64(i))
	a.clean(fs...)
	vrt.HistOp(61000 + uint64(i))
	for j := range kinds {
		d.before[i+j] = !d.triggered
	}
}

// settled checks the final state once nothing can move any more.
func (d *down) settled() {
	vrt.WaitQuiet()
	if !d.returned {
		vrt.Fail("the wait does not return")
	}
	for i := 0; i < d.n; i++ {
		if d.before[i] && d.starts[i] != 1 {
			vrt.Fail("cleanup %d, registered before shutdown, was started %d times", i, d.starts[i])
		}
		if !d.tried[i] && d.starts[i] != 0 {
			vrt.Fail("cleanup %d was never registered but ran", i)
		}
	}
	if d.status != nil && d.status() != misc.Shutdowned {
		vrt.Fail("status %d after shutdown", d.status())
	}
}

func (d *down) waiter(a api, timeout time.Duration) func() {
	return func() {
		vrt.HistOp(70000)
		a.wait(timeout)
		vrt.HistOp(70001)
		d.returned = true
		if !d.triggered {
			vrt.Fail("the wait returns although nothing asked for shutdown")
		}
		if d.status != nil && d.status() != misc.Shutdowned {
			vrt.Fail("status %d when the wait returns", d.status())
		}
	}
}

func init() {
	reg("C23", func(thorough bool) []*Scn {
		shapes := [][][]int{ // cleanups per registration call, with their kinds
			{}, {{0}}, {{1, 0}}, {{2}, {0}}, {{3, 0}}, {{3}, {3, 0}}, {{0}, {1}, {2}}, {{0, 0, 0}, {}, {2}},
		}
		total := func(s [][]int) (n int) {
			for _, k := range s {
				n += len(k)
			}
			return
		}
		registered := func(how []int) func() {
			return func() {
				fresh()
				d := &down{}
				a := d.open(vrt.Choose(2) == 0)
				s := shapes[vrt.Choose(len(shapes))]
				d.n = total(s)
				at := 0
				for _, k := range s {
					d.register(a, at, k...)
					at += len(k)
				}
				h := how[vrt.Choose(len(how))]
				threads(d.waiter(a, time.Minute), func() { d.trigger(a, h) })
				d.settled()
				if vrt.Elapsed() < time.Minute {
					for i := 0; i < d.n; i++ {
						if d.ends[i] != 1 {
							vrt.Fail("the wait is over before its timeout although cleanup %d has not finished", i)
						}
					}
				}
			}
		}
		// nothing happens before the trigger, whatever else arrives
		untriggered := func() {
			fresh()
			d := &down{n: 2}
			a := d.open(vrt.Choose(2) == 0)
			d.register(a, 0, 0, 1)
			k := vrt.Choose(4)
			w := vrt.GoNamed("wait", d.waiter(a, time.Second))
			switch k {
			case 1:
				vsignal.Deliver(syscall.SIGHUP)
			case 2:
				vsignal.Deliver(syscall.SIGUSR1)
				vsignal.Deliver(syscall.SIGCHLD)
			case 3:
				other, cancel := vctx.WithCancel(vctx.Background())
				misc.WithShutdownContext(other)
				cancel()
			}
			vtime.Sleep(time.Hour)
			vrt.WaitIdle()
			if w.Done() || d.starts[0]+d.starts[1] > 0 {
				vrt.Fail("shutdown began without being asked for")
			}
			if d.status != nil && d.status() != misc.Running {
				vrt.Fail("status %d although nothing asked for shutdown", d.status())
			}
			d.trigger(a, vrt.Choose(5))
			join(w)
			d.settled()
		}
		// registrations concurrent with the trigger; a status poller
		racing := func(poll bool) func() {
			return func() {
				fresh()
				d := &down{n: 4}
				a := d.open(poll || vrt.Choose(2) == 0)
				d.register(a, 0, 0)
				h := vrt.Choose(2)
				fs := []func(){
					d.waiter(a, time.Minute),
					func() { d.trigger(a, h) },
					func() { d.register(a, 1, 0) },
				}
				if poll {
					fs = append(fs, func() {
						last := 0
						for i := 0; i < 3; i++ {
							s := int(d.status())
							vrt.HistOp(80000 + uint64(s))
							if s < last {
								vrt.Fail("status goes from %d back to %d", last, s)
							}
							if s > 0 && !d.triggered {
								vrt.Fail("status %d although nothing asked for shutdown", s)
							}
							last = s
						}
					})
				} else {
					fs = append(fs, func() { d.register(a, 2, 2, 0) })
				}
				threads(fs...)
				d.settled()
			}
		}
		// the wait takes exactly as long as needed (clock moves only when everything is idle)
		timing := func() {
			fresh()
			d := &down{}
			a := d.open(vrt.Choose(2) == 0)
			sets := [][]int{{}, {0}, {1}, {1, 1}, {4}, {4, 0}, {1, 4, 0}, {3, 1}, {3, 4}, {0, 1, 3, 1}}
			needs := []time.Duration{0, 0, time.Second, time.Second, -1, -1, -1, time.Second, -1, time.Second}
			x := vrt.Choose(len(sets))
			d.n = len(sets[x])
			d.register(a, 0, sets[x]...)
			timeouts := []time.Duration{0, 300 * time.Millisecond, 5 * time.Second, time.Hour}
			to := timeouts[vrt.Choose(len(timeouts))]
			h := vrt.Choose(5)
			early := vrt.Choose(2) == 1
			if early {
				d.trigger(a, h)
			}
			w := vrt.GoNamed("wait", d.waiter(a, to))
			if !early {
				vtime.Sleep(10 * time.Minute)
				vrt.WaitIdle()
				d.trigger(a, h)
			}
			at := vrt.Elapsed()
			join(w)
			took := vrt.Elapsed() - at
			want := needs[x]
			if want < 0 || want > to {
				want = to
			}
			if took != want {
				vrt.Fail("cleanups %v, timeout %v: the wait took %v, want %v", sets[x], to, took, want)
			}
			if want < to || to > time.Second {
				for i := 0; i < d.n; i++ {
					if d.starts[i] == 1 && d.began[i] != int64(at) {
						vrt.Fail("cleanup %d started %v after the trigger", i, time.Duration(d.began[i])-at)
					}
				}
			}
			if d.status != nil && to > 0 {
				for i := 0; i < d.n; i++ {
					if d.starts[i] == 1 && d.saw[i] != int(misc.Shutdowning) {
						vrt.Fail("cleanup %d sees status %d", i, d.saw[i])
					}
				}
			}
			d.settled()
		}
		// many cleanups
		many := func(b *B) {
			ns := []int{4, 5, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 256, 300}
			if thorough {
				ns = nil
				for n := 4; n <= 300; n++ {
					ns = append(ns, n)
				}
			}
			for _, n := range ns {
				for _, per := range []int{1, 2, 3, 7, n} { // cleanups per call
					for v := 0; v < 4; v++ {
						for h := 0; h < 5; h++ {
							for own := 0; own < 2; own++ {
								n, per, v, h, own := n, per, v, h, own
								b.Do(func() string {
									return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}, func() {
										fresh()
										d := &down{n: n}
										a := d.open(own == 1)
										for at := 0; at < n; at += per {
											var ks []int
											for i := at; i < at+per && i < n; i++ {
												k := [][]int{{0}, {1}, {3}, {0, 1, 2}}[v]
												x := k[i%len(k)]
												if i == n-1 {
													x = 0
												}
												ks = append(ks, x)
											}
											d.register(a, at, ks...)
										}
										var took time.Duration
										threads(func() {
											d.waiter(a, time.Minute)()
											took = vrt.Elapsed()
										}, func() { d.trigger(a, h) })
										if took > 2*time.Second {
											vrt.Fail("%d cleanups, %d at a time, take a second, the wait %v", n, per, took)
										}
										d.settled()
										for i := 0; i < n; i++ {
											if d.ends[i] != 1 {
												vrt.Fail("the wait is over before its timeout although cleanup %d of %d has not finished", i, n)
											}
										}
									})
								})
							}
						}
					}
				}
			}
		}
		// whatever kind of context ends, and however
		contexts := func(b *B) {
			sets := [][]int{{}, {1}, {4, 0}, {1, 4, 0}, {3, 1}}
			needs := []time.Duration{0, time.Second, -1, -1, time.Second}
			for kind := range ctxKinds {
				for x := range sets {
					for _, to := range []time.Duration{0, 300 * time.Millisecond, 5 * time.Second, time.Hour} {
						for own := 0; own < 2; own++ {
							kind, x, to, own := kind, x, to, own
							b.Do(func() string {
								return b.Exec(vrt.Opts{NoEarly: true}, func() {
									fresh()
									d := &down{n: len(sets[x]), triggered: true}
									ctx, end, after := ctxKinds[kind].mk()
									a := api{misc.RegisterShutDownClean, misc.Wait4Shutdown, nil}
									if own == 1 {
										s := misc.WithShutdownContext(ctx)
										d.status = s.Status
										a = api{s.Clean, s.WaitShutdown, nil}
									} else {
										misc.InitShutdownCtx(ctx)
									}
									d.register(a, 0, sets[x]...)
									for i := range sets[x] {
										d.before[i] = true
									}
									w := vrt.GoNamed("wait", d.waiter(a, to))
									if end != nil {
										vtime.Sleep(after)
										vrt.WaitIdle()
										if d.returned {
											vrt.Fail("%s: the wait returns although the context has not ended", ctxKinds[kind].name)
										}
										end()
									}
									join(w)
									took := vrt.Elapsed() - after
									want := needs[x]
									if want < 0 || want > to {
										want = to
									}
									if took != want {
										vrt.Fail("context ended by %s, cleanups %v, timeout %v: the wait took %v, want %v", ctxKinds[kind].name, sets[x], to, took, want)
									}
									d.settled()
								})
							})
						}
					}
				}
			}
		}
		o := vrt.Opts{DelayAll: true}
		b := []int{3}
		if thorough {
			b = []int{3, 4}
		}
		s := []*Scn{
			{Name: "registered before the trigger", Body: registered([]int{0, 1, 2, 3, 4}), Opts: o, Bounds: b, RaceBounds: []int{1}},
			{Name: "no trigger", Body: untriggered, Opts: o, Bounds: []int{1}, RaceBounds: []int{0}},
			{Name: "registering during shutdown", Body: racing(false), Opts: o, Bounds: b, RaceBounds: []int{2}},
			{Name: "status during shutdown", Body: racing(true), Opts: o, Bounds: b, RaceBounds: []int{2}},
			{Name: "times", Body: timing, Opts: vrt.Opts{NoEarly: true, DelayAll: true}, Bounds: []int{1}},
			{Name: "many cleanups", Bulk: many},
			{Name: "every way a context ends", Bulk: contexts},
		}
		if thorough {
			s = append(s, &Scn{Name: "registering during shutdown, all orders at blocking points", Body: racing(false), Bounds: []int{1, 2}, RaceBounds: []int{1}},
				&Scn{Name: "times, 2 deviations", Body: timing, Opts: vrt.Opts{NoEarly: true, DelayAll: true}, Bounds: []int{2}})
		}
		return s
	})
}
