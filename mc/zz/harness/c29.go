package main

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/cmd"
	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vhttp"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vsignal"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// program is the whole program, started like main does.
type program struct {
	c        *vnet.UDPConn
	w        *vnet.Net
	hosts    []string
	returned bool
	at       int64
	signaled int64 // time of the first signal, -1: none
	cleaned  int
	pprof    int
	// the same when main returned
	closesThen, cleanedThen int
}

type programConf struct {
	port, workers, fetchers, queue int
	hosts                          []string
	pprof                          int // 0 off, 1 on, 2 on and its port is taken
}

// loadProgram initialises every package of the program from a configuration file.
func loadProgram(pc programConf) *program {
	vos.Real = true
	fresh()
	wipe()
	put(confPath, fmt.Sprintf(`{"dht": %s, "fetchTorrent": %s, "pprof": {"NeedRun": %v}}`,
		dhtVariant(pc.port, pc.workers, pc.hosts...).json, fetchVariant(pc.queue, pc.fetchers).json, pc.pprof > 0))
	startConfig()
	krpc.VerifInit()
	peerwire.VerifInit()
	dht.VerifInit()
	cmd.VerifInit()
	vos.Real = false
	os.Args = []string{"p2pcrawler"}
	p := &program{w: vnet.World(), hosts: pc.hosts, signaled: -1, pprof: pc.pprof}
	vhttp.World().Busy = pc.pprof == 2
	vnet.World().Busy = pc.pprof == 2
	if n := len(p.w.UDP); n != 1 {
		vrt.Fail("configured for port %d: %d UDP endpoints are opened", pc.port, n)
	}
	p.c = p.w.UDP[0]
	if p.c.Laddr.Port != pc.port {
		vrt.Fail("configured for port %d: listens at %v", pc.port, p.c.Laddr)
	}
	misc.RegisterShutDownClean(func() {
		p.cleaned++
		vrt.HistOp(9001)
	})
	return p
}

func (p *program) main() {
	vrt.HistOp(9002)
	cmd.ExecuteBackgroud()
	p.returned = true
	p.closesThen, p.cleanedThen = p.c.Closes, p.cleaned
	p.at = int64(vrt.Elapsed())
	vrt.HistOp(9003)
}

func (p *program) signal(s os.Signal) {
	if p.signaled < 0 {
		p.signaled = int64(vrt.Elapsed())
	}
	vrt.HistOp(9004)
	vsignal.Deliver(s)
}

// sent splits what the program sent into bootstrap queries and the rest.
func (p *program) sent() (boot []string, rest []vnet.Pkt) {
	for _, x := range p.w.Sent {
		if d := decoded(x.Data); d["y"] == "q" {
			if d["q"] != "find_node" {
				vrt.Fail("%q is sent to %v", clip(x.Data), x.Addr)
			}
			boot = append(boot, x.Addr.String())
		} else {
			rest = append(rest, x)
		}
	}
	return
}

func (p *program) bootstrapped(what string) {
	if boot, _ := p.sent(); fmt.Sprint(boot) != fmt.Sprint(p.hosts) {
		vrt.Fail("%s: queries go to %q, the bootstrap nodes are %q", what, boot, p.hosts)
	}
}

// profiled judges the HTTP endpoints of the running program.
func (p *program) profiled(what string) {
	ls := vhttp.World().Listening
	if p.pprof == 0 && len(ls) > 0 {
		vrt.Fail("%s: profiling is off, HTTP is served at %s", what, ls[0].Addr)
	}
	if p.pprof != 1 {
		return
	}
	if len(ls) != 1 {
		vrt.Fail("%s: profiling is on, there are %d HTTP endpoints", what, len(ls))
	}
	h := ls[0].Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	for _, path := range []string{"/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/symbol"} {
		r := httptest.NewRecorder()
		h.ServeHTTP(r, httptest.NewRequest("GET", path, nil))
		if r.Code != 200 || r.Body.Len() == 0 {
			vrt.Fail("%s: profiling is on, %s returns %d and %d bytes", what, path, r.Code, r.Body.Len())
		}
	}
}

func (p *program) answered(what string, qs [][]byte, to []*net.UDPAddr) {
	_, rest := p.sent()
	id := nodeID{}
	for i, q := range qs {
		var got []vnet.Pkt
		for _, x := range rest {
			if sameAddr(x.Addr, to[i]) {
				got = append(got, x)
			}
		}
		if m := id.check(q, to[i], got); m != "" {
			vrt.Fail("%s: %s", what, m)
		}
	}
	if len(rest) != len(qs) {
		vrt.Fail("%s: %d replies to %d queries", what, len(rest), len(qs))
	}
}

func (p *program) stopped(what string, running bool) {
	if !p.returned {
		vrt.Fail("%s: the program has not ended", what)
	}
	if p.signaled < 0 {
		vrt.Fail("%s: the program ended without a signal", what)
	}
	if took := time.Duration(p.at - p.signaled); took > 5*time.Second {
		vrt.Fail("%s: the program ended %v after the signal", what, took)
	}
	if p.cleaned != 1 {
		vrt.Fail("%s: a registered cleanup ran %d times", what, p.cleaned)
	}
	// nothing happens any more once main has returned
	early := time.Duration(p.at-p.signaled) < 5*time.Second
	if early && p.cleanedThen != 1 {
		vrt.Fail("%s: a registered cleanup had run %d times when main returned", what, p.cleanedThen)
	}
	if early && running && p.closesThen != 1 {
		vrt.Fail("%s: the socket had been closed %d times when main returned", what, p.closesThen)
	}
	if running && p.c.Closes != 1 || p.c.Closes > 1 {
		vrt.Fail("%s: the socket was closed %d times", what, p.c.Closes)
	}
}

func init() {
	reg("C29", func(thorough bool) []*Scn {
		small := programConf{port: 21001, workers: 1, fetchers: 1, queue: 1}
		two := small
		two.hosts, two.workers, two.pprof = []string{"10.0.0.1:1", "10.0.0.2:2"}, 2, 1
		queries := func(first, n int) (qs [][]byte, to []*net.UDPAddr) {
			for i := 0; i < n; i++ {
				m := []string{"announce_peer", "ping", "find_node", "get_peers"}[(first+i)%4]
				qs = append(qs, query(fmt.Sprintf("t%d", i), m, misc.Dict{"id": idA, "target": idB, "info_hash": hashN(i), "token": "tok", "port": 7001}))
				to = append(to, from(i))
			}
			return
		}
		// queries come in while the program starts; then it is told to end
		start := func(pc programConf, n int) func() {
			return func() {
				p := loadProgram(pc)
				p.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) { return nil, vnet.Blackhole }
				qs, to := queries(vrt.Choose(4), n)
				vrt.GoNamed("main", p.main)
				threads(func() {
					for i, q := range qs {
						vrt.Point("peer")
						p.c.Inject(q, to[i])
					}
				})
				vrt.WaitIdle()
				if p.returned {
					vrt.Fail("the program ends by itself")
				}
				p.bootstrapped("after the start")
				p.profiled("after the start")
				p.answered("queries during the start", qs, to)
				p.signal(syscall.SIGTERM)
				vrt.WaitQuiet()
				p.stopped("SIGTERM", true)
			}
		}
		// the signal comes at any moment
		early := func(pc programConf, sigs ...os.Signal) func() {
			return func() {
				p := loadProgram(pc)
				vrt.GoNamed("main", p.main)
				threads(func() {
					for _, s := range sigs {
						p.signal(s)
					}
				})
				vrt.WaitQuiet()
				p.stopped("signal during the start", false)
				p.bootstrapped("signal during the start")
			}
		}
		// the signal comes while queries are handled
		busy := func(pc programConf, s os.Signal) func() {
			return func() {
				p := loadProgram(pc)
				vrt.GoNamed("main", p.main)
				vrt.WaitIdle()
				q := query("q0", "ping", misc.Dict{"id": idA})
				r := announce("q1", hashN(1), 7001, 1)
				p.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) { return nil, vnet.Blackhole }
				threads(func() {
					p.c.Inject(q, from(1))
					p.c.Inject(r, from(2))
				}, func() { p.signal(s) })
				vrt.WaitQuiet()
				p.stopped("signal while queries are handled", true)
				_, rest := p.sent()
				if len(rest) > 2 {
					vrt.Fail("%d replies to 2 queries", len(rest))
				}
			}
		}
		// configured ports, hosts, numbers of fetches at a time
		confs := func(b *B) {
			hosts := [][]string{nil, {"10.0.0.1:1"}, {"10.0.0.9:65535", "10.0.0.9:65535"}, {"10.0.0.1:1", "10.0.0.2:2", "10.0.0.3:3", "10.0.0.4:4", "10.0.0.5:5"}, {"[::1]:7", "10.0.0.1:6881", "[2001:db8::5]:6881"}}
			for hi, hs := range hosts {
				for _, port := range []int{1, 1024, 21000, 65535} {
					for _, f := range []int{1, 2, 3, 7} {
						for _, wq := range [][2]int{{1, 0}, {2, 1}, {3, 5}, {20, 40}} {
							for _, n := range []int{0, 1, 2, 5, 9} {
								pc := programConf{port, wq[0], f, wq[1], hs, 0}
								n, hi := n, hi
								b.Do(func() string {
									defer func() { vos.Real = false }()
									return b.Exec(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 22}, func() {
										what := fmt.Sprintf("port %d, %d workers, queue %d, %d fetchers, %d hosts, %d announces", pc.port, pc.workers, pc.queue, pc.fetchers, len(pc.hosts), n)
										p := loadProgram(pc)
										var conns []*vnet.TCPConn
										most := 0
										p.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
											c := &vnet.TCPConn{}
											live := 1
											for _, x := range conns {
												if !x.Closed {
													live++
												}
											}
											if live > most {
												most = live
											}
											conns = append(conns, c)
											return c, nil
										}
										vrt.GoNamed("main", p.main)
										vrt.WaitIdle()
										p.bootstrapped(what)
										for i := 0; i < n; i++ {
											p.c.Inject(announce(fmt.Sprint(i), hashN(i), 7000+i, 1), from(i))
										}
										vrt.WaitIdle()
										want := n
										if want > pc.fetchers {
											want = pc.fetchers
										}
										if len(conns) != want {
											vrt.Fail("%s: %d fetches at a time", what, len(conns))
										}
										if hi%2 == 0 { // later all have had their turn
											vtime.Sleep(time.Hour)
											if len(conns) != n || most > pc.fetchers {
												vrt.Fail("%s: %d fetches, up to %d at a time", what, len(conns), most)
											}
										}
										if p.returned {
											vrt.Fail("%s: the program ends by itself", what)
										}
										p.signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[n%2])
										vrt.WaitQuiet()
										p.stopped(what, true)
									})
								})
							}
						}
					}
				}
			}
		}
		// with and without profiles being served
		profiling := func(b *B) {
			for _, hs := range [][]string{nil, {"10.0.0.1:1"}, {"10.0.0.1:1", "10.0.0.2:2"}} {
				for _, wq := range [][2]int{{1, 1}, {2, 3}} {
					for pp := 0; pp < 3; pp++ {
						for n := 0; n < 6; n++ {
							for v := 0; v < 4; v++ {
								pc := programConf{21003, wq[0], 1, wq[1], hs, pp}
								n, v := n, v
								b.Do(func() string {
									defer func() { vos.Real = false }()
									return b.Exec(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 22}, func() {
										what := fmt.Sprintf("profiling %d, %d hosts, %d workers, %d queries", pc.pprof, len(pc.hosts), pc.workers, n)
										p := loadProgram(pc)
										p.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) { return nil, vnet.Blackhole }
										vrt.GoNamed("main", p.main)
										vrt.WaitIdle()
										if v%2 == 1 {
											vtime.Sleep(24 * time.Hour)
										}
										p.bootstrapped(what)
										p.profiled(what)
										qs, to := queries(v, n)
										for i, q := range qs {
											p.c.Inject(q, to[i])
										}
										vrt.WaitIdle()
										p.answered(what, qs, to)
										if p.returned {
											vrt.Fail("%s: the program ends by itself", what)
										}
										p.profiled(what)
										p.signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[v/2])
										vrt.WaitQuiet()
										p.stopped(what, true)
										if took := time.Duration(p.at - p.signaled); took != 0 {
											vrt.Fail("%s: nothing to clean, the program ended %v after the signal", what, took)
										}
									})
								})
							}
						}
					}
				}
			}
		}
		// much of everything
		crowd := func(b *B) {
			for _, hs := range []int{9, 33, 100, 300} {
				for _, f := range []int{16, 33, 64, 500} {
					for _, wq := range [][2]int{{1, 1000}, {20, 100}, {200, 1000}} {
						for _, n := range []int{40, 150, 600} {
							pc := programConf{21002, wq[0], f, wq[1], manyHosts(hs), 0}
							n := n
							b.Do(func() string {
								defer func() { vos.Real = false }()
								return b.Exec(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 24}, func() {
									what := fmt.Sprintf("%d workers, queue %d, %d fetchers, %d hosts, %d announces", pc.workers, pc.queue, pc.fetchers, len(pc.hosts), n)
									p := loadProgram(pc)
									conns := 0
									p.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
										conns++
										return &vnet.TCPConn{}, nil
									}
									vrt.GoNamed("main", p.main)
									vrt.WaitIdle()
									p.bootstrapped(what)
									for i := 0; i < n; i++ {
										p.c.Inject(announce(fmt.Sprint(i), hashN(i), 7000+i, 1), from(i))
										if i%40 == 39 { // the endpoint's own queue holds 100
											vrt.WaitIdle()
										}
									}
									vrt.WaitIdle()
									want := n
									if want > pc.fetchers {
										want = pc.fetchers
									}
									if conns != want {
										vrt.Fail("%s: %d fetches at a time", what, conns)
									}
									if p.returned {
										vrt.Fail("%s: the program ends by itself", what)
									}
									p.signal(syscall.SIGTERM)
									vrt.WaitQuiet()
									p.stopped(what, true)
								})
							})
						}
					}
				}
			}
		}
		// cleanups that take long do not hold up the end beyond the limit
		slow := func(b *B) {
			for _, ms := range []int{0, 1, 1000, 4999, 5000, 5001, 60000, -1} {
				for k := 0; k < 3; k++ {
					for wait := 0; wait < 2; wait++ {
						ms, k, wait := ms, k, wait
						b.Do(func() string {
							defer func() { vos.Real = false }()
							return b.Exec(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 20}, func() {
								what := fmt.Sprintf("%d cleanups of %d ms", k, ms)
								p := loadProgram(small)
								began := 0
								for i := 0; i < k; i++ {
									misc.RegisterShutDownClean(func() {
										began++
										if ms < 0 {
											vrt.Block("never returns", func() bool { return false })
										}
										vtime.Sleep(time.Duration(ms) * time.Millisecond)
									})
								}
								vrt.GoNamed("main", p.main)
								vrt.WaitIdle()
								if wait == 1 {
									vtime.Sleep(time.Minute)
								}
								p.signal(syscall.SIGINT)
								vtime.Sleep(10 * time.Second)
								p.stopped(what, true)
								if began != k {
									vrt.Fail("%s: %d have started", what, began)
								}
								if took := time.Duration(p.at - p.signaled); k == 0 && took != 0 || ms >= 0 && ms < 5000 && took > time.Duration(ms)*time.Millisecond {
									vrt.Fail("%s: the program ends after %v", what, took)
								}
								if k > 0 && ms >= 0 && ms < 5000 && time.Duration(p.at-p.signaled) < time.Duration(ms)*time.Millisecond {
									vrt.Fail("%s: the program ends after %v, before they have finished", what, time.Duration(p.at-p.signaled))
								}
							})
						})
					}
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true, MaxSteps: 1 << 20}
		b := []int{2}
		if thorough {
			b = []int{2, 3}
		}
		return []*Scn{
			{Name: "configurations", Bulk: confs},
			{Name: "profiling", Bulk: profiling},
			{Name: "slow cleanups", Bulk: slow},
			{Name: "many bootstrap nodes, fetchers and announces", Bulk: crowd},
			{Name: "queries during the start, 1 worker", Body: start(small, 2), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "queries during the start, 2 workers, 2 bootstrap nodes", Body: start(two, 3), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "signal during the start", Body: early(two, syscall.SIGTERM), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "two signals during the start", Body: early(small, syscall.SIGINT, syscall.SIGTERM), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "signal while queries are handled", Body: busy(two, syscall.SIGTERM), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "signal while queries are handled, 1 worker", Body: busy(small, syscall.SIGINT), Opts: d, Bounds: b, RaceBounds: []int{1}},
		}
	})
}
