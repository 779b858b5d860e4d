package main

import (
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// malformed are responses to query tx that lack what makes a response.
func malformed(tx string, n int) [][]byte {
	r := misc.Dict{"id": idB, "n": n}
	whole := response(tx, r)
	return [][]byte{
		benc(misc.Dict{"t": tx, "y": "r"}),
		benc(misc.Dict{"t": tx, "y": "r", "r": misc.List{r}}),
		benc(misc.Dict{"t": tx, "y": "r", "r": "x"}),
		benc(misc.Dict{"t": tx, "y": "r", "r": misc.Dict{"n": n}}),
		benc(misc.Dict{"t": tx, "y": "r", "r": misc.Dict{"id": 7, "n": n}}),
		benc(misc.Dict{"y": "r", "r": r}),
		benc(misc.Dict{"t": 7, "y": "r", "r": r}),
		benc(misc.Dict{"t": misc.List{tx}, "y": "r", "r": r}),
		benc(misc.Dict{"t": tx, "r": r}),
		benc(misc.Dict{"t": tx, "y": 7, "r": r}),
		benc(misc.Dict{"t": tx, "y": "R", "r": r}),
		benc(misc.Dict{"t": tx, "y": "x", "r": r}),
		whole[:len(whole)-1],
		whole[1:],
		append([]byte("le"), whole...),
	}
}

func init() {
	reg("C06", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true}
		types := []string{"ping", "find_node", "get_peers", "announce_peer"}
		type run struct {
			q, gen, n int // query, its generation, number in the response's body
			from      int
		}
		// outstanding queries and what their handlers saw
		type bench struct {
			srv  *krpc.RpcServer
			w    *vnet.Net
			runs []run
		}
		mk := func(workers int) *bench {
			freshNet()
			config.DhtConfig().WorkPoolSize = workers
			t := &bench{srv: krpc.NewRpcServer(":21000")}
			vrt.Go(t.srv.Listen)
			t.w = vnet.World()
			return t
		}
		send := func(t *bench, tx string, q, gen int, boom bool) {
			body := misc.Dict{"id": idA, "q": q, "gen": gen}
			req := krpc.NewBaseRequest(tx, types[q%4], body, func(c *krpc.RpcContext) {
				g := c.Request()
				if g == nil || g.TxId() != tx || g.Type() != types[q%4] || g.Body()["q"] != q || g.Body()["gen"] != gen || g.Handler() == nil {
					vrt.Fail("the handler of query %d (tx %q) gets request %v", q, tx, g)
				}
				r := c.Response()
				if r == nil || r.TxId() != tx || r.Error() || r.NodeId() != idB || len(r.Body()) != 3 || r.Body()["for"] != tx {
					vrt.Fail("the handler of query %d (tx %q) gets response %v", q, tx, r)
				}
				n, _ := r.Body()["n"].(int)
				a := -1
				if c.RemoteAddr() != nil {
					a = c.RemoteAddr().Port - 1000
					if !sameAddr(c.RemoteAddr(), from(a)) {
						vrt.Fail("the handler of query %d gets remote address %v", q, c.RemoteAddr())
					}
				}
				t.runs = append(t.runs, run{q, gen, n, a})
				if boom {
					panic("handler " + tx)
				}
			})
			if err := t.srv.Query(from(q), req); err != nil {
				vrt.Fail("query %q: %v", tx, err)
			}
			if len(t.w.Sent) == 0 || !sameAddr(t.w.Sent[len(t.w.Sent)-1].Addr, from(q)) {
				vrt.Fail("query %q was not sent to %v", tx, from(q))
			}
		}
		good := func(tx string, n int) []byte { return response(tx, misc.Dict{"id": idB, "n": n, "for": tx}) }
		check := func(t *bench, want []run, what interface{}) {
			if fmt.Sprint(t.runs) != fmt.Sprint(want) {
				vrt.Fail("after %v: handlers ran (query, generation, response, from) %v, want %v", what, t.runs, want)
			}
		}

		// every sequence of arrivals
		const nq = 2
		kinds := []string{"response to", "response from elsewhere to", "error for", "malformed for", "query with id of", "answered-then-asked again", "query whose handler panics"}
		alphabet := nq*len(kinds) + 2
		sequences := func(maxLen int) func(b *B) {
			return func(b *B) {
				var seq []int
				var rec func()
				bad := 0
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(seq) > 0 {
						s := append([]int(nil), seq...)
						bad++
						bad0 := bad
						b.Do(func() string {
							return b.Exec(o, func() {
								t := mk(1)
								tx := []string{"a0", "a1"}
								gen := [nq]int{}
								pending := [nq]bool{}
								for i := 0; i < nq; i++ {
									send(t, tx[i], i, 0, false)
									pending[i] = true
								}
								var want []run
								said := ""
								for n, op := range s {
									k, i := op/nq, op%nq
									if k < len(kinds) {
										said += fmt.Sprintf("%s %d; ", kinds[k], i)
									} else {
										said += "response to unknown id; "
									}
									src := from(i)
									switch k {
									case 0, 1:
										a := i
										if k == 1 {
											a = 40 + n
											src = from(a)
										}
										if pending[i] {
											want = append(want, run{i, gen[i], n, a})
											pending[i] = false
										}
										t.w.UDP[0].Inject(good(tx[i], n), src)
									case 2:
										t.w.UDP[0].Inject(benc(misc.Dict{"t": tx[i], "y": "e", "e": misc.List{201, "x"}}), src)
									case 3:
										m := malformed(tx[i], n)
										t.w.UDP[0].Inject(m[(bad0+n)%len(m)], src)
									case 4:
										t.w.UDP[0].Inject(query(tx[i], "ping", misc.Dict{"id": idB}), src)
									case 5, 6:
										if pending[i] { // answer it first, so that the id is free again
											want = append(want, run{i, gen[i], 900 + n, i})
											t.w.UDP[0].Inject(good(tx[i], 900+n), src)
											vrt.WaitQuiet()
										}
										gen[i]++
										pending[i] = true
										send(t, tx[i], i, gen[i], k == 6)
									default:
										t.w.UDP[0].Inject(good([]string{"a2", "A0", "a", "", "a00"}[(bad0+n)%5], n), src)
									}
									vrt.WaitQuiet()
									check(t, want, said)
								}
								// whatever came before, what is outstanding is still answered
								for i := nq - 1; i >= 0; i-- {
									if pending[i] {
										want = append(want, run{i, gen[i], 99, i})
									}
									t.w.UDP[0].Inject(good(tx[i], 99), from(i))
								}
								vrt.WaitQuiet()
								check(t, want, said+"responses to all")
							})
						})
					}
					if len(seq) == maxLen {
						return
					}
					for op := 0; op < alphabet-1; op++ {
						seq = append(seq, op)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}

		// every malformed response, and every kind of transaction id
		each := func(b *B) {
			for v := range malformed("a0", 1) {
				v := v
				b.Do(func() string {
					return b.Exec(o, func() {
						t := mk(1)
						send(t, "a0", 0, 0, false)
						send(t, "a1", 1, 0, false)
						m := malformed("a0", 1)[v]
						for k := 0; k < 3; k++ {
							t.w.UDP[0].Inject(m, from(0))
						}
						vrt.WaitQuiet()
						check(t, nil, fmt.Sprintf("malformed %q", m))
						t.w.UDP[0].Inject(good("a1", 3), from(1))
						t.w.UDP[0].Inject(good("a0", 4), from(0))
						vrt.WaitQuiet()
						check(t, []run{{1, 0, 3, 1}, {0, 0, 4, 0}}, fmt.Sprintf("malformed %q", m))
					})
				})
			}
			ids := []string{"", "a", "aa", "aA", "AA", "a\x00", "\x00", "\x00\x00", "\xff\xfe", "1:", "aaa", pattern(64, 3), pattern(65, 3), pattern(300, 3), "0001", "001", "+001", " aa", "aa "}
			for shift := range ids {
				shift := shift
				for _, rev := range []bool{false, true} {
					rev := rev
					b.Do(func() string {
						return b.Exec(o, func() {
							t := mk(1)
							var want []run
							for q, tx := range ids {
								send(t, tx, q, 0, false)
							}
							for k := range ids {
								q := (k + shift) % len(ids)
								if rev {
									q = len(ids) - 1 - q
								}
								t.w.UDP[0].Inject(good(ids[q], k), from(q))
								t.w.UDP[0].Inject(good(ids[q], k+500), from(q))
								want = append(want, run{q, 0, k, q})
							}
							vrt.WaitQuiet()
							check(t, want, fmt.Sprintf("responses to ids %q from %d", ids, shift))
						})
					})
				}
			}
		}
		// errors of every shape leave the query outstanding for its response
		errs := func(b *B) {
			shapes := []interface{}{absent{}, 0, 201, -1, "", "A Generic Error", misc.List{}, misc.List{201}, misc.List{"201"}, misc.List{201, "x"}, misc.List{"x", 201}, misc.List{201, "x", "y"}, misc.List{201, "x", misc.List{}, misc.Dict{}}, misc.List{202, ""}, misc.List{203, pattern(500, 1)}, misc.List{204, "Method Unknown"}, misc.List{-1 << 63, "x"}, misc.List{1 << 62, 1 << 62}, misc.List{misc.List{201, "x"}}, misc.List{misc.Dict{}, misc.Dict{}}, misc.Dict{}, misc.Dict{"id": idB}, misc.Dict{"0": 201, "1": "x"}}
			for v, e := range shapes {
				for times := 1; times <= 4; times += 3 {
					for _, src := range []int{0, 9} {
						for with := 0; with < 4; with++ {
							v, e, times, src, with := v, e, times, src, with
							b.Do(func() string {
								return b.Exec(o, func() {
									t := mk(1)
									send(t, "a0", 0, 0, false)
									send(t, "a1", 1, 0, false)
									d := misc.Dict{"t": "a0", "y": "e"}
									set(d, "e", e)
									switch with {
									case 1:
										d["r"] = misc.Dict{"id": idB, "n": 1, "for": "a0"}
									case 2:
										d["v"], d["ip"] = "LT01", "abcdef"
									case 3:
										d["q"], d["a"] = "ping", misc.Dict{"id": idB}
									}
									for k := 0; k < times; k++ {
										t.w.UDP[0].Inject(benc(d), from(src))
										vrt.WaitQuiet()
									}
									check(t, nil, fmt.Sprintf("error %d %s", v, show(d)))
									t.w.UDP[0].Inject(good("a1", 3), from(1))
									t.w.UDP[0].Inject(good("a0", 4), from(0))
									vrt.WaitQuiet()
									check(t, []run{{1, 0, 3, 1}, {0, 0, 4, 0}}, fmt.Sprintf("%d errors %s", times, show(d)))
								})
							})
						}
					}
				}
			}
		}
		// wherever a response comes from, its handler runs once and sees that address
		odd := func(b *B) {
			addrs := []*net.UDPAddr{
				{IP: net.IPv4(127, 0, 0, 1).To4(), Port: 21000}, {IP: net.IPv4(127, 0, 0, 1), Port: 1}, {IP: net.IPv4(0, 0, 0, 0).To4(), Port: 6881}, {IP: net.IPv4(255, 255, 255, 255).To4(), Port: 65535},
				{IP: net.IPv4(224, 0, 0, 1).To4(), Port: 6881}, {IP: net.IPv4(10, 0, 0, 1).To4(), Port: 0}, {IP: net.IPv4(192, 168, 1, 1), Port: 53}, {IP: net.IPv4(1, 2, 3, 4).To4(), Port: 21000},
				{IP: net.ParseIP("2001:db8::7"), Port: 6881}, {IP: net.ParseIP("::1"), Port: 21000}, {IP: net.ParseIP("::"), Port: 6881}, {IP: net.ParseIP("fe80::1"), Port: 9, Zone: "eth0"}, {IP: net.ParseIP("ff02::1"), Port: 9},
			}
			for i := range addrs {
				for j := range addrs {
					to, src := addrs[i], addrs[j]
					b.Do(func() string {
						return b.Exec(o, func() {
							t := mk(1)
							var seen []string
							for q := 0; q < 2; q++ {
								q := q
								if err := t.srv.Query(to, krpc.NewBaseRequest(fmt.Sprint("a", q), types[q], misc.Dict{"id": idA}, func(c *krpc.RpcContext) {
									if !sameAddr(c.RemoteAddr(), src) || c.RemoteAddr().Zone != src.Zone {
										vrt.Fail("the handler of a query to %v gets remote address %v, the response came from %v", to, c.RemoteAddr(), src)
									}
									seen = append(seen, fmt.Sprint(q, " ", c.Response().Body()["n"]))
								})); err != nil {
									vrt.Fail("query to %v: %v", to, err)
								}
							}
							for k := 0; k < 2; k++ {
								t.w.UDP[0].Inject(good("a1", k), src)
								t.w.UDP[0].Inject(good("a0", k+5), src)
								vrt.WaitQuiet()
							}
							if fmt.Sprint(seen) != "[1 0 0 5]" {
								vrt.Fail("queries to %v answered twice from %v: handlers ran (query, response) %v", to, src, seen)
							}
						})
					})
				}
			}
		}
		// every order of answering n queries, each answered twice
		orders := func(b *B) {
			max := 6
			if thorough {
				max = 7
			}
			for n := 1; n <= max; n++ {
				var perm []int
				used := make([]bool, n)
				var rec func()
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(perm) == n {
						p := append([]int(nil), perm...)
						b.Do(func() string {
							return b.Exec(o, func() {
								t := mk(1)
								for i := range p {
									send(t, fmt.Sprintf("%04x", i), i, 0, false)
								}
								var want []run
								for k, i := range p {
									t.w.UDP[0].Inject(good(fmt.Sprintf("%04x", i), k), from(i))
									t.w.UDP[0].Inject(good(fmt.Sprintf("%04x", p[0]), k+100), from(i))
									want = append(want, run{i, 0, k, i})
								}
								vrt.WaitQuiet()
								check(t, want, fmt.Sprint("answers in order ", p))
							})
						})
						return
					}
					for i := 0; i < n; i++ {
						if !used[i] {
							used[i] = true
							perm = append(perm, i)
							rec()
							perm = perm[:len(perm)-1]
							used[i] = false
						}
					}
				}
				rec()
			}
			for _, n := range []int{99, 100, 101, 129, 1000, 3000, 20000, 65536} {
				for _, step := range []int{1, -1, 7} {
					n, step := n, step
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 26}, func() {
							t := mk(1)
							for i := 0; i < n; i++ {
								send(t, fmt.Sprintf("%04x", i), i, 0, false)
							}
							var want []run
							i := n / 2
							for k := 0; k < n; k++ {
								i = ((i+step)%n + n) % n
								for len(want) > 0 && step == 7 && n%7 == 0 && k%(n/7) == 0 {
									i = (i + 1) % n
									break
								}
								t.w.UDP[0].Inject(good(fmt.Sprintf("%04x", i), k), from(i))
								want = append(want, run{i, 0, k, i})
								if k%50 == 49 {
									vrt.WaitQuiet()
								}
							}
							vrt.WaitQuiet()
							check(t, want, fmt.Sprint(n, " answers, step ", step))
						})
					})
				}
			}
		}
		// responses that take their time, and queries asked in the meantime
		late := func(b *B) {
			for _, wait := range []time.Duration{time.Second, 11 * time.Second, 2 * time.Minute, 20 * time.Minute, 3 * time.Hour, 400 * 24 * time.Hour} {
				for others := 0; others < 4; others++ {
					wait, others := wait, others
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}, func() {
							t := mk(1)
							var want []run
							send(t, "a0", 0, 0, false)
							for i := 0; i < 20; i++ {
								vtime.Sleep(wait / 20)
								switch others {
								case 1: // unanswered queries
									send(t, fmt.Sprintf("b%02d", i), i+1, 0, false)
								case 2: // answered ones
									tx := fmt.Sprintf("b%02d", i)
									send(t, tx, i+1, 0, false)
									t.w.UDP[0].Inject(good(tx, i), from(i+1))
									want = append(want, run{i + 1, 0, i, i + 1})
								case 3: // other datagrams
									t.w.UDP[0].Inject(query(fmt.Sprint(i), "ping", misc.Dict{"id": idB}), from(0))
									t.w.UDP[0].Inject(benc(misc.Dict{"t": "a0", "y": "e", "e": misc.List{202, "later"}}), from(0))
								}
								vrt.WaitQuiet()
							}
							t.w.UDP[0].Inject(good("a0", 77), from(0))
							vrt.WaitQuiet()
							want = append(want, run{0, 0, 77, 0})
							check(t, want, fmt.Sprint("a response after ", wait))
							if others == 1 {
								for i := 0; i < 20; i++ {
									t.w.UDP[0].Inject(good(fmt.Sprintf("b%02d", i), i), from(i+1))
									want = append(want, run{i + 1, 0, i, i + 1})
								}
							}
							vtime.Sleep(wait)
							t.w.UDP[0].Inject(good("a0", 78), from(0)) // a duplicate
							vrt.WaitQuiet()
							check(t, want, fmt.Sprint("responses and a duplicate, ", wait, " later"))
						})
					})
				}
			}
			// a server that has been in use for long: the same ids again and again
			for _, n := range []int{300, 5000} {
				n := n
				b.Do(func() string {
					return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, func() {
						t := mk(1)
						send(t, "old", 1, 0, false)
						for i := 0; i < n; i++ {
							tx := fmt.Sprintf("%02x", i%64)
							t.runs = nil
							send(t, tx, i%40, i, false)
							t.w.UDP[0].Inject(good(tx, i), from(i%40))
							t.w.UDP[0].Inject(good(tx, i), from(i%40))
							vrt.WaitQuiet()
							check(t, []run{{i % 40, i, i, i % 40}}, fmt.Sprint(i, " answered queries"))
						}
						t.runs = nil
						t.w.UDP[0].Inject(good("old", 5), from(1))
						vrt.WaitQuiet()
						check(t, []run{{1, 0, 5, 1}}, fmt.Sprint(n, " other answered queries"))
					})
				})
			}
		}
		// a failed send must not disturb the other queries
		failing := func(b *B) {
			for mask := 0; mask < 1<<4; mask++ {
				mask := mask
				b.Do(func() string {
					return b.Exec(o, func() {
						t := mk(1)
						k := 0
						t.w.OnSend = func(c *vnet.UDPConn, data []byte, to *net.UDPAddr) error {
							k++
							if mask>>(k-1)&1 != 0 {
								return errors.New("network is unreachable")
							}
							return nil
						}
						var want []run
						for i := 0; i < 4; i++ {
							i := i
							req := krpc.NewBaseRequest(fmt.Sprint("t", i), "ping", misc.Dict{"id": idA}, func(c *krpc.RpcContext) {
								t.runs = append(t.runs, run{i, 0, i, i})
							})
							err := t.srv.Query(from(i), req)
							if (err != nil) != (mask>>i&1 != 0) {
								vrt.Fail("query %d with failing sends %04b: error %v", i, mask, err)
							}
							if mask>>i&1 == 0 {
								want = append(want, run{i, 0, i, i})
							}
						}
						for i := 0; i < 4; i++ {
							if mask>>i&1 == 0 {
								t.w.UDP[0].Inject(good(fmt.Sprint("t", i), i), from(i))
							}
						}
						vrt.WaitQuiet()
						check(t, want, fmt.Sprintf("sends failing %04b", mask))
					})
				})
			}
		}

		// queries by several threads, answered the moment they are on the wire, by several copies
		wire := func(threads_, per, copies, workers int, wrong bool) func() {
			return func() {
				t := mk(workers)
				var ran [16]int
				var bad [16]string
				t.w.OnSend = func(c *vnet.UDPConn, data []byte, to *net.UDPAddr) error {
					i := to.Port - 1000
					for k := 0; k < copies; k++ {
						t.w.UDP[0].Inject(good(fmt.Sprint("t", i), i), from(i))
					}
					if wrong {
						t.w.UDP[0].Inject(good(fmt.Sprint("t", (i+1)%(threads_*per)+50), i), from(i))
					}
					return nil
				}
				ask := func(i int) {
					tx := fmt.Sprint("t", i)
					var req krpc.Request
					req = krpc.NewBaseRequest(tx, types[i%4], misc.Dict{"id": idA}, func(c *krpc.RpcContext) {
						ran[i]++
						vrt.HistOp(uint64(i) + 77)
						vrt.Point("handler")
						if c.Request() != req || c.Response().TxId() != tx || c.Response().Body()["n"] != i || !sameAddr(c.RemoteAddr(), from(i)) {
							bad[i] = fmt.Sprintf("handler of query %d gets request %q, response %q, address %v", i, c.Request().TxId(), c.Response().TxId(), c.RemoteAddr())
						}
					})
					to := from(i)
					if err := t.srv.Query(to, req); err != nil {
						vrt.Fail("query %d: %v", i, err)
					}
				}
				var fs []func()
				for k := 0; k < threads_; k++ {
					k := k
					fs = append(fs, func() {
						for j := 0; j < per; j++ {
							ask(k*per + j)
						}
					})
				}
				threads(fs...)
				vrt.WaitQuiet()
				for i := 0; i < threads_*per; i++ {
					if bad[i] != "" {
						vrt.Fail("%s", bad[i])
					}
					if ran[i] != 1 {
						vrt.Fail("the handler of query %d ran %d times for %d copies of its response, arriving once it is on the wire", i, ran[i], copies)
					}
				}
			}
		}
		// copies of responses to queries sent long before, next to errors and unknown ids
		copies := func(nqs, ncopies, workers int) func() {
			return func() {
				t := mk(workers)
				var ran [8]int
				for i := 0; i < nqs; i++ {
					i := i
					to := from(i)
					t.srv.Query(to, krpc.NewBaseRequest(fmt.Sprint("t", i), "ping", misc.Dict{"id": idA}, func(c *krpc.RpcContext) {
						ran[i]++
						vrt.HistOp(uint64(i) + 33)
						vrt.Point("handler")
						if c.Request().TxId() != fmt.Sprint("t", i) || c.Response().Body()["n"] != i {
							vrt.Fail("handler of query %d gets request %q, response %v", i, c.Request().TxId(), c.Response().Body())
						}
					}))
				}
				for k := 0; k < ncopies; k++ {
					for i := 0; i < nqs; i++ {
						t.w.UDP[0].Inject(good(fmt.Sprint("t", i), i), from(i))
					}
					t.w.UDP[0].Inject(benc(misc.Dict{"t": "t0", "y": "e", "e": misc.List{201, "x"}}), from(9))
				}
				vrt.WaitQuiet()
				for i := 0; i < nqs; i++ {
					if ran[i] != 1 {
						vrt.Fail("the handler of query %d ran %d times for %d copies of its response", i, ran[i], ncopies)
					}
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true}
		sl, b, b2 := 3, []int{3}, []int{2}
		if thorough {
			sl, b, b2 = 4, []int{3, 4, 5}, []int{2, 3, 4}
		}
		return []*Scn{
			{Name: "arrival sequences", Bulk: sequences(sl)},
			{Name: "malformed responses and odd ids", Bulk: each},
			{Name: "errors of every shape", Bulk: errs},
			{Name: "responses from odd addresses", Bulk: odd},
			{Name: "orders of answers", Bulk: orders},
			{Name: "failing sends", Bulk: failing},
			{Name: "late responses", Bulk: late},
			{Name: "answered on the wire, 1 query, 2 copies, 2 workers", Body: wire(1, 1, 2, 2, true), Opts: d, Bounds: b, RaceBounds: []int{2}},
			{Name: "answered on the wire, 2 threads, 2 workers", Body: wire(2, 1, 1, 2, false), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "answered on the wire, 2 threads of 2, 1 worker", Body: wire(2, 2, 2, 1, true), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "3 copies, 3 workers", Body: copies(1, 3, 3), Opts: d, Bounds: b2, RaceBounds: []int{2}},
			{Name: "2 queries, 2 copies, 2 workers", Body: copies(2, 2, 2), Opts: d, Bounds: b, RaceBounds: []int{2}},
		}
	})
}
