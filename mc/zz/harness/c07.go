package main

import (
	"fmt"
	"net"
	"reflect"
	"strings"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

const (
	idA = "aaaaaaaaaaaaaaaaaaaa"
	idB = "bbbbbbbbbbbbbbbbbbbb"
)

func benc(d misc.Dict) []byte { return []byte(enc(d)) }

func query(tx, method string, args misc.Dict) []byte {
	return benc(misc.Dict{"t": tx, "y": "q", "q": method, "a": args})
}

func response(tx string, body misc.Dict) []byte {
	return benc(misc.Dict{"t": tx, "y": "r", "r": body})
}

// chainTrace is the order in which the parts of a chain of middlewares run,
// middleware i continuing the chain n[i] times, the handler last.
func chainTrace(n []int) string {
	var s []string
	var run func(i int)
	run = func(i int) {
		if i == len(n) {
			s = append(s, "handler")
			return
		}
		s = append(s, fmt.Sprint("+", i))
		if n[i] > 0 {
			run(i + 1)
			s = append(s, fmt.Sprint("-", i))
		} else {
			s = append(s, fmt.Sprint("-", i))
			run(i + 1)
		}
	}
	run(0)
	return strings.Join(s, " ")
}

// chainRun records what one message's chain does.
type chainRun struct {
	trace [1024]string
	n     int
	last  string // what was written last
}

func (r *chainRun) note(s string) {
	if r.n >= len(r.trace) {
		vrt.Fail("the chain does not end: %v", r.trace)
	}
	r.trace[r.n] = s
	r.n++
	vrt.HistOp(vrt.HashStr(s))
}

func (r *chainRun) String() string { return strings.Join(r.trace[:r.n], " ") }

// rich is a body with values of every kind.
func rich(id string) misc.Dict {
	return misc.Dict{"id": id, "n": -3, "": "", "s": " \x00x ", "l": misc.List{1, "x", misc.List{}, misc.Dict{"k": 2}}, "d": misc.Dict{"k": misc.Dict{"v": "w"}}, "nodes": "abc", "token": "t"}
}

func init() {
	reg("C07", func(thorough bool) []*Scn {
		// middleware i of a chain; see says which run a context belongs to
		mw := func(i, next int, writes int, see func(c *krpc.RpcContext) *chainRun) krpc.RpcHandlerFunc {
			write := func(c *krpc.RpcContext, r *chainRun, label string) {
				c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": idB, "by": label}))
				r.last = label
				if c.Response() == nil || c.Response().Body()["by"] != label {
					vrt.Fail("after writing %q the context shows response %v", label, c.Response())
				}
			}
			return func(c *krpc.RpcContext) {
				r := see(c)
				r.note(fmt.Sprint("+", i))
				if writes&1 != 0 {
					write(c, r, fmt.Sprint("before", i))
				}
				for k := 0; k < next; k++ {
					c.Next()
				}
				see(c)
				if writes&2 != 0 {
					write(c, r, fmt.Sprint("after", i))
				}
				r.note(fmt.Sprint("-", i))
			}
		}
		chains := func(max, maxNext int) [][]int {
			all := [][]int{{}}
			for i := 0; i < len(all); i++ {
				if len(all[i]) < max {
					for k := 0; k <= maxNext; k++ {
						all = append(all, append(append([]int(nil), all[i]...), k))
					}
				}
			}
			return all
		}
		// one request and one response through chains of every shape
		shapes := func(b *B) {
			one := func(req, resp []int, writes, reg, hNext int) {
				if b.Stopped() {
					return
				}
				b.Do(func() string {
					return b.Exec(vrt.Opts{NoEarly: true}, func() {
						freshNet()
						config.DhtConfig().WorkPoolSize = 1
						srv := krpc.NewRpcServer(":21000")
						var rq, rs chainRun
						seeQ := func(c *krpc.RpcContext) *chainRun {
							q := c.Request()
							if q.TxId() != "q1" || q.Type() != "ping" || !reflect.DeepEqual(q.Body(), rich(idA)) || !sameAddr(c.RemoteAddr(), from(7)) {
								vrt.Fail("a request context shows tx %q type %q body %v from %v", q.TxId(), q.Type(), q.Body(), c.RemoteAddr())
							}
							return &rq
						}
						seeR := func(c *krpc.RpcContext) *chainRun {
							q, p := c.Request(), c.Response()
							if q.TxId() != "r1" || q.Type() != "find_node" || q.Body()["target"] != idA || p == nil || p.TxId() != "r1" || p.Error() || !reflect.DeepEqual(p.Body(), rich(idB)) || !sameAddr(c.RemoteAddr(), from(8)) {
								vrt.Fail("a response context shows tx %q type %q body %v response %v from %v", q.TxId(), q.Type(), q.Body(), p, c.RemoteAddr())
							}
							return &rs
						}
						var fq, fr []krpc.RpcHandlerFunc
						for i, n := range req {
							fq = append(fq, mw(i, n, writes>>(2*i)&3, seeQ))
						}
						for i, n := range resp {
							fr = append(fr, mw(i, n, 0, seeR))
						}
						switch reg {
						case 0: // all at once
							srv.UseReqHandlerMiddleware(fq...)
							srv.UseRespHandlerMiddleware(fr...)
						case 1: // one by one, alternating
							for i := 0; i < len(fq) || i < len(fr); i++ {
								if i < len(fr) {
									srv.UseRespHandlerMiddleware(fr[i])
								}
								if i < len(fq) {
									srv.UseReqHandlerMiddleware(fq[i])
								}
							}
						}
						srv.RegisteHandler("ping", func(c *krpc.RpcContext) {
							r := seeQ(c)
							r.note("handler")
							c.WriteAs(krpc.WithResponse("q1", misc.Dict{"id": idB, "by": "handler"}))
							r.last = "handler"
							for i := 0; i < hNext; i++ {
								c.Next()
							}
						})
						vrt.Go(srv.Listen)
						w := vnet.World()
						w.UDP[0].Inject(query("q1", "ping", rich(idA)), from(7))
						vrt.WaitQuiet()
						if want := chainTrace(req); rq.String() != want {
							vrt.Fail("request middleware continuing the chain %v times: ran %q, want %q", req, rq.String(), want)
						}
						if len(w.Sent) != 1 {
							vrt.Fail("%d datagrams sent", len(w.Sent))
						}
						r := refItem(string(w.Sent[0].Data), 0)
						d, _ := r.val.(misc.Dict)
						body, _ := d["r"].(misc.Dict)
						if d["t"] != "q1" || body["by"] != rq.last {
							vrt.Fail("request middleware %v, writes %b: last written by %q, reply is %q", req, writes, rq.last, w.Sent[0].Data)
						}
						err := srv.Query(from(8), krpc.NewBaseRequest("r1", "find_node", misc.Dict{"id": idB, "target": idA}, func(c *krpc.RpcContext) {
							r := seeR(c)
							r.note("handler")
							for i := 0; i < hNext; i++ {
								c.Next()
							}
						}))
						if err != nil {
							vrt.Fail("query: %v", err)
						}
						w.UDP[0].Inject(response("r1", rich(idB)), from(8))
						vrt.WaitQuiet()
						if want := chainTrace(resp); rs.String() != want {
							vrt.Fail("response middleware continuing the chain %v times: ran %q, want %q", resp, rs.String(), want)
						}
						if want := chainTrace(req); rq.String() != want {
							vrt.Fail("handling a response ran the request chain: %q", rq.String())
						}
						if len(w.Sent) != 2 {
							vrt.Fail("%d datagrams sent instead of a reply and a query", len(w.Sent))
						}
					})
				})
			}
			depth := 3
			if thorough {
				depth = 4
			}
			for _, c := range chains(depth, 3) {
				one(c, nil, 0, 0, 0)
				one(nil, c, 0, 1, 0)
				one(c, c, 0, 1, 1)
				for w := 1; w < 1<<(2*len(c)); w++ {
					one(c, []int{1}, w, w%2, 0)
				}
			}
			for _, c := range chains(2, 2) {
				for _, e := range chains(2, 2) {
					one(c, e, 0, 0, 2)
					one(c, e, 0, 1, 0)
				}
			}
			long := []int{1, 0, 2, 1, 0, 3, 1}
			one(long, long, 1<<13|1, 1, 1)
			for n := 15; n <= 18; n++ { // around the initial capacity of the chains
				c := make([]int, n-7)
				for i := range c {
					c[i] = i % 3
				}
				one(c, nil, 0, 1, 0)
				one(nil, c, 0, 0, 0)
			}
			lens := []int{12, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300}
			if thorough {
				lens = nil
				for n := 8; n <= 300; n++ {
					lens = append(lens, n)
				}
			}
			for _, n := range lens { // chains of many middlewares
				for next := 0; next <= 2; next++ {
					c := make([]int, n)
					for i := range c {
						c[i] = next
					}
					one(c, c[:2], 0, next%2, 0)
					one(c[:2], c, 0, 1-next%2, 0)
				}
			}
		}
		// who writes what: the reply is what was written last for that very query
		writes := func(b *B) {
			mk := func(tx string, kind int) krpc.Response {
				switch kind {
				case 1:
					return krpc.WithResponse(tx, misc.Dict{"id": idB, "by": "one"})
				case 2:
					return krpc.WithResponse(tx, misc.Dict{"id": idB, "by": "two", "more": 1})
				case 3:
					return krpc.WithErr(tx, 201, "generic")
				case 4:
					return krpc.WithParamErr(tx, "wrong")
				}
				return krpc.WithResponse(tx, misc.Dict{})
			}
			// messages: what is written before0, before1, in the handler, after1, after0
			run := func(msgs [][]int) {
				b.Do(func() string {
					return b.Exec(vrt.Opts{NoEarly: true}, func() {
						freshNet()
						config.DhtConfig().WorkPoolSize = 1
						srv := krpc.NewRpcServer(":21000")
						at := 0
						put := func(c *krpc.RpcContext, i int) {
							if k := msgs[at][i]; k > 0 {
								r := mk(c.Request().TxId(), k)
								c.WriteAs(r)
								if c.Response() != r {
									vrt.Fail("messages %v: in message %d the context shows %v after writing %v", msgs, at, c.Response(), r)
								}
							}
						}
						srv.UseReqHandlerMiddleware(func(c *krpc.RpcContext) {
							if c.Response() != nil {
								vrt.Fail("messages %v: message %d starts with response %v", msgs, at, c.Response())
							}
							put(c, 0)
							c.Next()
							put(c, 4)
						}, func(c *krpc.RpcContext) {
							put(c, 1)
							c.Next()
							put(c, 3)
						})
						srv.RegisteHandler("ping", func(c *krpc.RpcContext) { put(c, 2) })
						vrt.Go(srv.Listen)
						w := vnet.World()
						for at = 0; at < len(msgs); at++ {
							sent := len(w.Sent)
							tx := fmt.Sprint("q", at)
							w.UDP[0].Inject(query(tx, "ping", misc.Dict{"id": idA}), from(7))
							vrt.WaitQuiet()
							last := 0
							for _, k := range msgs[at] {
								if k > 0 {
									last = k
								}
							}
							if last == 0 {
								for _, s := range w.Sent[sent:] {
									if d, _ := refItem(string(s.Data), 0).val.(misc.Dict); d["y"] != "e" {
										vrt.Fail("messages %v: nothing is written for message %d, the reply is %q", msgs, at, s.Data)
									}
								}
								continue
							}
							if len(w.Sent) != sent+1 {
								vrt.Fail("messages %v: %d datagrams sent for message %d", msgs, len(w.Sent)-sent, at)
							}
							r := refItem(string(w.Sent[sent].Data), 0)
							if want := mk(tx, last).RawData(); !r.ok || !same(r.val, want) {
								vrt.Fail("messages %v: the reply to message %d is %q, last written was %s", msgs, at, w.Sent[sent].Data, show(want))
							}
						}
					})
				})
			}
			for x := 0; x < 5*5*5*5*5; x++ {
				m := make([]int, 5)
				for i, v := 0, x; i < 5; i, v = i+1, v/5 {
					m[i] = v % 5
				}
				run([][]int{m})
			}
			three := func(x int) []int { return []int{x % 4, 0, x / 4 % 4, 0, x / 16} }
			for x := 0; x < 64; x++ {
				for y := 0; y < 64; y++ {
					run([][]int{three(x), three(y)})
				}
			}
		}
		// several messages handled at the same time by the same chains
		concurrent := func(nm int) func() {
			return func() {
				freshNet()
				config.DhtConfig().WorkPoolSize = 2
				srv := krpc.NewRpcServer(":21000")
				var rq, rs [3]chainRun
				next := [2]int{vrt.Choose(2), 1}
				see := func(c *krpc.RpcContext, resp bool) *chainRun {
					q := c.Request()
					i := int(q.TxId()[1] - '0')
					want := []string{"ping", "find_node", "get_peers"}[i]
					if resp {
						if q.TxId()[0] != 'r' || q.Type() != want || !sameAddr(c.RemoteAddr(), from(20+i)) || c.Response().Body()["n"] != i {
							vrt.Fail("response context %d shows tx %q, type %q, response %v, from %v", i, q.TxId(), q.Type(), c.Response(), c.RemoteAddr())
						}
						return &rs[i]
					}
					if q.TxId()[0] != 'q' || q.Type() != want || !sameAddr(c.RemoteAddr(), from(10+i)) || q.Body()["n"] != i {
						vrt.Fail("request context %d shows tx %q, type %q, body %v, from %v", i, q.TxId(), q.Type(), q.Body(), c.RemoteAddr())
					}
					return &rq[i]
				}
				part := func(i int, resp bool) krpc.RpcHandlerFunc {
					return func(c *krpc.RpcContext) {
						r := see(c, resp)
						r.note([]string{"+0", "+1"}[i])
						for k := 0; k < next[i]; k++ {
							c.Next()
						}
						r.note([]string{"-0", "-1"}[i])
						see(c, resp)
					}
				}
				srv.UseReqHandlerMiddleware(part(0, false))
				srv.UseReqHandlerMiddleware(part(1, false))
				srv.UseRespHandlerMiddleware(part(0, true), part(1, true))
				for i, m := range []string{"ping", "find_node", "get_peers"} {
					i, m := i, m
					srv.RegisteHandler(m, func(c *krpc.RpcContext) {
						if c.Request().Type() != m {
							vrt.Fail("the handler of %s runs for a %s", m, c.Request().Type())
						}
						vrt.Point("handler")
						see(c, false).note("handler")
						c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": idB, "n": i}))
						vrt.Point("handler")
						see(c, false)
					})
				}
				w := vnet.World()
				var addrs [3]*net.UDPAddr
				for i := 0; i < nm; i++ {
					i := i
					addrs[i] = from(20 + i)
					m := []string{"ping", "find_node", "get_peers"}[i]
					srv.Query(addrs[i], krpc.NewBaseRequest(fmt.Sprint("r", i), m, misc.Dict{"id": idB}, func(c *krpc.RpcContext) {
						see(c, true).note("handler")
						vrt.Point("handler")
						see(c, true)
					}))
				}
				vrt.Go(srv.Listen)
				for i := 0; i < nm; i++ {
					m := []string{"ping", "find_node", "get_peers"}[i]
					w.UDP[0].Inject(query(fmt.Sprint("q", i), m, misc.Dict{"id": idA, "n": i}), from(10+i))
					w.UDP[0].Inject(response(fmt.Sprint("r", i), misc.Dict{"id": idA, "n": i}), from(20+i))
				}
				vrt.WaitQuiet()
				want := chainTrace(next[:])
				for i := 0; i < nm; i++ {
					if rq[i].String() != want || rs[i].String() != want {
						vrt.Fail("message %d: request chain ran %q, response chain %q, want %q", i, rq[i].String(), rs[i].String(), want)
					}
					ok := 0
					for _, s := range w.Sent {
						r := refItem(string(s.Data), 0)
						d, _ := r.val.(misc.Dict)
						body, _ := d["r"].(misc.Dict)
						if d["y"] == "r" && d["t"] == fmt.Sprint("q", i) && body["n"] == i && sameAddr(s.Addr, from(10+i)) {
							ok++
						}
					}
					if ok != 1 || len(w.Sent) != 2*nm {
						vrt.Fail("%d right replies to request %d, %d datagrams sent in all", ok, i, len(w.Sent))
					}
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true}
		b := []int{3}
		if thorough {
			b = []int{3, 4}
		}
		return []*Scn{
			{Name: "chains of every shape", Bulk: shapes},
			{Name: "who writes what, one and two messages", Bulk: writes},
			{Name: "2 requests and 2 responses at once", Body: concurrent(2), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "3 requests and 3 responses at once", Body: concurrent(3), Opts: d, Bounds: b, RaceBounds: []int{1}},
		}
	})
}
