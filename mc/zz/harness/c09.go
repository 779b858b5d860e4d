package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"syscall"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func freshNet() {
	fresh()
	krpc.VerifInit()
}

func from(i int) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(10, 0, byte(i>>8), byte(i)).To4(), Port: 1000 + i}
}

// blob is datagram number i, n bytes long, different in every byte from others of its neighbourhood.
func blob(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*37 + j*(i+1) + 11)
	}
	return b
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameAddr(a, b *net.UDPAddr) bool {
	return a != nil && a.IP.Equal(b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

// taken is a packet a consumer is handling, with what it must hold.
func intact(p *krpc.RecvPacket, want []byte, i int, when string) {
	vrt.RaceReadRange(p.Bytes)
	if !sameBytes(p.Bytes, want) {
		vrt.Fail("datagram %d (%d bytes): %s the consumer sees %d bytes %q, want %q", i, len(want), when, len(p.Bytes), clip(p.Bytes), clip(want))
	}
	if !sameAddr(p.Addr, from(i)) {
		vrt.Fail("datagram %d from %v: %s the consumer sees sender %v", i, from(i), when, p.Addr)
	}
}

func pingDatagram(tx, id, pad string) []byte {
	return []byte("d1:ad2:id20:" + id + fmt.Sprintf("1:x%d:", len(pad)) + pad + "e1:q4:ping1:t" + fmt.Sprint(len(tx)) + ":" + tx + "1:y1:qe")
}

func init() {
	reg("C09", func(thorough bool) []*Scn {
		lens := []int{0, 1, 2, 99, 100, 101, 511, 512, 1023, 1024}
		// one endpoint, datagrams of chosen lengths, all kept while the others arrive
		run := func(srv *krpc.UdpServer, c *vnet.UDPConn, ls []int) {
			var keep []*krpc.RecvPacket
			for i, n := range ls {
				c.Inject(blob(i, n), from(i))
			}
			for i, n := range ls {
				p := vrt.Recv(srv.RecvChan())
				intact(p, blob(i, n), i, "when taken")
				keep = append(keep, p)
				for j, q := range keep {
					intact(q, blob(j, ls[j]), j, "while handling it")
				}
			}
			vrt.WaitQuiet()
			if srv.RecvChan().Ready() {
				vrt.Fail("more packets than datagrams: %d sent", len(ls))
			}
		}
		lengths := func(b *B) {
			o := vrt.Opts{}
			one := func(ls []int) {
				b.Do(func() string {
					return b.Exec(o, func() {
						freshNet()
						srv := krpc.StartUdpServer(":21000")
						run(srv, vnet.World().UDP[0], ls)
					})
				})
			}
			for n := 0; n <= 1024 && !b.Stopped(); n++ {
				one([]int{n, 1024 - n, n})
			}
			for _, x := range lens {
				for _, y := range lens {
					for _, z := range lens {
						if !b.Stopped() {
							one([]int{x, y, z, 7})
						}
					}
				}
			}
			// oversized datagrams do not disturb the next ones
			for _, n := range []int{1025, 1500, 9000, 65507} {
				n := n
				b.Do(func() string {
					return b.Exec(o, func() {
						freshNet()
						srv := krpc.StartUdpServer(":21000")
						c := vnet.World().UDP[0]
						c.Inject(blob(9, n), from(9))
						c.Inject(blob(1, 30), from(1))
						p := vrt.Recv(srv.RecvChan())
						if !sameAddr(p.Addr, from(1)) {
							p = vrt.Recv(srv.RecvChan())
						}
						intact(p, blob(1, 30), 1, "after an oversized one")
					})
				})
			}
			// sending
			for n := 0; n <= 1500 && !b.Stopped(); n++ {
				n := n
				b.Do(func() string {
					return b.Exec(o, func() {
						freshNet()
						srv := krpc.StartUdpServer(":21000")
						x := blob(3, n)
						to := from(n)
						var err error
						host := n%2 == 1
						if host {
							err = srv.SendPacketToHost(x, to.String())
						} else {
							err = srv.SendPacket(x, to)
						}
						s := vnet.World().Sent
						if err != nil || len(s) != 1 || !sameBytes(s[0].Data, blob(3, n)) || !sameAddr(s[0].Addr, from(n)) {
							vrt.Fail("sending %d bytes to %v (by name: %v): err %v, sent %v", n, to, host, err, s)
						}
						if !sameBytes(x, blob(3, n)) {
							vrt.Fail("sending changed the caller's bytes")
						}
					})
				})
			}
			for _, a := range []*net.UDPAddr{{IP: net.ParseIP("2001:db8::1"), Port: 65535}, {IP: net.IPv4(255, 1, 2, 3), Port: 1}, {IP: net.IPv4(127, 0, 0, 1).To4(), Port: 80}} {
				a := a
				b.Do(func() string {
					return b.Exec(o, func() {
						freshNet()
						srv := krpc.StartUdpServer(":21000")
						e1 := srv.SendPacket([]byte("x"), a)
						e2 := srv.SendPacketToHost([]byte("yz"), a.String())
						s := vnet.World().Sent
						if e1 != nil || e2 != nil || len(s) != 2 || !sameAddr(s[0].Addr, a) || !sameAddr(s[1].Addr, a) || string(s[0].Data) != "x" || string(s[1].Data) != "yz" {
							vrt.Fail("sending to %v: %v %v %v", a, e1, e2, s)
						}
						// the socket refuses: the error is reported
						vnet.World().OnSend = func(*vnet.UDPConn, []byte, *net.UDPAddr) error { return errors.New("no buffer space") }
						if srv.SendPacket([]byte("x"), a) == nil || srv.SendPacketToHost([]byte("x"), a.String()) == nil {
							vrt.Fail("a failed send is reported as success")
						}
						if srv.SendPacketToHost([]byte("x"), "no port here") == nil {
							vrt.Fail("sending to an unusable address is reported as success")
						}
					})
				})
			}
		}
		// who sent what, with senders that have something in common
		senders := func(b *B) {
			as := []*net.UDPAddr{
				{IP: net.IPv4(10, 0, 0, 1).To4(), Port: 1000}, {IP: net.IPv4(10, 0, 0, 1).To4(), Port: 1001}, {IP: net.IPv4(10, 0, 0, 2).To4(), Port: 1000}, {IP: net.IPv4(10, 0, 0, 1).To4(), Port: 65535},
				{IP: net.ParseIP("fe80::1"), Port: 1000, Zone: "eth0"}, {IP: net.ParseIP("fe80::1"), Port: 1000, Zone: "eth1"}, {IP: net.ParseIP("fe80::1"), Port: 1001}, {IP: net.ParseIP("2001:db8::1"), Port: 1000}, {IP: net.ParseIP("::ffff:10.0.0.9"), Port: 1000},
				{IP: net.IPv4(10, 0, 0, 1).To4(), Port: 21000}, {IP: net.IPv4(127, 0, 0, 1).To4(), Port: 21000}, {IP: net.IPv4(10, 0, 0, 7).To4(), Port: 0}, {IP: net.IPv4(0, 0, 0, 0).To4(), Port: 21000}, {IP: net.IPv4(255, 255, 255, 255).To4(), Port: 1},
			}
			seqs := func(l int, f func(s []int)) {
				var s []int
				var rec func()
				rec = func() {
					if len(s) == l {
						f(append([]int(nil), s...))
						return
					}
					for i := range as {
						s = append(s, i)
						rec()
						s = s[:len(s)-1]
					}
				}
				rec()
			}
			l := 3
			if thorough {
				l = 4
			}
			seqs(l, func(s []int) {
				for burst := 0; burst < 2; burst++ {
					burst := burst
					b.Do(func() string {
						return b.Exec(vrt.Opts{}, func() {
							freshNet()
							srv := krpc.StartUdpServer(":21000")
							c := vnet.World().UDP[0]
							var keep []*krpc.RecvPacket
							take := func() {
								p := vrt.Recv(srv.RecvChan())
								keep = append(keep, p)
								for i, p := range keep {
									if !sameAddr(p.Addr, as[s[i]]) || !sameBytes(p.Bytes, blob(i, 20)) {
										vrt.Fail("senders %v: the consumer of datagram %d sees sender %v, %q", s, i, p.Addr, clip(p.Bytes))
									}
								}
							}
							for i, x := range s {
								c.Inject(blob(i, 20), as[x])
								if burst == 0 {
									take()
								}
							}
							for len(keep) < len(s) {
								take()
							}
						})
					})
				}
			})
			// through the RPC server
			seqs(l, func(s []int) {
				b.Do(func() string {
					return b.Exec(vrt.Opts{NoEarly: true}, func() {
						freshNet()
						config.DhtConfig().WorkPoolSize = 1
						srv := krpc.NewRpcServer(":21000")
						c := vnet.World().UDP[0]
						srv.RegisteHandler("ping", func(ctx *krpc.RpcContext) {
							ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "nnnnnnnnnnnnnnnnnnnn", "you": ctx.RemoteAddr().String()}))
						})
						vrt.Go(srv.Listen)
						for i, x := range s {
							c.Inject(pingDatagram(fmt.Sprint("t", i), idA, "x"), as[x])
						}
						vrt.WaitQuiet()
						sent := vnet.World().Sent
						for i, x := range s {
							ok := 0
							for _, p := range sent {
								d := decoded(p.Data)
								if d["t"] == fmt.Sprint("t", i) && sameAddr(p.Addr, as[x]) && dictAt(d, "r")["you"] == as[x].String() {
									ok++
								}
							}
							if ok != 1 || len(sent) != len(s) {
								vrt.Fail("senders %v: %d of %d replies are to %v for its query %d", s, ok, len(sent), as[x], i)
							}
						}
					})
				})
			})
			// many datagrams
			for _, n := range []int{99, 100, 101, 127, 129, 200, 256, 257, 300, 513, 1000, 1025} {
				for v := 0; v < 4; v++ {
					n, v := n, v
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}, func() {
							freshNet()
							srv := krpc.StartUdpServer(":21000")
							c := vnet.World().UDP[0]
							size := func(i int) int { return []int{5, i % 200, (i * 17) % 1025, 1024 - i%1024}[v] }
							keep := make([]*krpc.RecvPacket, 0, n)
							for i := 0; i < n; i++ {
								c.Inject(blob(i, size(i)), from(i))
							}
							for i := 0; i < n; i++ {
								p := vrt.Recv(srv.RecvChan())
								intact(p, blob(i, size(i)), i, "when taken")
								keep = append(keep, p)
							}
							for i, p := range keep {
								intact(p, blob(i, size(i)), i, "after all were taken")
							}
							vrt.WaitQuiet()
							if srv.RecvChan().Ready() {
								vrt.Fail("more packets than datagrams: %d sent", n)
							}
						})
					})
				}
			}
		}
		// consumers, arrivals and the receive loop interleaved; bounded queue of 1 or 2
		consumers := func(nc int, ls []int) func() {
			return func() {
				freshNet()
				krpc.RecvChanLen = 1 + vrt.Choose(2)
				srv := krpc.StartUdpServer(":21000")
				c := vnet.World().UDP[0]
				var seen [8]int
				var last [4]int
				take := func(k, m int) func() {
					return func() {
						for ; m > 0; m-- {
							p := vrt.Recv(srv.RecvChan())
							i := p.Addr.Port - 1000
							if i < 0 || i >= len(ls) {
								vrt.Fail("a datagram with sender %v arrives", p.Addr)
							}
							seen[i]++
							if i+1 < last[k] {
								vrt.Fail("datagram %d arrives after number %d", i, last[k]-1)
							}
							last[k] = i + 1
							vrt.HistOp(uint64(100 + i))
							intact(p, blob(i, ls[i]), i, "when taken")
							vrt.Point("handling")
							intact(p, blob(i, ls[i]), i, "while handling it")
						}
					}
				}
				fs := []func(){func() {
					for i, n := range ls {
						vrt.Point("arrival")
						c.Inject(blob(i, n), from(i))
					}
				}}
				if nc == 1 {
					fs = append(fs, take(0, len(ls)))
				} else {
					fs = append(fs, take(0, len(ls)/2), take(1, len(ls)-len(ls)/2))
				}
				threads(fs...)
				for i := range ls {
					if seen[i] != 1 {
						vrt.Fail("datagram %d was delivered %d times", i, seen[i])
					}
				}
			}
		}
		// the RPC server: handlers (running on several workers) keep seeing their own datagram
		rpc := func(n int, bad bool) func() {
			return func() {
				freshNet()
				config.DhtConfig().WorkPoolSize = 1 + vrt.Choose(2)
				krpc.RecvChanLen = 2
				srv := krpc.NewRpcServer(":21000")
				c := vnet.World().UDP[0]
				ids := []string{"aaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbb", "cccccccccccccccccccc", "dddddddddddddddddddd"}
				pads := []string{"long long long long long long long long", "s", "", "medium medium"}
				var runs [4]int
				srv.RegisteHandler("ping", func(ctx *krpc.RpcContext) {
					i := int(ctx.RemoteAddr().Port - 1000)
					if i < 0 || i >= n {
						vrt.Fail("handler runs with sender %v", ctx.RemoteAddr())
					}
					vrt.HistOp(uint64(200 + i))
					runs[i]++
					look := func() {
						b := ctx.Request().Body()
						if ctx.Request().TxId() != fmt.Sprint("t", i) || b.GetString("id") != ids[i] || b.GetString("x") != pads[i] || !sameAddr(ctx.RemoteAddr(), from(i)) {
							vrt.Fail("handler of datagram %d sees tx %q, body %v, sender %v", i, ctx.Request().TxId(), b, ctx.RemoteAddr())
						}
					}
					look()
					vrt.Point("handling")
					look()
					ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "nnnnnnnnnnnnnnnnnnnn"}))
				})
				vrt.Go(srv.Listen)
				for i := 0; i < n; i++ {
					if bad && i == 1 {
						c.Inject([]byte("d1:y1:q1:t2:xxe and a lot of rubbish behind it"), from(50))
						c.Inject([]byte("i"), from(51))
					}
					c.Inject(pingDatagram(fmt.Sprint("t", i), ids[i], pads[i]), from(i))
					if i == 0 {
						vrt.WaitIdle()
					}
				}
				vrt.WaitQuiet()
				sent := map[string]int{}
				for _, s := range vnet.World().Sent {
					sent[string(s.Data)+"|"+s.Addr.String()]++
				}
				for i := 0; i < n; i++ {
					if runs[i] != 1 {
						vrt.Fail("the handler ran %d times for datagram %d", runs[i], i)
					}
					ok := 0
					for _, s := range vnet.World().Sent {
						r := refItem(string(s.Data), 0)
						if d, is := r.val.(misc.Dict); r.ok && is && d["t"] == fmt.Sprint("t", i) && sameAddr(s.Addr, from(i)) {
							ok++
						}
					}
					if ok != 1 {
						vrt.Fail("%d replies to datagram %d", ok, i)
					}
				}
			}
		}
		d := vrt.Opts{DelayAll: true}
		bs := []int{3}
		if thorough {
			bs = []int{3, 4}
		}
		return []*Scn{
			{Name: "lengths and contents", Bulk: lengths},
			{Name: "senders and long runs", Bulk: senders},
			{Name: "one consumer, 4 datagrams", Body: consumers(1, []int{40, 3, 0, 40}), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "two consumers, 4 datagrams", Body: consumers(2, []int{1024, 3, 100, 99}), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "rpc handlers, 3 datagrams", Body: rpc(3, false), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "rpc handlers, 3 datagrams and malformed ones", Body: rpc(3, true), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "rpc handlers, 4 datagrams", Body: rpc(4, false), Opts: d, Bounds: []int{2}, RaceBounds: []int{2}},
		}
	})

	reg("C11", func(thorough bool) []*Scn {
		transient := []error{syscall.ECONNREFUSED, os.ErrDeadlineExceeded, syscall.EMSGSIZE, errors.New("some error"), syscall.EINTR}
		// drained takes what is still queued; afterwards the receive loop must be gone
		drained := func(srv *krpc.UdpServer) (got int) {
			for {
				vrt.WaitQuiet()
				if !srv.RecvChan().Ready() {
					return
				}
				if _, ok := vrt.Recv2(srv.RecvChan()); !ok {
					return
				}
				got++
			}
		}
		ended := func(c *vnet.UDPConn) {
			if c.Closes != 1 {
				vrt.Fail("the socket was closed %d times", c.Closes)
			}
			if n := vrt.Live(); n > 1 {
				vrt.Fail("closed, but %d threads are left behind: %s", n-1, vrt.LiveNames())
			}
		}
		closeIt := func(srv *krpc.UdpServer) {
			vrt.HistOp(300)
			if err := srv.Close(); err != nil {
				vrt.Fail("Close fails: %v", err)
			}
			vrt.HistOp(301)
		}
		refusesAll := func(srv *krpc.UdpServer) {
			for _, k := range []int{0, 1, 9000} {
				if e1, e2 := srv.SendPacket(make([]byte, k), from(1)), srv.SendPacketToHost(make([]byte, k), "10.0.0.1:99"); e1 == nil || e2 == nil {
					vrt.Fail("sending %d bytes on a closed endpoint reports %v and %v", k, e1, e2)
				}
			}
		}
		refusesSend := func(srv *krpc.UdpServer) {
			n := len(vnet.World().Sent)
			e1 := srv.SendPacket([]byte("late"), from(1))
			e2 := srv.SendPacketToHost([]byte("late"), "10.0.0.1:99")
			if e1 == nil || e2 == nil {
				vrt.Fail("sending on a closed endpoint reports %v and %v", e1, e2)
			}
			if len(vnet.World().Sent) != n {
				vrt.Fail("a closed endpoint sent something")
			}
		}
		// closers x arrivals x queue length
		closing := func(closers []int, arrivals int, send bool) func() {
			return func() {
				freshNet()
				krpc.RecvChanLen = vrt.Choose(3)
				srv := krpc.StartUdpServer(":21000")
				c := vnet.World().UDP[0]
				n := closers[vrt.Choose(len(closers))]
				var fs []func()
				for i := 0; i < n; i++ {
					twice := i == 0
					fs = append(fs, func() {
						closeIt(srv)
						refusesSend(srv)
						if twice {
							closeIt(srv)
						}
					})
				}
				fs = append(fs, func() {
					for i := 0; i < arrivals; i++ {
						vrt.Point("arrival")
						c.Inject(blob(i, 10), from(i))
					}
				})
				if send {
					fs = append(fs, func() {
						for i := 0; i < 2; i++ {
							k := len(vnet.World().Sent)
							err := srv.SendPacket([]byte("data"), from(i))
							vrt.HistOp(uint64(310 + i))
							if len(vnet.World().Sent)-k != map[bool]int{true: 1, false: 0}[err == nil] {
								vrt.Fail("SendPacket reports %v, %d datagrams left", err, len(vnet.World().Sent)-k)
							}
						}
					})
				}
				threads(fs...)
				if got := drained(srv); got > arrivals {
					vrt.Fail("%d packets for %d datagrams", got, arrivals)
				}
				ended(c)
				closeIt(srv)
				refusesAll(srv)
				refusesSend(srv)
				ended(c)
			}
		}
		// a consumer is waiting while the endpoint closes; RpcServer.Close as well
		rpcClose := func() {
			freshNet()
			srv := krpc.NewRpcServer(":21000")
			c := vnet.World().UDP[0]
			base := vrt.Live()
			k := 1 + vrt.Choose(2)
			var fs []func()
			for i := 0; i < k; i++ {
				fs = append(fs, func() {
					srv.Close()
					srv.Close()
				})
			}
			fs = append(fs, func() { c.Inject(blob(1, 5), from(1)) })
			threads(fs...)
			vrt.WaitQuiet()
			if c.Closes != 1 {
				vrt.Fail("the socket was closed %d times", c.Closes)
			}
			if n := vrt.Live(); n >= base {
				vrt.Fail("the receive loop did not end: %s", vrt.LiveNames())
			}
			req := krpc.NewBaseRequest("aa", "ping", misc.Dict{"id": "aaaaaaaaaaaaaaaaaaaa"}, func(*krpc.RpcContext) {})
			if err := srv.Query(from(1), req); err == nil || len(vnet.World().Sent) != 0 {
				vrt.Fail("querying on a closed endpoint: %v, %d datagrams sent", err, len(vnet.World().Sent))
			}
		}
		// transient errors between datagrams: e=error d=datagram
		errorsBetween := func(b *B) {
			for l := 1; l <= 7; l++ {
				for m := 0; m < 1<<l; m++ {
					for e := range transient {
						l, m, e := l, m, e
						b.Do(func() string {
							return b.Exec(vrt.Opts{}, func() {
								freshNet()
								srv := krpc.StartUdpServer(":21000")
								c := vnet.World().UDP[0]
								var want []int
								for i := 0; i < l; i++ {
									if m>>i&1 == 1 {
										c.InjectErr(transient[(e+i)%len(transient)])
									} else {
										c.Inject(blob(i, 10*i), from(i))
										want = append(want, i)
									}
								}
								c.Inject(blob(l, 33), from(l))
								want = append(want, l)
								for _, i := range want {
									p := vrt.Recv(srv.RecvChan())
									n := 10 * i
									if i == l {
										n = 33
									}
									intact(p, blob(i, n), i, "between receive errors")
								}
								vrt.WaitQuiet()
								if srv.RecvChan().Ready() {
									vrt.Fail("more packets than datagrams")
								}
								closeIt(srv)
								drained(srv)
								ended(c)
							})
						})
					}
				}
			}
		}
		// many errors in a row
		runs := func(b *B) {
			for _, k := range []int{8, 9, 10, 11, 16, 31, 33, 64, 100, 101, 128, 255, 256, 257, 1000, 1024, 3000} {
				for e := -1; e < len(transient); e++ {
					k, e := k, e
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 20}, func() {
							freshNet()
							srv := krpc.StartUdpServer(":21000")
							c := vnet.World().UDP[0]
							for round := 0; round < 2; round++ {
								for i := 0; i < k; i++ {
									x := e
									if e < 0 {
										x = i % len(transient)
									}
									c.InjectErr(transient[x])
								}
								c.Inject(blob(round, 33), from(round))
								vrt.WaitQuiet()
								if !srv.RecvChan().Ready() {
									vrt.Fail("the datagram after %d receive errors does not arrive", k)
								}
								intact(vrt.Recv(srv.RecvChan()), blob(round, 33), round, "after many receive errors")
							}
							closeIt(srv)
							drained(srv)
							ended(c)
						})
					})
				}
			}
		}
		errorsAndClose := func() {
			freshNet()
			krpc.RecvChanLen = 1
			srv := krpc.StartUdpServer(":21000")
			other := krpc.StartUdpServer(":21001")
			c, oc := vnet.World().UDP[0], vnet.World().UDP[1]
			e := transient[vrt.Choose(len(transient))]
			threads(func() {
				c.InjectErr(e)
				vrt.Point("arrival")
				c.Inject(blob(1, 4), from(1))
				vrt.Point("arrival")
				c.InjectErr(e)
			}, func() { closeIt(srv) }, func() { closeIt(srv) })
			drained(srv)
			if c.Closes != 1 || oc.Closes != 0 {
				vrt.Fail("sockets were closed %d and %d times", c.Closes, oc.Closes)
			}
			oc.Inject(blob(2, 9), from(2))
			intact(vrt.Recv(other.RecvChan()), blob(2, 9), 2, "on the other endpoint")
			closeIt(other)
			drained(other)
			ended(c)
			ended(oc)
		}
		d := vrt.Opts{DelayAll: true}
		bs := []int{3}
		if thorough {
			bs = []int{3, 4}
		}
		s := []*Scn{
			{Name: "transient errors", Bulk: errorsBetween},
			{Name: "many transient errors", Bulk: runs},
			{Name: "closing with arrivals", Body: closing([]int{1, 2, 3}, 2, false), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "closing while sending", Body: closing([]int{1, 2}, 1, true), Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "closing a server", Body: rpcClose, Opts: d, Bounds: bs, RaceBounds: []int{2}},
			{Name: "errors, closing, two endpoints", Body: errorsAndClose, Opts: d, Bounds: bs, RaceBounds: []int{2}},
		}
		if thorough {
			s = append(s, &Scn{Name: "closing with arrivals, all orders at blocking points", Body: closing([]int{1, 2}, 2, false), Bounds: []int{1, 2, 3}, RaceBounds: []int{2}})
		}
		return s
	})
}
