package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// fetchTrial watches which peers the node connects to and for which torrent.
type fetchTrial struct {
	n     *crawler
	want  map[string][]string // dial address -> info hashes, one per announce
	maybe map[string]bool     // addresses of malformed announces
	// how the peers behave; an array, which other threads read without locks
	peers [256]struct {
		addr string
		f    func(c *vnet.TCPConn) error
	}
	np int
}

func newFetchTrial(workers, fetchers, queue int) *fetchTrial {
	t := &fetchTrial{n: prepare(workers, fetchers, queue), want: map[string][]string{}, maybe: map[string]bool{}}
	t.n.w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
		c := &vnet.TCPConn{}
		for i := range t.peers {
			if p := &t.peers[i]; p.addr == addr {
				if err := p.f(c); err != nil {
					return nil, err
				}
				return c, nil
			}
		}
		c.Finish(nil)
		return c, nil
	}
	t.n.run()
	return t
}

// ways a peer may treat the connection
const (
	peerCloses = iota
	peerRefuses
	peerBlackhole
	peerStalls
	peerGarbage
	peerResets
	peerWindowFull
	peerKinds
)

func behave(kind int, hash string) func(c *vnet.TCPConn) error {
	return func(c *vnet.TCPConn) error {
		switch kind {
		case peerCloses:
			c.Finish(nil)
		case peerRefuses:
			return errors.New("connection refused")
		case peerBlackhole:
			return vnet.Blackhole
		case peerStalls:
			c.Feed(handshakeBytes([]byte(hash), []byte(idB)))
		case peerGarbage:
			c.Feed([]byte(pattern(200, 3)))
		case peerResets:
			c.Feed(handshakeBytes([]byte(hash), []byte(idB))[:30])
			c.Finish(errors.New("connection reset by peer"))
		case peerWindowFull:
			c.WriteStall = true
		}
		return nil
	}
}

func (t *fetchTrial) peer(addr string, f func(c *vnet.TCPConn) error) {
	t.peers[t.np].addr, t.peers[t.np].f = addr, f
	t.np++
}

func announce(tx string, hash, port, implied interface{}) []byte {
	a := misc.Dict{"id": idA, "token": "tok"}
	set(a, "info_hash", hash)
	set(a, "port", port)
	set(a, "implied_port", implied)
	return query(tx, "announce_peer", a)
}

// verdict compares the connections made with the announces.
func (t *fetchTrial) verdict(what string) {
	w := t.n.w
	left := map[string][]string{}
	for a, hs := range t.want {
		left[a] = append([]string(nil), hs...)
	}
	tcp := map[string][]*vnet.TCPConn{}
	for _, c := range w.TCP {
		tcp[c.Addr] = append(tcp[c.Addr], c)
	}
	for _, a := range w.Dials {
		if len(left[a]) == 0 {
			if !t.maybe[a] {
				vrt.Fail("%s: a connection to %s is attempted, which no announce accounts for (all: %v)", what, a, w.Dials)
			}
			continue
		}
		// which of the hashes announced for this address?
		h := left[a][0]
		if cs := tcp[a]; len(cs) > 0 {
			tcp[a] = cs[1:]
			out := ""
			for _, b := range cs[0].Out {
				out += string(b)
			}
			if len(out) >= 68 {
				h = out[28:48]
			} else if !cs[0].WriteStall {
				vrt.Fail("%s: the connection to %s got only %q", what, a, out)
			}
		}
		hit := -1
		for i, x := range left[a] {
			if x == h {
				hit = i
			}
		}
		if hit < 0 {
			vrt.Fail("%s: %s is asked for torrent %x, announced there: %x", what, a, h, t.want[a])
		}
		left[a] = append(left[a][:hit:hit], left[a][hit+1:]...)
	}
	for a, hs := range left {
		if len(hs) > 0 {
			vrt.Fail("%s: torrents %x announced for %s are not fetched from there (connections: %v)", what, hs, a, w.Dials)
		}
	}
	for _, c := range w.TCP {
		if !c.Closed {
			vrt.Fail("%s: the connection to %s is left open", what, c.Addr)
		}
	}
}

func hashN(i int) string { return pattern(20, byte(i*29+5)) }

func init() {
	reg("C16", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}
		no := absent{}
		addresses := func(b *B) {
			srcs := []*net.UDPAddr{
				{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 6881}, {IP: net.IPv4(1, 2, 3, 4), Port: 6881}, {IP: net.IPv4(127, 0, 0, 1).To4(), Port: 1}, {IP: net.IPv4(255, 254, 253, 252).To4(), Port: 65535},
				{IP: net.ParseIP("2001:db8::7"), Port: 6881}, {IP: net.ParseIP("::1"), Port: 1}, {IP: net.ParseIP("fd00:1:2:3:4:5:6:7"), Port: 65535}, {IP: net.ParseIP("2001:db8:0:1::"), Port: 80},
				{IP: net.IPv4(10, 0, 0, 7).To4(), Port: 1023}, {IP: net.IPv4(192, 168, 0, 255), Port: 53}, {IP: net.IPv4(172, 16, 0, 1).To4(), Port: 21000}, {IP: net.ParseIP("fe80::1"), Port: 7},
			}
			for _, src := range srcs {
				for _, port := range []int{1, 80, 6881, 21000, 65535} {
					for _, im := range []interface{}{no, 0, 1, 2, 255, -1, -1 << 40, 1 << 40} {
						for _, h := range []string{hashN(1), string(make([]byte, 20)), nodeSelf(), idA, strings.Repeat("\xff", 20), "\xff\xfe\xfd\x00\x01\x02/../:%\n\r\t\"'AbZ"[:20]} {
							src, port, im, h := src, port, im, h
							b.Do(func() string {
								return b.Exec(o, func() {
									t := newFetchTrial(1, 1, 4)
									p := port
									if n, _ := im.(int); n > 0 {
										p = src.Port
									}
									a := net.JoinHostPort(src.IP.String(), fmt.Sprint(p))
									t.want[a] = []string{h}
									t.n.c.Inject(announce("aa", h, port, im), src)
									vrt.WaitQuiet()
									t.verdict(fmt.Sprintf("announce of port %d, implied_port %v from %v", port, im, src))
								})
							})
						}
					}
				}
			}
		}
		// ports that are none: never a connection to some other port
		noPorts := func(b *B) {
			for _, src := range []*net.UDPAddr{{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 6881}, {IP: net.ParseIP("2001:db8::7"), Port: 443}} {
				for _, port := range []int{0, -1, -80, 65536, 65536 + 80, 131071, 1 << 20, 1<<31 + 80, 1<<32 + 80, -1<<16 + 80, -1 << 63, 1<<63 - 1} {
					for _, im := range []interface{}{no, 0, 1, -1} {
						src, port, im := src, port, im
						b.Do(func() string {
							return b.Exec(o, func() {
								t := newFetchTrial(1, 1, 4)
								// it need not be tried at all
								t.maybe[net.JoinHostPort(src.IP.String(), fmt.Sprint(port))] = true
								if n, _ := im.(int); n > 0 {
									t.maybe[src.String()] = true
								}
								good := from(3)
								t.want[good.String()] = []string{hashN(3)}
								t.n.c.Inject(announce("aa", hashN(1), port, im), src)
								t.n.c.Inject(announce("ab", hashN(3), 9, 1), good)
								vrt.WaitQuiet()
								t.verdict(fmt.Sprintf("announce of port %d, implied_port %v from %v", port, im, src))
							})
						})
					}
				}
			}
		}
		// one announce of a sequence
		const kinds = peerKinds + 5
		step := func(t *fetchTrial, i, kind int) {
			h := hashN(i)
			src := from(i)
			a := src.String()
			if i%2 == 0 {
				a = net.JoinHostPort(src.IP.String(), fmt.Sprint(7000+i))
			}
			im := []interface{}{0, 1}[i%2]
			switch {
			case kind < peerKinds:
				t.want[a] = append(t.want[a], h)
				t.peer(a, behave(kind, h))
				t.n.c.Inject(announce(fmt.Sprint(i), h, 7000+i, im), src)
			case kind == peerKinds:
				t.maybe[a] = true
				t.n.c.Inject(announce(fmt.Sprint(i), h[:19], 7000+i, im), src)
			case kind == peerKinds+1:
				t.maybe[a] = true
				t.n.c.Inject(announce(fmt.Sprint(i), h+h, 7000+i, im), src)
			case kind == peerKinds+2:
				t.maybe[a] = true
				t.n.c.Inject(announce(fmt.Sprint(i), "", 7000+i, im), src)
			case kind == peerKinds+3: // rejected
				t.n.c.Inject(announce(fmt.Sprint(i), h, absent{}, im), src)
			case kind == peerKinds+4: // not an announce
				t.n.c.Inject(query(fmt.Sprint(i), "get_peers", misc.Dict{"id": idA, "info_hash": h, "port": 7000 + i, "implied_port": 1}), src)
			}
		}
		sequences := func(n int, configs [][3]int, limit []int) func(b *B) {
			return func(b *B) {
				var seq []int
				var rec func()
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(seq) == n {
						s := append([]int(nil), seq...)
						for _, cf := range configs {
							cf := cf
							for burst := 0; burst < 2; burst++ {
								burst := burst
								b.Do(func() string {
									return b.Exec(o, func() {
										t := newFetchTrial(cf[0], cf[1], cf[2])
										for i, k := range s {
											step(t, i, k)
											if burst == 0 {
												vrt.WaitIdle()
											}
										}
										vrt.WaitQuiet()
										step(t, n, peerCloses)
										vrt.WaitQuiet()
										t.verdict(fmt.Sprintf("%d workers, %d fetchers, queue %d, announces of kinds %v", cf[0], cf[1], cf[2], s))
									})
								})
							}
						}
						return
					}
					for _, k := range limit {
						seq = append(seq, k)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}
		all := make([]int, kinds)
		for i := range all {
			all[i] = i
		}
		// long bursts, repeated hashes and peers
		bursts := func(b *B) {
			for _, cf := range [][3]int{{1, 1, 0}, {1, 1, 1}, {2, 1, 3}, {3, 2, 1}, {1, 4, 100}, {4, 4, 2}} {
				for _, n := range []int{2, 10, 60, 150} {
					for v := 0; v < 4; v++ {
						cf, n, v := cf, n, v
						b.Do(func() string {
							return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, func() {
								t := newFetchTrial(cf[0], cf[1], cf[2])
								for i := 0; i < n; i++ {
									switch v {
									case 0:
										step(t, i, peerCloses)
									case 1:
										step(t, i, i%peerKinds)
									case 2: // one peer, one torrent
										a := from(1).String()
										t.want[a] = append(t.want[a], hashN(1))
										t.n.c.Inject(announce(fmt.Sprint(i), hashN(1), 9, 1), from(1))
									case 3: // one torrent, many peers
										src := from(i)
										t.want[src.String()] = append(t.want[src.String()], hashN(1))
										t.n.c.Inject(announce(fmt.Sprint(i), hashN(1), 9, 1), src)
									}
									if i%40 == 39 { // the endpoint's own queue holds 100
										vrt.WaitQuiet()
									}
								}
								vrt.WaitQuiet()
								t.verdict(fmt.Sprintf("%d workers, %d fetchers, queue %d, %d announces (%d)", cf[0], cf[1], cf[2], n, v))
							})
						})
					}
				}
			}
		}
		// fetches that succeed, announced again and again, by the same peer and by others
		again := func(n int) func(b *B) {
			return func(b *B) {
				const nk = 7
				total := 1
				for i := 0; i < n; i++ {
					total *= nk
				}
				for x := 0; x < total; x++ {
					for _, cf := range [][3]int{{1, 1, 4}, {2, 2, 1}} {
						for burst := 0; burst < 2; burst++ {
							x, cf, burst := x, cf, burst
							b.Do(func() string {
								return b.Exec(o, func() {
									t := newFetchTrial(cf[0], cf[1], cf[2])
									metas := [][]byte{metaBytes(60, 1), metaBytes(20000, 2)}
									var seq []int
									for _, a := range []int{1, 2, 3} {
										src := from(a)
										a := a
										t.peer(src.String(), func(c *vnet.TCPConn) error {
											if a == 3 {
												c.Finish(nil)
											} else {
												// the torrent this connection is about shows in its handshake
												var hs []byte
												c.OnWrite = func(c *vnet.TCPConn, b []byte) error {
													hs = append(hs, b...)
													if len(hs) < 68 {
														return nil
													}
													m := metas[0]
													if string(hs[28:48]) == string(sum(metas[1])) {
														m = metas[1]
													}
													p := newPeer(m, 7)
													p.attach(c)
													p.recv(hs)
													return nil
												}
											}
											return nil
										})
									}
									for i, y := 0, x; i < n; i, y = i+1, y/nk {
										k := y % nk
										seq = append(seq, k)
										if k == nk-1 {
											t.n.c.Inject(query(fmt.Sprint(i), "get_peers", misc.Dict{"id": idA, "info_hash": string(sum(metas[0]))}), from(1))
										} else {
											src, h := from(1+k%3), string(sum(metas[k/3]))
											t.want[src.String()] = append(t.want[src.String()], h)
											t.n.c.Inject(announce(fmt.Sprint(i), h, 9, 1), src)
										}
										if burst == 0 {
											vrt.WaitIdle()
										}
									}
									vrt.WaitQuiet()
									t.verdict(fmt.Sprintf("%d workers, %d fetchers, queue %d, torrents announced again: %v", cf[0], cf[1], cf[2], seq))
								})
							})
						}
					}
				}
			}
		}
		// announces that come over days, the same ones included
		slow := func(b *B) {
			for _, gap := range []time.Duration{3 * time.Second, time.Minute, time.Hour, 30 * 24 * time.Hour} {
				for v := 0; v < 4; v++ {
					gap, v := gap, v
					b.Do(func() string {
						return b.Exec(o, func() {
							t := newFetchTrial(1, 1, 4)
							for i := 0; i < 60; i++ {
								k := i
								switch v {
								case 1: // the same one
									k = 1
								case 2: // a few again and again
									k = i % 3
								}
								src, h := from(k), hashN(k)
								if v == 3 { // one host, many torrents; it stalls every third time
									src, h = from(1), hashN(i)
								}
								a := src.String()
								if len(t.want[a]) == 0 {
									n := 0
									t.peer(a, func(c *vnet.TCPConn) error {
										if n++; v == 3 && n%3 == 0 {
											c.Feed(handshakeBytes([]byte(h), []byte(idB)))
											return nil
										}
										c.Finish(nil)
										return nil
									})
								}
								t.want[a] = append(t.want[a], h)
								t.n.c.Inject(announce(fmt.Sprint(i), h, 9, 1), src)
								vrt.WaitQuiet()
								vtime.Sleep(gap)
							}
							t.verdict(fmt.Sprintf("60 announces, %v apart (%d)", gap, v))
						})
					})
				}
			}
		}
		// peers that take their time hold up nobody while a fetcher is free
		atOnce := func(b *B) {
			for _, workers := range []int{1, 3} {
				for _, fetchers := range []int{1, 2, 3, 5, 20} {
					for _, queue := range []int{0, 1, 30} {
						for _, n := range []int{1, 2, 3, 6, 25} {
							for x := 0; x < 9; x++ {
								k := []int{peerStalls, peerBlackhole, peerWindowFull}[x%3]
								// every torrent another, all the same, all the same and from one host
								same := x / 3
								workers, fetchers, queue, n := workers, fetchers, queue, n
								b.Do(func() string {
									return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, func() {
										t := newFetchTrial(workers, fetchers, queue)
										for i := 0; i < n; i++ {
											if same == 0 {
												step(t, i, k)
											} else {
												src, h := from(i), hashN(1)
												if same == 2 {
													src = from(1)
												}
												a := src.String()
												t.want[a] = append(t.want[a], h)
												if same == 1 || i == 0 {
													t.peer(a, behave(k, h))
												}
												t.n.c.Inject(announce(fmt.Sprint(i), h, 7000+i, 1), src)
											}
											vrt.WaitIdle()
										}
										want := n
										if want > fetchers {
											want = fetchers
										}
										what := fmt.Sprintf("%d workers, %d fetchers, queue %d, %d announces of peers that take their time (%d), torrents and hosts %d", workers, fetchers, queue, n, k, same)
										if len(t.n.w.Dials) != want {
											vrt.Fail("%s: %d fetches run at a time", what, len(t.n.w.Dials))
										}
										vrt.WaitQuiet()
										t.verdict(what)
									})
								})
							}
						}
					}
				}
			}
		}
		// schedules of workers, queue and fetchers
		race := func(workers, fetchers, queue, n int, kinds ...int) func() {
			return func() {
				t := newFetchTrial(workers, fetchers, queue)
				hash := hashN
				if same := vrt.Choose(2); same == 1 {
					hash = func(i int) string { return hashN(1) }
				}
				for i := 0; i < n; i++ {
					k := kinds[i%len(kinds)]
					h, src := hash(i), from(i)
					a := src.String()
					t.want[a] = append(t.want[a], h)
					t.peer(a, behave(k, h))
				}
				for i := 0; i < n; i++ {
					t.n.c.Inject(announce(fmt.Sprint(i), hash(i), 7000+i, 1), from(i))
				}
				vrt.WaitQuiet()
				t.verdict(fmt.Sprintf("%d workers, %d fetchers, queue %d, %d announces at once", workers, fetchers, queue, n))
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true, MaxSteps: 1 << 20}
		b, n := []int{2}, 3
		cfs := [][3]int{{1, 1, 1}, {2, 2, 1}}
		if thorough {
			b, n = []int{2, 3, 4}, 4
			cfs = append(cfs, [3]int{1, 1, 0}, [3]int{1, 2, 2})
		}
		return []*Scn{
			{Name: "addresses", Bulk: addresses},
			{Name: "ports out of range", Bulk: noPorts},
			{Name: "sequences of announces", Bulk: sequences(n, cfs, all)},
			{Name: "pairs, all configurations", Bulk: sequences(2, [][3]int{{1, 1, 0}, {1, 1, 5}, {3, 1, 1}, {1, 3, 1}, {3, 3, 0}, {2, 1, 2}}, all)},
			{Name: "bursts", Bulk: bursts},
			{Name: "torrents announced again", Bulk: again(n)},
			{Name: "announces over days", Bulk: slow},
			{Name: "fetches at a time", Bulk: atOnce},
			{Name: "schedules, 1 worker, 1 fetcher, queue 1, 3 announces", Body: race(1, 1, 1, 3, peerCloses), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "schedules, 2 workers, 2 fetchers, queue 1, 2 announces", Body: race(2, 2, 1, 2, peerCloses, peerRefuses), Opts: d, Bounds: b, RaceBounds: []int{1}},
			{Name: "schedules, 2 workers, 1 fetcher, no queue, 3 announces", Body: race(2, 1, 0, 3, peerCloses, peerGarbage), Opts: d, Bounds: []int{1, 2}, RaceBounds: []int{1}},
			{Name: "schedules, 2 workers, 2 fetchers, queue 2, stalling and refusing peers", Body: race(2, 2, 2, 3, peerRefuses, peerStalls), Opts: d, Bounds: []int{1, 2}, RaceBounds: []int{1}},
		}
	})
}
