package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// absent marks a field that is left out.
type absent struct{}

func set(d misc.Dict, k string, v interface{}) {
	if _, no := v.(absent); !no {
		d[k] = v
	}
}

func init() {
	reg("C04", func(thorough bool) []*Scn {
		hash := pattern(20, 9)
		sources := []*net.UDPAddr{
			{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 6881},
			{IP: net.IPv4(255, 0, 0, 1), Port: 65535},
			{IP: net.ParseIP("2001:db8::7"), Port: 1},
			{IP: net.ParseIP("fe80::1"), Port: 9, Zone: "eth0"},
			{IP: net.IPv4(127, 0, 0, 1).To4(), Port: 21000}, {IP: net.IPv4(10, 0, 0, 7), Port: 53}, {IP: net.IPv4(192, 168, 0, 255).To4(), Port: 1023},
		}
		o := vrt.Opts{NoEarly: true}
		// each case: datagrams handed to a fresh node one after the other
		one := func(b *B, src *net.UDPAddr, qs ...[]byte) {
			if b.Stopped() {
				return
			}
			b.Do(func() string {
				return b.Exec(o, func() {
					n := prepare(1, 1, 10)
					n.run()
					var id nodeID
					for _, q := range qs {
						n.c.Inject(q, src)
						vrt.WaitQuiet()
						if m := id.check(q, src, n.replies()); m != "" {
							vrt.Fail("%s", m)
						}
					}
				})
			})
		}
		args := func(id, h, port, implied, target, token interface{}) misc.Dict {
			a := misc.Dict{}
			set(a, "id", id)
			set(a, "info_hash", h)
			set(a, "port", port)
			set(a, "implied_port", implied)
			set(a, "target", target)
			set(a, "token", token)
			return a
		}
		msg := func(t, y, q, a interface{}) []byte {
			d := misc.Dict{}
			set(d, "t", t)
			set(d, "y", y)
			set(d, "q", q)
			set(d, "a", a)
			return benc(d)
		}
		no := absent{}
		ms := []interface{}{"ping", "find_node", "get_peers", "announce_peer", "vote", "PING", "", no, 7, misc.List{"ping"}, misc.Dict{}}
		ids := []interface{}{idA, nodeSelf(), string(make([]byte, 20)), pattern(20, 200), "19 bytes 1234567890"[:19], "21 bytes 123456789012", "", no, 5, misc.List{idA}, misc.Dict{}}
		hashes := []interface{}{hash, nodeSelf(), string(make([]byte, 20)), idA, pattern(19, 3), pattern(21, 3), "", no, 5, misc.List{hash}, misc.Dict{}}
		ports := []interface{}{6881, 0, 1, 65535, 65536, -1, 1 << 40, "6881", no, misc.List{1}, misc.Dict{}}
		implied := []interface{}{no, 1, 0, 2, -1, "1", misc.List{}}
		txs := []interface{}{"aa", "", "x", "\x00\xff:", pattern(64, 1), pattern(300, 7), "de", "1:"}
		fields := func(b *B) {
			for _, m := range ms {
				for i, id := range ids {
					for h, hv := range hashes {
						for p, pv := range ports {
							for k, im := range implied {
								// full product for the well-formed part, two deviations elsewhere
								dev := 0
								for _, x := range []int{i, h, p, k} {
									if x > 1 {
										dev++
									}
								}
								if dev > 2 && !thorough {
									continue
								}
								one(b, sources[0], msg("aa", "q", m, args(id, hv, pv, im, hash, "tok")))
							}
						}
					}
				}
			}
			for _, m := range ms {
				for _, t := range append(txs, no, 5, misc.List{"aa"}, misc.Dict{}) {
					for _, y := range []interface{}{"q", "r", "e", "x", "", "qq", "Q", no, 1, misc.List{"q"}, misc.Dict{}} {
						one(b, sources[1], msg(t, y, m, args(idA, hash, 80, no, hash, "tok")))
						one(b, sources[2], msg(t, y, m, misc.Dict{"id": "short"}))
					}
				}
				for _, a := range []interface{}{no, "string", 12, misc.List{idA}, misc.Dict{}, misc.Dict{"id": idA}, misc.Dict{"target": hash}} {
					for _, s := range sources {
						one(b, s, msg("tt", "q", m, a))
					}
				}
				for _, tok := range []interface{}{no, "", 5, pattern(200, 1), misc.List{}} {
					for _, target := range []interface{}{no, "", 5, hash, nodeSelf(), idA, pattern(21, 1), misc.List{}} {
						for _, s := range sources {
							one(b, s, msg("tt", "q", m, args(idA, hash, 80, 0, target, tok)))
						}
					}
				}
				// fields a node must ignore
				for _, x := range []misc.Dict{{"v": "LT01"}, {"ro": 1}, {"ip": "x"}, {"r": misc.Dict{"id": idB}}, {"e": misc.List{201, "no"}}, {"zz": misc.List{misc.Dict{"a": 1}}}} {
					d := misc.Dict{"t": "aa", "y": "q", "q": m, "a": misc.Dict{"id": idA, "info_hash": hash, "port": 5, "target": hash, "want": misc.List{"n4"}, "extra": misc.Dict{}}}
					if _, is := m.(absent); is {
						delete(d, "q")
					}
					for k, v := range x {
						d[k] = v
					}
					one(b, sources[0], benc(d))
				}
			}
			// every length up to the limit
			for l := 0; l < 1024; l++ {
				q := benc(misc.Dict{"t": "aa", "y": "q", "q": methods[l%4], "a": misc.Dict{"id": idA, "info_hash": hash, "target": hash, "port": l, "x": ""}})
				if len(q)+l+3 > 1024 {
					break
				}
				one(b, sources[l%3], benc(misc.Dict{"t": "aa", "y": "q", "q": methods[l%4], "a": misc.Dict{"id": idA, "info_hash": hash, "target": hash, "port": l, "x": pattern(l, byte(l))}}))
			}
		}
		// sequences of different messages on one node
		kinds := [][]byte{
			query("p1", "ping", misc.Dict{"id": idA}),
			query("f1", "find_node", misc.Dict{"id": idB, "target": hash}),
			query("g1", "get_peers", misc.Dict{"id": idA, "info_hash": hash}),
			query("a1", "announce_peer", misc.Dict{"id": idA, "info_hash": hash, "port": 6881, "token": "t"}),
			query("a2", "announce_peer", misc.Dict{"id": idA, "info_hash": hash, "port": "x"}),
			query("p2", "ping", misc.Dict{"id": "short"}),
			query("v1", "vote", misc.Dict{"id": idA}),
			msg("q3", "q", "ping", no),
			response("p1", misc.Dict{"id": idB}),
			response("03e9", misc.Dict{"id": idB, "nodes": pattern(52, 1)}),
			benc(misc.Dict{"t": "p1", "y": "e", "e": misc.List{201, "sorry"}}),
			[]byte("d1:y1:q"), []byte("le"), {},
		}
		seqs := func(b *B) {
			for _, x := range kinds {
				for _, y := range kinds {
					one(b, sources[0], x, y, y)
					for _, z := range kinds {
						one(b, sources[1], x, y, z)
					}
				}
			}
			// a reply that cannot be sent does not affect the next query
			for _, x := range kinds {
				for _, y := range kinds[:4] {
					x, y := x, y
					b.Do(func() string {
						return b.Exec(o, func() {
							n := prepare(1, 1, 10)
							n.run()
							n.w.OnSend = func(*vnet.UDPConn, []byte, *net.UDPAddr) error { return errors.New("network is unreachable") }
							n.c.Inject(x, sources[0])
							vrt.WaitQuiet()
							n.w.OnSend = nil
							n.replies()
							n.c.Inject(y, sources[1])
							vrt.WaitQuiet()
							if m := new(nodeID).check(y, sources[1], n.replies()); m != "" {
								vrt.Fail("after a reply that could not be sent: %s", m)
							}
						})
					})
				}
			}
		}
		// transaction ids of every length, of every byte, and ones that look like something else
		ids_ := func(b *B) {
			for l := 0; l < 900; l++ {
				one(b, sources[l%3], query(pattern(l, byte(l)), methods[l%4], misc.Dict{"id": idB, "info_hash": hash, "port": 1, "target": hash}), query(pattern(l, byte(l+9)), "vote", misc.Dict{"id": idB}))
			}
			for c := 0; c < 256; c++ {
				k := string([]byte{byte(c)})
				node := []byte(idB)
				node[c%20] = byte(c)
				one(b, sources[c%3], query(k, methods[c%4], misc.Dict{"id": string(node), "info_hash": hash, "port": c, "target": hash}), query(k+k, "ping", misc.Dict{"id": string(node)}), query("a"+k, k, misc.Dict{"id": idA}))
			}
			// names that resemble those of queries
			for i, m := range methods {
				for _, r := range []string{" " + m, m + " ", m + "\n", m + "\x00", "\x00" + m, m[1:], m[:len(m)-1], m + "s", m + m, strings.ToUpper(m), strings.Title(m), strings.ReplaceAll(m, "_", ""), strings.ReplaceAll(m, "_", "-"), `"` + m + `"`, m + ":", "." + m, strings.Repeat(m, 40)} {
					one(b, sources[i%3], query("aa", r, args(idA, hash, 80, no, hash, "tok")), query("ab", m, args(idA, hash, 80, no, hash, "tok")))
				}
			}
			for _, t := range []string{"00", "0", "-1", " ", "aa ", " aa", "aa\n", "nil", "null", "r", "q", "e", "1:q", "i5e", "%s", "%d%n", "\\x00", "../..", "A\u0301"} {
				one(b, sources[0], query(t, "ping", misc.Dict{"id": idA}), query(t, "get_peers", misc.Dict{"id": idA}))
			}
		}
		// long conversations: one or several senders, at once or over days
		long := func(b *B) {
			for pat := 0; pat < 8; pat++ {
				for _, gap := range []time.Duration{0, time.Millisecond, 45 * time.Second, 26 * time.Hour} {
					pat, gap := pat, gap
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, func() {
							n := prepare(1, 1, 10)
							n.run()
							var id nodeID
							total := 1200
							if gap > 0 {
								total = 400
							}
							for i := 0; i < total; i++ {
								d := misc.Dict{"id": idA, "info_hash": hash, "target": hash}
								tx, m, src := fmt.Sprintf("%x", i), methods[i%3], sources[0]
								switch pat {
								case 1: // the very same datagram
									tx, m = "aa", "ping"
								case 2: // the same transaction id
									tx = "aa"
								case 3: // refused ones
									m = "vote"
								case 4: // always another host
									src = &net.UDPAddr{IP: net.IPv4(10, 1, byte(i>>8), byte(i)).To4(), Port: 1000 + i}
								case 5: // one host, always another port and id
									src = &net.UDPAddr{IP: net.IPv4(10, 1, 1, 1).To4(), Port: 1000 + i}
									d["id"] = pattern(20, byte(i))
								case 6: // mostly rubbish
									if i%5 != 4 {
										n.c.Inject([]byte("rubbish"), src)
										vrt.WaitQuiet()
										continue
									}
								case 7: // announces of one torrent, refused
									m, d["port"] = "announce_peer", "x"
								}
								q := query(tx, m, d)
								n.c.Inject(q, src)
								vrt.WaitQuiet()
								if s := id.check(q, src, n.replies()); s != "" {
									vrt.Fail("datagram %d of a conversation, %v apart: %s", i, gap, s)
								}
								if gap > 0 && i%8 == 7 {
									vtime.Sleep(gap)
								}
							}
						})
					})
				}
			}
		}
		// queries that carry the transaction id of a query the node itself has outstanding
		outstanding := func(b *B) {
			for _, m := range ms {
				for step := 0; step < 3; step++ {
					for _, same := range []bool{true, false} {
						m, step, same := m, step, same
						b.Do(func() string {
							return b.Exec(o, func() {
								n := prepare(1, 1, 10)
								dht.BootStrap("87.98.162.88:6881")
								n.run()
								sent := n.replies()
								if step > 0 && len(sent) > 0 { // the answer names nodes, which are asked
									tx, _ := decoded(sent[0].Data)["t"].(string)
									nodes := ""
									for k := 0; k < 8; k++ {
										nodes += mkContact(k).compact()
									}
									n.c.Inject(response(tx, misc.Dict{"id": idB, "nodes": nodes}), sent[0].Addr)
									vrt.WaitQuiet()
									if step == 1 {
										sent = nil
									}
									sent = append(sent, n.replies()...)
								}
								var id nodeID
								for i, p := range sent {
									tx, ok := decoded(p.Data)["t"].(string)
									if !ok {
										continue
									}
									src := p.Addr
									if !same {
										src = sources[i%4]
									}
									q := msg(tx, "q", m, args(idA, hash, 80, no, hash, "tok"))
									for k := 0; k < 2; k++ {
										n.c.Inject(q, src)
										vrt.WaitQuiet()
										if s := id.check(q, src, n.replies()); s != "" {
											vrt.Fail("the node has query %q outstanding: %s", tx, s)
										}
									}
								}
							})
						})
					}
				}
			}
		}
		// any number of further fields, in the arguments and beside them
		extra := func(b *B) {
			for _, m := range append(methods, "vote") {
				for k := 0; k <= 60; k++ {
					for where := 0; where < 4; where++ {
						a := args(idA, hash, 80, no, hash, "tok")
						d := misc.Dict{"t": "aa", "y": "q", "q": m, "a": a}
						want := misc.List{}
						for i := 0; i < k; i++ {
							var v interface{} = i
							switch (i + k) % 5 {
							case 1:
								v = "s"
							case 2:
								v = misc.List{}
							case 3:
								v = misc.Dict{"a": i}
							case 4:
								v = ""
							}
							key := fmt.Sprintf("%c%d", 'A'+byte(i*7%58), i)
							if where == 0 || where == 2 {
								a[key] = v
							}
							if where == 1 || where == 2 {
								d[key] = v
							}
							if where == 3 { // one list of many
								want = append(want, v)
								a["want"] = want
							}
						}
						if q := benc(d); len(q) <= 1024 {
							one(b, sources[k%4], q)
						}
					}
				}
			}
		}
		// several queries at once, two workers
		concurrent := func(nq int) func() {
			return func() {
				n := prepare(2, 1, 1)
				n.run()
				sc := scripts(nq, 1, 6)
				var qs [4][]byte
				var to [4]*net.UDPAddr
				for i := 0; i < nq; i++ {
					d := misc.Dict{"id": idA, "info_hash": hash, "port": i + 1, "target": hash}
					tx := fmt.Sprint("t", i)
					switch k := sc[i][0]; k {
					case 0, 1, 2, 3:
						qs[i] = query(tx, methods[k], d)
					case 4:
						qs[i] = query(tx, "vote", d)
					case 5:
						qs[i] = query(tx, "announce_peer", misc.Dict{"id": idA})
					}
					to[i] = from(i)
					n.c.Inject(qs[i], to[i])
				}
				vrt.WaitQuiet()
				all := n.replies()
				if len(all) != nq {
					vrt.Fail("%d queries, %d replies", nq, len(all))
				}
				var id nodeID
				for i := 0; i < nq; i++ {
					var mine []vnet.Pkt
					for _, p := range all {
						if decoded(p.Data)["t"] == fmt.Sprint("t", i) {
							mine = append(mine, p)
						}
					}
					if m := id.check(qs[i], to[i], mine); m != "" {
						vrt.Fail("%s", m)
					}
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true}
		b2 := []int{2}
		if thorough {
			b2 = []int{3}
		}
		return []*Scn{
			{Name: "fields of one datagram", Bulk: fields},
			{Name: "sequences of three datagrams", Bulk: seqs},
			{Name: "transaction ids", Bulk: ids_},
			{Name: "long conversations", Bulk: long},
			{Name: "transaction ids the node uses itself", Bulk: outstanding},
			{Name: "many further fields", Bulk: extra},
			{Name: "2 queries at once", Body: concurrent(2), Opts: d, Bounds: b2, RaceBounds: []int{1}},
			{Name: "3 queries at once", Body: concurrent(3), Opts: d, Bounds: []int{1}, RaceBounds: []int{0}},
		}
	})
}
