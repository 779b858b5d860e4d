package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// walk follows what a crawling node asks and compares it with the reference table.
type walk struct {
	n       *crawler
	own     string // the node's id
	tab     *table
	open    []ask // queries not yet answered
	all     map[string]bool
	refused map[string]bool // addresses a send to which fails
	rid     string          // the responder's id, idB if empty
	rest    misc.Dict       // further fields of the response
}

type ask struct {
	tx string
	to *net.UDPAddr
}

func (k *walk) prefail(a contact) string { return fmt.Sprint(a.ip, a.port) }

// question judges one datagram the node sent as a find_node query for its own id.
func (k *walk) question(p vnet.Pkt) ask {
	d := decoded(p.Data)
	a := dictAt(d, "a")
	tx, _ := d["t"].(string)
	if d["y"] != "q" || d["q"] != "find_node" || tx == "" {
		vrt.Fail("the node sends %q instead of a find_node query", clip(p.Data))
	}
	id, _ := a["id"].(string)
	if k.own == "" {
		k.own = id
		k.tab = newTable(node{contact{id, [4]byte{}, -1}, "host"}, 8, 160)
		k.all = map[string]bool{}
	}
	if len(id) != 20 || id != k.own || a["target"] != k.own {
		vrt.Fail("the node asks for target %q with id %q, its own id is %q", a["target"], id, k.own)
	}
	if k.all[tx] {
		vrt.Fail("transaction id %q is used twice", tx)
	}
	k.all[tx] = true
	return ask{tx, p.Addr}
}

// startWalk bootstraps a fresh node.
func startWalk(workers int, host string) *walk {
	k := &walk{n: prepare(workers, 1, 5), refused: map[string]bool{}}
	dht.BootStrap(host)
	r := k.n.replies()
	if len(r) != 1 {
		vrt.Fail("bootstrapping from %s sends %d datagrams", host, len(r))
	}
	if r[0].Addr.String() != host {
		vrt.Fail("bootstrapping from %s asks %v", host, r[0].Addr)
	}
	k.open = append(k.open, k.question(r[0]))
	k.n.run()
	vrt.WaitQuiet()
	return k
}

// flip inverts one bit of an id.
func flip(id string, bit int) string {
	b := []byte(id)
	b[bit/8] ^= 0x80 >> (bit % 8)
	return string(b)
}

func nodesOf(cs []contact) string {
	s := ""
	for _, c := range cs {
		s += c.compact()
	}
	return s
}

// asked judges the queries sent since the last call: one for each of the
// contacts newly accepted, none for those refused, either for those known.
func (k *walk) asked(lists ...[]contact) {
	must, may := map[string]int{}, map[string]int{}
	for _, l := range lists {
		for _, c := range l {
			a := k.prefail(c)
			nd := node{c, ""}
			if k.tab.has(nd) {
				may[a]++
			} else if k.tab.add(nd) {
				must[a]++
			}
		}
	}
	got := map[string]int{}
	for _, p := range k.n.replies() {
		q := k.question(p)
		var ip [4]byte
		if p.Addr.IP.To4() == nil {
			vrt.Fail("a query goes to %v, no contact listed has that address", p.Addr)
		}
		copy(ip[:], p.Addr.IP.To4())
		got[fmt.Sprint(ip, p.Addr.Port)]++
		k.open = append(k.open, q)
	}
	for a := range got {
		if must[a]+may[a] == 0 {
			vrt.Fail("contacts %v: a query is sent to %s, where no accepted contact is", lists, a)
		}
	}
	for a, m := range must {
		if k.refused[a] {
			continue
		}
		if got[a] < m || got[a] > m+may[a] {
			vrt.Fail("contacts %v: %d queries are sent to %s, of the contacts there %d are new to the routing table and %d known", lists, got[a], a, m, may[a])
		}
	}
	for a, m := range may {
		if must[a] == 0 && got[a] > m {
			vrt.Fail("contacts %v: %d queries are sent to the known contact %s listed %d times", lists, got[a], a, m)
		}
	}
}

// answer answers open query i with a list of contacts.
func (k *walk) answer(i int, cs []contact, extra string) {
	q := k.open[i]
	k.open = append(append([]ask(nil), k.open[:i]...), k.open[i+1:]...)
	r := misc.Dict{"id": idB, "nodes": nodesOf(cs) + extra}
	if k.rid != "" {
		r["id"] = k.rid
	}
	for f, v := range k.rest {
		r[f] = v
	}
	k.n.c.Inject(response(q.tx, r), q.to)
	vrt.WaitQuiet()
	k.asked(cs)
}

// peer makes a contact sharing cpl bits with the node's own id.
func (k *walk) peer(cpl, v int) contact {
	return contact{idAt(k.own, cpl, byte(v)), [4]byte{10, byte(cpl), byte(v), byte(v >> 8)}, 1000 + v}
}

func init() {
	reg("C15", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true}
		big := vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}
		const boot = "87.98.162.88:6881"

		bootstrap := func(b *B) {
			for _, h := range []string{boot, "1.2.3.4:1", "255.255.255.255:65535", "127.0.0.1:21000", "[2001:db8::1]:6881", "10.0.0.1:0"} {
				for n := 1; n <= 3; n++ {
					h, n := h, n
					b.Do(func() string {
						return b.Exec(o, func() {
							k := startWalk(1, h)
							for i := 1; i < n; i++ {
								dht.BootStrap(h)
							}
							for _, p := range k.n.replies() {
								if p.Addr.String() != h {
									vrt.Fail("bootstrapping from %s asks %v", h, p.Addr)
								}
								k.open = append(k.open, k.question(p))
							}
							if len(k.open) != n {
								vrt.Fail("bootstrapping %d times sends %d queries", n, len(k.open))
							}
							for i := 0; len(k.open) > 0 && i < n; i++ {
								k.answer(0, []contact{k.peer(i, 1), k.peer(100, i)}, "")
							}
						})
					})
				}
			}
		}

		// lists of one response: every length, every class, every shape of overflow
		lists := func(b *B) {
			do := func(name string, mk func(k *walk) ([]contact, string)) {
				b.Do(func() string {
					return b.Exec(big, func() {
						k := startWalk(1, boot)
						cs, extra := mk(k)
						k.answer(0, cs, extra)
						// each of those asked answers with one more contact
						for i := 0; i < 3 && len(k.open) > 0; i++ {
							k.answer(len(k.open)/2, []contact{k.peer(3+i, 200)}, "")
						}
					})
				})
			}
			for n := 0; n <= 36; n++ {
				for extra := 0; extra <= 25; extra += 5 {
					n, extra := n, extra
					if 26*n+extra > 930 {
						continue
					}
					do("", func(k *walk) (cs []contact, s string) {
						for i := 0; i < n; i++ {
							cs = append(cs, k.peer(i%7, i))
						}
						return cs, string(make([]byte, extra))
					})
				}
			}
			for cpl := 0; cpl <= 160; cpl++ {
				for _, n := range []int{1, 7, 8, 9, 12} {
					cpl, n := cpl, n
					if cpl > 150 && n > 1 {
						continue
					}
					do("", func(k *walk) (cs []contact, s string) {
						for i := 0; i < n; i++ {
							cs = append(cs, k.peer(cpl, i))
						}
						return cs, ""
					})
				}
			}
			// ids of the node itself and of the deepest classes at many addresses
			for cpl := 150; cpl <= 160; cpl++ {
				for n := 1; n <= 12; n++ {
					cpl, n := cpl, n
					do("", func(k *walk) (cs []contact, s string) {
						for i := 0; i < n; i++ {
							c := k.peer(cpl, 0)
							c.port += i
							cs = append(cs, c)
						}
						return cs, ""
					})
				}
			}
			// who answers, and what else the answer holds
			for i := 0; i < 9; i++ {
				for j, ex := range []misc.Dict{nil, {"token": "t", "v": "x"}, {"values": misc.List{"abcdef"}}, {"nodes6": pattern(38, 1), "p": 6881}, {"target": string(make([]byte, 20))}} {
					i, j, ex := i, j, ex
					do("", func(k *walk) (cs []contact, s string) {
						cs = []contact{k.peer(2, j), k.peer(7, i)}
						k.rest = ex
						k.rid = []string{"", k.own, string(make([]byte, 20)), strings.Repeat("\xff", 20), cs[0].id, cs[1].id, flip(k.own, 159), flip(k.own, 0), strings.Repeat("e", 20)}[i]
						return cs, ""
					})
				}
			}
			// odd addresses and repetitions
			odd := [][4]byte{{0, 0, 0, 0}, {255, 255, 255, 255}, {127, 0, 0, 1}, {224, 0, 0, 1}, {10, 0, 0, 1}}
			for i := range odd {
				for _, port := range []int{0, 1, 21000, 65535} {
					i, port := i, port
					do("", func(k *walk) (cs []contact, s string) {
						c := k.peer(5, 1)
						c.ip, c.port = odd[i], port
						e := k.peer(6, 2)
						e.ip, e.port = odd[i], port
						h := c
						h.id = k.own
						return []contact{c, e, c, h, k.peer(5, 9)}, ""
					})
				}
			}
		}

		// sequences of answers, unsolicited messages and other datagrams
		sequences := func(depth, variants int) func(b *B) {
			return func(b *B) {
				var seq []int
				var rec func()
				const nl, kinds = 6, 6
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(seq) == depth {
						s := append([]int(nil), seq...)
						b.Do(func() string {
							return b.Exec(big, func() {
								k := startWalk(1, boot)
								var old []ask
								next := 0
								fresh := func(cpl, n int) (cs []contact) {
									for i := 0; i < n; i++ {
										next++
										cs = append(cs, k.peer(cpl, next))
									}
									return
								}
								mk := func(l, step int) []contact {
									switch l {
									case 0:
										return nil
									case 1:
										return fresh(0, 5)
									case 2:
										return append(fresh(0, 3), fresh(2, 6)...)
									case 3: // known and new
										var cs []contact
										for i, m := range k.tab.members {
											if i > 0 && i%3 == 1 {
												cs = append(cs, m.contact)
											}
										}
										if len(cs) > 20 {
											cs = cs[:20]
										}
										return append(cs, fresh(1, 2)...)
									case 4: // same id elsewhere, same place other id
										c := fresh(4, 1)[0]
										e, f := c, k.peer(4, 60+step)
										e.port += 3000
										f.ip, f.port = c.ip, c.port
										return []contact{c, e, f}
									}
									var cs []contact
									for c := 0; c < 30; c++ {
										cs = append(cs, fresh(c+step, 1)...)
									}
									return cs
								}
								for step, x := range s {
									kind, l := x/nl, x%nl
									cs := mk(l, step)
									r := misc.Dict{"id": idB, "nodes": nodesOf(cs)}
									switch kind {
									case 0, 1: // answer the oldest or the newest query
										if len(k.open) == 0 {
											continue
										}
										i := 0
										if kind == 1 {
											i = len(k.open) - 1
										}
										old = append(old, k.open[i])
										k.answer(i, cs, "")
										continue
									case 2: // answer an answered query again
										if len(old) == 0 {
											continue
										}
										q := old[len(old)-1]
										k.n.c.Inject(response(q.tx, r), q.to)
									case 3: // nobody asked
										k.n.c.Inject(response("zz", r), k.open0())
									case 4: // an error, and a response without nodes, for a query then lost
										if len(k.open) == 0 {
											continue
										}
										q := k.open[0]
										k.n.c.Inject(benc(misc.Dict{"t": q.tx, "y": "e", "e": misc.List{203, "no"}, "r": r}), q.to)
									case 5: // a query with contacts in it
										k.n.c.Inject(query("qq", "find_node", misc.Dict{"id": idA, "target": idB, "nodes": nodesOf(cs)}), from(3))
										vrt.WaitQuiet()
										if got := k.n.replies(); len(got) != 1 || decoded(got[0].Data)["y"] != "r" {
											vrt.Fail("a find_node query leads to %d datagrams", len(got))
										}
										continue
									}
									vrt.WaitQuiet()
									if got := k.n.replies(); len(got) != 0 {
										vrt.Fail("step %d (%d) of %v: a message that answers no query makes the node send %q to %v", step, kind, s, clip(got[0].Data), got[0].Addr)
									}
								}
								// contacts brought by unasked messages are not in the table
								if len(k.open) > 0 {
									k.answer(0, fresh(0, 8), "")
								}
							})
						})
						return
					}
					for x := 0; x < nl*kinds; x++ {
						if x/nl >= 2 && x%nl != 1 && x%nl != 4 {
							continue
						}
						seq = append(seq, x)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}

		// sends that fail: the contact has its one attempt, the others are not affected
		failing := func(b *B) {
			for mask := 0; mask < 1<<5; mask++ {
				for v := 0; v < 2; v++ {
					mask, v := mask, v
					b.Do(func() string {
						return b.Exec(o, func() {
							k := startWalk(1, boot)
							tries := map[string]int{}
							k.n.w.OnSend = func(c *vnet.UDPConn, data []byte, to *net.UDPAddr) error {
								tries[to.String()]++
								if to.Port >= 1000 && to.Port < 1005 && mask>>(to.Port-1000)&1 != 0 {
									return errors.New("sendto: operation not permitted")
								}
								return nil
							}
							var cs []contact
							for i := 0; i < 5; i++ {
								c := k.peer(i*v, i)
								if mask>>i&1 != 0 {
									k.refused[k.prefail(c)] = true
								}
								cs = append(cs, c)
							}
							k.answer(0, cs, "")
							for _, c := range cs {
								if n := tries[c.addr(false).String()]; n != 1 {
									vrt.Fail("contact %v is asked %d times while sends to %05b fail", c, n, mask)
								}
							}
							if len(k.open) > 0 {
								k.answer(0, []contact{k.peer(9, 30)}, "")
							}
						})
					})
				}
			}
		}

		// a network large enough to fill the table completely
		full := func(b *B) {
			for order := 0; order < 5; order++ {
				for w := 1; w <= 2; w++ {
					order, w := order, w
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 26}, func() {
							k := startWalk(w, boot)
							i := 0
							class := func() int {
								c := i / 9 % 161
								switch order {
								case 1:
									c = 160 - c
								case 2:
									c = i * 7 % 161
								case 3:
									c = i % 40
								case 4:
									c = 80 + i*3%81
								}
								return c
							}
							for len(k.open) > 0 && i < 161*10 {
								var cs []contact
								for j := 0; j < 14; j++ {
									c := k.peer(class(), i)
									c.ip[3] = byte(i >> 3)
									cs = append(cs, c)
									i++
								}
								k.answer(i%len(k.open), cs, "")
							}
						})
					})
				}
			}
		}

		// a crawl over days: answers that take long, contacts listed again much later
		slow := func(b *B) {
			for _, gap := range []time.Duration{time.Second, time.Minute, 20 * time.Minute, 25 * time.Hour} {
				for v := 0; v < 3; v++ {
					gap, v := gap, v
					b.Do(func() string {
						return b.Exec(big, func() {
							k := startWalk(1, boot)
							for i := 0; i < 60 && len(k.open) > 0; i++ {
								vtime.Sleep(gap)
								cs := []contact{k.peer(i%13, i), k.peer((i+5)%13, i+100)}
								if v == 1 && i > 3 {
									cs = append(cs, k.peer((i-3)%13, i-3), k.peer(i%13, i))
								}
								j := 0
								if v == 2 {
									j = len(k.open) / 2
								}
								k.answer(j, cs, "")
							}
						})
					})
				}
			}
		}
		// two responses at the same time
		together := func(kind int) func() {
			return func() {
				k := startWalk(2, boot)
				var first []contact
				pre := 3
				if kind == 1 {
					pre = 7
				}
				for i := 0; i < pre; i++ {
					first = append(first, k.peer(0, i))
				}
				k.answer(0, first, "")
				var la, lb []contact
				switch kind {
				case 0: // different contacts
					la, lb = []contact{k.peer(1, 20)}, []contact{k.peer(2, 21)}
				case 1: // one place left
					la, lb = []contact{k.peer(0, 20)}, []contact{k.peer(0, 21)}
				case 2: // the same contact
					la, lb = []contact{k.peer(1, 20)}, []contact{k.peer(1, 20)}
				case 3: // a split of the last bucket
					la, lb = []contact{k.peer(1, 20), k.peer(3, 21), k.peer(2, 24)}, []contact{k.peer(0, 22), k.peer(4, 23)}
				case 4: // copies of one response
					la = []contact{k.peer(1, 20), k.peer(1, 21)}
				}
				qa, qb := k.open[0], k.open[1]
				if kind == 4 {
					k.n.c.Inject(response(qa.tx, misc.Dict{"id": idB, "nodes": nodesOf(la)}), qa.to)
					k.n.c.Inject(response(qa.tx, misc.Dict{"id": idB, "nodes": nodesOf(la)}), qa.to)
				} else {
					k.n.c.Inject(response(qa.tx, misc.Dict{"id": idB, "nodes": nodesOf(la)}), qa.to)
					k.n.c.Inject(response(qb.tx, misc.Dict{"id": idB, "nodes": nodesOf(lb)}), qb.to)
				}
				vrt.WaitQuiet()
				if kind != 1 {
					k.asked(la, lb)
					return
				}
				// either may take the last place
				got := k.n.replies()
				if len(got) != 1 {
					vrt.Fail("two contacts for one place in the table: %d are asked", len(got))
				}
				k.question(got[0])
				if !la[0].isAddr(got[0].Addr) && !lb[0].isAddr(got[0].Addr) {
					vrt.Fail("asked %v instead of a listed contact", got[0].Addr)
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true}
		bb := []int{2}
		depth := 3
		if thorough {
			bb = []int{2, 3, 4}
			depth = 4
		}
		scns := []*Scn{
			{Name: "bootstrap", Bulk: bootstrap},
			{Name: "lists of one response", Bulk: lists},
			{Name: "sequences of messages", Bulk: sequences(depth, 0)},
			{Name: "failing sends", Bulk: failing},
			{Name: "filling the routing table", Bulk: full},
			{Name: "a slow crawl", Bulk: slow},
		}
		for i, s := range []string{"different contacts", "one place left", "the same contact", "bucket split", "copies of one response"} {
			scns = append(scns, &Scn{Name: "two responses at once: " + s, Body: together(i), Opts: d, Bounds: bb, RaceBounds: []int{1}})
		}
		return scns
	})
}

// open0 is where the first open query went, or anywhere.
func (k *walk) open0() *net.UDPAddr {
	if len(k.open) > 0 {
		return k.open[0].to
	}
	return from(77)
}
