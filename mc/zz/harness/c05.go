package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// templates are well-formed messages from which hostile ones are made. tx is
// the transaction id of a query the node has outstanding.
func templates(tx string) []misc.Dict {
	h := pattern(20, 9)
	return []misc.Dict{
		{"t": "aa", "y": "q", "q": "ping", "a": misc.Dict{"id": idA}},
		{"t": "aa", "y": "q", "q": "find_node", "a": misc.Dict{"id": idA, "target": h}},
		{"t": "aa", "y": "q", "q": "get_peers", "a": misc.Dict{"id": idA, "info_hash": h}},
		{"t": "aa", "y": "q", "q": "announce_peer", "a": misc.Dict{"id": idA, "info_hash": h, "port": 6881, "token": "t", "implied_port": 1}},
		{"t": tx, "y": "r", "r": misc.Dict{"id": idB, "nodes": pattern(52, 1)}},
		{"t": tx, "y": "r", "r": misc.Dict{"id": idB, "token": "x", "values": misc.List{"abcdef", "ghijkl"}}},
		{"t": tx, "y": "e", "e": misc.List{201, "A Generic Error"}},
	}
}

func wrongValues() []interface{} {
	return []interface{}{absent{}, 0, -1, 1 << 62, -1 << 63, "", "x", pattern(20, 77), pattern(700, 5), misc.List{}, misc.List{misc.List{misc.List{}}}, misc.List{5, "x"}, misc.Dict{}, misc.Dict{"id": 5}, misc.Dict{"id": idA}, misc.Dict{"nodes": 5}}
}

// deep copies a message so that one field can be replaced.
func deep(v interface{}) interface{} {
	switch x := v.(type) {
	case misc.Dict:
		d := misc.Dict{}
		for k, e := range x {
			d[k] = deep(e)
		}
		return d
	case misc.List:
		l := misc.List{}
		for _, e := range x {
			l = append(l, deep(e))
		}
		return l
	}
	return v
}

// hostileFields replaces every field by every wrong value.
func hostileFields(tx string, f func(b []byte)) {
	for _, t := range templates(tx) {
		for _, key := range sortedKeys(t) {
			for _, v := range wrongValues() {
				d := deep(t).(misc.Dict)
				delete(d, key)
				set(d, key, v)
				f(benc(d))
			}
			if inner, ok := t[key].(misc.Dict); ok {
				for _, ik := range append(sortedKeys(inner), "extra") {
					for _, v := range wrongValues() {
						d := deep(t).(misc.Dict)
						delete(d[key].(misc.Dict), ik)
						set(d[key].(misc.Dict), ik, v)
						f(benc(d))
					}
				}
			}
		}
	}
	// compact node info and peer lists of every length
	for n := 0; n <= 80; n++ {
		f(response(tx, misc.Dict{"id": idB, "nodes": pattern(n, byte(n))}))
		f(response(tx, misc.Dict{"id": idB, "nodes": string(make([]byte, n))}))
		f(response(tx, misc.Dict{"id": idB, "values": misc.List{pattern(n, 1), pattern(n/2, 2)}}))
		f(response(tx, misc.Dict{"id": pattern(n, 3), "nodes": pattern(26, 4)}))
		f(benc(misc.Dict{"t": pattern(n, 8), "y": "r", "r": misc.Dict{"id": idB, "nodes": pattern(26, 4)}}))
	}
}

// hostileBytes damages the encoded messages.
func hostileBytes(tx string, all bool, f func(b []byte)) {
	subst := []byte{0, '0', '9', '-', 'i', 'l', 'd', 'e', ':', 0xff}
	for _, t := range templates(tx) {
		b := benc(t)
		for i := 0; i <= len(b); i++ {
			f(b[:i])
			if i == len(b) {
				break
			}
			f(append(append([]byte(nil), b[:i]...), b[i+1:]...))
			f(append(append(append([]byte(nil), b[:i+1]...), b[i]), b[i+1:]...))
			n := 3
			if all {
				n = len(subst)
			}
			for k := 0; k < n; k++ {
				c := append([]byte(nil), b...)
				c[i] = subst[(i+k*3)%len(subst)]
				f(c)
			}
		}
	}
}

func hostileSpecial(tx string, f func(b []byte)) {
	r := strings.Repeat
	for _, s := range []string{
		"", "d", "l", "i", "e", ":", "-", "de", "le", "ie", "i-e", "i-0e", "i00e", "0:", "00:", "1:", "-1:", "0", "d0:e", "d1:ae", "di1ei2ee", "dlelee", "d1:a", "d1:a1:", "d1:yd", "ld", "lld", "dld",
		r("l", 1024), r("d", 1024), r("i", 1024), r("e", 1024), r("9", 1024), r("l", 512) + r("e", 512), r("l", 511) + r("e", 512), r("d1:a", 250), r("d1:a", 200) + r("e", 200), r("d0:", 300), r("ld1:a", 150),
		r("\x00", 1024), r("\xff", 1024), r(" ", 3), "\r\n", "GET / HTTP/1.1\r\n\r\n",
		"i" + r("9", 1000) + "e", "i-" + r("9", 1000) + "e", r("9", 1000) + ":", "9999999999999999999:x", "2147483648:x", "4294967297:x", "9223372036854775807:x", "18446744073709551616:", "18446744073709551617:x",
		"d1:y1:qe", "d1:t2:aa1:y1:qe", "d1:t2:aa1:y1:q1:q4:pinge", "d1:t2:aa1:y1:q1:q4:ping1:ai5ee", "d1:y1:q1:t0:e", "d1:yi1ee", "d1:yle1:t2:aae", "d1:y1:r1:t2:aae", "d1:rde1:t2:aa1:y1:re", "d1:y1:ee", "d1:ele1:t2:aa1:y1:ee", "d1:y1:ze", "d1:y1:q1:y1:r1:t2:aae", "d1:t2:aa1:t2:bb1:y1:q1:q4:ping1:ad2:id20:aaaaaaaaaaaaaaaaaaaaee",
	} {
		f([]byte(s))
	}
	for _, n := range []int{1000, 1023, 1024, 1025, 1500, 65507} {
		q := benc(misc.Dict{"t": "aa", "y": "q", "q": "ping", "a": misc.Dict{"id": idA, "z": pattern(n, 1)}})
		f(q)
		f(append(query("aa", "ping", misc.Dict{"id": idA}), pattern(n, 2)...))
		if n > len(q)-n && n < len(q) {
			f(q[:n])
		}
	}
	for depth := 1; depth < 400; depth += 37 {
		var v interface{} = 1
		for i := 0; i < depth; i++ {
			if i%2 == 0 {
				v = misc.List{v}
			} else {
				v = misc.Dict{"a": v}
			}
		}
		f(benc(misc.Dict{"t": "aa", "y": "q", "q": "ping", "a": misc.Dict{"id": idA, "x": v}}))
		f(benc(misc.Dict{"t": "aa", "y": "q", "q": v, "a": misc.Dict{"id": idA}}))
		f(benc(misc.Dict{"t": tx, "y": "r", "r": v}))
		f(benc(misc.Dict{"t": tx, "y": "e", "e": v}))
	}
}

func sortedKeys(d misc.Dict) []string {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// afterwards are the valid queries a node must answer whatever happened before.
func afterwards() [][]byte {
	h := pattern(20, 9)
	return [][]byte{
		query("z1", "ping", misc.Dict{"id": idB}),
		query("z2", "get_peers", misc.Dict{"id": idB, "info_hash": h}),
		query("z3", "find_node", misc.Dict{"id": idB, "target": h}),
		query("z4", "announce_peer", misc.Dict{"id": idB, "info_hash": h, "port": 7, "token": "z2"}),
	}
}

// stillAnswers asks the valid queries and compares with what a fresh node says.
func (n *crawler) stillAnswers(after string, base []misc.Dict) []misc.Dict {
	var got []misc.Dict
	n.replies()
	for i, q := range afterwards() {
		// the hostile sender itself, another one at its address, another one
		to := from(100 + i)
		if n.foe != nil {
			switch (i + n.turn) % 3 {
			case 0:
				to = n.foe
			case 1:
				to = &net.UDPAddr{IP: n.foe.IP, Port: 4000 + i}
			}
		}
		n.c.Inject(q, to)
		vrt.WaitQuiet()
		r := n.replies()
		var id nodeID
		if m := id.check(q, to, r); m != "" {
			vrt.Fail("after %s: %s", after, m)
		}
		d := decoded(r[0].Data)
		delete(dictAt(d, "r"), "nodes")
		delete(dictAt(d, "r"), "token")
		if base != nil && !same(d, base[i]) {
			vrt.Fail("after %s: the reply to %q is %q, before it was %v", after, clip(q), clip(r[0].Data), show(base[i]))
		}
		got = append(got, d)
	}
	return got
}

func init() {
	reg("C05", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true}
		const boot = "87.98.162.88:6881"
		// fresh node with one outstanding query; returns its transaction id
		start := func(workers int) (*crawler, string) {
			n := prepare(workers, 1, 5)
			dht.BootStrap(boot)
			tx := ""
			if r := n.replies(); len(r) == 1 {
				tx, _ = decoded(r[0].Data)["t"].(string)
			}
			n.run()
			return n, tx
		}
		var base []misc.Dict
		known := ""
		baseline := func(b *B) bool {
			vrt.Run(o, nil, nil, func() {
				n, tx := start(1)
				known = tx
				base = n.stillAnswers("nothing", nil)
			})
			return base != nil
		}
		hit := func(b *B, workers int, times int, hs ...[]byte) {
			if b.Stopped() {
				return
			}
			turn := len(hs[0])
			b.Do(func() string {
				return b.Exec(o, func() {
					n, tx := start(workers)
					what := ""
					for _, h := range hs {
						what += fmt.Sprintf("%d x %q ", times, clip(h))
					}
					for i := 0; i < times; i++ {
						for _, h := range hs {
							// the first copy of a response is solicited, by transaction id and sender
							src := from(50 + i)
							if tx != "" && strings.Contains(string(h), tx) {
								src = from(60)
							}
							n.c.Inject(h, src)
						}
						if i == 0 {
							vrt.WaitQuiet()
						}
					}
					vrt.WaitQuiet()
					n.foe, n.turn = from(50), turn
					n.stillAnswers(what, base)
				})
			})
		}
		space := func(gen func(tx string, f func(b []byte)), workers ...int) func(b *B) {
			return func(b *B) {
				if !baseline(b) {
					// even a fresh node does not answer: let a case report it
					base = nil
				}
				gen(known, func(h []byte) {
					h = append([]byte(nil), h...)
					for _, w := range workers {
						hit(b, w, 3, h)
					}
				})
			}
		}
		pairs := func(b *B) {
			baseline(b)
			var hs [][]byte
			i := 0
			step := 53
			if thorough {
				step = 11
			}
			pick := func(h []byte) {
				if i++; i%step == 0 {
					hs = append(hs, append([]byte(nil), h...))
				}
			}
			hostileFields(known, pick)
			hostileBytes(known, false, pick)
			hostileSpecial(known, func(h []byte) {
				if i++; i%5 == 0 {
					hs = append(hs, append([]byte(nil), h...))
				}
			})
			for _, x := range hs {
				for _, y := range hs {
					hit(b, 1, 2, x, y)
				}
			}
		}
		// many solicited hostile responses: every node they name is asked, and each answers with rubbish
		flood := func(b *B) {
			baseline(b)
			for kind := 0; kind < 6; kind++ {
				for w := 1; w <= 2; w++ {
					kind, w := kind, w
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 3000000}, func() {
							n, _ := start(w)
							k := 0
							done := 0
							for round := 0; round < 60; round++ {
								vrt.WaitQuiet()
								sent := n.w.Sent
								if (done == len(sent) && round > 0) || done > 120 {
									break
								}
								for ; done < len(sent) && done <= 120; done++ {
									tx, _ := decoded(sent[done].Data)["t"].(string)
									nodes := ""
									for j := 0; j < 30; j++ {
										k++
										c := mkContact(k)
										switch kind {
										case 1:
											c.ip = [4]byte{}
										case 2:
											c.port = 0
										case 3:
											c.id = idA
										case 4:
											c.id = string(make([]byte, 20))
											c.ip = [4]byte{255, 255, 255, 255}
										}
										nodes += c.compact()
									}
									if kind == 5 {
										nodes += "x"
									}
									n.c.Inject(response(tx, misc.Dict{"id": idB, "nodes": nodes}), sent[done].Addr)
								}
							}
							n.k = len(n.w.Sent)
							vrt.WaitQuiet()
							n.stillAnswers(fmt.Sprintf("a flood of responses (kind %d)", kind), base)
						})
					})
				}
			}
		}
		// a long run of hostile datagrams from the very host that then asks, slow or fast
		longRun := func(b *B) {
			baseline(b)
			i := 0
			var hs [][]byte
			pick := func(h []byte) {
				if i++; i%97 == 0 {
					hs = append(hs, append([]byte(nil), h...))
				}
			}
			hostileFields("", pick)
			hostileBytes("", false, pick)
			hs = append(hs, []byte("d"), []byte{}, []byte("de"), query("aa", "vote", misc.Dict{"id": idA}), query("aa", "announce_peer", misc.Dict{"id": "x"}), benc(misc.Dict{"t": "aa", "y": "e", "e": misc.List{201, "x"}}), response("aa", misc.Dict{"id": idA}))
			// valid but unusual messages
			for _, x := range []misc.Dict{{}, {"v": "LT01"}, {"ro": 1}, {"ip": "abcdef"}, {"r": misc.Dict{"id": idB}}, {"e": misc.List{201, "no"}}, {"z": misc.List{}, "v": 5}} {
				for _, m := range methods {
					d := misc.Dict{"t": "aa", "y": "q", "q": m, "a": misc.Dict{"id": idA, "info_hash": pattern(20, 9), "port": 80, "target": pattern(20, 9), "token": "t", "want": misc.List{"n4"}, "scrape": 1, "seed": 1, "noseed": 1}}
					for key, v := range x {
						d[key] = v
					}
					hs = append(hs, benc(d))
					if len(x) == 0 {
						delete(d["a"].(misc.Dict), "token")
						d["a"].(misc.Dict)["implied_port"] = 1
						hs = append(hs, benc(d))
					}
				}
			}
			for k := -1; k < len(hs); k++ {
				for _, gap := range []time.Duration{0, time.Minute} {
					k, gap := k, gap
					b.Do(func() string {
						return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, func() {
							n, _ := start(1)
							for j := 0; j < 1100; j++ {
								h := hs[j%len(hs)]
								if k >= 0 {
									h = hs[k]
								}
								n.c.Inject(h, from(70))
								if j%32 == 31 {
									vrt.WaitQuiet()
									if gap > 0 {
										vtime.Sleep(gap)
									}
								}
							}
							vrt.WaitQuiet()
							n.foe = from(70)
							if gap > 0 {
								n.turn = 1
							}
							n.stillAnswers(fmt.Sprintf("1100 hostile datagrams (%d)", k), base)
						})
					})
				}
			}
		}
		// hostile and valid datagrams at the same time
		mixed := func() {
			n, tx := start(2)
			hs := [][]byte{
				response(tx, misc.Dict{"id": idB, "nodes": pattern(52, 1)}),
				response(tx, misc.Dict{"id": 5}),
				query("aa", "announce_peer", misc.Dict{"id": idA, "info_hash": "short", "port": -5}),
				[]byte("d1:y1:q1:t2:aa"),
				benc(misc.Dict{"t": tx, "y": "e", "e": 5}),
			}
			h := hs[vrt.Choose(len(hs))]
			q := afterwards()[vrt.Choose(2)]
			n.c.Inject(h, from(1))
			n.c.Inject(q, from(2))
			n.c.Inject(h, from(1))
			vrt.WaitQuiet()
			var got int
			for _, p := range n.replies() {
				if sameAddr(p.Addr, from(2)) {
					got++
					if d := decoded(p.Data); d["y"] != "r" {
						vrt.Fail("query %q next to hostile %q is answered %q", clip(q), clip(h), clip(p.Data))
					}
				}
			}
			if got != 1 {
				vrt.Fail("query %q next to hostile %q gets %d replies", clip(q), clip(h), got)
			}
			n.stillAnswers("hostile and valid datagrams together", nil)
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true}
		bb := []int{1}
		if thorough {
			bb = []int{2, 3}
		}
		return []*Scn{
			{Name: "wrong fields", Bulk: space(hostileFields, 1, 2)},
			{Name: "damaged bytes", Bulk: space(func(tx string, f func([]byte)) { hostileBytes(tx, thorough, f) }, 1)},
			{Name: "special datagrams", Bulk: space(hostileSpecial, 1, 2)},
			{Name: "pairs", Bulk: pairs},
			{Name: "floods of responses", Bulk: flood},
			{Name: "long runs of hostile datagrams", Bulk: longRun},
			{Name: "hostile and valid at once, 2 workers", Body: mixed, Opts: d, Bounds: bb, RaceBounds: []int{1}},
		}
	})
}
