package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vlumber"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vtime"
)

// record is what one line of the info-hash log must say.
type record struct {
	kind, addr, hash string
	port             int // -1: none
}

// hashLog collects the lines of the info-hash log.
type hashLog struct {
	lines [512]string
	n     int
}

func watchLog() *hashLog {
	l := &hashLog{}
	vlumber.Sink = func(file, line string) {
		if strings.Contains(file, "infohash") {
			if l.n < len(l.lines) {
				l.lines[l.n] = line
			}
			l.n++
		}
	}
	return l
}

// recorded gives the record a datagram from src must leave, if it must leave one.
func recorded(q []byte, src *net.UDPAddr) (r record, yes, dontcare bool) {
	e := expects(q)
	if e.kind == "dontcare" {
		return r, false, true
	}
	if e.kind != "response" || (e.method != "get_peers" && e.method != "announce_peer") {
		return r, false, false
	}
	a := refItem(string(q), 0).val.(misc.Dict)["a"].(misc.Dict)
	r = record{"get_peer", src.String(), hex.EncodeToString([]byte(a["info_hash"].(string))), -1}
	if e.method == "announce_peer" {
		r.kind, r.port = "announce_peer", a["port"].(int)
	}
	return r, true, false
}

// says tells whether a line is this record.
func (r record) says(line string) bool {
	if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") {
		return false
	}
	var m map[string]interface{}
	dec := json.NewDecoder(strings.NewReader(line))
	dec.UseNumber()
	if dec.Decode(&m) != nil {
		return false
	}
	// the kind of query: either name, as long as the two differ
	kind, _ := m["msg"].(string)
	if r.kind == "announce_peer" != strings.HasPrefix(kind, "announce_peer") || r.kind == "get_peer" != strings.HasPrefix(kind, "get_peer") {
		return false
	}
	if m["addr"] != r.addr || m["infoHash"] != r.hash {
		return false
	}
	if r.port >= 0 || r.kind == "announce_peer" {
		n, ok := m["port"].(json.Number)
		return ok && n.String() == fmt.Sprint(r.port)
	}
	return true
}

func init() {
	reg("C27", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true, MaxSteps: 1 << 22}
		srcs := []*net.UDPAddr{
			{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 6881},
			{IP: net.IPv4(255, 0, 0, 1), Port: 65535},
			{IP: net.ParseIP("2001:db8::7"), Port: 1},
			{IP: net.ParseIP("fe80::1"), Port: 9, Zone: "eth0"},
		}
		// datagrams to a fresh node, one after the other; the log is judged after each
		one := func(b *B, qs ...[]byte) {
			if b.Stopped() {
				return
			}
			for _, src := range srcs[:1+len(qs)%2*3] {
				src := src
				b.Do(func() string {
					return b.Exec(o, func() {
						l := watchLog()
						n := prepare(1, 1, 10)
						n.run()
						for _, q := range qs {
							r, yes, dontcare := recorded(q, src)
							before := l.n
							n.c.Inject(q, src)
							vrt.WaitQuiet()
							if dontcare {
								continue
							}
							k := l.n - before
							if !yes && k != 0 {
								vrt.Fail("%q from %v must not be recorded but leaves %q", clip(q), src, l.lines[before])
							}
							if yes && k != 1 {
								vrt.Fail("%q from %v leaves %d records", clip(q), src, k)
							}
							if yes && !r.says(l.lines[before]) {
								vrt.Fail("%q from %v must be recorded as %+v, the record is %q", clip(q), src, r, l.lines[before])
							}
						}
					})
				})
			}
		}
		no := absent{}
		msg := func(t, y, q, a interface{}) []byte {
			d := misc.Dict{}
			set(d, "t", t)
			set(d, "y", y)
			set(d, "q", q)
			set(d, "a", a)
			return benc(d)
		}
		h := pattern(20, 9)
		mk := func(method, id, hash, port, im interface{}) []byte {
			a := misc.Dict{}
			set(a, "id", id)
			set(a, "info_hash", hash)
			set(a, "port", port)
			set(a, "implied_port", im)
			return msg("aa", "q", method, a)
		}
		ms := []interface{}{"ping", "find_node", "get_peers", "announce_peer", "get_peer", "vote", no, 7}
		ids := []interface{}{idA, pattern(20, 200), pattern(19, 1), pattern(21, 1), "", no, 5}
		hashes := []interface{}{h, string(make([]byte, 20)), pattern(20, 128), "ABCDEFGHIJabcdefghij", "\"\\\n\r\t\x00\xff\xc3\x28<>&\u2028xxyyzz"[:20], nodeSelf(), idA, nodeSelf()[:19] + "x", strings.Repeat("\xff", 20), strings.Repeat(" ", 20), pattern(19, 3), pattern(21, 3), "", pattern(200, 4), no, 5, misc.List{h}}
		ports := []interface{}{6881, 0, 1, 65535, 65536, 1 << 53, 1<<62 + 1, -1, "6881", no}
		implied := []interface{}{no, 1, 0}
		fields := func(b *B) {
			for _, m := range ms {
				for i, id := range ids {
					for hi, hv := range hashes {
						for pi, pv := range ports {
							for k, im := range implied {
								if i > 1 && hi > 1 && (pi > 1 || k > 0) && !thorough {
									continue
								}
								one(b, mk(m, id, hv, pv, im))
							}
						}
					}
				}
			}
			for b0 := 0; b0 < 256; b0++ { // every byte in every hex position
				s := []byte(h)
				s[b0%20] = byte(b0)
				s[(b0+7)%20] = byte(255 - b0)
				one(b, mk("get_peers", idA, string(s), no, no), mk("announce_peer", idA, string(s), b0*257, no))
			}
		}
		others := func(b *B) {
			for _, q := range [][]byte{
				response("aa", misc.Dict{"id": idA, "info_hash": h, "port": 5}), benc(misc.Dict{"t": "aa", "y": "e", "e": misc.List{201, "x"}, "q": "get_peers", "a": misc.Dict{"id": idA, "info_hash": h}}),
				msg("aa", "r", "get_peers", misc.Dict{"id": idA, "info_hash": h}), msg("aa", no, "get_peers", misc.Dict{"id": idA, "info_hash": h}), msg("aa", "Q", "get_peers", misc.Dict{"id": idA, "info_hash": h}),
				msg("aa", "q", "get_peers", misc.List{misc.Dict{"id": idA, "info_hash": h}}), msg("aa", "q", "get_peers", no),
				mk("get_peers", idA, h, no, no)[:40], []byte("de"), {},
			} {
				one(b, q)
				one(b, q, mk("get_peers", idA, h, no, no), q, mk("announce_peer", idA, h, 5, 0))
			}
			tx := []interface{}{"", "x", pattern(64, 1), "\x00\n"}
			for _, t := range tx {
				one(b, msg(t, "q", "get_peers", misc.Dict{"id": idA, "info_hash": h}), msg(t, "q", "announce_peer", misc.Dict{"id": idA, "info_hash": h, "port": 7}))
			}
		}
		// all sequences of queries, repeated ones included
		sequences := func(n int) func(b *B) {
			return func(b *B) {
				alphabet := [][]byte{
					mk("get_peers", idA, h, no, no), mk("get_peers", idB, hashN(3), 6, no), mk("announce_peer", idA, h, 6881, 0), mk("announce_peer", idB, hashN(3), 1, 1),
					mk("announce_peer", idA, h, "x", 0), mk("get_peers", idA, no, 1, 1), mk("ping", idA, h, 1, 1), mk("find_node", idA, h, 1, 1), []byte("junk"), mk("announce_peer", idA, pattern(19, 1), 3, 1),
				}
				var seq [][]byte
				var rec func()
				rec = func() {
					if len(seq) == n {
						one(b, append([][]byte(nil), seq...)...)
						return
					}
					for _, q := range alphabet {
						seq = append(seq, q)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}
		// many queries in a row: equal ones, ones that differ in the hash, the sender or the kind only
		flood := func(b *B) {
			h2 := hashN(3)
			gp, gp2, an := mk("get_peers", idA, h, no, no), mk("get_peers", idA, h2, no, no), mk("announce_peer", idA, h, 1, no)
			for _, pat := range [][][]byte{{gp}, {an}, {gp, an}, {gp, gp2}, {gp, gp, gp2, an, mk("ping", idA, no, no, no)}} {
				pat := pat
				for _, ns := range []int{1, 2, 3, 5} {
					ns, gap := ns%4, ns/4*7
					b.Do(func() string {
						return b.Exec(o, func() {
							l := watchLog()
							n := prepare(1, 1, 10)
							n.run()
							for i := 0; i < 480; i++ {
								q, src := pat[i%len(pat)], srcs[i/len(pat)%ns]
								if gap > 0 && i%gap == 0 {
									vtime.Sleep(time.Duration(i) * time.Minute)
								}
								r, yes, _ := recorded(q, src)
								before := l.n
								n.c.Inject(q, src)
								vrt.WaitQuiet()
								switch k := l.n - before; {
								case !yes && k != 0:
									vrt.Fail("message %d: %q from %v must not be recorded but leaves %d records", i, clip(q), src, k)
								case yes && k != 1:
									vrt.Fail("message %d: %q from %v leaves %d records", i, clip(q), src, k)
								case yes && !r.says(l.lines[before]):
									vrt.Fail("message %d: %q from %v must be recorded as %+v, the record is %q", i, clip(q), src, r, l.lines[before])
								}
							}
						})
					})
				}
			}
		}
		// queries handled at the same time
		together := func(workers, queue int, qs ...[]byte) func() {
			return func() {
				l := watchLog()
				n := prepare(workers, 1, queue)
				n.run()
				for i, q := range qs {
					n.c.Inject(q, from(i))
				}
				vrt.WaitQuiet()
				used := make([]bool, len(l.lines))
				want := 0
				for i, q := range qs {
					r, yes, _ := recorded(q, from(i))
					if !yes {
						continue
					}
					want++
					hit := false
					for k := 0; k < l.n && k < len(l.lines); k++ {
						if !used[k] && r.says(l.lines[k]) {
							used[k], hit = true, true
							break
						}
					}
					if !hit {
						vrt.Fail("%q from %v, handled next to others, is not recorded as %+v; records: %q", clip(q), from(i), r, l.lines[:l.n])
					}
				}
				if l.n != want {
					vrt.Fail("%d queries to be recorded, %d records: %q", want, l.n, l.lines[:l.n])
				}
			}
		}
		d := vrt.Opts{DelayAll: true, NoEarly: true, MaxSteps: 1 << 20}
		bb, n := []int{2}, 3
		if thorough {
			bb, n = []int{2, 3, 4}, 4
		}
		gp, an, an2 := mk("get_peers", idA, h, no, no), mk("announce_peer", idB, hashN(3), 6881, 1), mk("announce_peer", idA, hashN(4), 77, 0)
		return []*Scn{
			{Name: "fields", Bulk: fields},
			{Name: "other messages", Bulk: others},
			{Name: "480 messages in a row", Bulk: flood},
			{Name: "sequences", Bulk: sequences(n)},
			{Name: "get_peers and announce_peer at once, 2 workers", Body: together(2, 3, gp, an), Opts: d, Bounds: bb, RaceBounds: []int{1}},
			{Name: "two announces and a rejected one at once, 2 workers, queue 1", Body: together(2, 1, an, an2, mk("announce_peer", idA, h, "x", 1)), Opts: d, Bounds: bb, RaceBounds: []int{1}},
			{Name: "equal queries at once, 3 workers", Body: together(3, 3, gp, gp, gp), Opts: d, Bounds: bb, RaceBounds: []int{1}},
		}
	})
}
