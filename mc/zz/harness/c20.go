package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// ways the peer of one of several fetches behaves
const (
	fetchOK       = iota
	fetchEarly    // the peer sends its extended handshake at once
	fetchReverse  // pieces in reverse order
	fetchChatty   // other messages between, one of them large
	fetchPieceful // small reads
	fetchWrong    // other metadata: fails at the checksum
	fetchCloses   // closes after half a piece
	fetchGarbage
	fetchStalls
	fetchRefused
	fetchLies // claims a metadata size it does not have
	fetchKinds
)

var fetchNames = []string{"conforming", "early", "reverse order", "chatty", "small reads", "wrong data", "closes", "garbage", "stalls", "refuses", "lies about the size"}

func fetchFails(kind int) bool { return kind >= fetchWrong }

// fetchPeer is a peer of the kind for metadata meta.
func fetchPeer(kind int, meta []byte, ext int) (*btPeer, func(c *vnet.TCPConn) error) {
	p := newPeer(meta, ext)
	f := func(c *vnet.TCPConn) error {
		p.attach(c)
		return nil
	}
	switch kind {
	case fetchEarly:
		p.early = true
	case fetchReverse:
		p.order = rev(rng(pieces(len(meta))))
	case fetchChatty:
		p.between = func(pos int) []byte {
			if pos%2 == 0 {
				return append(msgFrame(4, []byte{0, 0, 0, byte(pos)}), 0, 0, 0, 0)
			}
			return msgFrame(5, bytes.Repeat([]byte{byte(pos * 17)}, 20000))
		}
	case fetchPieceful:
		return p, func(c *vnet.TCPConn) error {
			c.Seg = segments(68, 3, 7, 9000)
			p.attach(c)
			return nil
		}
	case fetchWrong:
		p.meta = append([]byte(nil), meta...)
		p.meta[len(meta)/2] ^= 0x55
	case fetchCloses:
		p.limit, p.ending = 68+60+len(meta)/2, endClose
	case fetchGarbage:
		return p, func(c *vnet.TCPConn) error {
			c.Feed(handshakeBytes(p.hash, []byte(idB)))
			c.Feed(extFrame(0, nil, []byte(pattern(500, byte(ext)))))
			c.Feed([]byte(pattern(3000, byte(ext))))
			c.Finish(nil)
			return nil
		}
	case fetchStalls:
		p.limit, p.ending = 68+60+len(meta)/2, endNone
	case fetchRefused:
		return p, func(c *vnet.TCPConn) error { return errors.New("connection refused") }
	case fetchLies:
		p.extra = map[string]interface{}{"metadata_size": len(meta) + 30000}
		p.ask = make([]bool, pieces(len(meta)+30000))
		p.edit = func(n int, what string, msg []byte) []byte {
			if what == "piece" && len(msg) < 80 { // the pieces it does not have
				return nil
			}
			return msg
		}
		p.ending = endClose
	}
	return p, f
}

// together runs one fetch per kind at once; torrent[i] is the number of the torrent of fetch i.
func fetchTogether(size int, torrent []int, kinds ...int) func() {
	return func() {
		freshPeerwire()
		var t dialTable
		n := len(kinds)
		ps := make([]*btPeer, n)
		addrs := make([]string, n)
		got := make([][]byte, n)
		errs := make([]error, n)
		metas := make([][]byte, n)
		for i, k := range kinds {
			addrs[i] = fmt.Sprintf("10.1.2.%d:%d", i+1, 6881+i)
			metas[i] = metaBytes(size+torrent[i], 40+torrent[i])
			var f func(c *vnet.TCPConn) error
			ps[i], f = fetchPeer(k, metas[i], 3+i)
			t.add(addrs[i], f)
		}
		t.install()
		fs := make([]func(), n)
		for i := range fs {
			i := i
			fs[i] = func() { got[i], errs[i] = peerwire.FetchMetaData(addrs[i], peerwire.LocalPeerId, ps[i].hash) }
		}
		threads(fs...)
		for i, k := range kinds {
			what := fmt.Sprintf("fetch %d of kinds %v (torrents %v) at once, %s peer", i, kinds, torrent, fetchNames[k])
			if ps[i].bad != "" {
				vrt.Fail("%s: %s", what, ps[i].bad)
			}
			if fetchFails(k) {
				if errs[i] == nil {
					vrt.Fail("%s: gives %d bytes (hash %x) instead of failing", what, len(got[i]), sum(got[i]))
				}
				continue
			}
			if errs[i] != nil {
				vrt.Fail("%s: fails: %v", what, errs[i])
			}
			if !bytes.Equal(got[i], metas[i]) {
				vrt.Fail("%s: gives %d other bytes instead of the %d of the metadata", what, len(got[i]), len(metas[i]))
			}
		}
		for _, c := range vnet.World().TCP {
			if !c.Closed {
				vrt.Fail("fetches of kinds %v at once: the connection to %s is left open", kinds, c.Addr)
			}
		}
	}
}

func init() {
	reg("C20", func(thorough bool) []*Scn {
		seq := vrt.Opts{NoEarly: true, MaxSteps: 1 << 20}
		d := vrt.Opts{DelayAll: true, NoEarly: true, MaxSteps: 1 << 20}
		// what a fetch leaves behind for the next one
		after := func(n int) func(b *B) {
			return func(b *B) {
				var s []int
				var rec func()
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(s) == n {
						ks := append([]int(nil), s...)
						for same := 0; same < 2; same++ {
							same := same
							b.Do(func() string {
								return b.Exec(seq, func() {
									freshPeerwire()
									var t dialTable
									var kept, want [][]byte
									for i, k := range ks {
										m := metaBytes(pieceLen+100+i*(1-same), 9+i*(1-same))
										p, f := fetchPeer(k, m, 3+i)
										addr := fmt.Sprintf("10.1.2.%d:1", i)
										t.add(addr, f)
										t.install()
										got, err := peerwire.FetchMetaData(addr, peerwire.LocalPeerId, p.hash)
										if p.bad != "" {
											vrt.Fail("fetch %d after those of kinds %v: %s", i, ks[:i], p.bad)
										}
										if (err != nil) != fetchFails(k) {
											vrt.Fail("fetch %d of kind %s after those of kinds %v: error %v", i, fetchNames[k], ks[:i], err)
										}
										if err == nil {
											kept, want = append(kept, got), append(want, m)
										}
										for q := range kept {
											if !bytes.Equal(kept[q], want[q]) {
												vrt.Fail("a fetch of kind %s after those of kinds %v: the result of success %d is now different", fetchNames[k], ks[:i], q)
											}
										}
									}
								})
							})
						}
						return
					}
					for k := 0; k < fetchKinds; k++ {
						s = append(s, k)
						rec()
						s = s[:len(s)-1]
					}
				}
				rec()
			}
		}
		n := 3
		b2, b3 := []int{2}, []int{1}
		if thorough {
			n = 4
			b2, b3 = []int{2, 3}, []int{1, 2}
		}
		r := []int{1}
		// many at once
		crowd := func(b *B) {
			for _, n := range []int{5, 9, 17, 33, 65, 100} {
				for v := 0; v < 6; v++ {
					for _, size := range []int{50, 300, pieceLen + 10, 3 * pieceLen} {
						n, v, size := n, v, size
						b.Do(func() string {
							torrent, kinds := make([]int, n), make([]int, n)
							for i := range kinds {
								torrent[i] = []int{i, 0, i % 3}[v%3]
								if v >= 3 {
									kinds[i] = i % fetchKinds
								}
							}
							return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 24}, fetchTogether(size, torrent, kinds...))
						})
					}
				}
			}
		}
		scn := []*Scn{{Name: "fetches one after another", Bulk: after(n)}, {Name: "many at once", Bulk: crowd}}
		for k := 0; k < fetchKinds; k++ {
			scn = append(scn, &Scn{Name: "two torrents, one piece each, conforming and " + fetchNames[k], Body: fetchTogether(300, []int{0, 1}, fetchOK, k), Opts: d, Bounds: b2, RaceBounds: r})
		}
		for _, k := range []int{fetchOK, fetchReverse, fetchChatty, fetchPieceful, fetchWrong, fetchCloses, fetchLies} {
			scn = append(scn, &Scn{Name: "two torrents, two pieces each, conforming and " + fetchNames[k], Body: fetchTogether(pieceLen+10, []int{0, 1}, fetchOK, k), Opts: d, Bounds: b2, RaceBounds: r})
		}
		scn = append(scn,
			&Scn{Name: "one torrent from two peers", Body: fetchTogether(pieceLen+10, []int{0, 0}, fetchOK, fetchEarly), Opts: d, Bounds: b2, RaceBounds: r},
			&Scn{Name: "one torrent from two peers, one with wrong data", Body: fetchTogether(pieceLen+10, []int{0, 0}, fetchEarly, fetchWrong), Opts: d, Bounds: b2, RaceBounds: r},
			&Scn{Name: "three torrents", Body: fetchTogether(300, []int{0, 1, 2}, fetchOK, fetchEarly, fetchOK), Opts: d, Bounds: b3, RaceBounds: r},
			&Scn{Name: "three torrents of two pieces, one fails", Body: fetchTogether(pieceLen+10, []int{0, 1, 2}, fetchEarly, fetchCloses, fetchReverse), Opts: d, Bounds: b3, RaceBounds: r},
			&Scn{Name: "three fetches, two of one torrent", Body: fetchTogether(300, []int{0, 1, 0}, fetchOK, fetchGarbage, fetchPieceful), Opts: d, Bounds: b3, RaceBounds: r},
		)
		return scn
	})
}
