package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func freshPeerwire() {
	fresh()
	peerwire.VerifInit()
}

const peerAddr = "10.1.2.3:6881"

// fetchFrom lets the program fetch from p and judges the result.
func fetchFrom(p *btPeer, seg func(c *vnet.TCPConn, avail, want int) int, what interface{}) {
	w := vnet.World()
	var conn *vnet.TCPConn
	w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
		if addr != peerAddr {
			vrt.Fail("%v: connects to %q instead of %q", what, addr, peerAddr)
		}
		c := &vnet.TCPConn{Seg: seg}
		p.attach(c)
		conn = c
		return c, nil
	}
	got, err := peerwire.FetchMetaData(peerAddr, peerwire.LocalPeerId, p.hash)
	if p.bad != "" {
		vrt.Fail("%v: %s", what, p.bad)
	}
	if err != nil {
		vrt.Fail("%v: fetching %d bytes of metadata from a conforming peer fails: %v", what, len(p.meta), err)
	}
	if !bytes.Equal(got, p.meta) {
		vrt.Fail("%v: fetching %d bytes of metadata gives %d other bytes", what, len(p.meta), len(got))
	}
	if conn == nil || !conn.Closed {
		vrt.Fail("%v: the connection is left open", what)
	}
	for k, a := range p.ask {
		if !a {
			vrt.Fail("%v: piece %d was never asked for", what, k)
		}
	}
}

// other messages a peer may send at any time
func otherMessages(ours int) []struct {
	name string
	b    []byte
} {
	type m = struct {
		name string
		b    []byte
	}
	o2, o3 := 2, 3
	if ours == 2 || ours == 3 {
		o2, o3 = 200, 201
	}
	// the peer may want metadata too, and BEP 9 has messages of unknown type ignored
	ask, odd := make([]byte, 4), make([]byte, 4)
	if ours != 0 {
		ask, odd = extFrame(ours, misc.Dict{"msg_type": 0, "piece": 0}, nil), extFrame(ours, misc.Dict{"msg_type": 7, "piece": 0, "zz": "x"}, nil)
	}
	big := make([]byte, 32767)
	for i := range big {
		big[i] = byte(i)
	}
	return []m{
		{"keep-alive", make([]byte, 4)},
		{"3 keep-alives", make([]byte, 12)},
		{"choke", msgFrame(0, nil)}, {"unchoke", msgFrame(1, nil)}, {"interested", msgFrame(2, nil)}, {"not interested", msgFrame(3, nil)},
		{"have", msgFrame(4, []byte{0, 0, 0, 7})},
		{"have 20", msgFrame(4, []byte{0, 20, 0, 1})},
		{"short bitfield", msgFrame(5, []byte{0xff})}, {"empty bitfield", msgFrame(5, nil)}, {"long bitfield", msgFrame(5, big)},
		{"request", msgFrame(6, make([]byte, 12))}, {"block", msgFrame(7, append(make([]byte, 8), big[:16384]...))}, {"largest block", msgFrame(7, big)},
		{"cancel", msgFrame(8, make([]byte, 12))}, {"port", msgFrame(9, []byte{0x1a, 0xe1})},
		{"suggest", msgFrame(13, make([]byte, 4))}, {"have all", msgFrame(14, nil)}, {"have none", msgFrame(15, nil)}, {"reject", msgFrame(16, make([]byte, 12))}, {"allowed fast", msgFrame(17, make([]byte, 4))}, {"hash request", msgFrame(21, make([]byte, 48))}, {"unknown", msgFrame(255, []byte{20, 0})},
		{"pex", extFrame(o2, misc.Dict{"added": "abcdef", "added.f": "\x00"}, nil)}, {"other extension", extFrame(o3, misc.Dict{"msg_type": 1, "piece": 0, "total_size": 5}, []byte("12345"))}, {"binary extension", msgFrame(20, []byte{byte(o3), 1, 2, 3})}, {"empty extension", msgFrame(20, []byte{byte(o3)})},
		{"metadata request", ask}, {"unknown metadata message", odd},
		{"choke, have, keep-alive", append(append(msgFrame(0, nil), msgFrame(4, []byte{0, 0, 0, 1})...), 0, 0, 0, 0)},
	}
}

func permutations(n int, f func(p []int)) {
	var perm []int
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(perm) == n {
			f(append([]int(nil), perm...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				perm = append(perm, i)
				rec()
				perm = perm[:len(perm)-1]
				used[i] = false
			}
		}
	}
	rec()
}

func rng(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func rev(s []int) []int {
	r := make([]int, len(s))
	for i := range s {
		r[i] = s[len(s)-1-i]
	}
	return r
}

func init() {
	reg("C18", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 24}
		type sg = func(c *vnet.TCPConn, avail, want int) int
		segs := [][]int{nil, {1}, {2}, {3, 5}, {67, 1}, {68}, {69}, {4}, {1, 3, 1000}, {1448}, {16384}, {100000, 1}, {5, 40000}}
		do := func(b *B, mk func() *btPeer, seg []int, what interface{}) {
			if b.Stopped() {
				return
			}
			b.Do(func() string {
				return b.Exec(o, func() {
					freshPeerwire()
					var s sg
					if seg != nil {
						s = segments(seg...)
					}
					fetchFrom(mk(), s, what)
				})
			})
		}
		sizes := func(b *B) {
			ns := []int{1, 2, 19, 20, 100, 1000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 49151, 49152, 49153, 5 * pieceLen, 10*pieceLen - 1, 15 * pieceLen, 16 * pieceLen, 16*pieceLen + 1, 17 * pieceLen, 40*pieceLen + 7, 64 * pieceLen}
			large := []int{64*pieceLen + 1, 65 * pieceLen, 100*pieceLen + 5, 127 * pieceLen, 128 * pieceLen, 129*pieceLen - 1, 255*pieceLen + 1, 256 * pieceLen, 257 * pieceLen, 640*pieceLen + 3, 1024*pieceLen + 1, 2048*pieceLen - 1, 2048 * pieceLen}
			if thorough {
				ns, large = append(ns, large...), nil
			}
			for i, n := range large {
				n := n
				do(b, func() *btPeer { return newPeer(metaBytes(n, n), 1+i) }, nil, fmt.Sprint("size ", n))
			}
			for _, n := range ns {
				for k, seg := range segs {
					if k > 0 && n > 20000 && (seg[0] < 60 || n > 50000 && seg[0] < 1000) {
						continue
					}
					for v := 0; v < 4; v++ {
						n, v := n, v
						if v > 1 && n > 20*pieceLen && k > 0 {
							continue
						}
						do(b, func() *btPeer {
							p := newPeer(metaBytes(n, n+v), 1+(n*7+v)%255)
							p.early = v&1 == 1
							switch {
							case v == 2:
								p.order = rng(pieces(n))
							case v == 3:
								p.order = rev(rng(pieces(n)))
							}
							return p
						}, seg, fmt.Sprintf("size %d, reads of %v, variant %d", n, seg, v))
					}
				}
			}
			// sizes around every piece boundary
			for k := 1; k <= 20; k++ {
				for d := -1; d <= 1; d++ {
					n := k*pieceLen + d
					do(b, func() *btPeer { return newPeer(metaBytes(n, k), k) }, nil, fmt.Sprint("size ", n))
				}
			}
			for n := 1; n <= 300; n++ {
				n := n
				do(b, func() *btPeer { return newPeer(metaBytes(n, n), 9) }, nil, fmt.Sprint("size ", n))
			}
			// contents that look like something else
			for i, s := range []string{"e", "ee", "d", "de", "0:", "5:abc", "i1e", "d8:msg_typei2ee", "\x00\x00\x00\x00", "d4:infod4:name1:xee", "\x00\x00\x00\x02\x14\x02", "9999999:"} {
				for _, n := range []int{0, 1, pieceLen, pieceLen * 2} {
					s, n := s, n
					do(b, func() *btPeer {
						m := append([]byte(s), bytes.Repeat([]byte(s), n/len(s)+1)...)
						return newPeer(m, 3+i)
					}, nil, fmt.Sprintf("contents %q...", s))
				}
			}
		}
		numbers := func(b *B) {
			for ext := 1; ext <= 255; ext++ {
				for _, n := range []int{50, pieceLen + 1} {
					for v := 0; v < 2; v++ {
						ext, n, v := ext, n, v
						do(b, func() *btPeer {
							p := newPeer(metaBytes(n, ext), ext)
							p.early = v == 1
							return p
						}, nil, fmt.Sprint("extension number ", ext))
					}
				}
			}
			// long handshakes
			for _, k := range []int{10, 16, 17, 20, 33, 64, 100, 250} {
				for q := 0; q < 3; q++ {
					k, q := k, q
					do(b, func() *btPeer {
						p := newPeer(metaBytes(pieceLen+7, k), 252)
						p.early = k%2 == 0
						m := misc.Dict{}
						for i := 0; i < k; i++ {
							if q == 2 {
								m[fmt.Sprintf("ut_metadata_%03d", i)] = 1 + i
							} else {
								m[fmt.Sprintf("x%03d_%s", i, pattern(q*60, byte(i)))] = 1 + i
							}
						}
						p.mExtra = m
						p.extra = misc.Dict{}
						for i := 0; i < k; i++ {
							p.extra[fmt.Sprintf("y%03d", i)] = []interface{}{i, "v", misc.List{i}, misc.Dict{"q": i}}[i%4]
						}
						return p
					}, nil, fmt.Sprintf("%d other extensions, variant %d", k, q))
				}
			}
			// other things in the handshakes
			for i, x := range []misc.Dict{{"v": "x 1.0"}, {"p": 6881, "reqq": 250}, {"yourip": "\x01\x02\x03\x04", "ipv6": pattern(16, 1)}, {"upload_only": 1, "complete_ago": -1, "zz": misc.List{1, misc.Dict{}}}, {"a": "", "e": 0}, {"v": pattern(5000, 2)}} {
				for j, m := range []misc.Dict{nil, {"ut_pex": 1}, {"ut_pex": 2, "lt_donthave": 7, "ut_holepunch": 4, "LT_metadata": 9}, {"ut_metadat": 5, "ut_metadata2": 6}, {"a": 0, "zzzz": 255}} {
					for k, r := range []string{"", "\x00\x00\x00\x00\x00\x10\x00\x05", "\xff\xff\xff\xff\xff\xff\xff\xff", "\x80\x00\x00\x00\x00\x10\x00\x01", "\x00\x00\x00\x00\x00\x1f\x00\x00"} {
						for q, pe := range []misc.Dict{nil, {"zz": 1}, {"a": "b", "users": misc.List{}}} {
							x, m, r, pe := x, m, r, pe
							do(b, func() *btPeer {
								p := newPeer(metaBytes(pieceLen+30, i), 4+j)
								p.extra, p.mExtra, p.reserved, p.pieceExtra = x, m, r, pe
								p.early = (i+k+q)%2 == 0
								return p
							}, nil, fmt.Sprintf("handshake extras %d %d %d %d", i, j, k, q))
						}
					}
				}
			}
		}
		orders := func(b *B) {
			max := 5
			if thorough {
				max = 7
			}
			for n := 1; n <= max; n++ {
				for _, last := range []int{pieceLen, 1} {
					permutations(n, func(p []int) {
						do(b, func() *btPeer {
							q := newPeer(metaBytes((n-1)*pieceLen+last, n), 7)
							q.order = p
							return q
						}, nil, fmt.Sprintf("pieces in order %v, last of %d bytes", p, last))
					})
				}
			}
			for _, n := range []int{16, 17, 33, 60} {
				for _, st := range []int{3, 5, 7, 11, 13} {
					n, st := n, st
					do(b, func() *btPeer {
						q := newPeer(metaBytes(n*pieceLen-5, n), 7)
						used := make([]bool, n)
						for k := 2; len(q.order) < n; k += st {
							for used[k%n] {
								k++
							}
							used[k%n] = true
							q.order = append(q.order, k%n)
						}
						return q
					}, nil, fmt.Sprintf("%d pieces, stride %d", n, st))
				}
			}
		}
		between := func(b *B) {
			msgs := otherMessages(1)
			for i := range msgs {
				for pos := 0; pos <= 4; pos++ {
					for _, seg := range [][]int{nil, {1, 4, 3}, {4}, {5}, {70, 1}} {
						for v := 0; v < 3; v++ {
							i, pos, v := i, pos, v
							if seg != nil && seg[0] < 70 && len(msgs[i].b) > 10000 && !thorough {
								continue
							}
							do(b, func() *btPeer {
								p := newPeer(metaBytes(2*pieceLen+9, i), 20+pos)
								p.early = v == 1
								if v == 2 {
									p.order = []int{1, 2, 0}
								}
								p.between = func(at int) []byte {
									if at == pos || pos == 4 {
										return otherMessages(p.ours)[i].b
									}
									return nil
								}
								return p
							}, seg, fmt.Sprintf("%s at position %d, reads of %v, variant %d", msgs[i].name, pos, seg, v))
						}
					}
				}
				// long runs of one kind
				for _, times := range []int{50, 300, 3000, 20000} {
					i, times := i, times
					if times*len(msgs[i].b) > 5e5 && !(thorough && times*len(msgs[i].b) < 1e7) {
						continue
					}
					for pos := 0; pos < 3; pos++ {
						pos := pos
						b.Calls(times)
						do(b, func() *btPeer {
							p := newPeer(metaBytes(2*pieceLen+9, i), 30)
							p.between = func(at int) []byte {
								if at == pos {
									return bytes.Repeat(otherMessages(p.ours)[i].b, times)
								}
								return nil
							}
							return p
						}, nil, fmt.Sprintf("%d times %s at position %d", times, msgs[i].name, pos))
					}
				}
				for j := range msgs {
					i, j := i, j
					for pos := 0; pos < 3; pos++ {
						pos := pos
						do(b, func() *btPeer {
							p := newPeer(metaBytes(pieceLen+9, i), 30)
							p.early = (i+j)%2 == 0
							p.between = func(at int) []byte {
								if at == pos {
									return append(append([]byte(nil), otherMessages(p.ours)[i].b...), otherMessages(p.ours)[j].b...)
								}
								return nil
							}
							return p
						}, nil, fmt.Sprintf("%s and %s at position %d", msgs[i].name, msgs[j].name, pos))
					}
				}
			}
		}
		// a short exchange, split in every way in up to three parts
		splits := func(b *B) {
			n := 68 + 60 + 100
			for p := 1; p < n; p++ {
				for q := p + 1; q <= n; q++ {
					if (q-p)%2 == 0 && q-p > 8 && !thorough {
						continue
					}
					p, q := p, q
					for v := 0; v < 2; v++ {
						v := v
						b.Do(func() string {
							return b.Exec(o, func() {
								freshPeerwire()
								pr := newPeer(metaBytes(40, p), 200)
								pr.early = v == 1
								pr.between = func(pos int) []byte {
									if pos == 1 {
										return append(make([]byte, 4), msgFrame(1, nil)...)
									}
									return nil
								}
								at := 0
								seg := func(c *vnet.TCPConn, avail, want int) int {
									k := avail
									if want < k {
										k = want
									}
									for _, cut := range []int{p, q} {
										if at < cut && at+k > cut {
											k = cut - at
										}
									}
									at += k
									return k
								}
								fetchFrom(pr, seg, fmt.Sprintf("stream split at %d and %d", p, q))
							})
						})
					}
				}
			}
		}
		// fetches one after the other, buffers of earlier ones still around
		again := func(b *B) {
			ns := []int{1, 100, pieceLen, pieceLen + 1, 3 * pieceLen, 17*pieceLen + 5}
			for _, x := range ns {
				for _, y := range ns {
					for _, z := range ns {
						for v := 0; v < 2; v++ {
							x, y, z, v := x, y, z, v
							b.Do(func() string {
								return b.Exec(o, func() {
									freshPeerwire()
									for i, n := range []int{x, y, z} {
										p := newPeer(metaBytes(n, i), 1+i*100)
										if v == 1 {
											p.order = rev(rng(pieces(n)))
											p.between = func(pos int) []byte {
												if pos < 4 {
													return otherMessages(p.ours)[(pos*5+i)%20].b
												}
												return nil
											}
										}
										fetchFrom(p, nil, fmt.Sprintf("fetch %d of sizes %d, %d, %d", i, x, y, z))
									}
								})
							})
						}
					}
				}
			}
		}
		return []*Scn{
			{Name: "sizes and reads", Bulk: sizes},
			{Name: "extension numbers and handshakes", Bulk: numbers},
			{Name: "orders of pieces", Bulk: orders},
			{Name: "messages in between", Bulk: between},
			{Name: "splits of the stream", Bulk: splits},
			{Name: "fetches in a row", Bulk: again},
		}
	})
}
