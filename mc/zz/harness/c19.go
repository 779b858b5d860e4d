package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"runtime"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// what a fetch may take at most, whatever the peer does
const (
	maxFetchTime = 60 * time.Second
	maxFetchMem  = 160 << 20
)

// safeFetch fetches once and judges everything that must hold with any peer.
func safeFetch(hash []byte, attach func(c *vnet.TCPConn), measure bool, what string) {
	w := vnet.World()
	var conn *vnet.TCPConn
	w.OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
		c := &vnet.TCPConn{}
		attach(c)
		conn = c
		return c, nil
	}
	var m0, m1 runtime.MemStats
	if measure {
		runtime.ReadMemStats(&m0)
	}
	t0 := vrt.Elapsed()
	n0 := len(w.TCP)
	got, err := peerwire.FetchMetaData(peerAddr, peerwire.LocalPeerId, hash)
	if measure {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > maxFetchMem {
			vrt.Fail("%s: the fetch allocates %d MB", what, d>>20)
		}
	}
	if d := vrt.Elapsed() - t0; d > maxFetchTime {
		vrt.Fail("%s: the fetch takes %v", what, d)
	}
	if err == nil && !bytes.Equal(sum(got), hash) {
		vrt.Fail("%s: the fetch of %x returns %d bytes with hash %x", what, hash, len(got), sum(got))
	}
	if len(w.TCP) != n0+1 || conn == nil {
		vrt.Fail("%s: %d connections for one fetch", what, len(w.TCP)-n0)
	}
	if !conn.Closed {
		vrt.Fail("%s: the fetch returned (error %v) and left the connection open", what, err)
	}
}

func init() {
	reg("C19", func(thorough bool) []*Scn {
		o := vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 22}
		do := func(b *B, measure bool, hash []byte, mk func() func(c *vnet.TCPConn), what string) {
			if b.Stopped() {
				return
			}
			b.Do(func() string {
				return b.Exec(o, func() {
					freshPeerwire()
					safeFetch(hash, mk(), measure, what)
				})
			})
		}
		ends := []string{"stalls", "closes", "resets", "sends garbage", "sends keep-alives", "dribbles"}

		// a conforming peer up to some byte
		cut := func(b *B) {
			for _, n := range []int{60, 2*pieceLen + 50} {
				for v := 0; v < 2; v++ {
					meta := metaBytes(n, n)
					total := 68 + 60 + 60 + n + 300
					for at := 0; at <= total; at++ {
						if n > 1000 && at > 300 && at%977 != 0 && !thorough {
							continue
						}
						if n > 1000 && at > 300 && at%61 != 0 {
							continue
						}
						for e := 0; e < endKinds; e++ {
							for _, seg := range [][]int{nil, {1}, {3, 70}} {
								if seg != nil && n > 1000 {
									continue
								}
								at, e, v := at, e, v
								do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
									p := newPeer(meta, 5)
									p.early = v == 1
									p.limit, p.ending = at, e
									return func(c *vnet.TCPConn) {
										if seg != nil {
											c.Seg = segments(seg...)
										}
										p.attach(c)
									}
								}, fmt.Sprintf("peer with %d bytes of metadata %s after %d bytes", n, ends[e], at))
							}
						}
					}
				}
			}
		}
		// a conforming peer's bytes, damaged
		damage := func(b *B) {
			meta := metaBytes(40, 3)
			subst := []byte{0, 1, 2, 20, 0x7f, 0xff, 'e', 'd', '0', '9', ':', '-', 'i', 'l'}
			for at := 0; at < 68+60+60+40; at++ {
				for _, x := range subst {
					for k := 0; k < 3; k++ { // replaced, inserted, dropped
						for e := 0; e < 2; e++ {
							at, x, k, e := at, x, k, e
							if k == 2 && x != 0 {
								continue
							}
							do(b, true, sum(meta), func() func(c *vnet.TCPConn) {
								p := newPeer(meta, 5)
								p.ending = e
								pos := 0
								p.edit = func(n int, what string, msg []byte) []byte {
									i := at - pos
									pos += len(msg)
									if i < 0 || i >= len(msg) {
										return msg
									}
									m := append([]byte(nil), msg[:i]...)
									if k != 2 {
										m = append(m, x)
									}
									if k == 1 {
										return append(m, msg[i:]...)
									}
									return append(m, msg[i+1:]...)
								}
								return p.attach
							}, fmt.Sprintf("byte %d of the peer's stream damaged (%d, %#x), then it %s", at, k, x, ends[e]))
						}
					}
				}
			}
		}
		odd := append(wrongValues(), 1, 2, 3, 255, 256, 16383, 16384, 16385, 1<<20, 1<<25, 1<<25+1, 1<<31-1, 1<<31, 1<<32, 1<<40, -2, -16384, -1<<40)
		// fields of the peer's messages with other values
		fields := func(b *B) {
			for _, n := range []int{100, pieceLen + 100} {
				meta := metaBytes(n, 5)
				for _, msg := range []string{"extended handshake", "piece"} {
					keys := []string{"m", "metadata_size", "ut_metadata", "zz"}
					if msg == "piece" {
						keys = []string{"msg_type", "piece", "total_size", "zz"}
					}
					for _, key := range keys {
						for i, val := range odd {
							for e := 0; e < endKinds; e++ {
								for nth := 0; nth < 2; nth++ {
									if nth == 1 && (msg != "piece" || n < 1000) {
										continue
									}
									msg, key, val, e, nth := msg, key, val, e, nth
									do(b, true, sum(meta), func() func(c *vnet.TCPConn) {
										p := newPeer(meta, 5)
										p.ending = e
										k := 0
										p.edit = func(_ int, what string, m []byte) []byte {
											if what != msg {
												return m
											}
											if k++; k-1 != nth {
												return m
											}
											r := refItem(string(m[6:]), 0)
											d := deep(r.val).(misc.Dict)
											in := d
											if key == "ut_metadata" {
												in = d["m"].(misc.Dict)
											}
											delete(in, key)
											set(in, key, val)
											return extFrame(int(m[5]), d, m[6+r.next:])
										}
										return p.attach
									}, fmt.Sprintf("field %s of the peer's %s %d is number %d of the odd values, then it %s", key, msg, nth, i, ends[e]))
								}
							}
						}
					}
				}
			}
		}
		// lengths and sizes that are claimed only
		claims := func(b *B) {
			meta := metaBytes(100, 7)
			lens := []uint32{0, 1, 2, 3, 32767, 32768, 32769, 40000, 65535, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			for _, l := range lens {
				for typ := 0; typ < 256; typ += 5 {
					for e := 0; e < endKinds; e++ {
						for when := 0; when < 3; when++ {
							l, typ, e, when := l, typ, e, when
							do(b, true, sum(meta), func() func(c *vnet.TCPConn) {
								p := newPeer(meta, 5)
								p.ending = e
								p.between = func(pos int) []byte {
									if pos != when {
										return nil
									}
									f := make([]byte, 4, 9)
									binary.BigEndian.PutUint32(f, l)
									f = append(f, byte(typ), 1, 'd')
									p.feed(f)
									p.end()
									return nil
								}
								return p.attach
							}, fmt.Sprintf("a frame of claimed length %d, type %d, after message %d, then the peer %s", l, typ, when, ends[e]))
						}
					}
				}
			}
			for _, size := range []int{0, 1, 1 << 20, 1<<25 - 1, 1 << 25, 1<<25 + 1, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 36, 1 << 44, 1 << 62, 1<<63 - 1, -1, -1 << 63} {
				for e := 0; e < endKinds; e++ {
					for _, full := range []bool{false, true} {
						size, e, full := size, e, full
						do(b, true, sum(meta), func() func(c *vnet.TCPConn) {
							p := newPeer(meta, 5)
							p.ending = e
							p.extra = misc.Dict{"metadata_size": size}
							p.between = func(pos int) []byte {
								if pos == 1 {
									if full {
										p.piece(0)
									}
									p.end()
								}
								return nil
							}
							return func(c *vnet.TCPConn) {
								p.attach(c)
								c.OnWrite = func(_ *vnet.TCPConn, x []byte) error {
									if !p.over {
										p.recv(x)
									}
									return nil
								}
							}
						}, fmt.Sprintf("a metadata size of %d is claimed, then the peer %s", size, ends[e]))
					}
				}
			}
		}
		// sequences of messages after the handshake
		sequences := func(depth int) func(b *B) {
			meta := metaBytes(pieceLen+20, 9)
			hs := func(size int) []byte {
				return extFrame(0, misc.Dict{"m": misc.Dict{"ut_metadata": 3}, "metadata_size": size}, nil)
			}
			pc := func(k, total int, data []byte) []byte {
				return extFrame(1, misc.Dict{"msg_type": 1, "piece": k, "total_size": total}, data)
			}
			n := len(meta)
			alphabet := [][]byte{
				hs(n), hs(pieceLen), hs(3 * pieceLen), hs(0), hs(20),
				pc(0, n, meta[:pieceLen]), pc(1, n, meta[pieceLen:]), pc(0, n, meta[pieceLen:]), pc(1, n, meta[:pieceLen]), pc(0, n, meta[:30000-pieceLen]), pc(2, n, meta[:5]), pc(-1, n, meta[:5]), pc(1<<40, n, meta[:5]), pc(0, 0, nil), pc(1, 5, []byte{0}),
				extFrame(1, misc.Dict{"msg_type": 2, "piece": 0}, nil), extFrame(1, misc.Dict{"msg_type": 0, "piece": 0}, nil), extFrame(1, misc.Dict{"msg_type": 1}, meta[:9]), extFrame(1, misc.Dict{}, nil),
				msgFrame(20, nil), msgFrame(20, []byte{0}), msgFrame(20, []byte{1}), msgFrame(20, []byte{1, 'd'}), msgFrame(20, []byte("\x00de")), msgFrame(20, []byte("\x01i5e")), msgFrame(20, append([]byte{1}, bytes.Repeat([]byte("l"), 30000)...)), msgFrame(20, append([]byte{0}, bytes.Repeat([]byte("d1:a"), 8000)...)),
				msgFrame(4, []byte{0, 0, 0, 1}), make([]byte, 4), msgFrame(7, make([]byte, 32767)), extFrame(3, misc.Dict{"a": 1}, nil), extFrame(2, misc.Dict{}, nil),
			}
			return func(b *B) {
				var seq []int
				var rec func()
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(seq) == depth {
						s := append([]int(nil), seq...)
						for _, early := range []bool{true, false} {
							e := endClose
							if !early {
								e = (s[0] + s[len(s)-1]) % endKinds
							}
							early := early
							do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
								return func(c *vnet.TCPConn) {
									p := newPeer(meta, 3)
									p.c, p.ending = c, e
									all := handshakeBytes(p.hash, []byte(idB))
									for _, k := range s {
										all = append(all, alphabet[k]...)
									}
									p.c = c
									if early { // everything before the program says a word
										p.feed(all)
										p.end()
										return
									}
									w := 0
									c.OnWrite = func(_ *vnet.TCPConn, x []byte) error {
										if w++; w == 2 {
											p.feed(all)
											p.end()
										}
										return nil
									}
									p.feed(nil)
									p.feed(all[:68])
									all = all[68:]
								}
							}, fmt.Sprintf("messages %v of the alphabet, then the peer %s", s, ends[e]))
						}
						return
					}
					for k := range alphabet {
						seq = append(seq, k)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}
		// the handshake, and data of another torrent
		others := func(b *B) {
			meta := metaBytes(pieceLen+20, 11)
			for n := 0; n < 256; n++ {
				for _, l := range []int{67, 68, 69, 300} {
					for e := 0; e < 3; e++ {
						n, l, e := n, l, e
						do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
							return func(c *vnet.TCPConn) {
								p := newPeer(meta, 3)
								p.c, p.ending = c, e
								m := []byte(pattern(l, byte(n)))
								m[0] = byte(n)
								copy(m[1:], btProto)
								if n < 60 {
									copy(m[20:], "\x00\x00\x00\x00\x00\x10\x00\x00")
								}
								p.feed(m)
								p.end()
							}
						}, fmt.Sprintf("handshake of %d bytes claiming a protocol name of %d, then the peer %s", l, n, ends[e]))
					}
				}
			}
			for _, n := range []int{1, 100, pieceLen, 2 * pieceLen, 2*pieceLen + 1} {
				for v := 0; v < 8; v++ {
					n, v := n, v
					want := metaBytes(n, 1)
					do(b, false, sum(want), func() func(c *vnet.TCPConn) {
						d := append([]byte(nil), want...)
						switch v {
						case 0:
							d = metaBytes(n, 2)
						case 1:
							d[n-1] ^= 1
						case 2:
							d[0] ^= 0x80
						case 3:
							d = append(d, 0)
						case 4:
							d = d[:n-1]
						case 5:
							d = append(d, d...)
						case 6:
							d = nil
						case 7:
							d = bytes.Repeat(sum(want), n/20+1)
						}
						p := newPeer(d, 9)
						p.hash = sum(want)
						p.ending = v % 3
						return p.attach
					}, fmt.Sprintf("the peer has other metadata (variant %d) of about %d bytes", v, n))
				}
			}
			// hashes that resemble the hash of what the peer has
			for _, n := range []int{0, 1, 100, pieceLen + 1} {
				d := metaBytes(n, 1)
				real := sum(d)
				var hs [][]byte
				add := func(h []byte) {
					if len(h) == 20 && !bytes.Equal(h, real) {
						hs = append(hs, h)
					}
				}
				for i := 0; i < 20; i++ {
					for _, x := range []byte{real[i] ^ 1, real[i] ^ 0x20, real[i] ^ 0x80, 0, 0xff, ' '} {
						h := append([]byte(nil), real...)
						h[i] = x
						add(h)
					}
					for _, x := range []byte{0, ' ', 0xff, 'x'} {
						fill := bytes.Repeat([]byte{x}, 20)
						add(append(append([]byte(nil), real[:i]...), fill[i:]...))
						add(append(append([]byte(nil), fill[:i]...), real[i:]...))
					}
					add(append(append([]byte(nil), real[i:]...), real[:i]...))
				}
				add([]byte(hex.EncodeToString(real)[:20]))
				add(bytes.ToLower(real))
				add(bytes.ToUpper(real))
				add(sum(real))
				add(sum(nil))
				add(peerwire.LocalPeerId)
				for _, h := range hs {
					h, n := h, n
					do(b, false, h, func() func(c *vnet.TCPConn) {
						p := newPeer(d, 9)
						p.hash = h
						p.ending = endClose
						return p.attach
					}, fmt.Sprintf("the peer has %d bytes with the hash %x", n, real))
				}
			}
			// pieces overwritten by others
			for _, v := range [][]int{{0, 0}, {1, 1}, {0, 1, 0}, {0, 1, 1, 0}, {1, 0, 2}} {
				v := v
				do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
					p := newPeer(meta, 9)
					p.between = func(pos int) []byte {
						if pos == 1 {
							for i, k := range v {
								p.feed(extFrame(p.ours, misc.Dict{"msg_type": 1, "piece": k, "total_size": len(meta)}, meta[i:i+500]))
							}
						}
						return nil
					}
					p.ending = endClose
					return p.attach
				}, fmt.Sprintf("bogus pieces %v first", v))
			}
		}
		// a peer that does not read
		window := func(b *B) {
			meta := metaBytes(3*pieceLen, 13)
			for after := 0; after < 6; after++ {
				for e := 0; e < endKinds; e++ {
					after, e := after, e
					do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
						p := newPeer(meta, 9)
						p.ending = e
						return func(c *vnet.TCPConn) {
							p.attach(c)
							f := c.OnWrite
							k := 0
							if after == 0 {
								c.WriteStall = true
							}
							c.OnWrite = func(c *vnet.TCPConn, x []byte) error {
								if k++; k == after {
									c.WriteStall = true
								}
								return f(c, x)
							}
						}
					}, fmt.Sprintf("the peer stops reading after %d writes and %s", after, ends[e]))
				}
			}
			for k := 1; k < 6; k++ { // writes fail
				k := k
				do(b, false, sum(meta), func() func(c *vnet.TCPConn) {
					p := newPeer(meta, 9)
					return func(c *vnet.TCPConn) {
						p.attach(c)
						f := c.OnWrite
						n := 0
						c.OnWrite = func(c *vnet.TCPConn, x []byte) error {
							if n++; n >= k {
								return fmt.Errorf("broken pipe")
							}
							return f(c, x)
						}
					}
				}, fmt.Sprintf("write %d fails", k))
			}
		}
		dials := func(b *B) {
			for _, k := range []int{peerRefuses, peerBlackhole} {
				for _, addr := range []string{peerAddr, "[::1]:5", "nohost", "1.2.3.4", "1.2.3.4:99999", ":", "1.2.3.4:-1", ""} {
					k, addr := k, addr
					b.Do(func() string {
						return b.Exec(o, func() {
							freshPeerwire()
							vnet.World().OnDial = func(a string, timeout time.Duration) (*vnet.TCPConn, error) {
								return nil, behave(k, "")(nil)
							}
							got, err := peerwire.FetchMetaData(addr, peerwire.LocalPeerId, sum([]byte("x")))
							if err == nil || len(got) > 0 {
								vrt.Fail("fetching from unreachable %q returns %d bytes and error %v", addr, len(got), err)
							}
							if vrt.Elapsed() > maxFetchTime {
								vrt.Fail("fetching from unreachable %q takes %v", addr, vrt.Elapsed())
							}
						})
					})
				}
			}
			for n := 0; n <= 41; n++ { // ids and hashes that are none
				for m := 19; m <= 21; m++ {
					n, m := n, m
					b.Do(func() string {
						return b.Exec(o, func() {
							freshPeerwire()
							w := vnet.World()
							w.OnDial = func(a string, timeout time.Duration) (*vnet.TCPConn, error) {
								c := &vnet.TCPConn{}
								c.Feed(handshakeBytes([]byte(pattern(20, 1)), []byte(idB)))
								c.Finish(nil)
								return c, nil
							}
							h := []byte(pattern(n, 1))
							got, err := peerwire.FetchMetaData(peerAddr, []byte(pattern(m, 2)), h)
							if err == nil && !bytes.Equal(sum(got), h) {
								vrt.Fail("fetching a hash of %d bytes returns %d bytes", n, len(got))
							}
							for _, c := range w.TCP {
								if !c.Closed {
									vrt.Fail("fetching a hash of %d bytes leaves the connection open", n)
								}
							}
						})
					})
				}
			}
		}
		depth := 3
		if thorough {
			depth = 4
		}
		return []*Scn{
			{Name: "stream ends anywhere", Bulk: cut},
			{Name: "damaged stream", Bulk: damage},
			{Name: "odd fields", Bulk: fields},
			{Name: "claimed sizes", Bulk: claims},
			{Name: "message sequences", Bulk: sequences(depth)},
			{Name: "handshakes and other data", Bulk: others},
			{Name: "peer that does not read", Bulk: window},
			{Name: "unreachable peers and wrong hashes", Bulk: dials},
		}
	})
}
