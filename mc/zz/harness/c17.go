package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

const outDir = "torrent"

// storeTrial watches the output directory while the node fetches torrents.
type storeTrial struct {
	t    *fetchTrial
	d    *vos.FS
	what string
	k    int
	// a file with wrong contents that was there before
	corrupt string
	// files that were there before and must stay
	kept  [8]string
	keptC [8][]byte
	nkept int
}

// torrentName returns the hash a file name stands for, or "".
func torrentName(p string) string {
	b := filepath.Base(p)
	if len(b) != 48 || !strings.HasSuffix(b, ".torrent") {
		return ""
	}
	h := strings.ToLower(b[:40])
	for i := 0; i < 40; i++ {
		if !strings.Contains("0123456789abcdef", h[i:i+1]) {
			return ""
		}
	}
	return h
}

func hexSum(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:])
}

func (s *storeTrial) check(when string) {
	s.d.Each(func(p string, n *vos.Inode) {
		h := torrentName(p)
		if h == "" || filepath.Dir(p) != outDir || n.Dir || h == s.corrupt {
			return
		}
		if x := hexSum(n.Data); x != h {
			vrt.Fail("%s: %s, %s has %d bytes with hash %s", s.what, when, p, len(n.Data), x)
		}
		if x := hexSum(n.Synced); x != h {
			vrt.Fail("%s: %s, %s would have %d bytes with hash %s after a crash of the machine", s.what, when, p, len(n.Synced), x)
		}
	})
	for i := 0; i < s.nkept; i++ {
		n := s.d.Get(s.kept[i])
		if n == nil || !bytes.Equal(n.Data, s.keptC[i]) {
			vrt.Fail("%s: %s, the file %s that was there before is gone or different", s.what, when, s.kept[i])
		}
	}
}

func (s *storeTrial) keep(p string, data []byte) {
	s.d.Put(p, data, false)
	s.kept[s.nkept], s.keptC[s.nkept] = p, data
	s.nkept++
}

func newStore(what string, workers, fetchers int) *storeTrial {
	s := &storeTrial{what: what, d: vos.Disk()}
	s.d.OnOp = func(op, path string) { s.check(fmt.Sprintf("after %s of %s", op, path)) }
	s.t = newFetchTrial(workers, fetchers, 4)
	return s
}

// fetch announces a torrent at a peer of the given kind; returns its file name.
func (s *storeTrial) fetch(kind int, meta []byte) string {
	i := s.k
	s.k++
	p, f := fetchPeer(kind, meta, 5+i)
	src := from(i)
	s.t.peer(src.String(), f)
	s.t.n.c.Inject(announce(fmt.Sprint(i), string(p.hash), 9, 1), src)
	return outDir + "/" + hex.EncodeToString(p.hash) + ".torrent"
}

func (s *storeTrial) stored(file string, meta []byte) {
	n := s.d.Get(file)
	if n == nil {
		vrt.Fail("%s: the fetch succeeded and %s does not exist", s.what, file)
	}
	if n.Dir || !bytes.Equal(n.Data, meta) {
		vrt.Fail("%s: the fetch succeeded and %s has not the fetched contents (%d bytes, hash %s)", s.what, file, len(n.Data), hexSum(n.Data))
	}
	if n.Mode.Perm()&0o444 == 0 {
		vrt.Fail("%s: %s has mode %v", s.what, file, n.Mode)
	}
}

func (s *storeTrial) absent(file string) {
	if s.d.Get(file) != nil {
		vrt.Fail("%s: the fetch failed and left %s", s.what, file)
	}
}

// only tells that nothing but the given files is in the output directory.
func (s *storeTrial) only(files ...string) {
	s.d.Each(func(p string, n *vos.Inode) {
		if filepath.Dir(p) != outDir {
			if !n.Dir {
				for i := 0; i < s.nkept; i++ {
					if s.kept[i] == p {
						return
					}
				}
				vrt.Fail("%s: the file %s appeared", s.what, p)
			}
			return
		}
		for _, f := range files {
			if f == p {
				return
			}
		}
		for i := 0; i < s.nkept; i++ {
			if s.kept[i] == p {
				return
			}
		}
		vrt.Fail("%s: %s was left in the output directory", s.what, p)
	})
}

// what an operation that fails may have done
var diskErrors = []struct {
	name  string
	err   error
	short int // percent of a write done
}{{"no space", syscall.ENOSPC, 0}, {"no space after one byte", syscall.ENOSPC, 1}, {"I/O error half way", syscall.EIO, 50}, {"I/O error before the last byte", syscall.EIO, 99}, {"I/O error after the last byte", syscall.EIO, 100}}

func failing(kind, n int) (error, int) {
	e := diskErrors[kind]
	switch e.short {
	case 0:
		return e.err, 0
	case 1:
		return e.err, 1
	case 99:
		return e.err, n - 1
	case 100:
		return e.err, n
	}
	return e.err, n / 2
}

func init() {
	reg("C17", func(thorough bool) []*Scn {
		seq := vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 22}
		d := vrt.Opts{DelayAll: true, NoEarly: true, MaxSteps: 1 << 20}
		sizes := []int{1, 100, pieceLen, 2*pieceLen + 7}

		plain := func(b *B) {
			ns := append([]int{2, 19, 20, 4095, 4096, 4097, pieceLen - 1, pieceLen + 1, 32767, 32768, 32769, 5 * pieceLen, 20*pieceLen + 1}, sizes...)
			for _, n := range ns {
				for dir := 0; dir < 6; dir++ {
					for kind := 0; kind < fetchKinds; kind++ {
						n, dir, kind := n, dir, kind
						if kind == fetchLies && n < 100 {
							continue
						}
						b.Do(func() string {
							return b.Exec(seq, func() {
								meta := metaBytes(n, n)
								s := newStore(fmt.Sprintf("%d bytes from a peer that is %s, directory state %d", n, fetchNames[kind], dir), 1, 1)
								file := outDir + "/" + hexSum(meta) + ".torrent"
								other := metaBytes(50, 1)
								switch dir {
								case 1:
									s.d.Put(outDir, nil, true)
								case 2: // other files
									s.d.Put(outDir, nil, true)
									s.keep(outDir+"/"+hexSum(other)+".torrent", other)
									s.keep(outDir+"/README", []byte("x"))
									s.keep(hexSum(meta)+".torrent", []byte("elsewhere"))
								case 3: // the same torrent
									s.d.Put(outDir, nil, true)
									s.keep(file, meta)
								case 4: // a broken file of that name
									s.d.Put(outDir, nil, true)
									s.d.Put(file, meta[:n/2], false)
									s.corrupt = hexSum(meta)
								case 5: // leftovers of an earlier run
									s.d.Put(outDir, nil, true)
									for _, x := range []string{file + ".tmp", file + "~", file + ".part", outDir + "/" + hexSum(meta), outDir + "/" + hexSum(meta) + ".tmp"} {
										s.d.Put(x, bytes.Repeat([]byte("old"), n), false)
									}
								}
								if got := s.fetch(kind, meta); got != file {
									panic("harness")
								}
								vrt.WaitQuiet()
								s.check("in the end")
								switch {
								case !fetchFails(kind):
									s.corrupt = ""
									s.stored(file, meta)
									if dir != 5 {
										s.only(file)
									}
								case dir < 3:
									s.absent(file)
									s.only()
								}
							})
						})
					}
				}
			}
			// one after another
			for n := 1; n <= 3; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= fetchKinds
				}
				for x := 0; x < total; x++ {
					for same := 0; same < 2; same++ {
						n, x, same := n, x, same
						b.Do(func() string {
							return b.Exec(seq, func() {
								s := newStore(fmt.Sprintf("fetches number %d of %d kinds in a row", x, n), 1, 1)
								y := x
								okAll := map[string][]byte{}
								for i := 0; i < n; i++ {
									meta := metaBytes(200+i*(1-same), 5+i*(1-same))
									k := y % fetchKinds
									y /= fetchKinds
									f := s.fetch(k, meta)
									vrt.WaitQuiet()
									if !fetchFails(k) {
										okAll[f] = meta
									}
									var names []string
									for q, m := range okAll {
										s.stored(q, m)
										names = append(names, q)
									}
									s.only(names...)
								}
							})
						})
					}
				}
			}
			// places where nothing can be stored
			for v := 0; v < 4; v++ {
				v := v
				b.Do(func() string {
					return b.Exec(seq, func() {
						meta := metaBytes(300, 3)
						s := newStore(fmt.Sprintf("unusable output directory %d", v), 1, 1)
						file := outDir + "/" + hexSum(meta) + ".torrent"
						switch v {
						case 0:
							s.keep(outDir, []byte("a file"))
						case 1:
							s.d.Put(outDir, nil, true)
							s.d.Put(file, nil, true)
						case 2:
							s.d.Fault = func(op, path string, n int) (error, int) { return syscall.EROFS, 0 }
						case 3:
							s.d.Fault = func(op, path string, n int) (error, int) {
								if op == "read" || op == "stat" || op == "readdir" || op == "open" || op == "mkdir" {
									return nil, -1
								}
								return syscall.EACCES, 0
							}
						}
						s.fetch(fetchOK, meta)
						vrt.WaitQuiet()
						s.check("in the end")
						// the node is still there
						s.d.Fault = nil
						if v > 1 {
							m2 := metaBytes(301, 4)
							f2 := s.fetch(fetchOK, m2)
							vrt.WaitQuiet()
							s.stored(f2, m2)
						}
					})
				})
			}
		}

		// every operation fails, alone and together with another; then all goes well
		faults := func(max int) func(b *B) {
			return func(b *B) {
				for _, n := range sizes {
					for dir := 0; dir < 3; dir++ {
						run := func(at []int, kind []int, from int) int {
							ops := 0
							b.Do(func() string {
								return b.Exec(seq, func() {
									meta, other := metaBytes(n, 77), metaBytes(33, 2)
									s := newStore(fmt.Sprintf("%d bytes, operations %v fail with kinds %v, from %d on all do, directory state %d", n, at, kind, from, dir), 1, 1)
									file := outDir + "/" + hexSum(meta) + ".torrent"
									if dir > 0 {
										s.d.Put(outDir, nil, true)
										s.keep(outDir+"/"+hexSum(other)+".torrent", other)
									}
									if dir == 2 {
										s.keep(file, meta)
									}
									op := 0
									s.d.Fault = func(o, path string, n int) (error, int) {
										op++
										if from > 0 && op >= from {
											return failing(2, n)
										}
										for i, a := range at {
											if a == op {
												return failing(kind[i], n)
											}
										}
										return nil, -1
									}
									s.fetch(fetchOK, meta)
									vrt.WaitQuiet()
									ops = op
									s.check("in the end")
									// the disk works again
									s.d.Fault = nil
									s.fetch(fetchOK, meta)
									m2 := metaBytes(n+1, 78)
									f2 := s.fetch(fetchOK, m2)
									vrt.WaitQuiet()
									s.stored(file, meta)
									s.stored(f2, m2)
									s.check("in the end")
								})
							})
							return ops
						}
						// how many operations there are depends on the code
						limit := 14
						for a := 1; a <= limit+4; a++ {
							for k := range diskErrors {
								run([]int{a}, []int{k}, 0)
								for c := a + 1; c <= limit+2 && max > 1; c++ {
									for k2 := range diskErrors {
										if n > 1000 && k2 != k && max < 3 {
											continue
										}
										run([]int{a, c}, []int{k, k2}, 0)
										for e := c + 1; e <= limit && max > 2; e++ {
											run([]int{a, c, e}, []int{k, k2, k}, 0)
										}
									}
								}
								run([]int{a}, []int{k}, a+2)
							}
							run(nil, nil, a)
							if b.Stopped() {
								return
							}
						}
					}
				}
			}
		}

		// the machine stops after the k-th operation, with or without the unsynced data; the program starts again
		crashes := func(b *B) {
			for _, n := range sizes {
				for dir := 0; dir < 3; dir++ {
					for at := 1; at <= 16; at++ {
						for lose := 0; lose < 3; lose++ {
							for _, kind := range []int{fetchOK, fetchPieceful} {
								for _, k2 := range []int{fetchOK, fetchCloses} {
									n, dir, at, lose, kind, k2 := n, dir, at, lose, kind, k2
									b.Do(func() string {
										return b.Exec(seq, func() {
											meta, other := metaBytes(n, 5), metaBytes(44, 2)
											s := newStore(fmt.Sprintf("%d bytes, crash after %d disk operations (%d), restart", n, at, lose), 1, 1)
											file := outDir + "/" + hexSum(meta) + ".torrent"
											if dir > 0 {
												s.d.Put(outDir, nil, true)
												s.keep(outDir+"/"+hexSum(other)+".torrent", other)
											}
											if dir == 2 {
												s.keep(file, meta)
											}
											op := 0
											s.d.Fault = func(o, path string, n int) (error, int) {
												if op++; op > at {
													return syscall.EIO, 0
												}
												return nil, -1
											}
											s.fetch(kind, meta)
											vrt.WaitQuiet()
											s.d.Each(func(p string, n *vos.Inode) {
												switch {
												case n.Dir:
												case lose == 1:
													n.Data = append([]byte(nil), n.Synced...)
												case lose == 2: // a block of zeros
													for i := len(n.Synced); i < len(n.Data); i++ {
														n.Data[i] = 0
													}
												}
												n.Synced = append([]byte(nil), n.Data...)
											})
											s.check("after the crash")
											s.d.Fault = nil
											// again
											w := s.t.n.w
											w.UDP = nil
											s2 := newStore(s.what, 1, 1)
											s2.kept, s2.keptC, s2.nkept = s.kept, s.keptC, s.nkept
											before := s.d.Get(file) != nil
											s2.fetch(k2, meta)
											vrt.WaitQuiet()
											if !fetchFails(k2) {
												s2.stored(file, meta)
											} else if !before {
												s2.absent(file)
											}
											s2.check("in the end")
										})
									})
								}
							}
						}
					}
				}
			}
		}

		// fetches at the same time, with faults
		together := func(fetchers, nfaults int, torrent []int, kinds ...int) func() {
			return func() {
				s := newStore(fmt.Sprintf("torrents %v at once from peers of kinds %v", torrent, kinds), 2, fetchers)
				left := nfaults
				s.d.Fault = func(op, path string, n int) (error, int) {
					if left == 0 {
						return nil, -1
					}
					c := vrt.ChooseDev(3)
					if c == 0 {
						return nil, -1
					}
					left--
					return failing([]int{0, 0, 2}[c], n)
				}
				var files [4]string
				var metas [4][]byte
				for i, k := range kinds {
					metas[i] = metaBytes(200+torrent[i], 9+torrent[i])
					files[i] = s.fetch(k, metas[i])
				}
				vrt.WaitQuiet()
				s.check("in the end")
				var names []string
				for i, k := range kinds {
					ok := false
					for j, f := range files {
						ok = ok || j < len(kinds) && f == files[i] && !fetchFails(kinds[j])
					}
					if ok {
						names = append(names, files[i])
					}
					switch {
					case !ok:
						s.absent(files[i])
					case fetchFails(k) || left < nfaults:
					default:
						s.stored(files[i], metas[i])
					}
				}
				if left == nfaults {
					s.only(names...)
				}
			}
		}
		hashes := func(b *B) {
			// hashes of any length and content never leave the directory
			for n := 0; n <= 41; n++ {
				for v := 0; v < 5; v++ {
					n, v := n, v
					b.Do(func() string {
						return b.Exec(seq, func() {
							var h string
							switch v {
							case 0:
								h = pattern(n, 7)
							case 1:
								h = strings.Repeat("../", 20)[:n]
							case 2:
								h = strings.Repeat("\x00", n)
							case 3:
								h = strings.Repeat("a/b%s\n", 10)[:n]
							case 4:
								h = strings.Repeat("\xff", n)
							}
							s := newStore(fmt.Sprintf("announce of info hash %q", h), 1, 1)
							meta := []byte("d4:name1:xe")
							a := &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 99}
							s.t.peer(a.String(), func(c *vnet.TCPConn) error {
								p := newPeer(meta, 3)
								p.hash = []byte(h)
								p.c = c
								c.Feed(append(append([]byte("\x13"+btProto+"\x00\x00\x00\x00\x00\x10\x00\x00"), h...), idB...))
								p.ours, p.early = 1, true
								p.extended()
								p.piece(0)
								c.Finish(nil)
								return nil
							})
							s.t.n.c.Inject(announce("aa", h, 9, 1), a)
							vrt.WaitQuiet()
							s.check("in the end")
							s.only()
						})
					})
				}
			}
		}
		mf := 2
		b2, b3 := []int{2}, []int{2}
		if thorough {
			mf = 3
			b2, b3 = []int{2, 3}, []int{2, 3}
		}
		r := []int{1}
		return []*Scn{
			{Name: "peers and directories", Bulk: plain},
			{Name: "disk errors", Bulk: faults(mf)},
			{Name: "crashes and restarts", Bulk: crashes},
			{Name: "odd info hashes", Bulk: hashes},
			{Name: "one fetch, faults anywhere", Body: together(1, 3, []int{0}, fetchOK), Opts: d, Bounds: []int{2, 3}, RaceBounds: r},
			{Name: "one torrent, two fetchers", Body: together(2, 0, []int{0, 0}, fetchOK, fetchOK), Opts: d, Bounds: b2, RaceBounds: r},
			{Name: "one torrent, two fetchers, faults", Body: together(2, 1, []int{0, 0}, fetchOK, fetchEarly), Opts: d, Bounds: b3, RaceBounds: r},
			{Name: "two torrents, two fetchers, faults", Body: together(2, 1, []int{0, 1}, fetchOK, fetchOK), Opts: d, Bounds: b3, RaceBounds: r},
			{Name: "one torrent, a bad and a good peer", Body: together(2, 1, []int{0, 0}, fetchOK, fetchWrong), Opts: d, Bounds: b2, RaceBounds: r},
			{Name: "two torrents, one fails", Body: together(2, 0, []int{0, 1}, fetchCloses, fetchOK), Opts: d, Bounds: b2, RaceBounds: r},
		}
	})
}
