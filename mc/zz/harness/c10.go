package main

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// holder tracks buffers that are out, oldest first. (No append or copy: those
// would be seen by the race detector.)
type holder struct {
	out [640]held
	n   int
}

type held struct {
	b     []byte
	stamp byte
}

func span(b []byte) (uintptr, uintptr) {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return p, p + uintptr(len(b))
}

// got records a buffer just obtained; it returns what is wrong.
func (h *holder) got(b []byte, want int, stamp byte) string {
	if len(b) != want {
		return fmt.Sprintf("asked for %d bytes, got %d", want, len(b))
	}
	lo, hi := span(b)
	for _, o := range h.out[:h.n] {
		l, u := span(o.b)
		if lo < u && l < hi && lo < hi && l < u {
			return fmt.Sprintf("buffer of %d bytes overlaps one of %d bytes that is still in use", len(b), len(o.b))
		}
	}
	for i := range b {
		b[i] = stamp
	}
	h.out[h.n] = held{b, stamp}
	h.n++
	return h.intact()
}

func (h *holder) intact() string {
	for _, o := range h.out[:h.n] {
		for _, x := range o.b {
			if x != o.stamp {
				return "the bytes of a buffer in use changed"
			}
		}
	}
	return ""
}

func (h *holder) drop(i int) []byte {
	b := h.out[i].b
	for ; i+1 < h.n; i++ {
		h.out[i] = h.out[i+1]
	}
	h.n--
	return b
}

func cut(b []byte, how int) []byte {
	switch how {
	case 1:
		if len(b) > 1 {
			return b[:1]
		}
	case 2:
		return b[:0]
	case 3:
		return b[len(b)/2:]
	case 4:
		return b[: len(b)/2 : len(b)/2]
	}
	return b
}

func init() {
	reg("C10", func(thorough bool) []*Scn {
		// one-thread sequences: op = get default, get size s, put held i (whole / cut)
		sizes := []int{0, 1, 2, 8}
		seqs := func(b *B, max, width, depth int, hows ...int) {
			type op struct{ kind, arg, how int }
			var all []op
			all = append(all, op{0, 0, 0})
			for _, s := range sizes {
				all = append(all, op{1, s, 0})
			}
			for i := 0; i < 3; i++ {
				for _, how := range hows {
					all = append(all, op{2, i, how})
				}
			}
			seq := make([]op, 0, depth)
			var rec func(held int)
			rec = func(heldN int) {
				if len(seq) == depth {
					sq := append([]op(nil), seq...)
					b.Do(func() string {
						b.Calls(depth)
						p := misc.NewBytesPool(max, width)
						h := &holder{}
						for i, o := range sq {
							m := ""
							switch o.kind {
							case 0:
								m = h.got(p.Get(), width, byte(i+1))
							case 1:
								m = h.got(p.GetBySize(o.arg), o.arg, byte(i+1))
							case 2:
								p.Put(cut(h.drop(o.arg), o.how))
								m = h.intact()
							}
							if m != "" {
								var s []string
								for _, o := range sq[:i+1] {
									s = append(s, [...]string{"get", fmt.Sprintf("get %d", o.arg), fmt.Sprintf("put #%d cut %d", o.arg, o.how)}[o.kind])
								}
								return fmt.Sprintf("pool of %d x %d: %s: %s", max, width, strings.Join(s, ", "), m)
							}
						}
						return ""
					})
					return
				}
				if b.Stopped() {
					return
				}
				for _, o := range all {
					n := heldN
					if o.kind == 2 {
						if o.arg >= heldN {
							continue
						}
						n--
					} else {
						n++
						if n > 3 {
							continue
						}
					}
					seq = append(seq, o)
					rec(n)
					seq = seq[:len(seq)-1]
				}
			}
			rec(0)
			b.Sample("all sequences of %d operations over sizes %v, pool of %d x %d", depth, sizes, max, width)
		}
		conc := func(max, width, nt, per int, ops []int) func() {
			return func() {
				fresh()
				p := misc.NewBytesPool(max, width)
				h := &holder{}
				// one buffer already returned, so that threads compete for it
				seed := vrt.Choose(3)
				for i := 0; i < seed; i++ {
					p.Put(make([]byte, width))
				}
				var fs []func()
				sc := scripts(nt, per, len(ops))
				for t := 0; t < nt; t++ {
					t := t
					script := sc[t]
					fs = append(fs, func() {
						for i, o := range script {
							o = ops[o]
							st := byte(1 + t*16 + i)
							want := width
							var b []byte
							if o == 0 {
								b = p.Get()
							} else {
								want = o
								b = p.GetBySize(o)
							}
							vrt.RaceWriteRange(b)
							vrt.HistOp(uint64(st))
							if m := h.got(b, want, st); m != "" {
								vrt.Fail("pool of %d x %d: %s", max, width, m)
							}
							vrt.Point("using")
							vrt.RaceWriteRange(b)
							vrt.HistOp(uint64(st) + 999)
							if m := h.intact(); m != "" {
								vrt.Fail("pool of %d x %d: %s", max, width, m)
							}
							if i%2 == 0 || o == 0 {
								for k := range h.out[:h.n] {
									if h.out[k].stamp == st {
										h.drop(k)
										break
									}
								}
								p.Put(cut(b, i%3))
							}
						}
					})
				}
				threads(fs...)
				// whatever is in the pool now is handed out once each
				for i := 0; i < 3; i++ {
					if m := h.got(p.GetBySize(width), width, byte(200+i)); m != "" {
						vrt.Fail("pool of %d x %d, afterwards: %s", max, width, m)
					}
				}
			}
		}
		d := 6
		b3 := []int{2}
		if thorough {
			d, b3 = 7, []int{2, 3}
		}
		s := []*Scn{}
		for _, max := range []int{0, 1, 2} {
			for _, width := range []int{0, 2, 8} {
				max, width := max, width
				if max != 1 && width != 2 {
					continue
				}
				s = append(s, &Scn{Name: fmt.Sprintf("all sequences, pool of %d x %d", max, width), Bulk: func(b *B) { seqs(b, max, width, d, 0, 1, 2) }})
				s = append(s, &Scn{Name: fmt.Sprintf("halves returned, pool of %d x %d", max, width), Bulk: func(b *B) { seqs(b, max, width, d-1, 0, 3, 4) }})
			}
		}
		s = append(s, &Scn{Name: "every size returns its own size", Bulk: func(b *B) {
			for n := 0; n <= 4200; n++ {
				b.Do(func() string {
					p := misc.NewBytesPool(3, 100)
					h := &holder{}
					for i, k := range []int{n, n + 1, n, 100, n} {
						if m := h.got(p.GetBySize(k), k, byte(i+1)); m != "" {
							return m
						}
						if i%2 == 1 {
							p.Put(cut(h.drop(0), i%3))
						}
					}
					return ""
				})
			}
		}},
			&Scn{Name: "many buffers out at a time", Bulk: func(b *B) {
				for _, max := range []int{0, 1, 7, 64, 100, 128, 300, 1000} {
					for _, n := range []int{9, 17, 65, 101, 129, 257, 300} {
						for v := 0; v < 6; v++ {
							max, n, v := max, n, v
							b.Do(func() string {
								p := misc.NewBytesPool(max, 16)
								h := &holder{}
								b.Calls(4 * n)
								what := fmt.Sprintf("pool of %d x 16, %d buffers at a time (%d): ", max, n, v)
								for round := 0; round < 3; round++ {
									for i := 0; i < n; i++ {
										k := 16
										if v%3 == 1 {
											k = i % 33
										}
										x := p.GetBySize(k)
										if v%3 == 2 {
											x, k = p.Get(), 16
										}
										if len(x) != k {
											return fmt.Sprintf("%sasked for %d bytes, got %d", what, k, len(x))
										}
										for j := range x {
											x[j] = byte(i + round)
										}
										h.out[i] = held{x, byte(i + round)}
									}
									h.n = n
									if m := h.intact(); m != "" {
										return what + m
									}
									for i := 0; i < n; i++ {
										k := i
										if v >= 3 {
											k = n - 1 - i
										}
										p.Put(cut(h.out[k].b, []int{0, 0, 1}[i%3]))
									}
								}
								return ""
							})
						}
					}
				}
			}},
			&Scn{Name: "2 threads x 3 requests", Body: conc(1, 4, 2, 3, []int{0, 4, 7}), Bounds: b3, RaceBounds: []int{1}},
			&Scn{Name: "3 threads x 1 request, pool of 2", Body: conc(2, 4, 3, 1, []int{0, 4, 7}), Bounds: b3, RaceBounds: []int{1}},
			&Scn{Name: "3 threads x 2 requests, pool of 1", Body: conc(1, 4, 3, 2, []int{0, 7}), Bounds: b3, RaceBounds: []int{1}})
		if thorough {
			s = append(s, &Scn{Name: "4 threads x 1 request, pool of 0", Body: conc(0, 4, 4, 1, []int{0, 7}), Bounds: b3, RaceBounds: []int{1}})
		}
		return s
	})
}
