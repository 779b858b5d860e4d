package main

import (
	"fmt"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func init() {
	reg("C08", func(thorough bool) []*Scn {
		conc := func(nt, per int, inits []int) func() {
			return func() {
				misc.VerifInit()
				start := inits[vrt.Choose(len(inits))]
				g := dht.NewTxIdGenerator(uint16(start))
				got := make([][]string, nt)
				var fs []func()
				for t := 0; t < nt; t++ {
					t := t
					fs = append(fs, func() {
						for i := 0; i < per; i++ {
							got[t] = append(got[t], g.Next())
						}
					})
				}
				threads(fs...)
				seen := map[string]bool{}
				for _, l := range got {
					for _, id := range l {
						if seen[id] {
							vrt.Fail("start %d: identifier %q handed out twice: %q", start, id, got)
						}
						seen[id] = true
						if len(id) != len(got[0][0]) {
							vrt.Fail("identifier lengths differ: %q", got)
						}
					}
				}
			}
		}
		edge := []int{0, 1, 254, 255, 256, 32766, 32767, 65533, 65534, 65535}
		s := []*Scn{
			{Name: "2 threads x 2 ids", Body: conc(2, 2, edge), Bounds: []int{3}, RaceBounds: []int{2}},
			{Name: "3 threads x 1 id", Body: conc(3, 1, edge), Bounds: []int{3}, RaceBounds: []int{2}},
			{Name: "whole cycle", Bulk: func(b *B) {
				// any window of 65536 consecutive ids has no repeat iff each id has its previous use at least 65536 calls earlier
				starts := []int{0, 1, 65535, 1000}
				if thorough {
					for i := 7; i < 65536; i += 997 {
						starts = append(starts, i)
					}
				}
				for _, st := range starts {
					st := st
					b.Do(func() string {
						g := dht.NewTxIdGenerator(uint16(st))
						last := make(map[string]int, 65536)
						n := 65536*2 + 300
						l := -1
						for i := 0; i < n; i++ {
							id := g.Next()
							if l >= 0 && len(id) != l || len(id) > 8 {
								return fmt.Sprintf("start %d: id %d is %q: not a fixed short length", st, i, id)
							}
							l = len(id)
							if p, ok := last[id]; ok && i-p < 65536 {
								return fmt.Sprintf("start %d: call %d repeats the id %q of call %d", st, i, id, p)
							}
							last[id] = i
						}
						b.Calls(n)
						return ""
					})
				}
				b.Sample("starts %v, %d ids each", starts[:4], 65536*2+300)
			}},
			{Name: "every start, around it", Bulk: func(b *B) {
				for st := 0; st < 65536; st++ {
					st := st
					b.Do(func() string {
						g := dht.NewTxIdGenerator(uint16(st))
						var ids [6]string
						for i := range ids {
							ids[i] = g.Next()
							for j := 0; j < i; j++ {
								if ids[i] == ids[j] || len(ids[i]) != len(ids[j]) {
									return fmt.Sprintf("start %d: ids %q", st, ids[:i+1])
								}
							}
						}
						b.Calls(6)
						return ""
					})
				}
				b.Sample("start values 0..65535, 6 ids each")
			}},
		}
		if thorough {
			s = append(s, &Scn{Name: "4 threads x 1 id", Body: conc(4, 1, edge), Bounds: []int{3}, RaceBounds: []int{2}},
				&Scn{Name: "3 threads x 2 ids", Body: conc(3, 2, []int{65533}), Bounds: []int{3}, RaceBounds: []int{2}})
		}
		return s
	})
}
