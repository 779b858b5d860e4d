package main

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
)

// decoders are the entry points; kind is the type of value each accepts.
var decoders = []struct {
	name string
	kind byte
	f    func(s string) (v interface{}, end int, err error)
}{
	{"DecodeInteger", 'i', func(s string) (interface{}, int, error) { v, err := misc.DecodeInteger(s); return v, len(s), err }},
	{"DecodeString", 's', func(s string) (interface{}, int, error) { v, err := misc.DecodeString(s); return v, len(s), err }},
	{"DecodeSlice", 'l', func(s string) (interface{}, int, error) { v, err := misc.DecodeSlice(s); return v, len(s), err }},
	{"DecodeDict", 'd', func(s string) (interface{}, int, error) { v, err := misc.DecodeDict(s); return v, len(s), err }},
	{"DecodeDictNoLimit", 'd', func(s string) (interface{}, int, error) { return misc.DecodeDictNoLimit(s) }},
}

func kindOf(v interface{}) byte {
	switch v.(type) {
	case int:
		return 'i'
	case string:
		return 's'
	case misc.List:
		return 'l'
	case misc.Dict:
		return 'd'
	}
	return 0
}

// strict runs every decoder on s.
func strict(s string) string {
	r := refItem(s, 0)
	for i := range decoders {
		d := &decoders[i]
		v, end, err := d.f(s)
		if err != nil {
			continue
		}
		switch {
		case !r.ok || kindOf(r.val) != d.kind:
			return fmt.Sprintf("%s(%s) = %s: accepted malformed input", d.name, quote(s), show(v))
		case r.next != end:
			return fmt.Sprintf("%s(%s) = %s, end %d: the value ends at %d", d.name, quote(s), show(v), end, r.next)
		case r.big:
			return fmt.Sprintf("%s(%s) = %s: the number does not fit", d.name, quote(s), show(v))
		case !r.dup && !same(v, r.val):
			return fmt.Sprintf("%s(%s) = %s, denotes %s", d.name, quote(s), show(v), show(r.val))
		case kindOf(v) != d.kind:
			return fmt.Sprintf("%s(%s) = %s: wrong type", d.name, quote(s), show(v))
		}
	}
	return ""
}

func init() {
	reg("C02", func(thorough bool) []*Scn {
		all := func(b *B, alpha string, n, chunk int) {
			// one case per text of length chunk, which covers all its extensions
			pre := make([]byte, 0, n)
			var rec func()
			rec = func() {
				p := append([]byte(nil), pre...)
				b.Do(func() string {
					if m := strict(string(p)); m != "" {
						return m
					}
					if len(p) < chunk {
						return ""
					}
					buf := append(append([]byte(nil), p...), make([]byte, n)...)
					msg := ""
					cnt := 0
					var ext func(i int)
					ext = func(i int) {
						for k := 0; k < len(alpha) && msg == ""; k++ {
							buf[i] = alpha[k]
							cnt++
							msg = guarded(func() string { return strict(string(buf[:i+1])) })
							if msg != "" {
								msg = quote(string(buf[:i+1])) + ": " + msg
							}
							if i+1 < n {
								ext(i + 1)
							}
						}
					}
					if n > len(p) {
						ext(len(p))
					}
					b.Calls(cnt * len(decoders))
					return msg
				})
				if len(pre) == chunk {
					return
				}
				for k := 0; k < len(alpha); k++ {
					pre = append(pre, alpha[k])
					rec()
					pre = pre[:len(pre)-1]
				}
			}
			rec()
			if len(alpha) > 40 {
				b.Sample("all texts of length 0..%d over all bytes", n)
			} else {
				b.Sample("all texts of length 0..%d over %q", n, alpha)
			}
		}
		n1, n2 := 7, 5
		if thorough {
			n1, n2 = 8, 6
		}
		corpus := []string{}
		for _, v := range []interface{}{
			0, 1, -1, 10, 1 << 62, "", "abc", pattern(12, 0), pattern(120, 5),
			misc.List{}, misc.List{1, "a", misc.List{misc.Dict{}}, -7}, misc.Dict{},
			misc.Dict{"t": "aa", "y": "q", "q": "get_peers", "a": misc.Dict{"id": pattern(20, 1), "info_hash": pattern(20, 9)}},
			misc.Dict{"t": "0001", "y": "r", "r": misc.Dict{"id": pattern(20, 2), "nodes": pattern(52, 3), "values": misc.List{"abcdef", "ghijkl"}}},
			misc.Dict{"t": "x", "y": "e", "e": misc.List{203, "bad"}},
			misc.Dict{"m": misc.Dict{"ut_metadata": 3, "": -2}, "metadata_size": 31235, "v": "c"},
			misc.Dict{"msg_type": 1, "piece": 0, "total_size": 34256},
		} {
			corpus = append(corpus, enc(v))
		}
		return []*Scn{
			{Name: "all short texts, protocol alphabet", Bulk: func(b *B) { all(b, "ilde:-012a", n1, 3) }},
			{Name: "all short texts, wider alphabet", Bulk: func(b *B) { all(b, "ilde:-0129+_. \x00\xff/;", n2, 2) }},
			{Name: "all one-byte texts and two-byte texts", Bulk: func(b *B) {
				var al []byte
				for i := 0; i < 256; i++ {
					al = append(al, byte(i))
				}
				all(b, string(al), 2, 1)
			}},
			{Name: "every truncation, deletion, replacement and insertion in real messages", Bulk: func(b *B) {
				rep := "ilde:-0129+\x00\xffa"
				for _, c := range corpus {
					for i := 0; i <= len(c); i++ {
						b.Do(func() string {
							b.Calls(5 * (2 + 2*len(rep)))
							if m := strict(c[:i]); m != "" {
								return m
							}
							if m := strict(c + c[:i]); m != "" {
								return m
							}
							if i < len(c) {
								if m := strict(c[:i] + c[i+1:]); m != "" {
									return m
								}
							}
							for k := range rep {
								if m := strict(c[:i] + rep[k:k+1] + c[i:]); m != "" {
									return m
								}
								if i < len(c) {
									if m := strict(c[:i] + rep[k:k+1] + c[i+1:]); m != "" {
										return m
									}
								}
							}
							return ""
						})
					}
				}
				if thorough { // two replacements
					for _, c := range corpus {
						if len(c) > 60 {
							c = c[:60]
						}
						for i := 0; i < len(c); i++ {
							for j := i + 1; j < len(c); j++ {
								b.Do(func() string {
									bb := []byte(c)
									for k := range rep {
										for l := range rep {
											copy(bb, c)
											bb[i], bb[j] = rep[k], rep[l]
											if m := strict(string(bb)); m != "" {
												return m
											}
										}
									}
									b.Calls(5 * len(rep) * len(rep))
									return ""
								})
							}
						}
					}
				}
			}},
			{Name: "string lengths around the end of the input, huge lengths and numbers", Bulk: func(b *B) {
				var lens []string
				for i := 0; i <= 1200; i++ {
					lens = append(lens, fmt.Sprint(i))
				}
				for _, n := range []string{"9999", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775806", "9223372036854775808", "9223372036854775800", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999999999", "00000000000000000000000001", "010", "-1", "+1", "- 1", "1_0", "0x1", "1e1", " 1", "1 ", "٣"} {
					lens = append(lens, n)
				}
				wraps := [][2]string{{"", ""}, {"l", "e"}, {"d1:k", "e"}, {"d", "i1ee"}, {"d", "e"}, {"l", ""}, {"li1e", "e"}}
				for _, n := range lens {
					for _, avail := range []int{0, 1, 2, 9, 10, 11, 98, 99, 100, 101, 999, 1000, 1001, 1100} {
						n, avail := n, avail
						b.Do(func() string {
							b.Calls(10 * len(wraps))
							for _, w := range wraps {
								if m := strict(w[0] + n + ":" + pattern(avail, 65) + w[1]); m != "" {
									return m
								}
								if m := strict(w[0] + "i" + n + "e" + w[1]); m != "" {
									return m
								}
							}
							return ""
						})
					}
				}
			}},
			{Name: "long lists and dictionaries, one item damaged", Bulk: func(b *B) {
				var ns []int
				for i := 1; i <= 70; i++ {
					ns = append(ns, i)
				}
				ns = append(ns, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1001, 1025)
				if thorough {
					ns = append(ns, 4097, 10001)
				}
				keys := []string{"i1e", "le", "l1:ae", "de", "d1:ai1ee", "", "e", ":", "1a", "2:a", "-1:", "1", "ie", "x", "i1e1:a"}
				bad := []string{"", "e", ":", "ie", "i-e", "i1", "1", "1a", "-1:", "i1.0e", "i--1e", "i1e2e", "i9223372036854775808e", "x", "le e", "lie", "d1:ae", "di1ei1ee", "dlei1ee", "99999999999:a"}
				for _, n := range ns {
					for pos := 0; pos < n; pos++ {
						if n > 70 && pos > 20 && pos < n-20 && pos%61 != 0 {
							continue
						}
						n, pos := n, pos
						b.Do(func() string {
							b.Calls(2 * 5 * (len(keys) + 2*len(bad)))
							var pre, post, lpre, lpost strings.Builder
							for i := 0; i < n; i++ {
								k := fmt.Sprintf("4:%04d", i)
								v := []string{"i7e", "1:a", "le", "d1:ai1ee"}[i%4]
								if i < pos {
									pre.WriteString(k + v)
									lpre.WriteString(v)
								} else if i > pos {
									post.WriteString(k + v)
									lpost.WriteString(v)
								}
							}
							for _, end := range []string{"e", ""} {
								for _, k := range keys {
									if m := strict("d" + pre.String() + k + "i7e" + post.String() + end); m != "" {
										return m
									}
								}
								for _, v := range bad {
									if m := strict("d" + pre.String() + fmt.Sprintf("4:%04d", pos) + v + post.String() + end); m != "" {
										return m
									}
									if m := strict("l" + lpre.String() + v + lpost.String() + end); m != "" {
										return m
									}
								}
							}
							return ""
						})
					}
				}
			}},
			{Name: "deep nesting, terminated or not", Bulk: func(b *B) {
				var ns []int
				for i := 1; i <= 600; i++ {
					ns = append(ns, i)
				}
				ns = append(ns, 1000, 10000, 32768, 100000)
				for _, n := range ns {
					for _, u := range [][2]string{{"l", "e"}, {"d0:", "e"}, {"ld0:", "ee"}, {"d", "e"}, {"l0:", "e"}, {"d1:al", "ee"}} {
						n, u := n, u
						b.Do(func() string {
							o, c := strings.Repeat(u[0], n), strings.Repeat(u[1], n)
							if u[0] == "d0:" {
								o = o[:len(o)-3] + "d"
							}
							for _, t := range []string{o + c, o, o + c[:len(c)-1], o + c + "e", o + "i1e" + c, o + "x" + c, o + "i1" + c} {
								b.Calls(5)
								if m := strict(t); m != "" {
									return m
								}
							}
							return ""
						})
					}
				}
				// deeper than any stack
				const n = 4000000
				for v := 0; v < 4; v++ {
					v := v
					b.Do(func() string {
						b.Calls(2)
						u := []string{"l", "d1:a", "l", "d1:a"}[v]
						t := strings.Repeat(u, n)
						if v >= 2 {
							t += "i7e" + strings.Repeat("e", n)
						}
						var item interface{}
						var err error
						if u == "l" {
							item, err = misc.DecodeSlice(t)
						} else {
							item, err = misc.DecodeDict(t)
						}
						if v < 2 {
							if err == nil {
								return fmt.Sprintf("%d times %q, not terminated: no error", n, u)
							}
							return ""
						}
						if err != nil {
							return fmt.Sprintf("%d times %q, terminated: %v", n, u, err)
						}
						depth := 0
						for ; depth <= n; depth++ {
							if l, ok := item.(misc.List); ok && len(l) == 1 {
								item = l[0]
							} else if d, ok := item.(misc.Dict); ok && len(d) == 1 {
								item = d["a"]
							} else {
								break
							}
						}
						if depth != n || item != 7 {
							return fmt.Sprintf("%d times %q around 7 became %d around %v", n, u, depth, item)
						}
						return ""
					})
				}
			}},
		}
	})
}
