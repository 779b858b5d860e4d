package main

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// roundTrip checks encoding and decoding of v through the codec of its type,
// stand-alone and as an element of a list and of a dictionary.
func roundTrip(v interface{}) string {
	var e string
	var err error
	var back interface{}
	var derr error
	switch x := v.(type) {
	case int:
		e, err = misc.EncodeInteger(x)
	case string:
		e, err = misc.EncodeString(x)
	case misc.List:
		e, err = misc.EncodeSlice(x)
	case misc.Dict:
		e, err = misc.EncodeDict(x)
	}
	if err != nil {
		return fmt.Sprintf("encoding %s: error %v", show(v), err)
	}
	r := refItem(e, 0)
	if !r.ok || r.next != len(e) || r.soft() || !same(r.val, v) {
		return fmt.Sprintf("encoding of %s is %s: not bencoding of that value", show(v), quote(e))
	}
	switch v.(type) {
	case int:
		back, derr = misc.DecodeInteger(e)
	case string:
		back, derr = misc.DecodeString(e)
	case misc.List:
		back, derr = misc.DecodeSlice(e)
	case misc.Dict:
		back, derr = misc.DecodeDict(e)
	}
	if derr != nil || !same(back, v) {
		return fmt.Sprintf("%s encodes to %s, which decodes to %s, %v", show(v), quote(e), show(back), derr)
	}
	// what was decoded is itself such a value
	var e2 string
	switch x := back.(type) {
	case misc.List:
		e2, err = misc.EncodeSlice(x)
	case misc.Dict:
		e2, err = misc.EncodeDict(x)
	default:
		e2 = e
	}
	if r := refItem(e2, 0); err != nil || !r.ok || r.next != len(e2) || !same(r.val, v) {
		return fmt.Sprintf("%s, decoded and encoded again, gives %s, %v", quote(e), quote(e2), err)
	}
	if d, ok := v.(misc.Dict); ok {
		for _, tail := range []string{"", "x", "e", "de", "i1e", "\x00", strings.Repeat("d", 40)} {
			back, n, derr := misc.DecodeDictNoLimit(e + tail)
			if derr != nil || n != len(e) || !same(back, d) {
				return fmt.Sprintf("DecodeDictNoLimit(%s + %q) = %s, end %d, %v; the dictionary ends at %d", quote(e), tail, show(back), n, derr, len(e))
			}
		}
	}
	return ""
}

func roundTripAll(b *B, v interface{}) {
	b.Do(func() string {
		if m := roundTrip(v); m != "" {
			return m
		}
		if m := roundTrip(misc.List{v, v}); m != "" {
			return m
		}
		b.Calls(6)
		return roundTrip(misc.Dict{"k": v, "l": misc.List{v, 7}})
	})
}

// values enumerates all values of the given depth: leaves, lists of up to
// width elements and dictionaries of up to width entries over the keys.
func values(leaves []interface{}, keys []string, depth, width int) []interface{} {
	if depth == 0 {
		return leaves
	}
	sub := values(leaves, keys, depth-1, width)
	out := append([]interface{}(nil), leaves...)
	var lists func(l misc.List)
	lists = func(l misc.List) {
		out = append(out, append(misc.List{}, l...))
		if len(l) == width {
			return
		}
		for _, v := range sub {
			lists(append(append(misc.List{}, l...), v))
		}
	}
	lists(misc.List{})
	var dicts func(d misc.Dict, from int)
	dicts = func(d misc.Dict, from int) {
		c := misc.Dict{}
		for k, v := range d {
			c[k] = v
		}
		out = append(out, c)
		if len(d) == width {
			return
		}
		for i := from; i < len(keys); i++ {
			for _, v := range sub {
				c := misc.Dict{keys[i]: v}
				for k, v := range d {
					c[k] = v
				}
				dicts(c, i+1)
			}
		}
	}
	dicts(misc.Dict{}, 0)
	return out
}

func boundaryInts() []int {
	var out []int
	seen := map[int]bool{}
	add := func(v int) {
		for _, w := range []int{v - 1, v, v + 1, -v - 1, -v, -v + 1} {
			if !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	for v := 1; v > 0 && v <= 1<<62; v *= 2 {
		add(v)
		if v == 1<<62 {
			break
		}
	}
	for v := 1; v <= 1000000000000000000; v *= 10 {
		add(v)
		add(v * 5)
		add(v * 9)
		if v == 1000000000000000000 {
			break
		}
	}
	for _, w := range []int{1<<63 - 1, 1<<63 - 2, -1 << 63, -1<<63 + 1} {
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}

func pattern(n int, seed byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*31 + seed + byte(i>>8)*7
	}
	return string(b)
}

func init() {
	reg("C01", func(thorough bool) []*Scn {
		s := []*Scn{
			{Name: "integers", Bulk: func(b *B) {
				lim := 70000
				if thorough {
					lim = 2000000
				}
				for v := -lim; v <= lim; v++ {
					v := v
					b.Do(func() string { return roundTrip(v) })
				}
				for _, v := range boundaryInts() {
					roundTripAll(b, v)
				}
				b.Sample("%d..%d, powers of 2 and 10 +-1, extremes", -lim, lim)
			}},
			{Name: "strings: all of length 0-2, every length, boundaries", Bulk: func(b *B) {
				roundTripAll(b, "")
				for i := 0; i < 256; i++ {
					roundTripAll(b, string([]byte{byte(i)}))
					for j := 0; j < 256; j++ {
						roundTripAll(b, string([]byte{byte(i), byte(j)}))
					}
				}
				for n := 3; n <= 2100; n++ {
					roundTripAll(b, pattern(n, byte(n)))
				}
				for _, n := range []int{9999, 10000, 10001, 16383, 16384, 16385, 65535, 65536, 99999, 100000, 100001, 1000000} {
					roundTripAll(b, pattern(n, 3))
					roundTripAll(b, strings.Repeat("e", n))
					roundTripAll(b, strings.Repeat(":", n))
				}
				if thorough {
					al := "0123456789:-+ielde\x00\xffa"
					for i := range al {
						for j := range al {
							for k := range al {
								for l := range al {
									roundTripAll(b, string([]byte{al[i], al[j], al[k], al[l]}))
								}
							}
						}
					}
				}
			}},
			{Name: "all value trees to depth 2, every walk order", Bulk: func(b *B) {
				leaves := []interface{}{0, -1, "", "i1e", "d"}
				keys := []string{"", "e", "1:"}
				width := 2
				vs := values(leaves, keys, 1, width)
				for _, v := range vs {
					v := v
					b.Do(func() string { return orders(v, 2) })
				}
				// depth 2: lists and dictionaries of up to two of the trees above
				if thorough {
					leaves = append(leaves, "1", 1<<62)
				}
				vs = values(leaves, keys, 1, 2)
				for _, v := range vs {
					for _, w := range vs {
						v, w := v, w
						b.Do(func() string {
							for _, x := range []interface{}{misc.List{v, w}, misc.Dict{"a": v, "": w}} {
								b.Calls(2)
								if m := orders(x, 2); m != "" {
									return m
								}
							}
							return ""
						})
					}
				}
				b.Sample("%d trees of depth 1, %d pairs", len(vs), len(vs)*len(vs))
			}},
			{Name: "dictionaries of up to 6 keys in every walk order", Bulk: func(b *B) {
				keys := []string{"", "a", "info_hash", "e", "0", pattern(10, 1)}
				top := 6
				if thorough {
					keys = append(keys, "ab", pattern(100, 1))
					top = 8
				}
				for n := 0; n <= top; n++ {
					d := misc.Dict{}
					for i := 0; i < n; i++ {
						switch i % 4 {
						case 0:
							d[keys[i]] = i
						case 1:
							d[keys[i]] = pattern(i, 0)
						case 2:
							d[keys[i]] = misc.Dict{"x": i, "y": misc.List{}}
						case 3:
							d[keys[i]] = misc.List{misc.Dict{}, i}
						}
					}
					for k := 0; k < vrt.Fact(n); k++ {
						k := k
						b.Do(func() string {
							vrt.MapOrder = func(int) int { return k }
							defer func() { vrt.MapOrder = nil }()
							return roundTrip(d)
						})
					}
				}
			}},
			{Name: "long lists, large dictionaries, deep nesting", Bulk: func(b *B) {
				for n := 0; n <= 300; n++ {
					l := misc.List{}
					d := misc.Dict{}
					for i := 0; i < n; i++ {
						l = append(l, i*7-3)
						d[fmt.Sprint(i)] = pattern(i, 1)
					}
					roundTripAll(b, l)
					roundTripAll(b, d)
				}
				for _, n := range []int{1000, 1023, 1024, 1025, 5000, 16385} {
					l := misc.List{}
					d := misc.Dict{}
					for i := 0; i < n; i++ {
						l = append(l, pattern(i%13, 1))
						d[fmt.Sprint("key", i)] = i
					}
					// concatenation makes these slow
					b.Do(func() string { return roundTrip(l) })
					b.Do(func() string { return roundTrip(d) })
				}
				for n := 0; n <= 1100; n++ {
					roundTripAll(b, misc.Dict{pattern(n, 5): n, "x": pattern(n, 1)})
				}
				for _, n := range []int{4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 1000000} {
					roundTripAll(b, misc.Dict{pattern(n, 5): n, "": misc.List{}})
				}
				var v, w interface{} = misc.List{}, misc.Dict{}
				for n := 0; n <= 200; n++ {
					roundTripAll(b, v)
					roundTripAll(b, w)
					if n%2 == 0 {
						v = misc.List{v}
						w = misc.Dict{"k": w}
					} else {
						v = misc.Dict{"d": v, "a": 1}
						w = misc.List{1, w, ""}
					}
				}
			}},
			{Name: "every short valid text is decoded to its value", Bulk: func(b *B) {
				n := 6
				if thorough {
					n = 8
				}
				texts("ilde:-012a", n, func(t []byte) {
					// cheap filter
					if c := t[0]; c != 'i' && c != 'l' && c != 'd' && c != '0' && c != '1' && c != '2' {
						return
					}
					e := string(t)
					r := refItem(e, 0)
					if !r.ok || r.soft() || r.next != len(e) {
						return
					}
					b.Do(func() string { return decodesTo(e, r.val) })
				})
			}},
		}
		return s
	})
}

// orders runs roundTrip for every permutation index below fact(width) of each map walk.
func orders(v interface{}, width int) string {
	defer func() { vrt.MapOrder = nil }()
	for k := 0; k < vrt.Fact(width); k++ {
		k := k
		vrt.MapOrder = func(n int) int { return k }
		if m := roundTrip(v); m != "" {
			return m
		}
	}
	return ""
}

func decodesTo(e string, v interface{}) string {
	var back interface{}
	var err error
	switch v.(type) {
	case int:
		back, err = misc.DecodeInteger(e)
	case string:
		back, err = misc.DecodeString(e)
	case misc.List:
		back, err = misc.DecodeSlice(e)
	case misc.Dict:
		back, err = misc.DecodeDict(e)
	}
	if err != nil || !same(back, v) {
		return fmt.Sprintf("%s decodes to %s, %v; want %s", quote(e), show(back), err, show(v))
	}
	return ""
}

// texts calls f with every text of length 1..n over the alphabet.
func texts(alpha string, n int, f func(t []byte)) {
	buf := make([]byte, n)
	var rec func(i int)
	rec = func(i int) {
		if i > 0 {
			f(buf[:i])
		}
		if i == n {
			return
		}
		for k := 0; k < len(alpha); k++ {
			buf[i] = alpha[k]
			rec(i + 1)
		}
	}
	rec(0)
}
