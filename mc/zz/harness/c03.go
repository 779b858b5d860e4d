package main

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
)

// attempt runs f and tells whether it ended with the library's error value.
func attempt(f func() interface{}) (v interface{}, bizErr bool, other string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*misc.Error); ok {
				bizErr = true
				if strings.Contains(e.Error(), "goroutine ") {
					other = "error text contains a stack trace"
				}
				return
			}
			other = fmt.Sprintf("panic with %T %s", r, panicStr(r))
		}
	}()
	return f(), false, ""
}

func expect(what string, f func() interface{}, want interface{}, present bool) string {
	v, biz, other := attempt(f)
	switch {
	case other != "":
		return fmt.Sprintf("%s: %s", what, other)
	case present && biz:
		return fmt.Sprintf("%s: refused, the value is %s", what, show(want))
	case present && !same(v, want):
		return fmt.Sprintf("%s = %s, want %s", what, show(v), show(want))
	case !present && !biz:
		return fmt.Sprintf("%s = %s although there is no such value", what, show(v))
	}
	return ""
}

func typed(v interface{}, k byte) bool { return kindOf(v) == k }

func dictReads(d misc.Dict, key string) string {
	v, have := d[key]
	desc := func(m string) string {
		if len(d) > 8 {
			return fmt.Sprintf("%s of key %q in a dictionary of %d", m, key, len(d))
		}
		return fmt.Sprintf("%s of key %q in %s", m, key, show(d))
	}
	if got := d.Exist(key); got != have {
		return fmt.Sprintf("%s = %v", desc("Exist"), got)
	}
	checks := []struct {
		n string
		k byte
		f func() interface{}
	}{
		{"GetInteger", 'i', func() interface{} { return d.GetInteger(key) }},
		{"GetString", 's', func() interface{} { return d.GetString(key) }},
		{"GetList", 'l', func() interface{} { return d.GetList(key) }},
		{"GetDict", 'd', func() interface{} { return d.GetDict(key) }},
	}
	for _, c := range checks {
		if m := expect(desc(c.n), c.f, v, have && typed(v, c.k)); m != "" {
			return m
		}
	}
	if m := expect(desc("GetVal"), func() interface{} { return d.GetVal(key) }, v, have); m != "" {
		return m
	}
	for _, def := range []int{0, 1, -1, 6881, -1 << 63, 1<<63 - 1} {
		want := interface{}(def)
		if have && typed(v, 'i') {
			want = v
		}
		if m := expect(desc(fmt.Sprintf("GetIntegerOrDefault(%d)", def)), func() interface{} { return d.GetIntegerOrDefault(key, def) }, want, true); m != "" {
			return m
		}
	}
	for _, def := range []string{"", "x", "name err"} {
		want := interface{}(def)
		if have && typed(v, 's') {
			want = v
		}
		if m := expect(desc(fmt.Sprintf("GetStringOrDefault(%q)", def)), func() interface{} { return d.GetStringOrDefault(key, def) }, want, true); m != "" {
			return m
		}
	}
	if v != nil || !have {
		for _, def := range []interface{}{0, "", "x", misc.List{1}, misc.Dict{"a": 1}} {
			want := def
			if have {
				want = v
			}
			if m := expect(desc(fmt.Sprintf("GetValOrDefault(%s)", show(def))), func() interface{} { return d.GetValOrDefault(key, def) }, want, true); m != "" {
				return m
			}
		}
	}
	return ""
}

func listReads(l misc.List, i int) string {
	have := i >= 0 && i < len(l)
	var v interface{}
	if have {
		v = l[i]
	}
	desc := func(m string) string {
		if len(l) > 8 {
			return fmt.Sprintf("%s of index %d in a list of %d", m, i, len(l))
		}
		return fmt.Sprintf("%s of index %d in %s", m, i, show(l))
	}
	if got := l.Exist(i); got != have {
		return fmt.Sprintf("%s = %v", desc("Exist"), got)
	}
	checks := []struct {
		n string
		k byte
		f func() interface{}
	}{
		{"GetInteger", 'i', func() interface{} { return l.GetInteger(i) }},
		{"GetString", 's', func() interface{} { return l.GetString(i) }},
		{"GetList", 'l', func() interface{} { return l.GetList(i) }},
		{"GetDict", 'd', func() interface{} { return l.GetDict(i) }},
	}
	for _, c := range checks {
		if m := expect(desc(c.n), c.f, v, have && typed(v, c.k)); m != "" {
			return m
		}
	}
	return expect(desc("GetVal"), func() interface{} { return l.GetVal(i) }, v, have)
}

func init() {
	vals := []interface{}{0, 1, -1, 7, 1<<63 - 1, -1 << 63, "", "0", "abc", "true", pattern(300, 0), misc.List{}, misc.List{1}, misc.List{"a"}, misc.Dict{}, misc.Dict{"a": 1},
		nil, 1.5, int64(3), uint16(9), true, []byte("x"), []interface{}{1}, map[string]interface{}{"a": 1}, 'c'}
	keys := []string{"", "a", "A", "port", "info_hash", "%s%d", "a\x00", pattern(200, 1)}
	// asked for besides: keys that resemble the others
	alike := []string{" a", "a ", "a\n", "aa", "Port", "PORT", " port", "port ", "por", "ports", "infohash", "info-hash", "\xef\xbb\xbfa", pattern(199, 1), pattern(201, 1)}
	reg("C03", func(thorough bool) []*Scn {
		return []*Scn{
			{Name: "dictionary fields: every key, value and accessor", Bulk: func(b *B) {
				b.Do(func() string { return dictReads(nil, "a") })
				for _, key := range keys {
					for _, v := range vals {
						for _, other := range append([]string{"none"}, keys...) {
							for _, ov := range vals {
								d := misc.Dict{key: v}
								if other != "none" && other != key {
									d[other] = ov
								} else if other == "none" && !same(ov, vals[0]) {
									continue
								}
								b.Do(func() string {
									b.Calls(30 * (len(keys) + 1))
									if len(d) == 1 {
										for _, k := range alike {
											if m := dictReads(d, k); m != "" {
												return m
											}
										}
									}
									if m := dictReads(d, "absent"); m != "" {
										return m
									}
									for _, k := range keys {
										if m := dictReads(d, k); m != "" {
											return m
										}
									}
									return ""
								})
							}
						}
					}
				}
			}},
			{Name: "list elements: every index, value and accessor", Bulk: func(b *B) {
				var lists []misc.List
				lists = append(lists, nil, misc.List{})
				for _, v := range vals {
					lists = append(lists, misc.List{v})
					for _, w := range vals {
						lists = append(lists, misc.List{v, w}, misc.List{v, 5, w}, append(make(misc.List, 0, 8), v, w))
					}
				}
				for _, l := range lists {
					l := l
					b.Do(func() string {
						b.Calls(60)
						for _, i := range []int{-1 << 63, -100, -2, -1, 0, 1, 2, 3, 4, 7, 8, 1 << 31, 1<<63 - 1} {
							if m := listReads(l, i); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}},
			{Name: "long lists and large dictionaries: every index and key", Bulk: func(b *B) {
				for _, n := range []int{10, 16, 17, 33, 64, 65, 100, 129, 256, 257, 1000} {
					n := n
					b.Do(func() string {
						l := make(misc.List, n)
						d := misc.Dict{}
						for i := range l {
							l[i] = vals[i%16]
							d[fmt.Sprint("key", i)] = vals[(i*5)%16]
						}
						b.Calls(n * 40)
						for i := -2; i < n+3; i++ {
							if m := listReads(l, i); m != "" {
								return m
							}
							if m := dictReads(d, fmt.Sprint("key", i)); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}},
			{Name: "membership: every list of up to 3 strings, every target", Bulk: func(b *B) {
				ws := []string{"", "a", "A", "b", "ab", "AB", "aB", "Ab", "ba", "error", "ERROR", "Error", "errors", "erro", "é", "É", "1", "@", "`", "[", "{", "\x00", "\xff", " a", "a ", "a\n", "\ta", "a\x00", "aa", "a,b", " "}
				tgt := append([]string{"zz", "eRRor", "k"}, ws...)
				run := func(l misc.List) {
					b.Do(func() string {
						b.Calls(len(tgt))
						for _, t := range tgt {
							want := false
							for _, w := range l {
								if strings.ToLower(w.(string)) == strings.ToLower(t) {
									want = true
								}
							}
							if got := l.ContainsString(t); got != want {
								return fmt.Sprintf("%s contains %q: %v", show(l), t, got)
							}
						}
						return ""
					})
				}
				run(nil)
				run(misc.List{})
				for _, x := range ws {
					run(misc.List{x})
					for _, y := range ws {
						run(misc.List{x, y})
						for _, z := range ws {
							run(misc.List{x, y, z})
						}
					}
				}
				// long lists
				for _, n := range []int{4, 7, 8, 9, 10, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 300, 1000, 4097} {
					for pos := -1; pos < n; pos++ {
						if n > 300 && pos > 40 && pos < n-40 && pos%97 != 0 {
							continue
						}
						n, pos := n, pos
						b.Do(func() string {
							l := make(misc.List, n)
							for i := range l {
								l[i] = fmt.Sprint("item", i%7)
							}
							if pos >= 0 {
								l[pos] = "The One"
							}
							b.Calls(3)
							for _, t := range []string{"the one", "THE ONE", "The One"} {
								if got := l.ContainsString(t); got != (pos >= 0) {
									return fmt.Sprintf("a list of %d strings, %q at %d, contains %q: %v", n, "The One", pos, t, got)
								}
							}
							return ""
						})
					}
				}
				// lists with other types never claim a member they do not have, and fail only with the library's error
				for _, v := range vals {
					for _, t := range tgt {
						v, t := v, t
						b.Do(func() string {
							b.Calls(2)
							for _, l := range []misc.List{{v}, {v, "a"}, {"a", v}} {
								want := false
								for _, w := range l {
									if s, ok := w.(string); ok && strings.ToLower(s) == strings.ToLower(t) {
										want = true
									}
								}
								got, biz, other := attempt(func() interface{} { return l.ContainsString(t) })
								if other != "" {
									return fmt.Sprintf("%s contains %q: %s", show(l), t, other)
								}
								if !biz && got.(bool) != want {
									return fmt.Sprintf("%s contains %q: %v", show(l), t, got)
								}
							}
							return ""
						})
					}
				}
			}},
		}
	})
}
