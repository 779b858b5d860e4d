package main

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// state of the reference map: "k=v,k=v" in key order for keys a and b
func mapStep(state, op string) (string, string) {
	m := map[string]string{}
	for _, kv := range strings.Split(state, ",") {
		if i := strings.Index(kv, "="); i > 0 {
			m[kv[:i]] = kv[i+1:]
		}
	}
	f := strings.Fields(op)
	res := ""
	switch f[0] {
	case "put":
		m[f[1]] = f[2]
	case "get":
		v, ok := m[f[1]]
		if !ok {
			v = "-"
		}
		res = v
	case "del":
		delete(m, f[1])
	}
	var out []string
	for _, k := range []string{"a", "b"} {
		if v, ok := m[k]; ok {
			out = append(out, k+"="+v)
		}
	}
	return strings.Join(out, ","), res
}

func doMap(m *misc.SyncMap, h *history, th int, op string) {
	h.do(th, op, func() string {
		f := strings.Fields(op)
		switch f[0] {
		case "put":
			m.Put(f[1], f[2])
		case "get":
			v, ok := m.Get(f[1])
			if !ok {
				if v != nil {
					return fmt.Sprintf("absent with value %v", v)
				}
				return "-"
			}
			return fmt.Sprint(v)
		case "del":
			m.Del(f[1])
		}
		return ""
	})
}

func init() {
	reg("C24", func(thorough bool) []*Scn {
		prog := func(nt, per int, ops []string) func() {
			return func() {
				fresh()
				m := misc.NewSyncMap(2)
				h := &history{}
				var fs []func()
				sc := scripts(nt, per, len(ops))
				for t := 0; t < nt; t++ {
					t := t
					var script []string
					for i := 0; i < per; i++ {
						op := ops[sc[t][i]]
						if strings.HasPrefix(op, "put") {
							op = fmt.Sprintf("%s v%d%d", op, t, i)
						}
						script = append(script, op)
					}
					fs = append(fs, func() {
						for _, op := range script {
							doMap(m, h, t, op)
						}
					})
				}
				threads(fs...)
				doMap(m, h, nt, "get a")
				doMap(m, h, nt, "get b")
				if !h.linearizable("", mapStep, nil) {
					vrt.Fail("no one-at-a-time order explains: %s", h)
				}
			}
		}
		// one thread, any keys and values, against a plain map
		odd := func(n int) func() {
			return func() {
				fresh()
				keys := []string{"", "a", "A", "a ", "a\x00", " a", strings.Repeat("k", 300)}
				vals := []interface{}{nil, "", 0, false, "a"}
				m := misc.NewSyncMap(0)
				ref := map[string]interface{}{}
				var done []string
				for i := 0; i < n; i++ {
					c := vrt.Choose(2 + len(vals))
					k := keys[vrt.Choose(len(keys))]
					switch {
					case c < len(vals):
						m.Put(k, vals[c])
						ref[k] = vals[c]
						done = append(done, fmt.Sprintf("put %.5q %v", k, vals[c]))
					case c == len(vals):
						m.Del(k)
						delete(ref, k)
						done = append(done, fmt.Sprintf("del %.5q", k))
					default:
						m.Get(k)
						done = append(done, fmt.Sprintf("get %.5q", k))
					}
					for _, k := range keys {
						v, ok := m.Get(k)
						rv, rok := ref[k]
						if v != rv || ok != rok {
							vrt.Fail("%s: get %.5q returns %v, %v; want %v, %v", strings.Join(done, "; "), k, v, ok, rv, rok)
						}
					}
				}
			}
		}
		many := func() {
			fresh()
			m := misc.NewSyncMap(1)
			step := 1 + vrt.Choose(4)
			for i := 0; i < 600; i++ {
				m.Put(fmt.Sprint("k", i), i)
			}
			for i := 0; i < 600; i += step {
				m.Del(fmt.Sprint("k", i))
			}
			for i := 0; i < 601; i++ {
				v, ok := m.Get(fmt.Sprint("k", i))
				if want := i < 600 && i%step != 0; ok != want || ok && v != i || !ok && v != nil {
					vrt.Fail("600 keys, every %d. deleted: get k%d returns %v, %v", step, i, v, ok)
				}
			}
		}
		// long histories: stored values stay until they are deleted or overwritten
		huge := func(b *B) {
			ns := []int{5000, 40000, 150000}
			if thorough {
				ns = append(ns, 300000)
			}
			for _, n := range ns {
				key := make([]string, n+1)
				for i := range key {
					key[i] = fmt.Sprint("k", i)
				}
				for _, init := range []int{0, 1, 100} {
					for step := 1; step <= 4; step++ {
						b.Calls(3 * n)
						b.Do(func() string {
							return b.Exec(vrt.Opts{NoEarly: true, MaxSteps: 1 << 30}, func() {
								fresh()
								m := misc.NewSyncMap(init)
								for i := 0; i < n; i++ {
									m.Put(key[i], i)
									if v, ok := m.Get(key[i]); !ok || v != i {
										vrt.Fail("get right after the %d. put returns %v, %v", i+1, v, ok)
									}
									if i%1000 == 0 {
										if v, ok := m.Get(key[0]); !ok || v != 0 {
											vrt.Fail("after %d puts the first key returns %v, %v", i+1, v, ok)
										}
									}
								}
								for i := 0; i < n; i += step {
									if i%3 == 0 {
										m.Put(key[i], -i)
									} else {
										m.Del(key[i])
									}
								}
								for i := 0; i <= n; i++ {
									v, ok := m.Get(key[i])
									want, wok := i, i < n
									if i%step == 0 {
										want = -i
										wok = wok && i%3 == 0
									}
									if ok != wok || ok && v != want || !ok && v != nil {
										vrt.Fail("%d keys, every %d. deleted or overwritten: get %d returns %v, %v", n, step, i, v, ok)
									}
								}
							})
						})
					}
				}
			}
		}
		full := []string{"put a", "get a", "del a", "put b", "get b"}
		one := []string{"put a", "get a", "del a"}
		b2, b3 := []int{2}, []int{2}
		if thorough {
			b2, b3 = []int{2, 4}, []int{2, 3}
		}
		s := []*Scn{
			{Name: "2 threads x 2 operations, two keys", Body: prog(2, 2, full), Bounds: b2, RaceBounds: []int{1}},
			{Name: "3 threads x 1 operation", Body: prog(3, 1, full), Bounds: b3, RaceBounds: []int{1}},
			{Name: "2 threads x 3 operations, one key", Body: prog(2, 3, one), Bounds: b2, RaceBounds: []int{0}},
			{Name: "sequential programs of 5 operations", Body: prog(1, 5, append(full, "del b")), Bounds: []int{0}},
		}
		s = append(s, &Scn{Name: "sequential programs of 3 operations, unusual keys and values", Body: odd(3), Bounds: []int{0}},
			&Scn{Name: "600 keys", Body: many, Bounds: []int{0}},
			&Scn{Name: "many keys", Bulk: huge})
		if thorough {
			s = append(s, &Scn{Name: "3 threads x 2 operations, one key", Body: prog(3, 2, one), Bounds: []int{1, 2}, RaceBounds: []int{1}})
		}
		return s
	})
}
