package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// explains searches a one-at-a-time order of the calls consistent with real
// time; step tells whether op may answer res in the state and gives the next.
func (h *history) explains(init string, step func(state, op, res string) (string, bool)) bool {
	n := len(h.calls)
	done := make([]bool, n)
	bad := map[string]bool{}
	var rec func(state string, left int) bool
	rec = func(state string, left int) bool {
		if left == 0 {
			return true
		}
		k := make([]byte, n)
		minRet := int(^uint(0) >> 1)
		for i, d := range done {
			k[i] = '0'
			if d {
				k[i] = '1'
			} else if h.calls[i].ret < minRet {
				minRet = h.calls[i].ret
			}
		}
		key := string(k) + state
		if bad[key] {
			return false
		}
		for i, c := range h.calls {
			if done[i] || c.inv > minRet {
				continue
			}
			ns, ok := step(state, c.op, c.res)
			if !ok {
				continue
			}
			done[i] = true
			if rec(ns, left-1) {
				return true
			}
			done[i] = false
		}
		bad[key] = true
		return false
	}
	return rec(init, n)
}

type tableUniverse struct {
	host node
	k, c int
	u    map[string]node
}

func (w *tableUniverse) step(state, op, res string) (string, bool) {
	t := newTable(w.host, w.k, w.c)
	var names []string
	for _, n := range strings.Fields(state) {
		t.members = append(t.members, w.u[n])
		names = append(names, n)
	}
	f := strings.Fields(op)
	switch f[0] {
	case "add":
		had := t.has(w.u[f[1]])
		ok := t.add(w.u[f[1]])
		if !had && ok {
			names = append(names, f[1])
			sort.Strings(names)
		}
		return strings.Join(names, " "), res == map[bool]string{true: "ok", false: "refused"}[ok]
	case "find":
		want := "-"
		for _, m := range t.members {
			if m.id == w.u[f[1]].id {
				want = m.name
			}
		}
		return state, res == want
	case "all":
		var l []string
		for _, m := range t.members {
			l = append(l, m.name)
		}
		sort.Strings(l)
		return state, res == strings.Join(l, ",")
	case "near":
		// stored contacts only, none twice, the one asked for if it is stored
		seen := map[string]bool{}
		for _, n := range strings.Split(res, ",") {
			if n == "" {
				continue
			}
			u, ok := w.u[n]
			if n == w.host.name {
				u, ok = w.host, true
			}
			if !ok || seen[n] || !t.has(u) {
				return state, false
			}
			seen[n] = true
		}
		return state, !t.has(w.u[f[1]]) || seen[f[1]]
	case "size":
		return state, res == fmt.Sprint(len(t.members))
	case "full":
		return state, res == "false" || t.count(t.cap) >= t.k
	}
	return state, false
}

func (w *tableUniverse) name(n *dht.NodeInfo) string {
	if n == nil {
		return "-"
	}
	if w.host.is(n) {
		return w.host.name
	}
	for _, u := range w.u {
		if u.is(n) {
			return u.name
		}
	}
	return fmt.Sprintf("unknown %q", n.Id)
}

func (w *tableUniverse) do(r *dht.RouteTable, h *history, th int, op string) {
	f := strings.Fields(op)
	h.do(th, op, func() string {
		switch f[0] {
		case "add":
			if r.AddNode(w.u[f[1]].info(false)) != nil {
				return "refused"
			}
			return "ok"
		case "find":
			return w.name(r.Find(w.u[f[1]].id))
		case "all":
			var l []string
			for _, n := range r.FindClosest(w.host.id, 1000) {
				l = append(l, w.name(n))
			}
			sort.Strings(l)
			return strings.Join(l, ",")
		case "near":
			n, _ := strconv.Atoi(f[2])
			got := r.FindClosest(w.u[f[1]].id, n)
			vrt.Point("answer in use")
			var l []string
			for _, n := range got {
				l = append(l, w.name(n))
			}
			sort.Strings(l)
			return strings.Join(l, ",")
		case "size":
			return fmt.Sprint(r.Size())
		case "full":
			return fmt.Sprint(r.Full())
		}
		return ""
	})
}

func init() {
	reg("C14", func(thorough bool) []*Scn {
		host := mkNode("host", pattern(20, 42), 0)
		w := func(k, c int) *tableUniverse {
			t := &tableUniverse{host, k, c, map[string]node{}}
			for _, n := range []node{
				mkNode("a", idAt(host.id, 0, 1), 1), mkNode("b", idAt(host.id, 0, 2), 2), mkNode("c", idAt(host.id, 0, 3), 3),
				mkNode("d", idAt(host.id, 1, 1), 4), mkNode("e", idAt(host.id, 1, 2), 5), mkNode("f", idAt(host.id, 4, 0), 6),
			} {
				t.u[n.name] = n
			}
			return t
		}
		// seed: contacts added before; ops: what each thread may do
		prog := func(k, c int, seed []string, nt, per int, ops []string) func() {
			return func() {
				fresh()
				t := w(k, c)
				r := dht.NewRouteTable(host.info(false), k, c)
				h := &history{}
				for _, s := range seed {
					t.do(r, h, nt, "add "+s)
				}
				sc := scripts(nt, per, len(ops))
				var fs []func()
				for i := 0; i < nt; i++ {
					i := i
					fs = append(fs, func() {
						for _, o := range sc[i] {
							t.do(r, h, i, ops[o])
						}
					})
				}
				threads(fs...)
				t.do(r, h, nt, "size")
				t.do(r, h, nt, "all")
				for _, n := range []string{"a", "b", "d", "f"} {
					t.do(r, h, nt, "find "+n)
				}
				if !h.explains("", t.step) {
					vrt.Fail("k=%d max=%d: no one-at-a-time order explains: %s", k, c, h)
				}
			}
		}
		bucket := func() {
			fresh()
			b := dht.NewBucket(2)
			u := w(2, 2)
			h := &history{}
			ops := []string{"add a", "add b", "has a", "size", "all", "full"}
			do := func(th int, op string) {
				f := strings.Fields(op)
				h.do(th, op, func() string {
					switch f[0] {
					case "add":
						return fmt.Sprint(b.Add(u.u[f[1]].info(false)))
					case "has":
						return fmt.Sprint(b.Exist(u.u[f[1]].info(false)))
					case "size":
						return fmt.Sprint(b.Size())
					case "full":
						return fmt.Sprint(b.Full())
					case "all":
						var l []string
						for _, n := range b.All() {
							l = append(l, u.name(n))
						}
						b.Iterator(func(*dht.NodeInfo) {})
						return strings.Join(l, ",")
					}
					return ""
				})
			}
			var fs []func()
			for t := 0; t < 3; t++ {
				t := t
				o := ops[vrt.Choose(len(ops))]
				p := ""
				if t == 0 {
					p = ops[vrt.Choose(len(ops))]
				}
				fs = append(fs, func() {
					do(t, o)
					if p != "" {
						do(t, p)
					}
				})
			}
			threads(fs...)
			do(3, "all")
			do(3, "size")
			ok := h.explains("", func(state, op, res string) (string, bool) {
				l := strings.Split(state, ",")
				if state == "" {
					l = nil
				}
				f := strings.Fields(op)
				switch f[0] {
				case "add":
					if len(l) >= 2 {
						return state, res == "false"
					}
					return strings.Join(append(l, f[1]), ","), res == "true"
				case "has":
					return state, res == fmt.Sprint(strings.Contains(state, f[1]))
				case "size":
					return state, res == fmt.Sprint(len(l))
				case "full":
					return state, res == fmt.Sprint(len(l) >= 2)
				}
				return state, res == state
			})
			if !ok {
				vrt.Fail("bucket of 2: no one-at-a-time order explains: %s", h)
			}
		}
		_ = misc.Dict{}
		full := []string{"add a", "add b", "add d", "add f", "find a", "all", "size"}
		few := []string{"add a", "add d", "find a", "all", "size"}
		b2 := []int{2}
		if thorough {
			b2 = []int{2, 3, 4}
		}
		s := []*Scn{
			{Name: "2 threads x 2 operations, splitting table k=1", Body: prog(1, 160, nil, 2, 2, few), Bounds: b2, RaceBounds: []int{0}},
			{Name: "3 threads x 1 operation, splitting table k=2", Body: prog(2, 3, []string{"c"}, 3, 1, full), Bounds: b2, RaceBounds: []int{1}},
			{Name: "3 threads x 1 operation, one place left", Body: prog(2, 0, nil, 3, 1, append(full, "full")), Bounds: b2, RaceBounds: []int{1}},
			{Name: "2 threads x 2 operations, nearly full table", Body: prog(2, 1, []string{"c", "e"}, 2, 2, []string{"add a", "add b", "add d", "find b", "all", "full"}), Bounds: b2, RaceBounds: []int{0}},
			{Name: "2 threads x 2 operations, the last split", Body: prog(2, 1, []string{"c"}, 2, 2, []string{"add a", "add d", "full", "all"}), Bounds: b2, RaceBounds: []int{1}},
			{Name: "2 threads x 2 operations, what is looked up moves to a new bucket", Body: prog(2, 160, []string{"f"}, 2, 2, []string{"add a", "add d", "find f", "find d", "near f 1", "near a 0"}), Bounds: b2, RaceBounds: []int{1}},
			{Name: "3 threads x 1 operation, nearest contacts", Body: prog(3, 160, []string{"a", "d"}, 3, 1, []string{"add b", "add e", "near b 0", "near e 1", "near f 2", "all"}), Bounds: b2, RaceBounds: []int{1}},
			{Name: "bucket: 3 threads", Body: bucket, Bounds: b2, RaceBounds: []int{1}},
		}
		if thorough {
			s = append(s, &Scn{Name: "3 threads x 2 operations", Body: prog(1, 160, nil, 3, 2, few), Bounds: []int{1, 2}},
				&Scn{Name: "4 threads x 1 operation", Body: prog(2, 3, nil, 4, 1, full), Bounds: []int{1, 2}, RaceBounds: []int{1}})
		}
		return s
	})
}
