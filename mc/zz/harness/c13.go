package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"github.com/GalaIO/P2Pcrawler/dht"
)

// node is a contact of the reference table.
type node struct {
	contact
	name string
}

func commonBits(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if x := a[i] ^ b[i]; x != 0 {
			return i*8 + bits.LeadingZeros8(x)
		}
	}
	return 8 * len(a)
}

// idAt is an id sharing exactly cpl leading bits with host; v varies the rest.
func idAt(host string, cpl int, v byte) string {
	id := []byte(host)
	if cpl >= 160 {
		return host
	}
	id[cpl/8] ^= 0x80 >> (cpl % 8)
	// vary bits after position cpl
	for i := 0; i < 8; i++ {
		p := cpl + 1 + i
		if p >= 160 {
			break
		}
		if v>>i&1 == 1 {
			id[p/8] ^= 0x80 >> (p % 8)
		}
	}
	return string(id)
}

// table is the reference: distinct contacts per common-prefix class.
type table struct {
	host    node
	k, cap  int
	members []node
}

func newTable(host node, k, capacity int) *table {
	return &table{host, k, capacity, []node{host}}
}

func (t *table) class(id string) int {
	c := commonBits(id, t.host.id)
	if c > t.cap {
		c = t.cap
	}
	return c
}

func (t *table) has(n node) bool {
	for _, m := range t.members {
		if m.id == n.id && m.ip == n.ip && m.port == n.port {
			return true
		}
	}
	return false
}

func (t *table) count(class int) int {
	c := 0
	for _, m := range t.members {
		if t.class(m.id) == class {
			c++
		}
	}
	return c
}

// add returns whether the contact is stored afterwards.
func (t *table) add(n node) bool {
	if t.has(n) {
		return true
	}
	if t.count(t.class(n.id)) >= t.k {
		return false
	}
	t.members = append(t.members, n)
	return true
}

func (n node) info(wide bool) *dht.NodeInfo { return dht.NewNodeInfo(n.id, n.addr(wide)) }

// agrees compares every observation of the real table with the reference.
func (t *table) agrees(r *dht.RouteTable, universe []node, deep bool) string {
	if r.Size() != len(t.members) {
		return fmt.Sprintf("Size() = %d, stored contacts: %d", r.Size(), len(t.members))
	}
	if r.Full() && t.count(t.cap) < t.k {
		return fmt.Sprintf("reports full although its deepest bucket holds %d of %d", t.count(t.cap), t.k)
	}
	for _, u := range universe {
		f := r.Find(u.id)
		stored := false
		for _, m := range t.members {
			if m.id == u.id {
				stored = true
			}
		}
		if f == nil && stored {
			return fmt.Sprintf("stored contact %s is not found", u.name)
		}
		if f != nil {
			ok := false
			for _, m := range t.members {
				if m.id == u.id && m.is(f) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("Find(%s) returned %q %v, not stored under that id", u.name, f.Id, f.Addr)
			}
		}
		if !deep {
			continue
		}
		for _, k := range []int{1, t.k, len(t.members), len(t.members) + 10} {
			if m := t.closest(r, u, k, stored, false); m != "" {
				return m
			}
		}
	}
	return t.closest(r, t.host, len(t.members)+1, true, true)
}

func (t *table) closest(r *dht.RouteTable, u node, k int, stored, all bool) string {
	got := r.FindClosest(u.id, k)
	used := make([]bool, len(t.members))
	found := false
	for _, g := range got {
		hit := -1
		for i, m := range t.members {
			if g != nil && m.is(g) {
				hit = i
			}
		}
		if hit < 0 {
			return fmt.Sprintf("FindClosest(%s, %d) returned a contact that is not stored: %v", u.name, k, g)
		}
		if used[hit] {
			return fmt.Sprintf("FindClosest(%s, %d) returned %s twice", u.name, k, t.members[hit].name)
		}
		used[hit] = true
		if t.members[hit].id == u.id {
			found = true
		}
	}
	if stored && !found {
		return fmt.Sprintf("FindClosest(%s, %d) does not contain that contact although it is stored", u.name, k)
	}
	if all && len(got) != len(t.members) {
		return fmt.Sprintf("FindClosest(host, %d) returned %d of %d contacts", k, len(got), len(t.members))
	}
	return ""
}

func mkNode(name, id string, i int) node {
	c := mkContact(i)
	c.id = id
	return node{c, name}
}

// universe has per contacts in each of the given prefix classes, and variants:
// an id shared by two addresses, and the host's id elsewhere.
func universeOf(host node, cpls []int, per int) []node {
	var u []node
	for _, c := range cpls {
		for v := 0; v < per; v++ {
			u = append(u, mkNode(fmt.Sprintf("p%d.%d", c, v), idAt(host.id, c, byte(v)), len(u)+1))
		}
	}
	return u
}

func sequence(host node, k, capacity int, u, probe []node, seq []int, deep bool) string {
	r := dht.NewRouteTable(host.info(false), k, capacity)
	t := newTable(host, k, capacity)
	name := func(i int) string {
		var s []string
		for _, x := range seq[:i+1] {
			s = append(s, u[x].name)
		}
		return fmt.Sprintf("k=%d max=%d, adding %s", k, capacity, strings.Join(s, " "))
	}
	// answers given stay as they are whatever is added later
	type given struct {
		got, was []*dht.NodeInfo
	}
	var held []given
	hold := func(id string, n int) {
		g := r.FindClosest(id, n)
		held = append(held, given{g, append([]*dht.NodeInfo(nil), g...)})
	}
	for i, x := range seq {
		if deep || len(held) < 20 {
			hold(u[x].id, []int{1000, k, 0}[i%3])
			hold(host.id, 1000)
		}
		// looked up before, found or not
		if deep {
			if m := t.agrees(r, probe, false); m != "" {
				return fmt.Sprintf("%s: before the last addition: %s", name(i), m)
			}
		} else if f := r.Find(u[x].id); f != nil && f.Id != u[x].id {
			return fmt.Sprintf("%s: Find before the last addition returned %q", name(i), f.Id)
		}
		had := t.has(u[x])
		want := t.add(u[x])
		err := r.AddNode(u[x].info(i%2 == 1))
		if (err == nil) != want {
			return fmt.Sprintf("%s: error %v, want stored=%v (already stored=%v)", name(i), err, want, had)
		}
		if i == len(seq)-1 || !deep {
			if deep || i == len(seq)-1 {
				if m := t.agrees(r, probe, deep); m != "" {
					return name(i) + ": " + m
				}
			} else if r.Size() != len(t.members) {
				return fmt.Sprintf("%s: Size() = %d, want %d", name(i), r.Size(), len(t.members))
			}
		}
	}
	for _, h := range held {
		for i := range h.was {
			if h.got[i] != h.was[i] {
				return fmt.Sprintf("%s: contact %d of an earlier answer of %d has changed", name(len(seq)-1), i, len(h.was))
			}
		}
	}
	return ""
}

func init() {
	reg("C13", func(thorough bool) []*Scn {
		host := mkNode("host", pattern(20, 42), 0)
		depth := 5
		if thorough {
			depth = 6
		}
		seqs := func(b *B, k, capacity int, u []node, depth int) {
			probe := append([]node{host, mkNode("nobody", idAt(host.id, 1, 200), 77)}, u...)
			seq := make([]int, 0, depth)
			var rec func()
			rec = func() {
				if len(seq) > 0 {
					sq := append([]int(nil), seq...)
					b.Do(func() string {
						b.Calls(len(sq) + 6*len(probe))
						return sequence(host, k, capacity, u, probe, sq, true)
					})
				}
				if len(seq) == depth || b.Stopped() {
					return
				}
				for i := range u {
					seq = append(seq, i)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
		var s []*Scn
		type conf struct{ k, cap int }
		confs := []conf{{1, 0}, {1, 1}, {1, 3}, {2, 0}, {2, 1}, {2, 2}, {2, 160}, {3, 1}, {3, 2}}
		for _, c := range confs {
			c := c
			s = append(s, &Scn{Name: fmt.Sprintf("all addition sequences, k=%d max prefix %d", c.k, c.cap), Bulk: func(b *B) {
				u := universeOf(host, []int{0, 1, 2}, 2)
				twin := u[2]
				twin.port++
				twin.name += "'"
				deepest := mkNode("p9", idAt(host.id, 9, 1), 50)
				hostTwin := host
				hostTwin.ip[3]++
				hostTwin.name = "host'"
				u = append(u, twin, deepest, hostTwin, host)
				if c.k == 3 {
					u = append(u, mkNode("p0.2", idAt(host.id, 0, 2), 60), mkNode("p0.3", idAt(host.id, 0, 3), 61))
				}
				d := depth
				if len(u) > 10 {
					d--
				}
				b.Sample("sequences of length 1..%d over %d contacts", d, len(u))
				seqs(b, c.k, c.cap, u, d)
			}})
		}
		s = append(s, &Scn{Name: "filling orders up to the full table", Bulk: func(b *B) {
			for _, c := range []conf{{1, 160}, {2, 160}, {3, 160}, {8, 160}, {8, 10}, {8, 0}, {8, 1}, {5, 159}, {4, 7},
				{17, 160}, {20, 3}, {33, 2}, {100, 1}, {300, 0}, {2, 161}, {2, 255}, {2, 256}, {3, 300}, {1, 1000}} {
				for order := 0; order < 8; order++ {
					for _, per := range []int{1, c.k - 1, c.k, c.k + 1, c.k + 3} {
						if per < 1 {
							continue
						}
						b.Do(func() string {
							var cpls []int
							for p := 0; p <= 160; p++ {
								cpls = append(cpls, p)
							}
							u := universeOf(host, cpls, per)
							// contacts beyond the id length share the host's id: make them distinct by address
							idx := make([]int, len(u))
							for i := range idx {
								idx[i] = i
							}
							n := len(idx)
							key := func(i int) int {
								switch order {
								case 0:
									return i
								case 1:
									return -i
								case 2:
									return (i%per)*1000 + i/per // one per class, ascending
								case 3:
									return (i%per)*1000 - i/per
								case 4:
									return (i * 7919) % n
								case 5:
									return (i*104729 + 13) % n
								case 6: // outside in
									if i < n/2 {
										return i * 2
									}
									return (n-1-i)*2 + 1
								}
								if i%2 == 0 {
									return i
								}
								return n*2 - i
							}
							sort.SliceStable(idx, func(a, b int) bool { return key(idx[a]) < key(idx[b]) })
							probe := append([]node{host}, u...)
							b.Calls(n * 3)
							if m := sequence(host, c.k, c.cap, u, probe, idx, false); m != "" {
								if len(m) > 600 {
									m = m[:300] + " ... " + m[len(m)-300:]
								}
								return m
							}
							return ""
						})
					}
				}
			}
		}}, &Scn{Name: "one contact of each prefix length and bit pattern", Bulk: func(b *B) {
			for p := 0; p <= 160; p++ {
				for v := 0; v < 64; v++ {
					for _, c := range []conf{{1, 160}, {2, 160}, {1, 8}, {2, p}, {1, p}} {
						b.Do(func() string {
							x := mkNode(fmt.Sprintf("p%d", p), idAt(host.id, p, byte(v)), 3)
							y := mkNode(fmt.Sprintf("p%d+", p), idAt(host.id, p, byte(v)^1), 4)
							z := mkNode(fmt.Sprintf("p%d++", p), idAt(host.id, p, byte(v)^2), 5)
							b.Calls(20)
							u := []node{x, y, z, host}
							return sequence(host, c.k, c.cap, u, u, []int{0, 1, 2, 3, 0, 1, 2}, true)
						})
					}
				}
			}
		}}, &Scn{Name: "contacts that differ in one bit of id or address", Bulk: func(b *B) {
			x := mkNode("x", idAt(host.id, 3, 5), 9)
			var u []node
			for bit := 4; bit < 160; bit++ {
				y := x
				id := []byte(x.id)
				id[bit/8] ^= 0x80 >> (bit % 8)
				y.id = string(id)
				y.name = fmt.Sprintf("x^id%d", bit)
				u = append(u, y)
			}
			for bit := 0; bit < 32; bit++ {
				y := x
				y.ip[bit/8] ^= 1 << (bit % 8)
				y.name = fmt.Sprintf("x^ip%d", bit)
				u = append(u, y)
			}
			for bit := 0; bit < 16; bit++ {
				y := x
				y.port ^= 1 << bit
				y.name = fmt.Sprintf("x^port%d", bit)
				u = append(u, y)
			}
			// ids that differ only in letter case
			for i := 0; i < 2; i++ {
				y := x
				id := []byte(idAt(host.id, 3, 5))
				copy(id[10:], "abcdefghij")
				if i == 1 {
					copy(id[10:], "ABCDEFGHIJ")
				}
				y.id, y.name = string(id), fmt.Sprintf("case%d", i)
				u = append(u, y)
			}
			for i := range u {
				for _, j := range []int{i, len(u) - 1, (i + 1) % len(u)} {
					for _, c := range []conf{{2, 160}, {3, 2}, {8, 160}} {
						b.Do(func() string {
							w := []node{x, u[i], u[j]}
							b.Calls(20)
							if m := sequence(host, c.k, c.cap, w, append(w, host), []int{0, 1, 2, 0}, true); m != "" {
								return m
							}
							return sequence(host, c.k, c.cap, w, append(w, host), []int{1, 0}, true)
						})
					}
				}
			}
		}})
		return s
	})
}
