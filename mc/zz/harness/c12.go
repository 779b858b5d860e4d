package main

import (
	"fmt"
	"net"
	"strings"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type contact struct {
	id   string
	ip   [4]byte
	port int
}

func (c contact) compact() string {
	return c.id + string(c.ip[:]) + string([]byte{byte(c.port >> 8), byte(c.port)})
}

// addr gives the address in its 4-byte or 16-byte form.
func (c contact) addr(wide bool) *net.UDPAddr {
	ip := net.IP(append([]byte(nil), c.ip[:]...))
	if wide {
		ip = net.IPv4(c.ip[0], c.ip[1], c.ip[2], c.ip[3])
	}
	return &net.UDPAddr{IP: ip, Port: c.port}
}

func (c contact) is(n *dht.NodeInfo) bool {
	return n != nil && n.Id == c.id && c.isAddr(n.Addr)
}

func (c contact) isAddr(a *net.UDPAddr) bool {
	return a != nil && a.Port == c.port && a.IP.To4() != nil && string(a.IP.To4()) == string(c.ip[:])
}

func (c contact) String() string {
	return fmt.Sprintf("%q@%d.%d.%d.%d:%d", c.id, c.ip[0], c.ip[1], c.ip[2], c.ip[3], c.port)
}

func mkContact(i int) contact {
	return contact{pattern(20, byte(i*3+1)), [4]byte{byte(i), byte(i >> 3), 200, byte(255 - i)}, (i*7919 + 1) & 65535}
}

// compactOK joins and parses the contacts every way there is.
func compactOK(cs []contact, wide bool) string {
	var nodes []*dht.NodeInfo
	var addrs []*net.UDPAddr
	want := ""
	for _, c := range cs {
		nodes = append(nodes, dht.NewNodeInfo(c.id, c.addr(wide)))
		addrs = append(addrs, c.addr(wide))
		want += c.compact()
	}
	got := []struct {
		n string
		f func() interface{}
	}{
		{"find_node response", func() interface{} {
			r := dht.WithFindNodeResponse("tt", "me", nodes).RawData()
			b := r.GetDict("r")
			return b.GetString("nodes")
		}},
		{"get_peers response", func() interface{} {
			r := dht.WithGetPeersNodesResponse("tt", "me", "tok", nodes).RawData()
			b := r.GetDict("r")
			return b.GetString("nodes")
		}},
	}
	if dht.V_joinNodeInfos != nil {
		got = append(got, struct {
			n string
			f func() interface{}
		}{"joinNodeInfos", func() interface{} { return dht.V_joinNodeInfos(nodes) }})
	}
	for _, g := range got {
		if s := g.f(); s != interface{}(want) {
			return fmt.Sprintf("%s: nodes %v encode to %s, want %q", g.n, cs, show(s), want)
		}
	}
	r := dht.WithGetPeersValsResponse("tt", "me", "tok", addrs).RawData()
	body := r.GetDict("r")
	vals := body.GetList("values")
	if len(vals) != len(cs) {
		return fmt.Sprintf("%d peers encode to %d values", len(cs), len(vals))
	}
	for i, c := range cs {
		if vals[i] != interface{}(c.compact()[20:]) {
			return fmt.Sprintf("peer %v encodes to %s", c, show(vals[i]))
		}
	}
	if dht.V_parsePeerInfo != nil {
		back := dht.V_parsePeerInfo(vals)
		if len(back) != len(cs) {
			return fmt.Sprintf("%d values decode to %d peers", len(cs), len(back))
		}
		for i, c := range cs {
			if !c.isAddr(back[i]) {
				return fmt.Sprintf("peer %d decodes to %v, want %v", i, back[i], c)
			}
		}
	}
	return parsesTo(want, cs)
}

func parsesTo(info string, cs []contact) string {
	if dht.V_parseNodeInfo == nil {
		return ""
	}
	back := dht.V_parseNodeInfo(info)
	if len(back) != len(cs) {
		return fmt.Sprintf("%d bytes decode to %d contacts, want %d", len(info), len(back), len(cs))
	}
	for i, c := range cs {
		if !c.is(back[i]) {
			return fmt.Sprintf("contact %d decodes to %v, want %v", i, back[i], c)
		}
	}
	return ""
}

func carries(what string, raw misc.Dict, want misc.Dict) string {
	if !same(raw, want) {
		return fmt.Sprintf("%s message is %s, want %s", what, show(raw), show(want))
	}
	e, err := misc.EncodeDict(raw)
	if err != nil {
		return fmt.Sprintf("%s: not encodable: %v", what, err)
	}
	r := refItem(e, 0)
	if !r.ok || r.next != len(e) || !same(r.val, want) {
		return fmt.Sprintf("%s encodes to %s", what, quote(e))
	}
	return ""
}

// messages checks every constructor with the given field values.
func messages(t, id, s1, s2 string, n int, cs []contact) string {
	var nodes []*dht.NodeInfo
	var addrs []*net.UDPAddr
	info := ""
	vals := misc.List{}
	for _, c := range cs {
		nodes = append(nodes, dht.NewNodeInfo(c.id, c.addr(false)))
		addrs = append(addrs, c.addr(true))
		info += c.compact()
		vals = append(vals, c.compact()[20:])
	}
	q := func(name string, a misc.Dict) misc.Dict { return misc.Dict{"t": t, "y": "q", "q": name, "a": a} }
	r := func(a misc.Dict) misc.Dict { return misc.Dict{"t": t, "y": "r", "r": a} }
	e := func(code int, m string) misc.Dict { return misc.Dict{"t": t, "y": "e", "e": misc.List{code, m}} }
	for _, c := range []struct {
		n    string
		raw  misc.Dict
		want misc.Dict
	}{
		{"ping", dht.WithPingMsg(t, id, nil).RawData(), q("ping", misc.Dict{"id": id})},
		{"find_node", dht.WithFindNodeMsg(t, id, s1, nil).RawData(), q("find_node", misc.Dict{"id": id, "target": s1})},
		{"get_peers", dht.WithGetPeersMsg(t, id, s1, nil).RawData(), q("get_peers", misc.Dict{"id": id, "info_hash": s1})},
		{"announce_peer", dht.WithAnnouncePeerMsg(t, id, s1, s2, n, nil).RawData(), q("announce_peer", misc.Dict{"id": id, "info_hash": s1, "token": s2, "port": n, "implied_port": 0})},
		{"ping response", dht.WithPingResponse(t, id).RawData(), r(misc.Dict{"id": id})},
		{"announce_peer response", dht.WithAnnouncePeerResponse(t, id).RawData(), r(misc.Dict{"id": id})},
		{"find_node response", dht.WithFindNodeResponse(t, id, nodes).RawData(), r(misc.Dict{"id": id, "nodes": info})},
		{"get_peers response with nodes", dht.WithGetPeersNodesResponse(t, id, s2, nodes).RawData(), r(misc.Dict{"id": id, "token": s2, "nodes": info})},
		{"get_peers response with peers", dht.WithGetPeersValsResponse(t, id, s2, addrs).RawData(), r(misc.Dict{"id": id, "token": s2, "values": vals})},
		{"generic response", krpc.WithResponse(t, misc.Dict{"id": id, "x": n}).RawData(), r(misc.Dict{"id": id, "x": n})},
		{"error", krpc.WithErr(t, n, s1).RawData(), e(n, s1)},
	} {
		if m := carries(c.n, c.raw, c.want); m != "" {
			return m
		}
	}
	msg := s1
	raw := krpc.WithParamErr(t, msg).RawData()
	if msg != "" {
		if m := carries("parameter error", raw, e(203, msg)); m != "" {
			return m
		}
	}
	l := raw.GetList("e")
	if l.GetInteger(0) != 203 || l.GetString(1) == "" || raw.GetString("t") != t {
		return fmt.Sprintf("parameter error is %s", show(raw))
	}
	return ""
}

func init() {
	reg("C12", func(thorough bool) []*Scn {
		return []*Scn{
			{Name: "contacts: every port, every byte of id and address, both address forms", Bulk: func(b *B) {
				for p := 0; p < 65536; p++ {
					c := mkContact(5)
					c.port = p
					b.Do(func() string { return compactOK([]contact{c}, p&1 == 0) })
				}
				for v := 0; v < 256; v++ {
					for pos := 0; pos < 4; pos++ {
						c := mkContact(v)
						c.ip[pos] = byte(v)
						for _, w := range []bool{false, true} {
							b.Do(func() string { return compactOK([]contact{mkContact(1), c}, w) })
						}
					}
					for pos := 0; pos < 20; pos++ {
						c := mkContact(pos)
						id := []byte(c.id)
						id[pos] = byte(v)
						c.id = string(id)
						b.Do(func() string { return compactOK([]contact{c, mkContact(3)}, false) })
					}
				}
				for n := 0; n <= 300; n++ {
					var cs []contact
					for i := 0; i < n; i++ {
						cs = append(cs, mkContact(i))
					}
					b.Do(func() string { return compactOK(cs, n%2 == 1) })
				}
				b.Sample("ports 0..65535, id bytes, address bytes, 0..300 contacts")
			}},
			{Name: "contacts: all lists of up to 3 unusual contacts", Bulk: func(b *B) {
				var alphabet []contact
				for _, id := range []string{pattern(20, 9), strings.Repeat("\x00", 20), strings.Repeat("\xff", 20)} {
					for _, ip := range [][4]byte{{}, {255, 255, 255, 255}, {127, 0, 0, 1}, {10, 0, 0, 7}, {224, 0, 0, 1}} {
						for _, port := range []int{0, 1, 65535} {
							alphabet = append(alphabet, contact{id, ip, port})
						}
					}
				}
				alphabet = append(alphabet, mkContact(5), mkContact(6))
				var seq []contact
				var rec func()
				rec = func() {
					if len(seq) > 0 {
						cs := append([]contact(nil), seq...)
						b.Do(func() string { return compactOK(cs, len(cs) == 2) })
					}
					if len(seq) == 3 {
						return
					}
					for _, c := range alphabet {
						seq = append(seq, c)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}},
			{Name: "compact node info of every length", Bulk: func(b *B) {
				top := 2100
				for n := 0; n <= top; n++ {
					n := n
					for seed := 0; seed < 3; seed++ {
						info := pattern(n, byte(seed*91))
						var cs []contact
						for i := 0; i+26 <= n; i += 26 {
							c := contact{id: info[i : i+20], port: int(info[i+24])<<8 | int(info[i+25])}
							copy(c.ip[:], info[i+20:])
							cs = append(cs, c)
						}
						b.Do(func() string { return parsesTo(info, cs) })
					}
				}
				if dht.V_parseNodeInfo == nil {
					b.Sample("decoder not reachable by name: checked through C15 only")
				}
			}},
			{Name: "messages: every combination of field values, every walk order", Bulk: func(b *B) {
				strs := []string{"", "a", "aa", pattern(20, 3), "e", "ie", pattern(100, 7), "\x00\xff"}
				ints := []int{0, 1, 80, 203, 6881, 65535, -1}
				for _, t := range strs {
					for _, id := range strs {
						for _, s1 := range strs {
							for _, s2 := range strs {
								for ni, n := range ints {
									cs := []contact{mkContact(n), mkContact(2)}[:ni%3]
									b.Do(func() string {
										b.Calls(12)
										return messages(t, id, s1, s2, n, cs)
									})
								}
							}
						}
					}
				}
				for k := 0; k < vrt.Fact(5); k++ {
					b.Do(func() string {
						vrt.MapOrder = func(int) int { return k }
						defer func() { vrt.MapOrder = nil }()
						b.Calls(12)
						return messages("tx", pattern(20, 1), pattern(20, 2), "tok", 6881, []contact{mkContact(1), mkContact(2)})
					})
				}
			}},
		}
	})
}
