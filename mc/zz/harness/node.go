package main

import (
	"fmt"
	"net"
	"strings"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// crawler is the whole node (package dht), listening on a scripted socket.
type crawler struct {
	c *vnet.UDPConn
	w *vnet.Net
	k int // datagrams looked at
	// who asks after hostile datagrams
	foe  *net.UDPAddr
	turn int
}

// prepare initialises the packages of the node for one execution.
func prepare(workers, fetchers, queue int) *crawler {
	fresh()
	krpc.VerifInit()
	peerwire.VerifInit()
	config.DhtConfig().WorkPoolSize = workers
	config.FetchTorrentConfig().WorkPoolSize = fetchers
	config.FetchTorrentConfig().InfoHashQueueSize = queue
	dht.VerifInit()
	w := vnet.World()
	return &crawler{c: w.UDP[len(w.UDP)-1], w: w}
}

func (n *crawler) run() {
	vrt.GoNamed("node", dht.Run)
}

// replies are the datagrams sent since the last call.
func (n *crawler) replies() []vnet.Pkt {
	r := n.w.Sent[n.k:]
	n.k = len(n.w.Sent)
	return r
}

func decoded(b []byte) misc.Dict {
	r := refItem(string(b), 0)
	d, ok := r.val.(misc.Dict)
	if !r.ok || r.soft() || !ok || r.next != len(b) {
		vrt.Fail("the node sends %q, which is not a bencoded dictionary", clip(b))
	}
	return d
}

func dictAt(d misc.Dict, k string) misc.Dict {
	x, _ := d[k].(misc.Dict)
	return x
}

// internals tells whether a text leaks a stack trace.
func internals(s string) bool {
	for _, x := range []string{"goroutine ", ".go:", "runtime.", "debug.Stack", "0x", "stacks:", "github.com/"} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

var methods = []string{"ping", "find_node", "get_peers", "announce_peer"}

// expected judges what the node must do with one datagram.
type expected struct {
	kind   string // "response", "error", "nothing", "dontcare"
	method string
	tx     string
}

// expects derives from the protocol what answer a datagram must get.
func expects(b []byte) expected {
	r := refItem(string(b), 0)
	if !r.ok {
		return expected{kind: "nothing"}
	}
	d, ok := r.val.(misc.Dict)
	if !ok {
		return expected{kind: "nothing"}
	}
	if r.soft() || r.next != len(b) || len(b) > 1024 {
		if d["y"] != "q" {
			return expected{kind: "nothing"}
		}
		return expected{kind: "dontcare"}
	}
	if d["y"] != "q" {
		return expected{kind: "nothing"}
	}
	tx, ok := d["t"].(string)
	if !ok {
		return expected{kind: "dontcare"}
	}
	e := expected{kind: "error", tx: tx}
	m, ok := d["q"].(string)
	if !ok {
		return e
	}
	a, ok := d["a"].(misc.Dict)
	if !ok {
		return e
	}
	id, ok := a["id"].(string)
	if !ok || len(id) != 20 {
		return e
	}
	e.method = m
	_, hok := a["info_hash"].(string)
	_, pok := a["port"].(int)
	switch m {
	case "ping", "find_node":
		e.kind = "response"
	case "get_peers":
		if !hok {
			return e
		}
		e.kind = "response"
	case "announce_peer":
		if !hok || !pok {
			return e
		}
		e.kind = "response"
	}
	return e
}

// nodeID remembers the id the node gives, which must never change.
type nodeID struct{ id string }

// judgeReply compares one reply with what is expected; "" if right.
func (n *nodeID) judgeReply(e expected, p vnet.Pkt, to *net.UDPAddr, q []byte) string {
	what := fmt.Sprintf("query %q from %v is answered %q to %v", clip(q), to, clip(p.Data), p.Addr)
	if !sameAddr(p.Addr, to) {
		return what + ": wrong address"
	}
	r := refItem(string(p.Data), 0)
	d, ok := r.val.(misc.Dict)
	if !r.ok || r.soft() || !ok || r.next != len(p.Data) {
		return what + ": not a bencoded dictionary"
	}
	if d["t"] != e.tx {
		return what + ": wrong transaction id"
	}
	switch e.kind {
	case "response":
		if d["y"] != "r" {
			return what + ": not a response"
		}
		b := dictAt(d, "r")
		id, _ := b["id"].(string)
		if len(id) != 20 {
			return what + ": no 20-byte id"
		}
		if n.id == "" {
			n.id = id
		}
		if n.id != id {
			return what + ": another id than before"
		}
		if e.method == "find_node" || e.method == "get_peers" {
			s, ok := b["nodes"].(string)
			if !ok || len(s)%26 != 0 {
				return what + ": no nodes"
			}
		}
		if e.method == "get_peers" {
			if _, ok := b["token"].(string); !ok {
				return what + ": no token"
			}
		}
	case "error":
		if d["y"] != "e" {
			return what + ": not an error"
		}
		l, _ := d["e"].(misc.List)
		if len(l) != 2 || l[0] != 203 {
			return what + ": not error 203"
		}
		s, ok := l[1].(string)
		if !ok || s == "" || len(s) > 200+len(q) {
			return what + ": no short description"
		}
		if internals(s) && !internals(string(q)) {
			return what + ": shows internals"
		}
	default:
		return what + ": neither response nor error"
	}
	return ""
}

// check judges all replies to one datagram.
func (n *nodeID) check(q []byte, to *net.UDPAddr, got []vnet.Pkt) string {
	e := expects(q)
	switch e.kind {
	case "dontcare":
		return ""
	case "nothing":
		if len(got) != 0 {
			return fmt.Sprintf("%q from %v is not a query but is answered %q", clip(q), to, clip(got[0].Data))
		}
		return ""
	}
	if len(got) != 1 {
		return fmt.Sprintf("query %q from %v gets %d replies", clip(q), to, len(got))
	}
	return n.judgeReply(e, got[0], to, q)
}
