package main

import (
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

const pieceLen = 16384

func sum(b []byte) []byte {
	h := sha1.Sum(b)
	return h[:]
}

// metaBytes is a metadata of n bytes whose pieces all differ.
func metaBytes(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// btPeer is a peer that follows BEP 3, 9 and 10, unless told otherwise.
type btPeer struct {
	hash, meta []byte
	ext        int    // number it gives to ut_metadata
	early      bool   // sends its extended handshake along with the handshake
	order      []int  // in which order it sends pieces, once all are asked for; nil: at once
	reserved   string // of its handshake
	mExtra     misc.Dict
	extra      misc.Dict
	pieceExtra misc.Dict
	// messages between: 0 after its handshake, 1 after the extended handshake, 2.. before the n-th piece sent
	between func(pos int) []byte
	// what it sends instead of message msg, the n-th of all
	edit func(n int, what string, msg []byte) []byte
	// it sends no more than limit bytes, then ends
	limit  int
	ending int

	c    *vnet.TCPConn
	buf  []byte
	fed  int
	n    int
	shk  bool
	xshk bool
	ours int // number the program gives to ut_metadata
	ask  []bool
	nask int
	bad  string
	over bool
}

const (
	endNone = iota
	endClose
	endReset
	endGarbage
	endKeepAlive
	endDribble
	endKinds
)

func newPeer(meta []byte, ext int) *btPeer {
	return &btPeer{hash: sum(meta), meta: meta, ext: ext, limit: -1, ask: make([]bool, pieces(len(meta)))}
}

func pieces(n int) int { return (n + pieceLen - 1) / pieceLen }

func (p *btPeer) attach(c *vnet.TCPConn) {
	p.c = c
	c.OnWrite = func(c *vnet.TCPConn, b []byte) error {
		p.recv(b)
		return nil
	}
	if p.limit == 0 {
		p.end()
	}
}

func (p *btPeer) fault(f string, a ...interface{}) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
}

func msgFrame(typ byte, payload []byte) []byte {
	b := make([]byte, 5, 5+len(payload))
	binary.BigEndian.PutUint32(b, uint32(len(payload)+1))
	b[4] = typ
	for _, x := range payload {
		b = append(b, x)
	}
	return b
}

func extFrame(id int, d misc.Dict, data []byte) []byte {
	b := []byte{byte(id)}
	b = append(b, enc(d)...)
	return msgFrame(20, append(b, data...))
}

func (p *btPeer) say(what string, msg []byte) {
	if p.edit != nil {
		msg = p.edit(p.n, what, msg)
	}
	p.n++
	p.feed(msg)
}

func (p *btPeer) feed(b []byte) {
	if p.over {
		return
	}
	if p.limit >= 0 && p.fed+len(b) >= p.limit {
		b = b[:p.limit-p.fed]
		p.fed = p.limit
		if len(b) > 0 {
			p.c.Feed(b)
		}
		p.end()
		return
	}
	p.fed += len(b)
	if len(b) > 0 {
		p.c.Feed(b)
	}
}

// end stops the peer in its particular way.
func (p *btPeer) end() {
	p.over = true
	switch p.ending {
	case endClose:
		p.c.Finish(nil)
	case endReset:
		p.c.Finish(errors.New("connection reset by peer"))
	case endGarbage:
		p.c.ReadCost = time.Millisecond
		p.c.More = func(c *vnet.TCPConn) []byte { return []byte(pattern(997, byte(c.Reads))) }
	case endKeepAlive:
		p.c.ReadCost = time.Millisecond
		p.c.More = func(c *vnet.TCPConn) []byte { return make([]byte, 4) }
	case endDribble:
		p.c.ReadCost = 300 * time.Millisecond
		p.c.More = func(c *vnet.TCPConn) []byte { return []byte{0} }
	}
}

func (p *btPeer) gap(pos int) {
	if p.between != nil {
		if b := p.between(pos); len(b) > 0 {
			p.say("between", b)
		}
	}
}

func (p *btPeer) extended() {
	m := misc.Dict{"ut_metadata": p.ext}
	for k, v := range p.mExtra {
		m[k] = v
	}
	d := misc.Dict{"m": m, "metadata_size": len(p.meta)}
	for k, v := range p.extra {
		d[k] = v
	}
	p.say("extended handshake", extFrame(0, d, nil))
	p.gap(1)
}

func (p *btPeer) piece(k int) {
	from, to := k*pieceLen, (k+1)*pieceLen
	if to > len(p.meta) {
		to = len(p.meta)
	}
	if from > to { // only of a peer that claims more than it has
		from = to
	}
	d := misc.Dict{"msg_type": 1, "piece": k, "total_size": len(p.meta)}
	for x, v := range p.pieceExtra {
		d[x] = v
	}
	p.say("piece", extFrame(p.ours, d, p.meta[from:to]))
}

// recv takes what the program wrote.
func (p *btPeer) recv(b []byte) {
	p.buf = append(append([]byte(nil), p.buf...), b...)
	for {
		if !p.shk {
			if len(p.buf) < 68 {
				return
			}
			h := string(p.buf[:68])
			if h[:20] != "\x13"+btProto || h[25]&0x10 == 0 || h[28:48] != string(p.hash) {
				p.fault("the handshake is %q, want protocol %q, the extension bit and torrent %x", h, btProto, p.hash)
			}
			p.buf = p.buf[68:]
			p.shk = true
			r := handshakeBytes(p.hash, []byte("-XX0000-012345678901"))
			if p.reserved != "" {
				copy(r[20:28], p.reserved)
			}
			p.say("handshake", r)
			p.gap(0)
			if p.early {
				p.extended()
			}
			continue
		}
		if len(p.buf) < 4 {
			return
		}
		n := int(binary.BigEndian.Uint32(p.buf))
		if n > 1<<20 {
			p.fault("a message of %d bytes is sent", n)
			p.buf = nil
			return
		}
		if len(p.buf) < 4+n {
			return
		}
		m := p.buf[:4+n]
		p.buf = p.buf[4+n:]
		if n == 0 {
			continue
		}
		if m[4] != 20 {
			continue
		}
		if n < 2 {
			p.fault("an extended message without number is sent: %q", m)
			continue
		}
		d, data, bad := frame(m, int(m[5]))
		if bad != "" {
			p.fault("%s", bad)
			continue
		}
		if m[5] == 0 {
			mm, _ := d["m"].(misc.Dict)
			id, ok := mm["ut_metadata"].(int)
			if !ok || id < 1 || id > 255 || len(data) != 0 {
				p.fault("the extended handshake is %q: no usable number for ut_metadata", clip(m))
				continue
			}
			p.ours = id
			if !p.xshk {
				p.xshk = true
				if !p.early {
					p.extended()
				}
			}
			continue
		}
		if int(m[5]) != p.ext {
			p.fault("message %q has extension number %d, ut_metadata is %d here", clip(m), m[5], p.ext)
			continue
		}
		k, ok := d["piece"].(int)
		if d["msg_type"] != 0 || !ok || len(data) != 0 {
			p.fault("message %q is no request for a piece", clip(m))
			continue
		}
		if k < 0 || k >= len(p.ask) {
			p.fault("piece %d of %d is asked for", k, len(p.ask))
			continue
		}
		if p.ask[k] {
			p.fault("piece %d is asked for twice", k)
		}
		p.ask[k] = true
		p.nask++
		if p.order == nil {
			p.gap(1 + p.nask)
			p.piece(k)
		} else if p.nask == len(p.ask) {
			for i, x := range p.order {
				p.gap(2 + i)
				p.piece(x)
			}
		}
		if p.nask == len(p.ask) {
			p.gap(2 + len(p.ask))
			if p.limit < 0 && p.ending != endNone {
				p.end()
			}
		}
	}
}

// segments returns a Seg function serving reads in the given sizes, cyclically.
func segments(sizes ...int) func(c *vnet.TCPConn, avail, want int) int {
	i := 0
	return func(c *vnet.TCPConn, avail, want int) int {
		n := sizes[i%len(sizes)]
		i++
		return n
	}
}

// dialTable answers connections by address.
type dialTable struct {
	e [128]struct {
		addr string
		f    func(c *vnet.TCPConn) error
	}
	n int
}

func (t *dialTable) add(addr string, f func(c *vnet.TCPConn) error) {
	t.e[t.n].addr, t.e[t.n].f = addr, f
	t.n++
}

func (t *dialTable) install() {
	vnet.World().OnDial = func(addr string, timeout time.Duration) (*vnet.TCPConn, error) {
		for i := range t.e {
			if t.e[i].addr == addr {
				c := &vnet.TCPConn{}
				if err := t.e[i].f(c); err != nil {
					return nil, err
				}
				return c, nil
			}
		}
		vrt.Fail("connection to %q, where nobody is", addr)
		return nil, errors.New("connection refused")
	}
}
