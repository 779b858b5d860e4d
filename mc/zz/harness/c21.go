package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// failed runs f and tells whether it ended in a panic, the parsers' way to refuse.
func failed(f func()) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	f()
	return false
}

const btProto = "BitTorrent protocol"

func handshakeBytes(hash, id []byte) []byte {
	b := append([]byte{19}, btProto...)
	b = append(b, 0, 0, 0, 0, 0, 0x10, 0, 0)
	return append(append(b, hash...), id...)
}

// frame checks the length prefix, type and extension number and splits off dictionary and data.
func frame(m []byte, ext int) (d misc.Dict, data []byte, msg string) {
	if len(m) < 6 || binary.BigEndian.Uint32(m) != uint32(len(m)-4) {
		return nil, nil, fmt.Sprintf("message %q: length prefix does not equal the rest (%d bytes)", clip(m), len(m)-4)
	}
	if m[4] != 20 || int(m[5]) != ext {
		return nil, nil, fmt.Sprintf("message %q: type %d extension %d, want 20 and %d", clip(m), m[4], m[5], ext)
	}
	r := refItem(string(m[6:]), 0)
	if !r.ok || r.soft() || kindOf(r.val) != 'd' {
		return nil, nil, fmt.Sprintf("message %q: no valid dictionary", clip(m))
	}
	return r.val.(misc.Dict), m[6+r.next:], ""
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

func fetchMsg(ext, typ, piece, total int, data []byte) string {
	var m []byte
	if data == nil {
		m = peerwire.V_withExtendedFetchMetaMsg(ext, peerwire.ExFecthMetaType(typ), piece, total)
	} else {
		m = peerwire.V_withExtendedFetchMetaMsg(ext, peerwire.ExFecthMetaType(typ), piece, total, data)
	}
	d, rest, msg := frame(m, ext)
	if msg != "" {
		return msg
	}
	want := misc.Dict{"msg_type": typ, "piece": piece}
	if len(data) > 0 {
		want["total_size"] = total
	}
	if len(data) == 0 && d.Exist("total_size") && d["total_size"] == interface{}(total) {
		want["total_size"] = total // permitted
	}
	if !same(d, want) || !bytes.Equal(rest, data) {
		return fmt.Sprintf("message (ext %d type %d piece %d total %d, %d data bytes) is %s + %d bytes", ext, typ, piece, total, len(data), show(d), len(rest))
	}
	if f := peerwire.V_parseExtendedFetchMetaMsg; f != nil {
		p := f(m[4:])
		if p.ExMessageId() != ext || int(p.MsgType()) != typ || p.PieceNum() != piece || !bytes.Equal(p.Data(), data) || len(data) > 0 && p.TotalSize() != total {
			return fmt.Sprintf("message (ext %d type %d piece %d total %d, %d data bytes) parses to %d %d %d %d, %d bytes", ext, typ, piece, total, len(data),
				p.ExMessageId(), p.MsgType(), p.PieceNum(), p.TotalSize(), len(p.Data()))
		}
	}
	return ""
}

// readFetch checks the parser of metadata messages against the layout, for any input.
func readFetch(in []byte) string {
	var p peerwire.ExtendedFetchMetaMsg
	if failed(func() { p = peerwire.V_parseExtendedFetchMetaMsg(append([]byte(nil), in...)) }) {
		return ""
	}
	bad := func(why string) string {
		return fmt.Sprintf("%q read as ext %d type %d piece %d total %d data %q: %s", clip(in), p.ExMessageId(), p.MsgType(), p.PieceNum(), p.TotalSize(), clip(p.Data()), why)
	}
	if len(in) < 2 || in[0] != 20 {
		return bad("not an extension message")
	}
	r := refItem(string(in[2:]), 0)
	if !r.ok || kindOf(r.val) != 'd' {
		return bad("malformed")
	}
	if r.dup {
		return ""
	}
	d := r.val.(misc.Dict)
	rest := in[2+r.next:]
	if kindOf(d["msg_type"]) != 'i' || kindOf(d["piece"]) != 'i' {
		return bad("msg_type or piece missing")
	}
	if p.ExMessageId() != int(in[1]) || int(p.MsgType()) != d["msg_type"].(int) || p.PieceNum() != d["piece"].(int) || !bytes.Equal(p.Data(), rest) {
		return bad("wrong fields")
	}
	if len(rest) > 0 && d["total_size"] != interface{}(p.TotalSize()) {
		return bad("wrong or missing total_size")
	}
	return ""
}

func readExtended(in []byte) string {
	var p peerwire.ExtendedHandShakeMsg
	var m, d misc.Dict
	if failed(func() {
		p = peerwire.V_parseExtendedHandShake(append([]byte(nil), in...))
		m, d = p.Metadata(), p.Dict()
	}) {
		return ""
	}
	bad := func(why string) string {
		return fmt.Sprintf("%q read as %s: %s", clip(in), show(d), why)
	}
	if len(in) < 2 || in[0] != 20 || in[1] != 0 {
		return bad("not an extended handshake")
	}
	r := refItem(string(in[2:]), 0)
	if !r.ok || kindOf(r.val) != 'd' || 2+r.next != len(in) {
		return bad("malformed")
	}
	if r.dup {
		return ""
	}
	want := r.val.(misc.Dict)
	if kindOf(want["m"]) != 'd' || !same(m, want["m"]) || !same(d, want) {
		return bad("wrong fields")
	}
	return ""
}

func readHandshake(in []byte) string {
	var p peerwire.HandShakeMsg
	if failed(func() { p = peerwire.V_parseHandShakeMsg(append([]byte(nil), in...)) }) {
		if len(in) == 68 && in[0] == 19 && string(in[1:20]) == btProto {
			return fmt.Sprintf("well-formed handshake %q refused", in)
		}
		return ""
	}
	n := 0
	if len(in) > 0 {
		n = int(in[0])
	}
	if len(in) != 68 || n != 19 {
		return fmt.Sprintf("handshake of %d bytes, protocol length %d accepted", len(in), n)
	}
	at := 1 + n
	if p.Protocol() != string(in[1:at]) || p.SupportExtended() != (in[at+5]&0x10 != 0) ||
		!bytes.Equal(p.InfoHash(), in[at+8:at+28]) || !bytes.Equal(p.PeerId(), in[at+28:at+48]) {
		return fmt.Sprintf("handshake %q read as %q %v %q %q", in, p.Protocol(), p.SupportExtended(), p.InfoHash(), p.PeerId())
	}
	return ""
}

// damaged runs f on every truncation, deletion, insertion and replacement of one byte.
func damaged(b *B, m []byte, alpha string, f func(in []byte) string) {
	for i := 0; i <= len(m); i++ {
		b.Do(func() string {
			b.Calls(3 + 2*len(alpha))
			if r := f(m[:i]); r != "" {
				return r
			}
			if r := f(append(append([]byte(nil), m...), m[:i]...)); r != "" {
				return r
			}
			if i < len(m) {
				if r := f(append(append([]byte(nil), m[:i]...), m[i+1:]...)); r != "" {
					return r
				}
			}
			for k := 0; k < len(alpha); k++ {
				ins := append(append(append([]byte(nil), m[:i]...), alpha[k]), m[i:]...)
				if r := f(ins); r != "" {
					return r
				}
				if i < len(m) {
					rep := append([]byte(nil), m...)
					rep[i] = alpha[k]
					if r := f(rep); r != "" {
						return r
					}
				}
			}
			return ""
		})
	}
}

func init() {
	reg("C21", func(thorough bool) []*Scn {
		every := string(func() (b []byte) {
			for i := 0; i < 256; i++ {
				b = append(b, byte(i))
			}
			return
		}())
		proto := "ilde:-0123459\x00\xff\x14\x13m"
		if thorough {
			proto = every
		}
		var s []*Scn
		if peerwire.V_withHandShakeMsg != nil && peerwire.V_parseHandShakeMsg != nil {
			s = append(s, &Scn{Name: "handshake: every byte of hash and id, every length, damaged", Bulk: func(b *B) {
				one := func(id, hash []byte) {
					b.Do(func() string {
						m := peerwire.V_withHandShakeMsg(append([]byte(nil), id...), append([]byte(nil), hash...))
						if !bytes.Equal(m, handshakeBytes(hash, id)) {
							return fmt.Sprintf("handshake is %q, want %q", m, handshakeBytes(hash, id))
						}
						return readHandshake(m)
					})
				}
				for v := 0; v < 256; v++ {
					for pos := 0; pos < 20; pos++ {
						id, hash := []byte(pattern(20, 1)), []byte(pattern(20, 99))
						id[pos], hash[19-pos] = byte(v), byte(v+1)
						one(id, hash)
					}
				}
				for x := 0; x <= 64; x++ {
					for y := 0; y <= 64; y++ {
						if x == 20 && y == 20 {
							continue
						}
						b.Do(func() string {
							var m []byte
							if !failed(func() { m = peerwire.V_withHandShakeMsg(make([]byte, x), make([]byte, y)) }) {
								return fmt.Sprintf("id of %d bytes, hash of %d bytes: made handshake %q", x, y, m)
							}
							return ""
						})
					}
				}
				damaged(b, handshakeBytes([]byte(pattern(20, 7)), []byte(pattern(20, 50))), every, readHandshake)
				for n := 0; n <= 300; n++ {
					in := []byte(pattern(n, 19))
					b.Do(func() string { return readHandshake(in) })
				}
			}})
		}
		if peerwire.V_withExtendedhandShake != nil {
			s = append(s, &Scn{Name: "extended handshake: fields and walk orders", Bulk: func(b *B) {
				metas := []misc.Dict{{}, {"ut_metadata": 1}, {"ut_metadata": 3, "ut_pex": 1}, {"ut_metadata": 255}, {"": -1, "e": 0}, {"a": 1, "b": 2, "c": 3}}
				dicts := []misc.Dict{nil, {}, {"metadata_size": 0}, {"metadata_size": 31235, "v": "x"}, {"p": 6881, "reqq": 500, "v": pattern(50, 1)}, {"m": misc.Dict{"old": 1}, "l": misc.List{1, "a"}}}
				for _, m := range metas {
					for _, d := range dicts {
						for k := 0; k < vrt.Fact(4); k++ {
							b.Do(func() string {
								vrt.MapOrder = func(int) int { return k }
								defer func() { vrt.MapOrder = nil }()
								want := misc.Dict{}
								var cp misc.Dict
								if d != nil {
									cp = misc.Dict{}
								}
								for k, v := range d {
									want[k], cp[k] = v, v
								}
								want["m"] = m
								out := peerwire.V_withExtendedhandShake(m, cp)
								got, rest, msg := frame(out, 0)
								if msg != "" {
									return msg
								}
								if len(rest) != 0 || !same(got, want) {
									return fmt.Sprintf("extended handshake carries %s + %q, want %s", show(got), rest, show(want))
								}
								if f := peerwire.V_parseExtendedHandShake; f != nil {
									p := f(out[4:])
									if !same(p.Metadata(), m) || !same(p.Dict(), want) {
										return fmt.Sprintf("extended handshake %s parses to %s", show(want), show(p.Dict()))
									}
								}
								return ""
							})
						}
					}
				}
			}})
		}
		if peerwire.V_parseExtendedHandShake != nil {
			s = append(s, &Scn{Name: "extended handshake: damaged input", Bulk: func(b *B) {
				for _, d := range []misc.Dict{{"m": misc.Dict{"ut_metadata": 3}, "metadata_size": 31235}, {"m": misc.Dict{}}, {"m": 1, "x": misc.Dict{}}, {"v": "m"}} {
					damaged(b, append([]byte{20, 0}, enc(d)...), proto, readExtended)
				}
				b.Do(func() string {
					in := append([]byte{20, 0}, enc(misc.Dict{"m": misc.Dict{"ut_metadata": 3}, "metadata_size": 31235, "v": "c"})...)
					p := peerwire.V_parseExtendedHandShake(in)
					d := p.Dict()
					if d.GetInteger("metadata_size") != 31235 {
						return "well-formed extended handshake misread"
					}
					return ""
				})
			}})
		}
		if peerwire.V_withExtendedFetchMetaMsg != nil {
			s = append(s, &Scn{Name: "metadata messages: every extension number, type, piece and data length", Bulk: func(b *B) {
				pieces := []int{0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 65535, 65536, 1<<31 - 1, 1 << 31}
				for ext := 0; ext < 256; ext++ {
					for typ := 0; typ < 4; typ++ {
						for _, p := range pieces {
							b.Do(func() string {
								b.Calls(3)
								if m := fetchMsg(ext, typ, p, 0, nil); m != "" {
									return m
								}
								if m := fetchMsg(ext, typ, p, 34256, []byte{}); m != "" {
									return m
								}
								return fetchMsg(ext, typ, p, 34256, []byte("d3:abci1ee"))
							})
						}
					}
				}
				for p := 0; p <= 3000; p++ {
					b.Do(func() string { return fetchMsg(1, 0, p, 0, nil) })
				}
				var lens []int
				for n := 0; n <= 600; n++ {
					lens = append(lens, n)
				}
				lens = append(lens, 1023, 1024, 1025, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70000)
				for _, n := range lens {
					for _, total := range []int{0, 1, n, n + 16384, 1 << 40} {
						b.Do(func() string { return fetchMsg(n&255, 1, n/3, total, []byte(pattern(n, 'd'))) })
					}
				}
				for k := 0; k < 6; k++ {
					b.Do(func() string {
						vrt.MapOrder = func(int) int { return k }
						defer func() { vrt.MapOrder = nil }()
						return fetchMsg(7, 1, 12, 34256, []byte("eedata"))
					})
				}
			}})
		}
		if peerwire.V_parseExtendedFetchMetaMsg != nil {
			s = append(s, &Scn{Name: "metadata messages: damaged input", Bulk: func(b *B) {
				for _, t := range []string{
					"d8:msg_typei1e5:piecei0e10:total_sizei34256ee" + "xyz",
					"d8:msg_typei0e5:piecei10ee",
					"d8:msg_typei2e5:piecei1ee",
					"d5:piecei3e8:msg_typei1e10:total_sizei5ee" + "e",
					"d8:msg_type1:15:piecei0ee", "d8:msg_typei1eel", "d5:piecei0ee", "de", "le", "d8:msg_typei1e5:piecei0ee" + "d",
				} {
					damaged(b, append([]byte{20, 1}, t...), proto, readFetch)
				}
			}})
		}
		if peerwire.V_parsePrefixLenMsg != nil {
			s = append(s, &Scn{Name: "message type: every first byte", Bulk: func(b *B) {
				for v := 0; v < 256; v++ {
					for n := 1; n < 8; n++ {
						b.Do(func() string {
							in := []byte(pattern(n, 77))
							in[0] = byte(v)
							if got := peerwire.V_parsePrefixLenMsg(in).PeerMsgType(); int(got) != v {
								return fmt.Sprintf("first byte %d read as type %d", v, got)
							}
							return ""
						})
					}
				}
				b.Do(func() string {
					if !failed(func() { peerwire.V_parsePrefixLenMsg(nil).PeerMsgType() }) {
						return "empty message accepted"
					}
					return ""
				})
			}})
		}
		return s
	})
}
