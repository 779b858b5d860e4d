package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
)

// Reference bencoding, written from the protocol definition.

// denoted is the outcome of reading one value.
type denoted struct {
	val  interface{} // int, string, misc.List, misc.Dict
	next int
	ok   bool
	// dup: a dictionary repeats a key; lz: a string length has leading zeros;
	// big: an integer does not fit in an int. Such input may be refused or accepted.
	dup, lz, big bool
}

func (d *denoted) soft() bool { return d.dup || d.lz || d.big }

func refItem(s string, i int) denoted {
	var r denoted
	r.val = refAt(s, i, &r)
	return r
}

func refAt(s string, i int, r *denoted) interface{} {
	r.ok = false
	if i >= len(s) {
		return nil
	}
	switch c := s[i]; {
	case c == 'i':
		j := strings.IndexByte(s[i:], 'e')
		if j < 0 {
			return nil
		}
		t := s[i+1 : i+j]
		d := strings.TrimPrefix(t, "-")
		if d == "" || len(d) > 1 && d[0] == '0' || t == "-0" {
			return nil
		}
		for k := 0; k < len(d); k++ {
			if d[k] < '0' || d[k] > '9' {
				return nil
			}
		}
		v, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			r.big = true
		}
		r.ok, r.next = true, i+j+1
		return int(v)
	case c >= '0' && c <= '9':
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j >= len(s) || s[j] != ':' {
			return nil
		}
		if s[i] == '0' && j-i > 1 {
			r.lz = true
		}
		n, err := strconv.ParseInt(s[i:j], 10, 64)
		if err != nil || n > int64(len(s)-j-1) {
			return nil
		}
		r.ok, r.next = true, j+1+int(n)
		return s[j+1 : j+1+int(n)]
	case c == 'l':
		l := misc.List{}
		for i++; ; {
			if i < len(s) && s[i] == 'e' {
				r.ok, r.next = true, i+1
				return l
			}
			v := refAt(s, i, r)
			if !r.ok {
				return nil
			}
			l = append(l, v)
			i = r.next
		}
	case c == 'd':
		d := misc.Dict{}
		for i++; ; {
			if i < len(s) && s[i] == 'e' {
				r.ok, r.next = true, i+1
				return d
			}
			if i >= len(s) || s[i] < '0' || s[i] > '9' {
				r.ok = false
				return nil
			}
			k := refAt(s, i, r)
			if !r.ok {
				return nil
			}
			v := refAt(s, r.next, r)
			if !r.ok {
				return nil
			}
			if _, dup := d[k.(string)]; dup {
				r.dup = true
			}
			d[k.(string)] = v
			i = r.next
		}
	}
	return nil
}

// enc is the canonical encoding of a value.
func enc(v interface{}) string {
	switch x := v.(type) {
	case int:
		return "i" + strconv.Itoa(x) + "e"
	case string:
		return strconv.Itoa(len(x)) + ":" + x
	case misc.List:
		var b strings.Builder
		b.WriteByte('l')
		for _, e := range x {
			b.WriteString(enc(e))
		}
		b.WriteByte('e')
		return b.String()
	case misc.Dict:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteByte('d')
		for _, k := range ks {
			b.WriteString(enc(k))
			b.WriteString(enc(x[k]))
		}
		b.WriteByte('e')
		return b.String()
	}
	panic(fmt.Sprintf("enc: %T", v))
}

// same compares values of the four kinds exactly (types included).
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case misc.List:
		y, ok := b.(misc.List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case misc.Dict:
		y, ok := b.(misc.Dict)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	s = strings.ReplaceAll(s, "misc.", "")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func quote(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}
