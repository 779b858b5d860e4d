package main

import (
	"crypto/sha1"
	"fmt"
	"strings"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// fresh reinitialises package misc for one execution.
func fresh() { misc.VerifInit() }

// call is one completed operation of a concurrent history.
type call struct {
	thread   int
	op       string // what was called, with arguments
	res      string // what it answered
	inv, ret int    // position in the history
}

type history struct {
	calls []*call
	clock int
}

// do records one operation; f returns its result.
func (h *history) do(thread int, op string, f func() string) {
	c := &call{thread: thread, op: op}
	h.clock++
	c.inv = h.clock
	h.calls = append(h.calls, c)
	vrt.HistOp(vrt.HashStr("inv " + op))
	c.res = f()
	h.clock++
	c.ret = h.clock
	vrt.HistOp(vrt.HashStr("ret " + op + c.res))
}

func (h *history) String() string {
	var s []string
	for _, c := range h.calls {
		s = append(s, fmt.Sprintf("T%d %s=%s [%d,%d]", c.thread, c.op, c.res, c.inv, c.ret))
	}
	return strings.Join(s, "; ")
}

// linearizable searches a one-at-a-time order consistent with real time.
// step applies op to an immutable state and gives the new state and the expected result.
func (h *history) linearizable(init string, step func(state, op string) (string, string), final func(state string) bool) bool {
	n := len(h.calls)
	done := make([]bool, n)
	bad := map[string]bool{}
	var rec func(state string, left int) bool
	rec = func(state string, left int) bool {
		if left == 0 {
			return final == nil || final(state)
		}
		k := make([]byte, n)
		for i, d := range done {
			k[i] = '0'
			if d {
				k[i] = '1'
			}
		}
		key := string(k) + state
		if bad[key] {
			return false
		}
		minRet := int(^uint(0) >> 1)
		for i, c := range h.calls {
			if !done[i] && c.ret > 0 && c.ret < minRet {
				minRet = c.ret
			}
		}
		for i, c := range h.calls {
			if done[i] || c.inv > minRet {
				continue
			}
			ns, want := step(state, c.op)
			if c.ret > 0 && want != c.res {
				continue
			}
			done[i] = true
			if rec(ns, left-1) {
				return true
			}
			done[i] = false
		}
		bad[key] = true
		return false
	}
	return rec(init, n)
}

// threads runs the given bodies concurrently and waits for all of them.
func threads(fs ...func()) {
	var ts []*vrt.Thread
	for i, f := range fs {
		ts = append(ts, vrt.GoNamed(fmt.Sprintf("T%d", i), f))
	}
	join(ts...)
}

func join(ts ...*vrt.Thread) {
	vrt.Join("join", ts...)
}

// scripts lets every thread perform any sequence of per operations; threads
// are interchangeable, so only non-decreasing combinations are tried.
func scripts(nt, per, nops int) [][]int {
	total := 1
	for i := 0; i < per; i++ {
		total *= nops
	}
	out := make([][]int, nt)
	prev := 0
	for t := range out {
		prev += vrt.Choose(total - prev)
		x := prev
		s := make([]int, per)
		for i := range s {
			s[i] = x % nops
			x /= nops
		}
		out[t] = s
	}
	return out
}

// nodeSelf is the id the node uses.
func nodeSelf() string {
	h := sha1.Sum([]byte("galaio.p2pclawer"))
	return string(h[:])
}

// ctxKinds are the ways a context can come to its end: by calling end after some time, or by itself then.
var ctxKinds = []struct {
	name string
	mk   func() (ctx vctx.Context, end func(), after time.Duration)
}{
	{"a cancel", func() (vctx.Context, func(), time.Duration) {
		c, end := vctx.WithCancel(vctx.Background())
		return c, func() { end() }, time.Minute
	}},
	{"a cancel before it is used", func() (vctx.Context, func(), time.Duration) {
		c, end := vctx.WithCancel(vctx.Background())
		end()
		return c, nil, 0
	}},
	{"a deadline", func() (vctx.Context, func(), time.Duration) {
		c, _ := vctx.WithTimeout(vctx.Background(), time.Minute)
		return c, nil, time.Minute
	}},
	{"a deadline already passed", func() (vctx.Context, func(), time.Duration) {
		c, _ := vctx.WithTimeout(vctx.Background(), -time.Second)
		return c, nil, 0
	}},
	{"a cancel before the deadline", func() (vctx.Context, func(), time.Duration) {
		c, end := vctx.WithTimeout(vctx.Background(), time.Hour)
		return c, func() { end() }, time.Second
	}},
	{"a cancel of the parent", func() (vctx.Context, func(), time.Duration) {
		p, end := vctx.WithCancel(vctx.Background())
		c, _ := vctx.WithTimeout(vctx.WithValue(p, "k", 1), time.Hour)
		return c, func() { end() }, time.Second
	}},
	{"the deadline of the parent", func() (vctx.Context, func(), time.Duration) {
		p, _ := vctx.WithTimeout(vctx.Background(), time.Second)
		c, _ := vctx.WithCancel(p)
		return c, nil, time.Second
	}},
	{"a cancel with a cause", func() (vctx.Context, func(), time.Duration) {
		c, end := vctx.WithCancelCause(vctx.Background())
		return c, func() { end(fmt.Errorf("enough")) }, time.Second
	}},
}
