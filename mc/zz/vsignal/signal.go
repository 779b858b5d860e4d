// Package vsignal replaces os/signal.
package vsignal

import (
	"os"

	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type reg struct {
	c    *vrt.Chan[os.Signal]
	sigs []os.Signal
	all  bool
}

var regs []*reg
var gen interface{}

func sync() {
	if g := vrt.Gen(); g != gen {
		gen = g
		regs = nil
	}
}

func Notify[C ~*vrt.Chan[os.Signal]](c C, sigs ...os.Signal) {
	sync()
	if vrt.Point("signal notify") {
		vrt.EnvOp(1, 0)
	}
	regs = append(regs, &reg{c: (*vrt.Chan[os.Signal])(c), sigs: sigs, all: len(sigs) == 0})
}

func Stop[C ~*vrt.Chan[os.Signal]](c C) {
	sync()
	if vrt.Point("signal stop") {
		vrt.EnvOp(2, 0)
	}
	var keep []*reg
	for _, r := range regs {
		if r.c != (*vrt.Chan[os.Signal])(c) {
			keep = append(keep, r)
		}
	}
	regs = keep
}

// NotifyContext is cancelled by the first of the signals.
func NotifyContext(parent vctx.Context, sigs ...os.Signal) (vctx.Context, vctx.CancelFunc) {
	ctx, cancel := vctx.WithCancel(parent)
	c := vrt.NewChan[os.Signal](1)
	Notify(c, sigs...)
	vrt.GoNamed("signal", func() {
		vrt.Recv(c)
		cancel()
	})
	return ctx, func() {
		cancel()
		Stop(c)
	}
}

func Ignore(sigs ...os.Signal) {}
func Reset(sigs ...os.Signal)  {}

// Deliver sends a signal to the process; it reports how many channels asked for it.
func Deliver(s os.Signal) int {
	sync()
	vrt.EnvOp(3, 0)
	n := 0
	for _, r := range regs {
		ok := r.all
		for _, x := range r.sigs {
			ok = ok || x == s
		}
		if ok {
			n++
			r.c.SysSend(s)
		}
	}
	return n
}
