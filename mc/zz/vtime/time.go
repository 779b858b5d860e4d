// Package vtime replaces the clock of package time with virtual time.
package vtime

import (
	"time"
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func Now() time.Time {
	vrt.Point("now")
	return time.Unix(0, vrt.NowNs()).UTC()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !vrt.Point("sleep") || d <= 0 {
		return
	}
	fired := false
	vrt.NewTimer(int64(d), 0, func() { fired = true })
	vrt.Block("sleep", func() bool { return fired })
	vrt.NowNs()
}

type Timer struct {
	C  *vrt.Chan[time.Time]
	t  *vrt.Timer
	rb byte
}

func stamp() time.Time { return time.Unix(0, vrt.SysNow()).UTC() }

func NewTimer(d time.Duration) *Timer {
	vrt.Point("newtimer")
	c := vrt.NewChan[time.Time](1)
	return &Timer{C: c, t: vrt.NewTimer(int64(d), 0, func() { c.SysSend(stamp()) })}
}

func After(d time.Duration) *vrt.Chan[time.Time] { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	vrt.Point("afterfunc")
	t := &Timer{}
	vrt.RaceRel(unsafe.Pointer(&t.rb))
	t.t = vrt.NewTimer(int64(d), 0, func() {
		vrt.SysGo("afterfunc", func() {
			vrt.RaceAcq(unsafe.Pointer(&t.rb))
			f()
		})
	})
	return t
}

func (t *Timer) Stop() bool {
	vrt.Point("timer stop")
	r := vrt.StopTimer(t.t)
	if t.C != nil {
		t.C.Drain()
	}
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	vrt.Point("timer reset")
	if t.C != nil {
		t.C.Drain()
	}
	return vrt.ResetTimer(t.t, int64(d))
}

type Ticker struct {
	C *vrt.Chan[time.Time]
	t *vrt.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	vrt.Point("newticker")
	c := vrt.NewChan[time.Time](1)
	return &Ticker{C: c, t: vrt.NewTimer(int64(d), int64(d), func() { c.SysSend(stamp()) })}
}

func Tick(d time.Duration) *vrt.Chan[time.Time] { return NewTicker(d).C }
func (t *Ticker) Stop()                         { vrt.Point("ticker stop"); vrt.StopTimer(t.t) }
func (t *Ticker) Reset(d time.Duration)         { vrt.Point("ticker reset"); vrt.ResetTimer(t.t, int64(d)) }
