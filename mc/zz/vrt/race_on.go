//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                    { runtime.RaceDisable() }
func raceOn()                     { runtime.RaceEnable() }
func RaceAcq(p unsafe.Pointer)    { runtime.RaceAcquire(p) }
func RaceRel(p unsafe.Pointer)    { runtime.RaceReleaseMerge(p) }
func RaceReads(p unsafe.Pointer)  { runtime.RaceRead(p) }
func RaceWrites(p unsafe.Pointer) { runtime.RaceWrite(p) }
func RaceErrors() int             { return runtime.RaceErrors() }

func RaceReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func RaceWriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
