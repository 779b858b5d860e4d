//go:build !race

package vrt

import "unsafe"

const RaceEnabled = false

func raceOff()                    {}
func raceOn()                     {}
func RaceAcq(p unsafe.Pointer)    {}
func RaceRel(p unsafe.Pointer)    {}
func RaceReads(p unsafe.Pointer)  {}
func RaceWrites(p unsafe.Pointer) {}
func RaceErrors() int             { return 0 }

func RaceReadRange(b []byte)  {}
func RaceWriteRange(b []byte) {}
