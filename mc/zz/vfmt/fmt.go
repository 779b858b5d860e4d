// Package vfmt replaces printing to standard output.
package vfmt

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// Sink receives what the program prints; nil discards it.
var Sink func(s string)

func emit(s string) (int, error) {
	if Sink != nil {
		vrt.HistOp(vrt.HashStr(s))
		Sink(s)
	}
	return len(s), nil
}

func Printf(f string, a ...interface{}) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return emit(fmt.Sprintf(f, a...))
}

func Print(a ...interface{}) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return emit(fmt.Sprint(a...))
}

func Println(a ...interface{}) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return emit(fmt.Sprintln(a...))
}

// Capture collects everything printed while f runs.
func Capture(f func()) string {
	var b strings.Builder
	old := Sink
	Sink = func(s string) { b.WriteString(s) }
	defer func() { Sink = old }()
	f()
	return b.String()
}
