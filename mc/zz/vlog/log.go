// Package vlog replaces the process-ending functions of package log.
package vlog

import (
	"fmt"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func Fatal(a ...interface{})            { vrt.Exit("log.Fatal: " + fmt.Sprint(a...)); die() }
func Fatalf(f string, a ...interface{}) { vrt.Exit("log.Fatal: " + fmt.Sprintf(f, a...)); die() }
func Fatalln(a ...interface{})          { vrt.Exit("log.Fatal: " + fmt.Sprintln(a...)); die() }

func die() {
	if !vrt.Aborting() {
		panic("log.Fatal")
	}
}
