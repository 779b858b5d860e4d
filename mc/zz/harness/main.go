package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

func arg(name, def string) string {
	for i, a := range os.Args {
		if a == "--"+name && i+1 < len(os.Args) {
			return os.Args[i+1]
		}
	}
	return def
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vmc check|worker|replay|list PROP|FILE [--tier quick] [--race BIN] [--out DIR] ...")
		os.Exit(2)
	}
	log.SetOutput(io.Discard)
	debug.SetMemoryLimit(2 << 30)
	switch os.Args[1] {
	case "worker":
		runtime.GOMAXPROCS(1)
		id, _ := strconv.Atoi(arg("id", "0"))
		dl, _ := strconv.ParseInt(arg("deadline", "0"), 10, 64)
		prop, thorough := os.Args[2], arg("tier", "quick") == "thorough"
		shm := arg("shm", "")
		os.Args = os.Args[:1]
		worker(prop, thorough, id, shm, time.Unix(0, dl))
	case "replay":
		runtime.GOMAXPROCS(1)
		verbose := arg("quiet", "") == ""
		file := os.Args[2]
		os.Args = os.Args[:1]
		os.Exit(doReplay(file, verbose))
	case "list":
		for _, s := range registry[os.Args[2]](arg("tier", "quick") == "thorough") {
			fmt.Println(s.Name, s.Bounds, s.RaceBounds)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

// replayFile identifies one failing execution.
type replayFile struct {
	Property string
	Scenario string
	Tier     string
	Race     bool
	Bound    int
	Case     int64 // bulk case, -1 for schedules
	Choices  []int
	Message  string
	Log      []string
}

func doReplay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	if rf.Race && !vrt.RaceEnabled {
		fmt.Println("this replay needs the race build")
		return 2
	}
	for _, s := range registry[rf.Property](rf.Tier == "thorough") {
		if s.Name != rf.Scenario {
			continue
		}
		if s.Bulk != nil {
			bad := 0
			bb := &B{s: s, of: 1, only: rf.Case, page: make([]uint64, pageWords), deadline: time.Now().Add(time.Hour)}
			bb.viol = func(id uint64, msg string) {
				bad = 1
				fmt.Printf("REPLAY-VIOLATION case %d: %s\n", id, msg)
			}
			resetShims()
			n0 := vrt.RaceErrors()
			s.Bulk(bb)
			if vrt.RaceErrors() > n0 {
				bad = 1
				fmt.Println("REPLAY-VIOLATION data race")
			}
			if bad == 0 {
				fmt.Println("replay: case holds")
			}
			return bad
		}
		o := s.Opts
		o.Bound = rf.Bound
		o.Trace = verbose
		var p []vrt.Dec
		for _, c := range rf.Choices {
			p = append(p, vrt.Dec{N: -1, C: c})
		}
		r := runOnce(s, o, p, nil)
		if verbose {
			for _, l := range r.Log {
				fmt.Println(l)
			}
		}
		if m := judge(s, r); m != "" {
			fmt.Println("REPLAY-VIOLATION", m)
			return 1
		}
		if m := judge(s, runOnce(s, o, p, nil)); m != "" { // once more, now that caches are warm
			fmt.Println("REPLAY-VIOLATION", m)
			return 1
		}
		fmt.Println("replay: execution holds,", r.OutcomeName(), r.Msg)
		return 0
	}
	fmt.Println("no such scenario")
	return 2
}
