package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GalaIO/P2Pcrawler/cmd"
	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vfmt"
	"github.com/GalaIO/P2Pcrawler/zz/vhttp"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vsignal"
)

// snapshot lists the files below the current directory with their contents.
func snapshot() string {
	var out []string
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == "captured" || p == "." {
			return nil
		}
		s := fmt.Sprintf("%s %v", p, fi.Mode())
		if fi.Mode().IsRegular() {
			x, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %q", x)
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// tool runs the whole program with the arguments and without any signal. It
// tells what the program printed, how it failed, and what it did besides.
func tool(b *B, pc programConf, args ...string) (out, failure, deeds string) {
	resetShims()
	vos.Real = true
	var buf strings.Builder
	oldOut, oldErr, oldArgs := os.Stdout, os.Stderr, os.Args
	cap, err := os.OpenFile("captured", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	os.Args = append([]string{"p2pcrawler"}, args...)
	os.Stdout, os.Stderr = cap, cap
	r := vrt.Run(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 20}, nil, nil, func() {
		fresh()
		put(confPath, fmt.Sprintf(`{"dht": %s, "fetchTorrent": %s, "pprof": {"NeedRun": %v}}`,
			dhtVariant(pc.port, pc.workers, pc.hosts...).json, fetchVariant(pc.queue, pc.fetchers).json, pc.pprof > 0))
		startConfig()
		krpc.VerifInit()
		peerwire.VerifInit()
		dht.VerifInit()
		cmd.VerifInit()
		vrt.WaitIdle()
		before := snapshot()
		vfmt.Sink = func(s string) { buf.WriteString(s) }
		returned := false
		t := vrt.GoNamed("main", func() {
			defer func() {
				if p := recover(); p != nil {
					failure = "panic: " + panicStr(p)
				}
				returned = true
			}()
			cmd.ExecuteBackgroud()
		})
		_ = t
		vrt.WaitIdle()
		w := vnet.World()
		switch {
		case !returned:
			deeds = "does not end"
		case len(w.Sent) > 0:
			deeds = fmt.Sprintf("sends a datagram to %v", w.Sent[0].Addr)
		case len(w.Dials) > 0:
			deeds = "connects to " + w.Dials[0]
		case len(vhttp.World().Listening) > 0:
			deeds = "serves HTTP at " + vhttp.World().Listening[0].Addr
		default:
			if after := snapshot(); after != before {
				deeds = fmt.Sprintf("changes files:\n%s\nbefore:\n%s", clip([]byte(after)), clip([]byte(before)))
			}
		}
		if !returned {
			vsignal.Deliver(os.Interrupt)
			vrt.WaitQuiet()
		}
	})
	os.Stdout, os.Stderr, os.Args = oldOut, oldErr, oldArgs
	b.schedules++
	b.steps += uint64(r.Steps)
	if r.Outcome != vrt.OutDone && failure == "" {
		failure = r.OutcomeName() + ": " + r.Msg
	}
	if n, _ := cap.Seek(0, io.SeekEnd); n > 0 {
		cap.Seek(0, io.SeekStart)
		x, _ := io.ReadAll(cap)
		buf.Write(x)
	}
	cap.Close()
	vos.Real = false
	return buf.String(), failure, deeds
}

func init() {
	reg("C31", func(thorough bool) []*Scn {
		tools := func(b *B) {
			v := enc(misc.Dict{"name": "one", "length": 11, "piece length": 12})
			line := func(file string) string {
				l, _, _ := torrentLine(v, file)
				return l
			}
			cases := []struct {
				args []string
				want string // a line of the output
				fail int    // 0 no, 1 yes, 2 either
			}{
				{[]string{"version"}, "version " + config.VersionNum, 0},
				{[]string{"version", "more"}, "version " + config.VersionNum, 2},
				{[]string{"torrent", "good.torrent"}, line("good.torrent"), 0},
				{[]string{"torrent", "dir"}, line("in.torrent"), 0},
				{[]string{"torrent", "empty"}, "", 0},
				{[]string{"torrent", "bad.torrent"}, "", 1},
				{[]string{"torrent", "missing.torrent"}, "", 1},
				{[]string{"torrent"}, "", 2},
				{[]string{"help"}, "torrent", 0},
				{[]string{"--help"}, "torrent", 0},
				{[]string{"-h"}, "version", 0},
				{[]string{"help", "version"}, "version", 0},
				{[]string{"torrent", "--help"}, "torrent", 0},
				{[]string{"no-such-command"}, "", 1},
				{[]string{"--no-such-flag"}, "", 1},
				{[]string{"version", "--no-such-flag"}, "", 1},
				{[]string{"--config", confPath, "version"}, "version " + config.VersionNum, 0},
				{[]string{"version", "--config", confPath}, "version " + config.VersionNum, 0},
				{[]string{"--config", confPath, "torrent", "good.torrent"}, line("good.torrent"), 0},
				{[]string{"torrent", "good.torrent", "--config", confPath}, line("good.torrent"), 0},
			}
			for i := range cases {
				for _, hosts := range [][]string{nil, {"10.0.0.1:1", "10.0.0.2:2"}} {
					for pprof := 0; pprof < 3; pprof++ {
						for _, size := range [][3]int{{1, 1, 0}, {3, 2, 5}, {20, 10, 100}} {
							for _, port := range []int{1, 21000, 65535} {
								c := cases[i]
								pc := programConf{port, size[0], size[1], size[2], hosts, pprof}
								b.Do(func() string {
									wipe()
									put("good.torrent", v)
									put("bad.torrent", v[:9])
									put("dir/in.torrent", v)
									os.Mkdir("empty", 0o755)
									out, fail, deeds := tool(b, pc, c.args...)
									what := fmt.Sprintf("p2pcrawler %s", strings.Join(c.args, " "))
									switch {
									case deeds != "":
										return fmt.Sprintf("%s (%d bootstrap nodes): %s", what, len(hosts), deeds)
									case c.fail == 0 && fail != "":
										return fmt.Sprintf("%s fails: %s", what, fail)
									case c.fail == 1 && fail == "":
										return fmt.Sprintf("%s prints %q and does not fail", what, clip([]byte(out)))
									case fail == "" && !strings.Contains(out, c.want):
										return fmt.Sprintf("%s prints %q, want %q", what, clip([]byte(out)), c.want)
									case c.want == "" && strings.Contains(out, "||"):
										return fmt.Sprintf("%s prints %q", what, clip([]byte(out)))
									}
									return ""
								})
							}
						}
					}
				}
			}
		}
		return []*Scn{{Name: "commands that only print", Bulk: tools}}
	})
}
