package main

import (
	"encoding/json"
	"fmt"
	"net"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vlumber"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// fileLog collects what file loggers write.
type fileLog struct {
	file, line [64]string
	n          int
}

func watchFiles() *fileLog {
	l := &fileLog{}
	vlumber.Sink = func(file, line string) {
		if l.n < len(l.line) {
			l.file[l.n], l.line[l.n] = file, line
		}
		l.n++
	}
	return l
}

// fileRecord judges one line against one logging call.
func fileRecord(line string, sev int, prefix, text string, ctx misc.Dict) string {
	if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") {
		return "not one line"
	}
	var m map[string]interface{}
	dec := json.NewDecoder(strings.NewReader(line))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil || dec.More() {
		return "not one JSON object"
	}
	want := text
	if prefix != "" {
		want = "[" + prefix + "]" + text
	}
	if m["msg"] != want {
		return fmt.Sprintf("message %q, want %q", m["msg"], want)
	}
	lvl, _ := m["level"].(string)
	if sev < 5 && strings.ToLower(lvl) != severities[sev] || lvl == "" {
		return fmt.Sprintf("level %q", lvl)
	}
	for _, o := range severities {
		if sev == 5 && o != "trace" && strings.ToLower(lvl) == o {
			return fmt.Sprintf("level %q", lvl)
		}
	}
	for k, v := range ctx {
		got, ok := m[k]
		if !ok {
			return fmt.Sprintf("no field %q", k)
		}
		var w string
		switch x := v.(type) {
		case error:
			w = x.Error()
		default:
			w = fmt.Sprint(x)
		}
		if fmt.Sprint(got) != w {
			return fmt.Sprintf("field %q is %v, want %v", k, got, w)
		}
	}
	for k := range m {
		if _, ok := ctx[k]; !ok && k != "msg" && k != "level" && k != "ts" && k != "caller" && k != "logger" && k != "stacktrace" && !strings.HasSuffix(k, "Verbose") {
			return fmt.Sprintf("unasked field %q", k)
		}
	}
	return ""
}

func init() {
	reg("C30", func(thorough bool) []*Scn {
		levels := []struct {
			name string
			min  int
		}{{"DEBUG", 0}, {"INFO", 1}, {"info", 1}, {"ERROR", 3}, {"PANIC", 4}, {"", 1}, {"bogus", 1}}
		matrix := func(b *B) {
			texts := []string{"", "plain", " Pad \n", "100%d %s \"quoted\" \\", "tab\tand\nnewline | ünïcode", strings.Repeat("x", 5000)}
			prefixes := []string{"", "gin", "a%sb", "long prefix \"", " Pad ]["}
			ctxs := []misc.Dict{nil, {}, {"k": "v"}, {"count": 7, "name": "x y"}, {"alpha": "1|2", "beta": -3, "gamma": "%d", "delta": true},
				{"err": fmt.Errorf("boom"), "n": int64(1) << 60}, {"a": 1, "b": 2, "c": 3, "d": 4, "e": 5, "f": 6},
				{"nothing": nil, "last": 1}, {"zero": 0, "empty": "", "no": false}, {"addr": &net.UDPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}, "took": 0.5}}
			defer func() { vrt.MapOrder = nil }()
			for _, lv := range levels {
				for sev := 0; sev < 6; sev++ {
					for _, p := range prefixes {
						for _, t := range texts {
							for ci, c := range ctxs {
								orders := 1
								for i := 2; i <= len(c); i++ {
									orders *= i
								}
								if orders > 24 && (p != "" || t != "plain") {
									orders = 24
								}
								for o := 0; o < orders; o++ {
									lv, sev, p, t, c, o := lv, sev, p, t, c, o
									name := []string{"infohash", "a", "some-name", "Some.Name"}[ci%4]
									if b.Stopped() {
										return
									}
									b.Do(func() string {
										misc.VerifInit()
										log := watchFiles()
										vrt.MapOrder = func(n int) int {
											if n == len(c) {
												return o
											}
											return 0
										}
										defer func() { vrt.MapOrder, vlumber.Sink = nil, nil }()
										l := misc.NewZapLogger(name, lv.name)
										if p != "" {
											l = l.SetPrefix("other").SetPrefix(p)
										}
										var panicked interface{}
										func() {
											defer func() { panicked = recover() }()
											logAt(l, sev, t, c)
										}()
										what := fmt.Sprintf("file logger %s, level %q, prefix %q: %s(%.40q, %v)", name, lv.name, p, severities[sev], t, c)
										if (sev == 4) != (panicked != nil) {
											return fmt.Sprintf("%s: panic value %v", what, panicked)
										}
										if panicked != nil && !strings.Contains(fmt.Sprint(panicked), t) {
											return fmt.Sprintf("%s panics with %v", what, panicked)
										}
										if sev < lv.min {
											if log.n != 0 {
												return fmt.Sprintf("%s appends %q", what, log.line[0])
											}
											return ""
										}
										if log.n != 1 {
											return fmt.Sprintf("%s appends %d lines", what, log.n)
										}
										if log.file[0] != "logs/"+name+".log" {
											return fmt.Sprintf("%s writes to %q", what, log.file[0])
										}
										if m := fileRecord(log.line[0], sev, p, t, c); m != "" {
											return fmt.Sprintf("%s appends %q: %s", what, log.line[0], m)
										}
										return ""
									})
								}
							}
						}
					}
				}
			}
		}
		// many fields, long messages, many messages
		large := func(b *B) {
			one := func(sev int, prefix, text string, c misc.Dict) {
				b.Do(func() string {
					misc.VerifInit()
					log := watchFiles()
					defer func() { vlumber.Sink = nil }()
					l := misc.NewZapLogger("big", "DEBUG")
					if prefix != "" {
						l = l.SetPrefix(prefix)
					}
					func() {
						defer func() { recover() }()
						logAt(l, sev, text, c)
					}()
					if log.n != 1 {
						return fmt.Sprintf("message of %d bytes with %d fields, prefix of %d bytes at severity %s appends %d lines", len(text), len(c), len(prefix), severities[sev], log.n)
					}
					if m := fileRecord(log.line[0], sev, prefix, text, c); m != "" {
						return fmt.Sprintf("message of %d bytes with %d fields, prefix of %d bytes at severity %s: %.200s", len(text), len(c), len(prefix), severities[sev], m)
					}
					return ""
				})
			}
			for sev := 0; sev < 6; sev++ {
				for n := 1; n <= 200; n++ {
					c := misc.Dict{}
					for i := 0; i < n; i++ {
						c[fmt.Sprintf("field%03d", i)] = []interface{}{i, fmt.Sprint("value ", i)}[i%2]
					}
					one(sev, []string{"", "pre"}[n%2], "text", c)
				}
				for _, n := range []int{63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 1 << 20} {
					x := strings.Repeat("0123456789", n/10+1)[:n-1] + "!"
					one(sev, "", x, misc.Dict{"k": "v"})
					one(sev, x, "text", misc.Dict{"k": "v"})
					one(sev, "p", "text", misc.Dict{"k": x, "l": "y"})
				}
			}
			for _, n := range []int{65, 100, 101, 256, 257, 1000, 3000} {
				for v := 0; v < 3; v++ {
					n, v := n, v
					b.Do(func() string {
						misc.VerifInit()
						log := watchFiles()
						defer func() { vlumber.Sink = nil }()
						l := misc.NewZapLogger("many", "INFO")
						for i := 0; i < n; i++ {
							log.n = 0
							text, p := "the same", ""
							if v > 0 {
								text = fmt.Sprint("message ", i)
							}
							if v == 2 {
								p = fmt.Sprint("p", i%7)
								l = l.SetPrefix(p)
							}
							c := misc.Dict{"i": i * v}
							logAt(l, 1, text, c)
							if log.n != 1 {
								return fmt.Sprintf("message %d in a row appends %d lines", i, log.n)
							}
							if m := fileRecord(log.line[0], 1, p, text, c); m != "" {
								return fmt.Sprintf("message %d in a row: %s", i, m)
							}
						}
						return ""
					})
				}
			}
		}
		// what is written stays: 100 MiB of messages, and single ones of many MiB
		volume := func(b *B) {
			for _, x := range []struct{ n, size int }{{200, 512 << 10}, {30, 3 << 20}, {2, 24 << 20}} {
				for v := 0; v < 2; v++ {
					x, v := x, v
					b.Do(func() string {
						misc.VerifInit()
						disk := vlumber.NewDisk()
						written := 0
						vlumber.Kept = disk
						vlumber.Sink = func(file, line string) { written++ }
						defer func() { vlumber.Kept, vlumber.Sink = nil, nil }()
						l := misc.NewZapLogger("infohash", "INFO")
						for i := 0; i < x.n; i++ {
							if v == 0 {
								l.Info(strings.Repeat("x", x.size), nil)
							} else {
								l.SetPrefix("p").Error("text", misc.Dict{"k": strings.Repeat("y", x.size)})
							}
						}
						if disk.Lost > 0 || written != x.n {
							return fmt.Sprintf("of %d messages of %d bytes %d are written, and of those %d are lost when the log files are rotated", x.n, x.size, written, disk.Lost)
						}
						return ""
					})
				}
			}
		}
		// several loggers of two files, plain and prefixed, used one after the other
		seqs := func(b *B, n int) {
			var seq []int
			var rec func()
			rec = func() {
				if len(seq) == n {
					seq := append([]int(nil), seq...)
					b.Do(func() string {
						misc.VerifInit()
						log := watchFiles()
						defer func() { vlumber.Sink = nil }()
						a, c := misc.NewZapLogger("a", "INFO"), misc.NewZapLogger("c", "ERROR")
						ls := []misc.Logger{a, a.SetPrefix("one"), a.SetPrefix("two"), c, c.SetPrefix("one")}
						fs := []string{"a", "a", "a", "c", "c"}
						ps := []string{"", "one", "two", "", "one"}
						for i, op := range seq {
							if op == 15 { // derive a logger from a prefixed one
								ls[1].SetPrefix("three")
								continue
							}
							if op == 16 { // and use it
								ls[0], ps[0] = ls[2].SetPrefix("four"), "four"
								continue
							}
							k, sev := op/3, []int{0, 1, 3}[op%3]
							text, ctx := fmt.Sprint("message ", i), misc.Dict{fmt.Sprint("i", i): i}
							before := log.n
							logAt(ls[k], sev, text, ctx)
							want := sev > 1 || sev == 1 && k < 3
							if want != (log.n == before+1) || !want && log.n != before {
								return fmt.Sprintf("loggers and severities %v: call %d appends %d lines", seq, i, log.n-before)
							}
							if want && log.file[before] != "logs/"+fs[k]+".log" {
								return fmt.Sprintf("loggers and severities %v: call %d writes to %q", seq, i, log.file[before])
							}
							if want {
								if m := fileRecord(log.line[before], sev, ps[k], text, ctx); m != "" {
									return fmt.Sprintf("loggers and severities %v: call %d appends %q: %s", seq, i, log.line[before], m)
								}
							}
							ls[k].Flush()
						}
						return ""
					})
					return
				}
				for op := 0; op < 17; op++ {
					if b.Stopped() {
						return
					}
					seq = append(seq, op)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
		// threads sharing a file and a logger
		using := func(nt, per int) func() {
			return func() {
				fresh()
				log := watchFiles()
				defer func() { vlumber.Sink = nil }()
				l := misc.NewZapLogger("shared", "INFO")
				pre := l.SetPrefix("pre")
				sc := scripts(nt, per, 4)
				var fs []func()
				for t := 0; t < nt; t++ {
					t := t
					fs = append(fs, func() {
						for i, op := range sc[t] {
							ctx := misc.Dict{"t": t, "i": i, "op": op}
							vrt.Point("log")
							vrt.HistOp(uint64(t*10 + i))
							switch op {
							case 0:
								l.Info("plain", ctx)
							case 1:
								pre.Error("prefixed", ctx)
							case 2:
								l.SetPrefix(fmt.Sprint("own", t)).Info("own", ctx)
							case 3:
								l.Debug("filtered", ctx)
								l.Flush()
							}
						}
					})
				}
				threads(fs...)
				used := 0
				for t := 0; t < nt; t++ {
					for i, op := range sc[t] {
						ctx := misc.Dict{"t": t, "i": i, "op": op}
						found := 0
						for k := 0; k < log.n && k < len(log.line); k++ {
							switch op {
							case 0:
								if fileRecord(log.line[k], 1, "", "plain", ctx) == "" {
									found++
								}
							case 1:
								if fileRecord(log.line[k], 3, "pre", "prefixed", ctx) == "" {
									found++
								}
							case 2:
								if fileRecord(log.line[k], 1, fmt.Sprint("own", t), "own", ctx) == "" {
									found++
								}
							}
						}
						if op != 3 {
							used++
							if found != 1 {
								vrt.Fail("message %d of thread %d is recorded %d times in %q", i, t, found, log.line[:log.n])
							}
						}
					}
				}
				if used != log.n {
					vrt.Fail("%d messages leave %d lines: %q", used, log.n, log.line[:log.n])
				}
			}
		}
		n := 3
		bs := []int{2, 3}
		if thorough {
			n, bs = 5, []int{2, 3, 4}
		}
		o := vrt.Opts{DelayAll: true}
		return []*Scn{
			{Name: "severity, level, prefix, fields", Bulk: matrix},
			{Name: "many fields, long messages, many messages", Bulk: large},
			{Name: "100 MiB of messages", Bulk: volume},
			{Name: fmt.Sprintf("sequences of %d messages through five loggers of two files", n), Bulk: func(b *B) { seqs(b, n) }},
			{Name: "2 threads x 2 messages", Body: using(2, 2), Opts: o, Bounds: bs, RaceBounds: []int{1}},
			{Name: "3 threads x 1 message", Body: using(3, 1), Opts: o, Bounds: bs, RaceBounds: []int{1}},
		}
	})
}
