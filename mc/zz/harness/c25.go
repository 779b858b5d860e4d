package main

import (
	"fmt"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vfmt"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

var severities = []string{"debug", "info", "warn", "error", "panic", "trace"}

func logAt(l misc.Logger, sev int, msg string, ctx misc.Dict) {
	[]func(string, misc.Dict){l.Debug, l.Info, l.Warn, l.Error, l.Panic, l.Trace}[sev](msg, ctx)
}

// logged judges one logging call.
func logged(l misc.Logger, level, sev int, prefix, text string, ctx misc.Dict) string {
	var panicked interface{}
	out := vfmt.Capture(func() {
		defer func() { panicked = recover() }()
		logAt(l, sev, text, ctx)
	})
	what := fmt.Sprintf("level %s, prefix %q: %s(%q, %v)", severities[level], prefix, severities[sev], text, ctx)
	if sev < level {
		if out != "" {
			return fmt.Sprintf("%s printed %q", what, out)
		}
		if panicked != nil {
			return fmt.Sprintf("%s panicked although filtered", what)
		}
		return ""
	}
	if (sev == 4) != (panicked != nil) {
		return fmt.Sprintf("%s: panic value %v", what, panicked)
	}
	if panicked != nil && fmt.Sprint(panicked) != text {
		return fmt.Sprintf("%s panicked with %v", what, panicked)
	}
	if !strings.HasSuffix(out, "\n") || strings.Count(out, "\n") != 1 {
		return fmt.Sprintf("%s printed %q, want one line", what, out)
	}
	// each part separately, in this order
	rest := out
	low := strings.ToLower(out)
	if i := strings.Index(low, severities[sev]); i < 0 {
		return fmt.Sprintf("%s printed %q without the level", what, out)
	} else {
		rest = out[i+len(severities[sev]):]
	}
	for _, p := range []string{prefix, text} {
		i := strings.Index(rest, p)
		if i < 0 {
			return fmt.Sprintf("%s printed %q without %q", what, out, p)
		}
		rest = rest[i+len(p):]
	}
	for k, v := range ctx {
		i := strings.Index(rest, k)
		val := fmt.Sprint(v)
		switch x := v.(type) {
		case nil: // shown in some way
			val = ""
		case misc.Dict:
			val = fmt.Sprint(x["inner"])
		}
		if i < 0 || !strings.Contains(rest[i+len(k):], val) {
			return fmt.Sprintf("%s printed %q without field %s=%v", what, out, k, v)
		}
	}
	for _, o := range severities {
		if o != severities[sev] && strings.Contains(strings.ToLower(out[:strings.Index(low, severities[sev])]), o) {
			return fmt.Sprintf("%s printed %q, naming another level", what, out)
		}
	}
	return ""
}

// countingFactory hands out console loggers and counts them per name.
type countingFactory struct {
	n    [3]int
	real misc.LoggerFactory
}

func (f *countingFactory) GetDefaultName() string { return "main" }
func (f *countingFactory) NewLogger(name string, level misc.LogLevel) misc.Logger {
	for i, n := range []string{"main", "one", "two"} {
		if n == name {
			f.n[i]++
		}
	}
	vrt.Point("new logger")
	return f.real.NewLogger(name, level)
}

type flushLogger struct {
	misc.Logger
	flushed int
	name    string
	level   misc.LogLevel
}

func (l *flushLogger) Flush() { l.flushed++ }

type flushFactory struct{ made []*flushLogger }

func (f *flushFactory) GetDefaultName() string { return "main" }
func (f *flushFactory) NewLogger(name string, level misc.LogLevel) misc.Logger {
	l := &flushLogger{Logger: misc.NewConsoleLoggerFactory().NewLogger(name, level), name: name, level: level}
	f.made = append(f.made, l)
	return l
}

func init() {
	reg("C25", func(thorough bool) []*Scn {
		matrix := func(b *B) {
			texts := []string{"", "plain", " Pad  ", "100%d %s", "tab\tand: | ünïcode", strings.Repeat("x", 5000)}
			prefixes := []string{"", "gin", "a%sb", "long-prefix with blanks", " Pad ]["}
			ctxs := []misc.Dict{nil, {}, {"k": "v"}, {"count": 7, "name": "x y"},
				{"alpha": "1|2", "beta": -3, "gamma": "%d", "delta": true}, {"error": fmt.Errorf("boom"), "n": int64(1) << 40},
				{"nothing": nil, "last": 1}, {"zero": 0, "empty": "", "no": false}, {"": "unnamed", "sub": misc.Dict{"inner": 5}}}
			defer func() { vrt.MapOrder = nil }()
			for level := 0; level < 6; level++ {
				for sev := 0; sev < 6; sev++ {
					for _, p := range prefixes {
						for _, t := range texts {
							for _, c := range ctxs {
								orders := 1
								for i := 2; i <= len(c); i++ {
									orders *= i
								}
								for o := 0; o < orders; o++ {
									for src := 0; src < 3; src++ {
										level, sev, p, t, c, o, src := level, sev, p, t, c, o, src
										if b.Stopped() {
											return
										}
										b.Do(func() string {
											misc.VerifInit()
											vrt.MapOrder = func(n int) int {
												if n == len(c) {
													return o
												}
												return 0
											}
											defer func() { vrt.MapOrder = nil }()
											var l misc.Logger
											switch src {
											case 0:
												l = misc.NewConsoleLoggerFactory().NewLogger("n", misc.LogLevel(level))
											case 1:
												misc.SetLevel(misc.LogLevel(level))
												l = misc.GetLogger("some name")
											case 2:
												misc.InitLogger(misc.NewConsoleLoggerFactory(), misc.LogLevel(level))
												l = misc.GetLogger("first asked for afterwards")
											}
											if p != "" {
												if src == 1 {
													l = l.SetPrefix("other")
												}
												l = l.SetPrefix(p)
											}
											return logged(l, level, sev, p, t, c)
										})
									}
								}
							}
						}
					}
				}
			}
		}
		names := func(b *B) {
			for want, n := range severities {
				for m := 0; m < 1<<len(n); m++ {
					x := []byte(n)
					for i := range x {
						if m>>i&1 == 1 {
							x[i] -= 32
						}
					}
					want := want
					b.Do(func() string {
						if got := misc.TransLogLevel(string(x)); int(got) != want {
							return fmt.Sprintf("TransLogLevel(%q) = %d, want %d", x, got, want)
						}
						return ""
					})
				}
			}
			for _, seq := range [][]string{{"a", "a"}, {"a", "b", "a", "b"}, {"", "a", ""}, {"A", "a", "A"}, {"a", "a ", "a"}} {
				seq := seq
				b.Do(func() string {
					misc.VerifInit()
					m := map[string]misc.Logger{}
					for _, n := range seq {
						l := misc.GetLogger(n)
						if l == nil {
							return fmt.Sprintf("GetLogger(%q) = nil", n)
						}
						if m[n] != nil && m[n] != l {
							return fmt.Sprintf("GetLogger(%q) returned another logger than before (names asked for: %q)", n, seq)
						}
						m[n] = l
						if d := misc.GetLogger(); d != misc.GetLogger(misc.NewConsoleLoggerFactory().GetDefaultName()) {
							return "GetLogger() is not the logger of the default name"
						}
					}
					return ""
				})
			}
		}
		// names that look alike are different names
		alike := func(b *B) {
			ns := []string{"a", "A", "a ", " a", "a\n", "aa", "a.log", "a/b", "a\\b", "b/a", "./a", "a/", "ä", "a\u0308", "a\x00", "\x00", "%s", "console", "Console", "default", "main", "Main", "0", "00", pattern(64, 1), pattern(65, 1), pattern(300, 1), pattern(301, 1)}
			for i, x := range ns {
				for j, y := range ns {
					for v := 0; v < 2; v++ {
						i, j, x, y, v := i, j, x, y, v
						b.Do(func() string {
							misc.VerifInit()
							f := &flushFactory{}
							misc.InitLogger(f, misc.WARN)
							if v == 1 { // with the default one made before
								if l, ok := misc.GetLogger().(*flushLogger); !ok || l.name != "main" || l.level != misc.WARN {
									return fmt.Sprintf("GetLogger() = %v, not the factory's logger of its default name", l)
								}
							}
							lx, ly := misc.GetLogger(x), misc.GetLogger(y)
							if (lx == ly) != (i == j) {
								return fmt.Sprintf("the loggers of names %q and %q are the same: %v", x, y, lx == ly)
							}
							for k, l := range []misc.Logger{lx, ly, misc.GetLogger(x), misc.GetLogger(y)} {
								n := []string{x, y}[k%2]
								g, ok := l.(*flushLogger)
								if !ok || g.name != n || g.level != misc.WARN {
									return fmt.Sprintf("GetLogger(%q) = %v, not the factory's logger of that name", n, l)
								}
							}
							return ""
						})
					}
				}
			}
		}
		// much of everything: fields, text, prefix, names
		large := func(b *B) {
			for sev := 0; sev < 6; sev++ {
				for n := 5; n <= 200; n++ {
					sev, n := sev, n
					b.Do(func() string {
						misc.VerifInit()
						c := misc.Dict{}
						for i := 0; i < n; i++ {
							c[fmt.Sprintf("field%03d", i)] = fmt.Sprintf("value%03d.", i)
						}
						l := misc.NewConsoleLoggerFactory().NewLogger("n", misc.LogLevel(sev))
						if n%2 == 1 {
							return logged(l.SetPrefix("pre"), sev, sev, "pre", "text", c)
						}
						return logged(l, sev, sev, "", "text", c)
					})
				}
				for _, n := range []int{63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 1 << 20} {
					for v := 0; v < 3; v++ {
						sev, n, v := sev, n, v
						b.Do(func() string {
							misc.VerifInit()
							l := misc.NewConsoleLoggerFactory().NewLogger("n", misc.LogLevel(sev))
							x := strings.Repeat("0123456789", n/10+1)[:n-1] + "!"
							switch v {
							case 0:
								return logged(l, sev, sev, "", x, misc.Dict{"k": "v"})
							case 1:
								return logged(l.SetPrefix(x), sev, sev, x, "text", misc.Dict{"k": "v"})
							}
							return logged(l.SetPrefix("p"), sev, sev, "p", "text", misc.Dict{"k": x, "l": "y"})
						})
					}
				}
			}
			for _, n := range []int{10, 17, 33, 65, 100, 129, 257, 300, 1000} {
				n := n
				b.Do(func() string {
					misc.VerifInit()
					ls := make([]misc.Logger, n)
					for round := 0; round < 3; round++ {
						for i := range ls {
							l := misc.GetLogger(fmt.Sprint("name", i))
							if round > 0 && l != ls[i] {
								return fmt.Sprintf("GetLogger(\"name%d\") returned another logger than before (%d names in use)", i, n)
							}
							ls[i] = l
						}
					}
					for i := range ls[:n-1] {
						if ls[i] == ls[n-1] {
							return fmt.Sprintf("names %d and %d have the same logger", i, n-1)
						}
					}
					return ""
				})
			}
		}
		// closing flushes every logger handed out
		closing := func(b *B) {
			for n := 0; n <= 40; n++ {
				for again := 0; again < 2; again++ {
					n, again := n, again
					b.Do(func() string {
						misc.VerifInit()
						f := &flushFactory{}
						misc.InitLogger(f, misc.INFO)
						for i := 0; i < n+again; i++ {
							misc.GetLogger(fmt.Sprint("log", i%(n+1)))
						}
						made := len(f.made)
						if err := misc.Close(); err != nil {
							return fmt.Sprintf("Close fails: %v", err)
						}
						for i, l := range f.made[:made] {
							if l.flushed == 0 {
								return fmt.Sprintf("%d loggers handed out, Close does not flush number %d", made, i)
							}
						}
						return ""
					})
				}
			}
		}
		// requests, flushes and level changes in every order
		history := func(b *B, n int) {
			var seq []int
			var rec func()
			rec = func() {
				if len(seq) == n {
					seq := append([]int(nil), seq...)
					b.Do(func() string {
						misc.VerifInit()
						f := &flushFactory{}
						misc.InitLogger(f, misc.ERROR)
						var first [3]misc.Logger
						levelled := false
						for i, op := range seq {
							switch op {
							case 0, 1, 2:
								var l misc.Logger
								if op == 0 {
									l = misc.GetLogger()
								} else {
									l = misc.GetLogger([]string{"", "one", "two"}[op])
								}
								if first[op] != nil && first[op] != l {
									return fmt.Sprintf("operations %v: request %d returns another logger for the same name", seq, i)
								}
								for o, x := range first {
									if o != op && x == l {
										return fmt.Sprintf("operations %v: request %d returns the logger of another name", seq, i)
									}
								}
								if first[op] == nil {
									made, ok := l.(*flushLogger)
									if !ok {
										return fmt.Sprintf("operations %v: request %d returns a logger the factory did not make", seq, i)
									}
									if want := []string{"main", "one", "two"}[op]; made.name != want {
										return fmt.Sprintf("operations %v: request %d for %q returns a logger named %q", seq, i, want, made.name)
									}
									if !levelled && made.level != misc.ERROR {
										return fmt.Sprintf("operations %v: request %d returns a logger of level %d", seq, i, made.level)
									}
								}
								first[op] = l
							case 3:
								before := map[*flushLogger]int{}
								for _, l := range f.made {
									before[l] = l.flushed
								}
								misc.Close()
								for o, l := range first {
									if fl, ok := l.(*flushLogger); ok && fl.flushed == before[fl] {
										return fmt.Sprintf("operations %v: Close (operation %d) does not flush logger %d", seq, i, o)
									}
								}
							case 4:
								levelled = true
								misc.SetLevel(misc.DEBUG)
							case 5:
								for _, l := range first {
									if l != nil {
										l.SetPrefix("p")
									}
								}
							}
						}
						return ""
					})
					return
				}
				for op := 0; op < 6; op++ {
					if b.Stopped() {
						return
					}
					seq = append(seq, op)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
		// several threads ask for loggers, for the first time
		asking := func(nt, per int, factory bool) func() {
			return func() {
				fresh()
				var cf *countingFactory
				if factory {
					cf = &countingFactory{real: misc.NewConsoleLoggerFactory()}
					misc.InitLogger(cf, misc.WARN)
				}
				ask := []func() misc.Logger{
					func() misc.Logger { return misc.GetLogger() },
					func() misc.Logger { return misc.GetLogger("one") },
					func() misc.Logger { return misc.GetLogger("two") },
				}
				sc := scripts(nt, per, len(ask))
				var got [4][4]misc.Logger
				var fs []func()
				for t := 0; t < nt; t++ {
					t := t
					fs = append(fs, func() {
						for i, o := range sc[t] {
							vrt.HistOp(uint64(t*10 + i))
							got[t][i] = ask[o]()
							vrt.HistOp(uint64(t*10+i) + 1000)
							got[t][i].Debug("not printed", nil)
						}
					})
				}
				threads(fs...)
				var first [3]misc.Logger
				for t := 0; t < nt; t++ {
					for i, o := range sc[t] {
						l := got[t][i]
						if l == nil {
							vrt.Fail("no logger returned")
						}
						if first[o] == nil {
							first[o] = l
						}
						if first[o] != l {
							vrt.Fail("two different loggers were returned for the same name")
						}
					}
				}
				for o, l := range first {
					if cf != nil && l != nil && cf.n[o] == 0 {
						vrt.Fail("the logger was not made by the factory the program was initialised with")
					}
					if l != nil && ask[o]() != l {
						vrt.Fail("a later request for the same name returns another logger")
					}
				}
			}
		}
		// using loggers while others are created, levels set, everything flushed
		using := func() {
			fresh()
			misc.InitLogger(misc.NewConsoleLoggerFactory(), misc.INFO)
			var lines int
			vfmt.Sink = func(s string) { lines++ }
			defer func() { vfmt.Sink = nil }()
			ops := []func(t int){
				func(int) { misc.GetLogger("one").Error("text", misc.Dict{"a": 1}) },
				func(int) { misc.GetLogger("one").SetPrefix("p").Error("text", nil) },
				func(int) { misc.Close() },
				func(int) { misc.SetLevel(misc.WARN) },
				func(t int) { misc.GetLogger(fmt.Sprint(t)).Error("text", nil) },
			}
			sc := scripts(2, 2, len(ops))
			want := 0
			var fs []func()
			for t := range sc {
				t := t
				for _, o := range sc[t] {
					if o != 2 && o != 3 {
						want++
					}
				}
				fs = append(fs, func() {
					for _, o := range sc[t] {
						ops[o](t)
					}
				})
			}
			threads(fs...)
			if lines != want {
				vrt.Fail("%d messages at or above the level, %d lines printed", want, lines)
			}
		}
		o := vrt.Opts{DelayAll: true}
		bs := []int{3}
		deep := 5
		if thorough {
			deep = 7
			bs = []int{3, 4, 5}
		}
		s := []*Scn{
			{Name: "severity and level", Bulk: matrix},
			{Name: "level names, logger names", Bulk: names},
			{Name: "names that look alike", Bulk: alike},
			{Name: "closing", Bulk: closing},
			{Name: "many fields, long messages, many names", Bulk: large},
			{Name: fmt.Sprintf("%d requests, flushes, level changes", deep), Bulk: func(b *B) { history(b, deep) }},
			{Name: "first requests, 2 threads x 2", Body: asking(2, 2, false), Opts: o, Bounds: bs, RaceBounds: []int{2}},
			{Name: "first requests, 3 threads, own factory", Body: asking(3, 1, true), Opts: o, Bounds: bs, RaceBounds: []int{2}},
			{Name: "use, create, flush and set levels", Body: using, Opts: o, Bounds: bs, RaceBounds: []int{1}},
		}
		return s
	})
}
