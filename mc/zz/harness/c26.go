package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/GalaIO/P2Pcrawler/cmd"
	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
	"github.com/GalaIO/P2Pcrawler/zz/vsignal"
	"github.com/spf13/viper"
)

// the configuration sections, in the order of the accessors
var sectionKeys = [4]string{"dht", "fetchTorrent", "pprof", "logger"}

// settings are the values of all sections, as text.
type settings [4]string

func dhtText(port, workers int, nodes []string) string {
	return fmt.Sprintf("port %d, workers %d, bootstrap %q", port, workers, nodes)
}

func fetchText(queue, workers int) string {
	return fmt.Sprintf("queue %d, workers %d", queue, workers)
}

var documented = settings{dhtText(21000, 2000, []string{"87.98.162.88:6881"}), fetchText(300000, 500), "true", "Info"}

// section reads one section from the program.
func section(i int) string {
	switch i {
	case 0:
		c := config.DhtConfig()
		return dhtText(c.Port, c.WorkPoolSize, c.BootstrapNodes)
	case 1:
		c := config.FetchTorrentConfig()
		return fetchText(c.InfoHashQueueSize, c.WorkPoolSize)
	case 2:
		return fmt.Sprint(config.PProfConfig().NeedRun)
	}
	return config.LoggerConfig().Level
}

// variant is one way a section appears in a file.
type variant struct {
	json string // "" when absent
	text string
}

func dhtVariant(port, workers int, nodes ...string) variant {
	if nodes == nil {
		nodes = []string{}
	}
	j, _ := json.Marshal(map[string]interface{}{"Port": port, "WorkPoolSize": workers, "BootstrapNodes": nodes})
	return variant{string(j), dhtText(port, workers, nodes)}
}

func manyHosts(n int) (hs []string) {
	for i := 0; i < n; i++ {
		hs = append(hs, fmt.Sprintf("10.0.%d.%d:%d", i/200, i%200+1, 1000+i))
	}
	return
}

func fetchVariant(queue, workers int) variant {
	return variant{fmt.Sprintf(`{"InfoHashQueueSize": %d, "WorkPoolSize": %d}`, queue, workers), fetchText(queue, workers)}
}

func pprofVariant(b bool) variant { return variant{fmt.Sprintf(`{"NeedRun": %v}`, b), fmt.Sprint(b)} }

func loggerVariant(l string) variant {
	j, _ := json.Marshal(l)
	return variant{`{"Level": ` + string(j) + `}`, l}
}

var variants = [4][]variant{
	{{}, dhtVariant(21001, 7, "10.0.0.1:1", "10.0.0.2:2"), dhtVariant(1, 1), dhtVariant(65535, 100000, "router.example:6881"), dhtVariant(21000, 2000, "87.98.162.88:6881"), dhtVariant(0, 0, "", "a", "a")},
	{{}, fetchVariant(5, 9), fetchVariant(0, 1), fetchVariant(1<<40, 499), fetchVariant(300000, 500)},
	{{}, pprofVariant(false), pprofVariant(true)},
	{{}, loggerVariant("Debug"), loggerVariant("Error"), loggerVariant(""), loggerVariant("Info"), loggerVariant("日志")},
}

// confFile is a configuration file's contents and what it means.
type confFile struct {
	text string
	want settings
	name string
}

func mkConf(pick [4]int, lower bool) confFile {
	var parts []string
	c := confFile{want: documented, name: fmt.Sprint(pick)}
	for i, k := range pick {
		v := variants[i][k]
		if k == 0 {
			continue
		}
		key, j := sectionKeys[i], v.json
		if lower {
			key = strings.ToLower(key)
			for _, f := range []string{"Port", "WorkPoolSize", "BootstrapNodes", "InfoHashQueueSize", "NeedRun", "Level"} {
				j = strings.Replace(j, `"`+f+`"`, `"`+strings.ToLower(f)+`"`, 1)
			}
		}
		parts = append(parts, fmt.Sprintf("%q: %s", key, j))
		c.want[i] = v.text
	}
	c.text = "{" + strings.Join(parts, ",\n  ") + "}"
	return c
}

// startConfig is what happens when the program starts: package config is initialised.
func startConfig() {
	viper.Reset()
	config.VerifInit()
}

func wipe() {
	syscall.Umask(0o022)
	d := mustWd()
	es, _ := os.ReadDir(".")
	for _, e := range es {
		os.RemoveAll(filepath.Join(d, e.Name()))
	}
}

func put(path, text string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// agrees reads the sections of mask and compares them.
func agrees(what string, mask int, want settings) string {
	for i := 0; i < 4; i++ {
		if mask>>i&1 == 0 {
			continue
		}
		if got := section(i); got != want[i] {
			return fmt.Sprintf("%s: section %s is %s, want %s", what, sectionKeys[i], got, want[i])
		}
	}
	return ""
}

const confPath = "conf/config.json"

// created judges the file the program created.
func created(what string) string {
	b, err := os.ReadFile(confPath)
	if err != nil {
		return fmt.Sprintf("%s: no configuration file exists and none is created: %v", what, err)
	}
	// the program can read and the user can edit it (this runs as root)
	if fi, err := os.Stat(confPath); err == nil && fi.Mode()&0o600 != 0o600 {
		return fmt.Sprintf("%s: the created file has mode %v", what, fi.Mode())
	}
	if fi, err := os.Stat(filepath.Dir(confPath)); err == nil && fi.Mode()&0o700 != 0o700 {
		return fmt.Sprintf("%s: the directory of the created file has mode %v", what, fi.Mode())
	}
	var m map[string]map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return fmt.Sprintf("%s: the created file holds %q: %v", what, clip(b), err)
	}
	get := func(s, f string) interface{} {
		for k, v := range m {
			if strings.EqualFold(k, s) {
				for q, x := range v {
					if strings.EqualFold(q, f) {
						return x
					}
				}
			}
		}
		return nil
	}
	for _, x := range []struct{ s, f, want string }{{"dht", "Port", "21000"}, {"dht", "WorkPoolSize", "2000"}, {"dht", "BootstrapNodes", "[87.98.162.88:6881]"}, {"fetchTorrent", "InfoHashQueueSize", "300000"}, {"fetchTorrent", "WorkPoolSize", "500"}, {"pprof", "NeedRun", "true"}, {"logger", "Level", "Info"}} {
		if got := fmt.Sprint(get(x.s, x.f)); got != x.want {
			return fmt.Sprintf("%s: the created file has %s for %s.%s, want %s", what, got, x.s, x.f, x.want)
		}
	}
	return ""
}

func init() {
	reg("C26", func(thorough bool) []*Scn {
		real := func(f func() string) func() string {
			return func() (m string) {
				resetShims()
				vos.Real = true
				defer func() {
					vos.Real = false
					if p := recover(); p != nil {
						m = "panic: " + panicStr(p)
					}
				}()
				fresh()
				wipe()
				return f()
			}
		}
		var all []confFile
		for a := range variants[0] {
			for b := range variants[1] {
				for c := range variants[2] {
					for d := range variants[3] {
						all = append(all, mkConf([4]int{a, b, c, d}, (a+b+c+d)%2 == 1))
					}
				}
			}
		}
		single := func(b *B) {
			for _, f := range all {
				for _, mask := range []int{15, 1, 2, 4, 8} {
					f, mask := f, mask
					b.Do(real(func() string {
						put(confPath, f.text)
						startConfig()
						what := fmt.Sprintf("file %s", f.text)
						if m := agrees(what, mask, f.want); m != "" {
							return m
						}
						if m := agrees(what+", read again", 15, f.want); m != "" {
							return m
						}
						config.ResetConfig()
						if m := agrees(what+", re-read", 15, f.want); m != "" {
							return m
						}
						startConfig()
						return agrees(what+", restarted", 15, f.want)
					}))
				}
			}
			// other things in the file
			for _, extra := range []string{`"other": {"Port": 1}`, `"zz": 5`, `"dht2": {"Port": 9}`, `"Level": "Warn", "Port": 3, "NeedRun": false`} {
				for _, f := range all[:60] {
					f, extra := f, extra
					b.Do(real(func() string {
						t := "{" + extra + strings.TrimSuffix(", "+f.text[1:], ", }")
						if f.text == "{}" {
							t = "{" + extra + "}"
						}
						put(confPath, t)
						startConfig()
						return agrees("file "+t, 15, f.want)
					}))
				}
			}
		}
		missing := func(b *B) {
			for v := 0; v < 6; v++ {
				for mask := 0; mask < 16; mask++ {
					v, mask := v, mask
					b.Do(real(func() string {
						switch v {
						case 1:
							os.Mkdir("conf", 0o755)
						case 2:
							put("conf/other.json", "{}")
						case 3:
							put("config.json", `{"dht": {"Port": 1, "WorkPoolSize": 2, "BootstrapNodes": []}}`)
						case 4:
							put("conf/config.json.bak", `{"logger": {"Level": "Error"}}`)
						case 5:
							syscall.Umask(0o077)
						}
						startConfig()
						what := fmt.Sprintf("no configuration file (%d)", v)
						if m := created(what); m != "" {
							return m
						}
						if m := agrees(what, mask, documented); m != "" {
							return m
						}
						if m := agrees(what, 15, documented); m != "" {
							return m
						}
						config.ResetConfig()
						if m := agrees(what+", read back", 15, documented); m != "" {
							return m
						}
						startConfig()
						if m := agrees(what+", restarted", 15, documented); m != "" {
							return m
						}
						// the created file, edited by the user
						bs, _ := os.ReadFile(confPath)
						t := strings.NewReplacer("21000", "21007", ": 500", ": 501", `"Info"`, `"Warn"`).Replace(string(bs))
						put(confPath, t)
						startConfig()
						return agrees("the created file, edited", 15, settings{dhtText(21007, 2000, []string{"87.98.162.88:6881"}), fetchText(300000, 501), "true", "Warn"})
					}))
				}
			}
			// nothing, then a file
			for _, f := range all {
				f := f
				b.Do(real(func() string {
					startConfig()
					if m := agrees("no file", 15, documented); m != "" {
						return m
					}
					put(confPath, f.text)
					config.ResetConfig()
					return agrees("file "+f.text+" instead of the created one", 15, f.want)
				}))
			}
		}
		// how the next file is announced
		load := func(how, n int, f confFile) {
			switch how {
			case 0: // replaced in place
				put(viper0(), f.text)
			case 1: // another file is named
				p := fmt.Sprintf("f%d.json", n)
				put(p, f.text)
				viper.SetConfigFile(p)
			case 2: // in another directory
				p := filepath.Join(mustWd(), fmt.Sprintf("dir%d/my.json", n))
				put(p, f.text)
				viper.SetConfigFile(p)
			}
			config.ResetConfig()
		}
		reloads := func(files []confFile, depth int, masks []int) func(b *B) {
			return func(b *B) {
				var seq []int
				var rec func()
				rec = func() {
					if b.Stopped() {
						return
					}
					if len(seq) == depth {
						s := append([]int(nil), seq...)
						for how := 0; how < 3; how++ {
							for _, mask := range masks {
								how, mask := how, mask
								b.Do(real(func() string {
									put(confPath, files[s[0]].text)
									startConfig()
									var done []string
									for i, k := range s {
										if i > 0 {
											load(how, i, files[k])
										}
										done = append(done, files[k].text)
										m := mask
										if i == len(s)-1 {
											m = 15
										}
										if e := agrees(fmt.Sprintf("files %q one after another (%d), sections %04b read in between", done, how, mask), m, files[k].want); e != "" {
											return e
										}
									}
									return ""
								}))
							}
						}
						return
					}
					for k := range files {
						seq = append(seq, k)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}
		var some, few []confFile
		for m := 0; m < 16; m++ {
			for v := 1; v < 3; v++ {
				var p [4]int
				for i := range p {
					if m>>i&1 == 1 {
						p[i] = v
					}
				}
				f := mkConf(p, v == 2)
				some = append(some, f)
				if v == 1 || m == 15 || m == 5 {
					few = append(few, f)
				}
			}
		}
		// the program is started with --config
		commandLine := func(b *B) {
			hosts := [][]string{{}, {"10.0.0.1:1"}, {"10.0.0.1:1", "10.0.0.2:2"}, {"10.0.0.3:65535", "10.0.0.4:4", "10.0.0.5:5"}, {"10.0.0.1:1", "10.0.0.1:1"}, manyHosts(70)}
			for hi, hs := range hosts {
				for before := 0; before < len(all); before += 7 {
					for style := 0; style < 4; style++ {
						for _, mask := range []int{0, 15, 1} {
							hi, hs, before, style, mask := hi, hs, before, style, mask
							b.Do(func() (m string) {
								resetShims()
								vos.Real = true
								wipe()
								dv := dhtVariant(30000+hi, 3, hs...)
								text := `{"dht": ` + dv.json + `, "pprof": {"NeedRun": false}}`
								want := settings{dv.text, documented[1], "false", documented[3]}
								put(confPath, all[before].text)
								named := "mine.json"
								switch style {
								case 1:
									named = filepath.Join(mustWd(), "etc", "p2p.json")
								case 2:
									named = "./etc/x.json"
								case 3: // the default one
									named = ""
									put(confPath, text)
								}
								if named != "" {
									put(named, text)
								}
								old := os.Args
								defer func() { os.Args = old; vos.Real = false }()
								os.Args = []string{"p2pcrawler"}
								if named != "" {
									os.Args = append(os.Args, []string{"--config=" + named, "--config"}[hi%2])
									if hi%2 == 1 {
										os.Args = append(os.Args, named)
									}
								}
								what := fmt.Sprintf("started with %q, naming %s, over %s", os.Args[1:], text, all[before].text)
								r := vrt.Run(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 20}, nil, nil, func() {
									fresh()
									startConfig()
									first := all[before].want
									if style == 3 {
										first = want
									}
									if e := agrees(what+": before", mask, first); e != "" {
										vrt.Fail("%s", e)
									}
									// the packages of the node are initialised before the command line is read
									krpc.VerifInit()
									peerwire.VerifInit()
									config.DhtConfig().WorkPoolSize = 1 + config.DhtConfig().WorkPoolSize%3
									config.FetchTorrentConfig().WorkPoolSize = 2
									config.FetchTorrentConfig().InfoHashQueueSize = 4
									dht.VerifInit()
									cmd.VerifInit()
									w := vnet.World()
									vrt.GoNamed("main", cmd.ExecuteBackgroud)
									vrt.WaitIdle()
									if e := agrees(what, 15, want); e != "" {
										vrt.Fail("%s", e)
									}
									var to []string
									for _, p := range w.Sent {
										to = append(to, p.Addr.String())
										if d := decoded(p.Data); d["q"] != "find_node" {
											vrt.Fail("%s: %q is sent", what, clip(p.Data))
										}
									}
									if fmt.Sprint(to) != fmt.Sprint(hs) {
										vrt.Fail("%s: queries go to %q, the bootstrap nodes are %q", what, to, hs)
									}
									vsignal.Deliver(syscall.SIGTERM)
									vrt.WaitIdle()
								})
								b.schedules++
								b.steps += uint64(r.Steps)
								return judge(nil, r)
							})
						}
					}
				}
			}
		}
		// what is in the environment is not in the file
		environment := func(b *B) {
			var names []string
			for _, s := range sectionKeys {
				names = append(names, s)
				for _, f := range []string{"Port", "WorkPoolSize", "BootstrapNodes", "InfoHashQueueSize", "NeedRun", "Level"} {
					for _, sep := range []string{"_", ".", "", "__"} {
						names = append(names, s+sep+f)
					}
					names = append(names, f)
				}
			}
			for _, n := range names[:len(names):len(names)] {
				names = append(names, strings.ToUpper(n))
			}
			for _, n := range names[:len(names):len(names)] {
				names = append(names, "P2PCRAWLER_"+n, "P2P_"+n, "CRAWLER_"+n)
			}
			names = append(names, "CONFIG", "CONFIG_FILE", "P2PCRAWLER_CONFIG", "CONF")
			for v, val := range []string{"7", "false", "x.json", "10.0.0.9:9", `{"Port": 5, "WorkPoolSize": 5}`} {
				for k := -1; k < len(all); k += 5 {
					val, k := val, k
					b.Do(real(func() string {
						for _, n := range names {
							os.Setenv(n, val)
						}
						defer func() {
							for _, n := range names {
								os.Unsetenv(n)
							}
						}()
						put("x.json", `{"dht": {"Port": 1, "WorkPoolSize": 2, "BootstrapNodes": []}}`)
						f := confFile{want: documented}
						if k >= 0 {
							f = all[k]
							put(confPath, f.text)
						}
						startConfig()
						what := fmt.Sprintf("file %q, the environment (%d) sets every name to %q", f.text, v, val)
						if m := agrees(what, 15, f.want); m != "" {
							return m
						}
						config.ResetConfig()
						return agrees(what+", re-read", 15, f.want)
					}))
				}
			}
		}
		// the file is re-read many times
		many := func(b *B) {
			for how := 0; how < 3; how++ {
				for _, mask := range []int{15, 0, 9} {
					how, mask := how, mask
					b.Do(real(func() string {
						put(confPath, all[0].text)
						startConfig()
						for i := 1; i < 300; i++ {
							f := all[i*7%len(all)]
							load(how, i, f)
							m := mask
							if i%100 > 97 {
								m = 15
							}
							if e := agrees(fmt.Sprintf("re-read %d times (%d)", i, how), m, f.want); e != "" {
								return e
							}
						}
						return ""
					}))
				}
			}
		}
		// sections read by several threads
		readers := func(n int, reset bool) func() {
			return func() {
				vos.Real = true
				fresh()
				wipe()
				a, c := mkConf([4]int{1, 1, 1, 1}, false), mkConf([4]int{2, 0, 2, 2}, true)
				put(confPath, a.text)
				startConfig()
				var fs []func()
				var got [4][4]string
				for t := 0; t < n; t++ {
					t := t
					fs = append(fs, func() {
						for i := 0; i < 2; i++ {
							got[t][i] = section((t + i*(t+1)) % 4)
						}
					})
				}
				if reset {
					put(confPath, c.text)
					fs = append(fs, func() {
						config.ResetConfig()
						if e := agrees("after re-reading", 3, c.want); e != "" {
							vrt.Fail("%s", e)
						}
					})
				}
				threads(fs...)
				for t := 0; t < n; t++ {
					for i := 0; i < 2; i++ {
						k := (t + i*(t+1)) % 4
						if g := got[t][i]; g != a.want[k] && !(reset && g == c.want[k]) {
							vrt.Fail("reading section %s next to other threads gives %q", sectionKeys[k], g)
						}
					}
				}
				want := a.want
				if reset {
					want = c.want
				}
				if e := agrees("after reading in several threads", 15, want); e != "" {
					vrt.Fail("%s", e)
				}
				vos.Real = false
			}
		}
		depth, dm := 3, []int{15, 0}
		if thorough {
			dm = []int{15, 0, 1, 2, 4, 8, 3, 12}
		}
		o := vrt.Opts{NoEarly: true, Patient: true}
		masks := []int{}
		for m := 0; m < 16; m++ {
			masks = append(masks, m)
		}
		r := []int{2}
		return []*Scn{
			{Name: "one file", Bulk: single},
			{Name: "no file", Bulk: missing},
			{Name: "two files", Bulk: reloads(some, 2, masks)},
			{Name: "three files", Bulk: reloads(few, depth, dm)},
			{Name: "command line", Bulk: commandLine},
			{Name: "environment", Bulk: environment},
			{Name: "re-read many times", Bulk: many},
			{Name: "2 readers", Body: readers(2, false), Opts: o, Bounds: []int{2}, RaceBounds: r},
			{Name: "3 readers", Body: readers(3, false), Opts: o, Bounds: []int{2}, RaceBounds: []int{1}},
			{Name: "2 readers and re-reading", Body: readers(2, true), Opts: o, Bounds: []int{2}, RaceBounds: r},
		}
	})
}

// viper0 is the file in use.
func viper0() string {
	if f := viper.ConfigFileUsed(); f != "" {
		return f
	}
	return confPath
}
