package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	"github.com/GalaIO/P2Pcrawler/cmd"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/GalaIO/P2Pcrawler/zz/vfmt"
	"github.com/GalaIO/P2Pcrawler/zz/vos"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// command runs the program's command line in the current directory on the
// real file system and returns what it printed and how it failed.
func command(b *B, args ...string) (out, failure string) {
	resetShims()
	vos.Real = true
	var buf strings.Builder
	oldOut, oldErr, oldArgs := os.Stdout, os.Stderr, os.Args
	cap, err := os.OpenFile("captured", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	os.Args = append([]string{"p2pcrawler"}, args...)
	os.Stdout, os.Stderr = cap, cap
	r := vrt.Run(vrt.Opts{NoEarly: true, Patient: true, MaxSteps: 1 << 20}, nil, nil, func() {
		fresh()
		cmd.VerifInit()
		vfmt.Sink = func(s string) { buf.WriteString(s) }
		defer func() {
			if p := recover(); p != nil {
				failure = "panic: " + panicStr(p)
			}
		}()
		cmd.ExecuteBackgroud()
	})
	os.Stdout, os.Stderr, os.Args = oldOut, oldErr, oldArgs
	b.schedules++
	b.steps += uint64(r.Steps)
	if r.Outcome != vrt.OutDone && failure == "" {
		failure = r.OutcomeName() + ": " + r.Msg
	}
	if n, _ := cap.Seek(0, io.SeekEnd); n > 0 {
		cap.Seek(0, io.SeekStart)
		x, _ := io.ReadAll(cap)
		buf.Write(x)
	}
	cap.Close()
	vos.Real = false
	return buf.String(), failure
}

// torrentLine is what must be printed for file contents s; ok tells whether s
// is a valid metadata file, soft that the format leaves it open.
func torrentLine(s, file string) (line string, ok, soft bool) {
	r := refItem(s, 0)
	d, isDict := r.val.(misc.Dict)
	if !r.ok || !isDict || r.next != len(s) {
		return "", false, r.ok && r.soft()
	}
	name, isStr := d["name"].(string)
	if !isStr {
		name = "name err"
	}
	l, _ := d["length"].(int)
	p, _ := d["piece length"].(int)
	return fmt.Sprintf("%s||%s||%d||%d", name, file, l, p), true, r.soft()
}

// judgeTorrents compares the output with the files: want are lines that must
// come, may those that can come, bad says that some file is malformed.
func judgeTorrents(what, out, failure string, want, may []string, bad bool) string {
	rest := out
	for _, w := range want {
		i := strings.Index(rest, w)
		if i < 0 {
			if bad { // the command may give up at a malformed file
				continue
			}
			return fmt.Sprintf("%s: prints %q (%s), without the line %q", what, clip([]byte(out)), failure, w)
		}
		j := i + len(w)
		if (i > 0 && rest[i-1] != '\n') || j < len(rest) && rest[j] != '\r' && rest[j] != '\n' {
			return fmt.Sprintf("%s: prints %q, where %q is no line of its own", what, clip([]byte(out)), w)
		}
		for j < len(rest) && (rest[j] == '\r' || rest[j] == '\n') {
			j++
			if rest[j-1] == '\n' {
				break
			}
		}
		rest = rest[:i] + rest[j:]
	}
	for _, w := range may {
		rest = strings.Replace(rest, w, "", 1)
	}
	if strings.Contains(rest, "||") {
		return fmt.Sprintf("%s: prints %q, of which %q is unaccounted for", what, clip([]byte(out)), clip([]byte(rest)))
	}
	if bad && failure == "" && strings.TrimSpace(rest) == "" {
		return fmt.Sprintf("%s: prints %q and reports no error", what, clip([]byte(out)))
	}
	if !bad && failure != "" {
		return fmt.Sprintf("%s: fails: %s", what, failure)
	}
	return ""
}

func init() {
	reg("C28", func(thorough bool) []*Scn {
		clean := func() {
			es, _ := os.ReadDir(".")
			for _, e := range es {
				if e.Name() != "conf" && e.Name() != "captured" {
					os.RemoveAll(filepath.Join(mustWd(), e.Name()))
				}
			}
		}
		one := func(b *B, path, arg, s string) string {
			clean()
			if d := filepath.Dir(path); d != "." {
				os.MkdirAll(d, 0o755)
			}
			if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
				panic(err)
			}
			out, fail := command(b, "torrent", arg)
			what := fmt.Sprintf("torrent %s with contents %q", arg, clip([]byte(s)))
			l1, ok, soft := torrentLine(s, arg)
			l2, _, _ := torrentLine(s, filepath.Base(arg))
			switch {
			case soft && (fail != "" || !ok):
				return judgeTorrents(what, out, fail, nil, []string{l1, l2}, fail != "" || strings.TrimSpace(strings.Replace(out, l1, "", 1)) != "")
			case !ok:
				return judgeTorrents(what, out, fail, nil, nil, true)
			}
			m := judgeTorrents(what, out, fail, []string{l1}, nil, false)
			if m != "" && l2 != l1 && judgeTorrents(what, out, fail, []string{l2}, nil, false) == "" {
				return ""
			}
			return m
		}
		no := absent{}
		long := pattern(40000, 1)
		fields := func(b *B) {
			names := []interface{}{no, "", "x", "a file.iso", "\xe4\xb8\xad\xe6\x96\x87", "\xff\x00\x01", "%s%d%!", "a\nb", "  ", long, 5, misc.List{"x"}, misc.Dict{"x": "y"}}
			nums := []interface{}{no, 0, 1, 16384, -3, 1<<63 - 1, -1 << 63, 1 << 32, "5", "", misc.List{1}, misc.Dict{"a": 1}}
			for _, n := range names {
				for _, l := range nums {
					for _, p := range nums {
						n, l, p := n, l, p
						b.Do(func() string {
							d := misc.Dict{}
							set(d, "name", n)
							set(d, "length", l)
							set(d, "piece length", p)
							return one(b, "x.torrent", "x.torrent", enc(d))
						})
					}
				}
			}
			// next to other fields
			others := []misc.Dict{{"pieces": pattern(200, 3)}, {"files": misc.List{misc.Dict{"length": 7, "path": misc.List{"a", "b"}}}}, {"Name": "N", "Length": 9, "piece_length": 4, "piecelength": 5, "name.utf-8": "u", "lengths": 6}, {"info": misc.Dict{"name": "inner", "length": 3, "piece length": 2}, "announce": "http://x"}, {"": "", "zz": 1}, {"private": 1, "source": "s"}}
			for _, o := range others {
				for x := 0; x < 27; x++ {
					o, x := o, x
					b.Do(func() string {
						d := misc.Dict{}
						for k, v := range o {
							d[k] = v
						}
						for i, k := range []string{"name", "length", "piece length"} {
							switch x / []int{1, 3, 9}[i] % 3 {
							case 1:
								set(d, k, []interface{}{"n", 12, 13}[i])
							case 2:
								set(d, k, []interface{}{14, "l", misc.List{}}[i])
							}
						}
						return one(b, "y.torrent", "y.torrent", enc(d))
					})
				}
			}
			// and to ones whose names come close
			near := []string{"size", "total_size", "total size", "total length", "totalLength", "total_length", "len", "LENGTH", "length ", " length", "length\x00", "lengt", "file length", "length.utf-8", "NAME", "names", "name ", "filename", "file_name", "title", "path", "path.utf-8", "pieceLength", "Piece Length", "PIECE LENGTH", "piece  length", "piece length ", "pieces length", "piece-length", "piece size", "piece_size", "piece", "pieces", "piece len", "block size", "metadata_size", "meta version", "info", "torrent", "creation date", "comment", "created by"}
			for _, k := range near {
				for _, o := range []interface{}{77, "seven", misc.List{7, "seven"}, misc.Dict{"length": 7, "name": "seven", "piece length": 8}} {
					for x := 0; x < 4; x++ {
						k, o, x := k, o, x
						b.Do(func() string {
							d := misc.Dict{k: o}
							switch x {
							case 1:
								d["name"], d["length"], d["piece length"] = "n", 12, 13
							case 2:
								d["name"], d["length"], d["piece length"] = 14, "l", misc.List{}
							case 3:
								d["name"], d["length"], d["piece length"] = "", 0, 0
							}
							return one(b, "z.torrent", "z.torrent", enc(d))
						})
					}
				}
			}
			// large files
			sizes := []int{4000, 4096, 32 << 10, 64<<10 - 60, 64 << 10, 200000, 1<<20 - 60, 1 << 20, 3 << 20}
			if thorough {
				sizes = append(sizes, 8<<20, 16<<20+1)
			}
			for _, n := range sizes {
				for v := 0; v < 5; v++ {
					n, v := n, v
					b.Do(func() string {
						d := misc.Dict{"name": "big", "length": 1 << 40, "piece length": 1 << 22}
						switch v {
						case 0:
							d["pieces"] = pattern(n, 3)
						case 1: // ahead of what is printed
							d["a"] = pattern(n, 3)
						case 2:
							l := make(misc.List, 0, n/100)
							for i := 0; i < n/100; i++ {
								l = append(l, misc.Dict{"length": i, "path": misc.List{pattern(50, byte(i)), fmt.Sprint(i)}})
							}
							d["files"] = l
						case 3: // cut off
							d["pieces"] = pattern(n, 3)
							x := enc(d)
							return one(b, "x.torrent", "x.torrent", x[:len(x)-1])
						case 4:
							d["pieces"] = pattern(n, 3)
							return one(b, "x.torrent", "x.torrent", enc(d)+"e")
						}
						return one(b, "x.torrent", "x.torrent", enc(d))
					})
				}
			}
			// the names a file may have
			v := enc(misc.Dict{"name": "x", "length": 3, "piece length": 4})
			for _, p := range []string{"a", "a.txt", "a.torrent", "./a.torrent", "sub/dir/a.torrent", "A.TORRENT", "a b.torrent", "%d%s", "a||b.torrent", "\xe4\xb8\xad.torrent", ".torrent", "torrent", filepath.Join(mustWd(), "abs.torrent"), "a'b\"c.torrent", strings.Repeat("n", 200)} {
				p := p
				for _, s := range []string{v, enc(misc.Dict{}), v[:len(v)-1], ""} {
					s := s
					b.Do(func() string { return one(b, p, p, s) })
				}
			}
		}
		damaged := func(b *B) {
			bases := []string{
				enc(misc.Dict{"name": "x", "length": 3, "piece length": 4}),
				enc(misc.Dict{"name": "ab", "files": misc.List{misc.Dict{"length": 7, "path": misc.List{"a"}}}, "pieces": "12345678901234567890"}),
				"de",
			}
			if thorough {
				bases = append(bases, enc(misc.Dict{"a": misc.Dict{"name": 1}, "length": -10, "name": "", "piece length": misc.List{misc.List{}}}))
			}
			alphabet := "0159:dlie-n\x00\xff \n"
			for _, s := range bases {
				s := s
				for i := 0; i <= len(s); i++ {
					i := i
					b.Do(func() string { return one(b, "x.torrent", "x.torrent", s[:i]) })
					b.Do(func() string { return one(b, "x.torrent", "x.torrent", s[i:]) })
					b.Do(func() string { return one(b, "x.torrent", "x.torrent", s+s[:i]) })
					for _, c := range alphabet {
						c := string([]byte{byte(c)})
						b.Do(func() string { return one(b, "x.torrent", "x.torrent", s[:i]+c+s[i:]) })
						if i < len(s) {
							b.Do(func() string { return one(b, "x.torrent", "x.torrent", s[:i]+c+s[i+1:]) })
						}
					}
					for j := i + 1; j <= len(s); j++ {
						j := j
						b.Do(func() string { return one(b, "x.torrent", "x.torrent", s[:i]+s[j:]) })
					}
				}
				for _, g := range []string{"e", "de", "\n", "\r\n", " ", "\x00", "i1e", "garbage", s, strings.Repeat("x", 5000)} {
					g := g
					b.Do(func() string { return one(b, "x.torrent", "x.torrent", s+g) })
					b.Do(func() string { return one(b, "x.torrent", "x.torrent", g+s) })
				}
			}
			for _, s := range []string{"", "i5e", "3:abc", "le", "ld4:name1:xee", "l" + bases[0] + "e", "d", "e", "d4:name", "d4:namee", "di1ei2ee", "d4:name1:x6:lengthi99999999999999999999ee", strings.Repeat("d1:a", 5000), strings.Repeat("l", 100000), "d4:name99999999999:xe", "d4:name-1:xe", "\xef\xbb\xbf" + bases[0]} {
				s := s
				b.Do(func() string { return one(b, "x.torrent", "x.torrent", s) })
			}
		}
		all := func(b *B) {
			alphabet := "de14:in"
			n := 5
			if thorough {
				n = 6
			}
			var rec func(s string)
			rec = func(s string) {
				if b.Stopped() {
					return
				}
				b.Do(func() string { return one(b, "x.torrent", "x.torrent", s) })
				if len(s) < n {
					for i := range alphabet {
						rec(s + alphabet[i:i+1])
					}
				}
			}
			rec("")
		}
		// directories
		v1 := enc(misc.Dict{"name": "one", "length": 11, "piece length": 12})
		v2 := enc(misc.Dict{"name": "two", "length": 21, "piece length": misc.List{}})
		type entry struct {
			name string // with %d
			mk   func(p string) error
			s    string
			kind int // 0 ignored, 1 printed, 2 malformed, 3 open
		}
		file := func(s string) func(p string) error {
			return func(p string) error { return os.WriteFile(p, []byte(s), 0o644) }
		}
		entries := []entry{
			{"e%d.torrent", file(v1), v1, 1},
			{"e%d.torrent", file(v2), v2, 1},
			{"e%d.torrent", file("de"), "de", 1},
			{".%d.torrent", file(v1), v1, 1},
			{"e %d||%%s.torrent", file(v1), v1, 1},
			{"e%d.torrent", file(v1 + "x"), "", 2},
			{"e%d.torrent", file(""), "", 2},
			{"e%d.torrent", file(v1[:9]), "", 2},
			{"e%d.torrent", func(p string) error { return os.Mkdir(p, 0o755) }, "", 0},
			{"d%d", func(p string) error {
				os.Mkdir(p, 0o755)
				return os.WriteFile(p+"/in.torrent", []byte(v2), 0o644)
			}, "", 0},
			{"e%d.txt", file(v1), v1, 0},
			{"e%d.torrent.bak", file(v1), v1, 0},
			{"e%d.torrent~", file("junk"), v1, 0},
			{"e%dtorrent", file(v1), v1, 0},
			{"e%d.TORRENT", file(v1), v1, 0},
			{"e%d.torrent.", file(v1), v1, 0},
			{"e%d.torrent", func(p string) error { return syscall.Mkfifo(p, 0o644) }, "", 0},
			{"e%d.torrent", func(p string) error { return os.Symlink("../target.torrent", p) }, v1, 3},
			{"e%d.torrent", func(p string) error { return os.Symlink("..", p) }, "", 0},
			{"e%d.torrent", func(p string) error { return os.Symlink("nowhere", p) }, "", 0},
		}
		dirs := func(max int) func(b *B) {
			return func(b *B) {
				for n := 0; n <= max; n++ {
					total := 1
					for i := 0; i < n; i++ {
						total *= len(entries)
					}
					for x := 0; x < total; x++ {
						n, x := n, x
						if b.Stopped() {
							return
						}
						b.Do(func() string {
							clean()
							os.WriteFile("target.torrent", []byte(v1), 0o644)
							dir := []string{"dir", "./dir/", "dir.torrent", filepath.Join(mustWd(), "dir")}[x%4]
							os.MkdirAll(dir, 0o755)
							var want, may, what []string
							bad := false
							y := x
							for i := 0; i < n; i++ {
								e := entries[y%len(entries)]
								y /= len(entries)
								name := fmt.Sprintf(e.name, i)
								if err := e.mk(filepath.Join(dir, name)); err != nil {
									panic(err)
								}
								what = append(what, name)
								l, _, _ := torrentLine(e.s, name)
								switch e.kind {
								case 1:
									want = append(want, l)
								case 2:
									bad = true
								case 3:
									may = append(may, l)
								}
							}
							out, fail := command(b, "torrent", dir)
							return judgeTorrents(fmt.Sprintf("torrent %s holding %q (number %d)", dir, what, x), out, fail, want, may, bad)
						})
					}
				}
				// many
				for _, n := range []int{10, 300, 1000} {
					n := n
					b.Do(func() string {
						clean()
						os.Mkdir("dir", 0o755)
						var want []string
						for i := 0; i < n; i++ {
							s := enc(misc.Dict{"name": fmt.Sprint("n", i), "length": i, "piece length": 2 * i})
							name := fmt.Sprintf("f%d.torrent", i)
							os.WriteFile("dir/"+name, []byte(s), 0o644)
							l, _, _ := torrentLine(s, name)
							want = append(want, l)
						}
						out, fail := "", ""
						withDescriptors(48, func() { out, fail = command(b, "torrent", "dir") })
						return judgeTorrents(fmt.Sprintf("%d files, 48 more descriptors to be had", n), out, fail, want, nil, false)
					})
				}
				// names that have much in common, the same file under several names
				alike := []string{"a.torrent", "A.torrent", "a.torrent.torrent", " a.torrent", "a .torrent", "a.1.torrent", "aa.torrent", "\xc3\xa4.torrent", "a\xcc\x88.torrent", "\xff.torrent", "-a.torrent", "*.torrent"}
				for i := range alike {
					for j := 0; j <= i; j++ {
						for k := 0; k <= j; k++ {
							for _, same := range []bool{false, true} {
								set, same := map[string]bool{alike[i]: true, alike[j]: true, alike[k]: true}, same
								if b.Stopped() {
									return
								}
								b.Do(func() string {
									clean()
									os.Mkdir("dir", 0o755)
									var want []string
									n := 0
									for _, name := range alike {
										if !set[name] {
											continue
										}
										s := v1
										switch n++; {
										case n == 1:
											os.WriteFile("dir/"+name, []byte(s), 0o644)
											os.Link("dir/"+name, "first")
										case same:
											os.Link("first", "dir/"+name)
										default:
											s = enc(misc.Dict{"name": fmt.Sprint("n", n), "length": n})
											os.WriteFile("dir/"+name, []byte(s), 0o644)
										}
										l, _, _ := torrentLine(s, name)
										want = append(want, l)
									}
									out, fail := command(b, "torrent", "dir")
									return judgeTorrents(fmt.Sprintf("a directory for the lines %q", want), out, fail, want, nil, false)
								})
							}
						}
					}
				}
				for _, arg := range []string{"missing", "missing.torrent", "dir/missing.torrent", ""} {
					arg := arg
					b.Do(func() string {
						clean()
						os.Mkdir("dir", 0o755)
						out, fail := command(b, "torrent", arg)
						return judgeTorrents(fmt.Sprintf("torrent %q, which does not exist", arg), out, fail, nil, nil, true)
					})
				}
			}
		}
		nd := 3
		return []*Scn{
			{Name: "fields", Bulk: fields},
			{Name: "damaged files", Bulk: damaged},
			{Name: "all short files", Bulk: all},
			{Name: "directories", Bulk: dirs(nd)},
		}
	})
}

// withDescriptors runs f where no more than n further files can be open at a
// time; those left open stay so.
func withDescriptors(n int, f func()) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	top := 0
	for _, e := range es {
		if k, _ := strconv.Atoi(e.Name()); k > top {
			top = k
		}
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		panic(err)
	}
	low := old
	low.Cur = uint64(top + 1 + n)
	gc := debug.SetGCPercent(-1)
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		panic(err)
	}
	defer func() {
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
		debug.SetGCPercent(gc)
		runtime.GC()
	}()
	f()
}

func mustWd() string {
	d, err := os.Getwd()
	if err != nil || !strings.Contains(d, "/cwd") {
		panic("not in a scratch directory: " + d)
	}
	return d
}
