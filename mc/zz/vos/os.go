// Package vos replaces the file system: in memory, every operation a visible
// step that may fail or be the last before a crash. With Real set it passes through.
package vos

import (
	"fmt"
	"io"
	"io/fs"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/zz/vfmt"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// Real passes every call to the real file system (harness scratch directories).
var Real = true

type Inode struct {
	Data   []byte
	Synced []byte
	Mode   os.FileMode
	Dir    bool
}

type entry struct {
	name string
	ino  *Inode
}

type FS struct {
	o    vrt.Obj
	ents []entry
	temp int
	Ops  int
	// Fault decides whether an operation fails; short >= 0 limits a write before it fails.
	Fault func(op, path string, n int) (err error, short int)
	// OnOp is called after every change of the file system (each is a possible crash point).
	OnOp func(op, path string)
	Open int // open file handles
}

var cur *FS
var gen interface{}

// Disk is the file system of the current execution.
func Disk() *FS {
	if g := vrt.Gen(); cur == nil || g != gen {
		gen = g
		cur = &FS{}
	}
	return cur
}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

func clean(p string) string { return filepath.Clean(p) }

func (d *FS) find(p string) *Inode {
	if p == "." || p == "/" || p == ".." {
		return &Inode{Dir: true, Mode: os.ModeDir | 0o755}
	}
	for i := range d.ents {
		if d.ents[i].name == p {
			return d.ents[i].ino
		}
	}
	return nil
}

func (d *FS) set(p string, n *Inode) {
	for i := range d.ents {
		if d.ents[i].name == p {
			d.ents[i].ino = n
			return
		}
	}
	d.ents = append(d.ents, entry{p, n})
}

func (d *FS) del(p string) {
	for i := range d.ents {
		if d.ents[i].name == p {
			// element-wise: append and copy of pointers are visible to the race detector
			es := make([]entry, len(d.ents)-1)
			for j := range es {
				x := j
				if j >= i {
					x = j + 1
				}
				es[j] = d.ents[x]
			}
			d.ents = es
			return
		}
	}
}

// Put installs a file or directory (harness).
func (d *FS) Put(p string, data []byte, dir bool) {
	n := &Inode{Data: append([]byte(nil), data...), Synced: append([]byte(nil), data...), Dir: dir, Mode: 0o644}
	if dir {
		n.Mode = os.ModeDir | 0o755
	}
	d.set(clean(p), n)
}

// Each visits every entry (harness).
func (d *FS) Each(f func(path string, n *Inode)) {
	es := append([]entry(nil), d.ents...)
	sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
	for _, e := range es {
		f(e.name, e.ino)
	}
}

func (d *FS) Get(p string) *Inode { return d.find(clean(p)) }

// step is one file-system operation; it returns an injected error.
func (d *FS) step(op, path string, n int) (error, int) {
	if vrt.Point("fs " + op) {
		d.o.Op(vrt.HashStr(op), vrt.HashStr(path))
	}
	d.Ops++
	if d.Fault != nil && vrt.Active() {
		return d.Fault(op, path, n)
	}
	return nil, -1
}

func (d *FS) changed(op, path string) {
	if d.OnOp != nil && vrt.Active() {
		d.OnOp(op, path)
	}
}

func (d *FS) parent(p string) error {
	dir := filepath.Dir(p)
	n := d.find(dir)
	if n == nil {
		return syscall.ENOENT
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	return nil
}

type File struct {
	r      *os.File
	d      *FS
	ino    *Inode
	path   string
	name   string
	off    int
	flag   int
	closed bool
	std    bool
	rdpos  int
}

var Stdout = &File{std: true, name: "/dev/stdout"}
var Stderr = &File{std: true, name: "/dev/stderr"}
var Stdin = &File{std: true, name: "/dev/stdin"}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if Real {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{r: f, name: name}, nil
	}
	if vrt.Aborting() {
		return nil, perr("open", name, syscall.EINTR)
	}
	d := Disk()
	p := clean(name)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if err, _ := d.step(op, p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n := d.find(p)
	if n == nil {
		if err := d.parent(p); err != nil {
			return nil, perr("open", name, err)
		}
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Inode{Mode: perm}
		d.set(p, n)
		d.changed("create", p)
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.Dir {
			n.Data = nil
			d.changed("truncate", p)
		}
	}
	d.Open++
	return &File{d: d, ino: n, path: p, name: name, flag: flag}, nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.r != nil {
		return f.r.Write(b)
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.std {
		if f == Stdout {
			vfmt.Print(string(b))
		}
		return len(b), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	err, short := f.d.step("write", f.path, len(b))
	n := len(b)
	if err != nil {
		n = 0
		if short >= 0 && short < len(b) {
			n = short
		}
	}
	vrt.RaceReadRange(b)
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.ino.Data)
	}
	put := func(k int) {
		end := f.off + k
		for len(f.ino.Data) < end {
			f.ino.Data = append(f.ino.Data, 0)
		}
		nd := append([]byte(nil), f.ino.Data...)
		copy(nd[f.off:], b[:k])
		f.ino.Data = nd
	}
	if n > 1 {
		put(n / 2) // a write is not atomic with respect to crashes
		f.d.changed("write", f.path)
	}
	if n > 0 {
		put(n)
		f.d.changed("write", f.path)
	}
	f.off += n
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f != nil && f.r != nil {
		return f.r.WriteAt(b, off)
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	old := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.r != nil {
		return f.r.Read(b)
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.ino.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if err, _ := f.d.step("read", f.path, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.ino.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f != nil && f.r != nil {
		return f.r.ReadAt(b, off)
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.ino.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f != nil && f.r != nil {
		return f.r.Seek(off, whence)
	}
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.ino.Data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Sync() error {
	if f != nil && f.r != nil {
		return f.r.Sync()
	}
	if err := f.bad("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if err, _ := f.d.step("sync", f.path, 0); err != nil {
		return perr("sync", f.name, err)
	}
	f.ino.Synced = append([]byte(nil), f.ino.Data...)
	f.d.changed("sync", f.path)
	return nil
}

func (f *File) Truncate(n int64) error {
	if f != nil && f.r != nil {
		return f.r.Truncate(n)
	}
	if err := f.bad("truncate"); err != nil {
		return err
	}
	if err, _ := f.d.step("truncate", f.path, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	for len(f.ino.Data) < int(n) {
		f.ino.Data = append(f.ino.Data, 0)
	}
	f.ino.Data = append([]byte(nil), f.ino.Data[:n]...)
	f.d.changed("truncate", f.path)
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	if f != nil && f.r != nil {
		return f.r.Chmod(m)
	}
	if err := f.bad("chmod"); err != nil {
		return err
	}
	if err, _ := f.d.step("chmod", f.path, 0); err != nil {
		return perr("chmod", f.name, err)
	}
	f.ino.Mode = m
	return nil
}

func (f *File) Close() error {
	if f != nil && f.r != nil {
		return f.r.Close()
	}
	if err := f.bad("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	f.closed = true
	f.d.Open--
	if err, _ := f.d.step("close", f.path, 0); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if f != nil && f.r != nil {
		return f.r.Stat()
	}
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	return info{filepath.Base(f.path), f.ino}, nil
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	if f != nil && f.r != nil {
		return f.r.ReadDir(n)
	}
	return ReadDir(f.name)
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if f != nil && f.r != nil {
		return f.r.Readdir(n)
	}
	es, err := ReadDir(f.name)
	var out []os.FileInfo
	for _, e := range es {
		fi, _ := e.Info()
		out = append(out, fi)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if f != nil && f.r != nil {
		return f.r.Readdirnames(n)
	}
	es, err := ReadDir(f.name)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

type info struct {
	name string
	n    *Inode
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(len(i.n.Data)) }
func (i info) Mode() os.FileMode          { return i.n.Mode }
func (i info) ModTime() time.Time         { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.n.Mode & os.ModeType }
func (i info) Info() (os.FileInfo, error) { return i, nil }

func Stat(name string) (os.FileInfo, error) {
	if Real {
		return os.Stat(name)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("stat", p, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n := d.find(p)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{filepath.Base(p), n}, nil
}

func Lstat(name string) (os.FileInfo, error) {
	if Real {
		return os.Lstat(name)
	}
	return Stat(name)
}

func Mkdir(name string, perm os.FileMode) error {
	if Real {
		return os.Mkdir(name, perm)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("mkdir", p, 0); err != nil {
		return perr("mkdir", name, err)
	}
	if d.find(p) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err := d.parent(p); err != nil {
		return perr("mkdir", name, err)
	}
	d.set(p, &Inode{Dir: true, Mode: os.ModeDir | perm})
	d.changed("mkdir", p)
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	if Real {
		return os.MkdirAll(name, perm)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("mkdir", p, 0); err != nil {
		return perr("mkdir", name, err)
	}
	parts := strings.Split(p, "/")
	for i := range parts {
		q := strings.Join(parts[:i+1], "/")
		if q == "" {
			continue
		}
		if n := d.find(q); n != nil {
			if !n.Dir {
				return perr("mkdir", name, syscall.ENOTDIR)
			}
			continue
		}
		d.set(q, &Inode{Dir: true, Mode: os.ModeDir | perm})
		d.changed("mkdir", q)
	}
	return nil
}

func Rename(from, to string) error {
	if Real {
		return os.Rename(from, to)
	}
	d := Disk()
	a, b := clean(from), clean(to)
	if err, _ := d.step("rename", b, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	n := d.find(a)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if err := d.parent(b); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	d.del(a)
	d.set(b, n)
	d.changed("rename", b)
	return nil
}

func Link(from, to string) error {
	if Real {
		return os.Link(from, to)
	}
	d := Disk()
	a, b := clean(from), clean(to)
	if err, _ := d.step("link", b, 0); err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	n := d.find(a)
	if n == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.find(b) != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	d.set(b, n)
	d.changed("link", b)
	return nil
}

func Chmod(name string, m os.FileMode) error {
	if Real {
		return os.Chmod(name, m)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("chmod", p, 0); err != nil {
		return perr("chmod", name, err)
	}
	if d.find(p) == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	return nil
}

func Truncate(name string, n int64) error {
	if Real {
		return os.Truncate(name, n)
	}
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Remove(name string) error {
	if Real {
		return os.Remove(name)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	if d.find(p) == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	d.del(p)
	d.changed("remove", p)
	return nil
}

func RemoveAll(name string) error {
	if Real {
		return os.RemoveAll(name)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	for _, e := range append([]entry(nil), d.ents...) {
		if e.name == p || strings.HasPrefix(e.name, p+"/") {
			d.del(e.name)
		}
	}
	d.changed("remove", p)
	return nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	if Real {
		return os.WriteFile(name, data, perm)
	}
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	if Real {
		return os.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return ioutil.ReadAll(f)
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if Real {
		return os.ReadDir(name)
	}
	d := Disk()
	p := clean(name)
	if err, _ := d.step("readdir", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n := d.find(p)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdir", name, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	d.Each(func(path string, n *Inode) {
		if filepath.Dir(path) == p {
			out = append(out, info{filepath.Base(path), n})
		}
	})
	return out, nil
}

func tempName(dir, pattern string) string {
	d := Disk()
	if dir == "" {
		dir = "/tmp"
		if d.find("/tmp") == nil {
			d.Put("/tmp", nil, true)
		}
	}
	d.temp++
	r := fmt.Sprintf("%09d", d.temp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return filepath.Join(dir, pattern[:i]+r+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+r)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if Real {
		f, err := os.CreateTemp(dir, pattern)
		if err != nil {
			return nil, err
		}
		return &File{r: f, name: f.Name()}, nil
	}
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, fmt.Errorf("pattern contains path separator"))
	}
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func MkdirTemp(dir, pattern string) (string, error) {
	if Real {
		return os.MkdirTemp(dir, pattern)
	}
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func TempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

func Exit(code int) {
	vrt.Exit(fmt.Sprintf("os.Exit(%d)", code))
	if !vrt.Aborting() {
		panic(fmt.Sprintf("os.Exit(%d)", code))
	}
}
