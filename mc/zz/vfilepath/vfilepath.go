// Package vfilepath replaces the functions of path/filepath that read the disk.
package vfilepath

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zz/vos"
)

func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := vos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	dirs := []string{"."}
	if dir != "" {
		d := dir
		if d != "/" {
			d = strings.TrimRight(d, "/")
		}
		if strings.ContainsAny(d, `*?[\`) {
			var err error
			if dirs, err = Glob(d); err != nil {
				return nil, err
			}
		} else {
			dirs = []string{d}
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := vos.ReadDir(d)
		if err != nil {
			continue
		}
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			if ok, _ := filepath.Match(file, n); ok {
				if dir == "" {
					out = append(out, n)
				} else {
					out = append(out, filepath.Join(d, n))
				}
			}
		}
	}
	return out, nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		var fi os.FileInfo
		if e != nil {
			fi, _ = e.Info()
		}
		return fn(p, fi, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, e fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, e, nil); err != nil || !e.IsDir() {
		if err == filepath.SkipDir && e.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, e, err); err != nil {
			if err == filepath.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, c := range es {
		if err := walk(filepath.Join(p, c.Name()), c, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
