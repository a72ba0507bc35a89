// Package filepath: the parts that touch the file system use the simulated one.
package filepath

import (
	"errors"
	"io/fs"
	"path/filepath"
	"sort"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/os"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	sim.Y(0)
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == fs.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	}
	l, err := os.ReadDir(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		if ok, _ := filepath.Match(file, e.Name()); ok {
			r = append(r, filepath.Join(dir, e.Name()))
		}
	}
	sort.Strings(r)
	return r, nil
}

func EvalSymlinks(p string) (string, error) {
	n := sim.EvalSymlinks(p)
	if n == "" {
		return "", &fs.PathError{Op: "lstat", Path: p, Err: errors.New("no such file or directory")}
	}
	return n, nil
}
