// Package ioutil on the simulated file system.
package ioutil

import (
	"io/fs"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func ReadDir(dir string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range l {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, fi)
	}
	return r, nil
}
