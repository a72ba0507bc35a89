// Package os on the simulated machine.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError = sim.LinkError
)

type File struct{ h *sim.File }

type stdFile int

var (
	Stdin  = &File{nil}
	Stdout = &File{nil}
	Stderr = &File{nil}
	// Args of the current process; set by ZZStart.
	Args = []string{"mole"}
)

// ZZStart prepares the package for a new simulated process.
func ZZStart(args []string) { Args = args }

func (f *File) hd() *sim.File {
	switch f {
	case Stdout:
		return sim.StdFile("/dev/stdout", sim.W.Stdout)
	case Stderr:
		return sim.StdFile("/dev/stderr", sim.W.Stderr)
	case Stdin:
		return sim.StdFile("/dev/stdin", &sim.Buf{})
	}
	if f == nil {
		return nil
	}
	return f.h
}

func fsys() *sim.FS {
	if sim.W == nil || sim.W.FS == nil {
		panic("sim: file system call outside a simulated machine")
	}
	return sim.W.FS
}

func wrap(h *sim.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, sim.ORdonly, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, sim.ORdwr|sim.OCreate|sim.OTrunc, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return wrap(fsys().Open(name, flag, perm))
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) Name() string                              { return f.hd().Name() }
func (f *File) Read(b []byte) (int, error)                { return f.hd().Read(b) }
func (f *File) ReadAt(b []byte, off int64) (int, error)   { return f.hd().ReadAt(b, off) }
func (f *File) Write(b []byte) (int, error)               { return f.hd().Write(b) }
func (f *File) WriteString(s string) (int, error)         { return f.hd().Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error)  { return f.hd().WriteAt(b, off) }
func (f *File) Seek(off int64, whence int) (int64, error) { return f.hd().Seek(off, whence) }
func (f *File) Close() error                              { return f.hd().Close() }
func (f *File) Sync() error                               { return f.hd().Sync() }
func (f *File) Truncate(n int64) error                    { return f.hd().Truncate(n) }
func (f *File) Stat() (fs.FileInfo, error)                { return f.hd().Stat() }
func (f *File) Fd() uintptr                               { return 99 }
func (f *File) Chmod(m fs.FileMode) error                 { return fsys().Chmod(f.hd().Name(), m) }
func (f *File) SetDeadline(t time.Time) error             { return nil }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error)      { return f.hd().ReadDir(n) }
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.hd().ReadDir(n)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.hd().ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	b := make([]byte, 4096)
	for {
		n, err := f.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, sim.OWronly|sim.OCreate|sim.OTrunc, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func Stat(name string) (fs.FileInfo, error)     { return fsys().Stat(name, true) }
func Lstat(name string) (fs.FileInfo, error)    { return fsys().Stat(name, false) }
func Mkdir(name string, perm fs.FileMode) error { return fsys().Mkdir(name, perm) }
func Remove(name string) error                  { return fsys().Remove(name) }
func Rename(a, b string) error                  { return fsys().Rename(a, b) }
func Symlink(a, b string) error                 { return fsys().Symlink(a, b) }
func Link(a, b string) error                    { return fsys().Link(a, b) }
func Readlink(a string) (string, error)         { return fsys().Readlink(a) }
func Chmod(name string, m fs.FileMode) error    { return fsys().Chmod(name, m) }
func Chtimes(name string, a, m time.Time) error { _, err := fsys().Stat(name, true); return err }
func Chown(name string, u, g int) error         { return nil }
func Lchown(name string, u, g int) error        { return nil }
func Getwd() (string, error) {
	sim.Y(0)
	if sim.W == nil || sim.W.FS == nil {
		return sim.EnvName("cwd", "/w"), nil
	}
	return fsys().Cwd, nil
}
func Chdir(d string) error      { fsys().Cwd = d; return nil }
func Exit(code int)             { sim.Exit(code) }
func Getpid() int               { return sim.EnvNum("pid", 4242, 30000) }
func Getppid() int              { return sim.EnvNum("ppid", 1, 30000) }
func Getuid() int               { return sim.EnvNum("uid", 1000, 3) }
func Hostname() (string, error) { return sim.EnvName("host", "simhost"), nil }
func TempDir() string {
	if sim.W != nil && sim.W.FS != nil {
		return "/tmp"
	}
	return sim.EnvName("tmp", "/tmp")
}
func UserHomeDir() (string, error) { return sim.EnvName("home", "/home/sim"), nil }
func Executable() (string, error)  { return sim.EnvName("exe", "/bin/mole"), nil }
func Environ() []string {
	if sim.W == nil {
		return sim.EnvList()
	}
	return append(sim.EnvList(), sim.W.Env...)
}
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*sim.Info)
	y, ok2 := b.(*sim.Info)
	return ok1 && ok2 && x.ID() == y.ID()
}

func LookupEnv(k string) (string, bool) {
	if sim.W != nil {
		for _, e := range sim.W.Env {
			if strings.HasPrefix(e, k+"=") {
				return e[len(k)+1:], true
			}
		}
	}
	return sim.EnvOf(k)
}
func Getenv(k string) string    { v, _ := LookupEnv(k); return v }
func Setenv(k, v string) error  { return nil }
func Unsetenv(k string) error   { return nil }
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, sim.OWronly, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func MkdirAll(path string, perm fs.FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
	}
	i := len(path) - 1
	for i >= 0 && path[i] == '/' {
		i--
	}
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i < 0 {
		i = -1
	}
	if parent := path[:i+1]; len(parent) > 1 {
		if err := MkdirAll(parent[:len(parent)-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func RemoveAll(path string) error {
	err := Remove(path)
	if err == nil || errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	l, rerr := ReadDir(path)
	if rerr != nil {
		if errors.Is(rerr, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	for _, e := range l {
		if err := RemoveAll(path + "/" + e.Name()); err != nil {
			return err
		}
	}
	return Remove(path)
}

var tmpn int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; i < 1000; i++ {
		f, err := OpenFile(dir+"/"+tmpName(pattern), sim.ORdwr|sim.OCreate|sim.OExcl, 0600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
	return nil, fs.ErrExist
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; i < 1000; i++ {
		n := dir + "/" + tmpName(pattern)
		err := Mkdir(n, 0700)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return n, err
	}
	return "", fs.ErrExist
}

func tmpName(p string) string {
	r := strconv.Itoa(int(sim.Rand() % 1000000000))
	if i := strings.LastIndexByte(p, '*'); i >= 0 {
		return p[:i] + r + p[i+1:]
	}
	return p + r
}

func IsNotExist(err error) bool   { return under(err, fs.ErrNotExist) || os.IsNotExist(err) }
func IsExist(err error) bool      { return under(err, fs.ErrExist) || os.IsExist(err) }
func IsPermission(err error) bool { return under(err, fs.ErrPermission) || os.IsPermission(err) }

func under(err, target error) bool {
	var l *sim.LinkError
	if errors.As(err, &l) {
		return errors.Is(l.Err, target)
	}
	return false
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
