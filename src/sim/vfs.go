package sim

import (
	"io"
	"io/fs"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// FS is the in-memory file system of a simulated machine. It survives process
// (World) restarts; open files do not. Nothing here touches the real disk.
type FS struct {
	root  *Node
	Cwd   string
	nopen int
	peak  int
	opens *File // list of open files
	ops   int
	seq   int

	// fault plan
	Rate     int               // a faultable call fails with probability 1/Rate (0: never)
	Kinds    [nFaultKinds]bool // enabled fault kinds
	Slow     int               // 1/Slow of the calls take simulated time
	CrashAt  int               // process crash before/inside this call number (0: never)
	Max      int               // at most this many injected errors
	injected int
	Errs     int    // injected hard errors so far
	MaxOpen  int    // EMFILE above (0: none)
	Spare    string // no injected errors for paths that begin with this
	User     bool   // the process is not root: permission bits of the owner count
	OnMutate func(op, path string)
	OnRead   func(path string)
	Bad      List[string] // diagnostics: calls at odd places
	FailLog  List[string] // errors returned by open and readdir calls
}

type Node struct {
	Name   string
	Dir    bool
	Link   string
	IsLink bool
	Kind   fs.FileMode // fifo, socket, device
	Mode   fs.FileMode
	Data   []byte
	Size   int
	kids   []*Node
	nk     int
	id     int
	mtime  int64
	synced []byte // content as of the last sync (nil: never synced)
	dirty  bool
	fresh  bool // created and never synced
	Unread error
}

type File struct {
	fs       *FS
	n        *Node
	name     string
	pos      int
	rd, wr   bool
	app      bool
	closed   bool
	dirEnts  []*Node
	dirPos   int
	dirRead  bool
	next     *File
	std      *Buf
	ndirents int
}

func NewFS() *FS {
	return &FS{root: &Node{Dir: true, Mode: fs.ModeDir | 0755}, Cwd: "/"}
}

func (n *Node) find(name string) (int, *Node) {
	lo, hi := 0, n.nk
	for lo < hi {
		m := (lo + hi) / 2
		if n.kids[m].Name < name {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < n.nk && n.kids[lo].Name == name {
		return lo, n.kids[lo]
	}
	return lo, nil
}

func (n *Node) insert(c *Node) {
	i, old := n.find(c.Name)
	if old != nil {
		n.kids[i] = c
		return
	}
	if n.nk == len(n.kids) {
		nk := make([]*Node, 2*n.nk+4)
		for j := 0; j < n.nk; j++ {
			nk[j] = n.kids[j]
		}
		n.kids = nk
	}
	for j := n.nk; j > i; j-- {
		n.kids[j] = n.kids[j-1]
	}
	n.kids[i] = c
	n.nk++
}

func (n *Node) remove(name string) bool {
	i, old := n.find(name)
	if old == nil {
		return false
	}
	for j := i; j < n.nk-1; j++ {
		n.kids[j] = n.kids[j+1]
	}
	n.nk--
	n.kids[n.nk] = nil
	return true
}

func (n *Node) Kids() []*Node { return n.kids[:n.nk:n.nk] }

func (n *Node) Content() []byte {
	r := make([]byte, n.Size)
	for i := range r {
		r[i] = n.Data[i]
	}
	return r
}

func (n *Node) resize(sz int) {
	if sz > len(n.Data) {
		m := 2 * len(n.Data)
		if m < sz {
			m = sz
		}
		nd := make([]byte, m)
		for i := 0; i < n.Size; i++ {
			nd[i] = n.Data[i]
		}
		n.Data = nd
	}
	for i := n.Size; i < sz; i++ {
		n.Data[i] = 0
	}
	for i := sz; i < n.Size; i++ {
		n.Data[i] = 0
	}
	n.Size = sz
}

func (f *FS) abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return f.Cwd + "/" + p
}

// walk resolves a path. With follow, a symlink in the last place is followed.
// It returns the parent, the last name and the node (nil when absent).
func (f *FS) walk(p string, follow bool) (parent *Node, name string, n *Node, err error) {
	depth := 0
	return f.walk1(f.abs(p), follow, &depth)
}

func (f *FS) walk1(p string, follow bool, depth *int) (*Node, string, *Node, error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	stack := []*Node{f.root}
	parts := strings.Split(p, "/")
	trail := strings.HasSuffix(p, "/")
	for len(parts) > 0 && parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1]
	}
	for i, s := range parts {
		cur := stack[len(stack)-1]
		last := i == len(parts)-1
		if s == "" || s == "." {
			if !cur.Dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			continue
		}
		if !cur.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if s == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if len(s) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if f.User && Live() && cur != f.root && cur.Mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if strings.IndexByte(s, 0) >= 0 {
			return nil, "", nil, syscall.EINVAL
		}
		_, c := cur.find(s)
		if c == nil {
			if last {
				return cur, s, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if c.IsLink && (!last || follow || trail) {
			*depth++
			if *depth > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			t := c.Link
			if !strings.HasPrefix(t, "/") {
				t = f.pathOf(stack) + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return f.walk1(t, follow, depth)
		}
		if last {
			if trail && !c.Dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, s, c, nil
		}
		stack = append(stack, c)
	}
	n := stack[len(stack)-1]
	var par *Node
	if len(stack) > 1 {
		par = stack[len(stack)-2]
	}
	return par, n.Name, n, nil
}

// deny tells whether the process lacks a permission (owner bits).
func (f *FS) deny(n *Node, bit fs.FileMode) bool {
	return f.User && n != f.root && n.Mode&bit != bit
}

func (f *FS) pathOf(stack []*Node) string {
	s := ""
	for _, n := range stack[1:] {
		s += "/" + n.Name
	}
	if s == "" {
		return "/"
	}
	return s
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// call is the entry of every simulated system call: a yield point, possibly
// slow, possibly the place of a crash, possibly failing with one of the kinds.
func (f *FS) call(op, path string, kinds ...FaultKind) FaultKind {
	if !Live() {
		return -1
	}
	Y(0)
	f.ops++
	R.Tracef(func() string { return "  " + W.cur.label() + " syscall " + op + " " + path })
	if f.Slow > 0 && R.Chance(SF, 1, f.Slow) {
		R.Fired(FSlowIO)
		Sleep(int64(1+R.Choose(SF, 50)) * 1_000_000)
	}
	if f.CrashAt > 0 && f.ops >= f.CrashAt {
		return FCrash
	}
	if f.Rate > 0 && (f.Max == 0 || f.injected < f.Max) && (f.Spare == "" || !strings.HasPrefix(path, f.Spare)) {
		nk := 0
		var en [8]FaultKind
		for _, k := range kinds {
			if f.Kinds[k] {
				en[nk] = k
				nk++
			}
		}
		if nk > 0 {
			v := R.draw(SF, nk+1, func(p *prng) int {
				if p.n(f.Rate) != 0 {
					return 0
				}
				return 1 + p.n(nk)
			})
			if v > 0 {
				k := en[v-1]
				R.Fired(k)
				f.injected++
				if k != FShortRead {
					f.Errs++
				}
				return k
			}
		}
	}
	return -1
}

func (f *FS) crash() {
	R.Fired(FCrash)
	Crash()
}

func (f *FS) mutate(op, path string) {
	if f.OnMutate != nil {
		f.OnMutate(op, path)
	}
}

const (
	ORdonly = 0
	OWronly = 1
	ORdwr   = 2
	OAppend = 0x400
	OCreate = 0x40
	OExcl   = 0x80
	OTrunc  = 0x200
)

func (f *FS) Open(name string, flag int, perm fs.FileMode) (*File, error) {
	h, err := f.open(name, flag, perm)
	if err != nil && Live() {
		f.FailLog.Add(err.Error())
	}
	return h, err
}

func (f *FS) open(name string, flag int, perm fs.FileMode) (*File, error) {
	k := f.call("open", name, FOpenErr)
	if !Live() {
		return nil, perr("open", name, syscall.EINTR)
	}
	if k == FCrash {
		f.crash()
	}
	if k == FOpenErr {
		e := [...]error{syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.EMFILE}[R.Choose(SF, 4)]
		return nil, perr("open", name, e)
	}
	if f.MaxOpen > 0 && f.nopen >= f.MaxOpen {
		return nil, perr("open", name, syscall.EMFILE)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	par, base, n, err := f.walk(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&3 == OWronly || flag&3 == ORdwr
	if n == nil {
		if flag&OCreate == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if f.deny(par, 0300) {
			return nil, perr("open", name, syscall.EACCES)
		}
		n = &Node{Name: base, Mode: perm & fs.ModePerm, fresh: true}
		f.seq++
		n.id = f.seq
		par.insert(n)
		f.mutate("create", name)
	} else {
		if flag&(OCreate|OExcl) == OCreate|OExcl {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if wr && f.deny(n, 0200) || flag&3 != OWronly && f.deny(n, 0400) {
			return nil, perr("open", name, syscall.EACCES)
		}
		if n.Unread != nil && !wr {
			return nil, perr("open", name, n.Unread)
		}
		if flag&OTrunc != 0 && wr {
			n.save()
			n.resize(0)
			f.mutate("truncate", name)
		}
	}
	h := &File{fs: f, n: n, name: name, wr: wr, rd: flag&3 != OWronly, app: flag&OAppend != 0}
	h.next = f.opens
	f.opens = h
	f.nopen++
	if f.nopen > f.peak {
		f.peak = f.nopen
	}
	return h, nil
}

func (n *Node) save() {
	n.dirty = true
}

func (f *FS) closeAll() {
	for h := f.opens; h != nil; h = h.next {
		h.closed = true
	}
	f.opens = nil
	f.nopen = 0
}

// OpenCount and PeakOpen describe open files.
func (f *FS) OpenCount() int { return f.nopen }
func (f *FS) PeakOpen() int  { return f.peak }
func (f *FS) ResetPeak()     { f.peak = f.nopen }
func (f *FS) Ops() int       { return f.ops }
func (f *FS) Injected() int  { return f.injected }
func (f *FS) ResetPlan()     { f.Rate, f.Slow, f.CrashAt, f.Errs, f.injected, f.Max = 0, 0, 0, 0, 0, 0 }

var ioSync byte

func StdFile(name string, b *Buf) *File { return &File{name: name, std: b, wr: true} }

func (h *File) Name() string { return h.name }
func (h *File) Node() *Node  { return h.n }

func (h *File) bad(op string) error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, fs.ErrClosed)
	}
	return nil
}

func (h *File) Read(b []byte) (int, error) {
	n, err := h.readAt(b, h.curPos(), "read")
	if h != nil {
		h.pos += n
	}
	return n, err
}

func (h *File) curPos() int {
	if h == nil {
		return 0
	}
	return h.pos
}

func (h *File) readAt(b []byte, pos int, op string) (int, error) {
	if e := h.bad(op); e != nil {
		return 0, e
	}
	if h.std != nil || h.n == nil {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	k := h.fs.call(op, h.name, FReadErr, FShortRead)
	if !Live() {
		return 0, io.EOF
	}
	switch k {
	case FCrash:
		h.fs.crash()
	case FReadErr:
		return 0, perr(op, h.name, syscall.EIO)
	}
	if h.n.Dir {
		return 0, perr(op, h.name, syscall.EISDIR)
	}
	if !h.rd {
		return 0, perr(op, h.name, syscall.EBADF)
	}
	if h.fs.OnRead != nil {
		h.fs.OnRead(h.name)
	}
	if pos >= h.n.Size {
		return 0, io.EOF
	}
	m := h.n.Size - pos
	if m > len(b) {
		m = len(b)
	}
	if k == FShortRead && m > 1 {
		m = 1 + R.Choose(SF, m-1)
	}
	for i := 0; i < m; i++ {
		b[i] = h.n.Data[pos+i]
	}
	Acquire(unsafe.Pointer(&ioSync))
	return m, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		m, err := h.readAt(b[n:], int(off)+n, "read")
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (h *File) Write(b []byte) (int, error) {
	if e := h.bad("write"); e != nil {
		return 0, e
	}
	if h.std != nil {
		if Live() {
			Y(0)
			h.std.Write(b)
		}
		return len(b), nil
	}
	if h.app {
		h.pos = h.n.Size
	}
	n, err := h.writeAt(b, h.pos)
	h.pos += n
	return n, err
}

func (h *File) writeAt(b []byte, pos int) (int, error) {
	k := h.fs.call("write", h.name, FWriteErr, FNoSpace)
	if !Live() {
		return 0, perr("write", h.name, syscall.EINTR)
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	m := len(b)
	var err error
	switch k {
	case FCrash:
		m = R.Choose(SF, len(b)+1)
		if m < len(b) {
			R.Fired(FTornWrite)
		}
	case FWriteErr:
		m = R.Choose(SF, len(b)+1)
		err = perr("write", h.name, syscall.EIO)
	case FNoSpace:
		m = R.Choose(SF, len(b)+1)
		err = perr("write", h.name, syscall.ENOSPC)
	}
	if pos+m > h.n.Size {
		h.n.resize(pos + m)
	}
	for i := 0; i < m; i++ {
		h.n.Data[pos+i] = b[i]
	}
	if m > 0 {
		h.n.dirty = true
		h.fs.mutate("write", h.name)
	}
	ReleaseMerge(unsafe.Pointer(&ioSync))
	if k == FCrash {
		h.fs.crash()
	}
	return m, err
}

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if e := h.bad("write"); e != nil {
		return 0, e
	}
	return h.writeAt(b, int(off))
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	if e := h.bad("seek"); e != nil {
		return 0, e
	}
	switch whence {
	case 0:
	case 1:
		off += int64(h.pos)
	case 2:
		off += int64(h.n.Size)
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = int(off)
	h.dirRead = false
	return off, nil
}

func (h *File) Close() error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.std != nil {
		return nil
	}
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	k := FaultKind(-1)
	if h.wr {
		k = h.fs.call("close", h.name, FCloseErr)
	} else {
		k = h.fs.call("close", h.name)
	}
	if !Live() {
		return nil
	}
	if k == FCrash {
		h.fs.crash()
	}
	h.closed = true
	for p := &h.fs.opens; *p != nil; p = &(*p).next {
		if *p == h {
			*p = h.next
			h.fs.nopen--
			break
		}
	}
	if k == FCloseErr {
		// write-back failed: part of the data never reached the disk
		if h.n.Size > 0 {
			h.n.resize(R.Choose(SF, h.n.Size))
		}
		return perr("close", h.name, [...]error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[R.Choose(SF, 3)])
	}
	return nil
}

func (h *File) Sync() error {
	if e := h.bad("sync"); e != nil {
		return e
	}
	if h.std != nil {
		return nil
	}
	k := h.fs.call("fsync", h.name, FSyncErr)
	if !Live() {
		return nil
	}
	if k == FCrash {
		h.fs.crash()
	}
	if k == FSyncErr {
		return perr("sync", h.name, syscall.EIO)
	}
	h.n.synced = h.n.Content()
	h.n.dirty = false
	h.n.fresh = false
	return nil
}

func (h *File) Truncate(sz int64) error {
	if e := h.bad("truncate"); e != nil {
		return e
	}
	h.fs.call("truncate", h.name)
	if !Live() {
		return nil
	}
	h.n.resize(int(sz))
	h.n.dirty = true
	h.fs.mutate("truncate", h.name)
	return nil
}

// Info implements fs.FileInfo.
type Info struct {
	name  string
	n     *Node
	size  int64
	mode  fs.FileMode
	mtime int64
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return time.Unix(0, i.mtime) }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() any           { return nil }
func (i *Info) ID() *Node          { return i.n }

func (n *Node) info(name string) *Info {
	m := n.Mode &^ fs.ModeType
	if n.Dir {
		m |= fs.ModeDir
	}
	if n.IsLink {
		m |= fs.ModeSymlink
	}
	m |= n.Kind
	return &Info{name: name, n: n, size: int64(n.Size), mode: m, mtime: n.mtime}
}

func baseName(p string) string {
	p = strings.TrimRight(p, "/")
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	if p == "" {
		return "/"
	}
	return p
}

func (h *File) Stat() (fs.FileInfo, error) {
	if e := h.bad("stat"); e != nil {
		return nil, e
	}
	if h.std != nil {
		return &Info{name: h.name, mode: fs.ModeCharDevice | 0600}, nil
	}
	h.fs.call("fstat", h.name)
	return h.n.info(baseName(h.name)), nil
}

func (f *FS) Stat(name string, follow bool) (fs.FileInfo, error) {
	op := "stat"
	if !follow {
		op = "lstat"
	}
	k := f.call(op, name, FStatErr)
	if k == FCrash {
		f.crash()
	}
	if k == FStatErr {
		return nil, perr(op, name, syscall.EACCES)
	}
	_, _, n, err := f.walk(name, follow)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	return n.info(baseName(name)), nil
}

// DirEnt implements fs.DirEntry.
type DirEnt struct {
	f    *FS
	n    *Node
	path string
	name string
}

func (d *DirEnt) Name() string { return d.name }
func (d *DirEnt) IsDir() bool  { return d.n.Dir }
func (d *DirEnt) Type() fs.FileMode {
	return d.n.info(d.name).Mode().Type()
}
func (d *DirEnt) Info() (fs.FileInfo, error) {
	return d.n.info(d.name), nil
}
func (d *DirEnt) String() string { return fs.FormatDirEntry(d) }

// ReadDir reads a whole directory; entries come in name order when sorted,
// else in a scrambled order as real directories do.
func (f *FS) readDirNodes(h *File) error {
	k := f.call("readdir", h.name, FReadDirErr)
	if !Live() {
		return perr("readdirent", h.name, syscall.EINTR)
	}
	if k == FCrash {
		f.crash()
	}
	if k == FReadDirErr {
		return perr("readdirent", h.name, syscall.EIO)
	}
	if !h.n.Dir {
		return perr("readdirent", h.name, syscall.ENOTDIR)
	}
	h.dirEnts = make([]*Node, h.n.nk)
	for i := range h.dirEnts {
		h.dirEnts[i] = h.n.kids[i]
	}
	// directory order is arbitrary
	g := prng{mix(uint64(len(h.name))*31+uint64(h.n.nk), R.Seed)}
	for i := len(h.dirEnts) - 1; i > 0; i-- {
		j := g.n(i + 1)
		h.dirEnts[i], h.dirEnts[j] = h.dirEnts[j], h.dirEnts[i]
	}
	h.dirPos = 0
	h.dirRead = true
	return nil
}

func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if e := h.bad("readdir"); e != nil {
		return nil, e
	}
	if h.n == nil {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if !h.dirRead {
		if err := h.fs.readDirNodes(h); err != nil {
			if Live() {
				h.fs.FailLog.Add(err.Error())
			}
			return nil, err
		}
	}
	left := len(h.dirEnts) - h.dirPos
	if n > 0 {
		if left == 0 {
			return nil, io.EOF
		}
		if left > n {
			left = n
		}
	}
	r := make([]fs.DirEntry, left)
	for i := range r {
		c := h.dirEnts[h.dirPos+i]
		r[i] = &DirEnt{h.fs, c, h.name, c.Name}
	}
	h.dirPos += left
	return r, nil
}

func (f *FS) Mkdir(name string, perm fs.FileMode) error {
	k := f.call("mkdir", name, FMkdirErr)
	if !Live() {
		return perr("mkdir", name, syscall.EINTR)
	}
	if k == FCrash {
		f.crash()
	}
	if k == FMkdirErr {
		return perr("mkdir", name, [...]error{syscall.ENOSPC, syscall.EACCES}[R.Choose(SF, 2)])
	}
	par, base, n, err := f.walk(name, false)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err == nil && f.deny(par, 0300) {
		err = syscall.EACCES
	}
	if err != nil {
		return perr("mkdir", name, err)
	}
	par.insert(&Node{Name: base, Dir: true, Mode: perm & fs.ModePerm, fresh: true})
	f.mutate("mkdir", name)
	return nil
}

func (f *FS) Remove(name string) error {
	k := f.call("remove", name)
	if !Live() {
		return nil
	}
	if k == FCrash {
		f.crash()
	}
	par, base, n, err := f.walk(name, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.Dir && n.nk > 0 {
		err = syscall.ENOTEMPTY
	}
	if err == nil && par == nil {
		err = syscall.EBUSY
	}
	if err == nil && f.deny(par, 0300) {
		err = syscall.EACCES
	}
	if err != nil {
		return perr("remove", name, err)
	}
	par.remove(base)
	f.mutate("remove", name)
	return nil
}

func (f *FS) Rename(from, to string) error {
	k := f.call("rename", from, FRenameErr)
	le := func(e error) error { return &LinkError{"rename", from, to, e} }
	if !Live() {
		return le(syscall.EINTR)
	}
	if k == FCrash {
		f.crash()
	}
	if k == FRenameErr {
		return le(syscall.EIO)
	}
	p1, b1, n1, err := f.walk(from, false)
	if err == nil && n1 == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return le(err)
	}
	p2, b2, n2, err := f.walk(to, false)
	if err != nil {
		return le(err)
	}
	if n2 == n1 {
		return nil
	}
	if n2 != nil {
		if n2.Dir && !n1.Dir {
			return le(syscall.EEXIST)
		}
		if !n2.Dir && n1.Dir {
			return le(syscall.ENOTDIR)
		}
		if n2.Dir && n2.nk > 0 {
			return le(syscall.ENOTEMPTY)
		}
	}
	p1.remove(b1)
	n1.Name = b2
	p2.insert(n1)
	f.mutate("rename", from)
	f.mutate("rename", to)
	return nil
}

// LinkError mirrors os.LinkError.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

func (f *FS) Symlink(target, name string) error {
	f.call("symlink", name)
	if !Live() {
		return nil
	}
	par, base, n, err := f.walk(name, false)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &LinkError{"symlink", target, name, err}
	}
	par.insert(&Node{Name: base, IsLink: true, Link: target, Mode: 0777})
	f.mutate("symlink", name)
	return nil
}

func (f *FS) Readlink(name string) (string, error) {
	f.call("readlink", name)
	_, _, n, err := f.walk(name, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.IsLink {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.Link, nil
}

func (f *FS) Chmod(name string, m fs.FileMode) error {
	f.call("chmod", name)
	_, _, n, err := f.walk(name, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = m & fs.ModePerm
	f.mutate("chmod", name)
	return nil
}

func (f *FS) Link(old, nw string) error {
	f.call("link", old)
	_, _, n, err := f.walk(old, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &LinkError{"link", old, nw, err}
	}
	p2, b2, n2, err := f.walk(nw, false)
	if err == nil && n2 != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &LinkError{"link", old, nw, err}
	}
	c := *n
	c.Name = b2
	p2.insert(&c)
	f.mutate("link", nw)
	return nil
}

// PowerLoss drops or tears everything that was not synced.
func (f *FS) PowerLoss() {
	R.Fired(FPowerLoss)
	f.powerLoss(f.root)
}

func (f *FS) powerLoss(n *Node) {
	for i := 0; i < n.nk; i++ {
		c := n.kids[i]
		if c.Dir {
			f.powerLoss(c)
			continue
		}
		if !c.dirty && !c.fresh {
			continue
		}
		switch R.Choose(SF, 6) {
		case 0: // everything made it
		case 1: // data lost, file empty
			c.resize(0)
		case 2: // cut short
			c.resize(R.Choose(SF, c.Size+1))
		case 3: // tail is zeros
			if c.Size > 0 {
				for j := R.Choose(SF, c.Size); j < c.Size; j++ {
					c.Data[j] = 0
				}
			}
		case 4: // a hole somewhere
			if c.Size > 0 {
				a := R.Choose(SF, c.Size)
				for j := a; j < c.Size && j < a+64; j++ {
					c.Data[j] = 0
				}
			}
		case 5: // directory entry lost
			if c.fresh {
				n.remove(c.Name)
				i--
				continue
			}
		}
		c.dirty, c.fresh = false, false
	}
}

// Harness-side construction and inspection (no faults, no yields).

func (f *FS) PutFile(p string, data []byte) *Node {
	par := f.PutDir(dirName(p))
	n := &Node{Name: baseName(p), Mode: 0644}
	n.resize(len(data))
	for i := range data {
		n.Data[i] = data[i]
	}
	par.insert(n)
	return n
}

func (f *FS) PutDir(p string) *Node {
	n := f.root
	for _, s := range strings.Split(f.abs(p), "/") {
		if s == "" {
			continue
		}
		_, c := n.find(s)
		if c == nil {
			c = &Node{Name: s, Dir: true, Mode: 0755}
			n.insert(c)
		}
		n = c
	}
	return n
}

func (f *FS) PutLink(p, target string) *Node {
	par := f.PutDir(dirName(p))
	n := &Node{Name: baseName(p), IsLink: true, Link: target, Mode: 0777}
	par.insert(n)
	return n
}

func (f *FS) Lookup(p string) *Node {
	_, _, n, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return n
}

func (f *FS) LookupNoFollow(p string) *Node {
	_, _, n, err := f.walk(p, false)
	if err != nil {
		return nil
	}
	return n
}

func (f *FS) Delete(p string) {
	par, b, _, err := f.walk(p, false)
	if err == nil && par != nil {
		par.remove(b)
	}
}

func dirName(p string) string {
	p = strings.TrimRight(p, "/")
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

// Each calls fn for every node below p (paths start with p).
func (f *FS) Each(p string, fn func(path string, n *Node)) {
	n := f.LookupNoFollow(p)
	if n == nil {
		return
	}
	f.each(strings.TrimRight(p, "/"), n, fn)
}

func (f *FS) each(p string, n *Node, fn func(string, *Node)) {
	if p == "" {
		fn("/", n)
	} else {
		fn(p, n)
	}
	for _, c := range n.Kids() {
		f.each(p+"/"+c.Name, c, fn)
	}
}

func (f *FS) OpenNames() []string {
	var r []string
	for h := f.opens; h != nil; h = h.next {
		r = append(r, h.name)
	}
	return r
}
