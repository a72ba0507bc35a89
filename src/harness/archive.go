package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/hsiaosiyuan0/mole/util"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	real := []string{"util.UnTarGz", "archive/tar", "compress/gzip", "path/filepath (pure parts)"}
	stub := []string{"file system (in memory, with faults, crash and power loss)", "goroutine scheduler"}
	scenarios["C09"] = &Scenario{run: runC09, real: real, stub: stub,
		rule: "A run builds a random tarball (file sizes around buffer boundaries, nested and long names, gzip levels, several gzip members), possibly corrupts or truncates it (the compressed file, or the tar stream in an intact compressed file), and unpacks it (sometimes two at once) with random open/read/write/close/mkdir errors and short reads. The outcome is compared with a reference reading of the tarball bytes by archive/tar and compress/gzip. Non-trivial: a fault or corruption was injected, or two unpackings interleaved."}
	scenarios["C10"] = &Scenario{run: runC10, real: real, stub: stub,
		rule: "A run unpacks a tarball with random ordinary, unusual and escaping entry names and link entries, sometimes with I/O faults; everything outside the target is snapshotted before and compared after, and every file-system mutation's path is checked. Non-trivial: the archive had an unusual or escaping name."}
	scenarios["C11"] = &Scenario{run: runC11, real: real, stub: stub,
		rule: "A run interrupts one to three unpackings of a valid tarball by a crash at a random system call (torn last write), by a power loss on top of it, or by an I/O error, possibly over a target with stale files, then unpacks once more without faults and compares the tree. Non-trivial: at least one unpacking was interrupted."}
}

type tarEnt struct {
	name string
	typ  byte
	data []byte
	link string
	mode int64
}

func (e tarEnt) String() string { return fmt.Sprintf("%q(%c,%d bytes)", e.name, e.typ, len(e.data)) }

func genData(r *sim.Run) []byte {
	sizes := []int{0, 1, 10, 100, 511, 512, 513, 1024, 4095, 4096, 5000, 32768, 32769, 70000}
	n := sizes[r.Small(sim.SW, len(sizes))]
	if r.Choose(sim.SW, 120) == 119 {
		n = []int{131073, 300000, 1<<20 + 7, 2<<20 + 1}[r.Choose(sim.SW, 4)]
		r.Probe("big_file")
	}
	b := make([]byte, n)
	x := uint64(r.Choose(sim.SW, 1000)) + 1
	comp := r.Choose(sim.SW, 2) == 0
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		if comp {
			b[i] = "abcdefgh\n"[x%9]
		} else {
			b[i] = byte(x)
		}
	}
	return b
}

// genEntries makes a well-formed archive: parents before children.
func genEntries(r *sim.Run, max int) []tarEnt {
	var ents []tarEnt
	dirs := []string{""}
	used := map[string]bool{}
	kinds := r.Choose(sim.SW, 8) == 7
	n := 1 + r.Choose(sim.SW, max)
	for i := 0; i < n; i++ {
		d := dirs[r.Choose(sim.SW, len(dirs))]
		nm := []string{"a", "b.js", "c", ".hid", "..x", "a b", "ü", "x.y.z", "...", strings.Repeat("long", 30), "a\\b"}[r.Small(sim.SW, 11)]
		p := d + nm
		if used[p] {
			p += fmt.Sprint(i)
		}
		used[p] = true
		if r.Choose(sim.SW, 3) == 2 {
			ents = append(ents, tarEnt{name: p + "/", typ: tar.TypeDir, mode: []int64{0755, 0755, 0755, 0555, 0700, 0444}[r.Choose(sim.SW, 6)]})
			dirs = append(dirs, p+"/")
		} else {
			e := tarEnt{name: p, typ: tar.TypeReg, data: genData(r), mode: []int64{0644, 0755, 0600, 0444, 0555, 0}[r.Choose(sim.SW, 6)]}
			if kinds && r.Choose(sim.SW, 3) == 2 {
				// files all the same
				e.typ = []byte{tar.TypeCont, tar.TypeGNUSparse}[r.Choose(sim.SW, 2)]
			}
			ents = append(ents, e)
		}
		if kinds && r.Choose(sim.SW, 3) == 2 {
			// entries of other kinds among them, which must not disturb the rest
			n := d + "special" + fmt.Sprint(i)
			switch r.Choose(sim.SW, 5) {
			case 0:
				ents = append(ents, tarEnt{name: n, typ: tar.TypeSymlink, link: "a"})
			case 1:
				ents = append(ents, tarEnt{name: n, typ: tar.TypeSymlink, link: "no/where", mode: 0777})
			case 2:
				ents = append(ents, tarEnt{name: n, typ: tar.TypeLink, link: "a", mode: 0644})
			case 3:
				ents = append(ents, tarEnt{name: "pax_global_header", typ: tar.TypeXGlobalHeader})
			case 4:
				ents = append(ents, tarEnt{name: n, typ: tar.TypeFifo, mode: 0644})
			}
		}
	}
	if r.Choose(sim.SW, 5) == 4 {
		// without entries for (some of) the directories
		all := r.Choose(sim.SW, 2) == 0
		var k []tarEnt
		for _, e := range ents {
			if e.typ != tar.TypeDir || !all && r.Choose(sim.SW, 2) == 0 {
				k = append(k, e)
			}
		}
		if len(k) > 0 {
			ents = k
		}
	}
	if r.Choose(sim.SW, 6) == 5 && len(ents) > 1 {
		// an entry that appears twice: the later one wins
		for _, e := range ents {
			if e.typ == tar.TypeReg {
				e.data = genData(r)
				ents = append(ents, e)
				break
			}
		}
	}
	return ents
}

func packEntries(r *sim.Run, ents []tarEnt) []byte { return packCut(r, ents, nil) }

// packCut damages the tar stream before it is compressed: the checksum of the
// compressed file is right, the archive in it is not.
func packCut(r *sim.Run, ents []tarEnt, cut func([]byte) []byte) []byte {
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	form := []tar.Format{tar.FormatUnknown, tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}[r.Choose(sim.SW, 4)]
	for _, e := range ents {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Mode: e.mode, Size: int64(len(e.data)), Linkname: e.link, ModTime: time.Unix(1600000000, 0)}
		if e.typ == tar.TypeGNUSparse && len(e.name) < 90 {
			tw.Flush()
			tb.Write(sparseEntry(e))
			continue
		} else if e.typ == tar.TypeGNUSparse {
			e.typ, h.Typeflag = tar.TypeReg, tar.TypeReg
		}
		if e.typ != tar.TypeReg && e.typ != tar.TypeCont {
			h.Size = 0
		}
		if e.typ == tar.TypeXGlobalHeader {
			h = &tar.Header{Typeflag: e.typ, Name: e.name, PAXRecords: map[string]string{"comment": "0123456789abcdef"}}
		} else {
			h.Format = form
			if form == tar.FormatUSTAR && (len(e.name) > 90 || strings.ContainsAny(e.name, "ü")) {
				h.Format = tar.FormatUnknown
			}
			if form == tar.FormatPAX {
				h.ModTime = time.Unix(1600000000, 123456000)
				h.PAXRecords = map[string]string{"MOLE.x": "y"}
			}
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if e.typ == tar.TypeReg || e.typ == tar.TypeCont {
			tw.Write(e.data)
		}
	}
	tw.Close()
	if r.Choose(sim.SW, 10) == 9 {
		// padded to the size of a record
		tb.Write(make([]byte, []int{512, 9216, 10240, 40000, 100000, 300000}[r.Choose(sim.SW, 6)]))
	}
	raw := tb.Bytes()
	if cut != nil {
		raw = cut(raw)
	}
	var zb bytes.Buffer
	put := func(b []byte) {
		lv := []int{gzip.DefaultCompression, gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression}[r.Choose(sim.SW, 4)]
		zw, _ := gzip.NewWriterLevel(&zb, lv)
		if r.Choose(sim.SW, 4) == 3 {
			zw.Name = "a.tar"
			zw.Comment = "c"
		}
		zw.Write(b)
		zw.Close()
	}
	if r.Choose(sim.SW, 5) == 4 && len(raw) > 10 {
		k := r.Choose(sim.SW, len(raw))
		put(raw[:k])
		put(raw[k:])
	} else {
		put(raw)
	}
	return zb.Bytes()
}

// sparseEntry is a file with a hole in front, in the old GNU format.
func sparseEntry(e tarEnt) []byte {
	hole := 512 * (len(e.data) % 3)
	b := make([]byte, 512+(len(e.data)+511)/512*512)
	copy(b, e.name)
	put := func(at, w int, n int64) { copy(b[at:], fmt.Sprintf("%0*o", w-1, n)) }
	put(100, 8, e.mode)
	put(108, 8, 0)
	put(116, 8, 0)
	put(124, 12, int64(len(e.data)))
	put(136, 12, 1600000000)
	b[156] = tar.TypeGNUSparse
	copy(b[257:], "ustar  \x00")
	put(386, 12, int64(hole))
	put(398, 12, int64(len(e.data)))
	put(483, 12, int64(hole+len(e.data)))
	sum := int64(8 * ' ')
	for _, c := range b[:512] {
		sum += int64(c)
	}
	copy(b[148:], fmt.Sprintf("%06o\x00 ", sum))
	copy(b[512:], e.data)
	return b
}

type refNode struct {
	dir  bool
	data []byte
}

// refTree reads the tarball with the standard library: the tree it describes
// (cleaned relative path -> node), or the error that a complete reading gives.
func refTree(b []byte) (map[string]refNode, error) {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	tr := tar.NewReader(zr)
	t := map[string]refNode{}
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		p := path.Join("/", h.Name) // only used for archives that do not escape
		if h.FileInfo().IsDir() {
			t[p] = refNode{dir: true}
			continue
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		if h.Typeflag == tar.TypeReg || h.Typeflag == tar.TypeCont || h.Typeflag == tar.TypeGNUSparse {
			t[p] = refNode{data: d}
		}
	}
	if _, err := io.Copy(io.Discard, zr); err != nil {
		return nil, err
	}
	return t, nil
}

// compareTree checks that the target holds what the tree says.
func compareTree(f *sim.FS, dist string, t map[string]refNode) string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		n := f.Lookup(filepath.Join(dist, p))
		w := t[p]
		switch {
		case n == nil:
			return fmt.Sprintf("%q is missing", p)
		case n.Dir != w.dir:
			return fmt.Sprintf("%q has the wrong kind", p)
		case !w.dir && !bytes.Equal(n.Content(), w.data):
			return fmt.Sprintf("%q has the wrong content (%d bytes on disk, %d in the archive)", p, n.Size, len(w.data))
		}
	}
	return ""
}

func distForm(r *sim.Run, f *sim.FS) string {
	f.PutDir("/t/dist")
	f.Cwd = "/t"
	switch r.Choose(sim.SW, 6) {
	case 1:
		return "/t/dist/"
	case 2:
		return "dist"
	case 3:
		return "./dist"
	case 4:
		f.Cwd = "/t/dist"
		return "."
	case 5:
		return "/t/x/../dist"
	}
	return "/t/dist"
}

func ioFaults(r *sim.Run, f *sim.FS, kinds ...sim.FaultKind) {
	for _, k := range kinds {
		if r.Choose(sim.SW, 3) > 0 {
			f.Kinds[k] = true
		}
	}
	f.Rate = []int{2, 5, 12, 30, 80}[r.Choose(sim.SF, 5)]
	f.Max = 1 + r.Choose(sim.SF, 3)
}

func staleTarget(r *sim.Run, f *sim.FS, t map[string]refNode) {
	var ps []string
	for p, n := range t {
		if !n.dir {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		if r.Choose(sim.SW, 2) == 0 {
			continue
		}
		n := t[p]
		var b []byte
		switch r.Choose(sim.SW, 4) {
		case 0: // longer
			b = append(append([]byte{}, n.data...), "stale tail stale tail"...)
		case 1: // same size, other content
			b = bytes.Repeat([]byte{'#'}, len(n.data))
		case 2: // a prefix
			b = append([]byte{}, n.data[:len(n.data)/2]...)
		case 3:
			b = append(bytes.Repeat([]byte{'z'}, 300), n.data...)
		}
		f.PutFile("/t/dist"+p, b)
	}
}

func untar(v *V, f *sim.FS, jobs [][2]string) (errs []error, w *sim.World, open int) {
	errs = make([]error, len(jobs))
	w = sim.Start(sim.Config{Limit: 300000, FS: f}, func() {
		if len(jobs) == 1 {
			errs[0] = util.UnTarGz(jobs[0][0], jobs[0][1])
		} else {
			var ts []*sim.Task
			for i := range jobs {
				i := i
				ts = append(ts, sim.Go("untar", func() { errs[i] = util.UnTarGz(jobs[i][0], jobs[i][1]) }))
			}
			for _, t := range ts {
				t.Join()
			}
		}
		open = f.OpenCount()
	})
	for i, j := range jobs {
		v.H("UnTarGz(%q, %q) %s -> %v", j[0], j[1], w.Outcome, errs[i])
	}
	v.outcome = w.Outcome.String()
	if w.Outcome == sim.Panicked {
		v.Fail("panic", "UnTarGz panicked: %s\n%s", w.PanicVal, stackOf(w.Stack))
	}
	if w.Outcome == sim.Deadlock || w.Outcome == sim.StepLimit {
		v.Fail("hang", "UnTarGz never returned: %s", strings.Join(w.Leaked, "; "))
	}
	return
}

func hardFaults(r *sim.Run) int {
	n := 0
	for _, k := range []sim.FaultKind{sim.FReadErr, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FMkdirErr} {
		n += int(r.Faults[k])
	}
	return n
}

func noteTree(r *sim.Run, f *sim.FS) {
	f.Each("/", func(p string, n *sim.Node) {
		r.NoteString(p)
		if !n.Dir {
			r.NoteString(string(n.Content()))
		}
	})
}

func runC09(r *sim.Run, v *V) {
	f := sim.NewFS()
	dist := distForm(r, f)
	f.User = r.Choose(sim.SW, 3) == 2
	max := 6
	if r.Choose(sim.SW, 5) == 4 {
		max = 40
	}
	ents := genEntries(r, max)
	b := packEntries(r, ents)
	desc := fmt.Sprint(ents)
	mode := r.Choose(sim.SW, 6)
	orig, _ := refTree(b)
	switch mode {
	case 5:
		b = packCut(r, ents, func(raw []byte) []byte {
			n := r.Choose(sim.SF, len(raw))
			if r.Choose(sim.SF, 2) == 0 {
				n = n / 512 * 512
			}
			desc += fmt.Sprintf(" tar stream cut to %d of %d bytes before compression", n, len(raw))
			r.Fired(sim.FTruncate)
			return raw[:n]
		})
	case 1:
		n := r.Choose(sim.SF, len(b))
		if r.Choose(sim.SF, 2) == 0 {
			n = len(b) - 1 - r.Choose(sim.SF, 20)%len(b)
			if n < 0 {
				n = 0
			}
		}
		b = b[:n]
		desc += fmt.Sprintf(" truncated to %d bytes", n)
		r.Fired(sim.FTruncate)
	case 2:
		for k := 1 + r.Choose(sim.SF, 2); k > 0; k-- {
			i := r.Choose(sim.SF, len(b))
			if r.Choose(sim.SF, 3) == 0 {
				i = len(b) - 1 - r.Choose(sim.SF, 8)
			}
			b[i] ^= 1 << r.Choose(sim.SF, 8)
			desc += fmt.Sprintf(" byte %d of %d flipped", i, len(b))
			r.Fired(sim.FBitFlip)
		}
	case 3:
		ioFaults(r, f, sim.FReadErr, sim.FShortRead, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FMkdirErr)
	}
	want, refErr := refTree(b)
	if mode == 2 && refErr == nil {
		for p := range want {
			if _, ok := orig[p]; !ok {
				return // the flip changed an entry name and still checks out: not a tree we can judge
			}
		}
	}
	if r.Choose(sim.SW, 3) == 2 {
		staleTarget(r, f, orig)
	}
	f.PutFile("/t/in.tgz", b)
	jobs := [][2]string{{"/t/in.tgz", dist}}
	var want2 map[string]refNode
	if mode == 4 {
		e2 := genEntries(r, 8)
		b2 := packEntries(r, e2)
		want2, _ = refTree(b2)
		f.PutFile("/t/in2.tgz", b2)
		f.PutDir("/t/dist2")
		jobs = append(jobs, [2]string{"/t/in2.tgz", "/t/dist2"})
		f.Slow = r.Choose(sim.SF, 3) * 3
	}
	f.ResetPeak()
	errs, w, open := untar(v, f, jobs)
	v.nt = mode > 0
	noteTree(r, f)
	v.sample = desc + ": " + strings.Join(v.hist.All(), "; ")
	if v.Failed() || w.Outcome != sim.Completed {
		return
	}
	if open != 0 {
		v.Fail("file-left-open", "%s: %d files are still open after UnTarGz returned %v", desc, open, errs[0])
		return
	}
	if f.PeakOpen() > 12 && len(ents) > 12 {
		v.Fail("files-pile-up", "%s: %d files were open at the same time", desc, f.PeakOpen())
		return
	}
	clean := mode == 0 || mode == 4
	if errs[0] == nil {
		if refErr != nil {
			v.Fail("corruption-missed", "%s: UnTarGz reported success although the tarball is damaged (%v)", desc, refErr)
			return
		}
		if n := hardFaults(r); n > 0 {
			v.Fail("fault-swallowed", "%s: UnTarGz reported success although %d I/O call(s) failed", desc, n)
			return
		}
		if d := compareTree(f, "/t/dist", want); d != "" {
			v.Fail("wrong-tree", "%s: UnTarGz reported success but %s", desc, d)
			return
		}
	} else if clean {
		v.Fail("spurious-error", "%s: UnTarGz failed with %v although nothing went wrong", desc, errs[0])
		return
	}
	if mode == 4 {
		if errs[1] != nil {
			v.Fail("spurious-error", "%s: a concurrent UnTarGz failed with %v although nothing went wrong", desc, errs[1])
		} else if d := compareTree(f, "/t/dist2", want2); d != "" {
			v.Fail("wrong-tree", "%s: a concurrent UnTarGz reported success but %s", desc, d)
		}
	}
}

func snapshot(f *sim.FS, except string) map[string]string {
	m := map[string]string{}
	f.Each("/", func(p string, n *sim.Node) {
		if p == except || strings.HasPrefix(p, except+"/") {
			return
		}
		s := "d"
		if n.IsLink {
			s = "l" + n.Link
		} else if !n.Dir {
			s = "f" + string(n.Content())
		}
		m[p] = s
	})
	return m
}

// randomName makes up a path; where: 0 inside, 1 out and in again (or the target itself),
// 2 outside of the target.
func randomName(r *sim.Run, i int) (name string, where int) {
	var c []string
	for n := 1 + r.Choose(sim.SW, 6); n > 0; n-- {
		c = append(c, []string{"..", "rx", "..", ".", "", "out", "..ry", "...r"}[r.Choose(sim.SW, 8)])
	}
	if r.Choose(sim.SW, 6) == 5 {
		// a long way in, and out again
		k := 5 + r.Choose(sim.SW, 60)
		l := append(strings.Split(strings.Repeat("dir ", k)+"dir", " "), strings.Split(strings.Repeat(".. ", k)+"..", " ")...)
		c = append(l, c...)
	}
	c = append(c, fmt.Sprintf("z%d", i))
	depth, low := 0, 0
	for _, x := range c {
		switch x {
		case "..":
			depth--
		case ".", "":
		default:
			depth++
		}
		if depth < low {
			low = depth
		}
	}
	name = strings.Join(c, "/")
	rel := path.Clean("q/q/q/q/q/q/q/" + name) // at most six levels up
	switch {
	case !strings.HasPrefix(rel, "q/q/q/q/q/q/q/"):
		where = 2
	case low < 0:
		where = 1
	}
	return name, where
}

func runC10(r *sim.Run, v *V) {
	f := sim.NewFS()
	dist := distForm(r, f)
	f.PutDir("/t/dist-evil")
	f.PutFile("/t/dist-evil/keep", []byte("keep"))
	f.PutFile("/t/evil", []byte("keep"))
	f.PutFile("/t/distx", []byte("keep"))
	f.PutFile("/etc/passwd", []byte("root"))
	f.PutDir("/t/out")
	f.PutFile("/t/out/a", []byte("keep"))
	ents := genEntries(r, 4)
	for i := range ents {
		if ents[i].typ == tar.TypeGNUSparse {
			ents[i].typ = tar.TypeReg
		}
	}
	escapes := false
	unusual, ambiguous := false, false
	var extra []tarEnt
	reg := func(n string) {
		extra = append(extra, tarEnt{name: n, typ: tar.TypeReg, data: []byte("payload"), mode: 0644})
	}
	dir := func(n string) {
		extra = append(extra, tarEnt{name: n, typ: tar.TypeDir, mode: 0755})
	}
	links := false
	for k := r.Choose(sim.SW, 4); k > 0; k-- {
		unusual = true
		switch r.Choose(sim.SW, 29) {
		case 26:
			dir([]string{"..", "../", "../..", "a1/../../", "/..", "./../"}[r.Choose(sim.SW, 6)])
			escapes = true
		case 27, 28:
			n, out := randomName(r, k)
			if out == 2 {
				escapes = true
			}
			ambiguous = ambiguous || out == 1
			if r.Choose(sim.SW, 3) == 2 {
				dir(n + "/")
			} else {
				reg(n)
			}
		case 0:
			reg("../evil")
			escapes = true
		case 1:
			reg("a1/../../evil")
			escapes = true
		case 2:
			reg("/../evil")
			escapes = true
		case 3:
			dir("../newdir/")
			escapes = true
		case 4:
			reg("../dist-evil/keep")
			escapes = true
		case 5:
			reg("../distx")
			escapes = true
		case 6:
			reg("../../etc/passwd")
			escapes = true
		case 7:
			reg("../../../../../../../../etc/passwd")
			escapes = true
		case 8:
			reg("./../out/a")
			escapes = true
		case 9:
			reg("q/./.././../evil")
			escapes = true
		case 10:
			reg("..//evil")
			escapes = true
		case 11:
			dir("/../out/sub/")
			escapes = true
		case 12: // absolute names land inside
			dir("/abs/")
			reg("/abs/file")
		case 13:
			reg("nothere/../inside1")
		case 14:
			reg("./inside2")
		case 15:
			dir("..odd/")
			reg("..odd/file")
		case 16:
			reg("....")
		case 17:
			reg("../dist/inside3") // out and back in: may be refused
			ambiguous = true
		case 18:
			dir("dd//")
			reg("dd//inside4")
		case 19:
			reg("a/b/../../inside5")
		case 20:
			dir("./")
		case 21:
			reg("..\\evil")
		case 22:
			extra = append(extra, tarEnt{name: "lnk1", typ: tar.TypeSymlink, link: "/t/out"})
			reg("lnk1/a")
			links = true
		case 23:
			extra = append(extra, tarEnt{name: "lnk2", typ: tar.TypeSymlink, link: "../evil"})
			reg("lnk2")
			links = true
		case 24:
			extra = append(extra, tarEnt{name: "lnk3", typ: tar.TypeLink, link: "../evil"})
			reg("lnk3")
			links = true
		case 25:
			extra = append(extra, tarEnt{name: "lnk4", typ: tar.TypeSymlink, link: ".."})
			dir("lnk4/made/")
			reg("lnk4/made/x")
			links = true
		}
	}
	// dot-only names inside would be the target itself; the rest is interleaved
	for i := range extra {
		if r.Choose(sim.SW, 3) == 0 && i == 0 && !links && len(extra) == 1 {
			at := r.Choose(sim.SW, len(ents)+1)
			ents = append(ents[:at:at], append([]tarEnt{extra[0]}, ents[at:]...)...)
			extra = nil
		}
	}
	ents = append(ents, extra...)
	b := packEntries(r, ents)
	desc := fmt.Sprintf("target %q %v", dist, ents)
	faulty := r.Choose(sim.SW, 4) == 3
	if faulty {
		ioFaults(r, f, sim.FReadErr, sim.FShortRead, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FMkdirErr, sim.FStatErr)
	}
	if r.Choose(sim.SW, 8) == 7 {
		f.CrashAt = 1 + r.Choose(sim.SF, 60)
	}
	f.PutFile("/in.tgz", b)
	before := snapshot(f, "/t/dist")
	var bad string
	f.OnMutate = func(op, p string) {
		a := p
		if !strings.HasPrefix(a, "/") {
			a = f.Cwd + "/" + a
		}
		a = filepath.Clean(a)
		if a != "/t/dist" && !strings.HasPrefix(a, "/t/dist/") && bad == "" {
			bad = op + " " + p
		}
	}
	errs, w, _ := untar(v, f, [][2]string{{"/in.tgz", dist}})
	f.OnMutate = nil
	v.nt = unusual
	noteTree(r, f)
	v.sample = desc + ": " + strings.Join(v.hist.All(), "; ")
	if v.Failed() {
		return
	}
	if bad != "" {
		v.Fail("escaped", "%s: UnTarGz did %s, outside the target", desc, bad)
		return
	}
	after := snapshot(f, "/t/dist")
	for _, p := range sortedKeys(before) {
		if after[p] != before[p] {
			v.Fail("escaped", "%s: %q outside the target was changed", desc, p)
			return
		}
	}
	for _, p := range sortedKeys(after) {
		if _, ok := before[p]; !ok {
			v.Fail("escaped", "%s: %q was created outside the target", desc, p)
			return
		}
	}
	if w.Outcome != sim.Completed {
		return
	}
	if escapes && errs[0] == nil {
		v.Fail("escape-accepted", "%s: UnTarGz reported success for an archive with an escaping entry", desc)
		return
	}
	if !escapes && !links && !faulty && !ambiguous {
		if errs[0] != nil {
			v.Fail("inside-refused", "%s: UnTarGz failed with %v although all entries stay inside", desc, errs[0])
			return
		}
		want := map[string]refNode{}
		for _, e := range ents {
			p, _ := filepath.Rel("/t/dist", filepath.Join("/t/dist", e.name))
			want["/"+p] = refNode{dir: e.typ == tar.TypeDir, data: e.data}
		}
		if d := compareTree(f, "/t/dist", want); d != "" {
			v.Fail("wrong-tree", "%s: UnTarGz reported success but %s", desc, d)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runC11(r *sim.Run, v *V) {
	f := sim.NewFS()
	dist := distForm(r, f)
	f.User = r.Choose(sim.SW, 3) == 2
	max := 6
	if r.Choose(sim.SW, 5) == 4 {
		max = 25
	}
	ents := genEntries(r, max)
	b := packEntries(r, ents)
	want, err := refTree(b)
	if err != nil {
		panic(err)
	}
	desc := fmt.Sprint(ents)
	if r.Choose(sim.SW, 3) == 2 {
		staleTarget(r, f, want)
	}
	// the tarball itself is durable
	f.PutFile("/t/in.tgz", b)
	jobs := [][2]string{{"/t/in.tgz", dist}}
	for k := 1 + r.Choose(sim.SW, 3); k > 0; k-- {
		f.ResetPlan()
		base := f.Ops()
		how := r.Choose(sim.SW, 4)
		if how == 3 {
			ioFaults(r, f, sim.FReadErr, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FMkdirErr)
		} else {
			f.CrashAt = base + 1 + r.Choose(sim.SF, 6*len(ents)+12)
		}
		_, w, _ := untar(v, f, jobs)
		if v.Failed() {
			return
		}
		if w.Outcome == sim.Crashed || hardFaults(r) > 0 {
			v.nt = true
		}
		if how >= 1 && how <= 2 {
			f.PowerLoss()
			v.H("power loss")
		}
	}
	f.ResetPlan()
	errs, w, _ := untar(v, f, jobs)
	noteTree(r, f)
	v.sample = desc + ": " + strings.Join(v.hist.All(), "; ")
	if v.Failed() {
		return
	}
	if w.Outcome != sim.Completed || errs[0] != nil {
		v.Fail("not-recovered", "%s: unpacking again without faults failed: %v (%s)", desc, errs[0], w.Outcome)
		return
	}
	if d := compareTree(f, "/t/dist", want); d != "" {
		v.Fail("wrong-tree", "%s: after %s, unpacking again reported success but %s", desc, strings.Join(v.hist.All(), "; "), d)
	}
}
