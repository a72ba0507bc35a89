package main

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/hsiaosiyuan0/mole/util"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	real := []string{"util.DirWalker", "container/list (instrumented copy)", "path/filepath (pure parts)"}
	stub := []string{"goroutine scheduler", "channels, select, sync (simulated, with happens-before annotations)", "file system (in memory, with faults)", "clock and timers", "handlers and stopping goroutines (harness)"}
	base := "A run builds a random directory tree on the simulated file system (odd names, empty and deep directories, symlinks, several spellings of the root), then one to three walks with a random worker count under a seeded schedule; handlers sleep or yield. "
	for id, p := range map[string]struct {
		f    func(*walkRun)
		rule string
	}{
		"C01": {checkC01, base + "The multiset of handler calls of every walk that ends without an error is compared with the tree. Non-trivial: at least two tasks called handlers."},
		"C02": {checkC02, base + "Some runs add read errors and Stop calls. The start/return stamps of all handler calls are checked for directory-before-contents and lexical one-at-a-time files. Non-trivial: two handler calls of different directories overlapped."},
		"C03": {checkC03, base + "Runs inject unreadable, vanishing and failing directories and Stop calls from handlers and other tasks before, during and after walks; every Walk and Stop must return within the step limit and Err must be one of the errors produced during that walk. Non-trivial: a walk was stopped or failed."},
		"C04": {checkC04, base + "Faults and Stop calls as for C03; after the last walk the simulation runs to quiescence and any handler activity after a Walk returned, or task still alive, is a violation. Non-trivial: a walk was stopped or failed, or several walks ran."},
	} {
		id, p := id, p
		scenarios[id] = &Scenario{real: real, stub: stub, rule: p.rule, run: func(r *sim.Run, v *V) { runWalk(r, v, id, p.f) }}
	}
}

type hEvent struct {
	path       string
	dir        bool
	start, end uint64
	task       int
	walk       int
}

type stopCall struct {
	err       error
	call, ret uint64
	handler   bool
	walk      int
}

type walkRec struct {
	call, ret uint64
	err       error
	fails     int // index into FailLog at the start
	failsEnd  int
}

type walkRun struct {
	r     *sim.Run
	v     *V
	fs    *sim.FS
	w     *sim.World
	root  string
	conc  int
	want  map[string]bool // cleaned path -> is directory
	evs   sim.List[hEvent]
	stops sim.List[stopCall]
	walks sim.List[walkRec]
	cur   int
	fault bool // faults or stops are possible
	clean bool // no faults, no stops, root is a directory

	startOther func()
}

var namePool = []string{"a", "b", "c", "a.js", "A", "Z", ".hid", "..x", "a b", "ü", "日本", "-x", "_", "a-b", "a.b", "0", "10", "9", "x\ny", "*", "%s", "node_modules", "[z]", "~", "a\\b", strings.Repeat("n", 200)}

// names which some programs give a special meaning
var oddNames = []string{" a", "a ", " ", "\ta", "a\r", "\n", "a.", "...", "a..b", ".git", ".DS_Store", "vendor", "dist", "build", "target", "test", "__tests__", "a.test.js", "x_test.go", "a~", "#a#", ".a.swp", "Thumbs.db", "a.min.js", "a.d.ts", "a.tmp", "a.bak", "\xff\xfe", "é", "e\u0301", "$HOME", "~root", "a:b", "CON", "a,b", "a;b", "'a'", "\"", "`a`", "\x01", "\u200b", "\ufeffa", "?", "a%2fb", "%00", "{a,b}", "!a", "@a", "&", "|", "<", "a=b", "+", strings.Repeat("m", 240), "package.json", "index.js", "B", "NODE_MODULES", "Node_Modules", "İ", "ß", "SS", "ﬁ"}

func (wr *walkRun) build() {
	r := wr.r
	f := sim.NewFS()
	wr.fs = f
	base := "/w/root"
	f.PutDir(base)
	n := r.Choose(sim.SW, 14)
	switch r.Choose(sim.SW, 12) {
	case 11:
		n = 40 + r.Choose(sim.SW, 120)
	case 10:
		n = 0
	}
	dirs := []string{base}
	dirBias := 2 + r.Choose(sim.SW, 4)
	odd := r.Choose(sim.SW, 4) == 3
	for i := 0; i < n; i++ {
		d := dirs[r.Choose(sim.SW, len(dirs))]
		if r.Choose(sim.SW, 4) == 3 {
			d = dirs[len(dirs)-1] // grow deep
		}
		nm := namePool[r.Small(sim.SW, len(namePool))]
		if odd && r.Choose(sim.SW, 2) == 1 {
			nm = oddNames[r.Choose(sim.SW, len(oddNames))]
		}
		p := d + "/" + nm
		if f.LookupNoFollow(p) != nil {
			p = d + "/" + nm + strconv.Itoa(i)
		}
		switch k := r.Choose(sim.SW, 2*dirBias); {
		case k == 0 && r.Choose(sim.SW, 3) == 2:
			f.PutFile(p, nil).Kind = []fs.FileMode{fs.ModeNamedPipe, fs.ModeSocket, fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeIrregular}[r.Choose(sim.SW, 5)]
		case k == 0:
			tg := []string{"/w/root", "..", ".", "nowhere", "/w/root/a", "/w/other"}[r.Choose(sim.SW, 6)]
			f.PutLink(p, tg)
		case k <= dirBias:
			f.PutDir(p)
			dirs = append(dirs, p)
		default:
			f.PutFile(p, []byte("x"))
		}
	}
	if r.Choose(sim.SW, 30) == 29 {
		// a big directory or a deep one
		switch d, n := dirs[r.Choose(sim.SW, len(dirs))], 70+r.Choose(sim.SW, 250); r.Choose(sim.SW, 4) {
		case 0:
			if r.Choose(sim.SW, 4) == 3 {
				n *= 4
			}
			for i := 0; i < n; i++ {
				f.PutFile(d+"/w"+strconv.Itoa(i), []byte("x"))
			}
		case 1:
			if r.Choose(sim.SW, 6) == 5 {
				n *= 5
			}
			for i := 0; i < n; i++ {
				f.PutDir(d + "/w" + strconv.Itoa(i))
			}
		case 2:
			if r.Choose(sim.SW, 6) == 5 {
				n *= 4
			}
			for i := 0; i < n/3; i++ {
				d += "/d"
				f.PutDir(d)
			}
			f.PutFile(d+"/f", []byte("x"))
		case 3:
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					f.PutDir(d + "/w" + strconv.Itoa(i))
					f.PutFile(d+"/w"+strconv.Itoa(i)+"/f", []byte("x"))
				} else {
					f.PutFile(d+"/w"+strconv.Itoa(i), []byte("x"))
				}
			}
		}
		r.Probe("big_tree")
	}
	f.PutDir("/w/other")
	f.PutFile("/w/other/outside", []byte("x"))
	f.Cwd = "/w"
	switch r.Choose(sim.SW, 8) {
	case 1:
		wr.root = base + "/"
	case 2:
		wr.root = "root"
	case 3:
		wr.root = "./root"
	case 4:
		f.Cwd = base
		wr.root = "."
	case 5:
		wr.root = "/w/other/../root"
	default:
		wr.root = base
	}
	wr.want = map[string]bool{}
	f.Each(base, func(p string, nd *sim.Node) {
		rel := strings.TrimPrefix(p, base)
		wr.want[filepath.Clean(filepath.Join(wr.root, rel))] = nd.Dir
	})
	wr.want[filepath.Clean(wr.root)] = true
	wr.conc = []int{0, 1, 2, 3, 4, 5, 8, 16, 33, 70}[r.Small(sim.SW, 10)]
}

func runWalk(r *sim.Run, v *V, prop string, check func(*walkRun)) {
	wr := &walkRun{r: r, v: v}
	wr.build()
	f := wr.fs
	if r.Choose(sim.SW, 3) == 0 {
		f.Slow = 2 + r.Choose(sim.SF, 8)
	}
	faultsOK := prop != "C01"
	if prop == "C01" && r.Choose(sim.SW, 6) == 5 {
		faultsOK = true // an error that is swallowed must not look like a finished walk
	}
	if prop == "C02" && r.Choose(sim.SW, 3) > 0 {
		faultsOK = false
	}
	wr.clean = true
	var dirs []string
	f.Each("/w/root", func(p string, n *sim.Node) {
		if n.Dir {
			dirs = append(dirs, p)
		}
	})
	vanish := ""
	if faultsOK && r.Choose(sim.SW, 4) > 0 {
		switch r.Choose(sim.SW, 5) {
		case 0:
			f.Kinds[sim.FReadDirErr], f.Kinds[sim.FOpenErr] = true, true
			f.Rate = 1 + r.Choose(sim.SF, 12)
		case 1: // permission denied here and there
			for k := 0; k <= r.Choose(sim.SW, 4); k++ {
				d := f.Lookup(dirs[r.Choose(sim.SW, len(dirs))])
				d.Unread = syscall.EACCES
			}
		case 2:
			for _, d := range dirs {
				if r.Choose(sim.SW, 2) == 0 || d == dirs[len(dirs)-1] {
					f.Lookup(d).Unread = syscall.EIO
				}
			}
		case 3:
			vanish = dirs[r.Choose(sim.SW, len(dirs))]
		case 4:
			wr.root = []string{"/w/none", "/w/other/outside", "", "none/x"}[r.Choose(sim.SW, 4)]
		}
		wr.clean = false
	}
	stopPlan := map[int]int{} // handler call number -> number of Stop calls
	var extStops []int64
	pre, post := 0, 0
	if faultsOK && r.Choose(sim.SW, 3) > 0 {
		wr.clean = false
		for k := r.Choose(sim.SW, 4); k > 0; k-- {
			stopPlan[r.Small(sim.SW, len(wr.want)+1)] = 1 + r.Choose(sim.SW, 2)
		}
		if r.Choose(sim.SW, 6) == 5 {
			for i := 0; i < 300; i++ {
				stopPlan[i] = 1
			}
		}
		for k := r.Choose(sim.SW, 3); k > 0; k-- {
			extStops = append(extStops, int64(r.Choose(sim.SW, 40)))
		}
		if r.Choose(sim.SW, 4) == 3 {
			pre = 1 + r.Choose(sim.SW, 2)
		}
		if r.Choose(sim.SW, 4) == 3 {
			post = 1 + r.Choose(sim.SW, 2)
		}
	}
	nwalk := 1
	if r.Choose(sim.SW, 3) == 2 {
		nwalk = 2 + r.Choose(sim.SW, 2)
	}
	healAfter := 99
	if r.Choose(sim.SW, 2) == 1 {
		healAfter = 1
	}
	slowH := r.Choose(sim.SW, 4)
	if slowH == 0 && prop == "C02" {
		slowH = r.Choose(sim.SW, 4)
	}
	gap := r.Choose(sim.SW, 3)
	nh := 0
	var dw *util.DirWalker
	doStop := func(handler bool, walk int) {
		e := fmt.Errorf("stop-%d", wr.stops.Len())
		i := wr.stops.Len()
		wr.stops.Add(stopCall{err: e, call: sim.Seq(), handler: handler, walk: walk})
		r.Fired(sim.FStopCall)
		dw.Stop(e)
		wr.stops.Ptr(i).ret = sim.Seq()
	}
	handle := func(p string, dir bool, d *util.DirWalker) {
		i := wr.evs.Len()
		wr.evs.Add(hEvent{path: p, dir: dir, task: sim.CurID(), walk: wr.cur, start: sim.Seq()})
		k := nh
		nh++
		if d != dw {
			wr.v.Fail("wrong-walker", "the handler got a walker that is not its own")
		}
		switch slowH {
		case 1:
			sim.Y(0)
		case 2:
			if r.Choose(sim.SS, 4) == 3 {
				sim.Sleep(int64(1+r.Choose(sim.SS, 20)) * 1e6)
			}
		case 3:
			for j := r.Choose(sim.SS, 30); j > 0; j-- {
				sim.Y(0)
			}
		}
		for j := stopPlan[k]; j > 0; j-- {
			doStop(true, wr.cur)
		}
		wr.evs.Ptr(i).end = sim.Seq()
	}
	// another walker in the same process, at the same time, on a tree of its own
	other := r.Choose(sim.SW, 5) == 4
	var oevs sim.List[string]
	owant := map[string]bool{"/o": true}
	odone, oerr := false, error(nil)
	if other {
		oc := 1 + r.Choose(sim.SW, 3)
		f.PutDir("/o")
		for i := 1 + r.Choose(sim.SW, 8); i > 0; i-- {
			d := "/o"
			if i > 3 {
				d = "/o/b"
			}
			p := d + "/" + []string{"a", "b", "c"}[i%3]
			if i%2 == 0 || p == "/o/b" {
				f.PutDir(p)
			} else if f.LookupNoFollow(p) == nil {
				f.PutFile(p, []byte("x"))
			}
		}
		f.Each("/o", func(p string, nd *sim.Node) { owant[p] = nd.Dir })
		f.Spare = "/o"
		defer func() {
			if v.Failed() || wr.w == nil || wr.w.Outcome == sim.Panicked {
				return
			}
			switch {
			case !odone:
				if prop == "C03" || prop == "C01" {
					v.Fail("other-unfinished", "%s: another walk at the same time, of a tree without faults, never finished (%s; blocked: %s)", wr.describe(), wr.w.Outcome, strings.Join(wr.w.Leaked, "; "))
				}
			case prop == "C03" && oerr != nil:
				v.Fail("other-error", "%s: another walk at the same time, of a tree without faults, ended with %v", wr.describe(), oerr)
			case prop == "C01":
				oseen := map[string]int{}
				for _, p := range oevs.All() {
					oseen[p]++
				}
				if oerr != nil {
					v.Fail("other-error", "%s: another walk at the same time, of a tree without faults, ended with %v", wr.describe(), oerr)
				}
				for _, p := range sortedKeys(owant) {
					if oseen[p] != 1 {
						v.Fail("other-visited-wrong", "%s: another walk at the same time visited %q %d times", wr.describe(), p, oseen[p])
						return
					}
				}
				for _, p := range sortedKeys(oseen) {
					if _, ok := owant[p]; !ok {
						v.Fail("other-unexpected-entry", "%s: another walk at the same time called its handler with %q", wr.describe(), p)
						return
					}
				}
			}
		}()
		wr.startOther = func() {
			var ow *util.DirWalker
			ow = util.NewDirWalker("/o", oc, func(p string, dir bool, d *util.DirWalker) {
				oevs.Add(p)
				if d != ow {
					oevs.Add("a walker which is not the own one")
				}
				if want, ok := owant[p]; ok && want != dir {
					oevs.Add("wrong kind of " + p)
				}
				sim.Y(0)
			})
			sim.Go("other walker", func() {
				ow.Walk()
				oerr = ow.Err()
				odone = true
			})
		}
	}
	healed := false
	w := sim.Start(sim.Config{Limit: 400000 + 3000*uint64(len(wr.want)), FS: f}, func() {
		if other {
			wr.startOther()
		}
		dw = util.NewDirWalker(wr.root, wr.conc, handle)
		for ; pre > 0; pre-- {
			doStop(false, -1)
		}
		for _, at := range extStops {
			at := at
			sim.Go("stopper", func() {
				sim.Sleep(at * 1e5)
				for j := int64(0); j < at; j++ {
					sim.Y(0)
				}
				doStop(false, -1)
			})
		}
		if vanish != "" && vanish != "/w/root" {
			sim.Go("vanisher", func() {
				for j := r.Choose(sim.SS, 200); j > 0; j-- {
					sim.Y(0)
				}
				f.Delete(vanish)
				r.Fired(sim.FVanish)
			})
		}
		for i := 0; i < nwalk; i++ {
			if i >= healAfter && !healed {
				// faults stop: the next walk has to work
				healed = true
				f.Rate = 0
				for _, d := range dirs {
					if n := f.Lookup(d); n != nil {
						n.Unread = nil
					}
				}
				for k := range stopPlan {
					delete(stopPlan, k)
				}
			}
			wr.cur = i
			wr.walks.Add(walkRec{call: sim.Seq(), fails: f.FailLog.Len()})
			dw.Walk()
			wk := wr.walks.Ptr(i)
			wk.err = dw.Err()
			wk.ret = sim.Seq()
			wk.failsEnd = f.FailLog.Len()
			switch gap {
			case 1:
				sim.Sleep(1e9)
			case 2:
				sim.Gosched()
			}
		}
		for ; post > 0; post-- {
			doStop(false, -1)
		}
		wr.cur = -1
	})
	wr.w = w
	v.outcome = w.Outcome.String()
	r.NoteString(v.outcome)
	for i := 0; i < wr.walks.Len(); i++ {
		wk := wr.walks.At(i)
		v.H("walk %d [%d,%d] err=%v", i, wk.call, wk.ret, wk.err)
	}
	for _, s := range wr.stops.All() {
		v.H("stop [%d,%d] %v handler=%v", s.call, s.ret, s.err, s.handler)
	}
	for _, e := range wr.evs.All() {
		v.H("handle [%d,%d] task %d %q dir=%v", e.start, e.end, e.task, e.path, e.dir)
		r.NoteString(e.path)
		r.Note(e.start<<20 | e.end)
	}
	for _, s := range f.FailLog.All() {
		v.H("failed: %s", s)
	}
	v.sample = fmt.Sprintf("root=%q workers=%d %s: %s", wr.root, wr.conc, v.outcome, strings.Join(v.hist.All(), "; "))
	if w.Outcome == sim.Panicked && prop != "C02" {
		v.Fail("panic", "the walk panicked: %s\n%s", w.PanicVal, stackOf(w.Stack))
	}
	if v.Failed() {
		return
	}
	check(wr)
}

func (wr *walkRun) describe() string {
	return fmt.Sprintf("root=%q workers=%d", wr.root, wr.conc)
}

func checkC01(wr *walkRun) {
	v := wr.v
	tasks := map[int]bool{}
	for _, e := range wr.evs.All() {
		tasks[e.task] = true
	}
	v.nt = len(tasks) > 1
	for i := 0; i < wr.walks.Len(); i++ {
		wk := wr.walks.At(i)
		if wk.ret == 0 {
			if wr.clean {
				v.Fail("unfinished", "%s: walk %d never finished although nothing failed (%s; blocked: %s)", wr.describe(), i, wr.w.Outcome, strings.Join(wr.w.Leaked, "; "))
			}
			return
		}
		if wk.err != nil {
			if wr.clean {
				v.Fail("spurious-error", "%s: walk %d ended with %v although nothing failed", wr.describe(), i, wk.err)
			}
			continue
		}
		if !wr.clean && (wr.fs.FailLog.Len() > 0 || wr.stops.Len() > 0 || wr.r.Faults[sim.FVanish] > 0) {
			// faults hit this run: a walk without error still promises completeness,
			// unless a directory vanished or a stop took no effect
			if wk.failsEnd == wk.fails && wr.stops.Len() == 0 && wr.r.Faults[sim.FVanish] == 0 {
				wr.complete(i)
			} else if wk.failsEnd > wk.fails && wr.r.Faults[sim.FVanish] == 0 {
				wr.complete(i)
			}
			continue
		}
		wr.complete(i)
	}
}

func (wr *walkRun) complete(i int) {
	v := wr.v
	seen := map[string]int{}
	for _, e := range wr.evs.All() {
		if e.walk != i {
			continue
		}
		p := filepath.Clean(e.path)
		d, ok := wr.want[p]
		if !ok {
			v.Fail("unexpected-entry", "%s: walk %d called the handler with %q, which is not an entry of the tree", wr.describe(), i, e.path)
			return
		}
		if d != e.dir {
			v.Fail("wrong-kind", "%s: walk %d reported %q with directory=%v", wr.describe(), i, e.path, e.dir)
			return
		}
		seen[p]++
	}
	var ps []string
	for p := range wr.want {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if seen[p] != 1 {
			v.Fail("visited-wrong", "%s: walk %d finished without an error but visited %q %d times", wr.describe(), i, p, seen[p])
			return
		}
	}
}

func checkC02(wr *walkRun) {
	v := wr.v
	evs := wr.evs.All()
	// a handler that never returned ends after everything
	end := func(e hEvent) uint64 {
		if e.end == 0 {
			return 1 << 62
		}
		return e.end
	}
	for i, e := range evs {
		for _, g := range evs[i+1:] {
			if g.start < end(e) && path.Dir(g.path) != path.Dir(e.path) {
				v.nt = true
			}
		}
	}
	for wk := 0; wk < wr.walks.Len(); wk++ {
		dirEnd := map[string]uint64{}
		for _, e := range evs {
			if e.walk == wk && e.dir {
				if _, ok := dirEnd[filepath.Clean(e.path)]; !ok {
					dirEnd[filepath.Clean(e.path)] = end(e)
				}
			}
		}
		root := filepath.Clean(wr.root)
		last := map[string]hEvent{}
		for _, e := range evs { // in order of start
			if e.walk != wk {
				continue
			}
			p := filepath.Clean(e.path)
			if p == root {
				continue
			}
			d := filepath.Dir(p)
			de, ok := dirEnd[d]
			if !ok || de > e.start {
				v.Fail("before-directory", "%s: the handler for %q started before the handler for its directory %q had returned", wr.describe(), e.path, d)
				return
			}
			if e.dir {
				continue
			}
			if l, ok := last[d]; ok {
				if end(l) > e.start {
					v.Fail("concurrent-files", "%s: the handlers for %q and %q ran at the same time", wr.describe(), l.path, e.path)
					return
				}
				if filepath.Base(filepath.Clean(l.path)) > filepath.Base(p) {
					v.Fail("file-order", "%s: %q was handled after %q", wr.describe(), e.path, l.path)
					return
				}
			}
			last[d] = e
		}
	}
}

func checkC03(wr *walkRun) {
	v := wr.v
	w := wr.w
	if w.Outcome == sim.Deadlock || w.Outcome == sim.StepLimit {
		v.Fail("walk-hangs", "%s: the walk (or a Stop call) never returned (%s); blocked: %s", wr.describe(), w.Outcome, strings.Join(w.Leaked, "; "))
		return
	}
	for _, s := range wr.stops.All() {
		if s.ret == 0 {
			v.Fail("stop-hangs", "%s: a Stop call (%v) never returned", wr.describe(), s.err)
			return
		}
	}
	fl := wr.fs.FailLog.All()
	for i := 0; i < wr.walks.Len(); i++ {
		wk := wr.walks.At(i)
		if wk.err != nil {
			v.nt = true
		}
		var first, last uint64
		for _, e := range wr.evs.All() {
			if e.walk == i && e.start > wk.call && e.start < wk.ret {
				if first == 0 {
					first = e.start
				}
				if e.end > last && e.end < wk.ret {
					last = e.end
				}
			}
		}
		if wk.err == nil {
			if wk.failsEnd > wk.fails {
				v.Fail("error-lost", "%s: walk %d reports no error although %q failed", wr.describe(), i, fl[wk.fails])
				return
			}
			for _, s := range wr.stops.All() {
				if s.handler && s.walk == i && s.call > wk.call && s.call < wk.ret {
					v.Fail("stop-lost", "%s: walk %d reports no error although a handler stopped it with %v", wr.describe(), i, s.err)
					return
				}
				if first > 0 && s.call > first && s.ret < last {
					v.Fail("stop-lost", "%s: walk %d reports no error although it was stopped with %v while running", wr.describe(), i, s.err)
					return
				}
			}
			continue
		}
		ok := false
		for _, s := range wr.stops.All() {
			if s.call < wk.ret && s.ret > wk.call && (errors.Is(wk.err, s.err) || strings.Contains(wk.err.Error(), s.err.Error())) {
				ok = true
			}
		}
		for _, s := range fl[wk.fails:wk.failsEnd] {
			if strings.Contains(wk.err.Error(), s) {
				ok = true
			}
		}
		var pe *fs.PathError
		if errors.As(wk.err, &pe) && strings.Contains(wk.err.Error(), pe.Error()) {
			for _, s := range fl[wk.fails:wk.failsEnd] {
				if s == pe.Error() {
					ok = true
				}
			}
		}
		if !ok {
			v.Fail("wrong-error", "%s: walk %d reports %q, which nothing produced during that walk", wr.describe(), i, wk.err)
			return
		}
	}
}

func checkC04(wr *walkRun) {
	v := wr.v
	w := wr.w
	v.nt = wr.walks.Len() > 1
	for i := 0; i < wr.walks.Len(); i++ {
		wk := wr.walks.At(i)
		if wk.err != nil {
			v.nt = true
		}
		if wk.ret == 0 {
			continue
		}
		next := uint64(1) << 62
		if i+1 < wr.walks.Len() {
			next = wr.walks.At(i + 1).call
		}
		for _, e := range wr.evs.All() {
			if e.start > wk.ret && e.start < next {
				v.Fail("late-handler", "%s: the handler was called with %q after walk %d had returned (err=%v)", wr.describe(), e.path, i, wk.err)
				return
			}
			if e.start < wk.ret && (e.end == 0 || e.end > wk.ret) {
				v.Fail("handler-in-progress", "%s: the handler for %q was still running when walk %d returned (err=%v)", wr.describe(), e.path, i, wk.err)
				return
			}
		}
	}
	var leaked []string
	for _, l := range w.Leaked {
		if !strings.HasPrefix(l, "stopper") && !strings.HasPrefix(l, "vanisher") {
			leaked = append(leaked, l)
		}
	}
	if len(leaked) > 0 {
		v.Fail("goroutine-leak", "%s: goroutines of the walk never terminate (%s): %s", wr.describe(), w.Outcome, strings.Join(leaked, "; "))
	}
}
