package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"unsafe"
)

// Task is a real goroutine that runs only while the scheduler lets it.
type Task struct {
	id     int
	name   string
	wake   chan struct{}
	gone   chan struct{}
	w      *World
	state  int8
	queued bool
	killed bool
	kops   int
	wait   string
	prio   int
	next   *Task // run queue
	qnext  *Task // wait queue
	sync   byte
	daemon bool
	Tag    int
}

const (
	tRunnable = int8(iota)
	tRunning
	tBlocked
	tDone
)

type Outcome int

const (
	Completed Outcome = iota // the main function returned; everything else ran to completion or blocked
	Deadlock                 // main function blocked forever
	Panicked
	Exited
	Crashed
	StepLimit
)

func (o Outcome) String() string {
	return [...]string{"completed", "deadlock", "panic", "exit", "crash", "steplimit"}[o]
}

type World struct {
	tasks  []*Task
	ntask  int
	qh, qt *Task // FIFO of runnable tasks
	nq     int
	cur    *Task
	main   *Task
	done   chan struct{}
	ended  bool

	Outcome  Outcome
	ExitCode int
	PanicVal string
	Stack    string
	Leaked   []string

	sliceLen int
	proc     Proc
	joinq    WaitQ
	limit    uint64
	steps    uint64
	lastSw   uint64
	stopMain bool // end the world as soon as main returns (process semantics)
	timers   *timer
	tseq     int
	end      byte
	FS       *FS
	Stdout   *Buf
	Stderr   *Buf
	Env      []string
	Args     []string
	Exec     func(name string, args []string, dir string, stdin []byte) (out, errOut []byte, err error)
	change   int // remaining priority change points
	over     chan struct{}
	starved  *Task
	starveTo uint64
}

var (
	W      *World
	budget int
)

const bigBudget = 1 << 30

// Seen tells which yield points were reached in this process.
var Seen [1 << 14]bool

// Y is a yield point.
func Y(site int) {
	if site < len(Seen) {
		Seen[site] = true
	}
	budget--
	if budget < 0 {
		yieldSlow(site)
	}
}

const fairness = 50000 // yields after which a running task is preempted regardless

func yieldSlow(site int) {
	w := W
	if w == nil || w.cur == nil {
		budget = bigBudget
		return
	}
	t := w.cur
	if t.killed {
		w.killOp(t)
		return
	}
	w.preempt(site)
}

// account moves consumed budget into the step counters
func (w *World) nextSlice() {
	r := R
	n := w.drawSlice()
	left := fairness
	if n > 0 && n < left {
		left = n
	}
	budget = left - 1
	w.sliceLen = left
	_ = r
}

func (w *World) used() {
	u := w.sliceLen - 1 - budget
	if u < 0 {
		u = 0
	}
	w.steps += uint64(u) + 1
	R.Steps += uint64(u) + 1
	w.sliceLen = 0
	budget = -1
	if w.steps > w.limit && !w.ended {
		w.finish(StepLimit)
		w.park(w.cur)
	}
}

// drawSlice picks how many yield points the current task may pass: 0 = until it blocks.
func (w *World) drawSlice() int {
	r := R
	if w.nq == 0 && w.timers == nil {
		return 0 // nobody else to run: no decision to make
	}
	switch r.Sched {
	case SchedLazy:
		if r.st[SS].replay {
			break
		}
		return r.draw(SS, fairness, func(p *prng) int { return 0 })
	}
	return r.draw(SS, fairness, func(p *prng) int {
		m := r.SliceMean
		if p.n(8) == 0 {
			m *= 16
		}
		return 1 + p.n(2*m)
	})
}

// pick chooses among n candidates; 0 is the default.
func (w *World) pick(n int, cur bool) int {
	if n <= 1 {
		return 0
	}
	r := R
	return r.draw(SS, n, func(p *prng) int {
		switch r.Sched {
		case SchedRobin:
			if cur {
				return 1
			}
			return 0
		case SchedPrio:
			if w.change > 0 && p.n(20) == 0 {
				w.change--
				if w.cur != nil {
					w.cur.prio = -int(w.steps)
				}
			}
			best, bi := -1<<62, 0
			w.cand(cur, func(i int, t *Task) {
				if t.prio > best {
					best, bi = t.prio, i
				}
			})
			return bi
		case SchedStarve:
			if w.steps > w.starveTo {
				w.starveTo = w.steps + uint64(50+p.n(4000))
				k := p.n(n)
				w.cand(cur, func(i int, t *Task) {
					if i == k {
						w.starved = t
					}
				})
			}
			k := p.n(n)
			var sel *Task
			w.cand(cur, func(i int, t *Task) {
				if i == k {
					sel = t
				}
			})
			if sel == w.starved {
				k = (k + 1) % n
			}
			return k
		}
		return p.n(n)
	})
}

func (w *World) cand(cur bool, f func(int, *Task)) {
	i := 0
	if cur {
		f(0, w.cur)
		i = 1
	}
	for t := w.qh; t != nil; t = t.next {
		f(i, t)
		i++
	}
}

func (w *World) enq(t *Task) {
	t.state = tRunnable
	t.next = nil
	if w.qt == nil {
		w.qh = t
	} else {
		w.qt.next = t
	}
	w.qt = t
	w.nq++
	if w.nq == 1 && budget >= 0 && w.sliceLen > 0 {
		// there was no decision to make before; there is now
		w.used()
		w.nextSlice()
	}
}

func (w *World) deq(i int) *Task {
	var prev *Task
	t := w.qh
	for ; i > 0; i-- {
		prev = t
		t = t.next
	}
	if prev == nil {
		w.qh = t.next
	} else {
		prev.next = t.next
	}
	if w.qt == t {
		w.qt = prev
	}
	t.next = nil
	w.nq--
	return t
}

func (w *World) preempt(site int) {
	w.used()
	t := w.cur
	if w.timers != nil && R.Chance(SS, 1, 16) {
		w.fireTimer()
	}
	if w.nq > 0 {
		k := w.pick(w.nq+1, true)
		if k == 0 && w.steps-w.lastSw > fairness {
			k = 1
		}
		if k > 0 {
			nt := w.deq(k - 1)
			w.enq(t)
			w.switchTo(t, nt, site)
		}
	}
	w.nextSlice()
}

// Gosched gives up the processor.
func Gosched() {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	t := w.cur
	if t.killed {
		w.killOp(t)
		return
	}
	w.used()
	if w.nq > 0 {
		nt := w.deq(w.pick(w.nq, false))
		w.enq(t)
		w.switchTo(t, nt, -1)
	} else if w.timers != nil {
		w.fireTimer()
	}
	w.nextSlice()
}

func (w *World) switchTo(t, nt *Task, site int) {
	w.lastSw = w.steps
	R.Switches++
	R.note(uint64(nt.id)<<32 ^ uint64(uint32(site)))
	R.Tracef(func() string {
		return "[" + strconv.FormatUint(w.steps, 10) + "] " + t.label() + " at " + siteName(site, t) + " -> " + nt.label()
	})
	w.cur = nt
	nt.state = tRunning
	raceDisable()
	nt.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
}

func (t *Task) label() string { return "t" + strconv.Itoa(t.id) + "(" + t.name + ")" }

var SiteNames []string

func siteName(site int, t *Task) string {
	if site > 0 && site <= len(SiteNames) {
		return SiteNames[site-1]
	}
	if t.state == tBlocked {
		return "blocked:" + t.wait
	}
	return "y" + strconv.Itoa(site)
}

// block suspends the current task until ready is called on it.
func (w *World) block(why string) {
	t := w.cur
	if t.killed {
		w.killOp(t)
		return
	}
	w.used()
	t.state = tBlocked
	t.wait = why
	w.dispatch(t)
	w.nextSlice()
}

// dispatch hands the processor to another task; t stays parked until woken.
func (w *World) dispatch(t *Task) {
	nt := w.nextTask()
	if nt == t { // its own timer fired
		w.cur = t
		t.state = tRunning
		return
	}
	if nt == nil {
		if w.main.state == tDone {
			w.finish(w.Outcome)
		} else {
			w.finish(Deadlock)
		}
		w.park(t)
		return
	}
	w.switchTo(t, nt, -2)
}

func (w *World) nextTask() *Task {
	for w.nq == 0 {
		if w.timers == nil {
			return nil
		}
		w.fireTimer()
	}
	return w.deq(w.pick(w.nq, false))
}

// park waits for the kill.
func (w *World) park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
}

func (w *World) finish(o Outcome) {
	if w.ended {
		return
	}
	w.ended = true
	w.Outcome = o
	raceDisable()
	w.done <- struct{}{}
	raceEnable()
}

func (w *World) killOp(t *Task) {
	t.kops++
	if t.kops > 10000 {
		raceDisable()
		close(t.gone)
		t.gone = make(chan struct{})
		select {}
	}
	budget = -1
}

func (w *World) ready(t *Task) {
	if t.state == tBlocked {
		w.enq(t)
	}
}

// Live is false for operations executed while a task is being torn down.
func Live() bool { return W != nil && W.cur != nil && !W.cur.killed }

func InSim() bool { return W != nil && W.cur != nil }

// Go starts a task.
func Go(name string, f func()) *Task {
	w := W
	if w == nil || w.cur == nil {
		panic("sim: go outside a simulation: " + name)
	}
	if w.cur.killed {
		return nil
	}
	Y(0)
	t := w.newTask(name, f)
	t.start(f)
	w.enq(t)
	return t
}

func (w *World) newTask(name string, f func()) *Task {
	t := &Task{id: w.ntask, name: name, wake: make(chan struct{}, 1), gone: make(chan struct{}), w: w}
	if w.ntask == len(w.tasks) {
		nt := make([]*Task, 2*w.ntask+16)
		for i := 0; i < w.ntask; i++ {
			nt[i] = w.tasks[i]
		}
		w.tasks = nt
	}
	w.tasks[w.ntask] = t
	w.ntask++
	R.Tasks++
	g := prng{mix(R.Seed, uint64(1000+t.id))}
	t.prio = g.n(1 << 20)
	return t
}

func (t *Task) start(f func()) {
	go t.body(f)
}

func (t *Task) body(f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	w := t.w
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil && !t.killed {
				w.PanicVal = fmt.Sprint(r)
				w.Stack = string(debug.Stack())
				R.Tracef(func() string { return "  panic in " + t.label() + ": " + w.PanicVal })
				t.exit(true)
				t.linger()
				return
			}
		}
		t.exit(false)
		t.linger()
	}()
	if !t.killed {
		w.nextSlice()
		f()
	}
	normal = true
}

// linger keeps the goroutine until the world is over: the race detector needs its
// history to report a race with it.
func (t *Task) linger() {
	if RaceOn {
		raceDisable()
		<-t.w.over
		raceEnable()
	}
}

func (t *Task) exit(panicked bool) {
	w := t.w
	ReleaseMerge(unsafe.Pointer(&w.end))
	ReleaseMerge(unsafe.Pointer(&t.sync))
	raceDisable()
	defer raceEnable()
	if t.killed {
		t.state = tDone
		close(t.gone)
		return
	}
	w.used0()
	t.state = tDone
	close(t.gone)
	if panicked {
		w.finish(Panicked)
		return
	}
	if w.ended {
		return
	}
	if t == w.main {
		R.Tracef(func() string { return "  main returned" })
		if w.stopMain {
			w.finish(Completed)
			return
		}
	}
	w.wakeJoin(t)
	nt := w.nextTask()
	if nt == nil {
		if w.main.state == tDone {
			w.finish(Completed)
		} else {
			w.finish(Deadlock)
		}
		return
	}
	w.lastSw = w.steps
	R.Switches++
	R.note(uint64(nt.id)<<32 ^ 0xfffffffd)
	R.Tracef(func() string {
		return "[" + strconv.FormatUint(w.steps, 10) + "] " + t.label() + " ended -> " + nt.label()
	})
	w.cur = nt
	nt.state = tRunning
	nt.wake <- struct{}{}
}

func (w *World) used0() {
	u := w.sliceLen - 1 - budget
	if u < 0 {
		u = 0
	}
	w.steps += uint64(u) + 1
	R.Steps += uint64(u) + 1
	w.sliceLen = 0
	budget = -1
}

// Config of a world: one process lifetime.
type Config struct {
	Limit   uint64
	Process bool // the world ends when main returns (else: when everything is quiescent)
	FS      *FS
	Args    []string
	Env     []string
	Exec    func(name string, args []string, dir string, stdin []byte) (out, errOut []byte, err error)
}

// Start runs main in a fresh world until it is over and returns the world.
func Start(cfg Config, main func()) *World {
	if W != nil {
		panic("sim: nested world")
	}
	w := &World{done: make(chan struct{}, 1), over: make(chan struct{}), limit: cfg.Limit, stopMain: cfg.Process, FS: cfg.FS, Args: cfg.Args, Env: cfg.Env, Exec: cfg.Exec,
		Stdout: &Buf{}, Stderr: &Buf{}}
	if w.limit == 0 {
		w.limit = 2_000_000
	}
	w.change = 3
	R.Worlds++
	W = w
	w.main = w.newTask("main", main)
	w.cur = w.main
	w.main.state = tRunning
	budget = -1
	w.main.start(main)
	raceDisable()
	w.main.wake <- struct{}{}
	<-w.done
	raceEnable()
	// leaked tasks
	for i := 0; i < w.ntask; i++ {
		t := w.tasks[i]
		if t.state != tDone && t != w.main {
			why := t.wait
			if t.state != tBlocked {
				why = "still running"
			}
			w.Leaked = append(w.Leaked, t.name+" ("+why+")")
		}
	}
	// tear down
	for i := 0; i < w.ntask; i++ {
		t := w.tasks[i]
		if t.state == tDone {
			raceDisable()
			<-t.gone
			raceEnable()
			continue
		}
		t.killed = true
		w.cur = t
		budget = -1
		raceDisable()
		g := t.gone
		t.wake <- struct{}{}
		<-g
		raceEnable()
	}
	W = nil
	close(w.over)
	budget = bigBudget
	Acquire(unsafe.Pointer(&w.end))
	if w.FS != nil {
		w.FS.closeAll()
	}
	return w
}

// Exit ends the process.
func Exit(code int) {
	w := W
	if w == nil || w.cur == nil {
		panic("sim: exit outside a simulation")
	}
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	w.ExitCode = code
	w.used0()
	w.finish(Exited)
	w.park(t)
}

// Crash ends the process at once, as a kill or power loss would.
func Crash() {
	w := W
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	w.used0()
	w.finish(Crashed)
	w.park(t)
}

// Join waits for a task to finish.
func (t *Task) Join() {
	w := W
	Y(0)
	for t.state != tDone {
		w.joinq.add(w.cur)
		w.block("join " + t.name)
		if w.cur.killed {
			return
		}
	}
	Acquire(unsafe.Pointer(&t.sync))
}

func (t *Task) Done() bool { return t.state == tDone }

func (w *World) wakeJoin(t *Task) { w.joinq.wakeAll(w) }

// CurID is the id of the running task.
func CurID() int {
	if W == nil || W.cur == nil {
		return -1
	}
	return W.cur.id
}

func SetTag(n int) { W.cur.Tag = n }
func Tag() int     { return W.cur.Tag }

// Seq is a global event sequence number.
func Seq() uint64 {
	seq++
	return seq
}

var seq uint64

// WaitQ is a queue of blocked tasks.
type WaitQ struct{ h, t *Task }

func (q *WaitQ) add(t *Task) {
	t.qnext = nil
	if q.t == nil {
		q.h = t
	} else {
		q.t.qnext = t
	}
	q.t = t
}

func (q *WaitQ) wakeAll(w *World) {
	t := q.h
	q.h, q.t = nil, nil
	for t != nil {
		n := t.qnext
		t.qnext = nil
		w.ready(t)
		t = n
	}
}

func (q *WaitQ) wakeOne(w *World) bool {
	t := q.h
	if t == nil {
		return false
	}
	q.h = t.qnext
	if q.h == nil {
		q.t = nil
	}
	t.qnext = nil
	w.ready(t)
	return true
}

// Wait blocks the current task on q; false when the task is being torn down.
func (q *WaitQ) Wait(why string) bool {
	w := W
	if w == nil || w.cur == nil {
		panic("sim: blocking outside a simulation: " + why)
	}
	if w.cur.killed {
		w.killOp(w.cur)
		return false
	}
	q.add(w.cur)
	w.block(why)
	return !w.cur.killed
}

func (q *WaitQ) WakeAll() {
	if W != nil {
		q.wakeAll(W)
	}
}

func (q *WaitQ) WakeOne() {
	if W != nil {
		q.wakeOne(W)
	}
}

func (q *WaitQ) Empty() bool { return q.h == nil }

func ResetSeq() { seq = 0 }
