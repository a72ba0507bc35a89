package sim

// Timer list ordered by (at, seq).
type timer struct {
	at   int64
	seq  int
	f    func()
	next *timer
	on   bool
}

type Timer struct{ t *timer }

func Now() int64 {
	r := R
	if r == nil {
		return int64(mix(7, InitMapSeed) >> 2) // package initialisation
	}
	if Live() {
		r.now += r.ClockStep
	}
	return r.ClockBase + r.now
}

func (w *World) addTimer(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timer{at: R.now + d, seq: w.tseq, f: f, on: true}
	p := &w.timers
	for *p != nil && (*p).at <= t.at {
		p = &(*p).next
	}
	t.next = *p
	*p = t
	return t
}

func (w *World) delTimer(t *timer) bool {
	if !t.on {
		return false
	}
	t.on = false
	for p := &w.timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			break
		}
	}
	return true
}

func (w *World) fireTimer() {
	t := w.timers
	w.timers = t.next
	t.on = false
	if t.at > R.now {
		R.SimTime += t.at - R.now
		R.now = t.at
	}
	t.f()
}

// After calls f (on the scheduler, it must not block) after d ns.
func After(d int64, f func()) *Timer {
	if !Live() {
		return &Timer{&timer{}}
	}
	return &Timer{W.addTimer(d, f)}
}

func (t *Timer) Stop() bool {
	if W == nil {
		return false
	}
	return W.delTimer(t.t)
}

// Sleep suspends the current task for d simulated ns.
func Sleep(d int64) {
	if !Live() {
		return
	}
	w := W
	t := w.cur
	if d <= 0 {
		Gosched()
		return
	}
	w.addTimer(d, func() { w.ready(t) })
	w.block("sleep")
}

// JumpClock moves the wall clock.
func JumpClock(d int64) { R.ClockBase += d; R.Fired(FClockJump) }

// Rand is the process's source of randomness.
func Rand() uint64 {
	r := R
	if r == nil {
		return mix(42, InitMapSeed) // package initialisation
	}
	r.rndCtr++
	return mix(r.Seed^0xabcdef, r.rndCtr)
}
