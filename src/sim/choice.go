package sim

// Choices: every decision of a run is drawn from one of four recorded streams.
// A value of 0 always means the simplest alternative (no fault, no preemption,
// first runnable task, canonical map order, smallest workload), so a recorded
// run can be minimised by deleting and zeroing values.

type StreamID int

const (
	SW StreamID = iota // workload
	SS                 // schedule
	SF                 // faults
	SM                 // map iteration order
	nStreams
)

type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.next() % uint64(n))
}

// Stream is a recorded sequence of choices. Growth is done by hand: append goes
// through runtime hooks that the race detector would see.
type Stream struct {
	v      []uint32
	n      int // recorded
	pos    int
	replay bool
	rng    prng
}

func (s *Stream) put(v uint32) {
	if s.n == len(s.v) {
		nv := make([]uint32, 2*len(s.v)+64)
		for i := 0; i < s.n; i++ {
			nv[i] = s.v[i]
		}
		s.v = nv
	}
	s.v[s.n] = v
	s.n++
}

func (s *Stream) Values() []uint32 {
	r := make([]uint32, s.n)
	for i := range r {
		r[i] = s.v[i]
	}
	return r
}

// Run is one simulated run: the streams, the counters, the log.
type Run struct {
	Seed   uint64
	st     [nStreams]Stream
	Replay bool

	Steps     uint64 // yield points passed
	Switches  uint64
	SimTime   int64 // ns of simulated time
	Hash      uint64
	Faults    [nFaultKinds]uint32
	Probes    map[string]int // only touched through Probe by the controller side
	probes    [64]probeCell
	Tracing   bool
	trace     []string
	ntrace    int
	Worlds    int
	Tasks     int
	MapRanges int
	Unkeyed   int

	// swarm settings, fixed at the start of a run
	Sched     SchedKind
	SliceMean int
	MapMode   int // 0 canonical, 1 shuffled
	ClockBase int64
	ClockStep int64
	Salt      uint64 // which environment the machine has, 0: an empty one
	now       int64
	rndCtr    uint64
	keys      keyTab
}

type probeCell struct {
	name string
	n    int
}

// Probe counts that a rare condition was reached.
func (r *Run) Probe(name string) {
	for i := range r.probes {
		if r.probes[i].name == name {
			r.probes[i].n++
			return
		}
		if r.probes[i].name == "" {
			r.probes[i].name = name
			r.probes[i].n = 1
			return
		}
	}
}

func (r *Run) EachProbe(f func(string, int)) {
	for i := range r.probes {
		if r.probes[i].name == "" {
			return
		}
		f(r.probes[i].name, r.probes[i].n)
	}
}

type SchedKind int

const (
	SchedWalk   SchedKind = iota // random walk over the runnable tasks
	SchedPrio                    // random priorities with a few change points (PCT)
	SchedStarve                  // one task is starved for long stretches
	SchedRobin                   // round robin
	SchedLazy                    // switch only when blocked
	nSched
)

var R *Run // the current run

func mix(a, b uint64) uint64 {
	p := prng{a ^ (b * 0xd1342543de82ef95)}
	p.next()
	return p.next()
}

// NewRun starts a run from a seed.
func NewRun(seed uint64) *Run {
	r := &Run{Seed: seed, Hash: 14695981039346656037}
	for i := range r.st {
		r.st[i].rng.s = mix(seed, uint64(i)+1)
	}
	r.settle()
	return r
}

// NewReplay starts a run from recorded streams.
func NewReplay(seed uint64, vals [4][]uint32) *Run {
	r := &Run{Seed: seed, Replay: true, Hash: 14695981039346656037}
	for i := range r.st {
		r.st[i].rng.s = mix(seed, uint64(i)+1)
		r.st[i].replay = true
		r.st[i].v = vals[i]
		r.st[i].n = len(vals[i])
	}
	r.settle()
	return r
}

func (r *Run) settle() {
	g := prng{mix(r.Seed, 77)}
	switch x := g.n(100); {
	case x < 45:
		r.Sched = SchedWalk
	case x < 70:
		r.Sched = SchedPrio
	case x < 82:
		r.Sched = SchedStarve
	case x < 92:
		r.Sched = SchedRobin
	default:
		r.Sched = SchedLazy
	}
	means := []int{1, 2, 4, 8, 16, 40, 120, 500}
	r.SliceMean = means[g.n(len(means))]
	if g.n(4) > 0 {
		r.MapMode = 1
	}
	r.ClockBase = 1_600_000_000_000_000_000 + int64(g.n(1<<30))*1_000_000_007
	switch g.n(3) {
	case 0:
		r.ClockStep = 0 // frozen clock
	case 1:
		r.ClockStep = 1
	default:
		r.ClockStep = int64(g.n(1_000_000))
	}
	R = r
}

// draw returns a choice in [0,n). pick is used while recording.
func (r *Run) draw(id StreamID, n int, pick func(*prng) int) int {
	s := &r.st[id]
	if s.replay {
		if s.pos >= s.n {
			s.pos++
			return 0
		}
		v := int(s.v[s.pos]) % n
		s.pos++
		return v
	}
	v := pick(&s.rng)
	if v < 0 || v >= n {
		v = 0
	}
	s.put(uint32(v))
	return v
}

// Choose draws uniformly from [0,n) on a stream.
func (r *Run) Choose(id StreamID, n int) int {
	if n <= 1 {
		return 0
	}
	return r.draw(id, n, func(p *prng) int { return p.n(n) })
}

// Small draws from [0,n) with a bias to small values.
func (r *Run) Small(id StreamID, n int) int {
	if n <= 1 {
		return 0
	}
	return r.draw(id, n, func(p *prng) int {
		a := p.n(n)
		if b := p.n(n); b < a {
			a = b
		}
		return a
	})
}

// Chance is true with probability num/den; false is the simple case.
func (r *Run) Chance(id StreamID, num, den int) bool {
	return r.draw(id, 2, func(p *prng) int {
		if p.n(den) < num {
			return 1
		}
		return 0
	}) == 1
}

// StreamValues returns what was recorded.
func (r *Run) StreamValues() [4][]uint32 {
	var v [4][]uint32
	for i := range r.st {
		if r.st[i].replay {
			n := r.st[i].pos
			if n > r.st[i].n {
				n = r.st[i].n
			}
			v[i] = r.st[i].v[:n]
		} else {
			v[i] = r.st[i].Values()
		}
	}
	return v
}

func (r *Run) note(x uint64) { r.Hash = (r.Hash ^ x) * 1099511628211 }

// Note folds an observation into the run's history hash.
func (r *Run) Note(x uint64) { r.note(x) }

func (r *Run) NoteString(s string) {
	for i := 0; i < len(s); i++ {
		r.note(uint64(s[i]))
	}
}

// Tracef records a log line when tracing; it never draws a choice.
func (r *Run) Tracef(f func() string) {
	if !r.Tracing {
		return
	}
	if r.ntrace == len(r.trace) {
		if r.ntrace > 20000 {
			return
		}
		nt := make([]string, 2*r.ntrace+128)
		for i := 0; i < r.ntrace; i++ {
			nt[i] = r.trace[i]
		}
		r.trace = nt
	}
	r.trace[r.ntrace] = f()
	r.ntrace++
}

func (r *Run) Trace() []string {
	t := make([]string, r.ntrace)
	for i := range t {
		t[i] = r.trace[i]
	}
	return t
}

type FaultKind int

const (
	FReadErr FaultKind = iota
	FShortRead
	FWriteErr
	FNoSpace
	FTornWrite
	FCloseErr
	FOpenErr
	FReadDirErr
	FStatErr
	FMkdirErr
	FSyncErr
	FRenameErr
	FSlowIO
	FCrash
	FPowerLoss
	FBitFlip
	FTruncate
	FNetRefused
	FNetReset
	FNetShort
	FNetStatus
	FNetDelay
	FStopCall
	FStall
	FAbandon
	FClockJump
	FExecFail
	FVanish
	FPanic
	FCancel
	nFaultKinds
)

var faultNames = [nFaultKinds]string{"read_error", "short_read", "write_error", "disk_full", "torn_write", "close_error",
	"open_error", "readdir_error", "stat_error", "mkdir_error", "sync_error", "rename_error", "slow_io", "process_crash", "power_loss",
	"bit_flip", "truncated_file", "connection_refused", "connection_reset", "body_cut_short", "error_status", "network_delay",
	"stop_call", "stalled_task", "abandoned_future", "clock_jump", "exec_failure", "entry_vanished", "injected_panic", "cancellation"}

func (k FaultKind) String() string { return faultNames[k] }

func FaultName(i int) string { return faultNames[i] }

// Fired counts an injected fault.
func (r *Run) Fired(k FaultKind) {
	r.Faults[k]++
	r.note(uint64(k) + 0xfa0000)
	r.Tracef(func() string { return "  fault: " + faultNames[k] })
}
