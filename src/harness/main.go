package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

// V collects the verdict of one run.
type V struct {
	kind, msg string
	nt        bool // non-trivial
	outcome   string
	hist      sim.List[string]
	sample    string
	digests   map[string]string
	tier      string
	worker    int
}

// Fail records a violation (the first one counts).
func (v *V) Fail(kind, f string, a ...interface{}) {
	if v.kind == "" {
		v.kind = kind
		v.msg = fmt.Sprintf(f, a...)
	}
}

func (v *V) Failed() bool { return v.kind != "" }

func (v *V) H(f string, a ...interface{}) { v.hist.Add(fmt.Sprintf(f, a...)) }

type Scenario struct {
	rule string
	real []string
	stub []string
	run  func(r *sim.Run, v *V)
	// setup runs once per process
	setup func()
	// digest gives results to compare across processes
	digest func(v *V)
}

var scenarios = map[string]*Scenario{}

type runRec struct {
	Seed    uint64       `json:"seed"`
	Streams *[4][]uint32 `json:"streams,omitempty"`
}

type violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type out struct {
	Runs       int               `json:"runs"`
	Nontrivial int               `json:"nontrivial"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	SimNs      int64             `json:"sim_ns"`
	Tasks      int               `json:"tasks"`
	Worlds     int               `json:"worlds"`
	MapRanges  int               `json:"map_ranges"`
	Unkeyed    int               `json:"unkeyed"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Outcomes   map[string]int    `json:"outcomes"`
	Hashes     []uint64          `json:"hashes"`
	Ntv        []uint64          `json:"ntv"`
	Samples    []string          `json:"samples"`
	Digests    map[string]string `json:"digests,omitempty"`
	Real       []string          `json:"real"`
	Stub       []string          `json:"stub"`
	Rule       string            `json:"rule"`
	WallS      float64           `json:"wall_s"`
	Violation  *violation        `json:"violation"`
	Seeds      []uint64          `json:"seeds"`
	Streams    *[4][]uint32      `json:"streams"`
	DetMis     int               `json:"det_mismatch"`
	DetRuns    int               `json:"det_runs"`
	Err        string            `json:"err"`
	LastHash   uint64            `json:"last_hash"`
	Trace      []string          `json:"trace,omitempty"`
	History    []string          `json:"history,omitempty"`
	Sites      []int             `json:"sites"`
}

var tier = "quick"

func execute(sc *Scenario, r *sim.Run, worker int) *V {
	v := &V{tier: tier, worker: worker}
	e0 := sim.RaceErrors()
	sim.ResetSeq()
	sc.run(r, v)
	if sim.RaceErrors() > e0 {
		v.kind = "" // a race report outranks its consequences
		v.Fail("data-race", "the race detector reported %d race(s) under this schedule", sim.RaceErrors()-e0)
	}
	sim.R = nil
	return v
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func main() {
	debug.SetGCPercent(200)
	if s := os.Getenv("MOLESIM_INITSEED"); s != "" {
		// consumed by package sim during initialisation; see sim.InitMapSeed
		_ = s
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: molesim run|replay")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("molesim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	worker := fs.Int("worker", 0, "")
	workers := fs.Int("workers", 1, "")
	runs := fs.Int("runs", 100, "")
	limit := fs.Float64("time", 30, "")
	outf := fs.String("out", "", "")
	file := fs.String("file", "", "")
	trace := fs.Bool("trace", false, "")
	sites := fs.String("sites", "", "")
	fs.StringVar(&tier, "tier", "quick", "")
	fs.Parse(os.Args[2:])
	sc := scenarios[*prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *sites != "" {
		if b, err := os.ReadFile(*sites); err == nil {
			json.Unmarshal(b, &sim.SiteNames)
		}
	}
	o := &out{Faults: map[string]int{}, Probes: map[string]int{}, Outcomes: map[string]int{}, Real: sc.real, Stub: sc.stub, Rule: sc.rule}
	t0 := time.Now()
	if sc.setup != nil {
		sim.NewRun(1)
		sc.setup()
		sim.R = nil
	}
	switch os.Args[1] {
	case "run":
		at, err := os.Create(*outf + ".at")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		progress = func(i int) { at.WriteAt([]byte(fmt.Sprintf("%12d\n", i)), 0) }
		runBatch(sc, *prop, *seed, *worker, *workers, *runs, *limit, o)
	case "digest":
		digest(sc, *worker, o)
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf struct {
			Runs []runRec `json:"runs"`
		}
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, rr := range rf.Runs {
			var r *sim.Run
			if rr.Streams != nil {
				r = sim.NewReplay(rr.Seed, *rr.Streams)
			} else {
				r = sim.NewRun(rr.Seed)
			}
			last := i == len(rf.Runs)-1
			r.Tracing = *trace && last
			v := execute(sc, r, 0)
			for k := 0; sim.RaceOn && last && v.kind == "" && k < 12; k++ {
				// the execution is the same every time; what the race detector remembers of it is not
				if rr.Streams != nil {
					r = sim.NewReplay(rr.Seed, *rr.Streams)
				} else {
					r = sim.NewRun(rr.Seed)
				}
				r.Tracing = *trace
				v = execute(sc, r, 0)
			}
			o.Runs++
			o.LastHash = r.Hash
			if v.kind != "" {
				o.Violation = &violation{v.kind, v.msg}
				o.Trace = r.Trace()
				o.History = v.hist.All()
				break
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
	for i, b := range &sim.Seen {
		if b && i > 0 {
			o.Sites = append(o.Sites, i)
		}
	}
	o.WallS = time.Since(t0).Seconds()
	b, err := json.Marshal(o)
	if err == nil {
		err = os.WriteFile(*outf, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func runBatch(sc *Scenario, prop string, seed uint64, worker, workers, runs int, limit float64, o *out) {
	t0 := time.Now()
	base := mix(seed, hashStr(prop))
	hs, ntv := map[uint64]bool{}, map[uint64]bool{}
	var seeds []uint64
	digest(sc, worker, o)
	detEvery := 61
	for i := 0; i < runs; i++ {
		if time.Since(t0).Seconds() > limit {
			break
		}
		rs := mix(base, uint64(worker)<<40|uint64(i))
		seeds = append(seeds, rs)
		progress(i)
		r := sim.NewRun(rs)
		v := execute(sc, r, worker)
		o.Runs++
		o.Steps += r.Steps
		o.Switches += r.Switches
		o.SimNs += r.SimTime
		o.Tasks += r.Tasks
		o.Worlds += r.Worlds
		o.MapRanges += r.MapRanges
		o.Unkeyed += r.Unkeyed
		for k, n := range r.Faults {
			if n > 0 {
				o.Faults[sim.FaultName(k)] += int(n)
			}
		}
		r.EachProbe(func(n string, c int) { o.Probes[n] += c })
		if v.outcome != "" {
			o.Outcomes[v.outcome]++
		}
		hs[r.Hash] = true
		if v.nt {
			o.Nontrivial++
			ntv[r.Hash] = true
			if len(o.Samples) < 2 && v.sample != "" && i > 3 {
				s := v.sample
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				o.Samples = append(o.Samples, fmt.Sprintf("run_seed=%d: %s", rs, s))
			}
		}
		if v.kind != "" {
			o.Violation = &violation{v.kind, v.msg}
			s := r.StreamValues()
			o.Streams = &s
			o.Seeds = seeds
			break
		}
		if i%detEvery == 7 || i == 0 {
			// same seed again, and the recorded streams again: both must give the same history
			h := r.Hash
			s := r.StreamValues()
			r2 := sim.NewRun(rs)
			execute(sc, r2, worker)
			r3 := sim.NewReplay(rs, s)
			execute(sc, r3, worker)
			o.DetRuns += 2
			if r2.Hash != h || r3.Hash != h {
				o.DetMis++
				if o.DetMis == 1 {
					a, b, c := traced(sc, rs, nil, worker), traced(sc, rs, nil, worker), traced(sc, rs, &s, worker)
					fmt.Fprintf(os.Stderr, "divergence: seed=%d h=%x r2=%x r3=%x\n%s\n%s\n", rs, h, r2.Hash, r3.Hash, diff(a, b), diff(a, c))
				}
			}
		}
		if i%200 == 199 {
			runtime.GC()
		}
	}
	// cap the lists, keep counts honest
	for h := range hs {
		o.Hashes = append(o.Hashes, h)
	}
	for h := range ntv {
		o.Ntv = append(o.Ntv, h)
	}
	sort.Slice(o.Hashes, func(i, j int) bool { return o.Hashes[i] < o.Hashes[j] })
	sort.Slice(o.Ntv, func(i, j int) bool { return o.Ntv[i] < o.Ntv[j] })
}

// progress tells the driver which run is being executed, in case it kills the process.
var progress = func(i int) {}

func digest(sc *Scenario, worker int, o *out) {
	if sc.digest == nil {
		return
	}
	v := &V{tier: tier, worker: worker, digests: map[string]string{}}
	sim.NewRun(1)
	sc.digest(v)
	sim.R = nil
	o.Digests = v.digests
}

func traced(sc *Scenario, seed uint64, s *[4][]uint32, worker int) []string {
	var r *sim.Run
	if s != nil {
		r = sim.NewReplay(seed, *s)
	} else {
		r = sim.NewRun(seed)
	}
	r.Tracing = true
	execute(sc, r, worker)
	return r.Trace()
}

func diff(a, b []string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			lo := i - 3
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("line %d:\n%s\n< %s\n> %s", i, strings.Join(a[lo:i], "\n"), a[i], b[i])
		}
	}
	return "lengths " + strconv.Itoa(len(a)) + " " + strconv.Itoa(len(b))
}
