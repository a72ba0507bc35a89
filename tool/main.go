package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Driver: builds the simulator binaries from /repo's working tree, runs seed
// ranges in worker processes, confirms and minimises a violation in fresh
// processes, writes the replay file and the evidence.

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "error: "+f+"\n", a...)
	os.Exit(code)
}

type conf struct {
	verif, repo, work string
	env               []string
	bin, raceBin      string
	st                *stats
	buildS            float64
}

func envList(extra ...string) []string {
	drop := map[string]bool{"GOFLAGS": true, "GOOS": true, "GOARCH": true, "GOROOT": true, "GORACE": true, "GODEBUG": true, "GOMAXPROCS": true}
	var e []string
	home := false
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		if drop[k] || strings.HasPrefix(k, "MOLESIM_") {
			continue
		}
		if k == "HOME" {
			home = true
		}
		e = append(e, kv)
	}
	if !home {
		e = append(e, "HOME=/root")
	}
	e = append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod -buildvcs=false")
	return append(e, extra...)
}

func (c *conf) build(race bool) error {
	t0 := time.Now()
	g := &gen{repo: c.repo, src: filepath.Join(c.verif, "src"), out: filepath.Join(c.work, "gen"), env: c.env}
	st, err := g.run()
	if err != nil {
		return err
	}
	c.st = st
	ov := filepath.Join(g.out, "overlay.json")
	// Code compiled without race instrumentation must still tell the race detector of
	// its allocations; the specialised allocation functions do not.
	raceEnv := c.env
	if x := append(append([]string{}, c.env...), "GOEXPERIMENT=nosizespecializedmalloc"); func() bool {
		cmd := exec.Command("go", "env", "GOVERSION")
		cmd.Env = x
		return cmd.Run() == nil
	}() {
		raceEnv = x
	}
	mk := func(env []string, out string, args ...string) error {
		a := append([]string{"build", "-trimpath", "-overlay", ov, "-o", out}, args...)
		a = append(a, "./zzsim/harness")
		cmd := exec.Command("go", a...)
		cmd.Dir = c.repo
		cmd.Env = env
		b, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %v: %v\n%s", a, err, b)
		}
		return nil
	}
	c.bin = filepath.Join(c.work, "molesim")
	var wg sync.WaitGroup
	var e1, e2 error
	wg.Add(1)
	go func() { defer wg.Done(); e1 = mk(c.env, c.bin) }()
	if race {
		c.raceBin = filepath.Join(c.work, "molesim.race")
		wg.Add(1)
		go func() {
			defer wg.Done()
			e2 = mk(raceEnv, c.raceBin, "-race", "-gcflags="+modPath+"/zzsim/...=-race=false -l", "-gcflags=fmt=-race=false")
		}()
	}
	wg.Wait()
	c.buildS = time.Since(t0).Seconds()
	if e1 != nil {
		return e1
	}
	return e2
}

// ---- worker protocol

type runRec struct {
	Seed    uint64       `json:"seed"`
	Streams *[4][]uint32 `json:"streams,omitempty"`
}

type violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type replayFile struct {
	Property  string    `json:"property"`
	Build     string    `json:"build"`
	VerifSeed uint64    `json:"verif_seed"`
	InitSeed  uint64    `json:"init_map_seed"`
	Runs      []runRec  `json:"runs"`
	Violation violation `json:"violation"`
	Original  string    `json:"original_seed"`
	Minimised string    `json:"minimised"`
	Trace     []string  `json:"trace,omitempty"`
	History   []string  `json:"history,omitempty"`
	RaceText  []string  `json:"race_report,omitempty"`
	Note      string    `json:"note,omitempty"`
	Key       string    `json:"key,omitempty"`
}

type workerOut struct {
	Runs       int               `json:"runs"`
	Nontrivial int               `json:"nontrivial"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	SimNs      int64             `json:"sim_ns"`
	Tasks      int               `json:"tasks"`
	Worlds     int               `json:"worlds"`
	MapRanges  int               `json:"map_ranges"`
	Unkeyed    int               `json:"unkeyed"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Outcomes   map[string]int    `json:"outcomes"`
	Hashes     []uint64          `json:"hashes"`
	Ntv        []uint64          `json:"ntv"` // hashes of non-trivial runs
	Samples    []string          `json:"samples"`
	Digests    map[string]string `json:"digests,omitempty"`
	Real       []string          `json:"real"`
	Stub       []string          `json:"stub"`
	Rule       string            `json:"rule"`
	Sites      []int             `json:"sites"` // yield points reached
	WallS      float64           `json:"wall_s"`
	Violation  *violation        `json:"violation"`
	Seeds      []uint64          `json:"seeds"` // seeds executed by this process, in order (only with a violation)
	Streams    *[4][]uint32      `json:"streams"`
	DetMis     int               `json:"det_mismatch"`
	DetRuns    int               `json:"det_runs"`
	Err        string            `json:"err"`
	LastHash   uint64            `json:"last_hash"`
	Trace      []string          `json:"trace,omitempty"`
	History    []string          `json:"history,omitempty"`
}

type job struct {
	bin     string
	args    []string
	env     []string
	timeout time.Duration
}

// crashErr is a worker process that died or had to be killed.
type crashErr struct {
	kind, msg string
	at        int // index of the run being executed, -1 if unknown
}

func (e *crashErr) Error() string { return e.kind + ": " + e.msg }

func (c *conf) exec(j job) (*workerOut, string, error) {
	out, err := os.CreateTemp(c.work, "w*.json")
	if err != nil {
		return nil, "", err
	}
	out.Close()
	defer os.Remove(out.Name())
	defer os.Remove(out.Name() + ".at")
	at := func() int {
		b, err := os.ReadFile(out.Name() + ".at")
		if err != nil {
			return -1
		}
		n, err := strconv.Atoi(strings.TrimSpace(string(b)))
		if err != nil {
			return -1
		}
		return n
	}
	cmd := exec.Command(j.bin, append(j.args, "-out", out.Name())...)
	cmd.Dir = c.work
	cmd.Env = append(envList("GOMAXPROCS=2", "MOLESIM_REPO="+c.repo, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5"), j.env...)
	var se bytes.Buffer
	cmd.Stdout = &se
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err = <-ch:
	case <-time.After(j.timeout):
		cmd.Process.Kill()
		<-ch
		return nil, tail(se.String()), &crashErr{"hang", fmt.Sprintf("the process made no progress for %v", j.timeout), at()}
	}
	if err != nil {
		msg := ""
		for _, l := range strings.Split(se.String(), "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
				msg = l
				break
			}
		}
		return nil, tail(se.String()), &crashErr{"crash", fmt.Sprintf("the process died (%v) %s", err, msg), at()}
	}
	b, err := os.ReadFile(out.Name())
	if err != nil {
		return nil, "", err
	}
	w := &workerOut{}
	if err := json.Unmarshal(b, w); err != nil {
		return nil, tail(se.String()), fmt.Errorf("worker output: %v", err)
	}
	return w, se.String(), nil
}

func tail(s string) string {
	if len(s) > 6000 {
		s = s[:2000] + "\n...\n" + s[len(s)-4000:]
	}
	return s
}

// replayOnce runs a replay file in a fresh process.
func (c *conf) replayOnce(rf *replayFile, trace bool) (*workerOut, string, error) {
	f, err := os.CreateTemp(c.work, "r*.json")
	if err != nil {
		return nil, "", err
	}
	b, _ := json.Marshal(rf)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	bin := c.bin
	if rf.Build == "race" {
		bin = c.raceBin
	}
	args := []string{"replay", "-prop", rf.Property, "-file", f.Name()}
	if trace {
		args = append(args, "-trace", "-sites", filepath.Join(c.work, "gen", "sites.json"))
	}
	return c.exec(job{bin: bin, args: args, env: []string{fmt.Sprintf("MOLESIM_INITSEED=%d", rf.InitSeed)}, timeout: 60 * time.Second})
}

// replayV replays and gives the violation, whatever form it takes.
func (c *conf) replayV(rf *replayFile) *violation {
	if rf.Build == "cross" {
		return c.cross(rf)
	}
	w, _, err := c.replayOnce(rf, false)
	if ce, ok := err.(*crashErr); ok {
		return &violation{ce.kind, ce.msg}
	}
	if err != nil {
		return nil
	}
	return w.Violation
}

// cross compares the digest of one program in two processes.
func (c *conf) cross(rf *replayFile) *violation {
	var d [2]string
	var have [2]bool
	for k := 0; k < 2; k++ {
		id := 0
		if k == 1 {
			id = int(rf.Runs[0].Seed)
		}
		w, _, err := c.exec(job{bin: c.bin, args: []string{"digest", "-prop", rf.Property, "-worker", fmt.Sprint(id)},
			env: []string{fmt.Sprintf("MOLESIM_INITSEED=%d", id)}, timeout: 120 * time.Second})
		if err != nil {
			return nil
		}
		d[k], have[k] = w.Digests[rf.Key]
	}
	if !have[0] || !have[1] || d[0] == d[1] {
		return nil
	}
	return &violation{"process-dependent", fmt.Sprintf("the result of %s differs between two processes (map order during package initialisation, or parse history): %s and %s", rf.Key, d[0], d[1])}
}

type propConf struct {
	quickRuns, thoroughRuns int     // runs per worker process
	quickRace, thoroughRace int     // runs per worker process of the race build (0: none)
	quickS, thoroughS       float64 // time cap
	cross                   bool    // compare digests across processes
}

func (c *conf) check(prop, tier string, seed uint64) int {
	pc, ok := props[prop]
	if !ok {
		die(2, "unknown property %s", prop)
	}
	t0 := time.Now()
	runs, raceRuns, cap := pc.quickRuns, pc.quickRace, pc.quickS
	if tier == "thorough" {
		runs, raceRuns, cap = pc.thoroughRuns, pc.thoroughRace, pc.thoroughS
	}
	if err := c.build(raceRuns > 0); err != nil {
		die(2, "build: %v", err)
	}
	nw := 8
	type res struct {
		w    *workerOut
		race bool
		id   int
		err  error
		log  string
		rf   *replayFile
	}
	var jobs []job
	var race []bool
	for i := 0; i < nw; i++ {
		jobs = append(jobs, job{bin: c.bin, args: []string{"run", "-prop", prop, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(i), "-workers", fmt.Sprint(nw),
			"-runs", fmt.Sprint(runs), "-time", fmt.Sprint(cap), "-tier", tier}, env: []string{fmt.Sprintf("MOLESIM_INITSEED=%d", i)}, timeout: time.Duration(cap+120) * time.Second})
		race = append(race, false)
	}
	if raceRuns > 0 {
		for i := 0; i < nw; i++ {
			jobs = append(jobs, job{bin: c.raceBin, args: []string{"run", "-prop", prop, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(100 + i), "-workers", fmt.Sprint(nw),
				"-runs", fmt.Sprint(raceRuns), "-time", fmt.Sprint(cap), "-tier", tier}, env: []string{fmt.Sprintf("MOLESIM_INITSEED=%d", i)}, timeout: time.Duration(cap+120) * time.Second})
			race = append(race, true)
		}
	}
	results := make([]res, len(jobs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			w, log, err := c.exec(jobs[i])
			results[i] = res{w: w, race: race[i], id: i, err: err, log: log}
		}(i)
	}
	wg.Wait()
	// violations: confirm in fresh processes
	base := mix(seed, hashStr(prop))
	var rf *replayFile
	nviol := 0
	unrepro := []string{}
	var harness []string
	var racy *replayFile
	for _, r := range results {
		var v *violation
		var seeds []uint64
		var streams *[4][]uint32
		if r.err != nil {
			ce, ok := r.err.(*crashErr)
			if !ok || ce.at < 0 {
				harness = append(harness, fmt.Sprintf("worker %d: %v\n%s", r.id, r.err, r.log))
				continue
			}
			v = &violation{ce.kind, ce.msg}
			wid := r.id
			if r.race {
				wid = 100 + r.id - nw
			}
			for i := 0; i <= ce.at; i++ {
				seeds = append(seeds, mix(base, uint64(wid)<<40|uint64(i)))
			}
		} else {
			if r.w.Err != "" {
				harness = append(harness, fmt.Sprintf("worker %d: %s", r.id, r.w.Err))
				continue
			}
			if r.w.Violation == nil {
				continue
			}
			v, seeds, streams = r.w.Violation, r.w.Seeds, r.w.Streams
		}
		nviol++
		if rf != nil {
			continue
		}
		last := seeds[len(seeds)-1]
		cand := &replayFile{Property: prop, Build: "plain", VerifSeed: seed, InitSeed: uint64(r.id % nw), Violation: *v,
			Original: fmt.Sprintf("VERIF_SEED=%d worker=%d run_seed=%d", seed, r.id, last)}
		if r.race {
			cand.Build = "race"
		}
		if got := c.confirm(cand, []runRec{{Seed: last, Streams: streams}}, 3); got == nil {
			// depends on what ran before in the same process
			var all []runRec
			for _, s := range seeds {
				all = append(all, runRec{Seed: s})
			}
			cand.Note = "the violation depends on the runs executed before it in the same process"
			if got = c.confirm(cand, all, 2); got == nil {
				unrepro = append(unrepro, fmt.Sprintf("worker %d %s: %s", r.id, v.Kind, v.Msg))
				if v.Kind == "data-race" && racy == nil {
					cand.Runs = []runRec{{Seed: last, Streams: streams}}
					cand.Note = "reported by the race detector during the search; its bounded memory did not report it again in the replays"
					cand.RaceText = strings.Split(tail(r.log), "\n")
					racy = cand
				}
				continue
			}
		}
		rf = cand
	}
	// cross-process comparison
	if rf == nil && pc.cross {
		for i := 1; i < nw && rf == nil; i++ {
			if results[0].w == nil || results[i].w == nil {
				continue
			}
			a, b := results[0].w, results[i].w
			var keys []string
			for k := range a.Digests {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if bd, ok := b.Digests[k]; ok && bd != a.Digests[k] {
					nviol++
					cand := &replayFile{Property: prop, Build: "cross", VerifSeed: seed,
						Original: fmt.Sprintf("workers 0 and %d", i), Runs: []runRec{{Seed: uint64(i)}}, Key: k}
					if v := c.cross(cand); v != nil {
						cand.Violation = *v
						rf = cand
					} else {
						unrepro = append(unrepro, "digest "+k)
					}
					break
				}
			}
		}
	}
	final := false
	if rf == nil && racy != nil {
		rf, final = racy, true
	}
	detMis, detRuns := 0, 0
	for _, r := range results {
		if r.w != nil {
			detMis += r.w.DetMis
			detRuns += r.w.DetRuns
		}
	}
	if detMis > 0 {
		// Not a verdict: the code may rightly keep something between the runs of a process (a cache).
		fmt.Fprintf(os.Stderr, "note: %d of %d repeated runs took another path than the first time; the code keeps state between runs\n", detMis, detRuns)
	}
	code := 0
	replayPath := ""
	if rf != nil {
		if rf.Build != "cross" && !final {
			c.minimise(rf, 60*time.Second)
			w, log, _ := c.replayOnce(rf, true)
			if w != nil {
				rf.Trace = w.Trace
				rf.History = w.History
				if rf.Build == "race" {
					rf.RaceText = strings.Split(tail(log), "\n")
				}
			}
		}
		dir := filepath.Join(c.verif, "replays")
		os.MkdirAll(dir, 0755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, time.Now().UnixNano()))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(replayPath, b, 0644)
		code = 1
	}
	// evidence
	c.evidence(prop, tier, seed, t0, func(f func(w *workerOut, race bool)) {
		for _, r := range results {
			if r.w != nil {
				f(r.w, r.race)
			}
		}
	}, nviol, rf, unrepro)
	for _, l := range c.known(prop) {
		fmt.Println(l)
	}
	if code == 1 {
		fmt.Printf("%s: %s\n", rf.Violation.Kind, rf.Violation.Msg)
		if len(rf.RaceText) > 0 {
			fmt.Println(strings.Join(rf.RaceText, "\n"))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		return 1
	}
	if len(harness) > 0 {
		die(2, "%s", strings.Join(harness, "\n"))
	}
	if len(unrepro) > 0 {
		die(2, "violations that did not reproduce: %v", unrepro)
	}
	return 0
}

// known gives the lines to print for the findings listed in known_findings.txt.
func (c *conf) known(prop string) []string {
	var out []string
	b, _ := os.ReadFile(filepath.Join(c.verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// confirm replays the runs in fresh processes; on success the candidate is complete.
// Two replays must agree; a race may need more attempts, what the detector remembers
// of an execution is bounded.
func (c *conf) confirm(rf *replayFile, runs []runRec, tries int) *violation {
	rf.Runs = runs
	var first *violation
	for k := 0; k <= tries; k++ {
		v := c.replayV(rf)
		if v == nil {
			continue
		}
		if v.Kind == rf.Violation.Kind || (first != nil && first.Kind == v.Kind) {
			rf.Violation = *v
			return v
		}
		first = v
	}
	return nil
}

func (c *conf) minimise(rf *replayFile, limit time.Duration) {
	deadline := time.Now().Add(limit)
	kind := rf.Violation.Kind
	tries := 0
	ok := func(x *replayFile) bool {
		v := c.replayV(x)
		return v != nil && v.Kind == kind
	}
	// several candidates at once; the first (simplest) success wins
	firstOK := func(cs []*replayFile) *replayFile {
		tries += len(cs)
		res := make([]bool, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); res[i] = ok(cs[i]) }(i)
		}
		wg.Wait()
		for i := range cs {
			if res[i] {
				return cs[i]
			}
		}
		return nil
	}
	clone := func(x *replayFile) *replayFile {
		y := *x
		y.Runs = make([]runRec, len(x.Runs))
		for i, r := range x.Runs {
			y.Runs[i] = r
			if r.Streams != nil {
				s := *r.Streams
				for k := range s {
					s[k] = append([]uint32{}, s[k]...)
				}
				y.Runs[i].Streams = &s
			}
		}
		return &y
	}
	before := 0
	size := func(x *replayFile) int {
		n := len(x.Runs)
		for _, r := range x.Runs {
			if r.Streams != nil {
				for _, s := range r.Streams {
					n += len(s)
				}
			}
		}
		return n
	}
	before = size(rf)
	// drop earlier runs
	for chunk := (len(rf.Runs) - 1 + 1) / 2; chunk >= 1 && time.Now().Before(deadline); chunk /= 2 {
		for i := 0; i+chunk <= len(rf.Runs)-1 && time.Now().Before(deadline); {
			var cs []*replayFile
			var at []int
			for j := i; j+chunk <= len(rf.Runs)-1 && len(cs) < 8; j += chunk {
				y := clone(rf)
				y.Runs = append(y.Runs[:j:j], y.Runs[j+chunk:]...)
				cs = append(cs, y)
				at = append(at, j)
			}
			if y := firstOK(cs); y != nil {
				*rf = *y
			} else {
				i = at[len(at)-1] + chunk
			}
		}
	}
	last := func(x *replayFile) *[4][]uint32 { return x.Runs[len(x.Runs)-1].Streams }
	if last(rf) != nil {
		// whole streams first
		for _, k := range []int{2, 3, 1} {
			y := clone(rf)
			last(y)[k] = nil
			if firstOK([]*replayFile{y}) != nil {
				*rf = *y
			}
		}
		for pass := 0; pass < 3 && time.Now().Before(deadline); pass++ {
			changed := false
			for _, k := range []int{2, 0, 3, 1} {
				n := len(last(rf)[k])
				for chunk := n; chunk >= 1 && time.Now().Before(deadline); chunk /= 2 {
					for i := 0; i < len(last(rf)[k]) && time.Now().Before(deadline); {
						var cs []*replayFile
						end := i
						for j := i; j < len(last(rf)[k]) && len(cs) < 8; j += chunk {
							e := j + chunk
							if e > len(last(rf)[k]) {
								e = len(last(rf)[k])
							}
							y := clone(rf)
							s := last(y)[k]
							last(y)[k] = append(s[:j:j], s[e:]...)
							cs = append(cs, y)
							zero := true
							for q := j; q < e; q++ {
								if last(rf)[k][q] != 0 {
									zero = false
								}
							}
							if !zero {
								z := clone(rf)
								for q := j; q < e; q++ {
									last(z)[k][q] = 0
								}
								cs = append(cs, z)
							}
							end = e
						}
						if y := firstOK(cs); y != nil && (size(y) < size(rf) || weight(last(y)) < weight(last(rf))) {
							*rf = *y
							changed = true
						} else {
							i = end
						}
					}
				}
				// halve single values
				for i := 0; i < len(last(rf)[k]) && time.Now().Before(deadline) && len(last(rf)[k]) < 300; i++ {
					v := last(rf)[k][i]
					if v <= 1 {
						continue
					}
					var cs []*replayFile
					for _, nv := range []uint32{1, v / 4, v / 2, v - 1} {
						y := clone(rf)
						last(y)[k][i] = nv
						cs = append(cs, y)
					}
					if y := firstOK(cs); y != nil && last(y)[k][i] < v {
						*rf = *y
						changed = true
						i--
					}
				}
			}
			if !changed {
				break
			}
		}
	}
	if v := c.replayV(rf); v != nil {
		rf.Violation = *v
	}
	rf.Minimised = fmt.Sprintf("%d -> %d recorded choices in %d replays", before, size(rf), tries)
}

func weight(s *[4][]uint32) uint64 {
	var n uint64
	for _, x := range s {
		for _, v := range x {
			n += uint64(v)
		}
	}
	return n
}

func (c *conf) evidence(prop, tier string, seed uint64, t0 time.Time, each func(func(*workerOut, bool)), nviol int, rf *replayFile, unrepro []string) {
	cov := map[string]interface{}{}
	faults, probes, outcomes := map[string]int{}, map[string]int{}, map[string]int{}
	hs, ntv := map[uint64]bool{}, map[uint64]bool{}
	runs, raceRuns, det, mis := 0, 0, 0, 0
	var steps, sw uint64
	var simNs int64
	tasks, worlds, mr, unk := 0, 0, 0, 0
	var samples []string
	rule := ""
	var real, stub []string
	wall := 0.0
	seen := map[int]bool{}
	each(func(w *workerOut, race bool) {
		for _, s := range w.Sites {
			seen[s] = true
		}
		runs += w.Runs
		if race {
			raceRuns += w.Runs
		}
		det += w.DetRuns
		mis += w.DetMis
		steps += w.Steps
		sw += w.Switches
		simNs += w.SimNs
		tasks += w.Tasks
		worlds += w.Worlds
		mr += w.MapRanges
		unk += w.Unkeyed
		for k, v := range w.Faults {
			faults[k] += v
		}
		for k, v := range w.Probes {
			probes[k] += v
		}
		for k, v := range w.Outcomes {
			outcomes[k] += v
		}
		for _, h := range w.Hashes {
			hs[h] = true
		}
		for _, h := range w.Ntv {
			ntv[h] = true
		}
		if len(samples) < 4 {
			samples = append(samples, w.Samples...)
		}
		rule = w.Rule
		real, stub = w.Real, w.Stub
		if w.WallS > wall {
			wall = w.WallS
		}
	})
	el := time.Since(t0).Seconds()
	cov["evaluations"] = runs
	cov["distinct_nontrivial"] = len(ntv)
	cov["rule"] = rule
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	cov["samples"] = samples
	cov["race_detector_runs"] = raceRuns
	if el > 0 {
		cov["runs_per_hour"] = int(float64(runs) / el * 3600)
	}
	cov["simulated_seconds"] = float64(simNs) / 1e9
	cov["scheduler_steps"] = steps
	cov["context_switches"] = sw
	cov["tasks_started"] = tasks
	cov["simulated_process_lifetimes"] = worlds
	cov["map_iterations_permuted"] = mr
	cov["map_keys_without_identity"] = unk
	cov["faults_injected"] = faults
	cov["probes"] = probes
	cov["outcomes"] = outcomes
	cov["distinct_interleavings"] = len(hs)
	cov["interleaving_measure"] = "64-bit hash over the sequence of (task switched to, yield site), injected faults and observed events of a run"
	cov["determinism_rechecks"] = det
	cov["real_code"] = real
	cov["stubs"] = stub
	cov["instrumentation"] = fmt.Sprintf("%d files, %d yield points, %d go statements, %d channel types, %d selects, %d map iterations, %d redirected imports", c.st.Files, c.st.Yields, c.st.Gos, c.st.Chans, c.st.Selects, c.st.MapRanges, c.st.Imports)
	cov["build_s"] = c.buildS
	cov["yield_points_reached"] = c.reached(prop, seen)
	if rf != nil {
		cov["violation"] = rf.Violation
		cov["minimised"] = rf.Minimised
	}
	cov["runs_that_took_another_path_when_repeated"] = mis
	if len(unrepro) > 0 {
		cov["unreproducible"] = unrepro
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"assumptions": []string{"the Go compiler and runtime run the instrumented code as they run the original", "yield points (function entries, loop heads, every statement in util, parseutil, cli, script) are where schedules are explored; finer interleavings only through the race detector build", "the stubs behave as the real components they stand for"},
		"wall_s":      el, "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		die(2, "evidence: %v", err)
	}
}

// reached counts the yield points reached, per package of which any was.
func (c *conf) reached(prop string, seen map[int]bool) map[string]string {
	var sites []string
	b, _ := os.ReadFile(filepath.Join(c.work, "gen", "sites.json"))
	json.Unmarshal(b, &sites)
	hit, all := map[string]int{}, map[string]int{}
	var missed []string
	for i, s := range sites {
		d := filepath.Dir(s)
		all[d]++
		if seen[i+1] {
			hit[d]++
		} else {
			missed = append(missed, s)
		}
	}
	out := map[string]string{}
	for d, n := range hit {
		out[d] = fmt.Sprintf("%d of %d", n, all[d])
	}
	if p := os.Getenv("VTOOL_MISSED"); p != "" {
		os.WriteFile(p, []byte(strings.Join(missed, "\n")+"\n"), 0644)
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: vtool build|check|replay|det ...")
	}
	verif := os.Getenv("VTOOL_VERIF")
	if verif == "" {
		die(2, "VTOOL_VERIF not set")
	}
	repo := os.Getenv("VTOOL_REPO")
	if repo == "" {
		repo = "/repo"
	}
	base := filepath.Join(verif, ".work")
	os.MkdirAll(base, 0755)
	work, err := os.MkdirTemp(base, "run")
	if err != nil {
		die(2, "%v", err)
	}
	c := &conf{verif: verif, repo: repo, work: work, env: envList()}
	code := c.main(os.Args[1:])
	os.RemoveAll(work)
	os.Exit(code)
}

func (c *conf) main(a []string) int {
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	switch a[0] {
	case "build":
		if err := c.build(true); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("built in %.1fs: %+v\n", c.buildS, *c.st)
		if len(a) > 1 {
			for _, b := range []string{c.bin, c.raceBin, filepath.Join(c.work, "gen", "sites.json")} {
				d, _ := os.ReadFile(b)
				os.WriteFile(filepath.Join(a[1], filepath.Base(b)), d, 0755)
			}
			if len(a) > 2 {
				exec.Command("cp", "-r", filepath.Join(c.work, "gen"), a[1]).Run()
			}
		}
		return 0
	case "check":
		defer func() {
			if r := recover(); r != nil {
				die(2, "%v", r)
			}
		}()
		return c.check(a[1], a[2], seed)
	case "replay":
		b, err := os.ReadFile(a[1])
		if err != nil {
			die(2, "%v", err)
		}
		rf := &replayFile{}
		if err := json.Unmarshal(b, rf); err != nil {
			die(2, "%v", err)
		}
		if err := c.build(rf.Build == "race"); err != nil {
			die(2, "build: %v", err)
		}
		if rf.Build == "cross" {
			v := c.cross(rf)
			if v == nil {
				fmt.Println("no violation")
				return 0
			}
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Kind, v.Msg, rf.Property, a[1])
			return 1
		}
		w, log, err := c.replayOnce(rf, true)
		if ce, ok := err.(*crashErr); ok {
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", log, ce.Error(), rf.Property, a[1])
			return 1
		}
		if err != nil {
			die(2, "%v\n%s", err, log)
		}
		for _, l := range w.Trace {
			fmt.Println(l)
		}
		for _, l := range w.History {
			fmt.Println("history:", l)
		}
		if w.Violation == nil {
			fmt.Println("no violation")
			return 0
		}
		if rf.Build == "race" {
			fmt.Println(tail(log))
		}
		fmt.Printf("%s: %s\n", w.Violation.Kind, w.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, a[1])
		return 1
	}
	die(2, "unknown command %s", a[0])
	return 2
}
