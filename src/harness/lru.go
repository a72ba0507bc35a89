package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/zzinst"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	stub := []string{"goroutine scheduler", "sync.RWMutex/Mutex (simulated, with happens-before annotations)"}
	real := []string{"util.LruCache", "util.OrderedMap", "container/list (instrumented copy)"}
	scenarios["C05"] = &Scenario{run: runC05, real: real, stub: stub,
		rule: "A run is one seeded schedule of 2-5 client tasks issuing HasKey/Get/Set with unique values on one cache; every operation is stamped at invocation and return and each key's history is checked for linearizability against a register that may be evicted only when more keys exist than fit. Non-trivial: at least two operations on one key overlapped."}
	scenarios["C06"] = &Scenario{run: runC06, real: real, stub: stub,
		rule: "A run is a history of HasKey/Get/Set on a cache of random capacity and clear amount, from one client (compared step by step with a reference LRU) or from several under a seeded schedule (the whole history checked for linearizability against the reference LRU), followed by a probe of every key. Non-trivial: at least one eviction happened in the reference."}
}

type lruRec struct {
	client    int
	op        byte // h g s
	key       int
	val       int
	has       bool
	call, ret uint64
	done      bool
}

func (o *lruRec) String() string {
	switch o.op {
	case 'h':
		return fmt.Sprintf("[%d,%d] c%d HasKey(k%d)=%v", o.call, o.ret, o.client, o.key, o.has)
	case 'g':
		return fmt.Sprintf("[%d,%d] c%d Get(k%d)=%d", o.call, o.ret, o.client, o.key, o.val)
	}
	return fmt.Sprintf("[%d,%d] c%d Set(k%d,%d)", o.call, o.ret, o.client, o.key, o.val)
}

type lruCache interface {
	has(k int) bool
	get(k int) int
	set(k, v int)
}

type intCache struct{ c zzinst.LruInt }

func (c intCache) has(k int) bool { return c.c.HasKey(k) }
func (c intCache) get(k int) int  { return c.c.Get(k) }
func (c intCache) set(k, v int)   { c.c.Set(k, v) }

type strCache struct {
	c zzinst.LruStr
}

func (c strCache) has(k int) bool { return c.c.HasKey(cacheKey(k)) }
func (c strCache) get(k int) int {
	p := c.c.Get(cacheKey(k))
	if p == nil {
		return 0
	}
	return p.N
}
func (c strCache) set(k, v int) {
	if v == 0 {
		c.c.Set(cacheKey(k), nil) // a value like any other
		return
	}
	c.c.Set(cacheKey(k), &zzinst.Payload{N: v, S: "x"})
}

// keys whose printed forms are easily confused
type pairKey = zzinst.PairKey

func mkPair(k int) pairKey {
	return [...]pairKey{{}, {"", " "}, {" ", ""}, {"1", "2"}, {"12", ""}, {"", "12"}, {"1 2", ""}, {"2", "1"}, {"1", " 2"}, {"1 ", "2"}}[k%10]
}

type pairCache struct {
	c zzinst.LruPair
}

func (c pairCache) key(k int) pairKey {
	if k < 10 {
		return mkPair(k)
	}
	return pairKey{A: "k", B: strconv.Itoa(k)}
}
func (c pairCache) has(k int) bool { return c.c.HasKey(c.key(k)) }
func (c pairCache) get(k int) int {
	v, _ := c.c.Get(c.key(k)).(int)
	return v
}
func (c pairCache) set(k, v int) {
	if v == 0 {
		c.c.Set(c.key(k), nil)
		return
	}
	c.c.Set(c.key(k), v)
}

func newCache(r *sim.Run, cap, clear int) lruCache {
	switch r.Choose(sim.SW, 4) {
	case 2:
		return strCache{zzinst.NewLruStr(cap, clear)}
	case 3:
		return pairCache{zzinst.NewLruPair(cap, clear)}
	}
	return intCache{zzinst.NewLruInt(cap, clear)}
}

// lruPlan fixes every client's operations before the run starts.
func lruPlan(r *sim.Run, clients, ops, keys int) [][]lruRec {
	plan := make([][]lruRec, clients)
	val := 0
	setBias := 2 + r.Choose(sim.SW, 3)
	for c := range plan {
		n := 1 + r.Choose(sim.SW, ops)
		for i := 0; i < n; i++ {
			o := lruRec{client: c, key: r.Choose(sim.SW, keys)}
			switch k := r.Choose(sim.SW, 2+setBias); {
			case k == 0:
				o.op = 'h'
			case k == 1:
				o.op = 'g'
			default:
				o.op = 's'
				val++
				o.val = val
				if r.Choose(sim.SW, 8) == 7 {
					o.val = 0 // the zero value is a value, too
				}
			}
			plan[c] = append(plan[c], o)
		}
	}
	return plan
}

func lruExec(c lruCache, o *lruRec) {
	o.call = sim.Seq()
	switch o.op {
	case 'h':
		o.has = c.has(o.key)
	case 'g':
		o.val = c.get(o.key)
	case 's':
		c.set(o.key, o.val)
	}
	o.ret = sim.Seq()
	o.done = true
}

// lruWorld runs the plan, then probes all keys from one task.
func lruWorld(r *sim.Run, v *V, c lruCache, plan [][]lruRec, keys int, warm []lruRec) (hist []*lruRec, w *sim.World) {
	probe := make([]lruRec, 0, 2*keys)
	for k := 0; k < keys; k++ {
		probe = append(probe, lruRec{client: -1, op: 'h', key: k}, lruRec{client: -1, op: 'g', key: k})
	}
	// another cache in the same process, with the same keys: neither may notice the other
	var noise func()
	wrong := ""
	if r.Choose(sim.SW, 5) == 4 {
		c2 := newCache(r, 1+r.Choose(sim.SW, 4), r.Choose(sim.SW, 3))
		var ops []int
		for i := 3 + r.Choose(sim.SW, 12); i > 0; i-- {
			ops = append(ops, r.Choose(sim.SW, 3*keys))
		}
		noise = func() {
			for _, o := range ops {
				k := o / 3
				switch o % 3 {
				case 0:
					c2.set(k, -1-k)
				case 1:
					if x := c2.get(k); x != 0 && x != -1-k {
						wrong = fmt.Sprintf("a second cache gives %d for key k%d, which was never set there", x, k)
					}
				case 2:
					c2.has(k)
				}
			}
		}
	}
	defer func() {
		if wrong != "" {
			v.Fail("foreign-value", "%s", wrong)
		}
	}()
	w = sim.Start(sim.Config{Limit: 400000}, func() {
		if noise != nil {
			sim.Go("other cache", noise)
		}
		for i := range warm {
			lruExec(c, &warm[i])
		}
		if len(plan) == 1 {
			for i := range plan[0] {
				lruExec(c, &plan[0][i])
			}
		} else {
			var ts []*sim.Task
			for ci := range plan {
				ops := plan[ci]
				ts = append(ts, sim.Go("client", func() {
					for i := range ops {
						lruExec(c, &ops[i])
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
		}
		for i := range probe {
			lruExec(c, &probe[i])
		}
	})
	for i := range warm {
		hist = append(hist, &warm[i])
	}
	for ci := range plan {
		for i := range plan[ci] {
			hist = append(hist, &plan[ci][i])
		}
	}
	for i := range probe {
		hist = append(hist, &probe[i])
	}
	v.outcome = w.Outcome.String()
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].call < hist[j].call })
	for _, o := range hist {
		if o.done {
			v.H("%s", o)
			r.NoteString(o.String())
		}
	}
	switch w.Outcome {
	case sim.Panicked:
		v.Fail("panic", "an operation panicked: %s\n%s", w.PanicVal, stackOf(w.Stack))
	case sim.Deadlock, sim.StepLimit:
		v.Fail("blocked", "an operation never returned (%s); blocked: %s", w.Outcome, strings.Join(w.Leaked, "; "))
	}
	return
}

func stackOf(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "hsiaosiyuan0/mole/") && !strings.Contains(l, "zzsim") && !strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i] // arguments are addresses
			}
			out = append(out, l)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

func runC05(r *sim.Run, v *V) {
	clients := 2 + r.Choose(sim.SW, 4)
	keys := 1 + r.Choose(sim.SW, 4)
	if r.Choose(sim.SW, 40) == 39 {
		clients = 8 + r.Choose(sim.SW, 25)
		keys = 1 + r.Choose(sim.SW, 24)
	}
	evict := r.Choose(sim.SW, 3) == 0
	capa := keys + r.Choose(sim.SW, 3)
	if evict {
		capa = 1 + r.Choose(sim.SW, keys)
	}
	clear := r.Choose(sim.SW, capa+2)
	c := newCache(r, capa, clear)
	plan := lruPlan(r, clients, 4, keys)
	hist, _ := lruWorld(r, v, c, plan, keys, nil)
	if v.Failed() {
		return
	}
	mayEvict := keys > capa
	for k := 0; k < keys; k++ {
		var ops []linOp
		var own []*lruRec
		for _, o := range hist {
			if o.key == k {
				own = append(own, o)
			}
		}
		for _, o := range own {
			o := o
			ops = append(ops, linOp{o.call, o.ret, func(st string) []string {
				return regApply(st, o, mayEvict)
			}})
		}
		for i := range own {
			for j := i + 1; j < len(own); j++ {
				if own[j].call < own[i].ret {
					v.nt = true
				}
			}
		}
		switch linearizable(ops, "-", 200000) {
		case 0:
			var l []string
			for _, o := range own {
				l = append(l, o.String())
			}
			v.Fail("not-linearizable", "cap=%d clear=%d keys=%d: no order of these operations on key k%d explains the results: %s", capa, clear, keys, k, strings.Join(l, "; "))
		case -1:
			r.Probe("lin_gave_up")
		}
	}
	v.sample = fmt.Sprintf("cap=%d clear=%d clients=%d: %s", capa, clear, clients, strings.Join(v.hist.All(), "; "))
}

// a register that may lose its value at any time when evictions are possible
func regApply(st string, o *lruRec, mayEvict bool) []string {
	try := func(st string) (string, bool) {
		switch o.op {
		case 'h':
			return st, o.has == (st != "-")
		case 'g':
			if st == "-" {
				return st, o.val == 0
			}
			return st, st == strconv.Itoa(o.val)
		}
		return strconv.Itoa(o.val), true
	}
	var out []string
	if ns, ok := try(st); ok {
		out = append(out, ns)
	}
	if mayEvict && st != "-" {
		if ns, ok := try("-"); ok {
			out = append(out, ns)
		}
	}
	return out
}

// reference LRU: state is "k=v,k=v,..." from least to most recently used
type refLru struct {
	k, v []int
}

func parseLru(s string) refLru {
	var l refLru
	if s == "" {
		return l
	}
	for _, p := range strings.Split(s, ",") {
		i := strings.IndexByte(p, '=')
		a, _ := strconv.Atoi(p[:i])
		b, _ := strconv.Atoi(p[i+1:])
		l.k = append(l.k, a)
		l.v = append(l.v, b)
	}
	return l
}

func (l *refLru) String() string {
	var b strings.Builder
	for i := range l.k {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%d=%d", l.k[i], l.v[i])
	}
	return b.String()
}

func (l *refLru) idx(k int) int {
	for i, x := range l.k {
		if x == k {
			return i
		}
	}
	return -1
}

func (l *refLru) toBack(i int) {
	k, v := l.k[i], l.v[i]
	l.k = append(append([]int{}, l.k[:i]...), l.k[i+1:]...)
	l.v = append(append([]int{}, l.v[:i]...), l.v[i+1:]...)
	l.k = append(l.k, k)
	l.v = append(l.v, v)
}

// apply performs o; ok is false when o's recorded result is not what the model gives.
func (l *refLru) apply(o *lruRec, capa, clear int) (ok bool, evicted int) {
	i := l.idx(o.key)
	switch o.op {
	case 'h':
		return o.has == (i >= 0), 0
	case 'g':
		if i < 0 {
			return o.val == 0, 0
		}
		ok = l.v[i] == o.val
		l.toBack(i)
		return ok, 0
	}
	if i >= 0 {
		l.v[i] = o.val
		l.toBack(i)
		return true, 0
	}
	if len(l.k)+1 > capa {
		n := clear
		if n > len(l.k) {
			n = len(l.k)
		}
		l.k = append([]int{}, l.k[n:]...)
		l.v = append([]int{}, l.v[n:]...)
		evicted = n
	}
	l.k = append(l.k, o.key)
	l.v = append(l.v, o.val)
	return true, evicted
}

func runC06(r *sim.Run, v *V) {
	single := r.Choose(sim.SW, 2) == 0
	capa := 1 + r.Small(sim.SW, 9)
	if single && r.Choose(sim.SW, 8) == 7 {
		capa = 10 + r.Choose(sim.SW, 120)
		if r.Choose(sim.SW, 8) == 7 {
			capa += 250
		}
	}
	clear := r.Choose(sim.SW, capa+2)
	if r.Choose(sim.SW, 3) == 0 {
		clear = 0
	}
	eff := clear
	if eff == 0 || eff > capa {
		eff = capa / 3
		if eff < 1 {
			eff = 1
		}
	}
	c := newCache(r, capa, clear)
	keys := capa + 1 + r.Choose(sim.SW, 4)
	if !single && keys > 8 {
		keys = 8
		if capa > 6 {
			capa = 6
		}
		c = newCache(r, capa, clear)
		eff = clear
		if eff == 0 || eff > capa {
			eff = capa / 3
			if eff < 1 {
				eff = 1
			}
		}
	}
	var plan [][]lruRec
	var warm []lruRec
	if single {
		plan = lruPlan(r, 1, 6*capa+20, keys)
	} else {
		plan = lruPlan(r, 2+r.Choose(sim.SW, 2), 3, keys)
		// start from a nearly full cache
		n := r.Choose(sim.SW, capa+1)
		for i := 0; i < n; i++ {
			warm = append(warm, lruRec{client: -2, op: 's', key: i, val: 1000 + i})
		}
	}
	hist, _ := lruWorld(r, v, c, plan, keys, warm)
	if v.Failed() {
		return
	}
	v.sample = fmt.Sprintf("cap=%d clear=%d: %s", capa, clear, strings.Join(v.hist.All(), "; "))
	present := 0
	for _, o := range hist {
		if o.client == -1 && o.op == 'h' && o.has {
			present++
		}
	}
	if present > capa {
		v.Fail("over-capacity", "cap=%d clear=%d: %d keys are present at the end: %s", capa, clear, present, strings.Join(v.hist.All(), "; "))
		return
	}
	if single {
		var l refLru
		for i, o := range hist {
			before := l.String()
			ok, ev := l.apply(o, capa, eff)
			if ev > 0 {
				v.nt = true
				r.Probe("evictions")
			}
			if !ok {
				lo := i - 25
				if lo < 0 {
					lo = 0
				}
				v.Fail("wrong-lru", "cap=%d clear=%d: %s, but a cache holding (least recent first) %q gives another result; preceding: %s", capa, clear, o, before, strings.Join(v.hist.All()[lo:i], "; "))
				return
			}
		}
		return
	}
	var ops []linOp
	for _, o := range hist {
		o := o
		ops = append(ops, linOp{o.call, o.ret, func(st string) []string {
			l := parseLru(st)
			ok, ev := l.apply(o, capa, eff)
			if ev > 0 {
				v.nt = true
			}
			if !ok {
				return nil
			}
			return []string{l.String()}
		}})
	}
	switch linearizable(ops, "", 100000) {
	case 0:
		v.Fail("wrong-lru", "cap=%d clear=%d: no order of these operations is explained by an LRU cache: %s", capa, clear, strings.Join(v.hist.All(), "; "))
	case -1:
		r.Probe("lin_gave_up")
	}
}
