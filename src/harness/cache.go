package main

import (
	"fmt"
	"strings"

	"github.com/hsiaosiyuan0/mole/parseutil"
	"github.com/hsiaosiyuan0/mole/zzinst"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	real := []string{"parseutil.ParseCache"}
	stub := []string{"goroutine scheduler", "channels, sync (simulated, with happens-before annotations)", "clock", "the registered parsers (harness: yield, sleep, stall, return nil)"}
	base := "A run is one seeded schedule of 2-6 requesting tasks issuing Parse calls for a few keys on one cache with one to three parser types; parsers yield, sleep or stall, results may be nil, futures are read at once, later or never. "
	scenarios["C07"] = &Scenario{run: func(r *sim.Run, v *V) { runCache(r, v, "C07") }, real: real, stub: stub,
		rule: base + "Every parser invocation is recorded and matched with the requests. Non-trivial: two requests for one key were made before its first parse finished."}
	scenarios["C08"] = &Scenario{run: func(r *sim.Run, v *V) { runCache(r, v, "C08") }, real: real, stub: stub,
		rule: base + "Every value received from a future is compared with what the parser returned for the key; requests and reads that never complete although the key's parser did not stall are violations. Non-trivial: two requests for one key were made before its first parse finished."}
}

type parseCall struct {
	typ        int
	file, code string
	read       bool
	biz        interface{}
	start, end uint64
	res        interface{}
	key        int
}

type parseReq struct {
	key, typ  int
	file      string
	code      string
	read      bool
	biz       interface{}
	mode      int // 0 read at once, 1 read later, 2 never
	call, ret uint64
	got       bool
	gotAt     uint64
	val       interface{}
	fut       parseutil.FutureParsed
	client    int
}

type stubParser struct {
	cr  *cacheRun
	typ int
}

type resT struct{ n int }

// bizT is the business data of a request
type bizT struct{ id, key int }

type cacheRun struct {
	r      *sim.Run
	v      *V
	calls  sim.List[parseCall]
	plan   []int // behaviour per key
	stall  sim.WaitQ
	values []interface{}
}

func (p *stubParser) Type() parseutil.ParserType { return parseutil.ParserType(p.typ) }

func (p *stubParser) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	cr := p.cr
	key := -1
	if b, ok := biz.(*bizT); ok && b != nil {
		key = b.key
	}
	i := cr.calls.Len()
	cr.calls.Add(parseCall{typ: p.typ, file: file, code: code, read: readFile, biz: biz, start: sim.Seq(), key: key})
	if key < 0 {
		return "no such request"
	}
	switch cr.plan[key] & 3 {
	case 1:
		for j := 0; j < 40; j++ {
			sim.Y(0)
		}
	case 2:
		sim.Sleep(50e6)
	case 3:
		cr.r.Fired(sim.FStall)
		cr.stall.Wait("stalled parser")
	}
	res := cr.values[key]
	c := cr.calls.Ptr(i)
	c.res = res
	c.end = sim.Seq()
	return res
}

type structKey = zzinst.PairKey

// structKeyOf gives distinct keys, the first of which look alike when printed.
func structKeyOf(k int) structKey {
	if k < 5 {
		return [...]structKey{{"", ""}, {"a b", ""}, {"a", "b"}, {"a", " b"}, {"a ", "b"}}[k]
	}
	return structKey{A: cacheKey(k), B: "k"}
}

func runCache(r *sim.Run, v *V, prop string) {
	cr := &cacheRun{r: r, v: v}
	keys := 1 + r.Small(sim.SW, 5)
	many := r.Choose(sim.SW, 25) == 24
	if many {
		keys = 30 + r.Choose(sim.SW, 400)
		if r.Choose(sim.SW, 8) == 7 {
			keys += 600 + r.Choose(sim.SW, 1500)
		}
	}
	manyStall := many && keys < 500 && r.Choose(sim.SW, 3) == 2
	cr.plan, cr.values = make([]int, keys), make([]interface{}, keys)
	ntyp := 1 + r.Choose(sim.SW, 3)
	types := [][]int{{0, 1, 2}, {255, 0, 7}, {8, 128, 0}, {1, 9, 17}, {3, 131, 67}}[r.Choose(sim.SW, 5)]
	mixed := r.Choose(sim.SW, 4) == 3 // requests for one key with several types
	alike := r.Choose(sim.SW, 3)      // files and sources that keys have in common
	id := 0
	req := func(c, k int) parseReq {
		id++
		q := parseReq{client: c, key: k, typ: types[k%ntyp], file: fmt.Sprintf("f%d-%d", k, id), code: fmt.Sprintf("code-k%d-%d", k, id), biz: &bizT{id, k}}
		if mixed {
			q.typ = types[r.Choose(sim.SW, ntyp)]
		}
		if alike > 0 {
			q.file = []string{"a.js", "b.js", ""}[r.Choose(sim.SW, 3)]
		}
		if alike > 1 {
			q.code = []string{"a", "b", ""}[r.Choose(sim.SW, 3)]
		}
		return q
	}
	for k := 0; k < keys; k++ {
		b := r.Choose(sim.SW, 8)
		switch {
		case b == 7:
			cr.plan[k] = 3
		case b >= 4:
			cr.plan[k] = 2
		default:
			cr.plan[k] = b & 1
		}
		if manyStall {
			cr.plan[k] = 3 * (b & 1)
		} else if many {
			cr.plan[k] = 0
		}
		switch r.Choose(sim.SW, 6) {
		case 0:
			cr.values[k] = &resT{k}
		case 1:
			cr.values[k] = nil
		case 2:
			cr.values[k] = fmt.Sprintf("result-%d", k)
		case 3:
			cr.values[k] = fmt.Errorf("error-%d", k)
		case 4:
			var p interface{} = &resT{k}
			cr.values[k] = &p // a *Parsed
		case 5:
			cr.values[k] = (*resT)(nil)
		}
	}
	nc := 2 + r.Choose(sim.SW, 5)
	var reqs [][]parseReq
	for c := 0; c < nc; c++ {
		var l []parseReq
		for n := 1 + r.Choose(sim.SW, 4); n > 0; n-- {
			k := r.Choose(sim.SW, keys)
			q := req(c, k)
			q.read, q.mode = r.Choose(sim.SW, 2) == 1, r.Choose(sim.SW, 3)
			l = append(l, q)
		}
		reqs = append(reqs, l)
	}
	if many {
		// one client asks for each of the keys, and for some of them again later
		var l []parseReq
		for n := 0; n < keys+40; n++ {
			k := n
			if k >= keys {
				k = r.Choose(sim.SW, keys)
			}
			l = append(l, req(nc, k))
		}
		reqs = append(reqs, l)
		r.Probe("many_keys")
	}
	if !many && r.Choose(sim.SW, 25) == 24 {
		// a crowd asks for one key
		k := r.Choose(sim.SW, keys)
		for c := 20 + r.Choose(sim.SW, 120); c > 0; c-- {
			q := req(len(reqs), k)
			q.mode = r.Choose(sim.SW, 3)
			reqs = append(reqs, []parseReq{q})
		}
		r.Probe("crowd")
	}
	strKeys := r.Choose(sim.SW, 2) == 1
	lateSet := r.Choose(sim.SW, 3) == 2
	var parse func(q *parseReq) parseutil.FutureParsed
	cs := zzinst.NewParseStr()
	ct := zzinst.NewParsePair()
	setP := func(p parseutil.Parser) {
		if strKeys {
			cs.SetParser(p)
		} else {
			ct.SetParser(p)
		}
	}
	if strKeys {
		parse = func(q *parseReq) parseutil.FutureParsed {
			return cs.Parse(parseutil.ParserType(q.typ), cacheKey(q.key), q.file, q.code, q.read, q.biz)
		}
	} else {
		parse = func(q *parseReq) parseutil.FutureParsed {
			return ct.Parse(parseutil.ParserType(q.typ), structKeyOf(q.key), q.file, q.code, q.read, q.biz)
		}
	}
	late := func() {}
	if lateSet {
		// registering a further type while requests are under way
		n, again := r.Choose(sim.SW, 60), r.Choose(sim.SW, 2) == 0
		late = func() {
			sim.Sleep(int64(n) * 1e6)
			for ; n > 0; n-- {
				sim.Y(0)
			}
			if again {
				// or a known one anew
				setP(&stubParser{cr, types[0]})
				return
			}
			setP(&stubParser{cr, 42})
		}
	}
	read := func(q *parseReq) {
		q.val = q.fut.Recv()
		q.gotAt = sim.Seq()
		q.got = true
	}
	// another cache in the same process, with the same keys and a parser of its own
	other := r.Choose(sim.SW, 5) == 4
	foreign := ""
	w := sim.Start(sim.Config{Limit: uint64(300000 + 1000*keys)}, func() {
		for t := 0; t < ntyp; t++ {
			setP(&stubParser{cr, types[t]})
		}
		if other {
			oc := zzinst.NewParseStr()
			ot := zzinst.NewParsePair()
			oc.SetParser(otherParser{})
			ot.SetParser(otherParser{})
			sim.Go("other cache", func() {
				for i := 0; i < 2*keys && i < 12; i++ {
					k := i % keys
					var f parseutil.FutureParsed
					if strKeys {
						f = oc.Parse(0, cacheKey(k), "other", "other", false, k)
					} else {
						f = ot.Parse(0, structKeyOf(k), "other", "other", false, k)
					}
					if x := f.Recv(); x != otherRes(k) && foreign == "" {
						foreign = fmt.Sprintf("a second cache yields %s for key %d instead of the result of its own parser", show(x), k)
					}
				}
			})
		}
		for c := range reqs {
			l := reqs[c]
			sim.Go("client", func() {
				for i := range l {
					q := &l[i]
					q.call = sim.Seq()
					q.fut = parse(q)
					q.ret = sim.Seq()
					if q.mode == 0 && cr.plan[q.key] != 3 {
						read(q)
					}
				}
				for i := range l {
					q := &l[i]
					if q.got || q.mode == 0 {
						continue
					}
					if q.mode == 2 {
						r.Fired(sim.FAbandon)
						continue
					}
					sim.Go("reader", func() { read(q) })
				}
			})
		}
		late()
	})
	v.outcome = w.Outcome.String()
	var all []*parseReq
	for c := range reqs {
		for i := range reqs[c] {
			all = append(all, &reqs[c][i])
		}
	}
	for _, q := range all {
		s := "not read"
		if q.got {
			s = fmt.Sprintf("received %s at %d", show(q.val), q.gotAt)
		}
		v.H("client %d Parse(type %d, key %d, %s) [%d,%d] %s", q.client, q.typ, q.key, q.code, q.call, q.ret, s)
		r.NoteString(s)
		r.Note(q.call)
	}
	for _, c := range cr.calls.All() {
		v.H("parser %d invoked for key %d (%s) [%d,%d] -> %s", c.typ, c.key, c.code, c.start, c.end, show(c.res))
		r.Note(c.start)
	}
	v.sample = strings.Join(v.hist.All(), "; ")
	if w.Outcome == sim.Panicked {
		v.Fail("panic", "the cache panicked: %s\n%s", w.PanicVal, stackOf(w.Stack))
		return
	}
	if foreign != "" {
		v.Fail("foreign-result", "%s: %s", foreign, strings.Join(v.hist.All(), "; "))
		return
	}
	firstEnd := map[int]uint64{}
	byKey := map[int][]parseCall{}
	for _, c := range cr.calls.All() {
		byKey[c.key] = append(byKey[c.key], c)
		e := c.end
		if e == 0 {
			e = 1 << 62
		}
		if _, ok := firstEnd[c.key]; !ok {
			firstEnd[c.key] = e
		}
	}
	early := map[int]int{}
	for _, q := range all {
		if q.call > 0 && q.call < firstEnd[q.key] {
			early[q.key]++
			if early[q.key] > 1 {
				v.nt = true
			}
		}
	}
	if prop == "C07" {
		for k := 0; k < keys; k++ {
			cs := byKey[k]
			if len(cs) > 1 {
				v.Fail("parsed-twice", "key %d was parsed %d times: %s", k, len(cs), strings.Join(v.hist.All(), "; "))
				return
			}
			var asked []*parseReq
			for _, q := range all {
				if q.key == k && q.ret > 0 {
					asked = append(asked, q)
				}
			}
			if len(cs) == 0 {
				if len(asked) > 0 {
					v.Fail("never-parsed", "key %d was requested but never parsed: %s", k, strings.Join(v.hist.All(), "; "))
					return
				}
				continue
			}
			ok := false
			for _, q := range all {
				if q.key == k && q.call > 0 && q.call < cs[0].start && q.file == cs[0].file && q.code == cs[0].code && q.read == cs[0].read && q.biz == cs[0].biz && q.typ == cs[0].typ {
					ok = true
				}
			}
			if !ok {
				v.Fail("wrong-arguments", "the parser got arguments that no request for key %d had: %s", k, strings.Join(v.hist.All(), "; "))
				return
			}
		}
		return
	}
	if w.Outcome == sim.StepLimit {
		v.Fail("livelock", "the cache never became quiet: %s", strings.Join(v.hist.All(), "; "))
		return
	}
	for _, q := range all {
		stalled := cr.plan[q.key] == 3
		if q.call > 0 && q.ret == 0 {
			v.Fail("request-blocked", "client %d's request for key %d never returned: %s", q.client, q.key, strings.Join(v.hist.All(), "; "))
			return
		}
		if q.call == 0 {
			v.Fail("client-blocked", "client %d never got to its request for key %d: %s", q.client, q.key, strings.Join(v.hist.All(), "; "))
			return
		}
		if q.got {
			if q.val != cr.values[q.key] {
				v.Fail("wrong-result", "the future of client %d for key %d yielded %s, the parser returned %s: %s", q.client, q.key, show(q.val), show(cr.values[q.key]), strings.Join(v.hist.All(), "; "))
				return
			}
			done := false
			for _, c := range byKey[q.key] {
				if c.end > 0 && c.end < q.gotAt {
					done = true
				}
			}
			if !done {
				v.Fail("early-result", "the future of client %d for key %d yielded a value before any parse of it finished", q.client, q.key)
				return
			}
		} else if !stalled && q.mode != 2 {
			v.Fail("no-result", "the future of client %d for key %d never yielded anything: %s", q.client, q.key, strings.Join(v.hist.All(), "; "))
			return
		}
	}
	// no cache goroutine may be stuck, except the ones inside stalled parsers
	for _, l := range w.Leaked {
		if strings.HasPrefix(l, "other cache") {
			v.Fail("foreign-result", "a request to a second cache never got its result: %s; %s", l, strings.Join(v.hist.All(), "; "))
			return
		}
		if !strings.Contains(l, "stalled parser") && !strings.HasPrefix(l, "reader") && !strings.HasPrefix(l, "client") && !strings.HasPrefix(l, "other cache") {
			v.Fail("stuck-goroutine", "a goroutine of the cache is stuck: %s", l)
			return
		}
	}
}

type otherRes int

type otherParser struct{}

func (otherParser) Type() parseutil.ParserType { return 0 }
func (otherParser) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	sim.Y(0)
	if file != "other" {
		return "a request of the other cache"
	}
	return otherRes(biz.(int))
}

func cacheKey(k int) string {
	if k < 5 {
		// distinct, but alike
		return [...]string{"", "a.js", "./a.js", "A.js", "a.js "}[k]
	}
	return fmt.Sprintf("key%d", k)
}

func show(x interface{}) string {
	switch t := x.(type) {
	case nil:
		return "nil"
	case *resT:
		if t == nil {
			return "(*resT)(nil)"
		}
		return fmt.Sprintf("&resT{%d}", t.n)
	case *interface{}:
		return "*" + show(*t)
	}
	return fmt.Sprint(x)
}
