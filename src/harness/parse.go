package main

import (
	"fmt"
	"strconv"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

var realParse = []string{"span", "ecma/parser", "ecma/estree", "util"}
var realRead = []string{"span", "ecma/parser", "ecma/estree", "ecma/walk", "ecma/analysis", "ecma/exec", "ecma/astutil", "util"}
var stubParse = []string{"goroutine scheduling", "hash-map iteration order", "clock"}

func init() {
	scenarios["C14"] = &Scenario{run: runC14, setup: classify, digest: digestParse, real: realParse, stub: stubParse,
		rule: "A run parses and converts 2-5 lists of programs (repository corpus, compositions, damaged programs, under seven option sets and random feature sets, with the same or different paths) as concurrent tasks under a seeded scheduler with yield points at every function entry and loop head, with option objects and external-name slices shared or not, and parser objects used once or set up anew for source after source. Every result (ESTree JSON, complete AST dump, scopes, comments, error or panic text) is compared with the result of the same parse alone before and after; the options are compared with their state before. Each process also digests the whole corpus in an order of its own, and the digests of all processes are compared. Non-trivial: at least two tasks parsed and the scheduler switched between them."}
	scenarios["C15"] = &Scenario{run: runC15, setup: classify, real: realRead, stub: stubParse,
		rule: "A run parses one program (corpus or composition) and lets 2-6 reader tasks (ESTree conversion with and without positions, walks, control-flow graphs, constant evaluation, name and dependency collection, branch selection, texts/positions/comments/bindings, every accessor of every node, scope and graph block, import bindings and ancestors) read that one AST at the same time under a seeded scheduler. Every result is compared with that of the same reader alone on a fresh parse; the AST, scopes and comments are dumped before and after. Non-trivial: at least two readers ran and the scheduler switched between them."}
	scenarios["C16"] = &Scenario{run: runC16, setup: classify, digest: digestAll, real: realRead, stub: stubParse,
		rule: "A run takes one program (corpus, composition or damaged) through parsing, conversion and every reader several times, each time with its own permutation of every hash-map iteration, its own date, clock and time zone, environment variables, host, process and processor numbers, and compares all outputs; each process also digests part of the corpus with its own permutation of the map iterations done during package initialisation, and the digests of all processes are compared. Non-trivial: the program parsed and at least one map with several keys was iterated."}
}

// sharing of options among parsers
type c14job struct {
	pg   prog
	name string
	opts *parser.ParserOpts
	res  *parsed
	want string
	got  string
}

var extNames = []string{"a", "foo", "$", "fn0"}

func mkOpts(kind string, ext int) *parser.ParserOpts {
	o := optsOf(kind)
	if ext > 0 {
		o.Externals = append(make([]string, 0, 16), extNames[:ext]...)
	}
	return o
}

func optText(o *parser.ParserOpts) string {
	// the spare capacity as well: writing there is visible to others sharing the slice
	return fmt.Sprintf("%v %v %v %q", o.Version, o.Feature, len(o.Externals), o.Externals[:cap(o.Externals)])
}

func runC14(r *sim.Run, v *V) {
	n := 2 + r.Choose(sim.SW, 4)
	shared := r.Choose(sim.SW, 2) == 0
	ext := r.Choose(sim.SW, len(extNames))
	byKind := map[string]*parser.ParserOpts{}
	var lists [][]*c14job
	var all []*c14job
	name := []string{"", "a.js", "/w/b.ts"}[r.Choose(sim.SW, 3)] // sources may have the same path
	same := r.Choose(sim.SW, 4)                                  // 0: everyone parses the same, 1: nearly the same
	var first prog
	for i := 0; i < n; i++ {
		var l []*c14job
		for k := 1 + r.Choose(sim.SW, 3); k > 0; k-- {
			pg := pickAny(r)
			if len(all) == 0 {
				first = pg
			} else if same == 0 {
				pg = first
			} else if same == 1 && len(first.src) < 400 {
				pg = alike(r, first)
			}
			j := &c14job{pg: pg, name: name}
			if shared {
				if byKind[pg.kind] == nil {
					byKind[pg.kind] = mkOpts(pg.kind, ext)
				}
				j.opts = byKind[pg.kind]
			} else {
				j.opts = mkOpts(pg.kind, ext)
			}
			l = append(l, j)
			all = append(all, j)
		}
		lists = append(lists, l)
	}
	var before []string
	for _, j := range all {
		before = append(before, optText(j.opts))
		if sim.RaceOn {
			continue // results are compared by the other build; here only the accesses count
		}
		var a *parsed
		w := alone(refLimit, func() { a = parseNamed(j.name, j.pg.src, mkOpts(j.pg.kind, ext), true) })
		if w.Outcome != sim.Completed {
			v.outcome = "parser-hang"
			return
		}
		j.want = a.text()
	}
	reuse := make([]bool, n) // one parser object for all sources of the task
	for i := range reuse {
		reuse[i] = r.Choose(sim.SW, 4) == 3
	}
	w := sim.Start(sim.Config{Limit: 30_000_000}, func() {
		for i := range lists {
			l := lists[i]
			var p *parser.Parser
			if reuse[i] {
				p = &parser.Parser{}
			}
			sim.Go("parser", func() {
				for _, j := range l {
					j.res = parseWith(p, j.name, j.pg.src, j.opts, true)
					if p != nil && !sim.RaceOn {
						j.got = j.res.text()
					}
				}
			})
		}
	})
	v.outcome = w.Outcome.String()
	v.nt = r.Switches > uint64(n)
	v.sample = fmt.Sprintf("%d tasks, %d parses, options shared %v, first source %.200q", n, len(all), shared, all[0].pg.src)
	if w.Outcome == sim.StepLimit && sim.RaceOn {
		v.outcome = "parser-hang"
		return
	}
	if w.Outcome != sim.Completed {
		v.Fail("stuck", "concurrent parses ended in %v although each of them completes alone: %s %s", w.Outcome, w.PanicVal, v.sample)
		return
	}
	for i, j := range all {
		if t := optText(j.opts); t != before[i] {
			v.Fail("options-modified", "parsing %.300q changed the options from %s to %s", j.pg.src, before[i], t)
			return
		}
		if sim.RaceOn {
			continue
		}
		got := j.got
		if got == "" {
			got = j.res.text()
		}
		r.NoteString(strconv.Itoa(len(got)))
		if got != j.want {
			v.Fail("parse-differs", "parsing %.300q (%s, options shared %v) while others parse gives another result than alone: %s", j.pg.src, j.pg.kind, shared, diffAt(j.want, got))
			return
		}
	}
	if sim.RaceOn {
		return
	}
	// and once more alone
	j := all[r.Choose(sim.SW, len(all))]
	var a *parsed
	alone(refLimit, func() { a = parseNamed(j.name, j.pg.src, j.opts, true) })
	if a == nil || a.text() != j.want {
		got := "nothing"
		if a != nil {
			got = a.text()
		}
		v.Fail("history-dependent", "parsing %.300q (%s) again afterwards gives another result: %s", j.pg.src, j.pg.kind, diffAt(j.want, got))
	}
}

// order gives each process an order of its own over the corpus.
func order(worker, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if worker == 0 {
		return p
	}
	s := uint64(worker)
	for i := n - 1; i > 0; i-- {
		s = mix(s, uint64(i))
		k := int(s % uint64(i+1))
		p[i], p[k] = p[k], p[i]
	}
	return p
}

func dig(s string) string { return fmt.Sprintf("%016x/%d", hashStr(s), len(s)) }

func digestParse(v *V) {
	for _, k := range order(v.worker, len(anyProgs)) {
		c := corpus[anyProgs[k]]
		var a *parsed
		alone(refLimit, func() { a = parseOne(c.src, optsOf(c.kind), true) })
		if a != nil {
			v.digests["parse:"+strconv.Itoa(anyProgs[k])] = dig(a.text())
		}
	}
}

func runC15(r *sim.Run, v *V) {
	pg := pickValid(r, 2500)
	opts := mkOpts(pg.kind, 0)
	var pr, pr2 *parsed
	if w := alone(refLimit, func() { pr = parseOne(pg.src, opts, false); pr2 = parseOne(pg.src, opts, false) }); w.Outcome != sim.Completed || !pr.ok() || !pr2.ok() {
		v.outcome = "not-parsable"
		return
	}
	n := 2 + r.Choose(sim.SW, 5)
	which, args := make([]int, n), make([]int, n)
	fins := make([]func() string, n)
	want := make([]string, n)
	one := r.Choose(sim.SW, 4) == 0 // all readers of one kind
	for i := range which {
		which[i] = r.Choose(sim.SW, len(readers))
		if one {
			which[i] = which[0]
		}
		args[i] = r.Choose(sim.SW, 6)
		if sim.RaceOn {
			continue
		}
		var fin func() string
		// on a fresh parse, so that nothing an earlier reader left in the tree can hide a difference
		w := alone(refLimit*2, func() {
			q := parseOne(pg.src, opts, false)
			fin = readOne(which[i], q, args[i])
		})
		if w.Outcome != sim.Completed {
			v.outcome = "reader-hang"
			return
		}
		want[i] = fin()
	}
	before := ""
	if !sim.RaceOn {
		before = dumpParse(pr.p, pr.ast)
	}
	shareVars(r)
	w := sim.Start(sim.Config{Limit: 60_000_000}, func() {
		for i := range which {
			i := i
			sim.Go(readers[which[i]].name, func() { fins[i] = readOne(which[i], pr, args[i]) })
		}
	})
	vc := varsChanged()
	v.outcome = w.Outcome.String()
	v.nt = r.Switches > uint64(n)
	names := ""
	for _, k := range which {
		names += readers[k].name + "; "
	}
	v.sample = fmt.Sprintf("readers: %s of %.300q (%s)", names, pg.src, pg.kind)
	if w.Outcome == sim.StepLimit && sim.RaceOn {
		v.outcome = "reader-hang"
		return
	}
	if w.Outcome != sim.Completed {
		v.Fail("stuck", "concurrent readers ended in %v although each of them completes alone: %s %s", w.Outcome, w.PanicVal, v.sample)
		return
	}
	if vc != "" {
		v.Fail("variables-modified", "evaluating changed the variables it was given: %s; %s", vc, v.sample)
		return
	}
	if sim.RaceOn {
		return // results are compared by the other build; here only the accesses count
	}
	for i := range which {
		got := fins[i]()
		r.NoteString(strconv.Itoa(len(got)))
		if got != want[i] {
			v.Fail("reader-differs", "%s gives another result next to other readers than alone: %s; %s", readers[which[i]].name, diffAt(want[i], got), v.sample)
			return
		}
	}
	if after := dumpParse(pr.p, pr.ast); after != before {
		// something is stored differently; it counts if anybody can tell
		if a, b := dumpAs(pr.p, pr.ast, true), dumpAs(pr2.p, pr2.ast, true); a != b {
			v.Fail("ast-modified", "reading changed the AST: %s; %s", diffAt(b, a), v.sample)
			return
		}
		for i := range readers {
			var f1, f2 func() string
			w1 := alone(refLimit*2, func() { f1 = readOne(i, pr, 0) })
			w2 := alone(refLimit*2, func() { f2 = readOne(i, pr2, 0) })
			if w1.Outcome != sim.Completed || w2.Outcome != sim.Completed {
				continue
			}
			if a, b := f1(), f2(); a != b {
				v.Fail("ast-modified", "reading changed the AST (%s), which %s tells: %s; %s", diffAt(before, after), readers[i].name, diffAt(b, a), v.sample)
				return
			}
		}
	}
	// the readers one after the other on the same AST, too
	for i := range which {
		var fin func() string
		alone(refLimit*2, func() { fin = readOne(which[i], pr2, args[i]) })
		if got := fin(); got != want[i] {
			v.Fail("reader-history", "%s gives another result after other readers than on a fresh AST: %s; %s", readers[which[i]].name, diffAt(want[i], got), v.sample)
			return
		}
	}
}

// everything gives all results for a program, one text each.
func everything(pg prog, lim uint64) (res []string, ok, valid bool) {
	var pr *parsed
	w := alone(lim, func() { pr = parseOne(pg.src, optsOf(pg.kind), true) })
	if w.Outcome != sim.Completed {
		return nil, false, false
	}
	res = append(res, pr.text())
	if !pr.ok() {
		return res, true, false
	}
	for i := range readers {
		var fin func() string
		w := alone(lim, func() { fin = readOne(i, pr, 0) })
		if w.Outcome != sim.Completed {
			res = append(res, "hang")
			continue
		}
		res = append(res, fin())
	}
	return res, true, true
}

func resName(i int) string {
	if i == 0 {
		return "parse result"
	}
	return readers[i-1].name
}

// elsewhere changes the environment and the date.
func elsewhere(r *sim.Run) {
	r.Salt = uint64(1 + r.Choose(sim.SW, 1<<20))
	r.ClockBase = 1_000_000_000_000_000_000 + int64(r.Choose(sim.SW, 1<<20))*1_000_000_000_000
}

func runC16(r *sim.Run, v *V) {
	pg := pickAny(r)
	if r.Choose(sim.SW, 3) > 0 {
		pg = pickValid(r, 3000)
	}
	mode, cb := r.MapMode, r.ClockBase
	m0 := r.MapRanges
	r.MapMode = 0
	base, ok, valid := everything(pg, refLimit)
	if !ok {
		v.outcome = "parser-hang"
		return
	}
	v.sample = fmt.Sprintf("%.300q (%s)", pg.src, pg.kind)
	for k := 0; k < 3; k++ {
		r.MapMode = 1
		elsewhere(r)                             // another machine on another day
		got, ok, _ := everything(pg, refLimit*8) // how many steps it takes may depend on the order
		if !ok || len(got) != len(base) {
			v.Fail("result-differs", "the parse ends differently the next time: %s", v.sample)
			return
		}
		for i := range got {
			if got[i] != base[i] && base[i] != "hang" {
				v.Fail("result-differs", "%s is different the next time: %s; program %s", resName(i), diffAt(base[i], got[i]), v.sample)
				return
			}
		}
	}
	r.MapMode, r.Salt, r.ClockBase = mode, 0, cb
	for _, s := range base {
		r.NoteString(strconv.Itoa(len(s)))
	}
	v.nt = valid && r.MapRanges > m0
	v.outcome = "invalid"
	if valid {
		v.outcome = "valid"
	}
}

func digestAll(v *V) {
	for x, k := range order(v.worker, len(anyProgs)) {
		if x >= len(anyProgs)/2 && v.tier != "thorough" && v.worker > 0 {
			break
		}
		c := corpus[anyProgs[k]]
		if res, ok, _ := everything(c, refLimit); ok {
			for i, s := range res {
				if s == "hang" {
					continue
				}
				v.digests[resName(i)+":"+strconv.Itoa(anyProgs[k])] = dig(s)
			}
		}
	}
}
