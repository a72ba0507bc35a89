package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	scenarios["C17"] = &Scenario{run: runC17, setup: classify, digest: digestWalk, real: realRead, stub: stubParse,
		rule: "A run creates, configures and runs 2-8 walk contexts, evaluators, analyses and containment queries over one to three programs from 1-5 concurrent tasks, contexts overlapping in time in any way, each with its own drawn set of listeners (with equal ids across contexts), removed listeners, replaced visitors, path recording and repeated use. Each context's events must equal those of the same job alone, carry its own context, and stop when its walk is over. Non-trivial: at least two jobs were under way at once."}
	scenarios["C18"] = &Scenario{run: runC18, setup: classify, real: realRead, stub: stubParse,
		rule: "A run walks one program with one to three listeners per event undisturbed, then again several times with a cancellation (Stop) injected at a drawn event from a drawn listener: the events up to there must be those of the undisturbed walk, followed by exactly one leave event for each node still open, innermost first. Non-trivial: the walk was stopped while nodes were open and events outstanding."}
}

// ---- C17

type walkJob struct {
	kind    int
	pi      int // program
	cfg     []int
	log     evLog
	bad     string
	over    bool
	started bool
	twice   bool
	second  int // where the second walk's events begin
	kept    sim.List[keptCtx]
}

// keptCtx is what a listener was told, kept for later.
type keptCtx struct {
	ctx, up     *walk.VisitorCtx
	node, above parser.Node
}

func drawJob(r *sim.Run, progs int) *walkJob {
	j := &walkJob{kind: r.Choose(sim.SW, 9), pi: r.Choose(sim.SW, progs), twice: r.Choose(sim.SW, 4) == 0}
	for n := 1 + r.Choose(sim.SW, 5); n > 0; n-- {
		j.cfg = append(j.cfg, r.Choose(sim.SW, 9), r.Choose(sim.SW, 1000))
	}
	return j
}

func (j *walkJob) clone() *walkJob {
	return &walkJob{kind: j.kind, pi: j.pi, cfg: j.cfg, twice: j.twice}
}

var someTypes = []parser.NodeType{parser.N_NAME, parser.N_EXPR_CALL, parser.N_STMT_EXPR, parser.N_LIT_NUM, parser.N_STMT_BLOCK, parser.N_STMT_VAR_DEC, parser.N_EXPR_BIN, parser.N_STMT_FN, parser.N_PROG, parser.N_STMT_IF, parser.N_EXPR_MEMBER, parser.N_LIT_STR, parser.N_TS_REF, parser.N_JSX_ELEM}

func (j *walkJob) put(s string) { j.log.Write([]byte(s)) }

// handler gives a listener of this job; wc is its context.
func (j *walkJob) handler(tag byte, wc **walk.WalkCtx) walk.ListenFn {
	return func(n parser.Node, key string, ctx *walk.VisitorCtx) {
		if j.over && j.bad == "" {
			j.bad = fmt.Sprintf("a listener was called for %s (%q) after its walk was over", nodeID(n), key)
		}
		if ctx.WalkCtx != *wc && j.bad == "" {
			j.bad = fmt.Sprintf("a listener was called for %s (%q) by the walk of another context", nodeID(n), key)
		}
		j.log.ev(tag, n, key, ctx)
		if j.kept.Len() < 40 {
			j.kept.Add(keptCtx{ctx, ctx.Parent, ctx.Node, ctx.ParentNode()})
		}
	}
}

// keptOK: what the listeners were told is still so.
func (j *walkJob) keptOK() string {
	for _, k := range j.kept.All() {
		if k.ctx.Node != k.node || k.ctx.Parent != k.up || k.ctx.ParentNode() != k.above {
			return fmt.Sprintf("the context of %s (in %s), as given to a listener, is now that of %s (in %s)", nodeID(k.node), nodeID(k.above), nodeID(k.ctx.Node), nodeID(k.ctx.ParentNode()))
		}
	}
	return ""
}

func (j *walkJob) run(prs []*parsed) {
	pr := prs[j.pi]
	m := guard(func() { j.run1(pr) })
	j.put(m)
	j.over = true
}

func (j *walkJob) run1(pr *parsed) {
	switch j.kind {
	case 5: // evaluator
		k := 0
		for _, n := range nodesOf(pr.ast) {
			switch n.(type) {
			case *parser.BinExpr, *parser.MemberExpr, *parser.CallExpr, *parser.ArrLit, *parser.UnaryExpr:
				if k++; k > 6 {
					return
				}
				j.put(nodeID(n))
				j.put(guard(func() {
					ee := exec.NewExprEvaluator(n, pr.p)
					sim.Y(0)
					res, err := ee.Exec(evalVars()).GetResult()
					j.put(fmt.Sprintf("%T %v %v", res, okVal(res), err))
					if j.twice {
						res, err := ee.Exec(evalVars()).GetResult()
						j.put(fmt.Sprintf("again %T %v %v", res, okVal(res), err))
					}
					if j.cfg[0]&1 == 0 {
						ee.Release()
					}
				}))
				j.put("\n")
			}
		}
		return
	case 6:
		a := analysis.NewAnalysis(pr.ast, pr.p.Symtab(), pr.p.Source())
		sim.Y(0)
		a.Analyze()
		j.put(a.Graph().Dot())
		return
	case 7:
		ns := nodesOf(pr.ast)
		for i := j.cfg[1] % 3; i < len(ns); i += 5 {
			j.put(guard(func() {
				j.put(fmt.Sprint(astutil.IsNodeContains(pr.ast, ns[i]), astutil.IsNodeContains(ns[i], ns[0]), " "))
			}))
		}
		return
	}
	var wc *walk.WalkCtx
	wc = walk.NewWalkCtx(pr.ast, pr.p.Symtab())
	j.put(fmt.Sprint("listeners ", countListeners(&wc.Listeners), "\n"))
	for i := 0; i < len(j.cfg); i += 2 {
		arg := j.cfg[i+1]
		t := someTypes[arg%len(someTypes)]
		id := "l" + strconv.Itoa(arg%4)
		tag := byte('a' + i/2)
		l := &walk.Listener{Id: id, Handle: j.handler(tag, &wc)}
		switch j.cfg[i] {
		case 0:
			walk.AddBeforeListener(&wc.Listeners, l)
		case 1:
			walk.AddAfterListener(&wc.Listeners, l)
		case 2:
			walk.AddAtomListener(&wc.Listeners, l)
		case 3:
			walk.AddNodeBeforeListener(&wc.Listeners, t, l)
		case 4:
			walk.AddNodeAfterListener(&wc.Listeners, t, l)
		case 5:
			err := walk.AddListener(&wc.Listeners, walk.NodeBeforeEvent(t), l)
			j.put(fmt.Sprint("add ", err, "\n"))
		case 6:
			walk.RemoveListener(&wc.Listeners, walk.NodeBeforeEvent(t), l)
			walk.RemoveListener(&wc.Listeners, walk.NodeAfterEvent(t), l)
		case 7:
			h := j.handler(tag, &wc)
			old := wc.Visitors[t]
			walk.SetVisitor(&wc.Visitors, t, func(n parser.Node, key string, ctx *walk.VisitorCtx) {
				h(n, key, ctx)
				if arg%2 == 0 && old != nil {
					old(n, key, ctx)
				}
			})
		case 8:
			wc.Path = !wc.Path
		}
		sim.Y(0)
	}
	visit := func() { walk.VisitNode(pr.ast, "", wc.VisitorCtx()) }
	if pg, ok := pr.ast.(*parser.Prog); ok && j.kind == 8 { // the statements, with a call after each
		visit = func() {
			walk.VisitNodesWithCb(pg, pg.Body(), "Body", wc.VisitorCtx(), func(ctx *walk.VisitorCtx) {
				j.put("cb " + nodeID(ctx.Node) + "\n")
			})
		}
	}
	visit()
	if j.twice {
		j.second = j.log.Len()
		visit()
	}
}

func okVal(v interface{}) interface{} {
	if b, ok := v.(*exec.BuiltinFn); ok && b != nil {
		return "builtin"
	}
	return v
}

func countListeners(ls *walk.Listeners) int {
	n := 0
	for _, l := range ls {
		if l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				n++
			}
		}
	}
	return n
}

// twiceOK: a second walk with the same context gives the node events of the first (scope ids are numbered on).
func (j *walkJob) twiceOK() string {
	if !j.twice || j.kind > 4 && j.kind != 8 || j.second == 0 {
		return ""
	}
	s := j.log.String()
	strip := func(s string) string {
		var b strings.Builder
		for _, l := range strings.Split(s, "\n") {
			if f := strings.Fields(l); len(f) > 2 && len(f[0]) == 1 {
				b.WriteString(f[0] + " " + f[1] + "\n")
			}
		}
		return b.String()
	}
	a, b := strip(s[:j.second]), strip(s[j.second:])
	if a != b {
		return diffAt(a, b)
	}
	return ""
}

func runC17(r *sim.Run, v *V) {
	np := 1 + r.Choose(sim.SW, 3)
	var prs []*parsed
	var srcs []string
	for i := 0; i < np; i++ {
		pg := pickValid(r, 1200)
		var pr *parsed
		if w := alone(refLimit, func() { pr = parseOne(pg.src, optsOf(pg.kind), false) }); w.Outcome != sim.Completed || !pr.ok() {
			v.outcome = "not-parsable"
			return
		}
		prs = append(prs, pr)
		srcs = append(srcs, pg.src)
	}
	nt := 1 + r.Choose(sim.SW, 5)
	var lists [][]*walkJob
	var all, refs []*walkJob
	for i := 0; i < nt; i++ {
		var l []*walkJob
		for k := 1 + r.Choose(sim.SW, 2); k > 0; k-- {
			j := drawJob(r, np)
			l = append(l, j)
			all = append(all, j)
		}
		lists = append(lists, l)
	}
	if !sim.RaceOn {
		for _, j := range all {
			ref := j.clone()
			if w := alone(refLimit, func() { ref.run(prs) }); w.Outcome != sim.Completed {
				v.outcome = "hang"
				return
			}
			refs = append(refs, ref)
		}
	}
	shareVars(r)
	w := sim.Start(sim.Config{Limit: 60_000_000}, func() {
		for i := range lists {
			l := lists[i]
			sim.Go("walker", func() {
				for _, j := range l {
					j.run(prs)
				}
			})
		}
	})
	vc := varsChanged()
	v.outcome = w.Outcome.String()
	v.nt = nt > 1 && r.Switches > uint64(nt)
	v.sample = fmt.Sprintf("%d tasks, %d jobs (first: kind %d, settings %v, twice %v) over %.300q", nt, len(all), all[0].kind, all[0].cfg, all[0].twice, srcs)
	if w.Outcome == sim.StepLimit && sim.RaceOn {
		return
	}
	if w.Outcome != sim.Completed {
		v.Fail("stuck", "the walks ended in %v: %s %s", w.Outcome, w.PanicVal, v.sample)
		return
	}
	if vc != "" {
		v.Fail("variables-modified", "evaluating changed the variables it was given: %s; %s", vc, v.sample)
		return
	}
	for _, j := range append(append([]*walkJob{}, refs...), all...) {
		if j.bad != "" {
			v.Fail("foreign-event", "%s; %s", j.bad, v.sample)
			return
		}
		if d := j.keptOK(); d != "" {
			v.Fail("context-reused", "%s; %s", d, v.sample)
			return
		}
		if d := j.twiceOK(); d != "" {
			v.Fail("second-walk", "a second walk with the same context gives other events: %s; %s", d, v.sample)
			return
		}
	}
	for i, ref := range refs {
		a, b := ref.log.String(), all[i].log.String()
		r.NoteString(strconv.Itoa(len(b)))
		if a != b {
			v.Fail("events-differ", "job of kind %d with settings %v gives other events than alone: %s; %s", all[i].kind, all[i].cfg, diffAt(a, b), v.sample)
			return
		}
	}
	// the logs must not have grown after the fact: run one more job alone
	var lens []int
	for _, j := range all {
		lens = append(lens, j.log.Len())
	}
	extra := drawJob(r, np)
	alone(refLimit, func() { extra.run(prs) })
	for i, j := range all {
		if j.bad != "" || j.log.Len() != lens[i] {
			v.Fail("foreign-event", "a listener of an earlier context was called by a later walk: %s; %s", j.bad, v.sample)
			return
		}
	}
}

func digestWalk(v *V) {
	for _, k := range order(v.worker, len(validProgs)) {
		if k%4 != 0 {
			continue
		}
		c := corpus[validProgs[k]]
		j := &walkJob{kind: 0, cfg: []int{0, 0, 1, 1, 2, 2, 8, 0}}
		alone(refLimit, func() {
			if pr := parseOne(c.src, optsOf(c.kind), false); pr.ok() {
				j.run([]*parsed{pr})
			}
		})
		v.digests["walk:"+strconv.Itoa(validProgs[k])] = dig(j.log.String())
	}
}

// ---- C18

type stopEv struct {
	enter bool
	lis   int
	n     parser.Node
	key   string
}

func (e stopEv) String() string {
	d := "leave"
	if e.enter {
		d = "enter"
	}
	return fmt.Sprintf("%s %s %q (listener %d)", d, nodeID(e.n), e.key, e.lis)
}

func stopWalk(pr *parsed, root parser.Node, nl int, mode int, k int) (evs []stopEv, stopped bool) {
	wc := walk.NewWalkCtx(root, pr.p.Symtab())
	var l sim.List[stopEv]
	add := func(enter bool, i int) *walk.Listener {
		return &walk.Listener{Id: "l" + strconv.Itoa(i), Handle: func(n parser.Node, key string, ctx *walk.VisitorCtx) {
			l.Add(stopEv{enter, i, n, key})
			if l.Len()-1 == k {
				ctx.WalkCtx.Stop()
			}
		}}
	}
	for i := 0; i < nl; i++ {
		walk.AddBeforeListener(&wc.Listeners, add(true, i))
		if mode != 1 || i == 0 {
			walk.AddAfterListener(&wc.Listeners, add(false, i))
		}
	}
	walk.VisitNode(root, "", wc.VisitorCtx())
	return l.All(), wc.Stopped()
}

func runC18(r *sim.Run, v *V) {
	pg := pickValid(r, 2500)
	nl := 1 + r.Small(sim.SW, 3)
	mode := r.Choose(sim.SW, 2)
	var pr *parsed
	var base []stopEv
	var root parser.Node
	msg := ""
	if w := alone(refLimit, func() {
		pr = parseOne(pg.src, optsOf(pg.kind), false)
		if !pr.ok() {
			return
		}
		root = pr.ast
		msg = guard(func() { base, _ = stopWalk(pr, root, nl, mode, -1) })
	}); w.Outcome != sim.Completed || !pr.ok() || msg != "" || len(base) == 0 {
		v.outcome = "not-walkable"
		return
	}
	v.outcome = "stopped"
	v.sample = fmt.Sprintf("%d events, %d listeners, %.300q (%s)", len(base), nl, pg.src, pg.kind)
	for tries := 0; tries < 12; tries++ {
		k := r.Choose(sim.SF, len(base))
		r.Fired(sim.FCancel)
		var got []stopEv
		stopped := false
		m := ""
		w := alone(refLimit, func() { m = guard(func() { got, stopped = stopWalk(pr, root, nl, mode, k) }) })
		if w.Outcome != sim.Completed || m != "" {
			v.Fail("stop-breaks", "stopping at event %d of %d (%v) ends in %v %s; %s", k, len(base), base[k], w.Outcome, m, v.sample)
			return
		}
		// open nodes at the stop
		var open []parser.Node
		for i := 0; i <= k; i++ {
			e := base[i]
			if e.lis != 0 {
				continue
			}
			if e.enter {
				open = append(open, e.n)
			} else if len(open) > 0 && open[len(open)-1] == e.n {
				open = open[:len(open)-1]
			}
		}
		if len(got) <= k {
			v.Fail("prefix-lost", "stopping at event %d delivers only %d events; %s", k, len(got), v.sample)
			return
		}
		for i := 0; i <= k; i++ {
			if got[i] != base[i] {
				v.Fail("prefix-differs", "stopping at event %d: event %d is %v instead of %v; %s", k, i, got[i], base[i], v.sample)
				return
			}
		}
		if !stopped {
			v.Fail("not-stopped", "the context does not say it is stopped; %s", v.sample)
			return
		}
		rest := got[k+1:]
		if len(open) > 1 && len(base)-k-1 > len(rest) {
			v.nt = true
		}
		for _, e := range rest {
			at := fmt.Sprintf("stopped at event %d of %d (%v)", k, len(base), base[k])
			if e.enter {
				v.Fail("entered-after-stop", "%s, but then %v; %s", at, e, v.sample)
				return
			}
			if len(open) == 0 {
				v.Fail("left-after-stop", "%s, no node is open, but then %v; %s", at, e, v.sample)
				return
			}
			if open[len(open)-1] != e.n {
				v.Fail("left-after-stop", "%s, the innermost open node is %s, but then %v; %s", at, nodeID(open[len(open)-1]), e, v.sample)
				return
			}
			open = open[:len(open)-1]
		}
		if len(open) > 0 {
			v.Fail("not-left", "stopped at event %d of %d (%v), %d open nodes never got their leave event, the innermost being %s; %s", k, len(base), base[k], len(open), nodeID(open[len(open)-1]), v.sample)
			return
		}
		r.Note(uint64(k)<<20 | uint64(len(rest)))
	}
}
