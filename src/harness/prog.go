package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
	"github.com/hsiaosiyuan0/mole/span"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

// Programs, parses and readers shared by the scenarios about parsing and analysing.

// optsOf gives the options of a kind; "kind~123" has some of the features turned over.
func optsOf(kind string) *parser.ParserOpts {
	o := parser.NewParserOpts()
	if i := strings.IndexByte(kind, '~'); i >= 0 {
		n, _ := strconv.Atoi(kind[i+1:])
		for kind = kind[:i]; n > 0; n /= 50 {
			o.Feature ^= 1 << (n % 50)
		}
	}
	switch kind {
	case "ts":
		o.Feature = o.Feature.On(parser.FEAT_TS).Off(parser.FEAT_JSX)
	case "tsx":
		o.Feature = o.Feature.On(parser.FEAT_TS)
	case "dts":
		o.Feature = o.Feature.On(parser.FEAT_TS).Off(parser.FEAT_JSX).On(parser.FEAT_DTS)
	case "sloppy":
		o.Feature = o.Feature.Off(parser.FEAT_STRICT).Off(parser.FEAT_MODULE)
	case "es5":
		o.Version = parser.ES5
		o.Feature = 0
	case "noasync":
		o.Feature = o.Feature.Off(parser.FEAT_ASYNC_AWAIT)
	}
	return o
}

// parsed is the outcome of one parse.
type parsed struct {
	p     *parser.Parser
	ast   parser.Node
	est   *estree.Program
	err   string
	panic string
}

// guard turns a panic into a result.
func guard(f func()) (msg string) {
	done := false
	defer func() {
		if !done {
			if r := recover(); r != nil {
				msg = fmt.Sprint("panic: ", r)
			}
		}
	}()
	f()
	done = true
	return
}

func parseOne(src string, o *parser.ParserOpts, convert bool) *parsed {
	return parseNamed("", src, o, convert)
}

func parseNamed(name, src string, o *parser.ParserOpts, convert bool) *parsed {
	return parseWith(nil, name, src, o, convert)
}

// parseWith uses p, set up anew, when there is one.
func parseWith(p *parser.Parser, name, src string, o *parser.ParserOpts, convert bool) *parsed {
	r := &parsed{}
	r.panic = guard(func() {
		if r.p = p; p == nil {
			r.p = parser.NewParser(span.NewSource(name, src), o)
		} else {
			p.Setup(span.NewSource(name, src), o)
		}
		ast, err := r.p.Prog()
		if err != nil {
			r.err = err.Error()
			if _, ok := err.(json.Marshaler); ok {
				r.err += " " + marshal(err)
			}
			return
		}
		r.ast = ast
		if convert {
			r.est = estree.ConvertProg(ast.(*parser.Prog), estree.NewConvertCtx(r.p))
		}
	})
	return r
}

func (r *parsed) ok() bool { return r.ast != nil && r.panic == "" }

// text is everything the parse gave, for comparison.
func (r *parsed) text() string {
	if r.panic != "" {
		return r.panic
	}
	if r.ast == nil {
		return "error: " + r.err
	}
	var b strings.Builder
	if r.est != nil {
		b.WriteString(marshal(r.est))
		b.WriteByte('\n')
	}
	b.WriteString(dumpParse(r.p, r.ast))
	return b.String()
}

func marshal(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return "marshal error: " + err.Error()
	}
	return string(b)
}

// ---- dump: a value with everything reachable, independent of addresses and map order

type dumper struct {
	exported bool
	b        []byte
	ids      map[dumpKey]int
	nodes    []parser.Node
}

type dumpKey struct {
	p uintptr
	t reflect.Type
}

var (
	nodeType   = reflect.TypeOf((*parser.Node)(nil)).Elem()
	parserType = reflect.TypeOf(&parser.Parser{})
	lexerType  = reflect.TypeOf(&parser.Lexer{})
	sourceType = reflect.TypeOf(&span.Source{})
)

func dumpParse(p *parser.Parser, ast parser.Node) string { return dumpAs(p, ast, false) }

// dumpAs dumps everything or, if asked so, of the symbol table only what its users can see.
func dumpAs(p *parser.Parser, ast parser.Node, exported bool) string {
	d := &dumper{ids: map[dumpKey]int{}}
	d.val(reflect.ValueOf(&ast).Elem())
	n := len(d.nodes)
	if exported {
		d.b, d.exported = nil, true
	}
	d.s("\nsymtab ")
	d.val(reflect.ValueOf(p.Symtab()))
	d.s("\ncomments ")
	for i := 0; i < n; i++ {
		if c := p.PrevCmts(d.nodes[i]); len(c) > 0 {
			d.s(fmt.Sprint(" prev ", i, " ", c))
		}
		if c := p.PostCmts(d.nodes[i]); len(c) > 0 {
			d.s(fmt.Sprint(" post ", i, " ", c))
		}
	}
	return string(d.b)
}

// nodesOf lists the nodes of a tree in a fixed order.
func nodesOf(ast parser.Node) []parser.Node {
	d := &dumper{ids: map[dumpKey]int{}}
	d.val(reflect.ValueOf(&ast).Elem())
	return d.nodes
}

func (d *dumper) s(s string) { d.b = append(d.b, s...) }

func (d *dumper) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.s("nil")
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	case reflect.String:
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Interface:
		if v.IsNil() {
			d.s("nil")
			return
		}
		d.val(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.s("nil")
			return
		}
		t := v.Type()
		if t == parserType || t == lexerType || t == sourceType {
			d.s("<" + t.Elem().Name() + ">")
			return
		}
		k := dumpKey{v.Pointer(), t}
		if id, ok := d.ids[k]; ok {
			d.b = append(d.b, '#')
			d.b = strconv.AppendInt(d.b, int64(id), 10)
			return
		}
		d.ids[k] = len(d.ids) + 1
		if t.Implements(nodeType) {
			if n, ok := reflect.NewAt(t.Elem(), v.UnsafePointer()).Interface().(parser.Node); ok {
				d.nodes = append(d.nodes, n)
			}
		}
		d.b = append(d.b, '&')
		d.val(v.Elem())
	case reflect.Struct:
		t := v.Type()
		d.s(t.Name())
		d.b = append(d.b, '{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				d.b = append(d.b, ' ')
			}
			if d.exported && !t.Field(i).IsExported() {
				continue
			}
			d.s(t.Field(i).Name)
			d.b = append(d.b, ':')
			d.val(v.Field(i))
		}
		d.b = append(d.b, '}')
	case reflect.Slice, reflect.Array:
		d.b = append(d.b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b = append(d.b, ' ')
			}
			d.val(v.Index(i))
		}
		d.b = append(d.b, ']')
	case reflect.Map:
		type kv struct {
			k  string
			id int
			v  reflect.Value
			rk reflect.Value
		}
		var kvs []kv
		for _, k := range v.MapKeys() {
			e := kv{v: v.MapIndex(k), rk: k}
			x := k
			for x.Kind() == reflect.Interface {
				x = x.Elem()
			}
			switch x.Kind() {
			case reflect.Ptr:
				if e.id = d.ids[dumpKey{x.Pointer(), x.Type()}]; e.id == 0 {
					e.id = 1 << 40
					e.k = d.shallow(x)
				}
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				e.id = int(x.Int())
			default:
				sub := &dumper{ids: map[dumpKey]int{}}
				sub.val(x)
				e.k = string(sub.b)
			}
			kvs = append(kvs, e)
		}
		sort.SliceStable(kvs, func(i, j int) bool {
			if kvs[i].id != kvs[j].id {
				return kvs[i].id < kvs[j].id
			}
			return kvs[i].k < kvs[j].k
		})
		d.s("map[")
		for _, e := range kvs {
			d.b = append(d.b, ' ')
			d.val(e.rk)
			d.b = append(d.b, ':')
			d.val(e.v)
		}
		d.b = append(d.b, ']')
	case reflect.Func:
		if v.IsNil() {
			d.s("nil")
		} else {
			d.s("func")
		}
	default:
		d.s(v.Kind().String())
	}
}

func (d *dumper) shallow(x reflect.Value) string {
	s := x.Type().String()
	if x.Type().Implements(nodeType) {
		if n, ok := reflect.NewAt(x.Type().Elem(), x.UnsafePointer()).Interface().(parser.Node); ok {
			s += nodeID(n)
		}
	}
	return s
}

// nodeID names a node by what it is, not by where it is stored.
func nodeID(n parser.Node) string {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return "nil"
	}
	r := n.Range()
	b := strconv.AppendInt(nil, int64(n.Type()), 10)
	b = append(b, '@')
	b = strconv.AppendUint(b, uint64(r.Lo), 10)
	b = append(b, '-')
	b = strconv.AppendUint(b, uint64(r.Hi), 10)
	return string(b)
}

// diffAt shows where two texts part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+120
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d (of %d and %d): %q vs %q", i, len(a), len(b), cut(a), cut(b))
}

// ---- program choice

var validProgs []int // parse without error under their own options
var anyProgs []int   // everything that does not hang

func classify() {
	if anyProgs != nil {
		return
	}
	for i := range corpus {
		if len(corpus[i].src) > 3000 {
			continue
		}
		var r *parsed
		w := alone(300_000, func() { r = parseOne(corpus[i].src, optsOf(corpus[i].kind), false) })
		if w.Outcome != sim.Completed || r == nil {
			continue
		}
		anyProgs = append(anyProgs, i)
		if r.ok() {
			validProgs = append(validProgs, i)
		}
	}
	if len(validProgs) == 0 {
		validProgs = []int{0}
	}
	if len(anyProgs) == 0 {
		anyProgs = []int{0}
	}
}

// pickValid gives a program that parses, often composed of several.
func pickValid(r *sim.Run, max int) prog {
	switch r.Choose(sim.SW, 12) {
	case 11:
		c := bigProg(r, max/2)
		var p *parsed
		if w := alone(refLimit, func() { p = parseOne(c.src, optsOf(c.kind), false) }); w.Outcome == sim.Completed && p.ok() {
			return c
		}
	case 7, 8, 9, 10:
		if c, ok := genValid(r, max); ok {
			return c
		}
	}
	c := corpus[validProgs[r.Choose(sim.SW, len(validProgs))]]
	n := r.Small(sim.SW, 5)
	if n == 0 {
		return c
	}
	src := compose(r, c, n, true)
	if len(src) > max {
		return c
	}
	var p *parsed
	if w := alone(refLimit, func() { p = parseOne(src, optsOf(c.kind), false) }); w.Outcome == sim.Completed && p.ok() {
		c.src = src
	}
	return c
}

// compose strings n further programs of a kind together with the given one, in blocks, functions or side by side.
func compose(r *sim.Run, c prog, n int, valid bool) string {
	parts := []string{c.src}
	for i := 0; i < n; i++ {
		for try := 0; try < 8; try++ {
			x := corpus[anyProgs[r.Choose(sim.SW, len(anyProgs))]]
			if valid {
				x = corpus[validProgs[r.Choose(sim.SW, len(validProgs))]]
			}
			if x.kind == c.kind {
				parts = append(parts, x.src)
				break
			}
		}
	}
	var b strings.Builder
	for i, s := range parts {
		switch r.Choose(sim.SW, 5) {
		case 0:
			b.WriteString(s)
		case 1:
			b.WriteString("{ " + s + "\n}")
		case 2:
			b.WriteString("function fn" + strconv.Itoa(i) + "() {\n" + s + "\n}")
		case 3:
			b.WriteString("if (a" + strconv.Itoa(i) + ") {\n" + s + "\n} else b()")
		case 4:
			b.WriteString("/* c */ const g" + strconv.Itoa(i) + " = () => {\n" + s + "\n} // d")
		}
		b.WriteString("\n")
	}
	return b.String()
}

// pickAny gives any program: valid, invalid, damaged or composed.
func pickAny(r *sim.Run) prog {
	switch r.Choose(sim.SW, 16) {
	case 12, 13, 14:
		return genProg(r)
	case 15:
		return bigProg(r, 800)
	}
	c := corpus[anyProgs[r.Choose(sim.SW, len(anyProgs))]]
	switch r.Choose(sim.SW, 10) {
	case 0, 1:
		return pickValid(r, 3000)
	case 2:
		c.src = compose(r, c, 1+r.Choose(sim.SW, 4), false)
	case 3: // cut off
		if len(c.src) > 0 {
			c.src = c.src[:r.Choose(sim.SW, len(c.src))]
		}
	case 4: // a byte removed or doubled
		if len(c.src) > 1 {
			i := r.Choose(sim.SW, len(c.src)-1)
			if r.Choose(sim.SW, 2) == 0 {
				c.src = c.src[:i] + c.src[i+1:]
			} else {
				c.src = c.src[:i] + c.src[i:i+1] + c.src[i:]
			}
		}
	case 5:
		c.kind = []string{"js", "ts", "tsx", "dts", "sloppy", "es5", "noasync"}[r.Choose(sim.SW, 7)]
	case 6:
		if !strings.Contains(c.kind, "~") {
			c.kind += "~" + strconv.Itoa(1+r.Choose(sim.SW, 125000))
		}
	}
	return c
}

// ---- readers of a finished AST

type reader struct {
	name string
	// run gives the result; fin (if any) renders it afterwards, outside of the simulated tasks
	run func(pr *parsed, arg int) func() string
}

func str(s string) func() string { return func() string { return s } }

// the variables of evaluations: fresh ones each time, or the same for all of a run
var runVars map[string]interface{}

func freshVars() map[string]interface{} {
	return map[string]interface{}{"a": 1.0, "b": "x", "c": []interface{}{1.0, "x", nil}, "d": true,
		"g":       map[string]interface{}{"h": map[string]interface{}{"i": 2.0}, "k": []interface{}{"x", "y"}},
		"process": map[string]interface{}{"env": map[string]interface{}{"NODE_ENV": "production"}}}
}

func evalVars() map[string]interface{} {
	if runVars != nil {
		return runVars
	}
	return freshVars()
}

// shareVars has all evaluations of a run use one set of variables, now and then.
func shareVars(r *sim.Run) {
	runVars = nil
	if r.Choose(sim.SW, 3) > 0 {
		runVars = freshVars()
	}
}

// varsChanged ends that and tells whether an evaluation changed them.
func varsChanged() string {
	x := runVars
	runVars = nil
	if x != nil && !reflect.DeepEqual(x, freshVars()) {
		return fmt.Sprintf("%v became %v", freshVars(), x)
	}
	return ""
}

type evLog struct{ sim.Buf }

func (l *evLog) ev(tag byte, n parser.Node, key string, ctx *walk.VisitorCtx) {
	b := []byte{tag, ' '}
	b = append(b, nodeID(n)...)
	b = append(b, ' ')
	b = append(b, key...)
	b = append(b, ' ')
	b = strconv.AppendInt(b, int64(ctx.ScopeId()), 10)
	b = append(b, " /"...)
	for _, p := range ctx.Path {
		b = append(b, p...)
		b = append(b, '/')
	}
	b = append(b, ' ')
	b = append(b, nodeID(ctx.ParentNode())...)
	b = append(b, '\n')
	l.Write(b)
}

var readers = []reader{
	{"estree with positions", func(pr *parsed, arg int) func() string {
		e := estree.ConvertProg(pr.ast.(*parser.Prog), estree.NewConvertCtx(pr.p))
		return func() string { return marshal(e) }
	}},
	{"estree without positions", func(pr *parsed, arg int) func() string {
		c := estree.NewConvertCtx(pr.p)
		c.LineCol = false
		e := estree.ConvertProg(pr.ast.(*parser.Prog), c)
		return func() string { return marshal(e) }
	}},
	{"walk", func(pr *parsed, arg int) func() string {
		c := walk.NewWalkCtx(pr.ast, pr.p.Symtab())
		c.Path = arg&1 == 0
		l := &evLog{}
		walk.AddBeforeListener(&c.Listeners, &walk.Listener{Id: "b", Handle: func(n parser.Node, key string, ctx *walk.VisitorCtx) { l.ev('<', n, key, ctx) }})
		walk.AddAfterListener(&c.Listeners, &walk.Listener{Id: "a", Handle: func(n parser.Node, key string, ctx *walk.VisitorCtx) { l.ev('>', n, key, ctx) }})
		walk.VisitNode(pr.ast, "", c.VisitorCtx())
		return l.String
	}},
	{"control flow graph", func(pr *parsed, arg int) func() string {
		a := analysis.NewAnalysis(pr.ast, pr.p.Symtab(), pr.p.Source())
		a.Analyze()
		var b strings.Builder
		b.WriteString(a.Graph().Dot())
		for _, n := range nodesOf(pr.ast) {
			if g := a.AnalysisCtx().GraphOf(n); g != nil {
				b.WriteString(nodeID(n))
				b.WriteString("\n")
				b.WriteString(g.Dot())
			}
		}
		return str(b.String())
	}},
	{"constant evaluation", func(pr *parsed, arg int) func() string {
		var b strings.Builder
		k := 0
		for _, n := range nodesOf(pr.ast) {
			switch n.(type) {
			case *parser.BinExpr, *parser.UnaryExpr, *parser.MemberExpr, *parser.CallExpr, *parser.ArrLit, *parser.NumLit, *parser.StrLit, *parser.CondExpr, *parser.Ident:
			default:
				continue
			}
			if k++; (k+arg)%3 == 0 {
				continue
			}
			var res interface{}
			var err error
			m := guard(func() {
				ee := exec.NewExprEvaluator(n, pr.p)
				res, err = ee.Exec(evalVars()).GetResult()
				if arg&1 == 0 {
					ee.Release()
				}
			})
			b.WriteString(nodeID(n))
			b.WriteString(" ")
			b.WriteString(fmt.Sprintf("%T", res))
			d := &dumper{ids: map[dumpKey]int{}}
			d.val(reflect.ValueOf(&res).Elem())
			b.Write(d.b)
			b.WriteString(fmt.Sprint(err, m))
			b.WriteString("\n")
		}
		return str(b.String())
	}},
	{"names and dependencies", func(pr *parsed, arg int) func() string {
		var b strings.Builder
		nodes := nodesOf(pr.ast)
		m := guard(func() {
			g := astutil.BuildFnDepGraph(pr.ast, pr.p.Symtab())
			for _, n := range nodes {
				if dn := g.Nodes[n]; dn != nil {
					b.WriteString("fn " + nodeID(n) + " dec " + nodeID(dn.Dec) + " caps")
					for _, r := range dn.Captures {
						b.WriteString(" " + nodeID(r.Id) + "/" + nodeID(r.Dec))
					}
					b.WriteString(" deps")
					for _, x := range dn.Deps {
						b.WriteString(" " + nodeID(x.Dec))
					}
					for _, t := range nodes {
						if astutil.IsFnDepsOnNode(g, n, t) {
							b.WriteString(" on " + nodeID(t))
						}
					}
					b.WriteString("\n")
				}
			}
		})
		b.WriteString(m + "\n")
		for _, n := range nodes {
			b.WriteString(nodeID(n))
			m := guard(func() {
				b.WriteString(fmt.Sprint(" ", astutil.GetNodeNames(n)))
			})
			b.WriteString(m)
			m = guard(func() {
				ns, all := astutil.NamesInDecNode(n)
				b.WriteString(fmt.Sprint(" ", ns, all))
			})
			b.WriteString(m)
			m = guard(func() {
				b.WriteString(fmt.Sprint(" ", astutil.GetName(n), astutil.GetStaticPropertyName(n), astutil.IsPlainObj(n)))
			})
			b.WriteString(m + "\n")
		}
		return str(b.String())
	}},
	{"branches and containment", func(pr *parsed, arg int) func() string {
		var b strings.Builder
		nodes := nodesOf(pr.ast)
		m := guard(func() {
			for _, n := range astutil.CollectNodesInTrueBranches(pr.ast, []parser.NodeType{parser.N_EXPR_CALL, parser.N_NAME, parser.N_IMPORT_CALL, parser.N_LIT_STR}, evalVars(), pr.p) {
				b.WriteString(nodeID(n) + "\n")
			}
		})
		b.WriteString(m + "\n")
		for i, n := range nodes {
			if i%3 != arg%3 {
				continue
			}
			b.WriteString(nodeID(n))
			m := guard(func() {
				for j := i; j < len(nodes) && j < i+12; j += 3 {
					b.WriteString(fmt.Sprint(" ", astutil.IsNodeContains(n, nodes[j])))
				}
			})
			b.WriteString(m)
			m = guard(func() {
				for _, x := range astutil.SelectTrueBranches(n, evalVars(), pr.p) {
					b.WriteString(" " + nodeID(x))
				}
			})
			b.WriteString(m + "\n")
		}
		return str(b.String())
	}},
	{"texts, positions, comments and bindings", func(pr *parsed, arg int) func() string {
		var b strings.Builder
		src := pr.p.Source()
		for _, n := range nodesOf(pr.ast) {
			m := guard(func() {
				f, t := src.LineCol(n.Range())
				b.WriteString(fmt.Sprint(nodeID(n), " ", f, t, " ", src.OfstLineCol(n.Range().Lo), " ", strconv.Quote(pr.p.NodeText(n)), pr.p.PrevCmts(n), pr.p.PostCmts(n)))
			})
			b.WriteString(m + "\n")
		}
		st := pr.p.Symtab()
		for i := 0; i < len(st.Scopes)+2; i++ {
			s := st.Scopes[i]
			if s == nil {
				continue
			}
			b.WriteString(fmt.Sprint("scope ", i, s.Id, s.Kind, len(s.Down)))
			for _, nm := range []string{"a", "b", "c", "f", "x", "y", "A", "B", "foo", "fn0", "g1"} {
				m := guard(func() {
					if ref := s.BindingOf(nm); ref != nil {
						b.WriteString(" " + nm + "=" + nodeID(ref.Id) + nodeID(ref.Dec) + fmt.Sprint(ref.BindKind, ref.Typ))
					}
					if st.HasExternal(nm) {
						b.WriteString(" ext")
					}
				})
				b.WriteString(m)
			}
			b.WriteString("\n")
		}
		return str(b.String())
	}},
}

// readAll runs one reader to its end; a panic is a result.
func readOne(i int, pr *parsed, arg int) func() string {
	var fin func() string
	m := guard(func() { fin = readers[i].run(pr, arg) })
	if fin == nil {
		return str(m)
	}
	return fin
}
