package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// Readers that ask every accessor of the nodes, the scopes and the graphs. They go by
// reflection, so that they do not depend on which accessors there are.

// getters lists the methods which only tell something: no arguments and a result.
func getters(t reflect.Type) []int {
	var g []int
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 {
			continue
		}
		switch n := m.Name; {
		case strings.HasPrefix(n, "Set"), strings.HasPrefix(n, "Enter"), strings.HasPrefix(n, "Leave"), strings.HasPrefix(n, "New"),
			strings.HasPrefix(n, "Add"), strings.HasPrefix(n, "Remove"), strings.HasPrefix(n, "Next"), n == "Clone", n == "Dot":
			continue
		}
		g = append(g, i)
	}
	return g
}

func told(b []byte, v reflect.Value, deep int) []byte {
	if !v.IsValid() {
		return append(b, "nil"...)
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return told(b, v.Elem(), deep)
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		if v.CanInterface() {
			switch x := v.Interface().(type) {
			case parser.Node:
				return append(b, nodeID(x)...)
			case *parser.Scope:
				return strconv.AppendInt(append(b, "scope"...), int64(x.Id), 10)
			case *analysis.Block:
				return append(b, x.DotId()...)
			case *analysis.Edge:
				return append(b, x.Key()...)
			case *parser.TypInfo:
				if deep > 0 {
					return ask(append(b, "typ"...), v, deep-1)
				}
			}
		}
		return append(append(b, '*'), v.Elem().Type().Name()...)
	case reflect.Slice, reflect.Array:
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = append(told(b, v.Index(i), 0), ' ')
		}
		return append(b, ']')
	case reflect.Map:
		return strconv.AppendInt(append(b, "map "...), int64(v.Len()), 10)
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float64:
		return append(b, fmt.Sprint(v.Interface())...)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if k := v.Field(i).Kind(); v.Type().Field(i).IsExported() && (k == reflect.Uint32 || k == reflect.Int || k == reflect.Bool) {
				b = append(append(b, fmt.Sprint(v.Field(i).Interface())...), '-')
			}
		}
		return b
	}
	return append(b, v.Kind().String()...)
}

// ask calls all getters of x.
func ask(b []byte, x reflect.Value, deep int) []byte {
	t := x.Type()
	for _, i := range getters(t) {
		b = append(append(append(b, ' '), t.Method(i).Name...), '=')
		m := guard(func() {
			for _, o := range x.Method(i).Call(nil) {
				b = append(told(b, o, deep), ',')
			}
		})
		b = append(b, m...)
	}
	return b
}

func scopesOf(st *parser.SymTab) []*parser.Scope {
	var ids []int
	for id := range st.Scopes {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var l []*parser.Scope
	for _, id := range ids {
		l = append(l, st.Scopes[id])
	}
	return l
}

func readAccessors(pr *parsed, arg int) func() string {
	var b []byte
	for i, n := range nodesOf(pr.ast) {
		if arg > 0 && i%2 == arg%2 {
			continue
		}
		b = append(append(b, nodeID(n)...), ':')
		b = append(ask(b, reflect.ValueOf(n), 1), '\n')
	}
	for _, s := range scopesOf(pr.p.Symtab()) {
		b = append(ask(append(b, "scope"...), reflect.ValueOf(s), 0), '\n')
	}
	// not all methods of the source: most of them move its cursor
	s := pr.p.Source()
	b = append(b, fmt.Sprint("source ", s.Path, s.Len(), s.Ofst(), s.Pos(), s.MetLineTerm())...)
	return str(string(b))
}

func readGraph(pr *parsed, arg int) func() string {
	var b []byte
	a := analysis.NewAnalysis(pr.ast, pr.p.Symtab(), pr.p.Source())
	a.Analyze()
	nodes := nodesOf(pr.ast)
	graphs := []*analysis.Graph{a.Graph()}
	for _, n := range nodes {
		if g := a.AnalysisCtx().GraphOf(n); g != nil {
			graphs = append(graphs, g)
		}
	}
	seen := map[*analysis.Block]bool{}
	tell := func(x *analysis.Block) {
		if x == nil {
			b = append(b, " none"...)
			return
		}
		b = append(append(b, ' '), x.DotId()...)
		if seen[x] {
			return
		}
		seen[x] = true
		b = ask(b, reflect.ValueOf(x), 0)
		for t := 0; t < 12; t++ {
			for _, nm := range []string{"OutJmpEdge", "OutEdge", "InJmpEdge"} {
				m := reflect.ValueOf(x).MethodByName(nm)
				if !m.IsValid() || m.Type().NumIn() != 1 || !reflect.TypeOf(1<<t).ConvertibleTo(m.Type().In(0)) {
					continue
				}
				p := guard(func() {
					b = append(told(append(b, ' '), m.Call([]reflect.Value{reflect.ValueOf(1 << t).Convert(m.Type().In(0))})[0], 0), ' ')
				})
				b = append(b, p...)
			}
		}
		b = append(b, '\n')
	}
	for _, g := range graphs {
		b = append(b, "graph\n"...)
		for _, n := range nodes {
			b = append(b, nodeID(n)...)
			tell(g.BlkOfNode(n))
			tell(g.EntryOfNode(n))
			tell(g.ExitOfNode(n))
			b = append(b, '\n')
		}
	}
	return str(string(b))
}

// readImports asks what the names are bound to.
func readImports(pr *parsed, arg int) func() string {
	var b strings.Builder
	st := pr.p.Symtab()
	var imps []*parser.ImportDec
	var idents []*parser.Ident
	nodes := nodesOf(pr.ast)
	for _, n := range nodes {
		switch x := n.(type) {
		case *parser.ImportDec:
			imps = append(imps, x)
		case *parser.Ident:
			if len(idents) < 60 {
				idents = append(idents, x)
			}
		case *parser.VarDecStmt:
			for _, nm := range []string{"a", "b", "x", "fn0"} {
				m := guard(func() {
					if d := astutil.GetVarDec(nm, x); d != nil {
						b.WriteString(nm + " declared in " + nodeID(d) + "\n")
					}
				})
				b.WriteString(m)
			}
		}
	}
	scopes := scopesOf(st)
	for _, id := range idents {
		b.WriteString(id.Val())
		for _, s := range scopes {
			m := guard(func() {
				if d := astutil.IsIdentBoundInImportDec(id, s); d != nil {
					b.WriteString(" " + nodeID(d))
				}
			})
			if m != "" {
				b.WriteString("!")
			}
		}
		for _, d := range imps {
			m := guard(func() { b.WriteString(" " + astutil.IdOfLocalInImportDec(id.Val(), d)) })
			if m != "" {
				b.WriteString("!")
			}
		}
		b.WriteString("\n")
	}
	// the ancestors, asked for on the way
	c := walk.NewWalkCtx(pr.ast, st)
	fns := []parser.NodeType{parser.N_STMT_FN, parser.N_EXPR_FN, parser.N_EXPR_ARROW, parser.N_STMT_CLASS}
	bar := []parser.NodeType{parser.N_STMT_BLOCK, parser.N_STMT_IF}
	walk.AddBeforeListener(&c.Listeners, &walk.Listener{Id: "p", Handle: func(n parser.Node, key string, ctx *walk.VisitorCtx) {
		m := guard(func() {
			p, _ := astutil.GetParent(ctx, fns, nil)
			q, _ := astutil.GetParent(ctx, fns, bar)
			b.WriteString(nodeID(p) + nodeID(q) + " ")
		})
		b.WriteString(m)
	}})
	m := guard(func() { walk.VisitNode(pr.ast, "", c.VisitorCtx()) })
	b.WriteString(m)
	return str(b.String())
}

func init() {
	readers = append(readers, reader{"accessors", readAccessors}, reader{"graph queries", readGraph}, reader{"bindings of imports and ancestors", readImports})
}
