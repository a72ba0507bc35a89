package main

// The instrumenter: reads the Go packages of /repo's working tree, type checks
// them, and writes rewritten copies into an output directory together with an
// overlay file for `go build -overlay`. Nothing in /repo is touched.
//
// Rewrites (everything else is copied byte for byte, so lines stay the same):
//   - go statements, channel types and operations, select, range over channels
//   - range over maps (iteration order becomes a simulator decision)
//   - imports of packages that are a source of nondeterminism or I/O
//   - yield points at function entries, loop heads and (chosen packages) statements
//   - main packages are copied to importable packages (main -> Main)

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/hsiaosiyuan0/mole"
const simPath = modPath + "/zzsim/sim"

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type gen struct {
	repo, src, out string
	env            []string
	overlay        map[string]string
	fset           *token.FileSet
	std            map[string]string // import path -> export file
	pkgs           map[string]*types.Package
	shims          map[string]string // std import path -> shim import path
	sites          []string
	imp            types.Importer
}

func (g *gen) Import(path string) (*types.Package, error) {
	if p := g.pkgs[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return g.imp.Import(path)
}

func goList(repo string, env []string, args ...string) ([]*listPkg, error) {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = repo
	cmd.Env = env
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list %v: %v\n%s", args, err, se.String())
	}
	dec := json.NewDecoder(&so)
	var r []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		r = append(r, p)
	}
	return r, nil
}

// functions of package os that touch nothing
var osPure = map[string]bool{"Expand": true, "Getpagesize": true, "IsPathSeparator": true, "NewSyscallError": true, "IsTimeout": true}

// packages whose statements each get a yield point
var fineGrained = map[string]bool{
	modPath + "/util":      true,
	modPath + "/parseutil": true,
}

type stats struct {
	Files, Yields, Gos, Chans, Selects, MapRanges, MapKeys, Imports int
}

func (g *gen) run() (*stats, error) {
	st := &stats{}
	g.overlay = map[string]string{}
	g.fset = token.NewFileSet()
	g.pkgs = map[string]*types.Package{}
	g.std = map[string]string{}

	// shims present under src/shim
	g.shims = map[string]string{}
	shimRoot := filepath.Join(g.src, "shim")
	filepath.Walk(shimRoot, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && p != shimRoot {
			m, _ := filepath.Glob(filepath.Join(p, "*.go"))
			if len(m) > 0 {
				rel, _ := filepath.Rel(shimRoot, p)
				g.shims[filepath.ToSlash(rel)] = modPath + "/zzsim/shim/" + filepath.ToSlash(rel)
			}
		}
		return nil
	})

	all, err := goList(g.repo, g.env, "-e", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,Imports,Error,DepsErrors", "-deps", "./...")
	if err != nil {
		return nil, err
	}
	// export data of all std packages needed by the repo, the shims and the harness
	stdset := map[string]bool{}
	for _, p := range all {
		if p.Standard && p.ImportPath != "unsafe" {
			stdset[p.ImportPath] = true
		}
	}
	for s := range g.shims {
		stdset[s] = true
	}
	var stdl []string
	for s := range stdset {
		stdl = append(stdl, s)
	}
	sort.Strings(stdl)
	std, err := goList(g.repo, g.env, append([]string{"-export", "-deps", "-json=ImportPath,Export"}, stdl...)...)
	if err != nil {
		return nil, err
	}
	for _, p := range std {
		g.std[p.ImportPath] = p.Export
	}
	g.imp = importer.ForCompiler(g.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := g.std[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	os.RemoveAll(g.out)
	if err := os.MkdirAll(g.out, 0755); err != nil {
		return nil, err
	}

	// the generated forwarding parts of the shims
	for s := range g.shims {
		if err := g.shimForward(s); err != nil {
			return nil, err
		}
	}
	// sim runtime, shims, harness at virtual in-module paths
	if err := g.addTree(filepath.Join(g.src, "sim"), "zzsim/sim"); err != nil {
		return nil, err
	}
	if err := g.addTree(shimRoot, "zzsim/shim"); err != nil {
		return nil, err
	}
	if err := g.addTree(filepath.Join(g.src, "harness"), "zzsim/harness"); err != nil {
		return nil, err
	}
	// outside of zzsim: compiled with race instrumentation
	if err := g.addTree(filepath.Join(g.src, "inst"), "zzinst"); err != nil {
		return nil, err
	}
	// instrumented copies of std packages that hold plain data structures shared between goroutines
	for _, s := range []string{"container/list", "flag"} {
		if err := g.stdCopy(s, st); err != nil {
			return nil, err
		}
	}

	for _, p := range all {
		if p.Standard {
			continue
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		if len(p.GoFiles) == 0 || strings.Contains(p.ImportPath, "/estree/test") {
			continue
		}
		if err := g.pkg(p, st); err != nil {
			return nil, err
		}
	}
	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": g.overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(g.out, "overlay.json"), ov, 0644); err != nil {
		return nil, err
	}
	sj, _ := json.Marshal(g.sites)
	if err := os.WriteFile(filepath.Join(g.out, "sites.json"), sj, 0644); err != nil {
		return nil, err
	}
	return st, nil
}

func (g *gen) addTree(dir, virt string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		g.overlay[filepath.Join(g.repo, virt, rel)] = p
		return nil
	})
}

func (g *gen) write(virt, name string, data []byte) error {
	p := filepath.Join(g.out, "f", virt, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		return err
	}
	g.overlay[filepath.Join(g.repo, virt, name)] = p
	return os.WriteFile(p, data, 0644)
}

// stdCopy instruments a copy of a std package under zzstd/<path>.
func (g *gen) stdCopy(path string, st *stats) error {
	l, err := goList(g.repo, g.env, "-json=Dir,ImportPath,Name,GoFiles,Imports", path)
	if err != nil {
		return err
	}
	p := l[0]
	g.shims[path] = modPath + "/zzstd/" + path
	q := *p
	q.ImportPath = modPath + "/zzstd/" + path
	return g.pkg(&q, st)
}

func (g *gen) pkg(p *listPkg, st *stats) error {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(g.fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types:     map[ast.Expr]types.TypeAndValue{},
		Defs:      map[*ast.Ident]types.Object{},
		Uses:      map[*ast.Ident]types.Object{},
		InitOrder: nil,
	}
	var terr error
	conf := types.Config{Importer: g, Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}, GoVersion: "go1.18", FakeImportC: true}
	if strings.Contains(p.ImportPath, "/zzstd/") {
		conf.GoVersion = ""
	}
	tp, _ := conf.Check(p.ImportPath, g.fset, files, info)
	if terr != nil {
		return fmt.Errorf("type check %s: %v", p.ImportPath, terr)
	}
	g.pkgs[p.ImportPath] = tp

	virt := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
	isMain := p.Name == "main"
	newName := ""
	if isMain {
		newName = "zzm_" + filepath.Base(p.ImportPath)
		virt = "zzmain/" + filepath.Base(p.ImportPath)
	}
	fine := fineGrained[p.ImportPath] || isMain || strings.Contains(p.ImportPath, "/zzstd/container")
	var inits []string
	for i, af := range files {
		r := &rewriter{g: g, src: srcs[i], f: af, info: info, pkg: tp, fine: fine, st: st, isMain: isMain,
			newName: newName, base: g.fset.File(af.Pos()).Base(), ninit: len(inits), rel: virt + "/" + p.GoFiles[i]}
		r.methods = methodRecvs(files)
		out := r.file()
		inits = append(inits, r.inits...)
		if !hasConstraint(af) {
			// the wrappers around map iteration need the go1.20 notion of comparable
			out = "//go:build go1.21\n\n" + out
		}
		if err := g.write(virt, p.GoFiles[i], []byte(out)); err != nil {
			return err
		}
		st.Files++
	}
	if isMain {
		if err := g.write(virt, "zz_reset.go", []byte(g.resetFile(newName, tp, files, info, inits))); err != nil {
			return err
		}
	}
	return nil
}

func hasConstraint(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				return true
			}
		}
	}
	return false
}

func methodRecvs(files []*ast.File) map[string]bool {
	m := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					m[id.Name] = true
				}
			}
		}
	}
	return m
}

// resetFile re-initialises a main package's variables: one simulated process start.
func (g *gen) resetFile(name string, tp *types.Package, files []*ast.File, info *types.Info, inits []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nfunc zero[T any](p *T) { var z T; *p = z }\n\nfunc ZZReset() {\n", name)
	// zero every variable, then run the initialisers (each package variable
	// initialiser was moved into a zzvarN function by the rewriter)
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						fmt.Fprintf(&b, "\tzero(&%s)\n", n.Name)
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		if fn := varInitName(in); fn != "" {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	for _, n := range inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	return b.String()
}

func varInitName(in *types.Initializer) string {
	for _, v := range in.Lhs {
		if v.Name() != "_" {
			return "zzvar_" + v.Name()
		}
	}
	return ""
}

type rewriter struct {
	g       *gen
	src     []byte
	f       *ast.File
	info    *types.Info
	pkg     *types.Package
	fine    bool
	isMain  bool
	newName string
	rel     string
	base    int
	st      *stats
	inits   []string
	ninit   int
	methods map[string]bool
	nsel    int
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) raw(from, to token.Pos) string { return string(r.src[r.off(from):r.off(to)]) }

func (r *rewriter) y(p token.Pos) string {
	pos := r.g.fset.Position(p)
	r.g.sites = append(r.g.sites, fmt.Sprintf("%s:%d", r.rel, pos.Line))
	r.st.Yields++
	return fmt.Sprintf("zzsim.Y(%d);", len(r.g.sites))
}

func (r *rewriter) file() string {
	s := string(r.src[:r.off(r.f.Package)])
	body := r.kids(r.f, r.f.Package, token.Pos(r.base+len(r.src)))
	// after the package clause (name ident end) insert the import on the same line
	name := r.f.Name.Name
	if r.newName != "" {
		name = r.newName
	}
	body = strings.TrimPrefix(body, "package")
	i := strings.Index(body, r.f.Name.Name)
	body = "package " + name + "; import zzsim " + strconv.Quote(simPath) + body[i+len(r.f.Name.Name):]
	return s + body + "\nvar _ = zzsim.Y\n"
}

// kids renders [from,to) with the direct children of n rewritten.
func (r *rewriter) kids(n ast.Node, from, to token.Pos) string {
	var ch []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return c == n
		}
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		ch = append(ch, c)
		return false
	})
	sort.SliceStable(ch, func(i, j int) bool { return ch[i].Pos() < ch[j].Pos() })
	var b strings.Builder
	at := from
	for _, c := range ch {
		if c.Pos() < at || c.End() > to || !c.Pos().IsValid() {
			continue // implicit nodes (e.g. a receiver-less field list)
		}
		b.WriteString(r.raw(at, c.Pos()))
		b.WriteString(r.tx(c))
		at = c.End()
	}
	b.WriteString(r.raw(at, to))
	return b.String()
}

func (r *rewriter) def(n ast.Node) string { return r.kids(n, n.Pos(), n.End()) }

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// core type of a constraint
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
		}
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

// ordered keys are sorted by value; other keys need an identity given at insertion
func needsKey(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	if !ok {
		return false
	}
	switch k := m.Key().Underlying().(type) {
	case *types.Basic:
		_ = k
		return false
	}
	if _, ok := m.Key().(*types.TypeParam); ok {
		return true
	}
	return true
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rewriter) tx(n ast.Node) string {
	switch v := n.(type) {
	case *ast.ImportSpec:
		path, _ := strconv.Unquote(v.Path.Value)
		if np, ok := r.g.shims[path]; ok {
			r.st.Imports++
			s := ""
			if v.Name != nil {
				s = v.Name.Name + " "
			} else if filepath.Base(path) != filepath.Base(np) {
				s = filepath.Base(path) + " "
			}
			return s + strconv.Quote(np)
		}
		return r.raw(v.Pos(), v.End())
	case *ast.FuncDecl:
		if r.isMain && v.Recv == nil && (v.Name.Name == "main" || v.Name.Name == "init") {
			nn := "Main"
			if v.Name.Name == "init" {
				nn = fmt.Sprintf("zzinit%d", r.ninit+len(r.inits))
				r.inits = append(r.inits, nn)
			}
			return r.raw(v.Pos(), v.Name.Pos()) + nn + r.raw(v.Name.End(), v.Body.Pos()) + r.block(v.Body, true)
		}
		if v.Body == nil {
			return r.def(v)
		}
		// header: render receiver/types through kids with body cut off
		hdr := r.kidsSkip(v, v.Pos(), v.Body.Pos(), v.Body)
		return hdr + r.block(v.Body, true)
	case *ast.FuncLit:
		return r.tx(v.Type) + r.raw(v.Type.End(), v.Body.Pos()) + r.block(v.Body, true)
	case *ast.GenDecl:
		if r.isMain && v.Tok == token.VAR && r.topLevel(v) {
			return r.mainVars(v)
		}
		return r.def(v)
	case *ast.TypeSpec:
		if ct, ok := v.Type.(*ast.ChanType); ok && !v.Assign.IsValid() && !r.methods[v.Name.Name] && v.TypeParams == nil {
			return v.Name.Name + " = " + r.tx(ct)
		}
		return r.def(v)
	case *ast.ChanType:
		r.st.Chans++
		return "*zzsim.Chan[" + r.tx(v.Value) + "]"
	case *ast.SendStmt:
		return "(" + r.tx(v.Chan) + ").Send(" + r.tx(v.Value) + ")"
	case *ast.UnaryExpr:
		if v.Op == token.ARROW {
			if tv, ok := r.info.Types[v]; ok {
				if _, ok := tv.Type.(*types.Tuple); ok {
					return "(" + r.tx(v.X) + ").Recv2()"
				}
			}
			return "(" + r.tx(v.X) + ").Recv()"
		}
		return r.def(v)
	case *ast.GoStmt:
		return r.goStmt(v)
	case *ast.CallExpr:
		if len(v.Args) >= 1 {
			if r.isBuiltin(v.Fun, "make") && isChan(r.typ(v.Args[0])) {
				n := "0"
				if len(v.Args) > 1 {
					n = "int(" + r.tx(v.Args[1]) + ")"
				}
				return "(" + r.tx(v.Args[0]) + ")(nil).Make(" + n + ")"
			}
			if isChan(r.typ(v.Args[0])) && len(v.Args) == 1 {
				for _, b := range [][2]string{{"close", "Close"}, {"len", "Len"}, {"cap", "Cap"}} {
					if r.isBuiltin(v.Fun, b[0]) {
						return "(" + r.tx(v.Args[0]) + ")." + b[1] + "()"
					}
				}
			}
		}
		return r.def(v)
	case *ast.SelectStmt:
		return r.selectStmt(v, "")
	case *ast.LabeledStmt:
		if s, ok := v.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, v.Label.Name)
		}
		return r.def(v)
	case *ast.RangeStmt:
		return r.rangeStmt(v)
	case *ast.ForStmt:
		return r.kidsSkip(v, v.Pos(), v.Body.Pos(), v.Body) + r.loopBody(v.Body)
	case *ast.BlockStmt:
		return r.block(v, false)
	case *ast.CaseClause:
		return r.kidsN(v, v.Pos(), v.Colon+1, exprNodes(v.List)) + r.stmts(v.Body, v.Colon+1, v.End())
	case *ast.CommClause:
		panic("comm clause outside select")
	case *ast.AssignStmt:
		return r.assign(v)
	case *ast.IncDecStmt:
		return r.lhs(v.X) + r.raw(v.X.End(), v.End())
	case *ast.CompositeLit:
		if isMap(r.typ(v)) && needsKey(r.typ(v)) {
			return r.mapLit(v)
		}
		return r.def(v)
	}
	return r.def(n)
}

func exprNodes(l []ast.Expr) []ast.Node {
	var r []ast.Node
	for _, e := range l {
		r = append(r, e)
	}
	return r
}

func (r *rewriter) topLevel(d *ast.GenDecl) bool {
	for _, x := range r.f.Decls {
		if x == d {
			return true
		}
	}
	return false
}

// mainVars splits package variables of a main package into a declaration and
// an initialiser function, so that a simulated process start can run it again.
func (r *rewriter) mainVars(d *ast.GenDecl) string {
	var b strings.Builder
	for _, s := range d.Specs {
		vs := s.(*ast.ValueSpec)
		if len(vs.Values) == 0 {
			b.WriteString("var " + r.tx(vs) + "; ")
			continue
		}
		if vs.Type == nil {
			// type comes from the value: keep the initialiser, and add a function doing it again
			b.WriteString("var " + r.tx(vs) + "; ")
		} else {
			b.WriteString("var " + r.tx(vs) + "; ")
		}
		if len(vs.Values) == len(vs.Names) {
			for i, n := range vs.Names {
				if n.Name != "_" {
					b.WriteString("func zzvar_" + n.Name + "() { " + n.Name + " = " + r.tx(vs.Values[i]) + " }; ")
				}
			}
		} else {
			var l []string
			first := ""
			for _, n := range vs.Names {
				l = append(l, n.Name)
				if n.Name != "_" && first == "" {
					first = n.Name
				}
			}
			if first != "" {
				b.WriteString("func zzvar_" + first + "() { " + strings.Join(l, ", ") + " = " + r.tx(vs.Values[0]) + " }; ")
			}
		}
	}
	return b.String()
}

func (r *rewriter) kidsN(n ast.Node, from, to token.Pos, ch []ast.Node) string {
	var b strings.Builder
	at := from
	for _, c := range ch {
		b.WriteString(r.raw(at, c.Pos()))
		b.WriteString(r.tx(c))
		at = c.End()
	}
	b.WriteString(r.raw(at, to))
	return b.String()
}

func (r *rewriter) kidsSkip(n ast.Node, from, to token.Pos, skip ast.Node) string {
	var ch []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return c == n
		}
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		if c != skip {
			ch = append(ch, c)
		}
		return false
	})
	// the children of a FuncDecl/FuncType come out in an order where the type
	// spans the name; render leaf-wise instead
	if fd, ok := n.(*ast.FuncDecl); ok {
		ch = nil
		if fd.Recv != nil {
			ch = append(ch, fd.Recv)
		}
		ch = append(ch, fd.Name)
		if fd.Type.TypeParams != nil {
			ch = append(ch, fd.Type.TypeParams)
		}
		ch = append(ch, fd.Type.Params)
		if fd.Type.Results != nil {
			ch = append(ch, fd.Type.Results)
		}
	}
	return r.kidsN(n, from, to, ch)
}

func (r *rewriter) stmts(l []ast.Stmt, from, to token.Pos) string {
	var b strings.Builder
	at := from
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		b.WriteString(r.raw(at, s.Pos()))
		if r.fine {
			b.WriteString(r.y(s.Pos()))
		}
		b.WriteString(r.tx(s))
		at = s.End()
	}
	b.WriteString(r.raw(at, to))
	return b.String()
}

func (r *rewriter) block(b *ast.BlockStmt, fn bool) string {
	// switch/select bodies are BlockStmts holding clauses
	if len(b.List) > 0 {
		if _, ok := b.List[0].(*ast.CaseClause); ok {
			return r.def(b)
		}
	}
	s := "{"
	if fn {
		s += r.y(b.Lbrace)
	}
	return s + r.stmts(b.List, b.Lbrace+1, b.End())
}

func (r *rewriter) loopBody(b *ast.BlockStmt) string {
	return "{" + r.y(b.Lbrace) + r.stmts(b.List, b.Lbrace+1, b.End())
}

func (r *rewriter) goStmt(v *ast.GoStmt) string {
	r.st.Gos++
	c := v.Call
	name := strconv.Quote(fmt.Sprintf("%s:%d", r.rel, r.g.fset.Position(v.Pos()).Line))
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return "zzsim.Go(" + name + ", func() { " + r.tx(c) + " })"
		}
	}
	if len(c.Args) == 0 {
		if _, ok := unparen(c.Fun).(*ast.FuncLit); ok {
			return "zzsim.Go(" + name + ", " + r.tx(c.Fun) + ")"
		}
	}
	lhs := []string{"zzf"}
	rhs := []string{r.tx(c.Fun)}
	var args []string
	for i, a := range c.Args {
		tv := r.info.Types[a]
		konst := tv.Value != nil
		if b, ok := tv.Type.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			konst = true
		}
		if konst {
			args = append(args, r.tx(a))
			continue
		}
		nm := fmt.Sprintf("zza%d", i)
		lhs = append(lhs, nm)
		rhs = append(rhs, r.tx(a))
		args = append(args, nm)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	return "{ " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; zzsim.Go(" + name + ", func() { zzf(" + strings.Join(args, ", ") + ell + ") }) }"
}

func (r *rewriter) selectStmt(v *ast.SelectStmt, label string) string {
	r.st.Selects++
	var pre, cases strings.Builder
	var names []string
	hasDef := false
	at := v.Body.Lbrace + 1
	for i, s := range v.Body.List {
		cc := s.(*ast.CommClause)
		cases.WriteString(r.raw(at, cc.Pos()))
		at = cc.End()
		body := r.stmts(cc.Body, cc.Colon+1, cc.End())
		nm := fmt.Sprintf("zzc%d", i)
		switch c := cc.Comm.(type) {
		case nil:
			hasDef = true
			cases.WriteString("default:" + body)
			continue
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := (%s).SendCase(%s);", nm, r.tx(c.Chan), r.tx(c.Value))
			fmt.Fprintf(&cases, "case %d:%s", len(names), body)
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := (%s).RecvCase();", nm, r.tx(u.X))
			fmt.Fprintf(&cases, "case %d:%s", len(names), body)
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := (%s).RecvCase();", nm, r.tx(u.X))
			var l []string
			for _, e := range c.Lhs {
				l = append(l, r.tx(e))
			}
			get := ".Get()"
			if len(l) == 2 {
				get = ".Get2()"
			}
			fmt.Fprintf(&cases, "case %d: %s %s %s%s;%s", len(names), strings.Join(l, ", "), c.Tok, nm, get, body)
		}
		names = append(names, nm)
	}
	cases.WriteString(r.raw(at, v.Body.Rbrace))
	if !hasDef {
		cases.WriteString("default: panic(\"zzsim: select\");")
	}
	lb := ""
	if label != "" {
		lb = label + ": "
	}
	args := append([]string{fmt.Sprint(hasDef)}, names...)
	return "{ " + pre.String() + lb + "switch zzsim.Select(" + strings.Join(args, ", ") + ") {" + cases.String() + "}}"
}

func (r *rewriter) rangeStmt(v *ast.RangeStmt) string {
	t := r.typ(v.X)
	kind := ""
	if isMap(t) {
		kind = "Map"
	} else if isChan(t) {
		kind = "Chan"
	}
	if kind == "" {
		return r.kidsSkip(v, v.Pos(), v.Body.Pos(), v.Body) + r.loopBody(v.Body)
	}
	x := r.tx(v.X)
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return "_"
		}
		return r.tx(e)
	}
	ref := func(s string) string {
		if s == "_" {
			return "nil"
		}
		return "&(" + s + ")"
	}
	k, val := name(v.Key), name(v.Value)
	var hdr string
	if kind == "Map" {
		r.st.MapRanges++
		if v.Tok == token.DEFINE {
			hdr = fmt.Sprintf("for zzi, %s, %s := zzsim.RangeMap(%s); zzi.Next(%s, %s); ", k, val, x, ref(k), ref(val))
		} else {
			hdr = fmt.Sprintf("for zzi, _, _ := zzsim.RangeMap(%s); zzi.Next(%s, %s); ", x, ref(k), ref(val))
		}
	} else {
		if v.Tok == token.DEFINE {
			hdr = fmt.Sprintf("for zzi, %s := (%s).Iter(); zzi.Next(%s); ", k, x, ref(k))
		} else {
			hdr = fmt.Sprintf("for zzi, _ := (%s).Iter(); zzi.Next(%s); ", x, ref(k))
		}
	}
	return hdr + r.loopBody(v.Body)
}

func (r *rewriter) lhs(e ast.Expr) string {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if ok && isMap(r.typ(ix.X)) && needsKey(r.typ(ix.X)) {
		if !pure(ix.X) {
			return r.tx(e)
		}
		r.st.MapKeys++
		return r.tx(ix.X) + "[zzsim.KeyOf(" + r.tx(ix.X) + ", " + r.tx(ix.Index) + ")]"
	}
	return r.tx(e)
}

func (r *rewriter) assign(v *ast.AssignStmt) string {
	var b strings.Builder
	at := v.Pos()
	for _, e := range v.Lhs {
		b.WriteString(r.raw(at, e.Pos()))
		b.WriteString(r.lhs(e))
		at = e.End()
	}
	for _, e := range v.Rhs {
		b.WriteString(r.raw(at, e.Pos()))
		b.WriteString(r.tx(e))
		at = e.End()
	}
	b.WriteString(r.raw(at, v.End()))
	return b.String()
}

func (r *rewriter) mapLit(v *ast.CompositeLit) string {
	if len(v.Elts) == 0 {
		return r.def(v)
	}
	r.st.MapKeys++
	// register the keys after the literal is built, in source order is lost;
	// use an ordered registration instead: keys are evaluated in order inside KeyOf
	var b strings.Builder
	at := v.Lbrace + 1
	if v.Type == nil {
		return r.def(v)
	}
	ty := r.tx(v.Type)
	b.WriteString(ty + "{")
	for _, e := range v.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return r.def(v)
		}
		b.WriteString(r.raw(at, kv.Pos()))
		if cl, ok := kv.Key.(*ast.CompositeLit); ok && cl.Type == nil {
			b.WriteString(r.tx(kv.Key))
		} else {
			b.WriteString("zzsim.KeyOf((" + ty + ")(nil), " + r.tx(kv.Key) + ")")
		}
		b.WriteString(r.raw(kv.Key.End(), kv.Value.Pos()))
		b.WriteString(r.tx(kv.Value))
		at = kv.End()
	}
	b.WriteString(r.raw(at, v.End()))
	return b.String()
}

// shimForward generates zz_forward.go for a shim: every exported name of the std
// package the shim does not define itself is forwarded to the std package.
func (g *gen) shimForward(path string) error {
	dir := filepath.Join(g.src, "shim", path)
	fs := token.NewFileSet()
	have := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	name := ""
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Recv == nil {
					have[v.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range v.Specs {
					switch x := s.(type) {
					case *ast.TypeSpec:
						have[x.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range x.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := g.imp.Import(path)
	if err != nil {
		return err
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport zzreal %q\n\n", name, path)
	n := 0
	for _, nm := range p.Scope().Names() {
		if !ast.IsExported(nm) || have[nm] {
			continue
		}
		o := p.Scope().Lookup(nm)
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = zzreal.%s\n", nm, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", nm, nm)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = zzreal.%s\n", nm, nm)
		case *types.Func:
			if path == "os" && !osPure[nm] {
				continue // never let the code under test reach the real machine
			}
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", nm, nm)
		}
		n++
	}
	if n == 0 {
		b.Reset()
		fmt.Fprintf(&b, "package %s\n", name)
	}
	return g.write("zzsim/shim/"+path, "zz_forward.go", []byte(b.String()))
}
