package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	goparser "go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	hent "github.com/hsiaosiyuan0/mole/zzmain/html_entity"
	ntgen "github.com/hsiaosiyuan0/mole/zzmain/nodetype_gen"
	vgen "github.com/hsiaosiyuan0/mole/zzmain/visitor_gen"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func init() {
	scenarios["C19"] = &Scenario{run: runC19, setup: loadDefs,
		real: []string{"script/visitor_gen", "script/nodetype_gen", "script/html_entity", "script/macro", "util.Shell", "go/parser, text/template, html/template"},
		stub: []string{"file system (in memory, with faults)", "hash-map iteration order", "process start, exit and crash", "os/exec (gofmt through go/format)", "network (simulated server)", "clock"},
		rule: "A run lays out random AST definitions (node types over several files, shared structs, getters returning one node or many) or the definitions of the repository, runs a generator as a simulated process under one map order, runs it again under another, then under read, open, write, no-space and close faults, a failing gofmt, a cut or refused download, or killed at a random call, and once more without faults. Outputs are compared byte for byte and with the definitions; exit status and standard error with what went wrong. Non-trivial: more than one type is declared or a fault was injected."}
}

type defStruct struct {
	name    string
	methods []string
	many    map[string]bool
}

// genDefs is a set of AST definitions and what it declares.
type genDefs struct {
	files   map[string]string
	types   []string          // declared node types, in order
	of      map[string]string // type -> struct
	structs map[string]*defStruct
}

var realDefs *genDefs

var reType = regexp.MustCompile(`(?m)^\s*(N_\w+)[^\n]*//\s*#\[visitor\((\w+)\)\]`)

func loadDefs() {
	repo := os.Getenv("MOLESIM_REPO")
	if repo == "" {
		return
	}
	fs, _ := filepath.Glob(filepath.Join(repo, "ecma/parser/*.go"))
	sort.Strings(fs)
	d := &genDefs{files: map[string]string{}, of: map[string]string{}, structs: map[string]*defStruct{}}
	for _, p := range fs {
		b, err := os.ReadFile(p)
		if err != nil || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "html_entity.go") {
			continue
		}
		d.files[filepath.Base(p)] = string(b)
		for _, m := range reType.FindAllStringSubmatch(string(b), -1) {
			d.types = append(d.types, m[1])
			d.of[m[1]] = m[2]
		}
	}
	if len(d.types) > 20 {
		realDefs = d
	}
}

func randDefs(r *sim.Run) *genDefs {
	d := &genDefs{files: map[string]string{}, of: map[string]string{}, structs: map[string]*defStruct{}}
	nf := 1 + r.Choose(sim.SW, 4)
	body := make([]strings.Builder, nf)
	ns := 1 + r.Choose(sim.SW, 6)
	var names []string
	for i := 0; i < ns; i++ {
		s := &defStruct{name: string(rune('A'+i)) + []string{"", "Stmt", "Expr", "Lit"}[r.Choose(sim.SW, 4)], many: map[string]bool{}}
		names = append(names, s.name)
		d.structs[s.name] = s
		scope := false
		for k, n := 0, r.Choose(sim.SW, 4); k < n; k++ {
			m := []string{"Body", "Expr", "Params", "Init"}[k]
			s.methods = append(s.methods, m)
			s.many[m] = r.Choose(sim.SW, 2) == 1
		}
		args := s.methods
		if len(s.methods) > 0 && r.Choose(sim.SW, 3) == 2 {
			scope = true
			args = append([]string{"PUSH_SCOPE"}, s.methods...)
		}
		_ = scope
		f := r.Choose(sim.SW, nf)
		if len(args) > 0 {
			fmt.Fprintf(&body[f], "\n// %s\n// #[visitor(%s)]\ntype %s struct {\n\tx Node\n}\n", s.name, strings.Join(args, ","), s.name)
		} else {
			fmt.Fprintf(&body[f], "\ntype %s struct{ x Node }\n", s.name)
		}
		for _, m := range s.methods {
			g := f
			if r.Choose(sim.SW, 3) == 2 {
				g = r.Choose(sim.SW, nf)
			}
			if s.many[m] {
				fmt.Fprintf(&body[g], "\nfunc (n *%s) %s() []Node { return nil }\n", s.name, m)
			} else {
				fmt.Fprintf(&body[g], "\nfunc (n *%s) %s() Node { return n.x }\n", s.name, m)
			}
		}
		if r.Choose(sim.SW, 3) == 2 {
			fmt.Fprintf(&body[f], "\nfunc (n %s) Type() NodeType { return 0 }\nfunc helper%s() int { return %d }\n", s.name, s.name, i)
		}
	}
	nt := 1 + r.Choose(sim.SW, 10)
	k := 0
	for k < nt {
		f := r.Choose(sim.SW, nf)
		fmt.Fprintf(&body[f], "\nconst (\n")
		for j, m := 0, 1+r.Choose(sim.SW, 6); j < m && k < nt; j++ {
			if r.Choose(sim.SW, 5) == 4 {
				fmt.Fprintf(&body[f], "\tN_SKIP_%d_%d // nothing\n", f, k*10+j)
			}
			t := fmt.Sprintf("N_%s%02d", []string{"", "STMT_", "EXPR_", "Mixed_"}[r.Choose(sim.SW, 4)], k)
			if k == 0 && r.Choose(sim.SW, 4) == 3 {
				t = "N_PROG"
			}
			s := names[r.Choose(sim.SW, len(names))]
			d.types = append(d.types, t)
			d.of[t] = s
			fmt.Fprintf(&body[f], "\t%s = NodeType(%d) // #[visitor(%s)]\n", t, k, s)
			k++
		}
		fmt.Fprintf(&body[f], ")\n")
	}
	for i := range body {
		d.files[fmt.Sprintf("%c%d.go", 'z'-rune(r.Choose(sim.SW, 20)), i)] = "package parser\n" + body[i].String()
	}
	if r.Choose(sim.SW, 4) == 3 {
		d.files["x_test.go"] = "package parser_test\n\ntype T struct{}\n"
	}
	d.files["notes.txt"] = "not Go"
	return d
}

func (d *genDefs) put(f *sim.FS, dir string, order int) {
	var ns []string
	for n := range d.files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for i := range ns {
		k := i
		if order == 1 {
			k = len(ns) - 1 - i
		}
		f.PutFile(path.Join(dir, ns[k]), []byte(d.files[ns[k]]))
	}
}

func upperTyp(t string) string { return "N_" + strings.ToUpper(t[strings.IndexByte(t, '_')+1:]) }

// checkVisitors compares generated visitors with the definitions.
func (d *genDefs) checkVisitors(out []byte) string {
	af, err := goparser.ParseFile(token.NewFileSet(), "visitor.go", out, 0)
	if err != nil {
		return "the output is not valid Go: " + err.Error()
	}
	fns := map[string]*ast.FuncDecl{}
	set := map[string]string{}
	for _, dc := range af.Decls {
		fd, ok := dc.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Name.Name == "init" {
			for _, s := range fd.Body.List {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 1 {
					continue
				}
				ix, ok := a.Lhs[0].(*ast.IndexExpr)
				if !ok {
					continue
				}
				x, _ := ix.X.(*ast.Ident)
				y, _ := ix.Index.(*ast.Ident)
				z, _ := a.Rhs[0].(*ast.Ident)
				if x != nil && y != nil && z != nil && x.Name == "DefaultVisitors" {
					set[y.Name] = z.Name
				}
			}
			continue
		}
		if fns[fd.Name.Name] != nil {
			return "function " + fd.Name.Name + " is defined twice"
		}
		fns[fd.Name.Name] = fd
	}
	for _, t := range d.types {
		fn := set[upperTyp(t)]
		if fn != "Visit"+d.of[t] || fns[fn] == nil {
			return fmt.Sprintf("the visitor of %s is %q, not a function Visit%s of the output", t, fn, d.of[t])
		}
		s := d.structs[d.of[t]]
		if s == nil {
			continue
		}
		var got, want []string
		ast.Inspect(fns[fn].Body, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "VisitNode" || id.Name == "VisitNodes") {
				for _, a := range c.Args {
					if g, ok := a.(*ast.CallExpr); ok {
						if sel, ok := g.Fun.(*ast.SelectorExpr); ok {
							got = append(got, id.Name+" "+sel.Sel.Name)
						}
					}
				}
			}
			return true
		})
		for _, m := range s.methods {
			if s.many[m] {
				want = append(want, "VisitNodes "+m)
			} else {
				want = append(want, "VisitNode "+m)
			}
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			return fmt.Sprintf("Visit%s visits [%s], declared are [%s]", s.name, strings.Join(got, ", "), strings.Join(want, ", "))
		}
	}
	return ""
}

func (d *genDefs) checkStrings(out []byte) string {
	if _, err := goparser.ParseFile(token.NewFileSet(), "nodetype_string.go", out, 0); err != nil {
		return "the output is not valid Go: " + err.Error()
	}
	for _, t := range d.types {
		if !regexp.MustCompile(regexp.QuoteMeta(t) + `\]?\s*[=:]\s*"` + d.of[t] + `"`).Match(out) {
			return fmt.Sprintf("the output does not name %s as %q", t, d.of[t])
		}
	}
	return ""
}

// entities served by the simulated site
func randEntities(r *sim.Run) ([]byte, func([]byte) string) {
	type ent struct {
		Codepoints []int  `json:"codepoints"`
		Characters string `json:"characters"`
	}
	m := map[string]ent{}
	var keys []string
	for i, n := 0, 1+r.Choose(sim.SW, 12); i < n; i++ {
		k := fmt.Sprintf("&e%02d%s", i, strings.Repeat("x", r.Choose(sim.SW, 5)))
		e := ent{Codepoints: []int{160 + r.Choose(sim.SW, 5000)}}
		if r.Choose(sim.SW, 4) == 3 {
			e.Codepoints = append(e.Codepoints, 0x1d504+r.Choose(sim.SW, 100))
		}
		if i > 0 && r.Choose(sim.SW, 4) == 3 {
			e = m[keys[r.Choose(sim.SW, len(keys))]]
		}
		for _, c := range e.Codepoints {
			if len(e.Characters) < 8 {
				e.Characters += string(rune(c))
			}
		}
		if r.Choose(sim.SW, 4) < 3 {
			k += ";"
		}
		m[k] = e
		keys = append(keys, k)
	}
	b, _ := json.Marshal(m)
	return b, func(out []byte) string {
		if _, err := goparser.ParseFile(token.NewFileSet(), "html_entity.go", out, 0); err != nil {
			return "the output is not valid Go: " + err.Error()
		}
		for _, k := range keys {
			if strings.HasSuffix(k, ";") && !bytes.Contains(out, []byte(`"`+k+`"`)) {
				return fmt.Sprintf("the output lacks %s", k)
			}
		}
		return ""
	}
}

const entURL = "https://html.spec.whatwg.org/entities.json"

func runC19(r *sim.Run, v *V) {
	f := sim.NewFS()
	f.PutDir("/w/walk")
	f.PutDir("/w/parser")
	f.PutFile("/usr/bin/gofmt", []byte("tool"))
	gofmtFails := false
	exec := func(n string, args []string, d string, in []byte) ([]byte, []byte, error) {
		if path.Base(n) != "gofmt" {
			return nil, nil, sim.ErrNoSuchCommand
		}
		if gofmtFails {
			r.Fired(sim.FExecFail)
			return nil, []byte("gofmt: killed"), errors.New("exit status 2")
		}
		p := args[len(args)-1]
		if !path.IsAbs(p) {
			p = path.Join(f.Cwd, p)
		}
		nd := f.Lookup(p)
		if nd == nil {
			return nil, []byte("no such file"), errors.New("exit status 2")
		}
		b, err := format.Source(nd.Content())
		if err != nil {
			return nil, []byte(err.Error()), errors.New("exit status 2")
		}
		f.PutFile(p, b)
		return nil, nil, nil
	}
	which := r.Choose(sim.SW, 5)
	var d *genDefs
	var dist, old string
	var args []string
	var reset, body func()
	var check func([]byte) string
	defDir := "/w/parser"
	netTable = map[string]*simURL{}
	switch which {
	case 4:
		f.Cwd = "/w/parser"
		dist = "/w/parser/html_entity.go"
		args = []string{"html_entity"}
		reset, body = hent.ZZReset, hent.Main
		var b []byte
		b, check = randEntities(r)
		netTable[entURL] = &simURL{status: 200, body: b, cut: -1, chunk: []int{0, 100, 1000}[r.Choose(sim.SW, 3)]}
		old = "package parser\n"
	default:
		d = randDefs(r)
		if realDefs != nil && r.Choose(sim.SW, 40) == 39 {
			d = realDefs
		}
		if which == 3 {
			f.Cwd = "/w/parser"
			dist = "/w/parser/nodetype_string.go"
			args = []string{"nodetype_gen", "-d=../parser"}
			reset, body = ntgen.ZZReset, ntgen.Main
			check = d.checkStrings
			old = "package parser\n"
		} else {
			f.Cwd = "/w/walk"
			dist = "/w/walk/visitor.go"
			args = []string{"visitor_gen", "-d=../parser"}
			reset, body = vgen.ZZReset, vgen.Main
			check = d.checkVisitors
			old = strings.Repeat("// old content\n", r.Choose(sim.SW, 3)*2000) + "package walk\n"
		}
	}
	desc := args[0]
	if d != nil {
		desc += fmt.Sprintf(" (%d files, types %v)", len(d.files), d.types)
		if len(d.types) > 20 {
			desc = args[0] + " (the definitions of the repository)"
		}
	}
	run := func() (*sim.World, int, []byte) {
		w, code := startProc(f, args, exec, 8_000_000, reset, body)
		var b []byte
		if n := f.Lookup(dist); n != nil && !n.Dir {
			b = n.Content()
		}
		return w, code, b
	}
	lay := func(order int) {
		f.Delete(dist)
		if d != nil {
			d.put(f, defDir, order)
		}
		f.PutFile(dist, []byte(old))
		f.ResetPlan()
		for i := range f.Kinds {
			f.Kinds[i] = false
		}
	}
	lay(0)
	w, code, ref := run()
	v.H("%s: %s, status %d, %d bytes", desc, w.Outcome, code, len(ref))
	v.outcome = w.Outcome.String()
	v.sample = desc
	v.nt = d == nil || len(d.types) > 1
	r.NoteString(string(ref))
	defer func() { v.sample = strings.Join(v.hist.All(), "; ") }()
	if code != 0 || w.Outcome == sim.Deadlock || w.Outcome == sim.StepLimit {
		v.Fail("spurious-failure", "%s ended with status %d (%s) although nothing was wrong: %.300s", desc, code, w.Outcome, w.Stderr.String())
		return
	}
	if m := check(ref); m != "" {
		v.Fail("incomplete", "%s: %s", desc, m)
		return
	}
	for k := 1 + r.Choose(sim.SW, 2); k > 0; k-- {
		lay(1)
		if r.Choose(sim.SW, 2) == 1 {
			f.PutFile(dist, ref) // again over its own output
		}
		elsewhere(r) // another machine on another day
		w, code, out := run()
		if code != 0 || !bytes.Equal(out, ref) {
			v.Fail("not-reproducible", "%s: the second run (status %d) writes something else: %s", desc, code, diffAt(string(ref), string(out)))
			return
		}
		_ = w
	}
	// now with something going wrong
	lay(r.Choose(sim.SW, 2))
	faults0 := r.Faults
	bad := ""
	mode := r.Choose(sim.SW, 8)
	switch mode {
	case 0, 1, 2:
		ioFaults(r, f, sim.FReadErr, sim.FShortRead, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr)
	case 3:
		f.CrashAt = f.Ops() + 1 + r.Choose(sim.SF, 16)
	case 4:
		gofmtFails = true
	case 5:
		// the definitions cannot be read
		if d == nil {
			u := netTable[entURL]
			switch r.Choose(sim.SF, 5) {
			case 0:
				u.refuse = true
			case 1:
				u.status = []int{404, 500, 503, 403}[r.Choose(sim.SF, 4)]
			case 2:
				u.cut = r.Choose(sim.SF, len(u.body))
				u.reset = true
			case 3:
				u.cut = r.Choose(sim.SF, len(u.body))
			case 4:
				u.body = []byte("<html>not found</html>")
			}
			bad = "the entities could not be fetched"
		} else {
			switch r.Choose(sim.SF, 3) {
			case 0:
				for n := range d.files {
					f.Delete(path.Join(defDir, n))
				}
				f.Delete(defDir)
				if which == 3 {
					f.PutDir(defDir)
					f.PutFile(dist, []byte(old))
					f.PutFile("/w/parser/bad.go", []byte("pack"))
				}
				bad = "the definition directory is missing"
			case 1:
				f.PutFile("/w/parser/bad.go", []byte("package parser\nfunc {"))
				bad = "a definition file has a syntax error"
			case 2:
				f.PutFile("/w/parser/bad.go", []byte("package parser\n\nconst (\n\tN_X // #[visitor(]\n)\n"))
				bad = "a macro is malformed"
			}
		}
	case 6:
		// the output cannot be written
		f.Delete(dist)
		f.PutDir(dist)
		bad = "the output is a directory"
	case 7:
		// the output is written through a link
		f.Delete(dist)
		f.PutFile("/w/real.go", []byte(old))
		f.PutLink(dist, "/w/real.go")
	}
	w, code, out := run()
	hard := 0
	for _, k := range []sim.FaultKind{sim.FReadErr, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FExecFail} {
		hard += int(r.Faults[k] - faults0[k])
	}
	v.nt = v.nt || hard > 0 || bad != "" || w.Outcome == sim.Crashed
	se := w.Stderr.String()
	v.H("mode %d (%s, %d faults): %s, status %d, stderr %.100q", mode, bad, hard, w.Outcome, code, se)
	r.NoteString(fmt.Sprint(code, len(se) > 0))
	switch {
	case w.Outcome == sim.Deadlock || w.Outcome == sim.StepLimit:
		v.Fail("hang", "%s never ended (mode %d)", desc, mode)
		return
	case w.Outcome == sim.Crashed:
	case code == 0:
		if bad != "" {
			v.Fail("failure-not-reported", "%s: %s, but the exit status is 0", desc, bad)
			return
		}
		if !bytes.Equal(out, ref) {
			v.Fail("failure-not-reported", "%s: the exit status is 0 after %d faults, but the output is not what it writes without: %s", desc, hard, diffAt(string(ref), string(out)))
			return
		}
	default:
		if strings.TrimSpace(se) == "" {
			v.Fail("silent-failure", "%s: exit status %d without anything on standard error", desc, code)
			return
		}
		if hard == 0 && bad == "" {
			v.Fail("spurious-failure", "%s failed with status %d although nothing was wrong: %.300s", desc, code, se)
			return
		}
	}
	// and again once the trouble is over
	gofmtFails = false
	f.Delete("/w/parser/bad.go")
	if d == nil {
		u := netTable[entURL]
		u.refuse, u.status, u.cut = false, 200, -1
		if mode == 5 {
			return
		}
	}
	torn := f.Lookup(dist)
	var tornB []byte
	if torn != nil && !torn.Dir {
		tornB = torn.Content()
	}
	lay(0)
	if tornB != nil && which != 3 {
		f.PutFile(dist, tornB) // whatever the interrupted run left
	}
	if _, code, out = run(); code != 0 || !bytes.Equal(out, ref) {
		v.Fail("no-recovery", "%s: after the faults (mode %d) a run ends with status %d and writes something else: %s", desc, mode, code, diffAt(string(ref), string(out)))
	}
}
