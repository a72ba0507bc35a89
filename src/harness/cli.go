package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"path"
	"reflect"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
	cli "github.com/hsiaosiyuan0/mole/zzmain/cli"
	simos "github.com/hsiaosiyuan0/mole/zzsim/shim/os"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
	simflag "github.com/hsiaosiyuan0/mole/zzstd/flag"
)

func init() {
	scenarios["C13"] = &Scenario{run: runC13, setup: func() {
		for i := range corpus {
			if len(corpus[i].src) < 4000 {
				if _, err := refAST(corpus[i].src); err == nil {
					cliValid = append(cliValid, i)
				}
			}
		}
	},
		real: []string{"cli (main, flag handling, AST printing)", "ecma/parser", "ecma/estree", "flag (instrumented copy)", "encoding/json"},
		stub: []string{"file system (in memory, with faults)", "process start, exit and crash", "os/exec (pbcopy stand-in)", "runtime/pprof (stand-in bytes)", "clock"},
		rule: "A run executes the CLI as one to three simulated processes on a simulated file system: sources from the corpus (valid and invalid), file name shapes, flag combinations, existing output, unreadable or missing inputs, unwritable outputs, read/short-read/write/ENOSPC/close/open faults at any call, kill at any call, a clipboard tool that is absent, works or fails. Exit status, standard output and error, and the files are checked after each process. Non-trivial: a fault was injected, the input was not processable, or the process was killed."}
}

// startProc runs the body of a main package as a process of the simulated machine.
func startProc(f *sim.FS, args []string, exec func(string, []string, string, []byte) ([]byte, []byte, error), limit uint64, reset, body func()) (w *sim.World, code int) {
	w = sim.Start(sim.Config{Process: true, FS: f, Args: args, Exec: exec, Limit: limit}, func() {
		simos.ZZStart(args)
		simflag.CommandLine = simflag.NewFlagSet(args[0], simflag.ExitOnError)
		simflag.CommandLine.Usage = func() { simflag.Usage() }
		reset()
		body()
	})
	switch w.Outcome {
	case sim.Completed:
		code = 0
	case sim.Exited:
		code = w.ExitCode
	case sim.Panicked:
		code = 2
		w.Stderr.Write([]byte("panic: " + w.PanicVal + "\n"))
	default:
		code = -1
	}
	return
}

// alone runs f as the only task of a world of its own; it reports how that ended.
func alone(limit uint64, f func()) *sim.World {
	r := sim.R
	steps, sw, st, tasks, worlds := r.Steps, r.Switches, r.SimTime, r.Tasks, r.Worlds
	w := sim.Start(sim.Config{Limit: limit}, f)
	r.Steps, r.Switches, r.SimTime, r.Tasks, r.Worlds = steps, sw, st, tasks, worlds
	return w
}

const refLimit = 1_500_000

var errHang = errors.New("the parser does not come to an end")

// refAST is what the CLI should produce for a source.
func refAST(src string) (out []byte, err error) {
	w := alone(refLimit+uint64(len(src))*2000, func() { out, err = refAST1(src) })
	switch w.Outcome {
	case sim.Panicked:
		return nil, fmt.Errorf("panic: %v", w.PanicVal)
	case sim.StepLimit:
		return nil, errHang
	}
	return
}

func refAST1(src string) (out []byte, err error) {
	p := parser.NewParser(span.NewSource("", src), parser.NewParserOpts())
	ast, err := p.Prog()
	if err != nil {
		return nil, err
	}
	ctx := estree.NewConvertCtx(p)
	ctx.LineCol = false
	return json.Marshal(estree.ConvertProg(ast.(*parser.Prog), ctx))
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

var cliValid []int // programs the CLI accepts

var damage = []string{"{", "}", "(", ")", "[", "]", "<", ">", ";", ",", ".", ":", "?", "=", "/", "&", "@", "#", "`", "'", "\"", "\\", "\n", "=>", "...", "${", "/*", "*/", "//", "<!--", "-->", "<>", "</", "/>", "\x00", "\xff", "\u2028", "\\u{", "async ", "await ", "yield ", "class ", "enum ", "import ", "export ", "0x", "1n", "&lt;", "<a>"}

func pickSource(r *sim.Run) string {
	switch r.Choose(sim.SW, 9) {
	case 7:
		return []string{"", "a = ", "\xff\xfe", "let a; let a", "(", "return", "/*", "`${", "a\u2028b", "x\r\ny"}[r.Choose(sim.SW, 10)]
	case 8:
		if len(cliValid) > 0 && r.Choose(sim.SW, 2) == 1 {
			// a valid one, sometimes of more than 64 KB
			one := corpus[cliValid[r.Choose(sim.SW, len(cliValid))]].src
			sep := []string{"\n", "\r\n", " ", "\u2028"}[r.Choose(sim.SW, 4)]
			b := "{" + one + "\n}" + sep
			if _, err := refAST(b); err != nil {
				b = []string{"a = 1;", "f('x', `y${z}`);", "/* c */ var é = /r/g;", "if (a) { b() } else c;"}[r.Choose(sim.SW, 4)] + sep
			}
			n := 2 + r.Choose(sim.SW, 6)
			if r.Choose(sim.SW, 12) == 11 {
				n = 1 + (65536+r.Choose(sim.SW, 9000))/len(b)
				r.Probe("big_source")
			}
			return strings.Repeat(b, n)
		}
		// a larger program
		var b strings.Builder
		for i := 2 + r.Choose(sim.SW, 20); i > 0; i-- {
			b.WriteString("{" + corpus[r.Choose(sim.SW, len(corpus))].src + "\n}\n")
		}
		return b.String()
	}
	if r.Choose(sim.SW, 4) > 0 && len(cliValid) > 0 {
		s := corpus[cliValid[r.Choose(sim.SW, len(cliValid))]].src
		if r.Choose(sim.SW, 4) == 3 {
			// damaged: something inserted, left out or cut off, or the rest of another one
			i := r.Choose(sim.SW, len(s)+1)
			switch r.Choose(sim.SW, 4) {
			case 0:
				s = s[:i] + damage[r.Choose(sim.SW, len(damage))] + s[i:]
			case 1:
				j := i + 1 + r.Choose(sim.SW, 3)
				if j > len(s) {
					j = len(s)
				}
				s = s[:i] + s[j:]
			case 2:
				s = s[:i]
			case 3:
				o := corpus[r.Choose(sim.SW, len(corpus))].src
				s = s[:i] + o[r.Choose(sim.SW, len(o)+1):]
			}
		}
		return s
	}
	for i := 0; i < 5; i++ {
		c := corpus[r.Choose(sim.SW, len(corpus))]
		if len(c.src) < 4000 {
			return c.src
		}
	}
	return "a"
}

func runC13(r *sim.Run, v *V) {
	f := sim.NewFS()
	f.PutDir("/w")
	f.PutDir("/w/sub")
	f.PutDir("/o")
	f.Cwd = "/w"
	names := []string{"a.js", "a", "a.b.ts", ".js", "x_ast.js", "sub/b.tsx", "/o/c.js", "./d.js", "../o/e.mjs", "a b.js", "q';touch z;'.js", "é.jsx", "sub/../f.js", "a.", "cpu.js", "$(x).js", "js.js.js"}
	name := names[r.Choose(sim.SW, len(names))]
	abs := path.Clean(name)
	if !path.IsAbs(name) {
		abs = path.Clean("/w/" + name)
	}
	dir, base := path.Split(abs)
	ext := path.Ext(base)
	defOut := path.Join(dir, base[:len(base)-len(ext)]+"_ast"+ext)
	// clipboard tool
	clipMode := r.Choose(sim.SW, 4)
	var clip []byte
	if clipMode >= 2 {
		f.PutFile("/usr/bin/pbcopy", []byte("tool"))
	}
	exec := func(n string, args []string, d string, in []byte) ([]byte, []byte, error) {
		if (path.Base(n) == "bash" || path.Base(n) == "sh") && len(args) == 2 && args[0] == "-c" {
			k := strings.Split(args[1], " < ")
			if len(k) != 2 || strings.ContainsAny(k[1], " ;$'\"`&|()") {
				return nil, []byte("syntax error"), errors.New("exit status 2")
			}
			fp := k[1]
			if !path.IsAbs(fp) {
				fp = path.Join("/w", fp)
			}
			nd := f.Lookup(fp)
			if nd == nil {
				return nil, nil, errors.New("exit status 1")
			}
			n, in = k[0], nd.Content()
		}
		if path.Base(n) != "pbcopy" {
			return nil, nil, sim.ErrNoSuchCommand
		}
		if clipMode == 3 {
			r.Fired(sim.FExecFail)
			clip = append([]byte{}, in[:len(in)/2]...)
			return nil, []byte("pbcopy: failed"), errors.New("exit status 1")
		}
		clip = append([]byte{}, in...)
		return nil, nil, nil
	}
	for k := 1 + r.Choose(sim.SW, 2); k > 0 && !v.Failed(); k-- {
		if r.Choose(sim.SW, 3) == 2 {
			elsewhere(r)
		}
		cliProcess(r, v, f, name, abs, defOut, clipMode, &clip, exec)
	}
	v.sample = strings.Join(v.hist.All(), "; ")
	noteTree(r, f)
}

func cliProcess(r *sim.Run, v *V, f *sim.FS, name, abs, defOut string, clipMode int, clip *[]byte, exec func(string, []string, string, []byte) ([]byte, []byte, error)) {
	src := pickSource(r)
	*clip = nil
	f.Delete(abs)
	f.Delete(defOut)
	inState := r.Choose(sim.SW, 12)
	missing, unwritable := false, false
	switch inState {
	case 10:
		missing = true
		if r.Choose(sim.SW, 2) == 0 {
			f.PutDir(abs)
		}
	case 11:
		f.PutFile(abs, []byte(src))
		unwritable = true
		f.PutDir(defOut)
	case 9:
		f.PutFile(abs, []byte(src))
		f.PutFile(defOut, bytes.Repeat([]byte("old result "), 3000))
	default:
		f.PutFile(abs, []byte(src))
	}
	mayFail := false
	f.User = r.Choose(sim.SW, 6) == 5
	dn := f.Lookup(path.Dir(abs))
	dn.Mode = 0755
	f.Lookup("/w").Mode = 0755
	if nd := f.Lookup(abs); f.User && !missing && !unwritable && nd != nil {
		// an unprivileged user, for whom something may be out of reach
		switch r.Choose(sim.SW, 5) {
		case 0:
			nd.Mode = 0
			missing = true
		case 1:
			nd.Mode = 0444
		case 2:
			f.PutFile(defOut, []byte("protected")).Mode = 0444
			unwritable = true
		case 3:
			dn.Mode = 0555
			mayFail = true // the profiles may have to go there, too
			unwritable = f.Lookup(defOut) == nil
		case 4:
			dn.Mode = 0600
			missing = true
		}
	}
	args := []string{"mole"}
	astMode, perf := true, false
	noFile := false
	badFlag := false
	switch r.Choose(sim.SW, 10) {
	case 7:
		args = append(args, "-ast=true", "-file="+name)
	case 8:
		args = append(args, "--file", name, "--ast")
	case 9:
		switch r.Choose(sim.SW, 4) {
		case 0: // no mode
			astMode = false
			args = append(args, "-file", name)
		case 1:
			args = append(args, "-ast")
			noFile = true
		case 2:
			args = append(args, "-nonsense", "-ast", "-file", name)
			badFlag = true
		case 3:
			args = append(args, "-ast=false", "-file", name)
			astMode = false
		}
	default:
		args = append(args, "-ast", "-file", name)
	}
	if r.Choose(sim.SW, 3) == 2 {
		args = append(args, "-perf")
		perf = true
	}
	if r.Choose(sim.SW, 6) == 5 {
		args = append(args, "-out", "res.json", "-dir", "/w", "-cfg", "c.json")
	}
	var faults0 [64]int64
	for i := range r.Faults {
		faults0[i] = int64(r.Faults[i])
	}
	f.ResetPlan()
	for i := range f.Kinds {
		f.Kinds[i] = false
	}
	mode := r.Choose(sim.SW, 4)
	switch mode {
	case 2:
		ioFaults(r, f, sim.FReadErr, sim.FShortRead, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr)
	case 3:
		f.CrashAt = f.Ops() + 1 + r.Choose(sim.SF, 16)
	}
	want, refErr := refAST(src)
	if refErr == errHang {
		v.Fail("hang", "the parser, and with it the process, never comes to an end for the source %.2000q", src)
		return
	}
	before := f.Lookup(abs)
	var beforeData []byte
	if before != nil && !before.Dir {
		beforeData = before.Content()
	}
	w, code := startProc(f, args, exec, 8_000_000+uint64(len(src))*5000, cli.ZZReset, cli.Main)
	v.outcome = w.Outcome.String()
	so, se := w.Stdout.String(), w.Stderr.String()
	hard := 0
	for _, k := range []sim.FaultKind{sim.FReadErr, sim.FWriteErr, sim.FNoSpace, sim.FCloseErr, sim.FOpenErr, sim.FMkdirErr} {
		hard += int(int64(r.Faults[k]) - faults0[k])
	}
	desc := fmt.Sprintf("%q (source %.80q, fault mode %d, %d faults, clipboard %d) => %s, status %d, stdout %.120q, stderr %.120q", args, src, mode, hard, clipMode, w.Outcome, code, so, se)
	v.H("%s", desc)
	r.NoteString(fmt.Sprint(code, strings.Contains(so, "saved"), len(se) > 0))
	v.nt = v.nt || hard > 0 || w.Outcome == sim.Crashed || missing || unwritable || refErr != nil
	if w.Outcome == sim.Deadlock || w.Outcome == sim.StepLimit {
		v.Fail("hang", "the process never ended: %s", desc)
		return
	}
	// the input is untouched
	after := f.Lookup(abs)
	switch {
	case before == nil:
		if after != nil {
			v.Fail("input-created", "the missing input file was created: %s", desc)
			return
		}
	case after == nil:
		v.Fail("input-removed", "the input file was removed: %s", desc)
		return
	case !before.Dir && !bytes.Equal(beforeData, after.Content()):
		v.Fail("input-modified", "the input file was modified: %s", desc)
		return
	}
	// claims
	complete := func(p string) bool {
		n := f.Lookup(p)
		return n != nil && !n.Dir && refErr == nil && sameJSON(n.Content(), want)
	}
	claimed := false
	for _, l := range strings.Split(so, "\n") {
		if i := strings.Index(l, "saved in: "); i >= 0 {
			claimed = true
			p := l[i+len("saved in: "):]
			if !path.IsAbs(p) {
				p = path.Join("/w", p)
			}
			if path.Dir(p) != path.Dir(abs) {
				v.Fail("wrong-place", "the result is not next to the input: %s", desc)
				return
			}
			if !complete(p) {
				v.Fail("false-claim", "the result is claimed to be saved in %s but that file does not hold it: %s", p, desc)
				return
			}
		}
		if strings.Contains(l, "saved in clipboard") {
			if refErr != nil || !sameJSON(*clip, want) {
				v.Fail("false-clipboard-claim", "the result is claimed to be in the clipboard, which holds %.60q: %s", *clip, desc)
				return
			}
		}
	}
	if w.Outcome == sim.Crashed {
		return
	}
	if !astMode {
		return
	}
	bad := missing || noFile || badFlag || refErr != nil || unwritable
	if code == 0 {
		switch {
		case bad:
			v.Fail("failure-not-reported", "the input or output was not usable (missing %v, no file given %v, bad flag %v, parse error %v, unwritable %v) but the exit status is 0: %s", missing, noFile, badFlag, refErr, unwritable, desc)
		case !complete(defOut) && !claimed:
			v.Fail("no-result", "exit status 0 but %s does not hold the result: %s", defOut, desc)
		}
		return
	}
	if strings.TrimSpace(se) == "" {
		v.Fail("silent-failure", "exit status %d without anything on standard error: %s", code, desc)
		return
	}
	if refErr != nil && !missing && !noFile && !badFlag && !unwritable && !mayFail && hard == 0 && !strings.HasPrefix(refErr.Error(), "panic: ") && !strings.Contains(strings.ReplaceAll(se, "\n\t", "\n"), refErr.Error()) {
		v.Fail("wrong-report", "standard error does not tell the parse error %q: %s", refErr, desc)
		return
	}
	if !bad && hard == 0 && !mayFail {
		v.Fail("spurious-failure", "the CLI failed although nothing was wrong: %s", desc)
	}
	_ = perf
}
