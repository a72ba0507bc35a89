package sim

import "errors"

// Per-process state and machine services.

type Proc struct{ Cpu bool }

var noProc Proc

func ProcState() *Proc {
	if W == nil {
		return &noProc
	}
	return &W.proc
}

func StdoutWrite(s string) (int, error) {
	if W == nil || !Live() {
		return len(s), nil
	}
	Y(0)
	return W.Stdout.Write([]byte(s))
}

func StderrWrite(s string) (int, error) {
	if W == nil || !Live() {
		return len(s), nil
	}
	Y(0)
	return W.Stderr.Write([]byte(s))
}

func NumTasks() int {
	n := 0
	if W != nil {
		for i := 0; i < W.ntask; i++ {
			if W.tasks[i].state != tDone {
				n++
			}
		}
	}
	return n
}

var ErrNoSuchCommand = errors.New("no such command")

func ExecCmd(name string, args []string, dir string, in []byte) (out, errOut []byte, err error) {
	if W == nil || W.Exec == nil || !Live() {
		return nil, nil, ErrNoSuchCommand
	}
	Y(0)
	return W.Exec(name, args, dir, in)
}

func LookPath(f string) string {
	if W == nil || W.FS == nil {
		return ""
	}
	for _, d := range []string{"/usr/bin/", "/bin/"} {
		if W.FS.Lookup(d+f) != nil {
			return d + f
		}
	}
	return ""
}

func EvalSymlinks(p string) string {
	if W == nil || W.FS == nil {
		return ""
	}
	return W.FS.realPath(p)
}

func (f *FS) realPath(p string) string {
	_, _, n, err := f.walk(p, true)
	if err != nil || n == nil {
		return ""
	}
	res := ""
	f.each("", f.root, func(q string, m *Node) {
		if m == n {
			res = q
		}
	})
	return res
}

// GoTimer starts a task from a timer callback.
func GoTimer(name string, f func()) {
	w := W
	t := w.newTask(name, f)
	t.start(f)
	w.enq(t)
}

type ctxKey struct{}

// CtxKey is where a request carries its simulated context.
var CtxKey = ctxKey{}
