// Package exec: commands are handed to the simulated machine.
package exec

import (
	"bytes"
	"errors"
	"io"
	"os/exec"
	"strings"
	"time"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/context"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type Cmd struct {
	Path, Dir string
	Args, Env []string
	Stdin     io.Reader
	Stdout    io.Writer
	Stderr    io.Writer
	Err       error
	WaitDelay time.Duration
	Process   *struct{ Pid int }
	done      error
	started   bool
}

func LookPath(f string) (string, error) {
	sim.Y(0)
	if p := sim.LookPath(f); p != "" {
		return p, nil
	}
	return "", &exec.Error{Name: f, Err: exec.ErrNotFound}
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	var in []byte
	var inErr error
	if c.Stdin != nil {
		in, inErr = io.ReadAll(c.Stdin)
	}
	out, eo, err := sim.ExecCmd(c.Path, c.Args[1:], c.Dir, in)
	if c.Stdout != nil {
		c.Stdout.Write(out)
	}
	if c.Stderr != nil {
		c.Stderr.Write(eo)
	}
	if err == sim.ErrNoSuchCommand {
		return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	c.done = err
	if err == nil {
		c.done = inErr
	}
	return nil
}

func (c *Cmd) Wait() error { return c.done }

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
