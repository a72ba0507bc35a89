// Package pprof: profiles are stand-in bytes written through the simulated file.
package pprof

import (
	"errors"
	"io"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

var cpu io.Writer
var cpuRun *sim.Run

func StartCPUProfile(w io.Writer) error {
	sim.Y(0)
	if cpu != nil && cpuRun == sim.R && sim.ProcState().Cpu {
		return errors.New("cpu profiling already in use")
	}
	cpu, cpuRun = w, sim.R
	sim.ProcState().Cpu = true
	return nil
}

func StopCPUProfile() {
	sim.Y(0)
	if cpu == nil || !sim.ProcState().Cpu {
		return
	}
	sim.ProcState().Cpu = false
	cpu.Write([]byte("simulated cpu profile"))
	cpu = nil
}

func WriteHeapProfile(w io.Writer) error {
	_, err := w.Write([]byte("simulated heap profile"))
	return err
}
