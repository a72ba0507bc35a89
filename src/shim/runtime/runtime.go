// Package runtime: scheduling calls go to the simulator.
package runtime

import "github.com/hsiaosiyuan0/mole/zzsim/sim"

func Gosched()           { sim.Gosched() }
func NumGoroutine() int  { return sim.NumTasks() }
func GC()                {}
func GOMAXPROCS(int) int { return 1 + sim.EnvNum("cpu", 7, 64) }
func NumCPU() int        { return 1 + sim.EnvNum("cpu", 7, 64) }
func LockOSThread()      {}
func UnlockOSThread()    {}
