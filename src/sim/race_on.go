//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

const RaceOn = true

func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceRead(p unsafe.Pointer)     { runtime.RaceRead(p) }
func RaceWrite(p unsafe.Pointer)    { runtime.RaceWrite(p) }
func RaceErrors() int               { return runtime.RaceErrors() }

// SyncOff makes the race detector ignore the synchronisation events of the current goroutine until SyncOn.
func SyncOff() { runtime.RaceDisable() }
func SyncOn()  { runtime.RaceEnable() }
