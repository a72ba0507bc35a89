//go:build !race

package sim

import "unsafe"

const RaceOn = false

func raceDisable()                  {}
func raceEnable()                   {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func RaceRead(p unsafe.Pointer)     {}
func RaceWrite(p unsafe.Pointer)    {}
func RaceErrors() int               { return 0 }

func SyncOff() {}
func SyncOn()  {}
