// Package fmt: standard output and input belong to the simulated process.
package fmt

import (
	"fmt"
	"io"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func Print(a ...interface{}) (int, error)            { return sim.StdoutWrite(fmt.Sprint(a...)) }
func Println(a ...interface{}) (int, error)          { return sim.StdoutWrite(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) (int, error) { return sim.StdoutWrite(fmt.Sprintf(f, a...)) }
func Scan(a ...interface{}) (int, error)             { return 0, io.EOF }
func Scanln(a ...interface{}) (int, error)           { return 0, io.EOF }
func Scanf(f string, a ...interface{}) (int, error)  { return 0, io.EOF }

// fmt keeps its printers in a sync.Pool, which under the race detector orders the
// goroutines that share one and so hides their races; those synchronisation events
// are ignored (fmt itself is built without race instrumentation).

func Sprint(a ...interface{}) string {
	sim.SyncOff()
	defer sim.SyncOn()
	return fmt.Sprint(a...)
}

func Sprintln(a ...interface{}) string {
	sim.SyncOff()
	defer sim.SyncOn()
	return fmt.Sprintln(a...)
}

func Sprintf(f string, a ...interface{}) string {
	sim.SyncOff()
	defer sim.SyncOn()
	return fmt.Sprintf(f, a...)
}

func Errorf(f string, a ...interface{}) error {
	sim.SyncOff()
	defer sim.SyncOn()
	return fmt.Errorf(f, a...)
}
