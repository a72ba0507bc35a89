// Package log: output goes to the simulated process's standard error.
package log

import (
	"fmt"
	"io"
	"log"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return sim.StderrWrite(string(b)) }

var out io.Writer = stderr{}
var prefix string

func emit(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(out, prefix+s)
}

func Print(a ...interface{})            { emit(fmt.Sprint(a...)) }
func Println(a ...interface{})          { emit(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) { emit(fmt.Sprintf(f, a...)) }
func Fatal(a ...interface{})            { emit(fmt.Sprint(a...)); sim.Exit(1) }
func Fatalln(a ...interface{})          { emit(fmt.Sprintln(a...)); sim.Exit(1) }
func Fatalf(f string, a ...interface{}) { emit(fmt.Sprintf(f, a...)); sim.Exit(1) }
func Panic(a ...interface{})            { s := fmt.Sprint(a...); emit(s); panic(s) }
func Panicln(a ...interface{})          { s := fmt.Sprintln(a...); emit(s); panic(s) }
func Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); emit(s); panic(s) }
func SetOutput(w io.Writer)             { out = w }
func Writer() io.Writer                 { return out }
func SetPrefix(p string)                { prefix = p }
func Prefix() string                    { return prefix }
func SetFlags(int)                      {}
func Flags() int                        { return 0 }
func Default() *log.Logger              { return log.New(out, prefix, 0) }
