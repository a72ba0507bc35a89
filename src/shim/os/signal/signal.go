// Package signal: no signals are delivered.
package signal

import (
	"os"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/context"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

func Notify(c *sim.Chan[os.Signal], sig ...os.Signal) {}
func Stop(c *sim.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                         {}
func Ignored(sig os.Signal) bool                      { return false }
func Reset(sig ...os.Signal)                          {}

func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
