// Package signal replaces os/signal: no signal ever arrives in a simulation (a crash is a crash).
package signal

import (
	"context"
	"os"

	sctx "verif.local/simrt/context"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Ignored(os.Signal) bool                      { return false }
func Reset(sig ...os.Signal)                      {}
func NotifyContext(p context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return sctx.WithCancel(p)
}
