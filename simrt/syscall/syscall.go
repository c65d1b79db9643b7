// Package syscall is the real one for constants, errors and types; locking and syncing a simulated file succeeds.
package syscall

import (
	"syscall"

	"verif.local/simrt"
)

func Flock(fd, how int) error        { return nil }
func Fsync(fd int) error             { return nil }
func Fdatasync(fd int) error         { return nil }
func Sync()                          {}
func Kill(int, syscall.Signal) error { return nil }
func Exit(code int)                  { simrt.ExitNow(code, "syscall.Exit") }
