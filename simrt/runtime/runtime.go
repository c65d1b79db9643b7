// Package runtime replaces the parts of runtime library code may use.
package runtime

import (
	"runtime"

	"verif.local/simrt"
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
	Frames   = runtime.Frames
	Frame    = runtime.Frame
	Func     = runtime.Func
)

func NumCPU() int {
	if simrt.S != nil {
		return simrt.S.Cfg.NumCPU
	}
	return 4
}
func GOMAXPROCS(n int) int { return NumCPU() }
func Gosched()             { simrt.Yield() }
func Goexit()              { simrt.Goexit() }
func NumGoroutine() int {
	if t := simrt.Cur(); t != nil {
		return t.Proc.Tasks()
	}
	return 1
}
func GC()                                       {}
func KeepAlive(any)                             {}
func SetFinalizer(obj, f any)                   {}
func ReadMemStats(m *MemStats)                  { *m = MemStats{} }
func Version() string                           { return runtime.Version() }
func Caller(n int) (uintptr, string, int, bool) { return 0, "sim.go", 0, true }
func Callers(n int, p []uintptr) int            { return 0 }
func CallersFrames(p []uintptr) *Frames         { return runtime.CallersFrames(p) }
func FuncForPC(p uintptr) *Func                 { return runtime.FuncForPC(p) }
func Stack(b []byte, all bool) int              { return 0 }
func LockOSThread()                             {}
func UnlockOSThread()                           {}

func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup { return Cleanup{} }
