package runtime

// What needs no simulation: taken from the real package as it is.

import real "runtime"

type (
	BlockProfileRecord = real.BlockProfileRecord
	Cleanup            = real.Cleanup
	MemProfileRecord   = real.MemProfileRecord
	PanicNilError      = real.PanicNilError
	Pinner             = real.Pinner
	StackRecord        = real.StackRecord
	TypeAssertionError = real.TypeAssertionError
)

var (
	BlockProfile            = real.BlockProfile
	Breakpoint              = real.Breakpoint
	CPUProfile              = real.CPUProfile
	GOROOT                  = real.GOROOT
	GoroutineProfile        = real.GoroutineProfile
	MemProfile              = real.MemProfile
	MemProfileRate          = real.MemProfileRate
	MutexProfile            = real.MutexProfile
	NumCgoCall              = real.NumCgoCall
	ReadTrace               = real.ReadTrace
	SetBlockProfileRate     = real.SetBlockProfileRate
	SetCPUProfileRate       = real.SetCPUProfileRate
	SetCgoTraceback         = real.SetCgoTraceback
	SetDefaultGOMAXPROCS    = real.SetDefaultGOMAXPROCS
	SetMutexProfileFraction = real.SetMutexProfileFraction
	StartTrace              = real.StartTrace
	StopTrace               = real.StopTrace
	ThreadCreateProfile     = real.ThreadCreateProfile
)
