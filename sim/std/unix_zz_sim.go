package unix

import (
	"runtime"
	_ "unsafe"
)

func simOn() bool { return runtime.SimActive() }

//go:linkname simRandCounter runtime.simRandCounter
func simRandCounter() uint64
