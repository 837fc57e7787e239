package os

import (
	"runtime"
	"syscall"
)

// simExit ends the simulated process of the calling goroutine.
func simExit(code int) bool {
	if !runtime.SimActive() {
		return false
	}
	syscall.SimCall(&syscall.SimOp{Kind: syscall.SimOpExit, N: code})
	runtime.Goexit()
	return true
}
