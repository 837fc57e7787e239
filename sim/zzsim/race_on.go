//go:build race

package zzsim

import (
	"runtime"
	"unsafe"
)

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
