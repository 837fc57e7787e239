//go:build !race

package zzsim

import "unsafe"

const raceBuild = false

func raceErrors() int { return 0 }

func raceAcquire(unsafe.Pointer) {}
