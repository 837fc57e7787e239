// Added to package runtime by the simulator's overlay (never part of the
// shipped program).  It gives the simulator: a label on goroutines that belong
// to a simulated process (inherited by the goroutines they start), a park/ready
// pair that carries no happens-before edge, quiescence detection, a virtual
// clock, and seeded randomness (map iteration, select, temp names).
package runtime

import "unsafe"

var simOn bool
var simClock int64  // virtual nanoseconds; nanotime() while simOn
var simOffset int64 // keeps nanotime() continuous while the simulation is off
var simRunStart int64
var simSkew int64 // how far the wall clock of the simulated machine is off
var simSeed uint64
var simEpoch uint64
var simCounter uint64

type simParked struct {
	gp  *g
	op  unsafe.Pointer
	lab unsafe.Pointer
}

var simPend []simParked

const simWallBase = 1700000000 * 1000000000

//go:nosplit
func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simActive() bool {
	return simOn && getg().labels != nil
}

// simRand is the value every map/temp-name draw sees between two seam
// operations: a pure function of the run's seed and the number of operations
// granted so far, so it does not depend on lazily initialised caches.
//
//go:nosplit
func simRand() uint64 {
	return simMix(simSeed ^ simMix(simEpoch))
}

// simRandCounter backs math/rand, which needs a fresh value per draw.
//
//go:linkname simRandCounter
func simRandCounter() uint64 {
	if simActive() {
		simCounter++
		return simMix(simSeed ^ simMix(simEpoch) ^ simMix(simCounter*0x51ed27))
	}
	return rand()
}

//go:nosplit
func simSelectN(n uint32, norder int) uint32 {
	if simActive() {
		v := uint32(simMix(simRand() ^ uint64(norder)))
		return uint32((uint64(v) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// A label points at a word that becomes non-zero when the process is dead.
//
//go:nosplit
func SimDead() bool {
	l := getg().labels
	return l != nil && *(*uint32)(l) != 0
}

// SimPanic is told about a panic nobody recovered in a simulated process.
var SimPanic func(lab unsafe.Pointer, v any, stack string)

// simUncaught is called instead of dying; it does not return while simulating.
func simUncaught(p *_panic) {
	if !simActive() || SimPanic == nil {
		return
	}
	buf := make([]byte, 8192)
	n := Stack(buf, false)
	SimPanic(getg().labels, p.arg, string(buf[:n]))
	SimParkForever()
}

func SimActive() bool { return simActive() }

// SimPid is the second word of what the goroutine's label points to.
func SimPid() int {
	if l := getg().labels; l != nil {
		return int(*(*uint32)(add(l, 4)))
	}
	return 1
}

func SimLabel() unsafe.Pointer { return getg().labels }

func SimSetLabel(p unsafe.Pointer) { getg().labels = p }

//go:nosplit
func simNanotime() int64 {
	if simOn {
		return simClock
	}
	return nanotime1() + simOffset
}

// simWall is the wall clock a simulated process sees.
func simWall() (sec int64, nsec int32, mono int64) {
	w := simWallBase + simClock - simRunStart + simSkew
	return w / 1000000000, int32(w % 1000000000), simClock
}

// SimStart switches the virtual clock and seeded randomness on.
func SimStart(seed uint64) {
	simSeed = seed
	simEpoch = 0
	simCounter = 0
	simClock = simNanotime() + 1
	simRunStart = simClock
	simSkew = 0
	simOn = true
}

func SimStop() {
	simOffset = simClock - nanotime1()
	simOn = false
}

// SimNow is the virtual time since the run began.
func SimNow() int64 { return simClock - simRunStart }

func SimSetNow(t int64) { simClock = simRunStart + t }

// SimSetSkew sets the wall clock of the simulated machine off by ns.
func SimSetSkew(ns int64) { simSkew = ns }

func SimTick() { simEpoch++ }

func SimRealNano() int64 { return nanotime1() }

// SimPark hands op to the simulator and blocks until SimReady.
func SimPark(op unsafe.Pointer) {
	gp := getg()
	// (no append or copy: the race detector would watch them)
	n := len(simPend)
	if n == cap(simPend) {
		l := make([]simParked, n, 2*n+64)
		for i := range simPend {
			l[i] = simPend[i]
		}
		simPend = l
	}
	simPend = simPend[:n+1]
	simPend[n] = simParked{gp, op, gp.labels}
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

// SimParkForever blocks the goroutine for good (a killed simulated process).
func SimParkForever() {
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

func SimPendingLen() int { return len(simPend) }

func SimPendingAt(i int) (op, lab unsafe.Pointer) {
	return simPend[i].op, simPend[i].lab
}

// SimReady makes the i-th parked goroutine runnable and forgets it.
func SimReady(i int) {
	gp := simPend[i].gp
	SimDrop(i)
	goready(gp, 1)
}

// SimDrop forgets the i-th parked goroutine without waking it.
func SimDrop(i int) {
	for ; i+1 < len(simPend); i++ {
		simPend[i] = simPend[i+1]
	}
	simPend[len(simPend)-1] = simParked{}
	simPend = simPend[:len(simPend)-1]
}

// SimIdle reports whether the caller is the only runnable goroutine.
func SimIdle() bool {
	pp := getg().m.p.ptr()
	return runqempty(pp) && sched.runqsize == 0
}

// SimNextTimer returns when the earliest timer fires, as SimNow counts (-1: none).
func SimNextTimer() int64 {
	pp := getg().m.p.ptr()
	w := pp.timers.wakeTime()
	if w == 0 {
		return -1
	}
	return w - simRunStart
}

// SimInitPkgs lists the packages that have initialisation functions, in the
// order they run; SimRunInit runs those of one of them again.
func SimInitPkgs() []string {
	var out []string
	for _, t := range firstmoduledata.inittasks {
		firstFunc := add(unsafe.Pointer(t), 8)
		f := *(*func())(unsafe.Pointer(&firstFunc))
		out = append(out, funcpkgpath(findfunc(**(**uintptr)(unsafe.Pointer(&f)))))
	}
	return out
}

func SimRunInit(k int) {
	t := firstmoduledata.inittasks[k]
	firstFunc := add(unsafe.Pointer(t), 8)
	for i := uint32(0); i < t.nfns; i++ {
		p := add(firstFunc, uintptr(i)*8)
		f := *(*func())(unsafe.Pointer(&p))
		f()
	}
}
