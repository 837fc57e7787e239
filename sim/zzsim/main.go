package zzsim

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

var curSim *Sim
var theRun RunFunc

// Main is called by the program's init when OSV_SIM is set.
func Main(run RunFunc) {
	theRun = run
	done := make(chan int)
	go func() { done <- realMain() }()
	os.Exit(<-done)
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func realMain() int {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	runtime.MemProfileRate = 0
	if err := initGlobals(); err != nil {
		die("globals: %v", err)
	}
	http.SimTransport = transport
	installPanicHook(func() *Sim { return curSim })
	a := os.Args[1:]
	if len(a) < 2 {
		die("usage: explore PROP SEED OFFSET STRIDE SECONDS DIR | one PROP SEED INDEX | replay FILE")
	}
	switch a[0] {
	case "explore":
		return explore(a[1:])
	case "one":
		return one(a[1:])
	case "replay":
		return replayFile(a[1])
	case "cats":
		fmt.Println(strings.Join(profByID(a[1]).cats, " "))
		return 0
	case "record":
		return record(a[1:])
	case "confirm":
		return confirm(a[1])
	}
	die("unknown mode %s", a[0])
	return 2
}

// runSeed derives the seed of the i-th run of a property.
func runSeed(prop string, seed, i uint64) uint64 {
	return mix64(mix64(seed) ^ hashStr(prop) ^ mix64(i*0x9e37))
}

func seededStreams(s uint64) *Streams {
	return &Streams{NewRandom(mix64(s ^ 0x11)), NewRandom(mix64(s ^ 0x22)), NewRandom(mix64(s ^ 0x33))}
}

func replayStreams(c [3][]int32) *Streams {
	return &Streams{NewReplay(c[0]), NewReplay(c[1]), NewReplay(c[2])}
}

// Outcome of a run.
type Outcome struct {
	Hash    uint64
	Viol    []Violation
	Choices [3][]int32
	Trace   []string
	Tags    []string
	Counts  map[string]int
	Steps   int
	Procs   int
	SimNs   int64
	Sched   int
	FaultN  int
	Out     string
}

// what the watchdog looks at: the run in progress, and a counter of executions
var (
	status   *os.File
	curIndex uint64
	ticks    int
)

func execute(prof *Profile, st *Streams, trace bool) *Outcome {
	if status != nil {
		ticks++
		status.WriteAt([]byte(fmt.Sprintf("%020d %020d\n", curIndex, ticks)), 0)
	}
	re := raceErrors()
	r := newRun(prof, theRun, st)
	r.traceOn = trace
	r.begin()
	prof.run(r)
	r.finish()
	o := &Outcome{Hash: r.hash, Choices: [3][]int32{st.W.out, st.S.out, st.F.out}, Trace: r.trace, Counts: r.counts,
		Steps: r.steps, Procs: r.nproc, SimNs: r.simNs, Sched: r.sched}
	for t := range r.tags {
		o.Tags = append(o.Tags, t)
	}
	sort.Strings(o.Tags)
	if raceErrors() > re {
		r.viol = append(r.viol, Violation{"race", "the race detector reported unsynchronised access to shared memory"})
	}
	for _, v := range r.viol {
		for _, c := range prof.cats {
			if v.Cat == c {
				o.Viol = append(o.Viol, v)
				break
			}
		}
	}
	sort.SliceStable(o.Viol, func(i, j int) bool {
		if o.Viol[i].Cat != o.Viol[j].Cat {
			return o.Viol[i].Cat < o.Viol[j].Cat
		}
		return o.Viol[i].Msg < o.Viol[j].Msg
	})
	for k, n := range o.Counts {
		if k != "ambiguous" {
			o.FaultN += n
		}
	}
	return o
}

// Replay is the replay file.
type Replay struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"seed"`
	Index     uint64     `json:"index"`
	BySeed    bool       `json:"by_seed,omitempty"`
	Race      bool       `json:"race_build,omitempty"`
	World     []int32    `json:"world_choices,omitempty"`
	Sched     []int32    `json:"schedule_choices,omitempty"`
	Faults    []int32    `json:"fault_choices,omitempty"`
	Hash      string     `json:"hash,omitempty"`
	Violation *Violation `json:"violation,omitempty"`
	All       []string   `json:"all_violations,omitempty"`
	Minimised string     `json:"minimised,omitempty"`
	Trace     []string   `json:"trace,omitempty"`
}

func (r *Replay) streams() *Streams {
	if r.BySeed {
		return seededStreams(runSeed(r.Property, r.Seed, r.Index))
	}
	return replayStreams([3][]int32{r.World, r.Sched, r.Faults})
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	return &r
}

func profByID(id string) *Profile {
	for i := range profiles {
		if profiles[i].id == id {
			return &profiles[i]
		}
	}
	die("no profile %s", id)
	return nil
}

// confirm: exit 3 if the replay file reproduces its violation exactly.
func confirm(path string) int {
	r := loadReplay(path)
	o := execute(profByID(r.Property), r.streams(), false)
	if len(o.Viol) == 0 {
		fmt.Println("no violation")
		return 0
	}
	h := strconv.FormatUint(o.Hash, 16)
	if r.Violation != nil {
		for i, v := range o.Viol {
			if v.Cat == r.Violation.Cat {
				o.Viol[0], o.Viol[i] = o.Viol[i], o.Viol[0]
			}
		}
	}
	if r.Hash != "" && (h != r.Hash || o.Viol[0].Cat != r.Violation.Cat) {
		fmt.Printf("different outcome: hash %s (want %s), %s\n", h, r.Hash, o.Viol[0].Msg)
		return 4
	}
	fmt.Println(o.Viol[0].Cat, o.Viol[0].Msg)
	return 3
}

func replayFile(path string) int {
	r := loadReplay(path)
	o := execute(profByID(r.Property), r.streams(), true)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	fmt.Printf("hash %x, %d steps\n", o.Hash, o.Steps)
	for _, v := range o.Viol {
		fmt.Printf("VIOLATED %s: %s\n", v.Cat, v.Msg)
	}
	if len(o.Viol) > 0 {
		return 1
	}
	return 0
}

func rawWrite(fd int, s string) {
	b := []byte(s)
	syscall.RawSyscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
}

// record runs one seed and writes every choice to a file as it is made, for runs
// that do not come back.
func record(a []string) int {
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	idx, _ := strconv.ParseUint(a[2], 10, 64)
	f, err := os.Create(a[3])
	if err != nil {
		die("%v", err)
	}
	st := seededStreams(runSeed(a[0], seed, idx))
	fd := int(f.Fd())
	for k, c := range []*Choices{st.W, st.S, st.F} {
		c.rec = func(v int32) { rawWrite(fd, fmt.Sprintf("%d %d\n", k, v)) }
	}
	execute(profByID(a[0]), st, false)
	return 0
}

func one(a []string) int {
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	idx, _ := strconv.ParseUint(a[2], 10, 64)
	tr := len(a) > 3
	o := execute(profByID(a[0]), seededStreams(runSeed(a[0], seed, idx)), tr)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	fmt.Printf("hash %x steps %d procs %d tags %v counts %v choices %d %d %d\n", o.Hash, o.Steps, o.Procs, o.Tags, o.Counts, len(o.Choices[0]), len(o.Choices[1]), len(o.Choices[2]))
	for _, v := range o.Viol {
		fmt.Printf("VIOLATED %s: %s\n", v.Cat, v.Msg)
	}
	if len(o.Viol) > 0 {
		return 1
	}
	return 0
}

// Stats of a worker.
type Stats struct {
	Runs        int            `json:"runs"`
	Nontrivial  int            `json:"nontrivial"`
	Procs       int            `json:"processes"`
	Steps       int            `json:"steps"`
	SimSeconds  float64        `json:"sim_seconds"`
	Sched       int            `json:"schedule_decisions"`
	Counts      map[string]int `json:"faults"`
	Tags        map[string]int `json:"tags"`
	Rechecked   int            `json:"reruns"`
	Nondet      int            `json:"reruns_differing"`
	NondetAt    []int64        `json:"differing_at,omitempty"`
	Samples     []string       `json:"samples"`
	Seconds     float64        `json:"seconds"`
	Found       bool           `json:"found"`
	ShrinkTries int            `json:"shrink_tries"`
	PeakMB      int            `json:"peak_mb"`
}

func seconds() float64 { return float64(runtime.SimRealNano()) / 1e9 }

func explore(a []string) int {
	prof := profByID(a[0])
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	off, _ := strconv.ParseUint(a[2], 10, 64)
	stride, _ := strconv.ParseUint(a[3], 10, 64)
	secs, _ := strconv.ParseFloat(a[4], 64)
	dir := a[5]
	maxRuns := 0
	if len(a) > 6 {
		maxRuns, _ = strconv.Atoi(a[6])
	}
	st := &Stats{Counts: map[string]int{}, Tags: map[string]int{}}
	var err error
	status, err = os.Create(dir + "/status")
	if err != nil {
		die("%v", err)
	}
	hf, err := os.Create(dir + "/hashes")
	if err != nil {
		die("%v", err)
	}
	seen := map[uint64]bool{}
	var hb []byte
	start := seconds()
	var found *Replay
	for i := off; ; i += stride {
		if seconds()-start > secs || maxRuns > 0 && st.Runs >= maxRuns {
			break
		}
		curIndex = i
		o := execute(prof, seededStreams(runSeed(prof.id, seed, i)), false)
		st.Runs++
		st.Procs += o.Procs
		st.Steps += o.Steps
		st.Sched += o.Sched
		st.SimSeconds += float64(o.SimNs) / 1e9
		for k, n := range o.Counts {
			st.Counts[k] += n
		}
		for _, t := range o.Tags {
			st.Tags[t]++
		}
		if (len(o.Tags) > 0 || o.FaultN > 0) && o.Sched+o.FaultN > 0 {
			st.Nontrivial++
			if !seen[o.Hash] && len(seen) < 2000000 {
				seen[o.Hash] = true
				hb = binary.LittleEndian.AppendUint64(hb, o.Hash)
			}
		}
		if len(st.Samples) < 2 && o.FaultN > 0 || len(st.Samples) == 0 && st.Runs > 20 {
			st.Samples = append(st.Samples, fmt.Sprintf("seed %d run %d: hash %x, %d steps, %d processes, tags %s, injected %v", seed, i, o.Hash, o.Steps, o.Procs, strings.Join(o.Tags, ","), o.Counts))
		}
		if st.Runs%64 == 1 {
			o2 := execute(prof, seededStreams(runSeed(prof.id, seed, i)), false)
			st.Rechecked++
			if o2.Hash != o.Hash || len(o2.Viol) != len(o.Viol) {
				st.Nondet++
				st.NondetAt = append(st.NondetAt, int64(i))
			}
		}
		if len(o.Viol) > 0 {
			found = shrink(prof, o, st, 25)
			found.Seed, found.Index = seed, i
			found.Race = raceBuild
			break
		}
		if len(hb) > 1<<16 {
			hf.Write(hb)
			hb = hb[:0]
		}
	}
	hf.Write(hb)
	hf.Close()
	st.Seconds = seconds() - start
	st.PeakMB = peakMB
	if found != nil {
		st.Found = true
		b, _ := json.MarshalIndent(found, "", " ")
		os.WriteFile(dir+"/found.json", b, 0644)
	}
	b, _ := json.Marshal(st)
	os.WriteFile(dir+"/stats.json", b, 0644)
	return 0
}

// shrink reduces the choices while a violation of the same kind persists.
func shrink(prof *Profile, o *Outcome, st *Stats, secs float64) *Replay {
	cat := o.Viol[0].Cat
	best := o
	limit := seconds() + secs
	try := func(c [3][]int32) bool {
		if seconds() > limit {
			return false
		}
		st.ShrinkTries++
		x := execute(prof, replayStreams(c), false)
		for i, v := range x.Viol {
			if v.Cat == cat {
				x.Viol[0], x.Viol[i] = x.Viol[i], x.Viol[0]
				best = x
				return true
			}
		}
		return false
	}
	orig := [3]int{len(o.Choices[0]), len(o.Choices[1]), len(o.Choices[2])}
	if !try(o.Choices) {
		best = o
	} else {
		for pass := 0; pass < 4 && seconds() < limit; pass++ {
			before := best.Hash
			for _, k := range []int{2, 1, 0} {
				// cut the tail
				for n := len(best.Choices[k]) / 2; n >= 1; n /= 2 {
					for len(best.Choices[k]) >= n {
						c := best.Choices
						c[k] = append([]int32(nil), c[k][:len(c[k])-n]...)
						l0 := len(best.Choices[k])
						if !try(c) || len(best.Choices[k]) >= l0 {
							break
						}
					}
				}
				for n := max(1, len(best.Choices[k])/4); n >= 1; n /= 2 {
					for i := 0; i+n <= len(best.Choices[k]) && seconds() < limit; i += n {
						zero := true
						for _, v := range best.Choices[k][i : i+n] {
							zero = zero && v == 0
						}
						c := best.Choices
						if k != 0 || n <= 8 {
							c[k] = append(append([]int32(nil), c[k][:i]...), c[k][i+n:]...)
							l0 := len(best.Choices[k])
							if try(c) && len(best.Choices[k]) < l0 {
								i -= n
								continue
							}
						}
						if zero {
							continue
						}
						c = best.Choices
						if i+n > len(c[k]) {
							break
						}
						c[k] = append([]int32(nil), c[k]...)
						for j := i; j < i+n; j++ {
							c[k][j] = 0
						}
						try(c)
					}
					if n == 1 {
						break
					}
				}
			}
			if best.Hash == before {
				break
			}
		}
	}
	// the replay must not depend on what the choices say beyond their end
	fin := execute(prof, replayStreams(best.Choices), true)
	rep := &Replay{Property: prof.id, World: best.Choices[0], Sched: best.Choices[1], Faults: best.Choices[2]}
	for i, v := range fin.Viol {
		if v.Cat == cat {
			fin.Viol[0], fin.Viol[i] = fin.Viol[i], fin.Viol[0]
		}
	}
	if len(fin.Viol) == 0 {
		fin = best
	}
	rep.Hash = strconv.FormatUint(fin.Hash, 16)
	rep.Violation = &fin.Viol[0]
	for _, v := range fin.Viol {
		rep.All = append(rep.All, v.Cat+": "+v.Msg)
	}
	rep.Trace = fin.Trace
	rep.Minimised = fmt.Sprintf("choices world %d->%d, schedule %d->%d, faults %d->%d in %d tries", orig[0], len(rep.World), orig[1], len(rep.Sched), orig[2], len(rep.Faults), st.ShrinkTries)
	return rep
}
