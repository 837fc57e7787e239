package zzsim

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// RunFunc is the detector's entry point.
type RunFunc func(args []string, stdout, stderr io.Writer) int

// Proc is one simulated process: a call of run() with its own descriptors,
// working directory, output and (see globals.go) package variables.
type Proc struct {
	dead uint32 // first word: read by the runtime through the goroutine label
	pid  uint32 // second word: likewise

	id     int
	args   []string
	cwd    string
	fds    map[int]*openFile
	nextFd int

	stdout, stderr []byte
	exited         bool
	code           int
	killed         bool
	hung           bool
	panicked       string
	stack          string

	ops      int // seam operations granted so far
	kill     *KillPlan
	killSeen int
	faults   []Fired
	http     []*Exchange
	maxBatch int // most batch / detail requests in flight at once
	maxDet   int
	image    []byte
	fsWrites map[string]bool // paths of successful mutations
	starved  []starved
}

// starved: when only one (slow) request was left, how many had been sent?
type starved struct {
	kind   string
	issued int
}

type event struct {
	step int
	fn   func()
}

// KillPlan kills the process at the n-th seam operation of a class.
type KillPlan struct {
	class string // "any", "cachew", "cfgw"
	nth   int
	torn  int // of a write that is being executed, per mille that still lands
}

// Fired is an injected fault that took effect.
type Fired struct {
	Role, Ent, Op, Kind string
	Write               bool
	Benign              bool
}

// Faults says what may fail in the current phase.
type Faults struct {
	rate    map[string]int // role -> percent of operations hit
	budget  int            // faults left (benign ones are free)
	skip    int            // operations to let pass first
	persist bool           // once an entity fails it keeps failing
	benign  int            // percent of short transfers and interruptions
	kinds   map[string][]string
	stuck   map[string]string
	subs    map[string]int
	same    bool   // every fault is of the kind of the first one, where it can be
	first   string // that kind
	only    string // file operations that fail
}

// choose picks the kind of a fault.
func (fl *Faults) choose(f *Choices, kinds []string) string {
	k := kinds[f.N(len(kinds))]
	if !fl.same {
		return k
	}
	if fl.first == "" {
		fl.first = k
	}
	for _, x := range kinds {
		if x == fl.first {
			return x
		}
	}
	return k
}

// Sim is one simulated run.
type Sim struct {
	run    RunFunc
	fs     *FS
	s, f   *Choices // scheduling; faults
	net    *Net
	faults *Faults
	roleOf func(path string) (role, ent string)

	procs   []*Proc
	style   int
	pinned  unsafe.Pointer
	pinSeen int
	lastP   *Proc
	slow    int64
	events  []event
	sched   int
	step    int
	maxStep int

	trace   []string
	traceOn bool
	hash    uint64
	counts  map[string]int
	viol    []Violation
	simTime int64
}

// Violation is one broken expectation.
type Violation struct {
	Cat string `json:"cat"`
	Msg string `json:"msg"`
}

func (s *Sim) fail(cat, format string, a ...any) {
	s.viol = append(s.viol, Violation{cat, fmt.Sprintf(format, a...)})
}

var opNames = map[int]string{
	syscall.SimOpOpen: "open", syscall.SimOpRead: "read", syscall.SimOpPread: "pread", syscall.SimOpWrite: "write",
	syscall.SimOpPwrite: "pwrite", syscall.SimOpClose: "close", syscall.SimOpFstat: "fstat", syscall.SimOpStat: "stat",
	syscall.SimOpGetdents: "getdents", syscall.SimOpFtruncate: "ftruncate", syscall.SimOpTruncate: "truncate",
	syscall.SimOpRename: "rename", syscall.SimOpUnlink: "unlink", syscall.SimOpFsync: "fsync", syscall.SimOpMkdir: "mkdir",
	syscall.SimOpFchmod: "fchmod", syscall.SimOpChmod: "chmod", syscall.SimOpLink: "link", syscall.SimOpSymlink: "symlink",
	syscall.SimOpReadlink: "readlink", syscall.SimOpSeek: "lseek", syscall.SimOpGetcwd: "getcwd", syscall.SimOpChdir: "chdir",
	syscall.SimOpAccess: "access", syscall.SimOpUtimes: "utimes", syscall.SimOpFlock: "flock", syscall.SimOpChown: "chown",
	syscall.SimOpExit: "exit", syscall.SimOpHTTP: "http", syscall.SimOpYield: "dial", syscall.SimOpBody: "body",
}

func NewSim(run RunFunc, st *Streams) *Sim {
	s := &Sim{run: run, fs: NewFS(), s: st.S, f: st.F, counts: map[string]int{}, maxStep: 60000}
	s.net = &Net{sim: s}
	s.roleOf = func(string) (string, string) { return "other", "" }
	return s
}

// Start launches a simulated process.
func (s *Sim) Start(args []string, kill *KillPlan) *Proc {
	p := &Proc{id: len(s.procs), pid: uint32(4000 + len(s.procs)), args: args, cwd: "/work", fds: map[int]*openFile{}, nextFd: syscall.SimFdBase, kill: kill, fsWrites: map[string]bool{}}
	s.procs = append(s.procs, p)
	s.switchTo(p)
	a := append([]string(nil), args...)
	go func() {
		runtime.SimSetLabel(unsafe.Pointer(p))
		code := s.run(a, os.Stdout, os.Stderr)
		syscall.SimCall(&syscall.SimOp{Kind: syscall.SimOpExit, N: code})
		runtime.Goexit()
	}()
	for first := true; first || !runtime.SimIdle(); first = false {
		runtime.Gosched()
	}
	return p
}

func (p *Proc) over() bool { return p.exited || p.killed || p.hung || p.panicked != "" }

func (p *Proc) die() {
	p.dead = 1
}

func procOf(lab unsafe.Pointer) *Proc { return (*Proc)(lab) }

func (s *Sim) quiesce() {
	runtime.Gosched()
	for !runtime.SimIdle() {
		runtime.Gosched()
	}
}

// reap wakes every parked goroutine of dead processes so that they exit.
func (s *Sim) reap() {
	for again := true; again; {
		again = false
		for i := 0; i < runtime.SimPendingLen(); i++ {
			o, lab := runtime.SimPendingAt(i)
			if lab == nil || procOf(lab).dead != 0 {
				if lab != nil {
					raceAcquire(o)
					(*syscall.SimOp)(o).Killed = true
					s.switchTo(procOf(lab))
				}
				runtime.SimReady(i)
				s.quiesce()
				again = true
				break
			}
		}
	}
}

func (s *Sim) switchTo(p *Proc) {
	if s.lastP != p {
		globalsFor(s.lastP, p)
		s.lastP = p
	}
}

// Run drives the simulation until every process is over.
func (s *Sim) Run() {
	for {
		s.quiesce()
		s.reap()
		live := 0
		for _, p := range s.procs {
			if !p.over() {
				live++
			}
		}
		if live == 0 {
			break
		}
		if s.step++; s.step > s.maxStep {
			s.hang("no end after %d steps", s.maxStep)
			continue
		}
		n := runtime.SimPendingLen()
		if n == 0 {
			t := runtime.SimNextTimer()
			if t < 0 {
				s.hang("deadlock: no operation pending, no timer, process not finished")
				continue
			}
			runtime.SimSetNow(max(t, runtime.SimNow()) + 1)
			continue
		}
		for len(s.events) > 0 && s.events[0].step <= s.step {
			fn := s.events[0].fn
			s.events = s.events[1:]
			fn()
		}
		s.trackInflight()
		if n > 1 {
			s.sched++
		} else if s.pinned != nil && s.style == stStarve {
			if o, lab := runtime.SimPendingAt(0); o == s.pinned {
				x, p := (*syscall.SimOp)(o).X.(*Exchange), procOf(lab)
				k := 1
				for _, y := range p.http {
					if y.kind == x.kind {
						k++
					}
				}
				p.starved = append(p.starved, starved{x.kind, k})
			}
		}
		i := s.pick(n)
		o, lab := runtime.SimPendingAt(i)
		op := (*syscall.SimOp)(o)
		p := procOf(lab)
		raceAcquire(o)
		runtime.SimTick()
		s.exec(p, op)
		s.switchTo(p)
		if op.Killed {
			continue // reaped next
		}
		if op.Kind == syscall.SimOpExit {
			p.exited = true
			p.code = op.N
			p.die()
			op.Killed = true
		}
		runtime.SimReady(i)
	}
	s.quiesce()
	s.reap()
	// timers left by the processes must not leak into the next run
	for k := 0; k < 100; k++ {
		t := runtime.SimNextTimer()
		if t < 0 {
			break
		}
		runtime.SimSetNow(max(t, runtime.SimNow()) + 1)
		s.quiesce()
		s.reap()
	}
}

func (s *Sim) hang(format string, a ...any) {
	for _, p := range s.procs {
		if !p.over() {
			p.hung = true
			p.die()
			buf := make([]byte, 1<<16)
			k := runtime.Stack(buf, true)
			p.stack = string(buf[:k])
			s.fail("hang", "process %d (%s): %s", p.id, strings.Join(p.args, " "), fmt.Sprintf(format, a...))
		}
	}
}

// scheduling styles
const (
	stFIFO = iota
	stRandom
	stLIFO
	stStarve
	stBurst
	nStyles
)

func (s *Sim) pick(n int) int {
	if n == 1 {
		return 0
	}
	switch s.style {
	case stRandom:
		return s.s.N(n)
	case stLIFO:
		if s.s.Pct(10) {
			return s.s.N(n)
		}
		return n - 1
	case stStarve:
		pin := -1
		for i := 0; i < n; i++ {
			o, _ := runtime.SimPendingAt(i)
			if o == s.pinned {
				pin = i
			}
		}
		if pin < 0 {
			s.pinned = nil
			// pin a request once several are in flight
			for i := 0; i < n; i++ {
				o, _ := runtime.SimPendingAt(i)
				if (*syscall.SimOp)(o).Kind == syscall.SimOpHTTP && s.s.N(3) == 2 {
					s.pinned, pin = o, i
					break
				}
			}
		}
		k := s.s.N(n)
		if k == pin {
			k = (k + 1) % n
		}
		return k
	case stBurst:
		// stay with one process for a while
		for i := 0; i < n; i++ {
			_, lab := runtime.SimPendingAt(i)
			if procOf(lab) == s.lastP && !s.s.Pct(20) {
				return i
			}
		}
		return s.s.N(n)
	}
	return 0
}

func (s *Sim) trackInflight() {
	if runtime.SimPendingLen() < 20 {
		return
	}
	type c struct{ b, d int }
	var m map[*Proc]*c
	for i := 0; i < runtime.SimPendingLen(); i++ {
		o, lab := runtime.SimPendingAt(i)
		op := (*syscall.SimOp)(o)
		if op.Kind != syscall.SimOpHTTP && op.Kind != syscall.SimOpBody && op.Kind != syscall.SimOpYield {
			continue
		}
		x := op.X.(*Exchange)
		if x.kind != "batch" && x.kind != "detail" {
			continue
		}
		if m == nil {
			m = map[*Proc]*c{}
		}
		k := m[procOf(lab)]
		if k == nil {
			k = &c{}
			m[procOf(lab)] = k
		}
		if x.kind == "batch" {
			k.b++
		} else {
			k.d++
		}
	}
	for p, k := range m {
		p.maxBatch = max(p.maxBatch, k.b)
		p.maxDet = max(p.maxDet, k.d)
	}
}

func (s *Sim) count(k string) { s.counts[k]++ }

func (s *Sim) note(p *Proc, op *syscall.SimOp, what string) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%d|%d|%s|%d|%d", s.hash, p.id, op.Kind, what, op.N, op.Err)
	s.hash = h.Sum64()
	if s.traceOn {
		r := fmt.Sprintf("%d", op.N)
		if op.Err != 0 {
			r = op.Err.Error()
		}
		s.trace = append(s.trace, fmt.Sprintf("%d t=%dus p%d %s %s -> %s", s.step, runtime.SimNow()/1000, p.id, opNames[op.Kind], what, r))
	}
}

// target names the entity an operation acts on, and whether it mutates.
func (s *Sim) target(p *Proc, op *syscall.SimOp) (path string, write bool) {
	abs := func(dirfd int, q string) string {
		b, e := s.fs.base(p, dirfd)
		if e != 0 {
			b = "/"
		}
		_, _, _, full, e2 := s.fs.resolve(b, q, false)
		if e2 != 0 {
			if strings.HasPrefix(q, "/") {
				return q
			}
			return b + "/" + q
		}
		return full
	}
	switch op.Kind {
	case syscall.SimOpOpen:
		return abs(op.Fd, op.Path), op.Flags&3 != 0 || op.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	case syscall.SimOpStat, syscall.SimOpAccess, syscall.SimOpReadlink:
		return abs(op.Fd, op.Path), false
	case syscall.SimOpUnlink, syscall.SimOpMkdir, syscall.SimOpChmod, syscall.SimOpUtimes:
		return abs(op.Fd, op.Path), true
	case syscall.SimOpTruncate:
		return abs(-100, op.Path), true
	case syscall.SimOpRename, syscall.SimOpLink:
		return abs(op.Fd2, op.Path2), true
	case syscall.SimOpSymlink:
		return abs(op.Fd2, op.Path2), true
	case syscall.SimOpGetcwd, syscall.SimOpChdir, syscall.SimOpExit, syscall.SimOpHTTP, syscall.SimOpBody, syscall.SimOpYield:
		return "", false
	}
	if op.Kind == syscall.SimOpWrite && op.Fd == 1 {
		return "stdout", true
	}
	if op.Kind == syscall.SimOpWrite && op.Fd == 2 {
		return "stderr", true
	}
	f := p.fds[op.Fd]
	if f == nil {
		return fmt.Sprintf("fd%d", op.Fd), false
	}
	switch op.Kind {
	case syscall.SimOpWrite, syscall.SimOpPwrite, syscall.SimOpFtruncate, syscall.SimOpFchmod, syscall.SimOpFsync, syscall.SimOpChown:
		return f.path, true
	case syscall.SimOpClose:
		return f.path, f.flags&3 != 0
	}
	return f.path, false
}

func (s *Sim) role(path string) (string, string) {
	switch path {
	case "stdout", "stderr":
		return path, path
	}
	return s.roleOf(path)
}

// exec performs op for p: kill, fault or effect.
func (s *Sim) exec(p *Proc, op *syscall.SimOp) {
	path, write := s.target(p, op)
	role, ent := "", ""
	if path != "" {
		role, ent = s.role(path)
	}
	p.ops++
	s.advance(op)

	// death
	if k := p.kill; k != nil && op.Kind != syscall.SimOpExit {
		hit := k.class == "any" || k.class == "cachew" && write && (role == "cache" || role == "tmp") ||
			k.class == "cfgw" && write && (role == "config" || role == "cfgtmp") || k.class == "http" && (op.Kind == syscall.SimOpHTTP || op.Kind == syscall.SimOpBody)
		if hit {
			p.killSeen++
			if p.killSeen >= k.nth {
				if op.Kind == syscall.SimOpWrite && write && path != "stdout" && path != "stderr" {
					part := *op
					part.Buf = op.Buf[:len(op.Buf)*k.torn/1000]
					if len(part.Buf) > 0 {
						s.effect(p, &part)
						s.count("torn-write")
					}
				}
				p.killed = true
				p.die()
				op.Killed = true
				s.count("kill")
				s.note(p, op, "KILLED at "+path)
				return
			}
		}
	}

	if op.Kind == syscall.SimOpHTTP || op.Kind == syscall.SimOpBody {
		what := s.net.handle(p, op)
		s.note(p, op, what)
		return
	}
	if op.Kind == syscall.SimOpExit || op.Kind == syscall.SimOpYield {
		s.note(p, op, "")
		return
	}

	if fk := s.fault(p, op, path, role, ent, write); fk != "" {
		s.note(p, op, path+" FAULT "+fk)
		return
	}
	s.effect(p, op)
	if write && op.Err == 0 && role != "stdout" && role != "stderr" {
		p.fsWrites[path] = true
	}
	s.note(p, op, path)
}

func (s *Sim) advance(op *syscall.SimOp) {
	d := int64(2000)
	if op.Kind == syscall.SimOpHTTP || op.Kind == syscall.SimOpBody {
		d = 1e6 + int64(mix64(s.hash)%20)*1e6*(1+s.slow)
	}
	runtime.SimSetNow(runtime.SimNow() + d)
}

var errnoOf = map[string]syscall.Errno{
	"EIO": syscall.EIO, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "EINTR": syscall.EINTR, "ENOSPC": syscall.ENOSPC,
	"EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "EPERM": syscall.EPERM, "ENFILE": syscall.ENFILE, "ESTALE": syscall.ESTALE, "ELOOP": syscall.ELOOP,
}

func faultKinds(op *syscall.SimOp, write bool) []string {
	switch op.Kind {
	case syscall.SimOpOpen:
		if write {
			return []string{"EACCES", "ENOSPC", "EROFS", "EIO", "EMFILE"}
		}
		return []string{"EACCES", "EIO", "EMFILE", "ENFILE", "EPERM"}
	case syscall.SimOpRead, syscall.SimOpPread:
		return []string{"EIO", "ESTALE"}
	case syscall.SimOpWrite, syscall.SimOpPwrite:
		return []string{"ENOSPC", "EIO", "EDQUOT"}
	case syscall.SimOpFstat, syscall.SimOpStat, syscall.SimOpAccess:
		return []string{"EIO", "EACCES"}
	case syscall.SimOpGetdents:
		return []string{"EIO", "ESTALE"}
	case syscall.SimOpClose:
		if write {
			return []string{"EIO", "ENOSPC"}
		}
		return nil
	case syscall.SimOpFsync, syscall.SimOpFtruncate, syscall.SimOpTruncate:
		return []string{"EIO", "ENOSPC"}
	case syscall.SimOpRename, syscall.SimOpLink, syscall.SimOpMkdir, syscall.SimOpSymlink:
		return []string{"EIO", "EACCES", "ENOSPC"}
	case syscall.SimOpUnlink:
		return []string{"EIO", "EACCES"}
	case syscall.SimOpFchmod, syscall.SimOpChmod, syscall.SimOpChown:
		return []string{"EPERM", "EIO"}
	}
	return nil
}

func class(op *syscall.SimOp) string {
	switch op.Kind {
	case syscall.SimOpFstat, syscall.SimOpStat, syscall.SimOpAccess:
		return "stat"
	case syscall.SimOpPread:
		return "read"
	case syscall.SimOpPwrite:
		return "write"
	}
	return opNames[op.Kind]
}

// fault decides whether op fails, transfers less than asked, or is interrupted.
func (s *Sim) fault(p *Proc, op *syscall.SimOp, path, role, ent string, write bool) string {
	fl := s.faults
	if fl == nil {
		return ""
	}
	name := class(op)
	// benign disturbances
	if fl.benign > 0 {
		switch op.Kind {
		case syscall.SimOpRead, syscall.SimOpPread:
			if len(op.Buf) > 1 && s.f.Pct(fl.benign) {
				// a short read: 1 byte .. all but one
				lim := min(len(op.Buf)-1, 4096)
				var rest []byte
				if of := p.fds[op.Fd]; of != nil && of.off < int64(len(of.ino.data)) {
					rest = of.ino.data[of.off:]
					if len(rest) > 1 {
						lim = min(len(op.Buf), len(rest)) - 1
					}
				}
				n := 1 + s.f.N(lim)
				switch s.f.N(4) {
				case 2:
					n = 1 + s.f.N(min(lim, 16))
				case 3: // up to the end of a line
					if i := bytes.IndexByte(rest[min(n, len(rest)):], '\n'); i >= 0 && n+i+1 <= lim {
						n += i + s.f.N(2)
					}
				}
				op.Buf = op.Buf[:n]
				s.count("short-read")
			}
		case syscall.SimOpWrite, syscall.SimOpPwrite:
			if len(op.Buf) > 1 && s.f.Pct(fl.benign) {
				op.Buf = op.Buf[:1+s.f.N(len(op.Buf)-1)]
				s.count("short-write")
			}
		}
		if op.Kind == syscall.SimOpHTTP && !s.net.fixedDate && s.f.Pct(2) {
			s.skew([]int{-86400 * 400, -300, 0, 300, 86400 * 400}[s.f.N(5)])
		}
		switch op.Kind {
		case syscall.SimOpRead, syscall.SimOpWrite, syscall.SimOpOpen, syscall.SimOpFstat, syscall.SimOpStat, syscall.SimOpGetdents:
			if s.f.Pct(max(1, fl.benign/4)) {
				op.Err = syscall.EINTR
				s.count("EINTR")
				return "EINTR"
			}
		}
	}
	rate := fl.rate[role]
	if rate == 0 && write {
		rate = fl.rate[role+"/w"]
	}
	if rate == 0 && !write {
		rate = fl.rate[role+"/r"]
	}
	if rate == 0 {
		return ""
	}
	kinds := faultKinds(op, write)
	if len(kinds) == 0 || fl.only != "" && fl.only != name {
		return ""
	}
	key := name + "|" + path
	kind := fl.stuck[key]
	if kind == "" {
		if fl.skip > 0 {
			fl.skip--
			return ""
		}
		if fl.budget <= 0 || !s.f.Pct(rate) {
			return ""
		}
		kind = fl.choose(s.f, kinds)
		fl.budget--
		if fl.persist {
			if fl.stuck == nil {
				fl.stuck = map[string]string{}
			}
			fl.stuck[key] = kind
		}
	}
	// a failing write may land in part first
	if op.Kind == syscall.SimOpWrite && kind == "ENOSPC" && len(op.Buf) > 1 && s.f.N(2) == 1 {
		part := *op
		part.Buf = op.Buf[:s.f.N(len(op.Buf))]
		if len(part.Buf) > 0 {
			s.effect(p, &part)
			op.N = part.N
			fl.stuckPut(key, kind) // the rest cannot be written
			s.count("partial-write")
			p.faults = append(p.faults, Fired{role, ent, name, kind, write, false})
			return "PARTIAL"
		}
	}
	if op.Kind == syscall.SimOpClose {
		if f := p.fds[op.Fd]; f != nil && f.ino.dirty && len(f.ino.data) > 0 && s.f.Pct(60) {
			// what was written last did not make it
			f.ino.data = f.ino.data[:s.f.N(len(f.ino.data))]
			s.count("lost-at-close")
		}
		s.effect(p, op) // the descriptor is gone all the same
	}
	op.Err = errnoOf[kind]
	op.N = -1
	p.faults = append(p.faults, Fired{role, ent, name, kind, write, false})
	s.count(name + ":" + kind)
	return kind
}

func (fl *Faults) stuckPut(k, v string) {
	if fl.stuck == nil {
		fl.stuck = map[string]string{}
	}
	fl.stuck[k] = v
}

// effect performs the operation on the simulated disk.
func (s *Sim) effect(p *Proc, op *syscall.SimOp) {
	fs := s.fs
	get := func() *openFile {
		f := p.fds[op.Fd]
		if f == nil {
			op.Err = syscall.EBADF
			op.N = -1
		}
		return f
	}
	find := func(dirfd int, path string, follow bool) *inode {
		b, e := fs.base(p, dirfd)
		if e != 0 && !strings.HasPrefix(path, "/") {
			op.Err = e
			return nil
		}
		_, _, n, _, e := fs.resolve(b, path, follow)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			op.Err = e
			return nil
		}
		return n
	}
	switch op.Kind {
	case syscall.SimOpOpen:
		fs.open(p, op)
	case syscall.SimOpRead, syscall.SimOpPread:
		if op.Fd == 0 {
			op.N = 0
			return
		}
		f := get()
		if f == nil {
			return
		}
		if f.ino.isDir() {
			op.Err = syscall.EISDIR
			return
		}
		if f.flags&3 == syscall.O_WRONLY {
			op.Err = syscall.EBADF
			return
		}
		off := f.off
		if op.Kind == syscall.SimOpPread {
			off = op.Off
		}
		if off < int64(len(f.ino.data)) {
			op.N = copy(op.Buf, f.ino.data[off:])
		}
		if op.Kind == syscall.SimOpRead {
			f.off += int64(op.N)
		}
	case syscall.SimOpWrite, syscall.SimOpPwrite:
		switch op.Fd {
		case 1:
			p.stdout = append(p.stdout, op.Buf...)
			op.N = len(op.Buf)
			return
		case 2:
			p.stderr = append(p.stderr, op.Buf...)
			op.N = len(op.Buf)
			return
		}
		f := get()
		if f == nil {
			return
		}
		if f.flags&3 == syscall.O_RDONLY {
			op.Err = syscall.EBADF
			return
		}
		off := f.off
		if op.Kind == syscall.SimOpPwrite {
			off = op.Off
		} else if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.ino.data))
		}
		fs.writeAt(f.ino, op.Buf, off)
		op.N = len(op.Buf)
		if op.Kind == syscall.SimOpWrite {
			f.off = off + int64(op.N)
		}
	case syscall.SimOpClose:
		if get() != nil {
			delete(p.fds, op.Fd)
		}
	case syscall.SimOpFstat:
		if op.Fd < 3 {
			*op.St = syscall.Stat_t{Mode: 0x1000 | 0600}
			return
		}
		if f := get(); f != nil {
			fillStat(f.ino, op.St)
		}
	case syscall.SimOpStat:
		if n := find(op.Fd, op.Path, op.Flags&0x100 == 0); n != nil {
			fillStat(n, op.St)
		}
	case syscall.SimOpAccess:
		find(op.Fd, op.Path, true)
	case syscall.SimOpGetdents:
		if f := get(); f != nil {
			fs.getdents(f, op)
		}
	case syscall.SimOpFtruncate:
		if f := get(); f != nil {
			fs.truncate(f.ino, op.Off)
		}
	case syscall.SimOpTruncate:
		if n := find(-100, op.Path, true); n != nil {
			fs.truncate(n, op.Off)
		}
	case syscall.SimOpRename:
		fs.rename(p, op)
	case syscall.SimOpUnlink:
		fs.unlink(p, op)
	case syscall.SimOpFsync:
		if f := get(); f != nil {
			fs.commit(f.ino)
		}
	case syscall.SimOpMkdir, syscall.SimOpSymlink, syscall.SimOpLink:
		dirfd, path := op.Fd, op.Path
		if op.Kind != syscall.SimOpMkdir {
			dirfd, path = op.Fd2, op.Path2
		}
		b, e := fs.base(p, dirfd)
		if e != 0 {
			op.Err = e
			return
		}
		par, name, n, _, e := fs.resolve(b, path, false)
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e != 0 {
			op.Err = e
			return
		}
		var nn *inode
		switch op.Kind {
		case syscall.SimOpMkdir:
			nn = fs.newInode(sIFDIR | op.Mode&0777)
		case syscall.SimOpSymlink:
			nn = fs.newInode(sIFLNK | 0777)
			nn.target = op.Path
		default:
			if nn = find(op.Fd, op.Path, false); nn == nil {
				return
			}
			nn.nlink++
		}
		par.kids[name] = nn
		fs.meta(func() {
			if par.kids[name] == nn {
				delete(par.kids, name)
			}
		})
	case syscall.SimOpFchmod:
		if f := get(); f != nil {
			f.ino.mode = f.ino.mode&sIFMT | op.Mode&0777
		}
	case syscall.SimOpChmod:
		if n := find(op.Fd, op.Path, true); n != nil {
			n.mode = n.mode&sIFMT | op.Mode&0777
		}
	case syscall.SimOpReadlink:
		n := find(op.Fd, op.Path, false)
		if n == nil {
			return
		}
		if n.mode&sIFMT != sIFLNK {
			op.Err = syscall.EINVAL
			return
		}
		op.N = copy(op.Buf, n.target)
	case syscall.SimOpSeek:
		f := get()
		if f == nil {
			return
		}
		switch op.Flags {
		case 0:
			f.off = op.Off
		case 1:
			f.off += op.Off
		case 2:
			f.off = int64(len(f.ino.data)) + op.Off
		}
		if f.ino.isDir() && f.off == 0 {
			f.listed = false
		}
		op.N64 = f.off
	case syscall.SimOpGetcwd:
		op.N = copy(op.Buf, p.cwd+"\x00")
	case syscall.SimOpChdir:
		b := p.cwd
		_, _, n, full, e := fs.resolve(b, op.Path, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		} else if e == 0 && !n.isDir() {
			e = syscall.ENOTDIR
		}
		if e != 0 {
			op.Err = e
			return
		}
		p.cwd = full
	case syscall.SimOpFlock:
		// advisory locks: granted at once unless held by another open file
		f := get()
		if f == nil {
			return
		}
		if op.Flags&syscall.LOCK_UN != 0 {
			f.ino.lock = 0
		} else if f.ino.lock != 0 && f.ino.lock != p.id+1 && !s.procs[f.ino.lock-1].over() {
			op.Err = syscall.EWOULDBLOCK
		} else {
			f.ino.lock = p.id + 1
		}
	case syscall.SimOpUtimes, syscall.SimOpChown:
	default:
		op.Err = syscall.ENOSYS
	}
}

func (p *Proc) faulted(role, ent string) bool {
	for _, f := range p.faults {
		if f.Role == role && (ent == "" || f.Ent == ent) {
			return true
		}
	}
	return false
}

// faultedAbove: a directory the path leads through was hit.
func (p *Proc) faultedAbove(path string) bool {
	for _, f := range p.faults {
		if f.Role == "indir" && strings.HasPrefix(path, f.Ent+"/") {
			return true
		}
	}
	return false
}

func (p *Proc) describe() string {
	st := fmt.Sprintf("exit %d", p.code)
	switch {
	case p.killed:
		st = "killed"
	case p.hung:
		st = "hung"
	case p.panicked != "":
		st = "panic: " + p.panicked
	}
	var fs []string
	for _, f := range p.faults {
		fs = append(fs, fmt.Sprintf("%s %s(%s) %s", f.Op, f.Role, f.Ent, f.Kind))
	}
	for _, x := range p.http {
		if x.fault != "" {
			fs = append(fs, x.kind+" "+x.fault)
		}
	}
	sort.Strings(fs)
	return fmt.Sprintf("p%d [%s] %s faults=%v", p.id, strings.Join(p.args, " "), st, fs)
}

func installPanicHook(cur func() *Sim) {
	runtime.SimPanic = func(lab unsafe.Pointer, v any, stack string) {
		p := procOf(lab)
		if p.dead != 0 {
			return
		}
		p.panicked = fmt.Sprint(v)
		p.stack = stack
		p.die()
		if s := cur(); s != nil {
			s.fail("panic", "process %d (%s): panic: %v at %s", p.id, strings.Join(p.args, " "), v, repoFrame(stack))
		}
	}
}

// repoFrame finds the innermost frame of the repository in a stack dump.
func repoFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/g-rath/osv-detector/") || strings.HasPrefix(l, "main.") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// cancelled reports whether the caller of a pending request gave up.
func cancelled(ctx context.Context) error { return ctx.Err() }
