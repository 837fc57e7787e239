// Added to package syscall by the simulator's overlay.  Every file-system
// operation of a goroutine that belongs to a simulated process is turned into
// a SimOp and handed to the simulator; everything else runs unchanged.
package syscall

import (
	"internal/race"
	"runtime"
	"unsafe"
)

const (
	SimOpOpen = iota + 1
	SimOpRead
	SimOpPread
	SimOpWrite
	SimOpPwrite
	SimOpClose
	SimOpFstat
	SimOpStat
	SimOpGetdents
	SimOpFtruncate
	SimOpTruncate
	SimOpRename
	SimOpUnlink
	SimOpFsync
	SimOpMkdir
	SimOpFchmod
	SimOpChmod
	SimOpLink
	SimOpSymlink
	SimOpReadlink
	SimOpSeek
	SimOpGetcwd
	SimOpChdir
	SimOpAccess
	SimOpUtimes
	SimOpFlock
	SimOpFallocate
	SimOpChown
	SimOpOther
	SimOpExit
	SimOpHTTP
	SimOpBody
	SimOpYield
	SimOpOut
)

// SimFdBase is the first virtual file descriptor.
const SimFdBase = 1 << 20

type SimOp struct {
	Kind    int
	Fd, Fd2 int
	Path    string
	Path2   string
	Flags   int
	Mode    uint32
	Off     int64
	Buf     []byte
	St      *Stat_t
	X       any
	N       int
	N64     int64
	Err     Errno
	Killed  bool // the process died: the goroutine must not return
}

func (op *SimOp) call() *SimOp {
	if runtime.SimDead() {
		runtime.Goexit()
	}
	if race.Enabled {
		race.ReleaseMerge(unsafe.Pointer(op)) // the simulator may look at everything
	}
	runtime.SimPark(unsafe.Pointer(op))
	if op.Killed {
		runtime.Goexit()
	}
	return op
}

func (op *SimOp) err() error {
	if op.Err == 0 {
		return nil
	}
	return op.Err
}

// SimCall is used by the simulator's own seams (HTTP, exit).
func SimCall(op *SimOp) { op.call() }

func simOn() bool { return runtime.SimActive() }

// a virtual descriptor touched outside the simulation (finalizers): ignore
func simStray(fd int) bool { return fd >= SimFdBase }

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if simOn() {
		op := (&SimOp{Kind: SimOpOpen, Fd: dirfd, Path: path, Flags: flags, Mode: mode}).call()
		if op.Err != 0 {
			return -1, op.Err
		}
		return op.N, nil
	}
	return openat__real(dirfd, path, flags, mode)
}

func simIO(kind, fd int, p []byte, off int64) (int, error) {
	op := (&SimOp{Kind: kind, Fd: fd, Buf: p, Off: off}).call()
	if op.Err != 0 {
		return -1, op.Err
	}
	return op.N, nil
}

func read(fd int, p []byte) (n int, err error) {
	if simOn() {
		return simIO(SimOpRead, fd, p, 0)
	}
	if simStray(fd) {
		return -1, EBADF
	}
	return read__real(fd, p)
}

func pread(fd int, p []byte, offset int64) (n int, err error) {
	if simOn() {
		return simIO(SimOpPread, fd, p, offset)
	}
	if simStray(fd) {
		return -1, EBADF
	}
	return pread__real(fd, p, offset)
}

func write(fd int, p []byte) (n int, err error) {
	if simOn() {
		return simIO(SimOpWrite, fd, p, 0)
	}
	if simStray(fd) {
		return -1, EBADF
	}
	return write__real(fd, p)
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if simOn() {
		return simIO(SimOpPwrite, fd, p, offset)
	}
	if simStray(fd) {
		return -1, EBADF
	}
	return pwrite__real(fd, p, offset)
}

func Close(fd int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpClose, Fd: fd}).call().err()
	}
	if simStray(fd) {
		return nil
	}
	return Close__real(fd)
}

func Fstat(fd int, stat *Stat_t) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFstat, Fd: fd, St: stat}).call().err()
	}
	return Fstat__real(fd, stat)
}

func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpStat, Fd: fd, Path: path, St: stat, Flags: flags}).call().err()
	}
	return fstatat__real(fd, path, stat, flags)
}

func Getdents(fd int, buf []byte) (n int, err error) {
	if simOn() {
		return simIO(SimOpGetdents, fd, buf, 0)
	}
	return Getdents__real(fd, buf)
}

func Ftruncate(fd int, length int64) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFtruncate, Fd: fd, Off: length}).call().err()
	}
	return Ftruncate__real(fd, length)
}

func Truncate(path string, length int64) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpTruncate, Path: path, Off: length}).call().err()
	}
	return Truncate__real(path, length)
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpRename, Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath}).call().err()
	}
	return Renameat__real(olddirfd, oldpath, newdirfd, newpath)
}

func unlinkat(dirfd int, path string, flags int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpUnlink, Fd: dirfd, Path: path, Flags: flags}).call().err()
	}
	return unlinkat__real(dirfd, path, flags)
}

func Fsync(fd int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFsync, Fd: fd}).call().err()
	}
	return Fsync__real(fd)
}

func Fdatasync(fd int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFsync, Fd: fd}).call().err()
	}
	return Fdatasync__real(fd)
}

func Mkdirat(dirfd int, path string, mode uint32) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpMkdir, Fd: dirfd, Path: path, Mode: mode}).call().err()
	}
	return Mkdirat__real(dirfd, path, mode)
}

func Fchmod(fd int, mode uint32) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFchmod, Fd: fd, Mode: mode}).call().err()
	}
	return Fchmod__real(fd, mode)
}

func fchmodat(dirfd int, path string, mode uint32) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpChmod, Fd: dirfd, Path: path, Mode: mode}).call().err()
	}
	return fchmodat__real(dirfd, path, mode)
}

func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpLink, Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath}).call().err()
	}
	return linkat__real(olddirfd, oldpath, newdirfd, newpath, flags)
}

func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpSymlink, Path: oldpath, Fd2: newdirfd, Path2: newpath}).call().err()
	}
	return symlinkat__real(oldpath, newdirfd, newpath)
}

func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {
	if simOn() {
		op := (&SimOp{Kind: SimOpReadlink, Fd: dirfd, Path: path, Buf: buf}).call()
		if op.Err != 0 {
			return -1, op.Err
		}
		return op.N, nil
	}
	return readlinkat__real(dirfd, path, buf)
}

func Seek(fd int, offset int64, whence int) (off int64, err error) {
	if simOn() {
		op := (&SimOp{Kind: SimOpSeek, Fd: fd, Off: offset, Flags: whence}).call()
		if op.Err != 0 {
			return -1, op.Err
		}
		return op.N64, nil
	}
	return Seek__real(fd, offset, whence)
}

func Getcwd(buf []byte) (n int, err error) {
	if simOn() {
		op := (&SimOp{Kind: SimOpGetcwd, Buf: buf}).call()
		if op.Err != 0 {
			return -1, op.Err
		}
		return op.N, nil
	}
	return Getcwd__real(buf)
}

func Chdir(path string) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpChdir, Path: path}).call().err()
	}
	return Chdir__real(path)
}

func faccessat(dirfd int, path string, mode uint32) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpAccess, Fd: dirfd, Path: path, Mode: mode}).call().err()
	}
	return faccessat__real(dirfd, path, mode)
}

func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpUtimes, Fd: dirfd, Path: path}).call().err()
	}
	return utimensat__real(dirfd, path, times, flag)
}

func Flock(fd int, how int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpFlock, Fd: fd, Flags: how}).call().err()
	}
	return Flock__real(fd, how)
}

func Fallocate(fd int, mode uint32, off int64, len int64) (err error) {
	if simOn() {
		return EOPNOTSUPP
	}
	return Fallocate__real(fd, mode, off, len)
}

func Fchown(fd int, uid int, gid int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpChown, Fd: fd, Fd2: uid, Flags: gid}).call().err()
	}
	return Fchown__real(fd, uid, gid)
}

func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error) {
	if simOn() {
		return (&SimOp{Kind: SimOpChown, Fd: -1, Path: path, Fd2: uid, Flags: gid}).call().err()
	}
	return Fchownat__real(dirfd, path, uid, gid, flags)
}

func fcntl(fd int, cmd int, arg int) (val int, err error) {
	if simStray(fd) {
		return -1, EINVAL
	}
	return fcntl__real(fd, cmd, arg)
}

func Sync() {
	if simOn() {
		return
	}
	Sync__real()
}

// process creation is not part of the simulated world
func simNoExec() bool { return simOn() }

func ZzOpenat(dirfd int, path string, flags int, mode uint32) (int, error) {
	return openat(dirfd, path, flags, mode)
}
func ZzUnlinkat(dirfd int, path string, flags int) error { return unlinkat(dirfd, path, flags) }
func ZzReadlinkat(dirfd int, path string, buf []byte) (int, error) {
	return readlinkat(dirfd, path, buf)
}
func ZzMkdirat(dirfd int, path string, mode uint32) error { return Mkdirat(dirfd, path, mode) }
func ZzFstatat(dirfd int, path string, stat *Stat_t, flags int) error {
	return fstatat(dirfd, path, stat, flags)
}

func Getpid() int {
	if simOn() {
		return runtime.SimPid()
	}
	return Getpid__real()
}

func Getppid() int {
	if simOn() {
		return 1
	}
	return Getppid__real()
}
