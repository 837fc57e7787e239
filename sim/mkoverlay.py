#!/usr/bin/env python3
"""Writes the overlay that turns /repo's current tree plus the Go standard
library into the simulator binary.  usage: mkoverlay.py GOROOT REPO SIMDIR OUTDIR

Nothing in GOROOT or in the repository is touched: patched copies go to OUTDIR
and `go build -overlay OUTDIR/overlay.json` does the rest.  Every textual patch
asserts that it applies exactly once, so a different toolchain fails loudly."""
import json, os, re, sys

goroot, repo, simdir, out = sys.argv[1:5]
src = goroot + "/src"
rep = {}


def emit(target, text):
    p = os.path.join(out, target.strip("/").replace("/", "__"))
    old = None
    if os.path.exists(p):
        old = open(p).read()
    if old != text:  # keep mtimes stable
        with open(p, "w") as f:
            f.write(text)
    rep[target] = p


def patch(rel, *subs):
    t = open(f"{src}/{rel}").read()
    for a, b in subs:
        n = t.count(a)
        if n != 1:
            sys.exit(f"mkoverlay: {rel}: {n} matches for {a!r}")
        t = t.replace(a, b)
    emit(f"{src}/{rel}", t)


def add(rel, f):
    emit(f"{src}/{rel}", open(f"{simdir}/std/{f}").read())


os.makedirs(out, exist_ok=True)

# --- runtime ---------------------------------------------------------------
add("runtime/zz_sim.go", "runtime_zz_sim.go")
patch("runtime/time_nofake.go", ("\treturn nanotime1()\n", "\treturn simNanotime()\n"))
patch("runtime/time.go", ("\treturn time_now()\n}", "\tif simActive() {\n\t\treturn simWall()\n\t}\n\ts, n, _ := time_now()\n\treturn s, n, nanotime()\n}"))
patch("runtime/rand.go",
      ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simActive() {\n\t\treturn simRand()\n\t}\n"),
      ("\tglobalRand.state.Init(*seed)\n\tclear(seed[:])\n", "\tclear(seed[:])\n\tseed[0] = 7\n\tglobalRand.state.Init(*seed)\n"))
patch("runtime/select.go", ("cheaprandn(uint32(norder + 1))", "simSelectN(uint32(norder+1), norder)"))
patch("runtime/proc.go",
      ("const randomizeScheduler = raceenabled", "const randomizeScheduler = false"),
      ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"))
# (the background scavenger sleeps on a timer the virtual clock must not run to)
patch("runtime/mgcscavenge.go", ("func (s *scavengerState) wake() {\n", "func (s *scavengerState) wake() {\n\tif true {\n\t\treturn\n\t}\n"))
patch("runtime/panic.go", ("\tpreprintpanics(&p)\n\n\tfatalpanic(&p)", "\tsimUncaught(&p)\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p)"))
for v in ("math/rand/rand.go", "math/rand/v2/rand.go"):
    patch(v, ("//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simRandCounter\n"))

# --- syscall ---------------------------------------------------------------
z = open(f"{src}/syscall/zsyscall_linux_amd64.go").read()
zz = open(f"{simdir}/std/syscall_zz_sim.go").read()
for name in sorted(set(re.findall(r"\b(\w+)__real\(", zz))):
    a = f"\nfunc {name}("
    if z.count(a) != 1:
        sys.exit(f"mkoverlay: zsyscall: {z.count(a)} definitions of {name}")
    z = z.replace(a, f"\nfunc {name}__real(")
emit(f"{src}/syscall/zsyscall_linux_amd64.go", z)
add("syscall/zz_sim.go", "syscall_zz_sim.go")
patch("syscall/exec_unix.go",
      ("func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
       "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif simNoExec() {\n\t\treturn 0, EPERM\n\t}\n"))

# --- internal/syscall/unix --------------------------------------------------
u = "internal/syscall/unix/"
patch(u + "at.go",
      ("func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif simOn() {\n\t\treturn syscall.ZzUnlinkat(dirfd, path, flags)\n\t}\n"),
      ("func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif simOn() {\n\t\treturn syscall.ZzOpenat(dirfd, path, flags, perm)\n\t}\n"),
      ("func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n", "func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n\tif simOn() {\n\t\treturn syscall.ZzReadlinkat(dirfd, path, buf)\n\t}\n"),
      ("func Mkdirat(dirfd int, path string, mode uint32) error {\n", "func Mkdirat(dirfd int, path string, mode uint32) error {\n\tif simOn() {\n\t\treturn syscall.ZzMkdirat(dirfd, path, mode)\n\t}\n"))
patch(u + "at_fstatat.go",
      ("func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif simOn() {\n\t\treturn syscall.ZzFstatat(dirfd, path, stat, flags)\n\t}\n"))
patch(u + "fcntl_unix.go",
      ("func Fcntl(fd int, cmd int, arg int) (int, error) {\n", "func Fcntl(fd int, cmd int, arg int) (int, error) {\n\tif fd >= syscall.SimFdBase {\n\t\treturn -1, syscall.EINVAL\n\t}\n"))
patch(u + "copy_file_range_unix.go",
      ("len int, flags int) (n int, err error) {\n", "len int, flags int) (n int, err error) {\n\tif simOn() {\n\t\treturn 0, syscall.ENOSYS\n\t}\n"))
patch(u + "getrandom.go",
      ("func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n", "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n\tif simOn() {\n\t\tfor i := range p {\n\t\t\tp[i] = byte(simRandCounter())\n\t\t}\n\t\treturn len(p), nil\n\t}\n"))
add(u + "zz_sim.go", "unix_zz_sim.go")

# --- os ----------------------------------------------------------------------
patch("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif simExit(code) {\n\t\treturn\n\t}\n"))
add("os/zz_sim.go", "os_zz_sim.go")

# --- net/http: every transport answers from the simulated network -----------
patch("net/http/roundtrip.go",
      ("func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n",
       "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n\tif SimTransport != nil && simActive() {\n\t\treturn SimTransport(req)\n\t}\n"))
add("net/http/zz_sim.go", "http_zz_sim.go")

# --- the repository: one extra file in package main, one extra package -------
emit(f"{repo}/zz_sim_main.go", open(f"{simdir}/main/zz_sim_main.go").read())
for f in sorted(os.listdir(f"{simdir}/zzsim")):
    if f.endswith(".go"):
        rep[f"{repo}/internal/zzsim/{f}"] = f"{simdir}/zzsim/{f}"

with open(out + "/overlay.json.tmp", "w") as f:
    json.dump({"Replace": rep}, f, indent=1)
os.replace(out + "/overlay.json.tmp", out + "/overlay.json")
