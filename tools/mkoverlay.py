#!/usr/bin/env python3
"""Generates the build overlay for the simulator.

usage: mkoverlay.py OUTDIR

Everything the application can use to reach the outside world is routed, when
(and only when) a simulation is active in the calling goroutine, to hooks that
the simulator installs.  The Go standard library is patched *in a build
overlay only* (go build -overlay): neither GOROOT nor /repo is touched.
Every replacement is anchored on exact text and fails loudly when the anchor
is missing (wrong Go version): such a failure is an error of the check, never
a verdict.
"""
import json, os, re, subprocess, sys, shutil

OUT = os.path.abspath(sys.argv[1])
GOROOT = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
SRC = os.path.join(GOROOT, "src")
replace = {}

def die(msg):
    sys.stderr.write("mkoverlay: " + msg + "\n"); sys.exit(3)

def put(rel, text):
    dst = os.path.join(OUT, "std", rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f: f.write(text)
    replace[os.path.join(SRC, rel)] = dst

def patch(rel, *subs):
    with open(os.path.join(SRC, rel)) as f: t = f.read()
    for old, new in subs:
        if t.count(old) != 1: die("%s: anchor found %d times: %r" % (rel, t.count(old), old))
        t = t.replace(old, new)
    put(rel, t)

# ---------------------------------------------------------------- runtime
patch("runtime/runtime2.go", ("	labels          unsafe.Pointer // profiler labels\n",
      "	labels          unsafe.Pointer // profiler labels\n	verifProc       uint64\n	verifSel        uint64\n"))
patch("runtime/proc.go",
  ("		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		newg.verifProc = 0\n		newg.verifSel = 0\n		if mp.curg != nil {\n			newg.verifProc = mp.curg.verifProc\n		}\n"),
  ("const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1000 * 3600 * 1000 * 1000 * 1000"))
patch("runtime/rand.go",
  ("//go:linkname rand\nfunc rand() uint64 {\n", "//go:linkname rand\nfunc rand() uint64 {\n	if verifRandOn {\n		return verifRandVal\n	}\n"),
  ("//go:linkname cheaprand\n//go:nosplit\nfunc cheaprand() uint32 {\n", "//go:linkname cheaprand\n//go:nosplit\nfunc cheaprand() uint32 {\n	if verifRandOn {\n		return uint32(verifRandVal >> 17)\n	}\n"))
patch("runtime/select.go",
  ("		j := cheaprandn(uint32(norder + 1))\n		pollorder[norder]", "		j := cheaprandn(uint32(norder + 1))\n		if verifRandOn && gp.bubble != nil {\n			j = verifPick(gp, uint32(norder+1))\n		}\n		pollorder[norder]"))
patch("internal/runtime/maps/runtime_alg.go",
  ("	key := (*[hashRandomBytes / 8]uint64)(unsafe.Pointer(&aeskeysched))\n", "	key := (*[hashRandomBytes / 8]uint64)(unsafe.Pointer(&aeskeysched))\n	if true { // fixed keys: hash order must be a function of the simulation seed only\n		for i := range key {\n			key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)\n		}\n		return\n	}\n"))
patch("runtime/panic.go",
  ("	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n", "	preprintpanics(&p)\n\n	if verifPanicHook != nil && verifProcID() >= 16 {\n		verifPanicHook(p.arg)\n		goexit1()\n	}\n\n	fatalpanic(&p)   // should not return\n"))
patch("runtime/synctest.go",
  ("	if total != 1 {\n		var reason string\n", "	if total != 1 && verifLeakOK && bubble.done {\n		verifLeaked += int64(total - 1)\n		return\n	}\n	if total != 1 {\n		var reason string\n"))
put("runtime/verif.go", '''package runtime

import "unsafe"

var verifRandOn bool
var verifRandVal uint64
var verifPanicHook func(any)
var verifLeakOK bool
var verifLeaked int64

// verifPick draws from a stream of the goroutine's own: with the one value per
// epoch of cheaprand, a loop over a select with two ready cases would always
// take the same one.
func verifPick(gp *g, n uint32) uint32 {
	gp.verifSel++
	x := verifRandVal + gp.verifSel*0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return uint32(uint64(uint32(x>>31)) * uint64(n) >> 32)
}

//go:nosplit
func verifProcID() uint64 {
	gp := getg()
	if gp.verifProc == 0 && gp.bubble != nil {
		return 2
	}
	return gp.verifProc
}

// VerifProcID: 0 outside any simulation, 1 harness, 2 timer callback inside a
// simulation, >=16 a simulated process.
func VerifProcID() uint64 { return verifProcID() }

func VerifSetProcID(id uint64) { getg().verifProc = id }

func VerifGoid() uint64 { return getg().goid }

func VerifSetRand(on bool, v uint64) {
	verifRandVal = v
	verifRandOn = on
}

func VerifSetPanicHook(f func(any)) { verifPanicHook = f }

func VerifLeakMode(on bool) { verifLeakOK = on }

func VerifLeakedCount() int64 { return verifLeaked }

// VerifInitTasks lists the package initialisation tasks in execution order;
// VerifRunInit runs one whose state was reset.
func VerifInitTasks() []uintptr {
	var out []uintptr
	for m := &firstmoduledata; m != nil; m = m.next {
		for _, t := range m.inittasks {
			out = append(out, uintptr(unsafe.Pointer(t)))
		}
	}
	return out
}

func VerifRunInit(t uintptr) { doInit1((*initTask)(unsafe.Pointer(t))) }
''')
put("sync/verif.go", '''package sync

import "internal/synctest"

// VerifBubble runs f in a virtual-time bubble; VerifWait waits for quiescence.
func VerifBubble(f func()) { synctest.Run(f) }

func VerifWait() { synctest.Wait() }
''')
# ---------------------------------------------------------------- time
# simulated processes have a monotonic clock, so that wall-clock jumps behave as in production
patch("runtime/time.go", ("		return sec, nsec, 0\n", "		return sec, nsec, bubble.now\n"))
patch("time/time.go", ("	sec, nsec, mono := runtimeNow()\n	if mono == 0 {\n		return Time{uint64(nsec), sec + unixToInternal, Local}\n",
      "	sec, nsec, mono := runtimeNow()\n	sec += VerifWallOffset\n	if mono == 0 {\n		return Time{uint64(nsec), sec + unixToInternal, Local}\n"),
      ("//go:linkname Now\n", "// VerifWallOffset shifts the wall clock (seconds); monotonic time is untouched.\nvar VerifWallOffset int64\n\n//go:linkname Now\n"))
# ---------------------------------------------------------------- syscall
with open(os.path.join(SRC, "syscall/zsyscall_linux_amd64.go")) as f: z = f.read()
HOOKED = ["fchmodat","fchmodat2","linkat","openat","readlinkat","symlinkat","unlinkat","utimensat","Getcwd","Chdir","Close",
  "Fchdir","Fchmod","Fchown","Fchownat","Fdatasync","Fsync","Flock","fcntl","Getdents","Mkdirat","read","write","Fstat","Ftruncate","pread","pwrite",
  "Renameat","Seek","Truncate","fstatat","faccessat","faccessat2","Fallocate","Sync","Umask","Getpid","Getuid","Geteuid"]
# harmless for the outside world: left alone
ALLOW = {"Getppid","Gettid","Getgid","Getegid","Getrusage","Times","munmap","mmap","Madvise","Mprotect","Mlock","Munlock",
  "Mlockall","Munlockall","Nanosleep","exitThread","readlen","prlimit1","Sysinfo","Uname","getgroups","EpollCreate1","EpollCtl","EpollWait","Getpriority","Getpgid"}
HOOKSIG = {}
def hook_func(m):
    name, params, results = m.group(1), m.group(2), m.group(3) or ""
    names = [p.strip().split()[0] for p in params.split(",")] if params.strip() else []
    if name in HOOKED:
        HOOKSIG[name] = (params, results, names)
        hn = "V" + name
        call = "VerifH.%s(%s)" % (hn, ", ".join(names))
        ret = "return " + call if results else call + "\n		return"
        return m.group(0) + "\n	if VerifH != nil && VerifH.Active() {\n		%s\n	}" % ret
    if name in ALLOW: return m.group(0)
    if "err error" in results:
        return m.group(0) + "\n	if VerifH != nil && VerifH.Active() {\n		err = VerifH.Deny(\"%s\")\n		return\n	}" % name
    return m.group(0)
z2 = re.sub(r"^func (\w+)\(([^\n]*?)\) ?(\([^\n()]*\) )?\{$", hook_func, z, flags=re.M)
missing = [n for n in HOOKED if n not in HOOKSIG]
if missing: die("syscalls not found: %s" % missing)
put("syscall/zsyscall_linux_amd64.go", z2)
fields = "\n".join("	V%s func(%s) %s" % (n, p, r.strip()) for n, (p, r, _) in HOOKSIG.items())
put("syscall/verif.go", '''package syscall

// VerifHooks routes system calls of simulated goroutines to the simulator.
type VerifHooks struct {
	Active func() bool
	Deny   func(name string) error
	Exec   func(argv0 string) error
%s
}

var VerifH *VerifHooks
''' % fields)
patch("syscall/exec_unix.go", ("func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
   "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n	if VerifH != nil && VerifH.Active() {\n		return 0, VerifH.Exec(argv0)\n	}\n"),
  ("func Exec(argv0 string, argv []string, envv []string) (err error) {\n", "func Exec(argv0 string, argv []string, envv []string) (err error) {\n	if VerifH != nil && VerifH.Active() {\n		return VerifH.Exec(argv0)\n	}\n"))
G = "	if syscall.VerifH != nil && syscall.VerifH.Active() {\n		return syscall.VerifH.%s\n	}\n"
patch("internal/syscall/unix/at.go",
 ("func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n" + G % "Vunlinkat(dirfd, path, flags)"),
 ("func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n" + G % "Vopenat(dirfd, path, flags, perm)"),
 ("func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n", "func Readlinkat(dirfd int, path string, buf []byte) (int, error) {\n" + G % "Vreadlinkat(dirfd, path, buf)"),
 ("func Mkdirat(dirfd int, path string, mode uint32) error {\n", "func Mkdirat(dirfd int, path string, mode uint32) error {\n" + G % "VMkdirat(dirfd, path, mode)"),
 ("func Fchownat(dirfd int, path string, uid, gid int, flags int) error {\n", "func Fchownat(dirfd int, path string, uid, gid int, flags int) error {\n" + G % "VFchownat(dirfd, path, uid, gid, flags)"),
 ("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {\n" + G % "VRenameat(olddirfd, oldpath, newdirfd, newpath)"),
 ("func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {\n", "func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {\n" + G % "Vlinkat(olddirfd, oldpath, newdirfd, newpath, flag)"),
 ("func Symlinkat(oldpath string, newdirfd int, newpath string) error {\n", "func Symlinkat(oldpath string, newdirfd int, newpath string) error {\n" + G % "Vsymlinkat(oldpath, newdirfd, newpath)"))
patch("internal/syscall/unix/at_fstatat.go",
 ("func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n" + G % "Vfstatat(dirfd, path, stat, flags)"))
patch("internal/syscall/unix/copy_file_range_unix.go",
 ("flags int) (n int, err error) {\n", "flags int) (n int, err error) {\n	if syscall.VerifH != nil && syscall.VerifH.Active() {\n		return 0, syscall.ENOSYS\n	}\n"))
patch("internal/syscall/unix/fcntl_unix.go",
 ("func Fcntl(fd int, cmd int, arg int) (int, error) {\n", "func Fcntl(fd int, cmd int, arg int) (int, error) {\n" + G % "Vfcntl(fd, cmd, arg)"))
# ---------------------------------------------------------------- os
patch("os/proc.go", ("func Exit(code int) {\n", "// VerifExit, when set, sees every Exit of a simulated process (and does not return).\nvar VerifExit func(code int)\n\nfunc Exit(code int) {\n	if VerifExit != nil {\n		VerifExit(code)\n	}\n"))
patch("os/executable.go", ("func Executable() (string, error) {\n", "// VerifExecutable, when set, answers Executable for a simulated process.\nvar VerifExecutable func() (string, error, bool)\n\nfunc Executable() (string, error) {\n	if VerifExecutable != nil {\n		if p, err, ok := VerifExecutable(); ok {\n			return p, err\n		}\n	}\n"))
# ---------------------------------------------------------------- net
patch("net/dial.go", ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n",
  "// VerifDial, when set, dials for simulated processes.\nvar VerifDial func(ctx context.Context, network, address string) (Conn, error, bool)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n	if VerifDial != nil {\n		if c, err, ok := VerifDial(ctx, network, address); ok {\n			return c, err\n		}\n	}\n"))
# ---------------------------------------------------------------- randomness
patch("crypto/internal/sysrand/rand.go", ("func Read(b []byte) {\n", "// VerifRead, when set, supplies randomness to simulated processes.\nvar VerifRead func(b []byte) bool\n\nfunc Read(b []byte) {\n	if VerifRead != nil && VerifRead(b) {\n		return\n	}\n"))
put("crypto/rand/verif.go", '''package rand

import "crypto/internal/sysrand"

// VerifSetRead installs a source of randomness for simulated processes.
func VerifSetRead(f func(b []byte) bool) { sysrand.VerifRead = f }
''')
with open(os.path.join(OUT, "std.json"), "w") as f: json.dump(replace, f, indent=1)
