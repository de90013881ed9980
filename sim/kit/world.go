//go:build go1.27

package kit

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// World is one simulated machine (disk, clock, terminal, network) together
// with the scheduler that decides everything that happens on it.
type World struct {
	T        *Tape
	fs       *FS
	procs    []*Proc
	pending  []*op
	arrive   chan struct{}
	seq      int
	epoch    uint64
	rtseed   uint64
	start    time.Time
	hash     uint64
	trace    []string
	keep     bool // keep the human-readable trace
	opCount  int
	maxOps   int
	plan     func(o *op) *fault
	Faults   map[string]int
	Probes   map[string]int
	hist     map[string]int
	muts     []mutation
	writes   []writeRec
	onMut    func(o *op)
	onTry    func(o *op, m mutation)
	onOp     func(o *op)
	net      *Net
	scr      *ScreenModel
	benign   bool // inject legal I/O irregularities
	benignN  int
	cfgLink  string // the settings file is a symbolic link to this file
	dents    int    // most directory entries one call delivers (0: no limit)
	rnd      bulk
	exePath  string
	env      map[string]string
	powered  bool
	overrun  bool
	bad      *Violation
	simEnd   time.Duration
	wallBase int64
	sched    func(n int) int
	checks   int
	summary  string
	prop     string
	scanned  int

	guiVault    string
	preexisting map[string]bool
}

type mutation struct {
	what string
	path string
	p    *Proc
}

type writeRec struct {
	path string
	data []byte
	p    *Proc
}

// Violation is a broken property, found in one run.
type Violation struct {
	Class string // stable class, used by minimisation
	Msg   string
}

type fault struct {
	kind  string // errno short eintr errafter kill power delay
	errno syscall.Errno
	n     int
	after bool
	d     time.Duration
}

type op struct {
	p     *Proc
	name  string
	path  string
	path2 string
	fd    int
	size  int
	mut   bool
	data  bool // read/write/getdents
	limit int
	exec  func(o *op) (int, error)
	ret   int
	err   error
	die   bool
	delay time.Duration
	ch    chan struct{}
	seq   int
	nth   int
	flt   string
}

type fdesc struct {
	n      *inode
	path   string
	pos    int64
	flags  int
	dirs   []string
	dirpos int
	devIn  bool
}

// Proc is one simulated process running the real main().
type Proc struct {
	w        *World
	id       uint64
	name     string
	args     []string
	stdin    []byte
	inPos    int
	inChunk  func() int
	inTTY    bool
	ttyFail  bool
	inErr    syscall.Errno
	inStall  bool
	out      []byte
	errOut   []byte
	exited   bool
	code     int
	crash    string
	stack    string
	killed   bool
	reason   string
	fds      map[int]*fdesc
	nextFd   int
	cwd      string
	exe      string
	exeNode  *inode
	startT   time.Duration
	endT     time.Duration
	unwind   map[uint64]bool
	dead     chan struct{}
	umask    uint32
	ops      int
	denied   []string
	execs    []string
	conns    []*simConn
	dials    []dialRec
	gui      *ScreenModel
	locks    []*inode
	readPast int
	noEcho   bool
	echoed   []byte
}

var appMain func()

// cur is the active world of this OS process (one at a time).
var cur *World

const harnessID = 1

func newWorld(t *Tape) *World {
	w := &World{T: t, fs: newFS(), arrive: make(chan struct{}, 1), Faults: map[string]int{}, Probes: map[string]int{}, hist: map[string]int{}, maxOps: 60000, hash: 14695981039346656037}
	w.start = time.Now()
	w.rtseed = uint64(t.N(1 << 20))
	w.rnd = bulk{s: w.rtseed * 7919}
	w.net = newNet(w)
	w.env = map[string]string{"HOME": "/home/u"}
	w.exePath = "/usr/bin/1pass"
	w.fs.mkdirAll("/tmp", 0777)
	w.fs.mkdirAll("/home/u", 0755)
	w.fs.mkdirAll("/usr/bin", 0755)
	w.fs.mkdirAll("/etc", 0755)
	w.fs.mkdirAll("/dev", 0755)
	n := w.fs.newNode(kDev, 0666, 1)
	n.devname = "null"
	dev := w.fs.get("/dev")
	dev.children["null"], dev.dchild["null"] = n, n
	w.fs.put(w.exePath, oldBinary, 0755)
	w.wallBase = 1_790_000_000 - 946684800 // autumn 2026
	time.VerifWallOffset = w.wallBase
	return w
}

var oldBinary = []byte("\x7fELF-1pass-1.3.1-installed-binary-" + strings.Repeat("old!", 40))

func (w *World) now() time.Duration { return time.Since(w.start) }

func (w *World) wall() int64 { return time.Now().Unix() }

func (w *World) jumpClock(sec int64) { time.VerifWallOffset += sec }

func (w *World) tick() {
	w.epoch++
	runtime.VerifSetRand(true, mix64(w.rtseed*0x9e3779b97f4a7c15+w.epoch))
}

func (w *World) logf(format string, a ...any) {
	if w.keep {
		w.trace = append(w.trace, fmt.Sprintf("%12s #%-4d ", w.now(), w.seq)+fmt.Sprintf(format, a...))
	}
}

func (w *World) note(parts ...string) {
	for _, s := range parts {
		w.hash = fnvStr(w.hash, s)
	}
}

func (w *World) probe(name string) { w.Probes[name]++ }

func (w *World) fault(kind string) { w.Faults[kind]++ }

func (w *World) violate(class, format string, a ...any) {
	if w.bad == nil {
		w.bad = &Violation{class, fmt.Sprintf(format, a...)}
		w.logf("VIOLATION %s: %s", class, w.bad.Msg)
	}
}

// ---------------------------------------------------------------- processes

type spec struct {
	args  []string
	stdin string
	tty   bool
	chunk func() int
	exe   string
	cwd   string
	gui   *ScreenModel
}

// spawn starts the real main() as a new simulated process.
func (w *World) spawn(s spec) *Proc {
	sync.VerifWait() // whatever was resumed last gets to its next system call first
	p := &Proc{w: w, id: uint64(16 + len(w.procs)), args: append([]string{"1pass"}, s.args...), stdin: []byte(s.stdin), inTTY: s.tty, inChunk: s.chunk,
		fds: map[int]*fdesc{}, nextFd: 1 << 20, cwd: "/home/u", exe: w.exePath, unwind: map[uint64]bool{}, dead: make(chan struct{}), umask: 022}
	if s.exe != "" {
		p.exe = s.exe
	}
	if s.cwd != "" {
		p.cwd = s.cwd
	}
	p.name = "P" + itoa(len(w.procs))
	p.exeNode = w.fs.get(p.exe)
	p.gui = s.gui
	p.startT = w.now()
	alive := false
	for _, q := range w.procs {
		if !q.gone() {
			alive = true
		}
	}
	w.procs = append(w.procs, p)
	if !alive {
		restoreGlobals()
	}
	os.Args = p.args
	w.tick()
	w.logf("%s start: %s", p.name, strings.Join(p.args, " "))
	w.note("spawn", strings.Join(s.args, " "))
	go func() {
		runtime.VerifSetProcID(p.id)
		if !alive {
			reinit()
		}
		appMain()
		p.finish(0, "")
	}()
	sync.VerifWait() // up to its first system call, while os.Args is its own
	return p
}

func (p *Proc) gone() bool { return p.exited || p.killed }

func (p *Proc) close() {
	select {
	case <-p.dead:
	default:
		close(p.dead)
		p.endT = p.w.now()
		for _, c := range p.conns {
			c.processDied()
		}
		p.locks = nil
	}
}

func (p *Proc) finish(code int, crash string) {
	if p.gone() {
		return
	}
	p.exited, p.code, p.crash = true, code, crash
	p.w.logf("%s exit %d %s", p.name, code, crash)
	p.w.note("exit", itoa(code))
	p.close()
	p.w.poke()
}

func (p *Proc) kill(why string) {
	if p.gone() {
		return
	}
	p.killed, p.reason = true, why
	p.w.logf("%s killed: %s", p.name, why)
	p.w.note("killed", why)
	p.close()
	p.w.poke()
}

func (w *World) poke() {
	select {
	case w.arrive <- struct{}{}:
	default:
	}
}

// me returns the calling simulated process, or nil for the harness.
func (w *World) me() *Proc {
	id := runtime.VerifProcID()
	if id >= 16 && int(id-16) < len(w.procs) {
		return w.procs[id-16]
	}
	if id == 2 { // timer callback: attribute to the newest living process
		for i := len(w.procs) - 1; i >= 0; i-- {
			if !w.procs[i].gone() {
				return w.procs[i]
			}
		}
		if len(w.procs) > 0 {
			return w.procs[len(w.procs)-1]
		}
	}
	return nil
}

// die ends the calling goroutine of a dead process; while its deferred calls
// run, further system calls fail without effect.
func (p *Proc) die() {
	g := runtime.VerifGoid()
	if !p.unwind[g] {
		p.unwind[g] = true
		runtime.Goexit()
	}
}

func simActive() bool {
	id := runtime.VerifProcID()
	return cur != nil && (id >= 16 || id == 2)
}

func hookExit(code int) {
	if !simActive() {
		return
	}
	p := cur.me()
	p.unwind[runtime.VerifGoid()] = true
	p.finish(code, "")
	runtime.Goexit()
}

func hookPanic(v any) {
	w := cur
	if w == nil {
		return
	}
	p := w.me()
	if p == nil {
		return
	}
	g := runtime.VerifGoid()
	p.unwind[g] = true
	if !p.gone() {
		msg := ""
		if e, ok := v.(error); ok {
			msg = e.Error()
		} else {
			msg = fmt.Sprint(v)
		}
		p.stack = string(debug.Stack())
		p.finish(2, "panic: "+msg)
	}
	// the runtime ends the goroutine: its deferred calls have run already
}

// ---------------------------------------------------------------- scheduler

// submit parks the calling goroutine until the scheduler executes the call.
func (w *World) submit(p *Proc, o *op) (int, error) {
	if p.gone() {
		p.die()
		return -1, syscall.EIO
	}
	o.p = p
	o.limit = -1
	o.ch = make(chan struct{})
	w.seq++
	o.seq = w.seq
	p.ops++
	o.nth = p.ops
	w.pending = append(w.pending, o)
	w.poke()
	<-o.ch
	if o.delay > 0 {
		select {
		case <-time.After(o.delay):
		case <-p.dead:
		}
	}
	if o.die || p.gone() {
		p.die()
		return -1, syscall.EIO
	}
	return o.ret, o.err
}

func (w *World) anyAlive() bool {
	for _, p := range w.procs {
		if !p.gone() {
			return true
		}
	}
	return false
}

// step executes one parked call; false if there is none.
func (w *World) step() bool {
	sync.VerifWait()
	if len(w.pending) == 0 {
		return false
	}
	// canonical order first: arrival order must not matter
	best := w.pending
	idx := 0
	if len(best) > 1 {
		sortOps(best)
		if w.sched != nil {
			idx = w.sched(len(best))
		} else {
			idx = w.T.N(len(best))
		}
	}
	o := best[idx]
	w.pending = append(append([]*op(nil), best[:idx]...), best[idx+1:]...)
	w.execute(o)
	return true
}

func sortOps(a []*op) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && (a[j].p.id < a[j-1].p.id || a[j].p.id == a[j-1].p.id && (a[j].name < a[j-1].name || a[j].name == a[j-1].name && a[j].nth < a[j-1].nth)); j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (w *World) execute(o *op) {
	p := o.p
	w.opCount++
	w.tick()
	os.Args = p.args
	if p.gone() {
		o.die = true
		close(o.ch)
		return
	}
	if w.opCount > w.maxOps {
		w.overrun = true
		p.kill("step budget exhausted")
		o.die = true
		close(o.ch)
		return
	}
	var f *fault
	if w.plan != nil {
		f = w.plan(o)
	}
	if f == nil && w.benign {
		f = w.benignFault(o)
	}
	if f != nil {
		o.flt = f.kind
	}
	switch {
	case f == nil:
		o.ret, o.err = o.exec(o)
	case f.kind == "errno" || f.kind == "eintr":
		o.ret, o.err = -1, f.errno
		w.fault(f.kind + ":" + errName(f.errno))
	case f.kind == "errafter":
		o.ret, o.err = o.exec(o)
		if o.err == nil {
			o.ret, o.err = -1, f.errno
			w.fault("errafter:" + errName(f.errno))
		}
	case f.kind == "short":
		o.limit = f.n
		o.ret, o.err = o.exec(o)
		w.fault("short")
	case f.kind == "delay":
		o.ret, o.err = o.exec(o)
		o.delay = f.d
		w.fault("delay")
	case f.kind == "kill" || f.kind == "power":
		if f.after {
			o.limit = f.n
			o.ret, o.err = o.exec(o)
		}
		w.fault(f.kind)
		pos := "before "
		if f.after {
			pos = "after "
		}
		w.trop(o)
		if f.kind == "kill" {
			p.kill("SIGKILL " + pos + o.name)
		} else {
			w.powerLoss("power lost " + pos + o.name)
		}
		o.die = true
		if w.onOp != nil {
			w.onOp(o)
		}
		close(o.ch)
		return
	}
	w.trop(o)
	if w.onOp != nil {
		w.onOp(o)
	}
	close(o.ch)
}

func (w *World) powerLoss(why string) {
	for _, q := range w.procs {
		if !q.gone() {
			q.kill(why)
		}
	}
	d := w.fs.powerLoss(w.T)
	w.powered = true
	w.logf("disk after power loss: %s", d)
	w.note("power", d)
}

func (w *World) trop(o *op) {
	e := ""
	if o.err != nil {
		e = errStr(o.err)
	}
	w.note(o.p.name, o.name, o.path, itoa(o.ret), e, o.flt)
	if w.keep {
		s := o.p.name + " " + o.name + " " + o.path
		if o.path2 != "" {
			s += " -> " + o.path2
		}
		if o.data {
			s += " [" + itoa(o.size) + "]"
		}
		s += " = " + itoa(o.ret)
		if e != "" {
			s += " " + e
		}
		if o.flt != "" {
			s += "   <- injected " + o.flt
		}
		w.logf("%s", s)
	}
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EXDEV:
		return "EXDEV"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EPERM:
		return "EPERM"
	case syscall.ESTALE:
		return "ESTALE"
	case syscall.EBUSY:
		return "EBUSY"
	case syscall.ENFILE:
		return "ENFILE"
	}
	return e.Error()
}

func errStr(e error) string {
	if n, ok := e.(syscall.Errno); ok {
		return errName(n)
	}
	return e.Error()
}

// settle runs everything runnable without letting time pass.
func (w *World) settle() {
	for w.step() {
	}
}

// run lets the world go on until cond holds, all processes ended, or the
// simulated horizon passes; it reports whether cond (or the end) was reached.
func (w *World) run(horizon time.Duration, cond func() bool) bool {
	end := time.Now().Add(horizon)
	for {
		w.settle()
		if cond != nil && cond() {
			return true
		}
		if cond == nil && !w.anyAlive() {
			w.settle()
			return true
		}
		left := time.Until(end)
		if left <= 0 {
			return false
		}
		w.tick()
		tm := time.NewTimer(left)
		select {
		case <-w.arrive:
			tm.Stop()
		case <-tm.C:
		}
	}
}

// sleep lets simulated time pass.
func (w *World) sleep(d time.Duration) { w.run(d, func() bool { return false }) }

// shutdown ends everything so that the bubble can be left.
func (w *World) shutdown() {
	w.plan, w.benign = nil, false
	w.onOp, w.onMut, w.onTry = nil, nil, nil
	for _, p := range w.procs {
		if !p.gone() {
			p.kill("end of run")
		}
	}
	for i := 0; i < 50; i++ {
		sync.VerifWait()
		if len(w.pending) == 0 {
			break
		}
		ops := w.pending
		w.pending = nil
		for _, o := range ops {
			o.die = true
			close(o.ch)
		}
	}
	w.net.shutdown()
	sync.VerifWait()
}

// runTo runs a single process to its end within the horizon.
func (w *World) runTo(p *Proc, horizon time.Duration) bool {
	return w.run(horizon, func() bool { return p.gone() })
}

// exec runs one command to its end (killing it at the horizon).
func (w *World) exec(s spec, horizon time.Duration) *Proc {
	p := w.spawn(s)
	if !w.runTo(p, horizon) {
		p.kill("did not finish within " + horizon.String())
		p.reason = "hang"
		w.settle()
	}
	w.settle()
	return p
}

func (p *Proc) hung() bool {
	return p.killed && (p.reason == "hang" || p.reason == "step budget exhausted")
}

func (p *Proc) ok() bool { return p.exited && p.crash == "" && p.code == 0 }

// legal irregularities every program has to cope with
func (w *World) benignFault(o *op) *fault {
	if !o.data && o.name != "openat" {
		return nil
	}
	b := &w.rnd
	switch b.n(6) {
	case 0:
		if (o.name == "read" || o.name == "pread") && o.size > 1 {
			return &fault{kind: "short", n: 1 + b.n(min(o.size, 4096))}
		}
		if (o.name == "write" || o.name == "pwrite") && o.size > 1 {
			return &fault{kind: "short", n: 1 + b.n(o.size-1)}
		}
	case 1:
		if b.n(3) == 0 {
			return &fault{kind: "eintr", errno: syscall.EINTR}
		}
	}
	return nil
}
