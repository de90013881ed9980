//go:build go1.27

package kit

import (
	"bufio"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type scenario struct {
	name   string
	weight int
	f      func(w *World)
}

type property struct {
	id    string
	runs  int // runs of the quick tier
	scens []scenario
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

// Result of one simulated run.
type Result struct {
	Seed    uint64         `json:"seed"`
	Scen    string         `json:"scenario"`
	Class   string         `json:"class,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Tape    []uint32       `json:"tape,omitempty"`
	Hash    uint64         `json:"hash"`
	Shape   uint64         `json:"shape"`
	Ops     int            `json:"ops"`
	Checks  int            `json:"checks"`
	SimNS   int64          `json:"sim_ns"`
	Faults  map[string]int `json:"faults,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
	Procs   int            `json:"procs"`
	Kinds   []string       `json:"kinds,omitempty"`
	Overrun bool           `json:"overrun,omitempty"`
	Summary string         `json:"summary,omitempty"`
	Known   []string       `json:"known,omitempty"`
}

// runOnce executes one simulated run in a fresh bubble.
func runOnce(pr *property, t *Tape, only string, trace bool) (res *Result) {
	res = &Result{}
	done := make(chan struct{})
	var harnessPanic any
	var stack []byte
	go func() {
		defer close(done)
		sync.VerifBubble(func() {
			runtime.VerifSetProcID(harnessID)
			w := newWorld(t)
			w.keep = trace
			w.prop = pr.id
			cur = w
			w.tick()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(stopRun); !ok {
							harnessPanic = r
							stack = debug.Stack()
						}
					}
				}()
				ws := make([]int, len(pr.scens))
				for i, s := range pr.scens {
					ws[i] = s.weight
				}
				i := t.W(ws...)
				if only != "" {
					for j, s := range pr.scens {
						if s.name == only {
							i = j
						}
					}
				}
				res.Scen = pr.scens[i].name
				w.note(res.Scen)
				pr.scens[i].f(w)
			}()
			w.simEnd = w.now()
			w.shutdown()
			res.Hash = w.hash
			res.Ops, res.Checks = w.opCount, w.checks
			res.SimNS = int64(w.simEnd)
			res.Faults, res.Probes = w.Faults, w.Probes
			res.Trace = w.trace
			res.Procs = len(w.procs)
			res.Overrun = w.overrun
			res.Summary = w.summary
			res.Tape = t.rec
			if w.bad != nil {
				res.Class, res.Msg = w.bad.Class, w.bad.Msg
			}
			runtime.VerifSetRand(false, 0)
		})
		cur = nil
	}()
	<-done
	runtime.VerifSetRand(false, 0)
	time.VerifWallOffset = 0
	if harnessPanic != nil {
		fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", harnessPanic, stack)
		os.Exit(3)
	}
	return res
}

type stopRun struct{}

// stop ends the scenario (used after a violation).
func (w *World) stop() { panic(stopRun{}) }

func (w *World) failf(class, format string, a ...any) {
	w.violate(class, format, a...)
	w.stop()
}

func seedFor(base uint64, prop string, i int) uint64 {
	return mix64(fnvStr(base*0x9e3779b97f4a7c15+uint64(i)*0xbf58476d1ce4e5b9+1, prop))
}

var gcCount int

func tidy() {
	var ms runtime.MemStats
	gcCount++
	if gcCount%8 == 0 {
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 300<<20 {
			runtime.GC()
		}
	}
}

// Main takes over the process; it never returns on the first call.
func Main(m func()) {
	if appMain != nil {
		return
	}
	appMain = m
	done := make(chan int)
	go func() { done <- realMain() }()
	os.Exit(<-done)
}

func setupWorker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	initCA()
	b := make([]byte, 8)
	crand.Read(b)
	if _, err := x509.SystemCertPool(); err != nil {
		fmt.Fprintln(os.Stderr, "cert pool:", err)
		os.Exit(3)
	}
	loadGlobals()
	installHooks()
}

type workerOut struct {
	Runs    int            `json:"runs"`
	Ops     int64          `json:"ops"`
	Checks  int64          `json:"checks"`
	SimNS   int64          `json:"sim_ns"`
	Procs   int64          `json:"procs"`
	Faults  map[string]int `json:"faults"`
	Probes  map[string]int `json:"probes"`
	Scens   map[string]int `json:"scens"`
	Hashes  []uint64       `json:"hashes"`
	Bad     *Result        `json:"bad"`
	Samples []string       `json:"samples"`
	Overrun int            `json:"overrun"`
	Trivial int            `json:"trivial"`
	Leaked  int64          `json:"leaked"`
	Log     []string       `json:"log,omitempty"`
}

func realMain() int {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay|shrink|one ...")
		return 3
	}
	fl := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	from := fl.Int("from", 0, "")
	stride := fl.Int("stride", 1, "")
	count := fl.Int("count", 0, "")
	secs := fl.Float64("secs", 60, "")
	only := fl.String("only", "", "")
	file := fl.String("file", "", "")
	verif := fl.String("verif", "/verif", "")
	trace := fl.Bool("trace", false, "")
	logs := fl.Bool("log", false, "")
	workers := fl.Int("workers", 0, "")
	keepgoing := fl.Bool("k", false, "")
	progress := fl.String("progress", "", "")
	fl.Parse(os.Args[2:])
	pr := properties[*prop]
	if pr == nil && os.Args[1] != "replay" && os.Args[1] != "rerun" {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 3
	}
	switch os.Args[1] {
	case "check":
		return check(pr, *tier, *seed, *count, *secs, *verif, *workers, *only)
	case "worker":
		setupWorker()
		return worker(pr, *seed, *from, *stride, *count, *secs, *only, *logs, *keepgoing, *progress)
	case "one":
		setupWorker()
		r := runOnce(pr, NewTape(seedFor(*seed, pr.id, *from)), *only, true)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		fmt.Printf("scenario=%s ops=%d checks=%d sim=%v faults=%v probes=%v hash=%x tape=%d\n%s %s\n%s\n", r.Scen, r.Ops, r.Checks, time.Duration(r.SimNS), r.Faults, r.Probes, r.Hash, len(r.Tape), r.Class, r.Msg, r.Summary)
		return 0
	case "shrink":
		setupWorker()
		return shrinkMain(pr, *file, *secs)
	case "rerun":
		return rerun(*file)
	case "ca":
		prepareDir()
		return 0
	case "replay":
		setupWorker()
		return replayMain(*file, *trace)
	}
	return 3
}

func addMap(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

func worker(pr *property, seed uint64, from, stride, count int, secs float64, only string, logs, keepgoing bool, progress string) int {
	var pf *os.File
	if progress != "" {
		pf, _ = os.Create(progress)
	}
	out := workerOut{Faults: map[string]int{}, Probes: map[string]int{}, Scens: map[string]int{}}
	start := time.Now()
	for i := 0; i < count; i++ {
		if time.Since(start).Seconds() > secs {
			break
		}
		s := seedFor(seed, pr.id, from+i*stride)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", from+i*stride)), 0)
		}
		r := runOnce(pr, NewTape(s), only, false)
		r.Seed = s
		out.Runs++
		out.Ops += int64(r.Ops)
		out.Checks += int64(r.Checks)
		out.SimNS += r.SimNS
		out.Procs += int64(r.Procs)
		addMap(out.Faults, r.Faults)
		addMap(out.Probes, r.Probes)
		out.Scens[r.Scen]++
		if r.Checks > 0 && r.Procs > 0 {
			out.Hashes = append(out.Hashes, r.Hash)
		} else {
			out.Trivial++
		}
		if r.Overrun {
			out.Overrun++
		}
		if len(out.Samples) < 3 && r.Summary != "" {
			out.Samples = append(out.Samples, r.Scen+": "+r.Summary)
		}
		if logs {
			out.Log = append(out.Log, fmt.Sprintf("%d %x %s %d", from+i*stride, r.Hash, r.Class, len(r.Tape)))
		}
		if r.Class != "" {
			if keepgoing {
				fmt.Printf("run %d (-from %d) %s %s: %s\n", i, from+i*stride, r.Scen, r.Class, r.Msg)
			} else {
				out.Bad = r
				break
			}
		}
		tidy()
	}
	out.Leaked = runtime.VerifLeakedCount()
	if keepgoing {
		out.Hashes = nil
	}
	b, _ := json.Marshal(&out)
	os.Stdout.Write(append(b, '\n'))
	return 0
}

// ---------------------------------------------------------------- parent

func childEnv(dir string) []string {
	return []string{"HOME=/home/u", "TZ=UTC", "SSL_CERT_FILE=" + filepath.Join(dir, "ca.pem"), "SSL_CERT_DIR=/nonexistent", "GODEBUG=", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "GOTRACEBACK=single"}
}

func prepareDir() (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	dir := filepath.Dir(exe)
	initCA()
	return dir, os.WriteFile(filepath.Join(dir, "ca.pem"), caPEM, 0644)
}

func runChild(dir string, args ...string) ([]byte, error) {
	exe, _ := os.Executable()
	c := exec.Command(exe, args...)
	c.Env = childEnv(dir)
	c.Stderr = os.Stderr
	return c.Output()
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Base     uint64   `json:"verif_seed"`
	Hash     uint64   `json:"hash"`
	Choices  []uint32 `json:"choices"`
	FromLen  int      `json:"original_choices"`
	Trace    []string `json:"trace"`
	HowTo    string   `json:"how_to_replay"`
}

func check(pr *property, tier string, seed uint64, count int, secs float64, verif string, workers int, only string) int {
	t0 := time.Now()
	dir, err := prepareDir()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if count == 0 {
		count = pr.runs
	}
	if workers == 0 {
		workers = min(8, runtime.NumCPU())
	}
	per := (count + workers - 1) / workers
	outs := make([]*workerOut, workers)
	errs := make([]error, workers)
	lost := make([]string, workers)
	var wg sync.WaitGroup
	exe, _ := os.Executable()
	var mu sync.Mutex
	var cmds []*exec.Cmd
	found := false
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			a := []string{"worker", "-prop", pr.id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-stride", fmt.Sprint(workers), "-count", fmt.Sprint(per), "-secs", fmt.Sprint(secs)}
			if only != "" {
				a = append(a, "-only", only)
			}
			pf := filepath.Join(dir, fmt.Sprintf("progress-%s-%d", pr.id, i))
			os.Remove(pf)
			a = append(a, "-progress", pf)
			c := exec.Command(exe, a...)
			c.Env = childEnv(dir)
			c.Stderr = os.Stderr
			so, err := c.StdoutPipe()
			if err != nil {
				errs[i] = err
				return
			}
			if err := c.Start(); err != nil {
				errs[i] = err
				return
			}
			mu.Lock()
			cmds = append(cmds, c)
			mu.Unlock()
			watch := make(chan struct{})
			go func() {
				last, since := "", time.Now()
				for {
					select {
					case <-watch:
						return
					case <-time.After(time.Second):
					}
					b, _ := os.ReadFile(pf)
					if string(b) != last {
						last, since = string(b), time.Now()
					} else if time.Since(since) > stuckAfter {
						c.Process.Kill()
						return
					}
				}
			}()
			rd := bufio.NewReaderSize(so, 1<<20)
			b, rerr := rd.ReadBytes('\n')
			if rerr == nil {
				o := &workerOut{}
				if e := json.Unmarshal(b, o); e == nil {
					outs[i] = o
					if o.Bad != nil {
						mu.Lock()
						if !found {
							found = true
							for _, d := range cmds {
								if d != c {
									d.Process.Kill()
								}
							}
						}
						mu.Unlock()
					}
				}
			}
			err = c.Wait()
			close(watch)
			if outs[i] == nil {
				errs[i] = fmt.Errorf("worker %d: %v", i, err)
				b, _ := os.ReadFile(pf)
				lost[i] = strings.TrimSpace(string(b))
			}
		}(i)
	}
	wg.Wait()
	agg := workerOut{Faults: map[string]int{}, Probes: map[string]int{}, Scens: map[string]int{}}
	hs := map[uint64]bool{}
	var bad, stuck *Result
	for i, o := range outs {
		if o == nil {
			if !found {
				fmt.Fprintln(os.Stderr, "check error:", errs[i])
				if lost[i] != "" {
					if r := confirmLost(pr, seed, lost[i], dir); r != nil {
						found, stuck = true, r
						continue
					}
				}
				return 3
			}
			continue
		}
		agg.Runs += o.Runs
		agg.Ops += o.Ops
		agg.Checks += o.Checks
		agg.SimNS += o.SimNS
		agg.Procs += o.Procs
		agg.Overrun += o.Overrun
		agg.Trivial += o.Trivial
		agg.Leaked += o.Leaked
		addMap(agg.Faults, o.Faults)
		addMap(agg.Probes, o.Probes)
		addMap(agg.Scens, o.Scens)
		for _, h := range o.Hashes {
			hs[h] = true
		}
		agg.Samples = append(agg.Samples, o.Samples...)
		if o.Bad != nil && bad == nil {
			bad = o.Bad
		}
	}
	simWall := time.Since(t0).Seconds()
	code := 0
	if bad != nil {
		code = report(pr, bad, seed, dir, verif)
		if code == 3 {
			return 3
		}
	}
	if bad == nil && stuck != nil {
		os.MkdirAll(filepath.Join(verif, "replays"), 0755)
		out := filepath.Join(verif, "replays", fmt.Sprintf("%s-%016x.json", pr.id, stuck.Seed))
		writeJSON(out, replayFile{Property: pr.id, Class: stuck.Class, Message: stuck.Msg, Seed: stuck.Seed, Base: seed, HowTo: "bash /verif/replay.sh FILE"})
		fmt.Printf("%s: %s\n", stuck.Class, stuck.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, out)
		code = 1
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	for _, k := range knownFindings(verif, pr.id) {
		fmt.Println(k)
	}
	if len(agg.Samples) > 6 {
		agg.Samples = agg.Samples[:6]
	}
	if len(agg.Samples) == 0 {
		agg.Samples = []string{"(no sample recorded)"}
	}
	cov := map[string]any{
		"evaluations":            agg.Runs,
		"distinct_nontrivial":    len(hs),
		"rule":                   "one evaluation = one simulated run (seeded workload, schedule and faults) of the real program in the simulator; non-trivial = at least one simulated process ran and at least one oracle was evaluated; distinct = different hash of the complete event history (system calls with results, faults, network requests, screen frames, exits)",
		"samples":                agg.Samples,
		"runs_per_hour":          int(float64(agg.Runs) / simWall * 3600),
		"simulated_seconds":      float64(agg.SimNS) / 1e9,
		"simulated_processes":    agg.Procs,
		"system_calls_simulated": agg.Ops,
		"oracle_evaluations":     agg.Checks,
		"faults_injected":        agg.Faults,
		"probes":                 agg.Probes,
		"scenarios":              agg.Scens,
		"runs_over_step_budget":  agg.Overrun,
		"leaked_goroutines":      agg.Leaked,
		"real_code":              "all of /repo's five modules (main, CLI, GUI widgets, services, repositories, updater), cobra, go-pretty, gocui, yaml, net/http, crypto/tls, encoding/json, archive/tar, compress/gzip, os, io",
		"stubbed":                "system calls (simulated disk, process table, clock, terminal line discipline), TCP (in-memory connections), the update server, the full-screen terminal below termbox's cell buffer, randomness",
	}
	ev := map[string]any{"property": pr.id, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{"Go 1.27.3 runtime and standard library above the system-call layer behave in the simulation as in production", "disk model: metadata changes become durable in order, unsynced file data may be complete, reverted, torn or zeroed after power loss, fsync makes a file and earlier metadata durable", "goroutines run one at a time (GOMAXPROCS=1); interleavings are explored at system calls, network and timer events"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", pr.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s: %d runs, %d distinct, %d oracle evaluations, %.0f simulated s, %d faults, %.1f s\n", pr.id, agg.Runs, len(hs), agg.Checks, float64(agg.SimNS)/1e9, sum(agg.Faults), time.Since(t0).Seconds())
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func knownFindings(verif, id string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

const stuckAfter = 60 * time.Second

// confirmLost repeats, alone, the run during which a worker was lost. A run
// that again never comes back, or again takes the whole process down, is a
// hang or a fatal error of the program: nothing in the simulator waits for
// real time.
func confirmLost(pr *property, base uint64, idx, dir string) *Result {
	exe, _ := os.Executable()
	c := exec.Command(exe, "worker", "-prop", pr.id, "-seed", fmt.Sprint(base), "-from", idx, "-count", "1", "-secs", "600")
	c.Env = childEnv(dir)
	var sb strings.Builder
	c.Stderr = &sb
	tm := time.AfterFunc(stuckAfter, func() { c.Process.Kill() })
	t0 := time.Now()
	_, err := c.Output()
	tm.Stop()
	if err == nil {
		return nil
	}
	var n int
	fmt.Sscan(idx, &n)
	r := &Result{Seed: seedFor(base, pr.id, n)}
	if strings.Contains(sb.String(), "harness panic") {
		return nil
	}
	if time.Since(t0) >= stuckAfter {
		r.Class, r.Msg = "stuck", "the program computes without end (no system call, no waiting) in run "+idx
		return r
	}
	if l := sb.String(); strings.Contains(l, "fatal error:") || strings.Contains(l, "stack overflow") || strings.Contains(l, "out of memory") {
		r.Class, r.Msg = "fatal", "the program ends with a fatal runtime error in run "+idx+": "+firstLine(l)
		return r
	}
	return nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "exceeds") || strings.Contains(l, "out of memory") {
			return l
		}
	}
	return ""
}

// report minimises, confirms in a fresh process and writes the replay file.
func report(pr *property, bad *Result, base uint64, dir, verif string) int {
	tmp := filepath.Join(dir, "bad-"+pr.id+".json")
	rf := replayFile{Property: pr.id, Scenario: bad.Scen, Class: bad.Class, Message: bad.Msg, Seed: bad.Seed, Base: base, Choices: bad.Tape, FromLen: len(bad.Tape)}
	writeJSON(tmp, rf)
	try := func(file string) *replayFile {
		b, err := runChild(dir, "replay", "-file", file, "-trace")
		var r Result
		if jerr := json.Unmarshal(lastLine(b), &r); jerr != nil {
			fmt.Fprintln(os.Stderr, "replay failed:", err, jerr)
			return nil
		}
		var f replayFile
		rb, _ := os.ReadFile(file)
		json.Unmarshal(rb, &f)
		if r.Class != f.Class {
			return nil
		}
		f.Hash, f.Message, f.Trace = r.Hash, r.Msg, r.Trace
		return &f
	}
	orig := try(tmp)
	if orig == nil {
		fmt.Fprintf(os.Stderr, "check error: violation %s (%s) in scenario %s, seed %d, did not reproduce in a fresh process\n", bad.Class, bad.Msg, bad.Scen, bad.Seed)
		return 3
	}
	final := orig
	if b, err := runChild(dir, "shrink", "-prop", pr.id, "-file", tmp, "-secs", "40"); err == nil {
		var min replayFile
		if json.Unmarshal(lastLine(b), &min) == nil && len(min.Choices) > 0 {
			min.FromLen = len(bad.Tape)
			mt := tmp + ".min"
			writeJSON(mt, min)
			f1 := try(mt)
			f2 := try(mt)
			if f1 != nil && f2 != nil && f1.Hash == f2.Hash {
				final = f1
			}
		}
	}
	final.HowTo = "bash /verif/replay.sh FILE"
	os.MkdirAll(filepath.Join(verif, "replays"), 0755)
	out := filepath.Join(verif, "replays", fmt.Sprintf("%s-%016x.json", pr.id, bad.Seed))
	writeJSON(out, final)
	fmt.Printf("%s: %s\n", final.Class, final.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, out)
	return 1
}

func lastLine(b []byte) []byte {
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	return []byte(ls[len(ls)-1])
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func replayMain(file string, trace bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	pr := properties[rf.Property]
	tape := ReplayTape(rf.Choices)
	if len(rf.Choices) == 0 {
		tape = NewTape(rf.Seed)
	}
	r := runOnce(pr, tape, rf.Scenario, trace)
	r.Tape = nil
	ob, _ := json.Marshal(r)
	os.Stdout.Write(append(ob, '\n'))
	if r.Class != "" {
		return 1
	}
	return 0
}

// rerun replays a file in a fresh process and tells whether it is the same
// execution.
func rerun(file string) int {
	dir, err := prepareDir()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	fb, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(fb, &rf) != nil {
		fmt.Fprintln(os.Stderr, "cannot read", file)
		return 3
	}
	b, _ := runChild(dir, "replay", "-file", file, "-trace")
	var r Result
	if err := json.Unmarshal(lastLine(b), &r); err != nil {
		fmt.Fprintln(os.Stderr, "replay did not end normally")
		return 3
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Class == "" {
		fmt.Println("no violation")
		return 0
	}
	same := "the execution differs from the recorded one"
	if r.Hash == rf.Hash && r.Class == rf.Class {
		same = "exactly the recorded execution"
	}
	fmt.Printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", r.Class, r.Msg, same, rf.Property, file)
	return 1
}

func shrinkMain(pr *property, file string, secs float64) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 3
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return 3
	}
	start := time.Now()
	best := append([]uint32(nil), rf.Choices...)
	tries := 0
	ok := func(c []uint32) bool {
		if time.Since(start).Seconds() > secs {
			return false
		}
		tries++
		r := runOnce(pr, ReplayTape(c), rf.Scenario, false)
		tidy()
		return r.Class == rf.Class && r.Scen == rf.Scenario
	}
	trim := func(c []uint32) []uint32 {
		for len(c) > 1 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	best = trim(best)
	// cut the tail
	for lo, hi := 1, len(best); lo < hi; {
		mid := (lo + hi) / 2
		if ok(best[:mid]) {
			best = append([]uint32(nil), best[:mid]...)
			hi = mid
		} else {
			lo = mid + 1
		}
		hi = min(hi, len(best))
	}
	for pass := 0; pass < 4 && time.Since(start).Seconds() < secs; pass++ {
		before := fmt.Sprint(best)
		for size := max(1, len(best)/2); size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				if time.Since(start).Seconds() > secs {
					break
				}
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if len(c) > 0 && ok(c) {
					best = c
					continue
				}
				z := append([]uint32(nil), best...)
				nz := false
				for j := i; j < i+size; j++ {
					if z[j] != 0 {
						nz = true
					}
					z[j] = 0
				}
				if nz && ok(z) {
					best = z
				}
				i += size
			}
		}
		for i := range best {
			for best[i] > 0 {
				c := append([]uint32(nil), best...)
				c[i] = best[i] / 2
				if !ok(c) {
					c[i] = best[i] - 1
					if best[i] > 40 || !ok(c) {
						break
					}
				}
				best = c
			}
		}
		best = trim(best)
		if fmt.Sprint(best) == before {
			break
		}
	}
	rf.Choices = best
	ob, _ := json.Marshal(rf)
	os.Stdout.Write(append(ob, '\n'))
	return 0
}

func sortedInts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "=" + itoa(m[k]) + " ")
	}
	return sb.String()
}
