//go:build go1.27

package kit

import (
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/seam"
)

// Family D: the automatic update check of the vault and configuration commands.

const day = 86400

// record is the model of the last completed check.
type checkM struct {
	cfg   cfgM
	first bool // never configured
	valid bool
	at    int64
}

// due: 1 a check must happen, 0 it must not, -1 either (the day ends meanwhile).
func (m *checkM) due(from, to int64) int {
	if !m.cfg.notify {
		return 0
	}
	one := func(now int64) bool {
		return !m.valid || now < m.at || int((now-m.at)/day) >= m.cfg.period
	}
	a, b := one(from), one(to)
	if a != b {
		return -1
	}
	if a {
		return 1
	}
	return 0
}

// adopt reads the record off the disk.
func (m *checkM) adopt(w *World) {
	m.valid = false
	n := w.fs.get(lastFile)
	if n == nil || n.kind != kFile {
		return
	}
	v, err := strconv.ParseInt(strings.TrimSpace(string(n.data)), 10, 64)
	if err == nil && v < 1<<40 && v > -(1<<40) {
		m.valid, m.at = true, v
	}
}

// oddBodies are answers of the release server that are not a list of proper releases.
var oddBodies = []string{"", "null", "{}", "[]", "[null]", "[1]", "[\"x\"]", "[[]]", "[{}]", "[true, {}]", "0", "\"1.4.0\"", "[{\"tag_name\":null,\"assets\":[]}]",
	"[{\"tag_name\":14,\"assets\":[]}]", "[{\"tag_name\":[\"1.4.0\"],\"assets\":{}}]", "[{\"tag_name\":\"1.4.0\"}]", "[{\"tag_name\":\"1.4.0\",\"assets\":null,\"body\":null}]",
	"[{\"tag_name\":\"1.4.0\",\"assets\":\"none\",\"body\":7}]", "[{\"tag_name\":\"1.4.0\",\"assets\":[null,1,\"x\",[],{}],\"body\":[]}]",
	"[{\"tag_name\":\"1.4.0\",\"body\":\"x\",\"assets\":[{\"name\":null,\"browser_download_url\":null}]}]",
	"[{\"tag_name\":\"1.4.0\",\"body\":\"x\",\"assets\":[{\"name\":5,\"browser_download_url\":{}}]}]",
	"[{\"tag_name\":\"\",\"body\":\"\",\"assets\":[]}]", "[{\"tag_name\":\"...\",\"body\":\"\",\"assets\":[]}]", "[{\"tag_name\":\"99999999999999999999.1\",\"body\":\"\",\"assets\":[]}]",
	"[{\"tag_name\":\"x\",", "[{\"tag_name\":\"1.4.0\"}", "\xef\xbb\xbf[]", "[]x", "{\"message\":\"API rate limit exceeded\",\"documentation_url\":\"x\"}", "\xff\xfe\x00", "<html></html>", "[1e999]", "[{\"TAG_NAME\":\"9\"}]"}

// troubled puts the check into some kind of trouble; the returned text names
// it. may: the check can nevertheless complete.
func (w *World) troubled(s *srvM, timeout int) (what string, may bool) {
	t := w.T
	unit := time.Duration(timeout) * time.Second
	set := func(f func(rep reply) reply) { s.tweak = func(r *reqRec, k string, rep reply) reply { return f(rep) } }
	switch t.N(9) {
	case 0, 1, 2:
		return w.netFault(s, 1), true
	case 3:
		b := oddBodies[t.N(len(oddBodies))]
		set(func(rep reply) reply { rep.body = []byte(b); return rep })
		w.fault("http:odd-body")
		return "body " + quote(b), true
	case 4: // bytes keep coming, slower than useful
		gap := unit * time.Duration(5+t.N(90)) / 100
		set(func(rep reply) reply { rep.mode, rep.at, rep.drip = "drip", 1, gap; return rep })
		return "a byte every " + gap.String(), false
	case 5:
		gap := unit * time.Duration(5+t.N(90)) / 100
		set(func(rep reply) reply { rep.mode, rep.drip = "driphead", gap; return rep })
		return "a byte of the head every " + gap.String(), false
	case 6: // redirects
		to := t.Pick("https://api.github.com"+apiPath, "http://api.github.com"+apiPath, "https://elsewhere.example/x", "https://[::1", "ftp://x/y", "/again", "")
		set(func(rep reply) reply {
			rep.status, rep.body, rep.header = 302, nil, [][2]string{{"Location", to}}
			return rep
		})
		w.fault("http:redirect")
		return "redirected to " + quote(to), true
	case 7:
		d := unit + time.Duration(1+t.N(100))*unit/10
		set(func(rep reply) reply { rep.delay = d; return rep })
		w.fault("http:late")
		return "answer after " + d.String(), false
	}
	d := unit + time.Duration(1+t.N(100))*unit/10
	w.net.plan = func(r *dialRec) { r.delay = d }
	w.fault("dial:late")
	return "connected after " + d.String(), false
}

type checkEnv struct {
	v    *vaultM
	m    checkM
	s    *srvM
	ver  string
	new  bool
	good bool // the server answers properly
	may  bool // it might complete nevertheless
	what string
}

func (e *checkEnv) proper(w *World) {
	t := w.T
	e.ver, e.new = w.newer(), true
	if t.N(2) == 1 {
		e.ver, e.new = t.Pick("1.3.1", "1.3.0", "1.2.10", "0.9"), false
	}
	e.s = w.newServer(w.genRelease(e.ver))
	e.good, e.may, e.what = true, true, "release "+e.ver
	switch f := time.Duration(t.N(80)); t.N(4) {
	case 2:
		tm := time.Duration(e.m.cfg.timeout) * time.Second
		e.s.tweak = func(r *reqRec, k string, rep reply) reply { rep.delay = tm * f / 100; return rep }
	case 3:
		tm := time.Duration(e.m.cfg.timeout) * time.Second
		w.net.plan = func(d *dialRec) { d.delay = tm * f / 200 }
	}
}

func (e *checkEnv) trouble(w *World) {
	e.s = w.newServer(w.genRelease(w.newer()))
	e.good = false
	e.what, e.may = w.troubled(e.s, e.m.cfg.timeout)
}

func (w *World) checkEnv() *checkEnv {
	t := w.T
	w.jumpClock([]int64{0, 0, 0, 0, 0, 14, 25, -20}[t.N(8)] * 365 * day) // another era: beyond 2038, before the program
	e := &checkEnv{v: w.genVault(vopts{maxItems: 4, minItems: 1, simple: true, path: "/home/u/my.opvault"})}
	e.v.store(w)
	e.m.cfg = cfgM{vault: e.v.path, timeout: 1 + t.N(30), notify: t.N(5) != 4, period: []int{1, 0, 2, 7, 30, 365}[t.N(6)]}
	if t.N(6) == 5 {
		e.m.first, e.m.cfg = true, dfltCfg
	} else {
		w.setConfig(e.m.cfg)
	}
	w.fs.syncAll()
	w.remember()
	w.guardPlaces(e.v.dirs(w)...)
	return e
}

// also judges under several properties.
func (w *World) okFor(props []string, good bool, class, format string, a ...any) {
	for _, p := range props {
		w.ok(p, good, class, format, a...)
	}
}

var checkProps = []string{"C18", "C12"}

// command runs one command and judges its contacts, its duration and its result.
func (e *checkEnv) command(w *World, faulty bool) *Proc {
	t := w.T
	v := e.v
	it := w.pickItem(v)
	kind := t.Pick("list", "details", "overview", "configure", "categories")
	firstRun := e.m.first && kind != "configure" && kind != "categories"
	before := e.m.cfg
	var s spec
	c := vcmd{kind: kind, pass: v.pass, uid: it.uid, f: filter{trashed: it.trashed}, viaCfg: !e.m.first && e.m.cfg.vault == v.path && t.N(2) == 1}
	var d *dialog
	dlg := func() string {
		d = &dialog{q1: "n", lines: 99}
		if t.N(2) == 1 {
			d.q2 = t.Pick("y", "n")
		}
		if t.N(2) == 1 {
			d.q3 = itoa(1 + t.N(30))
		}
		if t.N(2) == 1 {
			d.q4 = itoa([]int{0, 1, 2, 5, 30}[t.N(5)])
		}
		return d.text()
	}
	switch kind {
	case "configure":
		s = spec{args: []string{"configure"}, stdin: dlg(), tty: true}
	case "categories":
		s = spec{args: []string{"categories"}, tty: true}
	default:
		s = w.spec(v, c)
		if firstRun {
			s.stdin = dlg() + s.stdin
		}
	}
	w0, t0 := w.wall(), w.now()
	p := w.exec(s, horizon)
	w.after(p, v)
	w1, took := w.wall(), w.now()-t0
	contacts := 0
	for _, d := range p.dials {
		if d.host == apiHost {
			contacts++
		}
	}
	blocked := w.fs.get(lastFile) != nil && w.fs.get(lastFile).kind == kDir
	// expectation: one check, two on a first run with the settings given meanwhile
	limit := 0
	expect := func() int {
		x := e.m.due(w0, w1)
		if x != 0 {
			limit += e.m.cfg.timeout
		}
		if x == 1 && e.good && !faulty && !blocked {
			e.m.valid, e.m.at = true, w0
		}
		return x
	}
	sure := true
	n1, n2 := expect(), 0
	if d != nil {
		e.m.cfg = d.apply(e.m.cfg)
		if !faulty || p.ok() {
			e.m.first = false
		}
	}
	if firstRun {
		n2 = expect()
		if n2 == 1 { // another timeout: the same answer may be in time now, or no longer
			n2, e.may = -1, true
		}
	}
	if n1 < 0 || n2 < 0 {
		sure = false
	}
	lo, hi := max(n1, 0)+max(n2, 0), abs(n1)+abs(n2)
	if faulty {
		lo = 0
		hi = ifi(before.notify || firstRun, 1+ifi(firstRun, 1, 0), 0)
		limit = hi * max(before.timeout, e.m.cfg.timeout)
	}
	what := e.what + ": " + p.describe0() + " with " + before.String()
	if p.killed && !p.hung() {
		e.m.adopt(w)
		return p
	}
	redirected := strings.HasPrefix(e.what, "redirected")
	w.okFor(checkProps, contacts >= lo, "no-check", "%s: the update check is due but the server was contacted %d times, expected %d", what, contacts, lo)
	w.okFor(checkProps, contacts <= hi || redirected && hi > 0, "uncalled-check", "%s: the update server was contacted %d times, expected %d", what, contacts, hi)
	if hi == 0 {
		w.okFor(checkProps, len(p.dials) == 0, "network", "%s: contacted %v without need", what, len(p.dials))
	}
	if e.good && lo > 0 && sure && !faulty && !blocked {
		got := checkM{}
		got.adopt(w)
		w.ok("C18", got.valid && got.at >= w0 && got.at <= w1, "not-recorded", "%s: the completed check is not recorded (record %v %d, time %d)", what, got.valid, got.at, w0)
		if got.valid && got.at >= w0 && got.at <= w1 {
			e.m.at = got.at
		}
	}
	told := strings.Count(string(p.out), "New version of 1pass is available")
	if e.good && !faulty && sure {
		want := 0
		if e.new {
			want = lo
		}
		w.okFor(checkProps, told == want, "announced", "%s: a new version was announced %d times, expected %d", what, told, want)
		w.okFor(checkProps, told == 0 || p.says(e.ver), "announced", "%s: the announced version is not %s", what, e.ver)
	}
	w.ok("C18", told == 0 || e.new || !e.good, "announced", "%s: announced %s", what, e.ver)
	// its own task
	why := ""
	switch kind {
	case "list":
		why = v.judgeList(p, c.f)
	case "details", "overview":
		why = v.judgeItem(p, it.uid, it.trashed, kind == "details")
	case "categories":
		if !p.ok() {
			why = p.describe()
		}
		for _, ct := range cats {
			if !p.says(" " + ct.name + " ") {
				why = "category " + ct.name + " is missing"
			}
		}
	case "configure":
		if !p.ok() {
			why = p.describe()
		} else if got, ok := p.shown(false); !ok || got.timeout != before.timeout || got.period != before.period || got.notify != before.notify {
			why = "the dialogue shows " + got.String()
		}
	}
	w.okFor([]string{"C18", "C19", "C24", "C12"}, why == "", "task", "%s: %s", what, why)
	w.okFor([]string{"C19", "C12"}, took <= time.Duration(limit)*time.Second+1500*time.Millisecond, "wait", "%s took %v, although the timeout is %d s", what, took, before.timeout)
	if !sure || faulty || !e.good && e.may {
		e.m.adopt(w)
	}
	return p
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func ifi(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// passTime moves the clock, mostly close to the end of the period.
func (e *checkEnv) passTime(w *World) string {
	t := w.T
	edge := func() int64 { return []int64{0, 1, -1, 2, -2, 3600, -3600, 60}[t.N(8)] }
	var to int64
	switch t.N(6) {
	case 0: // around the day it falls due
		if !e.m.valid {
			return ""
		}
		to = e.m.at + int64(e.m.cfg.period)*day + edge()
	case 1:
		to = w.wall() + int64(t.N(400))*day/4
	case 2:
		to = w.wall() + int64(t.N(120))
	case 3: // back
		to = w.wall() - int64(t.N(400))*day/4
	case 4:
		to = w.wall() - int64(t.N(100000))
	case 5:
		if !e.m.valid {
			return ""
		}
		to = e.m.at - int64(t.N(2*e.m.cfg.period+2))*day - edge()
	}
	d := to - w.wall()
	if d > 3000*day || d < -3000*day || to > wallBase2026+30*365*day || to < wallBase2026-30*365*day {
		return ""
	}
	w.jumpClock(d)
	if d < 0 {
		w.fault("clock-back")
	} else {
		w.fault("clock-forward")
	}
	return "clock " + strconv.FormatInt(d, 10) + " s"
}

// spoil changes the record behind the program's back.
func (e *checkEnv) spoil(w *World) string {
	t := w.T
	w.fs.mkdirAll(cfgDir, 0700)
	w.fs.remove(lastFile)
	w.fault("record-spoiled")
	txt := ""
	switch t.N(8) {
	case 0:
		e.m.adopt(w)
		return "record removed"
	case 1:
		w.fs.mkdirAll(lastFile, 0755)
		e.m.valid = false
		return "record is a directory"
	case 2:
		txt = t.Pick("", "x", "yesterday", "12:00", "1e9", "0x10", "1 2", "\x00\x00\x00", "1700000000.5", "--1", "99999999999999999999999")
	case 3:
		txt = t.Pick("0", "-1", "1", "-9223372036854775808", "9223372036854775807", "253402300800", "4102444800")
	case 4:
		txt = strconv.FormatInt(w.wall()+int64(1+t.N(800))*day/2, 10)
	case 5:
		txt = strconv.FormatInt(w.wall()-int64(t.N(800))*day/2, 10)
	case 6:
		txt = " " + strconv.FormatInt(w.wall()-int64(e.m.cfg.period)*day+int64(t.N(5))-2, 10) + "\n"
	case 7:
		txt = strconv.FormatInt(w.wall(), 10)
		txt = txt[:t.N(len(txt))]
	}
	w.fs.put(lastFile, []byte(txt), 0644)
	w.fs.syncAll()
	e.m.adopt(w)
	return "record " + quote(txt)
}

// asked is a check the user asks for: an update he declines, or a start of the interface.
func (e *checkEnv) asked(w *World) string {
	w0 := w.wall()
	var p *Proc
	if w.T.N(2) == 1 {
		s := newScreen(80, 24)
		p = w.spawn(spec{args: []string{"-v", e.v.path}, tty: true, gui: s})
		w.settle()
		w.sleep(time.Duration(e.m.cfg.timeout)*time.Second + 1500*time.Millisecond)
		if !p.gone() {
			s.ev <- seam.Event{Key: kCtrlQ}
			w.settle()
			if !p.gone() {
				p.kill("end")
				w.settle()
			}
		}
	} else {
		p = w.exec(spec{args: []string{"update"}, stdin: "n\n", tty: true}, horizon)
	}
	w.after(p, e.v)
	w1 := w.wall()
	n := w.fs.get(lastFile)
	got := checkM{}
	got.adopt(w)
	if e.good && (n == nil || n.kind != kDir) {
		w.ok("C18", got.valid && got.at >= w0 && got.at <= w1, "not-recorded", "%s: `%s`: the completed check is not recorded (record %v %d, time %d)", e.what, p.describe0(), got.valid, got.at, w0)
	}
	e.m.adopt(w)
	return p.describe0()
}

// C18/C19/C12: histories of commands, clocks, records and servers.
func scenCheckHistory(w *World) {
	t := w.T
	e := w.checkEnv()
	if e.m.first {
		e.m.adopt(w)
	} else if t.N(2) == 1 {
		e.spoil(w)
	}
	e.proper(w)
	var log []string
	for i, n := 0, 2+t.N(7); i < n; i++ {
		if t.N(3) == 2 {
			log = append(log, e.spoil(w))
		}
		if t.N(2) == 1 {
			log = append(log, e.passTime(w))
		}
		w.net.plan = func(*dialRec) {}
		if t.N(4) == 3 {
			e.trouble(w)
		} else {
			e.proper(w)
		}
		faulty := false
		if t.N(5) == 4 {
			faulty = true
			on := func(o *op) bool { return under(o.path, lastFile) }
			k := t.N(6)
			en := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS}[t.N(4)]
			switch t.N(3) {
			case 0:
				w.plan = at(on, k, func(o *op) *fault {
					if (en == syscall.ENOSPC || en == syscall.EROFS) && !o.mut && o.name != "write" {
						return nil
					}
					return &fault{kind: "errno", errno: en}
				})
			case 1:
				after, part := t.N(2) == 1, t.N(12)
				w.plan = at(on, k, func(o *op) *fault { return &fault{kind: t.Pick("kill", "power"), after: after, n: part} })
			case 2: // cannot be written for now
				w.plan = func(o *op) *fault {
					if on(o) && o.mut {
						return &fault{kind: "errno", errno: en}
					}
					return nil
				}
			}
		}
		if !faulty && !e.m.first && t.N(6) == 5 {
			log = append(log, e.asked(w))
			continue
		}
		p := e.command(w, faulty)
		w.plan = nil
		w.powered = false
		log = append(log, p.describe0()+ifs(faulty, " (fault)"))
		if faulty {
			// settings are judged elsewhere
			if w.fs.get(cfgFile) == nil {
				e.m.first, e.m.cfg = true, dfltCfg
			} else {
				e.m.first = false
				w.setConfig(e.m.cfg)
			}
			w.fs.syncAll()
		}
	}
	w.summary = strings.Join(log, "; ")
	if len(w.summary) > 150 {
		w.summary = w.summary[:150]
	}
}

// C19: one command, one kind of trouble.
func scenCheckTrouble(w *World) {
	e := w.checkEnv()
	if !e.m.first {
		e.m.cfg.notify, e.m.cfg.period = true, 0
		w.setConfig(e.m.cfg)
	}
	for i, n := 0, 1+w.T.N(3); i < n; i++ {
		w.net.plan = func(*dialRec) {}
		e.trouble(w)
		e.command(w, false)
	}
	if w.T.N(3) == 2 && !e.m.first { // and the update command itself
		w.net.plan = func(*dialRec) {}
		e.trouble(w)
		t0 := w.now()
		p := w.update(w.T.Pick("n\n", ""))
		took := w.now() - t0
		w.okFor([]string{"C19", "C24"}, !p.ok() && !p.hung() && p.crash == "" && p.message(), "update", "%s: declined update: %s", e.what, p.describe())
		w.ok("C19", took <= time.Duration(e.m.cfg.timeout)*time.Second+1500*time.Millisecond, "wait", "%s: update took %v, although the timeout is %d s", e.what, took, e.m.cfg.timeout)
	}
	w.summary = e.what
}

// C18: several commands at once.
func scenCheckRace(w *World) {
	t := w.T
	e := w.checkEnv()
	if e.m.first {
		e.m.first = false
		e.m.cfg.vault = e.v.path
		w.setConfig(e.m.cfg)
	}
	if t.N(2) == 1 {
		e.spoil(w)
	} else {
		e.m.adopt(w)
	}
	e.passTime(w)
	e.proper(w)
	w.benign = t.N(2) == 1
	w0 := w.wall()
	var ps []*Proc
	n := 2 + t.N(2)
	for i := 0; i < n; i++ {
		ps = append(ps, w.spawn(w.spec(e.v, vcmd{kind: "list", pass: e.v.pass, viaCfg: true})))
		for j, k := 0, t.N(30); j < k && w.step(); j++ {
		}
	}
	w.run(horizon, nil)
	w1 := w.wall()
	due := e.m.due(w0, w1)
	total := 0
	for _, p := range ps {
		w.after(p, e.v)
		k := 0
		for _, d := range p.dials {
			if d.host == apiHost {
				k++
			}
		}
		total += k
		w.ok("C18", k <= 1, "uncalled-check", "%s contacted the update server %d times", p.describe0(), k)
		if due == 0 {
			w.ok("C18", k == 0, "uncalled-check", "%s contacted the update server although no check is due", p.describe0())
		}
		why := e.v.judgeList(p, filter{})
		w.okFor([]string{"C18", "C19", "C24"}, why == "", "task", "several commands at once: %s", why)
	}
	if due == 1 {
		w.ok("C18", total > 0, "no-check", "a check is due but none of %d commands made it", n)
	}
	if x := w.fs.get(lastFile); due == 1 && (x == nil || x.kind == kFile) {
		got := checkM{}
		got.adopt(w)
		w.ok("C18", got.valid && got.at >= w0 && got.at <= w1, "not-recorded", "the completed check is not recorded")
	}
	w.summary = itoa(n) + " commands at once"
}
