//go:build go1.27

package kit

import (
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Family B: the settings.

var dfltCfg = cfgM{vault: "", timeout: 1, notify: true, period: 1}

type dialog struct {
	q1, path, q2, q3, q4 string
	asks                 bool // the path question is asked
	lines                int  // how many lines the user gives before input ends
}

var cfgPaths = []string{"/home/u/vault.opvault", "/home/u/my vault.opvault", "/mnt/usb stick/1Password (backup).opvault", "relative/vault.opvault", "/home/u/a: b #c.opvault", "/home/u/säfe.opvault", "~/x.opvault", "C:\\vault", "/home/u/y", "n", "007", "null", "- x", "\"quoted\"", "'s'", "%s%d", "{a}", "true", "&a", "*b", "!c", "@d", "/home/u/trailing.opvault/", "/a,b/c;d.opvault", "//double//slash.opvault", "./x/../y.opvault", "/home/u/a\tb.opvault", "/home/u/two  spaces.opvault", "$HOME/v.opvault"}

func (w *World) genCfg() cfgM {
	t := w.T
	c := cfgM{vault: cfgPaths[t.N(len(cfgPaths))], timeout: 1 + t.N(30), notify: t.N(2) == 0, period: t.N(366), style: t.N(2)}
	if t.N(3) == 2 {
		c.extra = "custom-key: keep me\nanother: 42\n"
	}
	if t.N(8) == 7 {
		c.vault = ""
	}
	return c
}

func yesno(s string) (bool, bool) {
	switch strings.TrimSpace(s) {
	case "y", "Y":
		return true, true
	case "n", "N":
		return false, true
	}
	return false, false
}

func number(s string, lo, hi int) (int, bool) {
	n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if err != nil || n < int64(lo) || n > int64(hi) {
		return 0, false
	}
	return int(n), true
}

func (w *World) genDialog() *dialog {
	t := w.T
	yn := func() string {
		return t.Pick("", "y", "n", "Y", "N", "x", "yep", " y ", "nope thanks", "1", "y n", "yn", "-", "ü", "no", "yes", "NO", "Yes", "true", "0")
	}
	num := func(hi int) string {
		switch t.N(9) {
		case 0:
			return ""
		case 1, 2, 3:
			return itoa(t.N(hi + 1))
		case 4:
			return itoa(hi)
		case 5:
			return itoa(hi + 1 + t.N(40))
		case 6:
			return t.Pick("0", "1", "-1", "-5", "99999999999999999999", "4294967297", "18446744073709551617", "0x5", "1e1", "3.5", "5s", "five", "5 6", "１２")
		case 7:
			return " " + itoa(1+t.N(hi)) + " "
		}
		return t.Pick("y", "n", "/home/u/x", "abc def")
	}
	d := &dialog{q1: yn(), lines: 99}
	v, ok := yesno(d.q1)
	d.asks = ok && v
	if t.N(2) == 1 {
		d.q1, d.asks = "y", true
	}
	if d.asks {
		d.path = cfgPaths[t.N(len(cfgPaths))]
		switch t.N(6) {
		case 5:
			d.path = ""
		case 4:
			d.path = " " + d.path + "  "
		}
	}
	d.q2, d.q3, d.q4 = yn(), num(30), num(365)
	if t.N(6) == 5 {
		d.lines = t.N(5)
	}
	return d
}

func (d *dialog) answers() []string {
	a := []string{d.q1}
	if d.asks {
		a = append(a, d.path)
	}
	a = append(a, d.q2, d.q3, d.q4)
	return a
}

// text is what the user types; from the cut on, input ends.
func (d *dialog) text() string {
	a := d.answers()
	if d.lines < len(a) {
		s := strings.Join(a[:d.lines], "\n")
		if d.lines > 0 {
			s += "\n"
		}
		return s
	}
	return strings.Join(a, "\n") + "\n"
}

// apply: the settings after the dialogue.
func (d *dialog) apply(c cfgM) cfgM {
	get := func(i int, s string) string {
		if i >= d.lines {
			return ""
		}
		return s
	}
	i := 0
	v, ok := yesno(get(i, d.q1))
	i++
	if ok && v {
		if p := strings.TrimSpace(get(i, d.path)); p != "" {
			c.vault = p
		}
	}
	if d.asks {
		i++
	}
	if v, ok := yesno(get(i, d.q2)); ok {
		c.notify = v
	}
	if n, ok := number(get(i+1, d.q3), 1, 30); ok {
		c.timeout = n
	}
	if n, ok := number(get(i+2, d.q4), 0, 365); ok {
		c.period = n
	}
	return c
}

func (c cfgM) same(o cfgM) bool {
	return c.vault == o.vault && c.timeout == o.timeout && c.notify == o.notify && c.period == o.period
}

func (c cfgM) String() string {
	return "vault " + quote(c.vault) + ", notify " + boolStr(c.notify) + ", timeout " + itoa(c.timeout) + ", period " + itoa(c.period)
}

func between(s, a, b string) (string, bool) {
	i := strings.Index(s, a)
	if i < 0 {
		return "", false
	}
	s = s[i+len(a):]
	j := strings.Index(s, b)
	if j < 0 {
		return "", false
	}
	return s[:j], true
}

// shown reads the current settings off the prompts of a dialogue. The vault
// path is shown only when it is asked for.
func (p *Proc) shown(withPath bool) (c cfgM, ok bool) {
	out := string(p.out)
	n, ok1 := between(out, "Update notifications? (", ")")
	t, ok2 := between(out, "timeout in seconds (", ")")
	d, ok3 := between(out, "updates in days (", ")")
	c.notify = n == "y"
	var e1, e2 error
	c.timeout, e1 = strconv.Atoi(t)
	c.period, e2 = strconv.Atoi(d)
	ok = ok1 && ok2 && ok3 && e1 == nil && e2 == nil && (n == "y" || n == "n")
	if withPath {
		v, ok4 := between(out, "Default OPVault path (", "): ")
		c.vault = v
		ok = ok && ok4
	}
	return
}

// probe asks the program for its settings (every answer but the first empty).
func (w *World) cfgProbe() (cfgM, string) {
	plan, ben := w.plan, w.benign
	w.plan, w.benign = nil, false
	p := w.exec(spec{args: []string{"configure"}, stdin: "y\n\n\n\n\n", tty: true}, horizon)
	w.plan, w.benign = plan, ben
	w.after(p, nil)
	if !p.ok() {
		return cfgM{}, p.describe() + ": " + quote(tail(string(p.out)+string(p.errOut), 160))
	}
	c, ok := p.shown(true)
	if !ok {
		return c, "the dialogue does not show the settings: " + quote(tail(string(p.out), 300))
	}
	return c, ""
}

// resetCfg puts the stored settings back (nil: never configured).
func (w *World) resetCfg(c *cfgM) {
	w.fs.syncAll()
	if w.cfgLink != "" {
		w.fs.remove(w.cfgLink)
	}
	for _, k := range sortedKeys(w.fs.mkdirAll(cfgDir, 0700).children) {
		w.fs.remove(cfgDir + "/" + k)
	}
	if c != nil {
		w.setConfig(*c)
	} else if d := w.fs.get("/home/u/.config"); d != nil {
		w.fs.remove(cfgDir)
	}
	w.fs.syncAll()
}

func (w *World) startCfg() *cfgM {
	var old *cfgM
	if w.T.N(4) != 3 {
		c := w.genCfg()
		old = &c
	} else if w.T.N(3) == 2 {
		w.fs.mkdirAll(cfgDir, 0700)
	}
	if old != nil {
		if w.T.N(6) == 5 {
			w.cfgLink = w.T.Pick("/home/u/dotfiles/onepass.yml", "/mnt/etc/1pass.yml")
		}
		w.setConfig(*old)
	}
	w.fs.syncAll()
	return old
}

func orDflt(c *cfgM) cfgM {
	if c == nil {
		return dfltCfg
	}
	return *c
}

// C12: dialogues.
func scenDialog(w *World) {
	w.guardPlaces()
	w.remember()
	old := w.startCfg()
	cur := orDflt(old)
	w.benign = w.T.N(2) == 1
	n := 1 + w.T.N(3)
	extra := ""
	if old != nil {
		extra = old.extra
	}
	for i := 0; i < n; i++ {
		d := w.genDialog()
		s := spec{args: []string{"configure"}, stdin: d.text(), tty: w.T.N(3) != 2}
		if w.T.N(3) == 2 {
			s.chunk = func() int { return 1 + w.rnd.n(4) }
		}
		if d.lines >= len(d.answers()) && w.T.N(8) == 7 {
			s.stdin = strings.TrimSuffix(s.stdin, "\n")
		}
		p := w.exec(s, horizon)
		w.after(p, nil)
		what := "dialogue " + quote(s.stdin)
		w.ok("C12", p.ok(), "dialogue", "%s: %s", what, p.describe())
		w.ok("C24", p.ok() && p.says("configured"), "false-result", "%s: %s", what, p.describe())
		if sh, ok := p.shown(false); ok {
			sh.vault = cur.vault
			w.ok("C12", sh.same(cur), "settings", "%s shows the settings as %s, they are %s", what, sh, cur)
		}
		cur = d.apply(cur)
		got, why := w.cfgProbe()
		w.ok("C12", why == "", "dialogue", "after %s: %s", what, why)
		w.ok("C12", got.same(cur), "settings", "after %s the settings are %s, expected %s", what, got, cur)
		w.ok("C24", why == "" && got.same(cur), "false-result", "%s reported as saved, but the settings are %s, expected %s %s", what, got, cur, why)
	}
	if extra != "" {
		b, _ := w.fs.read(cfgFile)
		w.ok("C12", strings.Contains(string(b), "custom-key: keep me") && strings.Contains(string(b), "another: 42"), "unknown-lost", "settings unknown to the program are gone: %s", quote(string(b)))
	}
	w.summary = itoa(n) + " dialogues, last " + cur.String()
}

// C12: the first run of a vault command configures, then does its task.
func scenFirstRun(w *World) {
	v := w.genVault(vopts{maxItems: 5, minItems: 1, simple: true, path: "/home/u/" + w.T.Pick("vault", "my vault", "v2") + ".opvault"})
	v.store(w)
	w.fs.syncAll()
	w.remember()
	w.guardPlaces(v.dirs(w)...)
	w.benign = w.T.N(2) == 1
	d := w.genDialog()
	d.lines = 99
	if w.T.N(2) == 1 {
		d.q1, d.asks, d.path = "y", true, v.path
	}
	want := d.apply(dfltCfg)
	it := w.pickItem(v)
	c := vcmd{kind: w.T.Pick("list", "details", "overview"), uid: it.uid, f: filter{trashed: it.trashed}, pass: v.pass}
	s := w.spec(v, c)
	c.viaCfg = want.vault == v.path && w.T.N(3) > 0
	s = w.spec(v, c)
	s.stdin = d.text() + v.pass + "\n"
	if w.T.N(3) == 2 {
		s.chunk = func() int { return 1 + w.rnd.n(4) }
	}
	p := w.exec(s, horizon)
	w.after(p, v)
	why := ""
	if c.kind == "list" {
		why = v.judgeList(p, c.f)
	} else {
		why = v.judgeItem(p, it.uid, it.trashed, c.kind == "details")
	}
	w.ok("C12", why == "", "first-run", "first run with dialogue %s: %s", quote(s.stdin), why)
	w.ok("C24", why == "", "false-result", "first run: %s", why)
	// the next run is an ordinary one and uses the settings
	c.viaCfg = want.vault == v.path
	q := w.vrun(v, c)
	why = ""
	if c.kind == "list" {
		why = v.judgeList(q, c.f)
	} else {
		why = v.judgeItem(q, it.uid, it.trashed, c.kind == "details")
	}
	w.ok("C12", why == "", "governs", "run after the first one: %s", why)
	got, why := w.cfgProbe()
	w.ok("C12", why == "" && got.same(want), "settings", "after the first run with %s the settings are %s, expected %s %s", quote(s.stdin), got, want, why)
	w.summary = "first run of " + c.kind
}

// C12: the stored timeout, period and notification govern later runs is
// covered with the update checks (family D); the default vault here.
func scenDefaultVault(w *World) {
	a := w.genVault(vopts{maxItems: 4, minItems: 1, simple: true, path: "/home/u/a one.opvault"})
	b := w.genVault(vopts{maxItems: 4, minItems: 1, simple: true, path: "/home/u/b.opvault"})
	a.store(w)
	b.store(w)
	w.quietConfig(a.path)
	w.fs.syncAll()
	w.remember()
	w.guardPlaces(a.path, b.path)
	cur := a
	for i, n := 0, 2+w.T.N(4); i < n; i++ {
		if w.T.N(2) == 1 {
			nx := a
			if cur == a {
				nx = b
			}
			p := w.exec(spec{args: []string{"configure"}, stdin: "y\n" + nx.path + "\n\n\n\n", tty: true}, horizon)
			w.after(p, nil)
			w.ok("C12", p.ok(), "dialogue", "%s", p.describe())
			cur = nx
		} else {
			p := w.vrun(cur, vcmd{kind: "list", pass: cur.pass, viaCfg: true})
			why := cur.judgeList(p, filter{})
			w.ok("C12", why == "", "governs", "default vault %s: %s", cur.path, why)
		}
		if w.T.N(3) == 2 { // an explicit vault wins over the default and does not change it
			o := a
			if cur == a {
				o = b
			}
			p := w.vrun(o, vcmd{kind: "list", pass: o.pass})
			why := o.judgeList(p, filter{})
			w.ok("C12", why == "", "governs", "explicit vault %s: %s", o.path, why)
		}
	}
	p := w.vrun(cur, vcmd{kind: "list", pass: cur.pass, viaCfg: true})
	why := cur.judgeList(p, filter{})
	w.ok("C12", why == "", "governs", "default vault %s: %s", cur.path, why)
	w.summary = "default vault changed and used"
}

// genNew draws a dialogue that changes something.
func (w *World) genChange(cur cfgM) (*dialog, cfgM) {
	d := w.genDialog()
	d.lines = 99
	if nw := d.apply(cur); nw.same(cur) {
		d.q3 = itoa(1 + (cur.timeout+w.T.N(20))%30)
		if d.apply(cur).same(cur) {
			d.q3 = itoa(1 + cur.timeout%30)
		}
	}
	return d, d.apply(cur)
}

func anyOp(o *op) bool { return true }

// faultPlan draws what happens at one of the recorded calls.
func (w *World) faultPlan(ops []opRec, keep func(o *op) bool) (what string) {
	t := w.T
	if len(ops) == 0 {
		return ""
	}
	// calls that change something carry most of the weight
	var mut []int
	for i, r := range ops {
		if r.mut {
			mut = append(mut, i)
		}
	}
	k := t.N(len(ops))
	if len(mut) > 0 && t.N(4) > 0 {
		k = mut[t.N(len(mut))]
	}
	r := ops[k]
	at1 := r.name + " " + r.path + " (call " + itoa(k) + ")"
	switch t.N(7) {
	case 0, 1:
		kind := t.Pick("kill", "power")
		after := t.N(2) == 1
		n := -1
		if after && r.data && r.size > 0 && t.N(2) == 1 {
			n = t.N(r.size + 1)
		}
		w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: kind, after: after, n: n} })
		return kind + ifs(after, " after") + " " + at1
	case 2, 3:
		e := w.errFor(r)
		if e == syscall.ENOENT { // the disk does not lie about what exists
			e = syscall.EIO
		}
		w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "errno", errno: e} })
		return errName(e) + " from " + at1
	case 4: // the disk is full from here on
		e := []syscall.Errno{syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS, syscall.EIO}[t.N(4)]
		cnt := 0
		part := t.N(2) == 1
		w.plan = func(o *op) *fault {
			if !keep(o) {
				return nil
			}
			cnt++
			if cnt-1 < k {
				return nil
			}
			if !o.mut || o.name == "unlink" || o.name == "close" {
				return nil
			}
			if part && o.data && o.size > 1 {
				part = false
				return &fault{kind: "short", n: o.size / 2}
			}
			return &fault{kind: "errno", errno: e}
		}
		return "from " + at1 + " on " + errName(e)
	case 5: // part of the data, then killed or an error
		cut := 0
		if r.size > 1 {
			cut = t.N(r.size)
		}
		mode := t.N(3)
		cnt, armed := 0, false
		w.plan = func(o *op) *fault {
			if !keep(o) {
				return nil
			}
			cnt++
			if cnt-1 == k && o.data {
				armed = true
				if cut > 0 {
					return &fault{kind: "short", n: cut}
				}
			}
			if armed {
				armed = false
				if mode == 0 {
					return &fault{kind: "kill"}
				} else if mode == 1 {
					return &fault{kind: "power"}
				}
				return &fault{kind: "errno", errno: syscall.ENOSPC}
			}
			return nil
		}
		return "short " + at1 + " then trouble"
	default: // the error is reported although the call took effect
		e := syscall.EIO
		w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "errafter", errno: e} })
		return "EIO after " + at1
	}
}

// C11: saving is cut short.
func scenCfgCrash(w *World) {
	w.remember()
	w.guardPlaces()
	old := w.startCfg()
	cur := orDflt(old)
	d, nw := w.genChange(cur)
	s := spec{args: []string{"configure"}, stdin: d.text(), tty: true}
	var base *Proc
	ops := w.record(anyOp, func() { base = w.exec(s, horizon) })
	w.after(base, nil)
	w.ok("C11", base.ok(), "not-saved", "without any fault: %s", base.describe())
	got, why := w.cfgProbe()
	w.ok("C11", why == "" && got.same(nw), "not-saved", "without any fault the settings are %s, expected %s %s", got, nw, why)
	w.resetCfg(old)
	rounds := 1 + w.T.N(2)
	for i := 0; i < rounds; i++ {
		what := w.faultPlan(ops, anyOp)
		p := w.exec(s, horizon)
		w.plan = nil
		w.after(p, nil)
		if w.T.N(8) == 7 && !w.powered {
			w.powerLoss("power lost later")
			what += ", power lost later"
		}
		saved := p.ok()
		w.ok("C11", p.crash == "" && !p.hung(), "crash", "with %s: %s", what, p.describe())
		if p.exited && p.crash == "" && p.code != 0 {
			w.ok("C24", p.message(), "silent", "with %s: %s", what, p.describe())
		}
		got, why := w.cfgProbe()
		w.ok("C11", why == "", "unusable", "after %s: %s", what, why)
		w.ok("C11", got.same(cur) || got.same(nw), "mixed", "after %s the settings are %s; before %s; entered %s", what, got, cur, nw)
		if saved && !w.powered {
			w.ok("C11", got.same(nw), "not-saved", "with %s the dialogue reported success, but the settings are %s, entered %s", what, got, nw)
			w.ok("C24", got.same(nw), "false-result", "with %s the dialogue reported success, but the settings are %s, entered %s", what, got, nw)
		}
		if old != nil && old.extra != "" {
			b, _ := w.fs.read(cfgFile)
			w.ok("C11", strings.Contains(string(b), "custom-key: keep me"), "mixed", "after %s a setting is lost: %s", what, quote(string(b)))
		}
		w.summary = what
		w.powered = false
		w.resetCfg(old)
	}
	// faults are over: configuring works
	p := w.exec(s, horizon)
	w.after(p, nil)
	got, why = w.cfgProbe()
	w.ok("C11", p.ok() && why == "" && got.same(nw), "not-recovered", "after the faults: %s, settings %s, entered %s %s", p.describe(), got, nw, why)
}

// C11: several crashes in a row without cleaning up in between.
func scenCfgHistory(w *World) {
	w.remember()
	w.guardPlaces()
	old := w.startCfg()
	cur := orDflt(old)
	for i, n := 0, 2+w.T.N(3); i < n; i++ {
		d, nw := w.genChange(cur)
		s := spec{args: []string{"configure"}, stdin: d.text(), tty: true}
		// the shape of the run is not known beforehand: place by count
		k := w.T.N(24)
		pk := w.T.N(4)
		part := w.T.N(200)
		after := w.T.N(2) == 1
		w.plan = at(anyOp, k, func(o *op) *fault {
			switch pk {
			case 0:
				return nil
			case 1:
				return &fault{kind: "kill", after: after, n: part}
			case 2:
				return &fault{kind: "power", after: after, n: part}
			}
			if o.mut {
				return &fault{kind: "errno", errno: syscall.ENOSPC}
			}
			return &fault{kind: "errno", errno: syscall.EIO}
		})
		p := w.exec(s, horizon)
		w.plan = nil
		w.after(p, nil)
		w.ok("C11", p.crash == "" && !p.hung(), "crash", "%s", p.describe())
		got, why := w.cfgProbe()
		w.ok("C11", why == "", "unusable", "step %d: %s", i, why)
		w.ok("C11", got.same(cur) || got.same(nw), "mixed", "step %d: the settings are %s; before %s; entered %s", i, got, cur, nw)
		if p.ok() {
			w.ok("C11", got.same(nw), "not-saved", "step %d: reported as saved, but the settings are %s, entered %s", i, got, nw)
			w.ok("C24", got.same(nw), "false-result", "step %d: reported as saved, but the settings are %s, entered %s", i, got, nw)
		}
		cur = got
	}
	w.summary = "a history of interrupted dialogues"
}

// C11: runs at the same time.
func scenCfgRace(w *World) {
	a := w.genVault(vopts{maxItems: 2, minItems: 1, simple: true, path: "/home/u/a.opvault"})
	b := w.genVault(vopts{maxItems: 2, minItems: 1, simple: true, path: "/home/u/b and c.opvault"})
	b.pass = a.pass
	b.seal()
	for i := range b.items {
		b.items[i] = b.genItem(w.T, b.o)
	}
	a.store(w)
	b.store(w)
	old := cfgM{vault: a.path, timeout: 1 + w.T.N(30), notify: false, period: w.T.N(366)}
	w.setConfig(old)
	w.fs.syncAll()
	w.remember()
	w.guardPlaces(a.path, b.path)
	w.benign = w.T.N(3) == 2
	nw := old
	nw.vault = b.path
	nw.timeout = 1 + old.timeout%30
	writers := []*Proc{w.spawn(spec{args: []string{"configure"}, stdin: "y\n" + b.path + "\n\n" + itoa(nw.timeout) + "\n\n", tty: true})}
	wants := []cfgM{nw}
	if w.T.N(2) == 1 {
		n2 := old
		n2.period = (old.period + 7) % 366
		writers = append(writers, w.spawn(spec{args: []string{"configure"}, stdin: "n\n\n\n" + itoa(n2.period) + "\n", tty: true}))
		wants = append(wants, n2)
	}
	var readers []*Proc
	if w.T.N(4) == 3 && len(writers) == 1 {
		k := w.T.N(24)
		after := w.T.N(2) == 1
		part := w.T.N(120)
		keep := func(o *op) bool { return o.p == writers[0] }
		w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "kill", after: after, n: part} })
	}
	for i, n := 0, 1+w.T.N(2); i < n; i++ {
		for j := w.T.N(14); j > 0; j-- {
			if !w.step() {
				break
			}
		}
		readers = append(readers, w.spawn(spec{args: []string{"list"}, stdin: a.pass + "\n", tty: true}))
	}
	done := w.run(horizon, nil)
	w.plan = nil
	w.ok("C11", done, "hang", "concurrent runs do not end")
	for _, p := range writers {
		w.after(p, nil)
		w.ok("C11", p.killed || p.ok(), "not-saved", "%s", p.describe())
	}
	for _, p := range readers {
		w.after(p, nil)
		ya, yb := a.judgeList(p, filter{}), b.judgeList(p, filter{})
		w.ok("C11", ya == "" || yb == "", "torn-read", "a run started meanwhile: %s, output %s", ifs(p.ok(), "wrong listing, ")+p.describe(), quote(tail(string(p.out)+string(p.errOut), 200)))
	}
	got, why := w.cfgProbe()
	w.ok("C11", why == "", "unusable", "after concurrent runs: %s", why)
	good := false
	for i, x := range wants {
		if got.same(x) && (writers[i].ok() || writers[i].killed) {
			good = true
		}
	}
	if writers[0].killed && got.same(old) {
		good = true
	}
	w.ok("C11", good, "mixed", "after concurrent runs the settings are %s; entered %v", got, wants)
	w.summary = itoa(len(writers)) + " writers, " + itoa(len(readers)) + " readers"
}

// C11/C24: odd but readable settings files.
func scenCfgOdd(w *World) {
	w.remember()
	w.guardPlaces()
	t := w.T
	txt := t.Pick("", "\n", "# only a comment\n", "{}\n", "---\n", "null\n", "timeout: \"5\"\n", "timeout: 5.5\n", "update-period: many\n", "update-notification: 1\n", "update-notification: \"yes\"\n", "opvault: [a, b]\n", "opvault:\n", "timeout:\nupdate-period:\n", "timeout: 99999999999999999999\n", "update-notification: \"false\"\ntimeout: []\n", "opvault: 5\n", "- a\n- b\n", "just text\n", "a: b: c\n", "\t\n", "opvault: 'x\n", "custom-key: keep me\na: b: c\n", "custom-key: keep me\n\ttimeout: 4\n", "\x00\x00\x00", "\xff\xfe")
	w.fs.mkdirAll(cfgDir, 0700)
	w.fs.put(cfgFile, []byte(txt), 0644)
	w.fs.syncAll()
	d, _ := w.genChange(dfltCfg)
	d.q1, d.asks, d.path, d.q2, d.q3, d.q4 = "y", true, "/home/u/new.opvault", "n", "7", "9"
	cmd := t.Pick("configure", "categories", "version")
	p := w.exec(spec{args: []string{cmd}, stdin: d.text(), tty: true}, horizon)
	w.after(p, nil)
	w.ok("C24", p.exited && p.crash == "", "crash", "settings file %s: %s", quote(txt), p.describe())
	if cmd == "configure" {
		if p.ok() {
			got, why := w.cfgProbe()
			want := cfgM{vault: "/home/u/new.opvault", notify: false, timeout: 7, period: 9}
			w.ok("C24", why == "" && got.same(want), "false-result", "settings file %s: reported as saved, but they are %s %s", quote(txt), got, why)
		} else {
			w.ok("C24", p.message(), "silent", "settings file %s: %s without any message", quote(txt), p.describe())
			b, _ := w.fs.read(cfgFile)
			w.ok("C24", string(b) == txt, "destroyed", "settings file %s: failed and left %s", quote(txt), quote(string(b)))
		}
	}
	if strings.Contains(txt, "keep me") { // a slip in a file the user edited
		b, _ := w.fs.read(cfgFile)
		w.ok("C12", strings.Contains(string(b), "keep me"), "unknown-lost", "settings file %s: %s left %s", quote(txt), p.describe(), quote(string(b)))
	}
	w.summary = "settings file " + quote(txt)
}

var _ = time.Second
