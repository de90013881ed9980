//go:build go1.27

package kit

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"strings"
	"syscall"
	"time"
)

// ok evaluates an oracle of one property. Scenarios are shared between
// properties; only the property being checked is judged.
func (w *World) ok(prop string, good bool, class, format string, a ...any) bool {
	if prop != w.prop {
		return good
	}
	w.checks++
	if !good {
		w.failf(class, format, a...)
	}
	return good
}

func (w *World) is(props ...string) bool {
	for _, p := range props {
		if p == w.prop {
			return true
		}
	}
	return false
}

const (
	cfgDir   = "/home/u/.config/1pass"
	cfgFile  = cfgDir + "/1pass.yml"
	lastFile = cfgDir + "/lastcheck"
	cacheDir = "/tmp/1pass"
)

const horizon = 20 * time.Minute

type cfgM struct {
	vault   string
	timeout int
	notify  bool
	period  int
	extra   string // further YAML lines
	style   int
}

func (c cfgM) yaml() string {
	n := "true"
	if !c.notify {
		n = "false"
	}
	if c.style == 1 {
		return "# my settings\nupdate-period: " + itoa(c.period) + "\nupdate-notification: " + n + "\ntimeout: " + itoa(c.timeout) + "\nopvault: " + quote(c.vault) + "\n" + c.extra
	}
	return "opvault: " + quote(c.vault) + "\ntimeout: " + itoa(c.timeout) + "\nupdate-notification: " + n + "\nupdate-period: " + itoa(c.period) + "\n" + c.extra
}

// setConfig stores settings on the simulated disk, durably.
func (w *World) setConfig(c cfgM) {
	w.fs.mkdirAll(cfgDir, 0700)
	if w.cfgLink != "" {
		if w.fs.lget(cfgFile) == nil {
			to := w.cfgLink
			if to == "/home/u/dotfiles/onepass.yml" {
				to = "../../dotfiles/onepass.yml"
			}
			w.fs.mkdirAll(cfgDir, 0700)
			w.fs.symlink(cfgFile, to)
		}
		w.fs.put(w.cfgLink, []byte(c.yaml()), 0644)
		return
	}
	w.fs.put(cfgFile, []byte(c.yaml()), 0644)
}

// quiet settings: no update check gets in the way.
func (w *World) quietConfig(vault string) {
	w.setConfig(cfgM{vault: vault, timeout: 1, notify: false, period: 1})
}

// ---------------------------------------------------------------- CLI runs

type vcmd struct {
	kind    string // list overview details
	f       filter
	uid     string
	pass    string
	viaCfg  bool // vault from the settings
	noNL    bool // input ends without a newline
	long    bool // long flag names
	path    string
	chunked bool
	notty   bool
}

func (w *World) spec(v *vaultM, c vcmd) spec {
	fl := func(s, l string) string {
		if c.long {
			return l
		}
		return s
	}
	a := []string{c.kind}
	if c.kind != "list" {
		a = append(a, c.uid)
	}
	if !c.viaCfg {
		p := v.path
		if c.path != "" {
			p = c.path
		}
		a = append(a, fl("-v", "--vault"), p)
	}
	if c.kind == "list" {
		if c.f.cat != "" {
			a = append(a, fl("-c", "--category"), c.f.cat)
		}
		if c.f.title != "" {
			a = append(a, fl("-n", "--name"), c.f.title)
		}
	}
	if c.f.trashed {
		a = append(a, fl("-t", "--trashed"))
	}
	in := c.pass
	if !c.noNL {
		in += "\n"
	}
	s := spec{args: a, stdin: in, tty: !c.notty}
	if c.chunked {
		s.chunk = func() int { return 1 + w.rnd.n(3) }
	}
	return s
}

func (w *World) vrun(v *vaultM, c vcmd) *Proc {
	p := w.exec(w.spec(v, c), horizon)
	w.after(p, v)
	return p
}

// body returns the lines printed after the password prompt.
func (p *Proc) body() []string {
	ls := strings.Split(string(p.out), "\n")
	for i, l := range ls {
		if strings.TrimSpace(l) == "Password:" {
			return ls[i+1:]
		}
	}
	return ls
}

func (p *Proc) describe() string {
	s := "`" + strings.Join(p.args, " ") + "`"
	switch {
	case p.crash != "":
		s += " crashed (" + p.crash + frame(p.stack) + ")"
	case p.hung():
		s += " did not end"
	case p.killed:
		s += " was killed"
	default:
		s += " exited with status " + itoa(p.code)
	}
	return s
}

// frame names the innermost repository function on a crash stack.
func frame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "github.com/mashmb/1pass/"); i >= 0 && !strings.Contains(l, "/verif/") {
			s := l[i+len("github.com/mashmb/1pass/"):]
			if j := strings.IndexByte(s, '('); j > 0 && strings.HasPrefix(s[j:], "(0x") {
				s = s[:j]
			}
			if j := strings.LastIndex(s, "("); j > 0 && j > len(s)-40 && strings.Contains(s[j:], ", ") {
				s = s[:j]
			}
			return " in " + s
		}
	}
	return ""
}

func (p *Proc) says(sub string) bool {
	return strings.Contains(string(p.out), sub) || strings.Contains(string(p.errOut), sub)
}

// message: the user got told something besides the prompt.
func (p *Proc) message() bool {
	for _, l := range strings.Split(string(p.out)+"\n"+string(p.errOut), "\n") {
		l = strings.TrimSpace(l)
		if l != "" && l != "Password:" {
			return true
		}
	}
	return false
}

type row struct {
	lp, uid, cat, title string
}

func (p *Proc) rows() []row {
	var out []row
	for _, l := range p.body() {
		if !strings.Contains(l, "║") {
			continue
		}
		c := strings.Split(l, "║")
		if len(c) != 6 {
			out = append(out, row{title: "unexpected line " + l})
			continue
		}
		r := row{strings.TrimSpace(c[1]), strings.TrimSpace(c[2]), strings.TrimSpace(c[3]), strings.TrimSpace(c[4])}
		if strings.EqualFold(r.uid, "uid") {
			continue
		}
		out = append(out, r)
	}
	return out
}

// judgeList compares a listing with the model; "" when it is right.
func (v *vaultM) judgeList(p *Proc, f filter) string {
	if !p.ok() {
		return p.describe()
	}
	rows := p.rows()
	want := v.match(f)
	wantBy := map[string]*mItem{}
	for _, it := range want {
		wantBy[it.uid] = it
	}
	seen := map[string]bool{}
	var sound []row
	for i, r := range rows {
		if r.lp != itoa(i+1) {
			return "row " + itoa(i+1) + " is numbered " + quote(r.lp)
		}
		it := v.find(r.uid)
		if it == nil {
			return "row " + itoa(i+1) + " shows an item that is not stored: " + quote(r.uid+" "+r.title)
		}
		if seen[r.uid] {
			return "item " + r.uid + " is listed twice"
		}
		seen[r.uid] = true
		if it.damaged {
			if it.odd {
				continue
			}
			if r.cat != catName(it.code) || r.title != "" && r.title != strings.TrimSpace(it.title) {
				return "altered item " + r.uid + " is shown as " + quote(r.cat+"|"+r.title) + ", stored " + quote(catName(it.code)+"|"+it.title)
			}
			continue
		}
		if wantBy[r.uid] == nil {
			return "item " + r.uid + " (" + catName(it.code) + ", " + quote(it.title) + ", trashed " + boolStr(it.trashed) + ") does not match the filter"
		}
		if r.cat != catName(it.code) {
			return "item " + r.uid + " is shown in category " + quote(r.cat) + ", stored " + quote(catName(it.code))
		}
		if r.title != strings.TrimSpace(it.title) {
			return "item " + r.uid + " is shown with title " + quote(r.title) + ", stored " + quote(it.title)
		}
		sound = append(sound, r)
	}
	for _, it := range want {
		if !it.damaged && !seen[it.uid] {
			return "item " + it.uid + " (" + catName(it.code) + ", " + quote(it.title) + ") is missing from the listing"
		}
	}
	// order: category code, then title
	for i := 1; i < len(sound); i++ {
		a, b := v.find(sound[i-1].uid), v.find(sound[i].uid)
		if a.code > b.code || a.code == b.code && a.title > b.title {
			return "order: " + quote(a.title) + " (" + a.code + ") before " + quote(b.title) + " (" + b.code + ")"
		}
	}
	return ""
}

func boolStr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// judgeItem compares the output of overview/details with the model.
func (v *vaultM) judgeItem(p *Proc, uid string, trashed, reveal bool) string {
	it := v.find(uid)
	if it != nil && it.damaged {
		return ""
	}
	if !p.ok() {
		if it == nil || !it.known || it.trashed != trashed { // an unknown UID may be an error or a notice
			if p.crash == "" && !p.hung() && p.exited {
				return ""
			}
		}
		return p.describe()
	}
	if it == nil || !it.known || it.trashed != trashed {
		for _, l := range nonblank(p.body()) {
			if strings.HasPrefix(l, "Updated:") || strings.HasPrefix(l, "Created:") {
				return "an item is shown for UID " + quote(uid) + " (trashed " + boolStr(trashed) + ") which does not exist"
			}
		}
		return ""
	}
	if ok, why := sameText(notEmpty(p.body()), notEmpty(it.lines(reveal))); !ok {
		return "item " + uid + ": " + why
	}
	return ""
}

// subsetLines: everything shown for a damaged item is what the owner stored.
func (it *mItem) subset(p *Proc, reveal bool) string {
	want := map[string]bool{}
	for _, l := range nonblank(it.lines(reveal)) {
		want[l] = true
	}
	for _, l := range nonblank(p.body()) {
		if !want[l] {
			if strings.Contains(l, it.uid) { // "... do not exist"
				continue
			}
			if l == sep || l == "Notes" {
				continue
			}
			return "line " + quote(l) + " is not among what is stored for the item"
		}
	}
	return ""
}

// ---------------------------------------------------------------- checks after every process

// after evaluates the oracles that hold for every process of every family.
func (w *World) after(p *Proc, v *vaultM) {
	w.note(string(p.out), string(p.errOut))
	if w.keep {
		for _, l := range strings.Split(strings.TrimRight(string(p.out), "\n"), "\n") {
			w.logf("%s | %s", p.name, l)
		}
		for _, l := range strings.Split(strings.TrimRight(string(p.errOut), "\n"), "\n") {
			if l != "" {
				w.logf("%s ! %s", p.name, l)
			}
		}
	}
	w.ok("C24", p.crash == "", "crash", "%s", p.describe())
	w.ok("C07", len(p.execs) == 0 && len(p.denied) == 0, "side-effect", "%s tried to %v %v", p.describe(), p.execs, p.denied)
	if w.prop == "C08" {
		w.leakCheck(v)
	}
}

// guardPlaces installs the C07 invariant: every modification of the disk is
// judged at the moment it happens.
func (w *World) guardPlaces(vaults ...string) {
	w.onMut = func(o *op) { w.onTry(o, w.muts[len(w.muts)-1]) }
	w.onTry = func(o *op, m mutation) {
		if w.prop != "C07" {
			return
		}
		w.checks++
		for _, v := range vaults {
			if m.path == v || strings.HasPrefix(m.path, v+"/") {
				w.violate("vault-modified", "%s: %s %s inside the vault", o.p.describe0(), m.what, m.path)
			}
		}
		if !w.allowed(m) {
			w.violate("outside", "%s: %s %s", o.p.describe0(), m.what, m.path)
		}
	}
}

func (p *Proc) describe0() string { return "`" + strings.Join(p.args, " ") + "`" }

func under(path, dir string) bool { return path == dir || strings.HasPrefix(path, dir+"/") }

func (w *World) allowed(m mutation) bool {
	if under(m.path, cfgDir) || under(m.path, cacheDir) {
		return true
	}
	if w.cfgLink != "" {
		d, _ := dirOf(w.cfgLink)
		if under(m.path, d) && (m.path == w.cfgLink || !w.preexisting[m.path]) {
			return true
		}
	}
	if under(m.path, "/tmp") && strings.Contains(m.path, "1pass") && !w.preexisting[m.path] && len(m.p.args) > 1 && m.p.args[1] == "update" { // a cache of its own
		return true
	}
	if m.path == "/home/u/.config" && m.what == "mkdir" {
		return true
	}
	if m.path == "/tmp" && m.what == "mkdir" {
		return true
	}
	if len(m.p.args) > 1 && m.p.args[1] == "update" {
		exe := m.p.exe
		if m.path == exe {
			return true
		}
		if n := w.fs.get(exe); n != nil {
			// a temporary file beside the executable
			d, _ := dirOf(exe)
			if strings.HasPrefix(m.path, d+"/") && !strings.Contains(m.path[len(d)+1:], "/") && !w.preexisting[m.path] {
				return true
			}
		}
	}
	return false
}

// remember records what existed before the program ran.
func (w *World) remember() {
	w.preexisting = map[string]bool{}
	w.fs.each(func(p string, n *inode) { w.preexisting[p] = true })
}

// forms in which a text could be readable from outside.
func forms(s []byte) [][]byte {
	out := [][]byte{s, []byte(hex.EncodeToString(s)), []byte(strings.ToUpper(hex.EncodeToString(s)))}
	for k := 0; k < 3 && len(s) > k+9; k++ {
		t := s[k:]
		t = t[:len(t)/3*3]
		out = append(out, []byte(base64.StdEncoding.EncodeToString(t)), []byte(base64.URLEncoding.EncodeToString(t)))
	}
	r := make([]byte, len(s))
	for i := range s {
		r[len(s)-1-i] = s[i]
	}
	return append(out, r)
}

type leak struct {
	what string
	pats [][]byte
}

func (v *vaultM) leaks() []leak {
	if v == nil {
		return nil
	}
	if v.leakCache != nil && v.leakN == len(v.items) {
		return v.leakCache
	}
	var out []leak
	add := func(what string, b []byte) {
		if len(b) >= 6 {
			out = append(out, leak{what, forms(b)})
		}
	}
	dk, dm := v.derived()
	add("the master password", []byte(v.pass))
	add("the derived key", dk)
	add("the derived MAC key", dm)
	add("the master key", v.mk)
	add("the master MAC key", v.mm)
	add("the overview key", v.ok)
	add("the overview MAC key", v.om)
	for _, it := range v.items {
		for _, s := range it.secrets {
			add("a field or note of item "+it.uid, []byte(s))
		}
		if len(it.title) > 8 {
			add("the title of item "+it.uid, []byte(it.title))
		}
		if it.url != "" {
			add("the URL of item "+it.uid, []byte(it.url))
		}
	}
	v.leakCache, v.leakN = out, len(v.items)
	return out
}

// leakCheck searches everything that left the program for secrets.
func (w *World) leakCheck(v *vaultM) {
	ls := v.leaks()
	w.checks++
	find := func(b []byte) string {
		for _, l := range ls {
			for _, p := range l.pats {
				if bytes.Contains(b, p) {
					return l.what
				}
			}
		}
		return ""
	}
	for ; w.scanned < len(w.writes); w.scanned++ {
		wr := w.writes[w.scanned]
		if wr.path == cfgFile && v != nil && v.path != "" { // the vault path itself is a setting
			continue
		}
		if s := find(wr.data); s != "" {
			w.failf("written", "%s wrote %s to %s", wr.p.describe0(), s, wr.path)
		}
	}
	w.fs.each(func(p string, n *inode) {
		if w.preexisting != nil && w.preexisting[p] && !n.dirty {
			return
		}
		if n.kind == kFile && n.dirty || n.kind == kFile && !w.preexisting[p] {
			if s := find(n.data); s != "" {
				w.failf("stored", "%s is stored in %s", s, p)
			}
		}
		for _, l := range ls[:min(1, len(ls))] {
			for _, pt := range l.pats {
				if strings.Contains(p, string(pt)) && !w.preexisting[p] {
					w.failf("stored", "%s is the name of %s", l.what, p)
				}
			}
		}
	})
	if s := find(w.net.plain); s != "" {
		w.failf("sent", "%s was sent to the server", s)
	}
	if s := find(w.net.raw); s != "" {
		w.failf("sent", "%s was sent over the network", s)
	}
	for _, d := range w.net.dials {
		if s := find([]byte(d.addr)); s != "" {
			w.failf("sent", "%s is part of a contacted address", s)
		}
	}
}

// ---------------------------------------------------------------- fault placement

type opRec struct {
	name, path string
	data       bool
	mut        bool
	size       int
}

// profile runs f once without faults on this world and returns the system
// calls it made, restricted by keep.
func (w *World) record(keep func(o *op) bool, f func()) []opRec {
	var out []opRec
	old := w.onOp
	w.onOp = func(o *op) {
		if keep(o) {
			out = append(out, opRec{o.name, o.path, o.data, o.mut, o.size})
		}
		if old != nil {
			old(o)
		}
	}
	f()
	w.onOp = old
	return out
}

var readErrs = map[string][]syscall.Errno{
	"openat":   {syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOENT, syscall.ENOMEM, syscall.ESTALE},
	"read":     {syscall.EIO, syscall.ENOMEM, syscall.ESTALE},
	"pread":    {syscall.EIO, syscall.ENOMEM, syscall.ESTALE},
	"getdents": {syscall.EIO, syscall.ENOMEM, syscall.ESTALE},
	"stat":     {syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.ENOMEM, syscall.ESTALE},
	"fstat":    {syscall.EIO, syscall.ENOMEM, syscall.ESTALE},
	"readlink": {syscall.EIO, syscall.EACCES},
}

var writeErrs = map[string][]syscall.Errno{
	"openat":    {syscall.ENOSPC, syscall.EACCES, syscall.EIO, syscall.EROFS, syscall.EMFILE, syscall.EDQUOT},
	"write":     {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT},
	"pwrite":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT},
	"close":     {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"fsync":     {syscall.EIO, syscall.ENOSPC},
	"fdatasync": {syscall.EIO, syscall.ENOSPC},
	"rename":    {syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.ENOSPC, syscall.EPERM},
	"mkdir":     {syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EIO},
	"unlink":    {syscall.EIO, syscall.EACCES, syscall.EPERM, syscall.EROFS},
	"rmdir":     {syscall.EIO, syscall.EACCES, syscall.EPERM},
	"chmod":     {syscall.EPERM, syscall.EIO, syscall.EROFS},
	"fchmod":    {syscall.EPERM, syscall.EIO, syscall.EROFS},
	"ftruncate": {syscall.EIO, syscall.ENOSPC},
	"link":      {syscall.EPERM, syscall.EIO},
	"symlink":   {syscall.EPERM, syscall.EIO},
	"fchown":    {syscall.EPERM},
	"chown":     {syscall.EPERM},
	"utimens":   {syscall.EPERM},
}

// errFor draws an error this call can legally return.
func (w *World) errFor(r opRec) syscall.Errno {
	l := readErrs[r.name]
	if r.mut || l == nil {
		if m := writeErrs[r.name]; m != nil {
			l = m
		}
	}
	if l == nil {
		l = []syscall.Errno{syscall.EIO}
	}
	return l[w.T.N(len(l))]
}

// at builds a plan that applies fl to the k-th call (from 0) selected by keep.
func at(keep func(o *op) bool, k int, mk func(o *op) *fault) func(o *op) *fault {
	n := 0
	return func(o *op) *fault {
		if !keep(o) {
			return nil
		}
		n++
		if n-1 == k {
			return mk(o)
		}
		return nil
	}
}
