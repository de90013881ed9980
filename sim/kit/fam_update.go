//go:build go1.27

package kit

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"encoding/hex"
	"encoding/json"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Family C: the update command against a simulated release server.

const (
	runningVersion = "1.3.1"
	apiHost        = "api.github.com"
	apiPath        = "/repos/mashmb/1pass/releases"
	dlHost         = "github.com"
	objHost        = "objects.githubusercontent.com"
)

type tarEntry struct {
	name string
	body []byte
	typ  byte
	link string
	mode int64
}

// relM is one published release.
type relM struct {
	ver       string
	changelog string
	binary    []byte
	archive   []byte
	sum       string
	archName  string
	sumName   string
	archURL   string
	sumURL    string
	raw       map[string]any // extra or replaced JSON members
	drop      []string       // JSON members left out
	dropAsset []string
	swap      bool
	noSum     bool  // no checksum file among the assets
	noArch    bool  // no archive among the assets
	extra     []any // further assets
	good      bool // a proper release
}

func md5hex(b []byte) string { h := md5.Sum(b); return hex.EncodeToString(h[:]) }

func packTar(es []tarEntry, format tar.Format, level int) []byte {
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Mode: e.mode, Size: int64(len(e.body)), Typeflag: e.typ, Linkname: e.link, Format: format, ModTime: time.Unix(1700000000, 0)}
		if e.typ != tar.TypeReg {
			h.Size = 0
		}
		if h.Mode == 0 {
			h.Mode = 0755
		}
		if err := tw.WriteHeader(h); err != nil {
			panic("harness: tar header " + e.name + ": " + err.Error())
		}
		if h.Size > 0 {
			tw.Write(e.body)
		}
	}
	tw.Close()
	var gb bytes.Buffer
	gw, _ := gzip.NewWriterLevel(&gb, level)
	gw.Write(tb.Bytes())
	gw.Close()
	return gb.Bytes()
}

func (w *World) binaryFor(ver string, n int) []byte {
	return append([]byte("\x7fELF-1pass-"+ver+"-"), w.rnd.bytes(n)...)
}

func (w *World) binSize() int {
	t := w.T
	switch t.N(8) {
	case 6:
		return 3000 + t.N(5000)
	case 7:
		return 30000 + t.N(60000)
	}
	return 40 + t.N(300)
}

// genRelease draws a proper release of the given version.
func (w *World) genRelease(ver string) *relM {
	t := w.T
	r := &relM{ver: ver, changelog: t.Pick("Changes.", "", "* fix\n* more", "line1\r\nline2\t100% %s %d", "“quotes” <b>&amp;</b>"), good: true}
	r.binary = w.binaryFor(ver, w.binSize())
	name := t.Pick("1pass", "1pass", "./1pass")
	main := tarEntry{name: name, body: r.binary, typ: tar.TypeReg, mode: []int64{0755, 0644, 0700, 0600, 0777}[t.N(5)]}
	es := []tarEntry{main}
	switch t.N(5) {
	case 3:
		es = []tarEntry{{name: "README.md", body: []byte("read me"), typ: tar.TypeReg, mode: 0644}, main, {name: "LICENSE.md", body: []byte("MIT"), typ: tar.TypeReg, mode: 0644}}
	case 4:
		es = []tarEntry{{name: "./", typ: tar.TypeDir, mode: 0755}, main}
	}
	r.archive = packTar(es, []tar.Format{tar.FormatUnknown, tar.FormatGNU, tar.FormatUSTAR, tar.FormatPAX}[t.N(4)], []int{6, 0, 1, 9}[t.N(4)])
	h := md5hex(r.binary)
	r.sum = t.Pick(h+"  1pass\n", h+" *1pass\n", h+"\n", h, h+"  1pass\r\n", "\n"+h+"  ./1pass\n\n", h+"\t1pass")
	r.fill()
	r.swap = t.N(2) == 1
	for i := t.N(6) - 3; i > 0; i-- { // other files of the release
		n := t.Pick("install.sh", "1pass.zip", "sbom.json", "README")
		r.extra = append(r.extra, map[string]any{"name": n, "browser_download_url": "https://" + dlHost + "/MashMB/1pass/releases/download/x/" + n})
	}
	return r
}

func (r *relM) fill() {
	if r.archName == "" {
		r.archName = "1pass_" + strings.Map(func(c rune) rune {
			if c > ' ' && c < 127 && c != '/' && c != '?' && c != '#' && c != '%' {
				return c
			}
			return '_'
		}, r.ver) + "_Linux_x86_64.tar.gz"
	}
	if r.sumName == "" {
		r.sumName = "checksum.md5"
	}
	base := "https://" + dlHost + "/MashMB/1pass/releases/download/" + md5hex([]byte(r.ver))[:8] + "/"
	if r.archURL == "" {
		r.archURL = base + r.archName
	}
	if r.sumURL == "" {
		r.sumURL = base + r.sumName
	}
}

// reseal publishes another archive and checksum.
func (r *relM) json() map[string]any {
	arch := map[string]any{"name": r.archName, "browser_download_url": r.archURL, "size": len(r.archive), "content_type": "application/gzip", "state": "uploaded"}
	sum := map[string]any{"name": r.sumName, "browser_download_url": r.sumURL, "size": len(r.sum), "content_type": "application/octet-stream"}
	for _, k := range r.dropAsset {
		delete(arch, k)
		delete(sum, k)
	}
	assets := []any{arch, sum}
	if r.swap {
		assets = []any{sum, arch}
	}
	if r.noSum {
		assets = []any{arch}
	}
	if r.noArch {
		assets = []any{sum}
	}
	if len(r.extra) > 0 {
		assets = append(append(append([]any{}, r.extra[:len(r.extra)/2]...), assets...), r.extra[len(r.extra)/2:]...)
	}
	m := map[string]any{"url": "https://api.github.com/repos/MashMB/1pass/releases/1", "id": 1, "tag_name": r.ver, "name": "1pass " + r.ver, "draft": false, "prerelease": false, "body": r.changelog, "assets": assets, "author": map[string]any{"login": "MashMB", "id": 7}}
	for _, k := range r.drop {
		delete(m, k)
	}
	for k, v := range r.raw {
		m[k] = v
	}
	return m
}

// srvM is the state of the release server.
type srvM struct {
	w     *World
	list  func(k int) []*relM // releases as of the k-th request to the API, newest first
	apiN  int
	all   []*relM
	body  []byte // answer of the API, if not the list
	style int    // how downloads are redirected
	tweak func(r *reqRec, what string, rep reply) reply
	kinds []string // what each request asked for
	short string   // what arrived visibly incomplete
}

func (w *World) newServer(rels ...*relM) *srvM {
	s := &srvM{w: w, list: func(int) []*relM { return rels }, all: rels}
	s.style = w.T.N(6)
	w.net.plan = func(d *dialRec) {}
	w.net.serve = s.serve
	return s
}

func (s *srvM) serve(r *reqRec) reply {
	rep, what := s.answer(r)
	s.kinds = append(s.kinds, what)
	if s.tweak != nil {
		rep = s.tweak(r, what, rep)
	}
	return rep
}

func urlPath(u string) string {
	i := strings.Index(u, "://")
	if i < 0 {
		return u
	}
	u = u[i+3:]
	if j := strings.IndexByte(u, '/'); j >= 0 {
		return u[j:]
	}
	return "/"
}

func (s *srvM) answer(r *reqRec) (reply, string) {
	if r.host == apiHost && r.path == apiPath {
		k := s.apiN
		s.apiN++
		body := s.body
		if body == nil {
			var l []any
			for _, x := range s.list(k) {
				l = append(l, x.json())
			}
			if l == nil {
				l = []any{}
			}
			body, _ = json.Marshal(l)
		}
		return reply{status: 200, header: [][2]string{{"Content-Type", "application/json; charset=utf-8"}}, body: body}, "api"
	}
	for i := len(s.all) - 1; i >= 0; i-- {
		x := s.all[i]
		for _, f := range []struct {
			url  string
			body []byte
			what string
		}{{x.archURL, x.archive, "archive"}, {x.sumURL, []byte(x.sum), "checksum"}} {
			p := urlPath(f.url)
			if r.path == p && (r.host == dlHost || s.style == 0) {
				if s.style == 0 {
					return reply{status: 200, header: [][2]string{{"Content-Type", "application/octet-stream"}}, body: f.body}, f.what
				}
				if s.style == 5 && !strings.HasSuffix(r.path, "?again") {
					return reply{status: 302, header: [][2]string{{"Location", "/again" + p}}}, f.what + "-redirect"
				}
				return reply{status: []int{302, 302, 301, 307, 308, 302}[s.style], header: [][2]string{{"Location", "https://" + objHost + "/obj" + p + "?sig=abc"}}}, f.what + "-redirect"
			}
			if r.host == dlHost && r.path == "/again"+p {
				return reply{status: 307, header: [][2]string{{"Location", "https://" + objHost + "/obj" + p + "?sig=abc"}}}, f.what + "-redirect"
			}
			if r.host == objHost && r.path == "/obj"+p+"?sig=abc" {
				return reply{status: 200, header: [][2]string{{"Content-Type", "application/octet-stream"}}, body: f.body}, f.what
			}
		}
	}
	return reply{status: 404, body: []byte("Not Found")}, "other"
}

// ---------------------------------------------------------------- environment

type updEnv struct {
	exe     string
	mode    uint32
	old     []byte
	timeout int
	cfg     cfgM
	allow   [][]byte // contents the executable may have
	loot    map[string]bool
	beside  map[string]bool // what was there before, see leftover
	dl      map[string][]byte
}

// updateEnv prepares a machine for updates.
func (w *World) updateEnv() *updEnv {
	t := w.T
	e := &updEnv{exe: t.Pick("/usr/bin/1pass", "/usr/local/bin/1pass", "/home/u/bin/1pass", "/opt/my tools/1pass", "/usr/local/bin/onepass"), mode: []uint32{0755, 0755, 0700, 0555, 0775, 0711, 0500, 0777}[t.N(8)], old: oldBinary}
	d, _ := dirOf(e.exe)
	w.fs.mkdirAll(d, 0755)
	if e.exe != w.exePath {
		w.fs.remove(w.exePath)
	}
	w.exePath = e.exe
	w.fs.put(e.exe, e.old, e.mode)
	if t.N(2) == 1 {
		w.fs.mount("/tmp", 7)
	}
	if t.N(4) == 3 && strings.HasPrefix(e.exe, "/usr/local") {
		w.fs.mount("/usr/local", 9)
	}
	e.timeout = 1 + t.N(30)
	e.cfg = cfgM{vault: "/home/u/v.opvault", timeout: e.timeout, notify: t.N(2) == 0, period: t.N(30)}
	if t.N(5) == 4 {
		e.timeout = 1 // never configured: defaults
		e.cfg = dfltCfg
	} else {
		w.setConfig(e.cfg)
	}
	switch t.N(6) {
	case 4: // remains of an earlier attempt
		w.fs.mkdirAll(cacheDir, 0700)
		w.fs.put(cacheDir+"/1pass", []byte("half a binary"), 0644)
		w.fs.put(cacheDir+"/1pass.tar.gz", []byte("\x1f\x8b half"), 0644)
		w.fs.put(cacheDir+"/checksum.md5", []byte("0123"), 0644)
	case 5: // somebody else's links in the way
		w.fs.put("/home/u/precious.txt", []byte("precious"), 0644)
		w.fs.mkdirAll(cacheDir, 0700)
		w.fs.symlink(cacheDir+"/1pass.tar.gz", "/home/u/precious.txt")
		w.fs.symlink(cacheDir+"/checksum.md5", "/home/u/precious.txt")
		w.fs.symlink(cacheDir+"/1pass", "/home/u/precious.txt")
	}
	w.fs.put("/home/u/notes.txt", []byte("notes"), 0644)
	w.fs.syncAll()
	w.remember()
	w.guardPlaces()
	e.allow = [][]byte{e.old}
	e.guard(w)
	return e
}

func isOneOf(b []byte, l [][]byte) bool {
	for _, x := range l {
		if bytes.Equal(b, x) {
			return true
		}
	}
	return false
}

// exeState describes what is wrong with the installed program, "" if nothing.
func (e *updEnv) exeState(w *World) (class, why string) {
	n := w.fs.get(e.exe)
	if n == nil || n.kind != kFile {
		return "missing", "the installed program " + e.exe + " does not exist"
	}
	if !isOneOf(n.data, e.allow) {
		return "content", "the installed program is neither the old nor a complete verified release: " + itoa(len(n.data)) + " bytes " + quote(tail(string(n.data[:min(len(n.data), 40)]), 40))
	}
	if n.mode&0100 == 0 || n.mode&0111 != e.mode&0111 {
		return "mode", "the installed program is not executable as before: mode " + oct(n.mode&07777) + ", before " + oct(e.mode)
	}
	return "", ""
}

func oct(m uint32) string {
	s := ""
	for i := 0; i < 4; i++ {
		s = string(rune('0'+m&7)) + s
		m >>= 3
	}
	return s
}

// guard evaluates C13, C14 and C16 at every change of the disk.
func (e *updEnv) guard(w *World) {
	prev := w.onOp
	w.onOp = func(o *op) {
		if prev != nil {
			prev(o)
		}
		if !o.mut && !o.die {
			return
		}
		e.check(w)
	}
	pm := w.onMut
	e.loot = map[string]bool{}
	w.onMut = func(o *op) {
		if pm != nil {
			pm(o)
		}
		if w.prop != "C16" {
			return
		}
		w.checks++
		m := w.muts[len(w.muts)-1]
		if !w.allowed(m) {
			w.violate("escape", "%s: %s %s", o.p.describe0(), m.what, m.path)
		}
		// files of the download stay what was downloaded
		if under(m.path, "/tmp") {
			n := w.fs.lget(m.path)
			if n != nil && n.kind == kFile && len(n.data) > 0 {
				if e.loot[m.path] {
					isDl := false
					for _, b := range e.dl {
						if bytes.Equal(n.data, b) {
							isDl = true
						}
					}
					if !isDl {
						w.violate("replaced", "%s: %s %s replaces a downloaded file", o.p.describe0(), m.what, m.path)
					}
				}
				for _, b := range e.dl {
					if bytes.Equal(n.data, b) {
						e.loot[m.path] = true
					}
				}
			} else if e.loot[m.path] && n != nil && m.what == "truncate" {
				w.violate("replaced", "%s: %s %s replaces a downloaded file", o.p.describe0(), m.what, m.path)
			} else if n == nil {
				delete(e.loot, m.path)
			}
		}
	}
}

func (e *updEnv) check(w *World) {
	if !w.is("C13", "C14", "C17") {
		return
	}
	w.checks++
	class, why := e.exeState(w)
	if why == "" {
		return
	}
	switch w.prop {
	case "C13":
		w.violate(class, "%s", why)
	case "C14":
		if class == "content" {
			w.violate("unverified", "%s", why)
		}
	case "C17":
		if class == "content" {
			w.violate("installed", "%s", why)
		}
	}
}

// accept declares a release as one whose program may be installed.
func (e *updEnv) accept(r *relM) {
	f := strings.Fields(r.sum)
	if len(f) > 0 && f[0] == md5hex(r.binary) {
		e.allow = append(e.allow, r.binary)
	}
	if e.dl == nil {
		e.dl = map[string][]byte{}
	}
	e.dl["a"+r.ver] = r.archive
	e.dl["c"+r.ver] = []byte(r.sum)
}

func (w *World) update(answer string) *Proc {
	p := w.exec(spec{args: []string{"update"}, stdin: answer, tty: true}, horizon)
	w.after(p, nil)
	return p
}

func (e *updEnv) installed(w *World, b []byte) bool {
	n := w.fs.get(e.exe)
	return n != nil && bytes.Equal(n.data, b)
}

// judgeDone: the update is complete. "" if so.
func (e *updEnv) judgeDone(w *World, p *Proc, r *relM) string {
	if !p.ok() {
		return p.describe() + ": " + quote(tail(string(p.out)+string(p.errOut), 160))
	}
	if !e.installed(w, r.binary) {
		return p.describe() + " but the program is not the new release"
	}
	if _, why := e.exeState(w); why != "" {
		return p.describe() + " but " + why
	}
	if !p.says("updated to version " + r.ver) {
		return p.describe() + " without reporting the update: " + quote(tail(string(p.out), 120))
	}
	left := ""
	w.fs.each(func(path string, n *inode) {
		if under(path, "/tmp") && path != "/tmp" && !w.preexisting[path] {
			left = path
		}
	})
	if left != "" {
		return p.describe() + " but left " + left
	}
	return ""
}

// judgeFail: a failed update says so and claims nothing.
func (e *updEnv) judgeFail(w *World, p *Proc, what string) {
	if p.killed && !p.hung() {
		return
	}
	if p.ok() {
		return
	}
	w.ok("C24", p.crash == "", "crash", "%s: %s", what, p.describe())
	w.ok("C24", !p.hung(), "hang", "%s: %s", what, p.describe())
	w.ok("C24", p.message(), "silent", "%s: %s", what, p.describe())
	w.ok("C14", p.crash == "" && !p.hung(), "crash", "%s: %s", what, p.describe())
	w.ok("C19", p.crash == "" && !p.hung(), "crash", "%s: %s", what, p.describe())
	w.ok("C13", p.crash == "", "crash", "%s: %s", what, p.describe())
	w.ok("C24", !p.says("updated to version"), "false-result", "%s: failed but claims to have updated", what)
}

// reason: a failed update prints something a successful one does not.
func (e *updEnv) reason(w *World, p, good *Proc, what string) {
	if !w.is("C24") || p.ok() || p.killed || !p.exited || p.crash != "" || good == nil || !good.ok() {
		return
	}
	said := map[string]bool{}
	for _, l := range strings.Split(string(good.out)+"\n"+string(good.errOut), "\n") {
		said[strings.TrimSpace(l)] = true
	}
	for _, l := range strings.Split(string(p.out)+"\n"+string(p.errOut), "\n") {
		if l = strings.TrimSpace(l); l != "" && !said[l] {
			return
		}
	}
	w.failf("silent", "%s: %s without saying why: %s", what, p.describe(), quote(tail(string(p.out), 120)))
}

// mark notes what exists before an update, for leftover.
func (e *updEnv) mark(w *World) {
	e.beside = map[string]bool{}
	w.fs.each(func(path string, n *inode) { e.beside[path] = true })
}

// leftover: an update that ends by itself leaves nothing beside the program.
func (e *updEnv) leftover(w *World, p *Proc, what string) {
	if !w.is("C15") || p.killed || w.powered || strings.Contains(what, "unlink") || strings.Contains(what, "later") || strings.HasPrefix(what, "EIO after") {
		return
	}
	d, _ := dirOf(e.exe)
	left := ""
	w.fs.each(func(path string, n *inode) {
		if x, _ := dirOf(path); x == d && path != e.exe && !e.beside[path] {
			left = path
		}
	})
	w.ok("C15", left == "", "leftover", "with %s: %s and left %s", what, p.describe(), left)
}

// reset puts the old program back.
func (e *updEnv) reset(w *World) {
	w.fs.put(e.exe, e.old, e.mode)
	w.fs.chmod(w.fs.get(e.exe), e.mode)
	w.fs.syncAll()
}

var newerVersions = []string{"1.3.2", "1.4.0", "2.0.0", "1.10.0", "1.3.10", "1.4", "2", "1.3.1.1", "10.0.0", "1.3.100", "2.0", "1.20.3", "3.0.0.1"}

func (w *World) newer() string { return newerVersions[w.T.N(len(newerVersions))] }

// slow draws legal delays: no silence as long as the timeout, the check as a
// whole well within it.
func (s *srvM) slow(e *updEnv) {
	t := s.w.T
	unit := time.Duration(e.timeout) * time.Second
	kind := t.N(5)
	f := time.Duration(1 + t.N(60))
	chunked, nolen := t.N(3) == 2, t.N(3) == 2
	step := 1 + t.N(64)
	s.w.net.latency = []time.Duration{5 * time.Millisecond, time.Millisecond, 40 * time.Millisecond}[t.N(3)]
	s.tweak = func(r *reqRec, what string, rep reply) reply {
		rep.chunked = chunked && !strings.HasSuffix(what, "redirect")
		rep.noLength = nolen && !rep.chunked
		switch kind {
		case 1: // late answers
			if what == "api" {
				rep.delay = unit * f / 100 / 2
			} else {
				rep.delay = unit * f / 100
			}
		case 2, 3: // a slow line
			if what == "api" {
				rep.mode, rep.at, rep.drip = "drip", len(rep.body)/4+1, unit*f/100/8
			} else if !strings.HasSuffix(what, "redirect") {
				rep.mode, rep.at, rep.drip = "drip", len(rep.body)/step+1, min(unit*f/100, 4*time.Minute/time.Duration(step))
			}
		}
		return rep
	}
	if kind == 4 {
		s.w.net.plan = func(d *dialRec) { d.delay = unit * f / 100 / 2 }
	}
}

// ---------------------------------------------------------------- scenarios

// C15: proper releases, sound system: every update succeeds.
func scenUpdateGood(w *World) {
	e := w.updateEnv()
	r := w.genRelease(w.newer())
	e.accept(r)
	rels := []*relM{r}
	if w.T.N(3) == 2 {
		rels = append(rels, w.genRelease("1.3.1"), w.genRelease("1.3.0"))
		if w.T.N(3) == 2 { // a long history
			for i := 0; i < 24; i++ {
				o := w.genRelease("1.2." + itoa(24-i))
				o.changelog = strings.Repeat("* a change of version "+o.ver+"\r\n", 1+w.T.N(400))
				rels = append(rels, o)
			}
		}
		if w.T.N(4) == 3 {
			r.changelog = strings.Repeat("* change\n", 1+w.T.N(9000))
		}
	}
	s := w.newServer(rels...)
	s.slow(e)
	w.benign = w.T.N(2) == 1
	p := w.update(w.T.Pick("y\n", "Y\n", " y \n", "y"))
	why := e.judgeDone(w, p, r)
	w.ok("C15", why == "", "not-done", "update to %s: %s", r.ver, why)
	w.ok("C24", why == "" || !p.ok(), "false-result", "update to %s: %s", r.ver, why)
	w.ok("C17", p.says("("+r.ver+")") || !e.installed(w, r.binary), "untold", "the available version was not shown before the update")
	w.ok("C19", p.crash == "" && !p.hung(), "crash", "%s", p.describe())
	w.ok("C20", p.ok(), "genuine-refused", "%s", p.describe())
	w.ok("C13", p.crash == "", "crash", "%s", p.describe())
	w.summary = "update to " + r.ver + ", timeout " + itoa(e.timeout)
}

// C13/C14/C15: one call fails, or the machine stops, at any point; then the
// update is repeated.
func scenUpdateFault(w *World) {
	e := w.updateEnv()
	r := w.genRelease(w.newer())
	e.accept(r)
	s := w.newServer(r)
	var base *Proc
	ops := w.record(anyOp, func() { base = w.update("y\n") })
	why := e.judgeDone(w, base, r)
	w.ok("C15", why == "", "not-done", "update to %s: %s", r.ver, why)
	if why != "" && !w.is("C13", "C14", "C16", "C07") {
		return
	}
	e.reset(w)
	n := 1 + w.T.N(3)
	for i := 0; i < n; i++ {
		what := w.faultPlan(ops, anyOp)
		if what == "" {
			return
		}
		s.apiN = 0
		e.mark(w)
		p := w.update("y\n")
		w.plan = nil
		if w.T.N(8) == 7 && !w.powered {
			w.powerLoss("power lost later")
			what += ", power lost later"
		}
		e.check(w)
		e.judgeFail(w, p, what)
		e.leftover(w, p, what)
		e.reason(w, p, base, what)
		if p.ok() && !w.powered {
			ok := e.installed(w, r.binary)
			w.ok("C15", ok, "false-success", "with %s: %s but the program is not the new release", what, p.describe())
			w.ok("C24", ok, "false-result", "with %s: %s but the program is not the new release", what, p.describe())
		}
		w.powered = false
		w.summary = what
		if w.T.N(2) == 1 {
			e.reset(w)
		}
		if w.T.N(2) == 1 {
			continue
		}
		break
	}
	// the faults are over
	p := w.update("y\n")
	why = e.judgeDone(w, p, r)
	w.ok("C15", why == "", "not-recovered", "after %s, repeated: %s", w.summary, why)
	w.ok("C24", why == "" || !p.ok(), "false-result", "after %s, repeated: %s", w.summary, why)
}

// netFault draws a fault of the network for one connection or request.
func (w *World) netFault(s *srvM, total int) string {
	t := w.T
	k := t.N(max(total, 1))
	if t.N(3) == 0 {
		kind := t.Pick("refuse", "noroute", "dns", "blackhole", "early-stall", "early-reset", "early-close", "early-garbage", "early-stallhello", "early-plain")
		cnt := 0
		forever := t.N(2) == 1
		w.net.plan = func(d *dialRec) {
			cnt++
			if cnt-1 == k || forever && cnt-1 > k {
				if strings.HasPrefix(kind, "early-") {
					d.early = kind[6:]
				} else {
					d.kind = kind
				}
			}
		}
		return kind + " at connection " + itoa(k)
	}
	mode := t.Pick("stall", "reset", "cut", "stallhead", "resethead", "garbage", "stallinhead", "status", "empty", "page", "endless", "flip", "half", "zero", "long")
	frac := t.N(1001)
	code := []int{404, 500, 403, 503, 204, 304, 206, 429}[t.N(8)]
	framing := t.N(3)
	cnt := 0
	s.tweak = func(r *reqRec, what string, rep reply) reply {
		cnt++
		if cnt-1 != k {
			return rep
		}
		rep.chunked, rep.noLength = framing == 1, framing == 2
		switch mode {
		case "status":
			rep.status, rep.body, rep.header = code, []byte("{\"message\":\"error\"}"), nil
			if code == 204 || code == 304 {
				rep.body, rep.noLength, rep.chunked = nil, false, false
			}
		case "empty":
			rep.body = nil
		case "page":
			rep.body = []byte("<html><body>Sign in to the Wi-Fi</body></html>")
		case "endless":
			if what == "api" {
				rep.endless = true
			}
		case "flip":
			if len(rep.body) > 0 {
				b := append([]byte(nil), rep.body...)
				b[frac*(len(b)-1)/1000] ^= 1 << (frac % 8)
				rep.body = b
			}
			w.fault("http:flip")
		case "half":
			rep.body = rep.body[:len(rep.body)*frac/1001]
			w.fault("http:half")
		case "zero":
			rep.body = make([]byte, len(rep.body))
			w.fault("http:zero")
		case "long":
			rep.body = append(append([]byte(nil), rep.body...), rep.body...)
			w.fault("http:long")
		default:
			rep.mode, rep.at = mode, len(rep.body)*frac/1000
			if framing < 2 && rep.at < len(rep.body) && !strings.HasSuffix(what, "redirect") && (mode == "cut" || mode == "reset" || mode == "stall") {
				s.short = what
			}
		}
		return rep
	}
	return mode + " in the answer to request " + itoa(k)
}

// C14/C19: the network or the server misbehaves during an update.
func scenUpdateNet(w *World) {
	e := w.updateEnv()
	r := w.genRelease(w.newer())
	e.accept(r)
	s := w.newServer(r)
	total := 2
	if s.style > 0 {
		total = 4
	}
	if s.style == 5 {
		total = 6
	}
	what := w.netFault(s, total+2)
	start := w.now()
	e.mark(w)
	p := w.update("y\n")
	took := w.now() - start
	e.check(w)
	e.judgeFail(w, p, what)
	w.ok("C14", s.short == "" || !p.ok(), "truncated", "with %s: the %s arrived only in part, yet %s", what, s.short, p.describe())
	e.leftover(w, p, what)
	if p.ok() {
		ok := e.installed(w, r.binary)
		w.ok("C14", ok, "false-success", "with %s: %s but the program is not the new release", what, p.describe())
		w.ok("C24", ok, "false-result", "with %s: %s but the program is not the new release", what, p.describe())
		w.ok("C15", ok, "false-success", "with %s: %s but the program is not the new release", what, p.describe())
	} else {
		w.ok("C14", e.installed(w, e.old) || e.installed(w, r.binary), "unverified", "with %s: %s and the program changed", what, p.describe())
	}
	w.ok("C19", !p.hung(), "hang", "with %s: %s", what, p.describe())
	w.ok("C19", p.ok() || p.message() && p.code != 0, "silent", "with %s: %s", what, p.describe())
	w.ok("C19", took < 16*time.Duration(e.timeout)*time.Second+30*time.Second, "wait", "with %s: the update command took %v, timeout %d s", what, took, e.timeout)
	s.tweak, w.net.plan = nil, func(*dialRec) {}
	e.reset(w)
	failed := p
	p = w.update("y\n")
	why := e.judgeDone(w, p, r)
	w.ok("C15", why == "", "not-recovered", "after %s, repeated: %s", what, why)
	e.reason(w, failed, p, what)
	w.summary = what
}

// badRelease draws a release that must not be installed.
func (w *World) badRelease(ver string) (*relM, string) {
	t := w.T
	r := w.genRelease(ver)
	r.good = false
	evil := append([]byte("\x7fELF-evil-"), w.rnd.bytes(60+t.N(300))...)
	reg := func(name string, b []byte) tarEntry { return tarEntry{name: name, body: b, typ: tar.TypeReg} }
	pack := func(es ...tarEntry) {
		r.archive = packTar(es, tar.FormatUnknown, 6)
	}
	what := ""
	switch k := t.N(31); k {
	case 0:
		what = "another program than the checksum's"
		pack(reg("1pass", evil))
	case 1:
		what = "checksum of another program"
		r.sum = md5hex(evil) + "  1pass\n"
	case 2:
		what = "empty checksum"
		r.sum = t.Pick("", "\n", "   \n")
	case 3:
		what = "checksum page"
		r.sum = "<html>Not Found</html>"
	case 4:
		what = "archive without the program"
		pack(reg("README.md", []byte("hello")))
	case 5:
		what = "archive carrying a checksum of its own"
		pack(reg("checksum.md5", []byte(md5hex(evil)+"  1pass\n")), reg("1pass", evil))
	case 6:
		what = "archive carrying a checksum of its own, last"
		pack(reg("1pass", evil), reg("checksum.md5", []byte(md5hex(evil)+"  1pass\n")))
	case 7:
		what = "archive carrying an archive"
		pack(reg("1pass", evil), reg("1pass.tar.gz", evil))
	case 8:
		what = "empty program"
		pack(reg("1pass", nil))
	case 9:
		what = "program as a symbolic link"
		pack(tarEntry{name: "1pass", typ: tar.TypeSymlink, link: t.Pick("/etc/passwd", "checksum.md5", "/home/u/notes.txt")})
	case 10:
		what = "program as a directory"
		pack(tarEntry{name: "1pass", typ: tar.TypeDir}, reg("1pass/1pass", r.binary))
	case 11:
		what = "program in a subdirectory"
		pack(tarEntry{name: "bin", typ: tar.TypeDir}, reg("bin/1pass", r.binary))
	case 12:
		what = "two programs, the last one bad"
		pack(reg("1pass", r.binary), reg("1pass", evil))
	case 13:
		what = "truncated archive"
		r.archive = r.archive[:t.N(len(r.archive)-24)] // not just the trailer: the program itself could be whole
	case 14:
		what = "not an archive"
		r.archive = []byte("<html><body>404</body></html>")
	case 15:
		what = "empty archive"
		pack()
	case 16:
		what = "program cut short"
		pack(reg("1pass", r.binary[:len(r.binary)-1-t.N(20)]))
	case 17:
		what = "program extended"
		pack(reg("1pass", append(append([]byte(nil), r.binary...), 'x')))
	case 18:
		what = "prefix of the checksum only"
		r.sum = md5hex(r.binary)[:t.N(32)] + "\n"
	case 19:
		what = "checksum with garbage before it"
		r.sum = t.Pick("MD5 (1pass) = ", "x ", "\x00") + md5hex(r.binary) + "\n"
	case 20:
		what = "checksum extended"
		r.sum = md5hex(r.binary) + "00  1pass\n"
	case 21:
		what = "program as a hard link"
		pack(tarEntry{name: "1pass", typ: tar.TypeLink, link: "checksum.md5"})
	case 22, 23:
		what = "one digit of the checksum altered"
		h := []byte(md5hex(r.binary))
		i := t.N(32)
		h[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", h[i])+1+t.N(15))%16]
		r.sum = string(h) + "  1pass\n"
	case 24, 25:
		what = "checksum without its leading zero"
		for i := 0; md5hex(r.binary)[0] != '0'; i++ {
			r.binary = append(r.binary[:len(r.binary)-2:len(r.binary)-2], byte(i), byte(i>>8))
		}
		pack(reg("1pass", r.binary))
		r.sum = strings.TrimLeft(md5hex(r.binary), "0") + "  1pass\n"
		if t.N(2) == 1 {
			what = "checksum with another leading zero"
			r.sum = "0" + md5hex(r.binary) + "  1pass\n"
		}
	case 26:
		what = "no checksum file"
		r.noSum = true
	case 27:
		what = "no archive"
		r.noArch = true
	case 29:
		what = "checksum of the archive"
	case 30:
		what = "checksum of the checksum"
	case 28:
		what = "empty download address"
		if t.N(2) == 0 {
			r.sumURL = " "
		} else {
			r.archURL = " "
		}
	}
	r.fill()
	switch what {
	case "checksum of the archive":
		r.sum = md5hex(r.archive) + t.Pick("  1pass\n", "  1pass.tar.gz\n", "\n")
	case "checksum of the checksum":
		r.sum = md5hex([]byte(r.sum)) + "  1pass\n"
	}
	return r, what
}

// C14: releases that do not match their checksum.
func scenUpdateBad(w *World) {
	e := w.updateEnv()
	r, what := w.badRelease(w.newer())
	e.dl = map[string][]byte{"a": r.archive, "c": []byte(r.sum)}
	w.newServer(r)
	p := w.update("y\n")
	e.check(w)
	e.judgeFail(w, p, what)
	w.ok("C14", !p.ok(), "accepted", "%s: %s", what, p.describe())
	w.ok("C14", p.message(), "silent", "%s: %s", what, p.describe())
	w.ok("C14", e.installed(w, e.old), "unverified", "%s: the installed program changed", what)
	w.ok("C24", !p.ok(), "false-result", "%s: %s", what, p.describe())
	// a proper release afterwards
	g := w.genRelease("9.0.0")
	e.accept(g)
	w.newServer(g)
	p = w.update("y\n")
	why := e.judgeDone(w, p, g)
	w.ok("C15", why == "", "not-recovered", "after %s: %s", what, why)
	w.summary = what
}

// C14: a release that does not match its checksum, while calls fail too.
func scenUpdateBadFault(w *World) {
	e := w.updateEnv()
	r, what := w.badRelease(w.newer())
	e.dl = map[string][]byte{"a": r.archive, "c": []byte(r.sum)}
	s := w.newServer(r)
	ops := w.record(anyOp, func() { w.update("y\n") })
	e.check(w)
	var reads []int
	for i, o := range ops {
		if !o.mut && under(o.path, "/tmp") {
			reads = append(reads, i)
		}
	}
	for i, n := 0, 1+w.T.N(3); i < n; i++ {
		how := ""
		if len(reads) > 0 && w.T.N(2) == 0 { // what was downloaded cannot be read back
			k := reads[w.T.N(len(reads))]
			o := ops[k]
			en := w.errFor(o)
			once := w.T.N(3) > 0
			if once {
				w.plan = at(anyOp, k, func(o *op) *fault { return &fault{kind: "errno", errno: en} })
			} else {
				dir := o.path
				w.plan = func(o *op) *fault {
					if o.path == dir && !o.mut {
						return &fault{kind: "errno", errno: en}
					}
					return nil
				}
			}
			how = errName(en) + " from " + o.name + " " + o.path
		} else {
			how = w.faultPlan(ops, anyOp)
		}
		s.apiN = 0
		p := w.update("y\n")
		w.plan = nil
		e.check(w)
		w.powered = false
		e.judgeFail(w, p, what+" with "+how)
		w.ok("C14", !p.ok(), "accepted", "%s with %s: %s", what, how, p.describe())
		w.ok("C24", !p.ok(), "false-result", "%s with %s: %s", what, how, p.describe())
		w.ok("C14", e.installed(w, e.old), "unverified", "%s with %s: the installed program changed", what, how)
		w.summary = what + " with " + how
	}
	g := w.genRelease("9.0.0")
	e.accept(g)
	w.newServer(g)
	p := w.update("y\n")
	why := e.judgeDone(w, p, g)
	w.ok("C15", why == "", "not-recovered", "after %s: %s", w.summary, why)
}

// C16: hostile archives.
func scenUpdateHostile(w *World) {
	t := w.T
	e := w.updateEnv()
	r := w.genRelease(w.newer())
	e.accept(r)
	w.fs.put("/home/u/.profile", []byte("export A=1\n"), 0644)
	w.fs.put("/etc/passwd", []byte("root:x:0:0\n"), 0644)
	w.fs.put("/usr/bin/ls", []byte("ls"), 0755)
	w.fs.syncAll()
	w.remember()
	var es []tarEntry
	bad := []byte("evil content")
	n := 1 + t.N(4)
	for i := 0; i < n; i++ {
		name := t.Pick("../evil", "../../evil", "../../home/u/.profile", "../../../../../../etc/passwd", "/etc/passwd", "/home/u/.profile", "..", ".", "", "a/../../evil", "./../evil", "../1pass/ok", "../../usr/bin/ls", "sub/x", "../1passX", "....//evil", "..\\evil", "../.", "x/./../../evil2", "../1pass.lock", "checksum.md5", "1pass.tar.gz", "./checksum.md5", "../../usr/bin/1pass", "../../home/u/.config/1pass/1pass.yml", strings.Repeat("a", 120), strings.Repeat("d/", 40)+"x", "café", "-rf", "CHECKSUM.MD5", "//etc/passwd")
		typ := []byte{tar.TypeReg, tar.TypeReg, tar.TypeReg, tar.TypeSymlink, tar.TypeLink, tar.TypeDir, tar.TypeFifo, tar.TypeChar, tar.TypeBlock}[t.N(9)]
		if name == "" && typ != tar.TypeReg {
			name = "."
		}
		x := tarEntry{name: name, body: bad, typ: typ}
		if typ == tar.TypeSymlink || typ == tar.TypeLink {
			x.link = t.Pick("/home/u", "..", "/etc/passwd", "../../home/u/notes.txt", "/usr/bin")
			if t.N(2) == 1 { // then write through it
				ln := t.Pick("l", "README.md", "1pass")
				x.name = ln
				es = append(es, x)
				x = tarEntry{name: t.Pick(ln+"/evil", ln), body: bad, typ: tar.TypeReg}
			}
		}
		es = append(es, x)
	}
	main := tarEntry{name: "1pass", body: r.binary, typ: tar.TypeReg}
	switch t.N(3) {
	case 0:
		es = append(es, main)
	case 1:
		es = append([]tarEntry{main}, es...)
	}
	var names []string
	for _, x := range es {
		names = append(names, string(rune(x.typ))+":"+tail(x.name, 30))
	}
	what := "archive with " + strings.Join(names, " ")
	r.archive = packTar(es, tar.FormatUnknown, 6)
	e.dl["a"+r.ver] = r.archive
	w.newServer(r)
	if t.N(4) == 3 {
		k := t.N(60)
		kind := t.Pick("kill", "errno")
		w.plan = at(anyOp, k, func(o *op) *fault { return &fault{kind: kind, errno: syscall.EIO} })
	}
	p := w.update("y\n")
	w.plan = nil
	e.check(w)
	e.judgeFail(w, p, what)
	for _, f := range [][2]string{{"/home/u/.profile", "export A=1\n"}, {"/etc/passwd", "root:x:0:0\n"}, {"/usr/bin/ls", "ls"}, {"/home/u/notes.txt", "notes"}} {
		b, ok := w.fs.read(f[0])
		w.ok("C16", ok && string(b) == f[1], "escape", "%s changed %s", what, f[0])
	}
	w.ok("C14", !p.ok() || e.installed(w, r.binary), "false-success", "%s: %s", what, p.describe())
	w.summary = what
}

// C17: consent and versions.
func scenUpdateConsent(w *World) {
	t := w.T
	e := w.updateEnv()
	older := []string{"1.3.1", "1.3.0", "1.2.9", "0.9.9", "1.3", "1", "0.0.0", "1.2.99", "0.99.99", "1.2.10", "01.03.01", "1.3.1.0", "0.13.10", "1.1.100", "0.131.1", "0.20", "1.2.30"}
	odd := []string{"", "nightly", "1.4.0-rc1", "2.x", "1..4", "..", "latest 9.9.9", "1,4,0", "1.4.0+build", "٢.0.0", "-2.0.0", "2.-1.0", "1e9"}
	ver, isNew := w.newer(), true
	switch t.N(4) {
	case 1:
		ver, isNew = older[t.N(len(older))], false
	case 2:
		ver, isNew = odd[t.N(len(odd))], false
	}
	r := w.genRelease(ver)
	rels := []*relM{r}
	if t.N(3) == 2 {
		rels = append(rels, w.genRelease("1.3.1"), w.genRelease("99.0.0"))
	}
	s := w.newServer(rels...)
	ans := t.Pick("y\n", "n\n", "", "\n", "yes\n", "no\n", "N\n", "x\n", "yy\n", "y y\n", "n\ny\n", "\ny\n", "1\n", "true\n", "Y\n", "j\n", "\x1b[A\n", "sure y\n")
	yes := ans == "y\n" || ans == "Y\n"
	change := false
	if isNew && t.N(3) == 2 { // the published release changes after the question
		change = true
		v2 := older[t.N(len(older))]
		if t.N(3) == 2 {
			v2 = odd[t.N(len(odd))]
		}
		r2 := w.genRelease(v2)
		s.all = append(s.all, r2)
		s.list = func(k int) []*relM {
			if k == 0 {
				return rels
			}
			if t.N(6) == 5 {
				return nil
			}
			return []*relM{r2}
		}
	}
	other := false
	args := []string{"update"}
	if t.N(6) == 5 { // other commands never install anything
		other = true
		args = [][]string{{"configure"}, {"categories"}, {"version"}, {"list", "-v", "/home/u/none"}, {"help"}, {"update", "--help"}, {"updates"}, {"-h"}}[t.N(8)]
	}
	may := isNew && yes && !change && !other
	if may {
		e.accept(r)
	}
	s.slow(e)
	w.benign = t.N(2) == 1
	faulty := t.N(3) == 2
	if faulty {
		k := t.N(40)
		f := fault{kind: t.Pick("errno", "kill", "power", "errafter"), errno: []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[t.N(3)]}
		w.plan = at(anyOp, k, func(o *op) *fault { return &f })
	}
	p := w.exec(spec{args: args, stdin: ans, tty: t.N(2) == 0}, horizon)
	w.after(p, nil)
	e.check(w)
	if faulty { // whatever fails
		w.plan, w.powered = nil, false
		w.ok("C17", may || e.installed(w, e.old), "installed", "release %s, answer %s, %s fails: the installed program was replaced", quote(ver), quote(ans), args[0])
		w.summary = "release " + quote(ver) + ", answer " + quote(ans) + " with a fault"
		return
	}
	what := "release " + quote(ver) + ", answer " + quote(ans) + ifs(change, ", release withdrawn meanwhile") + ifs(other, ", command "+args[0])
	w.ok("C24", p.crash == "", "crash", "%s: %s", what, p.describe())
	if may {
		why := e.judgeDone(w, p, r)
		w.ok("C15", why == "", "not-done", "%s: %s", what, why)
	} else {
		w.ok("C17", e.installed(w, e.old), "installed", "%s: the installed program was replaced", what)
		w.ok("C17", !p.says("updated to version"), "installed", "%s: reported as updated", what)
		if !isNew && !other {
			w.ok("C17", !p.says("New version"), "offered", "%s: offered as a new version", what)
		}
		if !yes || !isNew || other {
			for _, k := range s.kinds {
				w.ok("C17", k == "api", "fetched", "%s: %s was requested", what, k)
			}
		}
		if !other {
			w.ok("C24", !p.ok(), "false-result", "%s: %s", what, p.describe())
		}
	}
	if w.prop == "C17" && may {
		w.ok("C17", p.ok() && e.installed(w, r.binary), "newer-refused", "%s: %s", what, p.describe())
	}
	w.summary = what
}

// C20: impostors.
func scenUpdateImpostor(w *World) {
	t := w.T
	e := w.updateEnv()
	r := w.genRelease(w.newer())
	s := w.newServer(r)
	k := t.N(7)
	kind := t.Pick("self", "wronghost", "expired", "future", "untrusted", "subdomain", "clientauth", "plainredirect", "plainurl", "plaintext", "clock", "plainapi", "selfca", "lookalike", "noname", "many", "leafsigned", "chain")
	what := kind + " at connection " + itoa(k)
	cnt := 0
	marked := "6.6.6"
	evil := w.genRelease(marked)
	var hit bool
	switch kind {
	case "plainredirect", "plainapi": // sent on to plain text
		n := 0
		s.tweak = func(q *reqRec, wh string, rep reply) reply {
			if !q.tls {
				hit = true
				return reply{status: 200, body: evil.archive}
			}
			ok := wh != "api"
			if kind == "plainapi" {
				ok = wh == "api"
			}
			if ok {
				n++
				if n-1 == k%4 {
					return reply{status: []int{302, 301, 307}[t.N(3)], header: [][2]string{{"Location", t.Pick("http://"+objHost+"/obj/x", "http://"+q.host+q.path, "http://"+q.host+t.Pick(":443", ":80", ":8080", ":8443")+q.path, "HTTP://mirror.example.net/x", "ftp://"+objHost+"/x", "file:///home/u/notes.txt")}}}
				}
			}
			return rep
		}
	case "plainurl":
		u := t.Pick("http://", "HTTP://") + dlHost + t.Pick("", ":443", ":80", ":8080", ":8443") + "/MashMB/1pass/releases/download/" + marked + "/"
		if t.N(2) == 0 {
			r.archURL = u + r.archName
		} else {
			r.sumURL = u + r.sumName
		}
	case "plaintext":
		w.net.plan = func(d *dialRec) {
			cnt++
			if cnt-1 == k {
				d.early = "plain"
			}
		}
	case "clock": // the certificate is not valid on this machine's date
		w.jumpClock(86400 * 365 * 50)
	default:
		w.net.plan = func(d *dialRec) {
			cnt++
			if cnt-1 == k || t.N(3) == 2 && cnt-1 > k {
				d.cert = kind
			}
		}
		s.tweak = func(q *reqRec, wh string, rep reply) reply {
			if q.d.cert != "" && wh == "api" {
				s2 := &srvM{w: w, list: func(int) []*relM { return []*relM{evil} }}
				rep, _ = s2.answer(q)
			}
			return rep
		}
	}
	// GUI and vault commands are covered by the checks; here the update
	args := []string{"update"}
	if t.N(4) == 3 {
		args = []string{"categories"}
	}
	p := w.exec(spec{args: args, stdin: "y\n", tty: true}, horizon)
	w.after(p, nil)
	w.ok("C20", p.crash == "" && !p.hung(), "crash", "%s: %s", what, p.describe())
	for _, q := range w.net.reqs {
		w.ok("C20", q.tls && q.d.cert == "" && kind != "clock", "talked", "%s: the program sent %s to an impostor", what, q.url)
	}
	w.ok("C20", !hit, "talked", "%s: the program went on in plain text", what)
	w.ok("C20", !p.says(marked), "believed", "%s: release data of an impostor is shown", what)
	touched := false
	for _, d := range w.net.dials {
		if d.cert != "" || d.early != "" {
			touched = true
		}
	}
	if kind == "clock" || kind == "plainurl" {
		touched = true
	}
	if !touched && (kind == "plainredirect" && k%4 < func() int {
		switch s.style {
		case 0:
			return 2
		case 5:
			return 6
		}
		return 4
	}() || kind == "plainapi" && k%4 < 2) && args[0] == "update" {
		touched = true
	}
	if touched {
		w.ok("C20", e.installed(w, e.old), "believed", "%s: the program was replaced", what)
		if args[0] == "update" {
			w.ok("C20", !p.ok(), "believed", "%s: %s", what, p.describe())
		} else {
			w.ok("C20", p.ok() && p.says("category") || p.says("CATEGORY"), "broken", "%s: %s", what, p.describe())
		}
	} else {
		w.ok("C20", e.installed(w, e.old) || e.installed(w, r.binary), "believed", "%s: the program was replaced by something else", what)
	}
	w.summary = what
}

// C13/C14: two updates at the same time.
// stall stops a process for a while after its k-th system call
func (w *World) stall(p *Proc, k int) func(o *op) *fault {
	d := time.Duration(w.T.Range(1, 4000)) * time.Millisecond
	return at(func(o *op) bool { return o.p == p }, k, func(o *op) *fault { return &fault{kind: "delay", d: d} })
}

func scenUpdateRace(w *World) {
	t := w.T
	e := w.updateEnv()
	a, b := w.genRelease("1.4.0"), w.genRelease("1.5.0")
	if t.N(2) == 0 {
		b = a
	}
	e.accept(a)
	e.accept(b)
	sw := t.N(6)
	s := w.newServer(a, b)
	s.list = func(k int) []*relM {
		if k < sw {
			return []*relM{a}
		}
		return []*relM{b}
	}
	w.benign = t.N(2) == 1
	gap := t.N(4)
	p1 := w.spawn(spec{args: []string{"update"}, stdin: "y\n", tty: true})
	focus := func(o *op) bool { return filepath.Base(o.path) == "1pass" && o.path != e.exe }
	switch gap {
	case 3: // the first stands still while it handles the extracted program; the second then runs up to the same part
		w.plan = at(func(o *op) bool { return o.p == p1 && focus(o) }, t.N(24), func(o *op) *fault { return &fault{kind: "delay", d: 3 * time.Second} })
		w.run(time.Second, func() bool { return p1.gone() })
	case 1:
		for i, n := 0, t.N(80); i < n && w.step(); i++ {
		}
	case 2:
		w.run(time.Duration(t.N(400))*time.Millisecond, func() bool { return p1.gone() })
	}
	p2 := w.spawn(spec{args: []string{"update"}, stdin: "y\n", tty: true})
	killed := false
	switch m := t.N(3); {
	case gap == 3:
		w.plan = at(func(o *op) bool { return o.p == p2 && focus(o) }, t.N(24), func(o *op) *fault { return &fault{kind: "delay", d: 30 * time.Second} })
		w.run(10*time.Second, nil)
		w.plan = nil
	case m == 1:
		// each is stalled once: a slow disk, a suspended process
		pa, pb := w.stall(p1, t.N(80)), w.stall(p2, t.N(80))
		w.plan = func(o *op) *fault {
			if f := pa(o); f != nil {
				return f
			}
			return pb(o)
		}
	case m == 2:
		k := t.N(140)
		after := t.N(2) == 1
		part := t.N(4000)
		kind := t.Pick("kill", "power")
		w.plan = at(anyOp, k, func(o *op) *fault { killed = true; return &fault{kind: kind, after: after, n: part} })
	}
	done := w.run(horizon, nil)
	w.plan = nil
	w.ok("C13", done, "hang", "two updates do not end")
	for _, p := range []*Proc{p1, p2} {
		w.after(p, nil)
		if !p.gone() {
			continue
		}
		w.ok("C13", p.crash == "", "crash", "two updates: %s", p.describe())
		w.ok("C14", p.crash == "", "crash", "two updates: %s", p.describe())
		if p.ok() && !killed {
			ok := e.installed(w, a.binary) || e.installed(w, b.binary)
			w.ok("C15", ok, "false-success", "two updates: %s but the program is not a new release", p.describe())
			w.ok("C24", ok, "false-result", "two updates: %s but the program is not a new release", p.describe())
		}
	}
	e.check(w)
	w.powered = false
	w.benign = false
	s.apiN = 99
	p := w.update("y\n")
	why := e.judgeDone(w, p, b)
	w.ok("C15", why == "", "not-recovered", "after two updates at once: %s", why)
	w.summary = "two updates at once" + ifs(killed, ", one stopped")
}
