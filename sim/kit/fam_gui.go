//go:build go1.27

package kit

import (
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/seam"
)

// Family E: the interactive interface. The model knows what the user did and
// therefore what the screen has to show; the screen is judged after every key
// (and, for what must never be visible, at every frame).

const (
	kUp    = 0xFFFF - 18
	kDown  = 0xFFFF - 19
	kLeft  = 0xFFFF - 20
	kRight = 0xFFFF - 21
	kDel   = 0xFFFF - 13
	kIns   = 0xFFFF - 12
	kEnter = 0x0D
	kTab   = 0x09
	kCtrlL = 0x0C
	kCtrlQ = 0x11
	kSpace = 0x20
	kBack  = 0x08
	kBack2 = 0x7F
	kEsc   = 0x1B
	blue   = 5
)

type keyM struct {
	key uint16
	ch  rune
	mod uint8
}

func (k keyM) String() string {
	if k.ch != 0 {
		if k.mod != 0 {
			return "Alt+" + string(k.ch)
		}
		return string(k.ch)
	}
	n := map[uint16]string{kUp: "Up", kDown: "Down", kLeft: "Left", kRight: "Right", kEnter: "Enter", kTab: "Tab", kCtrlL: "Ctrl+L", kCtrlQ: "Ctrl+Q", kSpace: "Space", kBack: "Backspace", kBack2: "Backspace2", kEsc: "Esc", kDel: "Delete", kIns: "Insert"}[k.key]
	if n == "" {
		n = "key " + itoa(int(k.key))
	}
	return n
}

func ch(r rune) keyM {
	if r == ' ' {
		return keyM{key: kSpace}
	}
	return keyM{ch: r}
}
func kk(k uint16) keyM { return keyM{key: k} }

type catRow struct {
	text  string
	items []*mItem
}

type guiM struct {
	w      *World
	v      *vaultM
	p      *Proc
	s      *ScreenModel
	mode   string // prompt err cats items details gone
	typed  []rune
	rows   []catRow
	ci, ii int
	bound  map[int]bool
	ox, oy int
	sized  bool // resized since the panes were opened
	lost   bool // the model no longer follows (odd editing keys)
	keys   []string
	mute   bool // frames are not judged now
	x, y   int  // size when the panes were opened
	fuzzy  bool // damaged vault: shown values may be missing
	opened int
}

func (w *World) startGui(v *vaultM, x, y int, args ...string) *guiM {
	g := &guiM{w: w, v: v, mode: "prompt", s: newScreen(x, y), x: x, y: y}
	if args == nil {
		args = []string{"-v", v.path}
		if w.T.N(3) == 1 {
			args = nil
		}
	}
	g.s.onDraw = func(s *ScreenModel) { g.frame() }
	g.p = w.spawn(spec{args: args, tty: true, gui: g.s})
	w.settle()
	return g
}

// ---- the model

// load takes the vault as stored now.
func (g *guiM) load() {
	var items []*mItem
	for _, it := range g.v.items {
		c := *it
		if c.known {
			items = append(items, &c)
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.code != b.code {
			return a.code < b.code
		}
		if a.title != b.title {
			return a.title < b.title
		}
		return a.uid < b.uid
	})
	g.rows = nil
	var all, trash []*mItem
	by := map[string][]*mItem{}
	for _, it := range items {
		if it.trashed {
			trash = append(trash, it)
			continue
		}
		all = append(all, it)
		by[it.code] = append(by[it.code], it)
	}
	if len(all) > 0 {
		g.rows = append(g.rows, catRow{"All (" + itoa(len(all)) + ")", all})
		for _, c := range cats {
			if n := len(by[c.code]); n > 0 {
				g.rows = append(g.rows, catRow{c.name + " (" + itoa(n) + ")", by[c.code]})
			}
		}
	}
	if len(trash) > 0 {
		g.rows = append(g.rows, catRow{"Trashed (" + itoa(len(trash)) + ")", trash})
	}
	g.ci = 0
}

func (g *guiM) list() []*mItem {
	if g.ci >= len(g.rows) {
		return nil
	}
	return g.rows[g.ci].items
}

func (g *guiM) item() *mItem {
	if l := g.list(); g.ii < len(l) {
		return l[g.ii]
	}
	return nil
}

// apply is the expected reaction to a key.
func (g *guiM) apply(k keyM) {
	if k.mod != 0 {
		return
	}
	if k.key == kCtrlQ && k.ch == 0 {
		g.mode = "gone"
		return
	}
	down := k.ch == 'j' || k.ch == 0 && k.key == kDown
	up := k.ch == 'k' || k.ch == 0 && k.key == kUp
	left := k.ch == 'h' || k.ch == 0 && k.key == kLeft
	right := k.ch == 'l' || k.ch == 0 && k.key == kRight
	enter := k.ch == 0 && k.key == kEnter
	tab := k.ch == 0 && k.key == kTab
	if k.ch == 0 && k.key == kCtrlL && (g.mode == "cats" || g.mode == "items" || g.mode == "details") {
		g.mode, g.typed = "prompt", nil
		g.rows = nil
		return
	}
	switch g.mode {
	case "prompt":
		switch {
		case k.ch != 0:
			g.typed = append(g.typed, k.ch)
		case k.key == kSpace:
			g.typed = append(g.typed, ' ')
		case k.key == kBack || k.key == kBack2:
			if n := len(g.typed); n > 0 {
				g.typed = g.typed[:n-1]
			}
		case enter:
			if string(g.typed) == g.v.pass && !g.v.profBad {
				g.load()
				g.mode = "cats"
				g.opened++
			} else {
				g.mode = "err"
			}
			g.typed = nil
		case k.key == kUp || k.key == kDown || k.key == kLeft || k.key == kRight || k.key == kDel || k.key == kIns:
			g.lost = true
		}
	case "err":
		if enter {
			g.mode = "prompt"
		}
	case "cats":
		switch {
		case down && g.ci < len(g.rows)-1:
			g.ci++
		case up && g.ci > 0:
			g.ci--
		case (right || enter) && len(g.rows) > 0:
			g.mode, g.ii, g.ox, g.oy, g.sized = "items", 0, 0, 0, false
			g.x, g.y = g.s.w, g.s.h
			g.bound = map[int]bool{}
		}
	case "items":
		switch {
		case down && g.ii < len(g.list())-1:
			g.ii++
		case up && g.ii > 0:
			g.ii--
		case left || k.ch == 'q':
			g.mode = "cats"
		case tab && len(g.list()) > 0:
			g.mode, g.ox, g.oy = "details", 0, 0
		}
	case "details":
		switch {
		case down:
			g.oy++
		case up && g.oy > 0:
			g.oy--
		case right:
			g.ox++
		case left && g.ox > 0:
			g.ox--
		case tab:
			g.mode, g.ox, g.oy = "items", 0, 0
		}
	}
}

// ---- judging

// runs are the pieces of vault content on the screen: words of five or more
// capital consonants, which nothing else the program shows contains.
func consonantRuns(s string) []string {
	var out []string
	start := -1
	for i := 0; i <= len(s); i++ {
		if i < len(s) && strings.IndexByte(b32, s[i]) >= 0 {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 && i-start >= 5 {
			out = append(out, s[start:i])
		}
		start = -1
	}
	return out
}

// frame: what must never be visible, in whatever frame.
func (g *guiM) frame() {
	w := g.w
	if g.mute || !w.is("C03", "C09", "C02", "C08") || g.lost && g.mode != "prompt" {
		return
	}
	w.checks++
	text := g.s.text()
	if g.lost {
		text = ""
	}
	locked := g.mode == "prompt" || g.mode == "err" || g.mode == "gone"
	var allow []string
	var hidden []string
	if g.mode == "items" || g.mode == "details" {
		for i, it := range g.list() {
			allow = append(allow, it.title)
			same := i == g.ii || !g.bound[g.ii] && it.title == g.item().title && it.code == g.item().code
			if same {
				allow = append(allow, it.lines(g.mode == "details")...)
			} else {
				hidden = append(hidden, it.secrets...)
			}
		}
	}
	for _, r := range consonantRuns(text) {
		ok := false
		for _, a := range allow {
			if strings.Contains(a, r) {
				ok = true
			}
		}
		if ok {
			continue
		}
		what, secret := "", false
		for _, it := range g.v.items {
			for _, s := range it.secrets {
				if strings.Contains(s, r) || strings.Contains(r, s) {
					what, secret = "a secret of item "+it.uid+" ("+quote(it.title)+")", true
				}
			}
			if what == "" && strings.Contains(it.title, r) {
				what = "the title " + quote(it.title)
			}
		}
		isPass := strings.Contains(g.v.pass, r)
		if isPass {
			what = "the master password"
		}
		if what == "" {
			what = quote(r)
		}
		st := g.state()
		if locked && !isPass && w.prop == "C03" {
			w.violate("locked-shows", "after %s: the locked screen shows %s", st, what)
		}
		if w.prop == "C02" && locked && (isPass || w.prop == "C02") {
			w.violate("exposed", "after %s: the locked screen shows %s", st, what)
		}
		if secret || isPass {
			if w.prop == "C09" || w.prop == "C08" {
				w.violate("secret-visible", "after %s: the screen shows %s", st, what)
			}
		}
	}
	if locked && w.prop == "C03" {
		for _, ln := range strings.Split(text, "\n") {
			for i := 0; i+2 < len(ln); i++ {
				if ln[i] == '(' && ln[i+1] >= '0' && ln[i+1] <= '9' {
					w.violate("locked-shows", "after %s: the locked screen shows a count: %s", g.state(), quote(strings.TrimSpace(ln)))
				}
			}
		}
	}
}

func (g *guiM) state() string {
	n := len(g.keys)
	l := g.keys
	if n > 14 {
		l = append([]string{"..."}, g.keys[n-14:]...)
	}
	return "keys [" + strings.Join(l, " ") + "] (" + g.mode + ", terminal " + itoa(g.s.w) + "x" + itoa(g.s.h) + ")"
}

func clip(s string, ox, n int) string {
	r := []rune(s)
	if ox >= len(r) {
		return ""
	}
	r = r[ox:]
	if len(r) > n {
		r = r[:n]
	}
	return string(r)
}

func (s *ScreenModel) blueRow(x0, y0, x1, y1 int) (rows []int) {
	for y := y0; y <= y1 && y < s.fh; y++ {
		for x := x0; x <= x1 && x < s.fw; x++ {
			if s.bg[y*s.fw+x]&0x1ff == blue {
				rows = append(rows, y-y0)
				break
			}
		}
	}
	return
}

// window finds where the visible rows lie in the full list; -1 if nowhere.
func window(vis, all []string) []int {
	var out []int
	for k := 0; k+len(vis) <= len(all); k++ {
		ok := true
		for i := range vis {
			if vis[i] != all[k+i] {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, k)
		}
	}
	return out
}

func trimAll(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = strings.TrimSpace(s)
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return out
}

// pane compares the details pane with the item; "" if it is right.
func (g *guiM) pane(it *mItem, reveal bool) string {
	x0, x1 := int(0.5*float32(g.x-2)+1)+1, g.x-3
	y0, y1 := 5, g.y-6
	wid := x1 - x0 + 1
	vis := g.s.region(x0, y0, x1, y1)
	var want []string
	for _, l := range it.lines(reveal) {
		want = append(want, clip(l, g.ox, wid))
	}
	want = nonblank(want)
	got := nonblank(vis)
	if it.damaged {
		for _, l := range got {
			if !contains(want, l) && !strings.HasPrefix(l, "-----") {
				return "shows " + quote(l) + ", which is not stored"
			}
		}
		return ""
	}
	if len(got) == 0 && len(want) > 0 && g.oy == 0 && g.ox == 0 {
		return "shows nothing"
	}
	ks := window(got, want)
	if g.oy == 0 {
		if len(ks) == 0 || ks[0] != 0 {
			_, d := sameLines(got, want[:min(len(got), len(want))])
			if d == "" {
				d = itoa(len(got)) + " lines shown, " + itoa(len(want)) + " stored"
			}
			return d
		}
		last := 0
		for i, l := range vis {
			if strings.TrimSpace(l) != "" {
				last = i
			}
		}
		if len(got) < len(want) && len(vis)-1-last > 2 && g.ox == 0 {
			return "shows only " + itoa(len(got)) + " of " + itoa(len(want)) + " lines"
		}
		return ""
	}
	if len(got) > 0 && len(ks) == 0 {
		return "scrolled: shows " + quote(got[0]) + "..., which is not that part of the item"
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// screen compares everything visible with the model; class "" if right.
func (g *guiM) screen() (class, why string) {
	s := g.s
	switch g.mode {
	case "prompt", "err":
		// dialog in the middle, nothing else of the vault
		body := strings.Join(s.region(1, 4, s.fw-2, s.fh-5), "\n")
		if g.mode == "err" && !strings.Contains(body, "invalid password") {
			return "dialog", "no message about the wrong password"
		}
		if g.mode == "prompt" && !strings.Contains(body, "Password") {
			return "dialog", "no password prompt"
		}
		if g.mode == "prompt" && strings.Contains(body, "invalid password") {
			return "dialog", "still the message about the wrong password"
		}
		return "", ""
	case "cats":
		x0, y0, x1, y1 := 1, 4, s.fw-2, s.fh-5
		vis := trimAll(s.region(x0, y0, x1, y1))
		var all []string
		for _, r := range g.rows {
			all = append(all, r.text)
		}
		if len(vis) == 0 && len(all) == 0 {
			return "", ""
		}
		ks := window(vis, all)
		if len(ks) == 0 || len(vis) == 0 {
			return "categories", "shown " + quote(strings.Join(vis, ", ")) + ", stored " + quote(strings.Join(all, ", "))
		}
		if len(vis) < len(all) && len(vis) < y1-y0+1 {
			return "categories", "only " + itoa(len(vis)) + " of " + itoa(len(all)) + " categories are shown"
		}
		hl := s.blueRow(x0, y0, x1, y1)
		if len(hl) != 1 {
			return "highlight", itoa(len(hl)) + " highlighted categories"
		}
		if hl[0] >= len(vis) || vis[hl[0]] != all[g.ci] {
			return "highlight", "highlighted " + quote(at0(vis, hl[0])) + ", selected " + quote(all[g.ci])
		}
		return "", ""
	case "items", "details":
		x0, x1 := 2, int(0.5*float32(g.x-2))-1
		y0, y1 := 5, g.y-6
		vis := trimAll(s.region(x0, y0, x1, y1))
		var all []string
		for _, it := range g.list() {
			t := it.title
			if t == "" {
				t = "<NO TITLE>"
			}
			all = append(all, strings.TrimSpace(clip(t, 0, x1-x0+1)))
		}
		if g.fuzzy {
			return g.paneOnly()
		}
		ks := window(vis, all)
		if len(ks) == 0 {
			return "items", "shown " + quote(strings.Join(vis, ", ")) + ", stored " + quote(strings.Join(all, ", "))
		}
		if len(vis) < len(all) && len(vis) < y1-y0+1 {
			return "items", "only " + itoa(len(vis)) + " of " + itoa(len(all)) + " items are shown"
		}
		hl := s.blueRow(x0, y0, x1, y1)
		if len(hl) != 1 {
			return "highlight", itoa(len(hl)) + " highlighted items"
		}
		hit := false
		for _, k := range ks {
			if k+hl[0] == g.ii {
				hit = true
			}
		}
		if !hit {
			return "highlight", "highlighted " + quote(at0(vis, hl[0])) + " (row " + itoa(hl[0]+1) + "), selected " + quote(all[g.ii]) + " (item " + itoa(g.ii+1) + ")"
		}
		return g.paneOnly()
	}
	return "", ""
}

func at0(l []string, i int) string {
	if i < len(l) {
		return l[i]
	}
	return ""
}

func (g *guiM) paneOnly() (string, string) {
	if why := g.pane(g.item(), g.mode == "details"); why != "" {
		return "pane", "item " + quote(g.item().title) + ": " + why
	}
	return "", ""
}

// bind resolves which of several items of equal title is the selected one.
func (g *guiM) bind() {
	if g.mode != "items" || g.bound == nil || g.bound[g.ii] {
		return
	}
	l := g.list()
	it := l[g.ii]
	var fits []int
	for j := range l {
		if l[j].title == it.title && l[j].code == it.code && !g.bound[j] && g.pane(l[j], false) == "" {
			fits = append(fits, j)
		}
	}
	if len(fits) == 1 {
		l[g.ii], l[fits[0]] = l[fits[0]], l[g.ii]
		g.bound[g.ii] = true
	} else if len(fits) > 1 {
		single := true
		for j := range l {
			if j != g.ii && l[j].title == it.title && l[j].code == it.code {
				single = false
			}
		}
		g.bound[g.ii] = single
	}
}

var guiProps = []string{"C03", "C10", "C09", "C01", "C02", "C05", "C04"}

// press sends one key and judges the reaction.
func (g *guiM) press(k keyM) {
	w := g.w
	if g.p.gone() {
		return
	}
	was := g.mode
	prev := g.snap()
	old := *g
	g.apply(k)
	g.keys = append(g.keys, k.String())
	w.note("key", k.String())
	w.logf("key %s -> %s", k.String(), g.mode)
	w.tick()
	t0 := w.now()
	g.s.ev <- seam.Event{Type: 0, Key: k.key, Ch: k.ch, Mod: k.mod}
	w.settle()
	w.okFor([]string{"C22"}, w.now() == t0, "delay", "after %s: the reaction took %v", g.state(), w.now()-t0)
	if g.mode == "gone" {
		return
	}
	g.alive()
	if g.p.gone() || g.lost {
		return
	}
	g.bind()
	g.judge(was)
	idle := old.mode == g.mode && old.ci == g.ci && old.ii == g.ii && old.ox == g.ox && old.oy == g.oy && string(old.typed) == string(g.typed)
	if idle && w.prop == "C10" {
		now := g.snap()
		w.ok("C10", prev == now, "changed", "after %s: %s must not change anything, but the screen changed", g.state(), k)
	}
	if w.prop == "C22" && !idle && !g.sized {
		_, why := g.screen()
		w.ok("C22", prev != g.snap() || why == "", "no-reaction", "after %s: the screen did not change: %s", g.state(), why)
	}
}

// snap is the screen below the version line, with colours.
func (g *guiM) snap() string {
	var sb strings.Builder
	s := g.s
	for i := 3 * s.fw; i < len(s.ch); i++ {
		sb.WriteRune(s.ch[i])
		sb.WriteByte(byte(s.bg[i]))
		sb.WriteByte(byte(s.fg[i]))
	}
	return sb.String()
}

func (g *guiM) alive() {
	w := g.w
	w.ok("C23", g.p.crash == "", "crash", "after %s: %s", g.state(), g.p.describe())
	w.ok("C23", !g.p.gone(), "ended", "after %s: %s: %s", g.state(), g.p.describe(), quote(tail(string(g.p.errOut), 200)))
	w.ok("C02", !g.p.gone(), "ended", "after %s: %s: %s", g.state(), g.p.describe(), quote(tail(string(g.p.errOut), 200)))
	w.ok("C05", !g.p.gone(), "ended", "after %s: %s: %s", g.state(), g.p.describe(), quote(tail(string(g.p.errOut), 200)))
	w.ok("C24", g.p.crash == "", "crash", "after %s: %s", g.state(), g.p.describe())
}

func (g *guiM) judge(was string) {
	w := g.w
	if g.sized || !w.is(guiProps...) {
		return
	}
	class, why := g.screen()
	switch w.prop {
	case "C10":
		if was == "prompt" && g.mode != "cats" || g.mode == "prompt" || g.mode == "err" {
			return
		}
		if class == "categories" && was != "cats" && was != "items" {
			return // how the vault is opened is C03's concern
		}
		w.ok("C10", why == "", class, "after %s: %s", g.state(), why)
	case "C09":
		if class == "pane" && g.mode == "items" {
			w.ok("C09", why == "", "not-covered", "after %s: %s", g.state(), why)
		}
	case "C03":
		if g.mode == "cats" && was == "prompt" || g.opened > 1 {
			if class == "highlight" {
				return
			}
			w.ok("C03", why == "", "stale-"+class, "after %s: %s", g.state(), why)
		}
		if g.mode == "prompt" && was != "prompt" {
			w.ok("C03", why == "", "not-locked", "after %s: %s", g.state(), why)
		}
	case "C02":
		if was == "prompt" || was == "err" {
			w.ok("C02", why == "" || class == "highlight", "reaction", "after %s: %s", g.state(), why)
		}
	case "C01", "C04", "C05":
		if class == "highlight" {
			return
		}
		w.ok(w.prop, why == "", "gui-"+class, "after %s: %s", g.state(), why)
	}
}

func (g *guiM) typePass(s string) {
	for _, r := range s {
		g.press(ch(r))
	}
	g.press(kk(kEnter))
}

func (g *guiM) unlock() {
	if g.mode == "err" {
		g.press(kk(kEnter))
	}
	for len(g.typed) > 0 && !g.p.gone() {
		g.press(kk(kBack))
	}
	if g.w.prop == "C02" && g.w.T.N(4) == 3 { // mistyped and corrected
		r := []rune(g.v.pass)
		c := g.w.T.N(len(r) + 1)
		for _, x := range r[:c] {
			g.press(ch(x))
		}
		n := 1 + g.w.T.N(70)
		for i := 0; i < n; i++ {
			g.press(ch(rune('a' + i%26)))
		}
		for i := 0; i < n; i++ {
			g.press(kk(kBack2))
		}
		for _, x := range r[c:] {
			g.press(ch(x))
		}
		g.press(kk(kEnter))
		return
	}
	g.typePass(g.v.pass)
}

// quit ends the session and judges the end.
func (g *guiM) quit() {
	w := g.w
	if !g.p.gone() {
		g.press(kk(kCtrlQ))
		w.okFor([]string{"C23", "C22"}, g.p.exited, "no-quit", "after %s: Ctrl+Q did not end the program", g.state())
		if !g.p.exited {
			w.runTo(g.p, time.Minute)
		}
		if g.p.exited {
			w.ok("C23", g.p.code == 0 && g.p.crash == "", "quit-status", "after %s: %s", g.state(), g.p.describe())
			w.ok("C23", g.s.closed, "terminal", "after %s: the terminal was not restored", g.state())
		} else {
			g.p.kill("end")
		}
	}
	w.settle()
	w.after(g.p, g.v)
}

func (g *guiM) resize(x, y int) {
	g.w.fault("resize")
	g.w.logf("resize %dx%d", x, y)
	g.keys = append(g.keys, "resize"+itoa(x)+"x"+itoa(y))
	g.s.w, g.s.h = x, y
	g.sized = true
	g.s.ev <- seam.Event{Type: 1, Width: x, Height: y}
	g.w.settle()
	g.alive()
}

// navKey draws a key that means something in the present state.
func (g *guiM) navKey() keyM {
	t := g.w.T
	dn, up, lf, rt := []keyM{ch('j'), kk(kDown)}[t.N(2)], []keyM{ch('k'), kk(kUp)}[t.N(2)], []keyM{ch('h'), kk(kLeft)}[t.N(2)], []keyM{ch('l'), kk(kRight)}[t.N(2)]
	switch g.mode {
	case "cats":
		return []keyM{rt, dn, dn, up, kk(kEnter), dn, kk(kCtrlL), lf, kk(kTab), ch('q')}[t.W(5, 6, 4, 4, 4, 3, 1, 1, 1, 1)]
	case "items":
		return []keyM{dn, kk(kTab), up, lf, ch('q'), kk(kCtrlL), rt, kk(kEnter), dn}[t.W(6, 6, 4, 2, 2, 1, 1, 1, 4)]
	case "details":
		return []keyM{kk(kTab), dn, rt, up, lf, kk(kCtrlL), kk(kEnter), ch('q')}[t.W(6, 5, 3, 3, 2, 1, 1, 1)]
	case "err":
		return []keyM{kk(kEnter), dn, kk(kTab), ch('q'), kk(kCtrlL)}[t.W(6, 1, 1, 1, 1)]
	}
	return ch('x')
}

func (w *World) guiSize() (int, int) {
	t := w.T
	x, y := 0, 0
	if k := t.N(10); k < 6 {
		x = []int{80, 100, 120, 64, 72, 200}[k]
	} else {
		x = 64 + t.N(160)
	}
	if k := t.N(10); k < 7 {
		y = []int{24, 12, 16, 13, 40, 11, 30}[k]
	} else {
		y = 11 + t.N(50)
	}
	return x, y
}

func (w *World) guiOpts() vopts {
	return vopts{maxItems: 24, ties: true, unknown: true, gui: true, strongPass: true}
}

// background: the update check meets some server; virtual time passes between keys.
func (w *World) guiServer() (s *srvM, what string, timeout int) {
	t := w.T
	timeout = 1 + t.N(5)
	c := cfgM{timeout: timeout, notify: t.N(2) == 0, period: t.N(3)}
	ver := w.newer()
	if t.N(2) == 1 {
		ver = "1.3.1"
	}
	s = w.newServer(w.genRelease(ver))
	what = "release " + ver
	if t.N(2) == 1 {
		what, _ = w.troubled(s, timeout)
	}
	c.vault = w.guiVault
	w.setConfig(c)
	w.fs.syncAll()
	return
}

func (w *World) guiVaultSetup(o vopts) *vaultM {
	v := w.setupVault(o)
	w.guiVault = v.path
	w.guiServer()
	w.remember()
	return v
}

func (g *guiM) maybeWait() {
	if g.w.T.N(6) == 5 {
		g.w.sleep(time.Duration(50+g.w.T.N(3000)) * time.Millisecond)
	}
}

// scenGuiNav: a user moving around (C10, C09, C03, C23, C07, C08, C24).
func scenGuiNav(w *World) {
	o := w.guiOpts()
	if w.T.N(12) == 11 { // a long list
		o.oneCat, o.minItems, o.maxItems = true, 30, 90
	}
	v := w.guiVaultSetup(o)
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	t := w.T
	g.unlock()
	n := 4 + t.N(60)
	resizes := w.is("C09", "C23", "C07", "C08", "C24") && t.N(2) == 1
	for i := 0; i < n && !g.p.gone(); i++ {
		g.maybeWait()
		switch {
		case g.mode == "prompt":
			if t.N(4) == 3 {
				g.typePass(wrongPass(v.pass, t))
			} else {
				if t.N(2) == 1 {
					v.mutate(w)
				}
				g.unlock()
			}
		case resizes && t.N(12) == 11:
			g.resize(w.guiSize())
		default:
			k := g.navKey()
			rep := 1
			if t.N(5) == 4 {
				rep = 1 + t.N(20)
				if o.oneCat {
					rep *= 4
				}
			}
			for ; rep > 0 && g.mode != "prompt" && !g.p.gone(); rep-- {
				m := g.mode
				g.press(k)
				if m != g.mode {
					break
				}
			}
		}
	}
	w.summary = g.state()
	g.quit()
}

func wrongPass(p string, t *Tape) string {
	r := []rune(p)
	switch t.N(5) {
	case 1:
		return ""
	case 2:
		return string(r[:len(r)-1])
	case 3:
		return p + "x"
	case 4:
		if s := strings.ToLower(p); s != p {
			return s
		}
	}
	return "wrong"
}

// scenGuiLock: lock and unlock over a vault that changes (C03).
func scenGuiLock(w *World) {
	v := w.guiVaultSetup(w.guiOpts())
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	t := w.T
	for c, n := 0, 1+t.N(4); c < n && !g.p.gone(); c++ {
		if t.N(4) == 3 {
			v.newPassword(w)
		}
		for t.N(4) == 3 && !g.p.gone() {
			g.typePass(wrongPass(v.pass, t))
			g.press(kk(kEnter))
		}
		if t.N(8) == 7 {
			g.unlockDamaged()
		}
		g.unlock()
		if t.N(3) == 2 {
			v.mutate(w) // while it is open
		}
		for i, m := 0, t.N(8); i < m && !g.p.gone() && g.mode != "prompt"; i++ {
			k := g.navKey()
			if k.key == kCtrlL {
				continue
			}
			g.press(k)
		}
		if g.mode != "prompt" {
			g.press(kk(kCtrlL))
		}
		if t.N(2) == 1 {
			v.mutate(w)
		}
		// nothing may come back without the password
		for i, m := 0, t.N(6); i < m && !g.p.gone(); i++ {
			k := []keyM{ch('j'), kk(kTab), kk(kEnter), ch('l'), kk(kCtrlL), ch('q'), kk(kBack), kk(kEsc), ch(' ')}[t.N(9)]
			g.press(k)
		}
		g.maybeWait()
	}
	g.unlock()
	for i, m := 0, 1+t.N(12); i < m && !g.p.gone() && g.mode != "prompt"; i++ {
		g.press(g.navKey())
	}
	w.summary = g.state()
	g.quit()
}

// scenGuiWrong: wrong passwords (C02).
func scenGuiWrong(w *World) {
	o := w.guiOpts()
	o.strongPass = w.T.N(2) == 1
	v := w.guiVaultSetup(o)
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	t := w.T
	n := 1 + t.N(6)
	if t.N(6) == 5 {
		n += t.N(24)
	}
	for i := 0; i < n && !g.p.gone(); i++ {
		if t.N(5) == 4 {
			v.newPassword(w)
		}
		if t.N(5) == 4 {
			g.unlockDamaged()
			continue
		}
		p := wrongPass(v.pass, t)
		switch t.N(8) {
		case 5:
			p = " " + v.pass
		case 6:
			p = v.pass + " "
		case 7:
			p = strings.Repeat("z", 80)
		}
		if p == v.pass {
			continue
		}
		if t.N(5) == 4 { // after a session that was locked again
			g.unlock()
			if t.N(2) == 1 {
				g.press(kk(kEnter))
			}
			g.press(kk(kCtrlL))
		}
		g.typePass(p)
		if t.N(3) == 2 {
			g.press(g.navKey())
		}
		if g.mode == "err" {
			g.press(kk(kEnter))
		}
		for len(g.typed) > 0 && !g.p.gone() {
			g.press(kk(kBack))
		}
	}
	g.unlock()
	w.summary = g.state()
	g.quit()
}

// unlockDamaged gives the right password while the profile is damaged.
func (g *guiM) unlockDamaged() {
	w, v, t := g.w, g.v, g.w.T
	v.tamperProfile(w)
	g.unlock()
	if t.N(2) == 1 {
		g.press(g.navKey())
	}
	if g.mode == "err" {
		g.press(kk(kEnter))
	}
	if t.N(2) == 1 {
		g.press(kk(kEnter))
	}
	v.profBad, v.profRaw = false, ""
	v.store(w)
	w.fs.syncAll()
}

// newPassword: the owner changes the master password.
func (v *vaultM) newPassword(w *World) {
	v.pass = "Nw" + v.b.token(8) + w.T.Pick("", " y", "é")
	if w.T.N(2) == 1 {
		v.iter = 1 + v.b.n(50)
		v.salt = v.b.bytes(16)
	}
	v.protect()
	v.leakCache = nil
	v.store(w)
	w.fs.syncAll()
}

// scenGuiShow: every item looked at completely (C01).
func scenGuiShow(w *World) {
	o := w.guiOpts()
	o.maxItems = 10
	v := w.guiVaultSetup(o)
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	g.unlock()
	t := w.T
	seen := 0
	for c := 0; c < len(g.rows) && !g.p.gone(); c++ {
		last := c == len(g.rows)-1 && strings.HasPrefix(g.rows[c].text, "Trashed")
		if c == 0 || last || t.N(3) == 0 {
			g.press(kk(kEnter))
			for i := 0; i < len(g.list()) && !g.p.gone(); i++ {
				if c == 0 || last {
					seen++
				}
				if t.N(2) == 0 {
					g.press(kk(kTab))
					g.whole()
					g.press(kk(kTab))
				}
				g.press(ch('j'))
			}
			g.press(ch('q'))
		}
		g.press(ch('j'))
	}
	w.summary = itoa(seen) + " items"
	g.quit()
}

// whole scrolls through the revealed item and compares all of it.
func (g *guiM) whole() {
	w := g.w
	it := g.item()
	if it == nil || it.damaged || g.p.gone() || g.mode != "details" {
		return
	}
	n := w.T.N(6)
	if w.T.N(12) == 11 { // to the far end of a long line
		long := 0
		for _, l := range it.lines(true) {
			long = max(long, len(l))
		}
		n = max(n, long-w.T.N(g.x/2))
	}
	for i := 0; i < n && !g.p.gone(); i++ {
		g.press(ch('l'))
	}
	x0, x1 := int(0.5*float32(g.x-2)+1)+1, g.x-3
	var got []string
	empty := 0
	for i := 0; i < 400 && !g.p.gone(); i++ {
		rows := g.s.region(x0, 5, x1, g.y-6)
		if len(nonblank(rows)) == 0 {
			if empty++; empty > min(4+3*g.ox, 4+len(it.lines(true))) {
				break
			}
		} else {
			empty = 0
		}
		got = append(got, rows[0])
		g.press(ch('j'))
	}
	var want []string
	for _, l := range it.lines(true) {
		want = append(want, clip(l, g.ox, x1-x0+1))
	}
	ok, d := sameLines(got, want)
	if g.ox == 0 || len(nonblank(want)) > 0 {
		w.okFor([]string{"C01"}, ok, "gui-incomplete", "after %s: item %s scrolled through: %s", g.state(), quote(it.title), d)
	}
	for g.oy > 0 && w.T.N(2) == 0 && !g.p.gone() {
		g.press(ch('k'))
	}
}

// scenGuiDamage: damaged or tampered items (C05, C04).
func scenGuiDamage(w *World) {
	o := w.guiOpts()
	o.maxItems, o.minItems = 8, 1
	v := w.guiVaultSetup(o)
	t := w.T
	if w.prop == "C04" && t.N(5) == 4 {
		what := v.tamperProfile(w)
		x, y := w.guiSize()
		g := w.startGui(v, x, y)
		g.unlock()
		for i, n := 0, t.N(4); i < n; i++ {
			g.press(kk(kEnter))
			if t.N(2) == 1 {
				g.unlock()
			} else {
				g.press([]keyM{ch('j'), kk(kTab), kk(kCtrlL), kk(kEnter)}[t.N(4)])
			}
		}
		w.summary = "altered " + what
		g.quit()
		return
	}
	for i, n := 0, 1+t.N(3); i < n; i++ {
		it := w.pickItem(v)
		if w.prop == "C04" {
			switch t.N(3) {
			case 0:
				it.d = v.tamper(t, it.d)
			case 1:
				it.o = v.tamper(t, it.o)
			case 2:
				it.k = v.tamper(t, it.k)
			}
			it.damaged = true
		} else {
			w.summary += v.damage(w, it) + "; "
		}
	}
	v.store(w)
	w.fs.syncAll()
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	g.unlock()
	if g.p.gone() {
		return
	}
	// titles may be missing now, so the order is not known: look at all of them
	seen := map[*mItem]bool{}
	look := func() {
		for i := 0; i < len(v.items)+2 && !g.p.gone(); i++ {
			it, why := g.anyItem(false)
			w.okFor([]string{"C04", "C05"}, it != nil || why == "", "gui-altered", "after %s (damaged: %s): the overview %s", g.state(), w.summary, why)
			for _, o := range v.items { // on a small terminal several items can look alike
				if it != nil && g.pane(o, false) == "" {
					seen[o] = true
				}
			}
			if t.N(2) == 1 {
				g.raw(kk(kTab))
				it2, why := g.anyItem(true)
				w.okFor([]string{"C04", "C05"}, (it2 != nil) == (it != nil) && why == "", "gui-altered", "after %s (damaged: %s): the details %s", g.state(), w.summary, why)
				g.raw(kk(kTab))
			}
			g.raw(ch('j'))
		}
		g.raw(ch('q'))
	}
	g.raw(kk(kEnter))
	look()
	for i, n := 0, t.N(4); i < n; i++ {
		g.raw(ch('j'))
	}
	g.raw(kk(kEnter))
	look()
	for i := 0; i < 20; i++ {
		g.raw(ch('j'))
	}
	g.raw(kk(kEnter))
	look()
	for _, it := range v.items {
		if it.known && !it.damaged && !g.p.gone() {
			w.okFor([]string{"C05"}, seen[it], "gui-missing", "the intact item %s is not shown (damaged: %s)", quote(it.title), w.summary)
		}
	}
	g.quitQuiet()
}

// raw sends a key without following it in the model.
func (g *guiM) raw(k keyM) {
	w := g.w
	if g.p.gone() {
		return
	}
	g.keys = append(g.keys, k.String())
	w.note("key", k.String())
	w.logf("key %s", k.String())
	w.tick()
	g.s.ev <- seam.Event{Key: k.key, Ch: k.ch, Mod: k.mod}
	w.settle()
	g.alive()
}

// anyItem finds the stored item the details pane shows. Nil without a reason:
// nothing is shown, or what may be left of a damaged item.
func (g *guiM) anyItem(reveal bool) (*mItem, string) {
	if g.p.gone() {
		return nil, ""
	}
	g.ox, g.oy = 0, 0
	for _, it := range g.v.items {
		if it.known && !it.damaged && g.pane(it, reveal) == "" {
			return it, ""
		}
	}
	x0, x1 := int(0.5*float32(g.x-2)+1)+1, g.x-3
	for _, it := range g.v.items {
		if it.damaged && it.known {
			if g.w.prop == "C05" || g.pane(it, reveal) == "" {
				return nil, ""
			}
		}
	}
	vis := nonblank(g.s.region(x0, 5, x1, g.y-6))
	if len(vis) == 0 {
		return nil, ""
	}
	return nil, "shows " + quote(strings.Join(vis, " / ")) + ", which is not what is stored"
}

// scenGuiKeys: any key in any order, any contents, resizes (C23).
func scenGuiKeys(w *World) {
	t := w.T
	o := w.guiOpts()
	o.blank = t.N(2) == 1
	switch t.N(4) {
	case 1:
		o.maxItems = 0
	case 2:
		o.maxItems, o.minItems = 3, 1
	}
	v := w.guiVaultSetup(o)
	switch t.N(4) {
	case 1:
		for _, it := range v.items {
			it.trashed = true
		}
	case 2:
		for _, it := range v.items {
			it.trashed = false
		}
	case 3:
		if len(v.items) > 0 && t.N(2) == 1 {
			v.damage(w, w.pickItem(v))
		}
	}
	v.store(w)
	w.fs.syncAll()
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	g.lost = true
	send := func(k keyM) {
		if g.p.gone() {
			return
		}
		g.keys = append(g.keys, k.String())
		w.note("key", k.String())
		w.logf("key %s", k)
		g.s.ev <- seam.Event{Key: k.key, Ch: k.ch, Mod: k.mod}
		if t.N(8) < 7 {
			w.settle()
		}
		g.alive()
	}
	pass := func() {
		for _, r := range v.pass {
			send(ch(r))
		}
		send(kk(kEnter))
	}
	if t.N(4) > 0 {
		pass()
	}
	pool := []keyM{ch('j'), ch('k'), ch('l'), ch('h'), ch('q'), kk(kTab), kk(kEnter), kk(kDown), kk(kUp), kk(kLeft), kk(kRight), kk(kCtrlL), kk(kSpace), kk(kBack), kk(kBack2), kk(kEsc), kk(kDel), kk(kIns),
		ch('x'), ch('Q'), ch('é'), ch('日'), ch('~'), keyM{ch: 'j', mod: 1}, keyM{ch: 'q', mod: 1}, kk(0xFFFF), kk(0xFFFF - 14), kk(0xFFFF - 15), kk(0xFFFF - 16), kk(0xFFFF - 17), kk(1), kk(2), kk(3), kk(4), kk(0x1A), kk(0x16), kk(0x1C)}
	for i, n := 0, 5+t.N(80); i < n && !g.p.gone(); i++ {
		switch t.N(30) {
		case 29:
			w.settle()
			pass()
		case 28:
			g.resize(w.guiSize())
		case 27:
			w.sleep(time.Duration(t.N(2000)) * time.Millisecond)
		case 26:
			k := pool[t.N(12)]
			for j, m := 0, t.N(30); j < m; j++ {
				send(k)
			}
		case 25, 24, 23, 22:
			send(pool[t.N(len(pool))])
		default:
			send(pool[t.N(12)])
		}
	}
	w.settle()
	g.alive()
	w.summary = g.state()
	g.quit()
}

// scenGuiMask: whatever is typed into the password prompt, with whatever keys
// in between, is not shown (C09). The letters typed occur nowhere else.
func scenGuiMask(w *World) {
	t := w.T
	o := w.guiOpts()
	o.maxItems, o.minItems = 4, 1
	v := w.guiVaultSetup(o)
	x, y := w.guiSize()
	g := w.startGui(v, x, y)
	if t.N(3) == 2 {
		g.unlock()
		g.press(kk(kCtrlL))
	}
	g.lost = true
	letters := []rune("ЖЩЯЮЭФДЛ")
	odd := []keyM{kk(kIns), kk(kDel), kk(kLeft), kk(kRight), kk(kUp), kk(kDown), kk(kTab), kk(kEsc), kk(kSpace), kk(kBack), kk(kBack2), kk(0xFFFF), kk(0xFFFF - 14), kk(0xFFFF - 15), kk(0xFFFF - 16), kk(0xFFFF - 17), kk(0xFFFF - 1), keyM{ch: 'Ж', mod: 1}, keyM{ch: 'h', mod: 1}}
	for i, n := 0, 6+t.N(150); i < n && !g.p.gone(); i++ {
		k := ch(letters[t.N(len(letters))])
		switch c := t.N(16); {
		case c == 15:
			g.resize(w.guiSize())
			continue
		case c == 14:
			k = kk(kEnter)
			if t.N(3) > 0 {
				continue
			}
		case c == 13:
			k = kk(uint16(1 + t.N(31)))
			if k.key == kCtrlQ {
				continue
			}
		case c == 12:
			k = odd[t.N(len(odd))]
		}
		g.keys = append(g.keys, k.String())
		w.note("key", k.String())
		w.logf("key %s", k)
		g.s.ev <- seam.Event{Key: k.key, Ch: k.ch, Mod: k.mod}
		w.settle()
		if g.alive(); g.p.gone() {
			return
		}
		shown := strings.ContainsAny(g.s.text(), string(letters))
		w.ok("C09", !shown, "typed-visible", "after %s: what is typed at the password prompt is visible", g.state())
		w.ok("C08", !shown, "typed-visible", "after %s: what is typed at the password prompt is visible", g.state())
	}
	w.summary = g.state()
	g.quit()
}

// scenGuiCheck: the background update check (C22).
func scenGuiCheck(w *World) {
	t := w.T
	o := w.guiOpts()
	o.maxItems, o.minItems = 8, 1
	v := w.setupVault(o)
	timeout := 1 + t.N(30)
	w.setConfig(cfgM{vault: v.path, timeout: timeout, notify: t.N(3) > 0, period: t.N(3)})
	ver, isNew := w.newer(), true
	if t.N(2) == 1 {
		ver, isNew = t.Pick("1.3.1", "1.3.0", "1.2.10", "0.9"), false
	}
	s := w.newServer(w.genRelease(ver))
	unit := time.Duration(timeout) * time.Second
	want := "up to date"
	if isNew {
		want = ver
	}
	what := "release " + ver
	f := time.Duration(t.N(85))
	switch t.N(5) {
	case 1:
		s.tweak = func(r *reqRec, k string, rep reply) reply { rep.delay = unit * f / 100; return rep }
	case 2:
		w.net.plan = func(d *dialRec) { d.delay = unit * f / 200 }
	case 3, 4:
		var may bool
		what, may = w.troubled(s, timeout)
		want = "failed"
		if may {
			want = ""
		}
	}
	x, y := w.guiSize()
	if x < 60 {
		x = 80
	}
	g := w.startGui(v, x, y)
	marks := func() (n int, line string) {
		line = strings.TrimSpace(g.s.region(1, 1, g.s.fw-2, 1)[0])
		for _, m := range []string{"up to date", "update check failed", "new version is available"} {
			n += strings.Count(g.s.text(), m)
		}
		return
	}
	t0 := w.now()
	limit := unit + 1500*time.Millisecond
	rest := func(d time.Duration) { // nothing pressed: nothing but the outcome may change
		n0, l0 := marks()
		before := g.snap()
		f0 := g.s.frames
		w.sleep(d)
		g.alive()
		if g.p.gone() {
			return
		}
		n1, l1 := marks()
		w.ok("C22", before == g.snap(), "disturbed", "%s, after %s: the screen changed by itself", what, g.state())
		w.ok("C22", n1 <= 1, "twice", "%s, after %s: the outcome is shown %d times: %s", what, g.state(), n1, quote(l1))
		w.ok("C22", n1 >= n0 && (n0 == 0 || l0 == l1), "outcome-changed", "%s, after %s: the outcome changed from %s to %s", what, g.state(), quote(l0), quote(l1))
		_ = f0
	}
	early := t.N(4)
	for i := 0; i < early && !g.p.gone(); i++ {
		rest(unit * time.Duration(t.N(30)) / 100)
	}
	if t.N(3) > 0 {
		g.unlock()
	}
	for i, n := 0, t.N(12); i < n && !g.p.gone(); i++ {
		if g.mode == "prompt" {
			g.unlock()
		} else {
			g.press(g.navKey())
		}
		if t.N(3) == 2 {
			rest(unit * time.Duration(t.N(40)) / 100)
		}
		if n1, l := marks(); !g.p.gone() {
			w.ok("C22", n1 <= 1, "twice", "%s, after %s: the outcome is shown %d times: %s", what, g.state(), n1, quote(l))
		}
	}
	if left := limit - (w.now() - t0); left > 0 && !g.p.gone() {
		rest(left)
	}
	n, line := marks()
	w.ok("C22", n == 1, "no-outcome", "%s with timeout %d s, after %s: %v after the start the version line is %s", what, timeout, g.state(), w.now()-t0, quote(line))
	if want != "" && n == 1 {
		w.ok("C22", strings.Contains(line, want), "wrong-outcome", "%s, after %s: the version line is %s", what, g.state(), quote(line))
	}
	if t.N(3) == 2 && !g.p.gone() { // later nothing happens any more
		rest(10 * time.Minute)
	}
	if t.N(3) == 2 && !g.p.gone() {
		g.resize(w.guiSize())
		if t.N(2) == 1 && !g.p.gone() {
			rest(limit)
		}
		if n, l := marks(); g.s.fw >= 60 {
			w.ok("C22", n == 1, "no-outcome", "%s, after %s: the version line is %s", what, g.state(), quote(l))
		}
	}
	n = 0
	for _, k := range s.kinds {
		if k == "api" {
			n++
		}
	}
	w.ok("C22", n <= 1 || strings.HasPrefix(what, "redirect"), "again", "%s, after %s: the update server was asked %d times", what, g.state(), n)
	w.summary = what
	g.quit()
}

// scenGuiRead: the vault cannot be read when it is opened (C06, C24).
func scenGuiRead(w *World) {
	o := w.guiOpts()
	o.minItems = 2
	v := w.guiVaultSetup(o)
	keep := func(o *op) bool { return strings.Contains(o.path, "/default") || o.path == w.abs(v.path) }
	x, y := w.guiSize()
	ops := w.record(keep, func() {
		g := w.startGui(v, x, y)
		g.unlock()
		g.quit()
	})
	if len(ops) == 0 {
		return
	}
	k := w.T.N(len(ops))
	r := ops[k]
	en := w.errFor(r)
	gone := w.T.N(4) == 3 && r.name == "openat" && strings.HasSuffix(r.path, ".js")
	what := errName(en) + " from " + r.name + " " + r.path
	w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "errno", errno: en} })
	if gone {
		w.plan = at(keep, k, func(o *op) *fault {
			w.fs.remove(o.path)
			return &fault{kind: "errno", errno: syscall.ENOENT}
		})
		what = r.path + " vanishing"
	}
	g := w.startGui(v, x, y)
	g.mute = true
	g.unlock()
	w.plan = nil
	if g.p.gone() {
		w.okFor([]string{"C06", "C24"}, g.p.crash == "", "crash", "with %s: %s", what, g.p.describe())
		w.okFor([]string{"C06", "C24"}, g.p.killed || g.p.code != 0, "status", "with %s: %s", what, g.p.describe())
		w.okFor([]string{"C06", "C24"}, g.p.message(), "silent", "with %s: %s", what, g.p.describe())
	} else {
		class, why := g.screen()
		if g.mode == "cats" && class == "categories" {
			// refused with a message is fine as well
			body := strings.Join(g.s.region(1, 4, g.s.fw-2, g.s.fh-5), "\n")
			shown := false
			for _, r := range consonantRuns(g.s.text()) {
				_ = r
				shown = true
			}
			partial := strings.Contains(body, " (") && !strings.Contains(body, "Error")
			w.okFor([]string{"C06", "C24"}, !partial && !shown, "partial", "with %s: %s", what, why)
		}
	}
	w.summary = what
	g.quitQuiet()
	if gone {
		v.store(w)
		w.fs.syncAll()
	}
	g = w.startGui(v, x, y)
	g.unlock()
	if !g.p.gone() {
		class, why := g.screen()
		w.ok("C06", why == "" || class == "highlight", "not-recovered", "after %s, fault gone: %s", what, why)
	} else {
		w.ok("C06", false, "not-recovered", "after %s, fault gone: %s", what, g.p.describe())
	}
	g.quit()
}

func (g *guiM) quitQuiet() {
	if !g.p.gone() {
		g.s.ev <- seam.Event{Key: kCtrlQ}
		g.w.settle()
		if !g.p.gone() {
			g.p.kill("end")
			g.w.settle()
		}
	}
	g.w.after(g.p, g.v)
}

// scenGuiStart: what cannot be started says so (C24).
func scenGuiStart(w *World) {
	v := w.guiVaultSetup(w.guiOpts())
	t := w.T
	args := []string{"-v", v.path}
	s := newScreen(80, 24)
	what := ""
	switch t.N(11) {
	case 9:
		args, what = []string{"list", "-v", v.path, "-c", t.Pick("nosuch", "Passwort", "Logins", "001", "x y")}, "an unknown category"
	case 10:
		args, what = []string{t.Pick("list", "configure", "update", "categories", "version"), "--nosuch"}, "an unknown flag"
	case 0:
		args, what = []string{"-v", "/home/u/nowhere"}, "a vault path that does not exist"
	case 1:
		w.fs.put("/home/u/plain", []byte("x"), 0644)
		args, what = []string{"-v", "/home/u/plain"}, "a vault path that is a file"
	case 2:
		w.fs.mkdirAll("/home/u/empty", 0755)
		args, what = []string{"-v", "/home/u/empty"}, "an empty directory as vault"
	case 3:
		s.fail, what = true, "no terminal"
	case 4:
		args, what = []string{"--vualt", "x"}, "an unknown flag"
	case 5:
		args, what = []string{"unknowncommand"}, "an unknown command"
	case 6:
		args, what = []string{t.Pick("details", "overview")}, "no UID"
	case 7:
		args, what = []string{t.Pick("details", "overview"), "A", "B"}, "two UIDs"
	case 8:
		args, what = []string{"list", t.Pick("--category", "-n", "-v")}, "a flag without its value"
	}
	p := w.spawn(spec{args: args, tty: true, gui: s, stdin: ifs(t.N(2) == 0, v.pass+"\n")})
	w.settle()
	if args[0] == "list" {
		w.run(horizon, p.gone)
	}
	w.ok("C24", p.exited, "hang", "%s: %s", what, p.describe())
	w.ok("C24", !p.exited || p.code != 0, "status", "%s: %s", what, p.describe())
	w.ok("C24", p.message(), "silent", "%s: %s", what, p.describe())
	w.after(p, v)
	w.summary = what
	if !p.gone() {
		p.kill("end")
	}
}
