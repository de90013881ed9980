//go:build go1.27

package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"strings"
	"syscall"

	"verif.local/seam"
)

// Family A: the command line on a vault.

func (w *World) setupVault(o vopts) *vaultM {
	v := w.genVault(o)
	v.store(w)
	w.quietConfig(v.path)
	w.fs.syncAll()
	w.remember()
	w.guardPlaces(v.dirs(w)...)
	return v
}

func (v *vaultM) dirs(w *World) []string {
	d := []string{w.abs(v.path)}
	if v.linkTo != "" {
		d = append(d, v.linkTo)
	}
	return d
}

// pickItem draws a stored item (nil for an empty vault).
func (w *World) pickItem(v *vaultM) *mItem {
	if len(v.items) == 0 {
		return nil
	}
	return v.items[w.T.N(len(v.items))]
}

func (w *World) opt(c vcmd) vcmd {
	c.viaCfg = w.T.N(3) == 1
	c.long = w.T.N(4) == 3
	c.chunked = w.T.N(4) == 3
	return c
}

// C01: everything stored is shown, as stored.
func scenShow(w *World) {
	v := w.setupVault(vopts{maxItems: 30, ties: true, unknown: true, big: true})
	w.benign = w.T.N(2) == 1
	judge := func(why string, what string) {
		w.ok("C01", why == "", "shown-wrong", "%s: %s", what, why)
	}
	for _, tr := range []bool{false, true} {
		p := w.vrun(v, w.opt(vcmd{kind: "list", pass: v.pass, f: filter{trashed: tr}}))
		judge(v.judgeList(p, filter{trashed: tr}), "list")
	}
	n := 1 + w.T.N(4)
	for i := 0; i < n; i++ {
		it := w.pickItem(v)
		if it == nil {
			break
		}
		kind := w.T.Pick("details", "overview", "details")
		p := w.vrun(v, w.opt(vcmd{kind: kind, uid: it.uid, pass: v.pass, f: filter{trashed: it.trashed}}))
		judge(v.judgeItem(p, it.uid, it.trashed, kind == "details"), kind)
	}
	// a vault that changes between two runs is shown as it is then
	if w.T.N(3) == 2 {
		v.mutate(w)
		p := w.vrun(v, w.opt(vcmd{kind: "list", pass: v.pass}))
		judge(v.judgeList(p, filter{}), "list after the vault changed")
		if it := w.pickItem(v); it != nil {
			p := w.vrun(v, w.opt(vcmd{kind: "details", uid: it.uid, pass: v.pass, f: filter{trashed: it.trashed}}))
			judge(v.judgeItem(p, it.uid, it.trashed, true), "details after the vault changed")
		}
	}
	w.summary = itoa(len(v.items)) + " items, path " + v.path
}

// mutate changes the stored vault the way 1Password would.
func (v *vaultM) mutate(w *World) {
	t := w.T
	for i, n := 0, 1+t.N(3); i < n; i++ {
		switch k := t.N(6); {
		case k == 5: // another vault takes its place, under the same password
			v.salt = v.b.bytes(16)
			v.seal()
			old := v.items
			v.items = nil
			for j, m := 0, t.N(1+min(len(old), 8)); j <= m; j++ {
				it := v.genItem(t, v.o)
				if j < len(old) && t.N(2) == 1 {
					it.uid, it.updated = old[j].uid, old[j].updated
				}
				v.items = append(v.items, it)
			}
		case k == 0 || len(v.items) == 0:
			v.items = append(v.items, v.genItem(t, v.o))
		case k == 1:
			j := t.N(len(v.items))
			v.items = append(append([]*mItem(nil), v.items[:j]...), v.items[j+1:]...)
		case k == 2:
			it := v.items[t.N(len(v.items))]
			it.trashed = !it.trashed
			it.updated += 5 * int64(t.N(2))
		case k == 3:
			j := t.N(len(v.items))
			old := v.items[j]
			it := v.genItem(t, v.o)
			it.uid = old.uid
			if t.N(2) == 1 {
				it.updated = old.updated
			}
			if t.N(2) == 1 {
				it.trashed = old.trashed
			}
			v.items[j] = it
		case k == 4: // the same item, put under another category
			it := v.items[t.N(len(v.items))]
			if it.known {
				it.code = cats[t.N(len(cats))].code
				it.updated += 5 * int64(t.N(2))
			}
		}
	}
	v.leakCache = nil
	v.store(w)
	w.fs.syncAll()
}

// C21: filters, order, numbering, repeatability.
func scenFilter(w *World) {
	v := w.setupVault(vopts{maxItems: 24, ties: true, unknown: true, few: w.T.N(2) == 1, big: true})
	judge := func(why, what string) { w.ok("C21", why == "", "listing", "%s: %s", what, why) }
	n := 2 + w.T.N(3)
	for i := 0; i < n; i++ {
		f := filter{trashed: w.T.N(3) == 2}
		it := w.pickItem(v)
		if it != nil && w.T.N(2) == 1 {
			f.trashed = it.trashed
		}
		if w.T.N(2) == 1 {
			c := cats[w.T.N(len(cats))].name
			if it != nil && it.known && w.T.N(4) > 0 {
				c = catName(it.code)
			}
			switch w.T.N(4) {
			case 1:
				c = strings.ToUpper(c)
			case 2:
				c = strings.ToLower(c)
			case 3:
				c = " " + c + " "
			}
			f.cat = c
		}
		if w.T.N(2) == 1 && it != nil && it.title != "" {
			r := []rune(it.title)
			a := w.T.N(len(r))
			b := a + 1 + w.T.N(len(r)-a)
			s := strings.TrimSpace(string(r[a:b]))
			switch w.T.N(3) {
			case 1:
				s = strings.ToUpper(s)
			case 2:
				s = strings.ToLower(s)
			}
			if s != "" && !strings.HasPrefix(s, "-") {
				if f.title = s; w.T.N(6) == 5 {
					f.title = w.T.Pick(" "+s+" ", s+" ", "  "+s)
				}
			}
		}
		c := w.opt(vcmd{kind: "list", f: f, pass: v.pass})
		w.benign = w.T.N(2) == 1
		p := w.vrun(v, c)
		judge(v.judgeList(p, f), "list "+quote(f.cat+"|"+f.title))
		if w.T.N(2) == 1 {
			q := w.vrun(v, c)
			w.ok("C21", string(q.out) == string(p.out), "unstable", "two runs of %s over the same vault differ: %s", p.describe0(), firstDiff(string(p.out), string(q.out)))
		}
		rows := p.rows()
		if len(rows) > 0 && w.T.N(2) == 1 {
			r := rows[w.T.N(len(rows))]
			x := v.find(r.uid)
			if x == nil {
				continue
			}
			kind := w.T.Pick("overview", "details")
			tr := x.trashed
			if w.T.N(3) == 2 {
				tr = !tr
			}
			q := w.vrun(v, w.opt(vcmd{kind: kind, uid: r.uid, f: filter{trashed: tr}, pass: v.pass}))
			judge(v.judgeItem(q, r.uid, tr, kind == "details"), kind)
		}
	}
	if w.T.N(4) == 3 { // an UID that is not there
		uid := v.newUID()
		if it := w.pickItem(v); it != nil && w.T.N(2) == 1 {
			uid = it.uid[:31]
		}
		kind := w.T.Pick("overview", "details")
		q := w.vrun(v, w.opt(vcmd{kind: kind, uid: uid, pass: v.pass}))
		judge(v.judgeItem(q, uid, false, kind == "details"), kind+" of an unknown UID")
	}
	w.summary = itoa(len(v.items)) + " items"
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return quote(p) + " / " + quote(q)
		}
	}
	return ""
}

// wrongPass draws a password that is not the vault's.
func (w *World) wrongPass(v *vaultM) (string, bool) {
	t := w.T
	p := v.pass
	r := []rune(p)
	noNL := false
	var s string
	switch t.N(14) {
	case 0:
		s = "wrong-" + p
	case 1:
		s = ""
	case 2:
		s = string(r[:t.N(len(r))])
	case 3:
		s = p + t.Pick("x", " ", "\x00", "0", p, "\x00x", "\t", " x", "#", "ü")
	case 4:
		s = strings.ToUpper(p)
		if s == p {
			s = strings.ToLower(p)
		}
	case 5:
		b := []byte(p)
		i := t.N(len(b))
		b[i] ^= byte(1 + t.N(127))
		if b[i] == '\n' || b[i] == 3 || b[i] == 4 || b[i] == 127 || b[i] == 8 {
			b[i] = '~'
		}
		s = string(b)
	case 6:
		s = string(r[:t.N(len(r))])
		noNL = true
	case 7:
		s = ""
		noNL = true
	case 8:
		q := append([]rune(nil), r...)
		i := t.N(len(q))
		j := t.N(len(q))
		q[i], q[j] = q[j], q[i]
		s = string(q)
	case 9:
		s = " " + p
	case 10:
		s = passwords[t.N(len(passwords))]
	case 11:
		s = string(r[t.N(len(r)):])
	case 12:
		s = v.b.token(1 + t.N(40))
	case 13:
		s = strings.Repeat("a", 100+t.N(400))
	}
	if s == p || hmacSame(s, p) {
		s = "wrong-" + p
	}
	s = strings.Map(func(c rune) rune {
		if c == '\n' || c == '\r' || c == 8 || c == 127 {
			return '_'
		}
		return c
	}, s)
	if s == p || hmacSame(s, p) {
		s = "wrong-" + p
	}
	return s, noNL
}

// hmacSame: HMAC keys are zero-padded, so trailing NULs make no difference.
func hmacSame(a, b string) bool {
	return strings.TrimRight(a, "\x00") == strings.TrimRight(b, "\x00")
}

func (v *vaultM) exposed(out string, metaToo bool) string {
	for _, it := range v.items {
		if strings.Contains(out, it.uid) && metaToo {
			return "the UID of an item"
		}
		if len(it.title) > 6 && strings.Contains(out, it.title) {
			return "the title " + quote(it.title)
		}
		if it.url != "" && strings.Contains(out, it.url) {
			return "the URL " + quote(it.url)
		}
		for _, s := range it.secrets {
			if strings.Contains(out, s) {
				return "a field value or note"
			}
		}
	}
	return ""
}

// C02: wrong passwords.
func scenWrong(w *World) {
	v := w.setupVault(vopts{maxItems: 6, minItems: 1})
	w.benign = w.T.N(2) == 1
	if w.T.N(3) == 2 {
		v.tamperProfile(w)
	}
	n := 1 + w.T.N(4)
	for i := 0; i < n; i++ {
		pass, noNL := w.wrongPass(v)
		it := w.pickItem(v)
		kind := w.T.Pick("list", "details", "overview")
		c := w.opt(vcmd{kind: kind, pass: pass, noNL: noNL, uid: it.uid, f: filter{trashed: it.trashed}})
		c.notty = w.T.N(6) == 5
		p := w.vrun(v, c)
		if c.noNL || c.notty {
			w.judgeClosed(v, p, "C02", "password "+quote(pass)+" and the terminal gone")
		} else {
			w.judgeRefused(v, p, "C02", "password "+quote(pass))
		}
	}
	if v.profBad {
		v.profBad, v.profRaw = false, ""
		v.store(w)
	}
	f := filter{trashed: w.T.N(2) == 1}
	p := w.vrun(v, w.opt(vcmd{kind: "list", pass: v.pass, f: f}))
	why := v.judgeList(p, f)
	w.ok("C02", why == "", "right-refused", "after %d failures, with the correct password: %s", n, why)
	w.summary = itoa(n) + " wrong attempts, then the right one"
}

// judgeClosed: refused, whatever the program says about it.
func (w *World) judgeClosed(v *vaultM, p *Proc, prop, what string) {
	x := v.exposed(string(p.out)+string(p.errOut), false)
	rows := len(p.rows())
	w.ok(prop, x == "" && rows == 0, "exposed", "%s with %s shows %s (%d rows)", p.describe(), what, x, rows)
	w.ok(prop, p.exited && p.crash == "", "crash", "with %s: %s", what, p.describe())
	w.ok(prop, p.code != 0, "status", "%s with %s", p.describe(), what)
}

func (w *World) judgeRefused(v *vaultM, p *Proc, prop, what string) {
	w.judgeClosed(v, p, prop, what)
	w.ok(prop, strings.Contains(strings.ToLower(string(p.out)+string(p.errOut)), "invalid password"), "message", "%s with %s does not report an invalid password: %s", p.describe(), what, quote(tail(string(p.out), 200)))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- tampering

// tamper alters a blob; nil when the result would be identical.
func (v *vaultM) tamper(t *Tape, b []byte) []byte {
	c := append([]byte(nil), b...)
	if len(c) < 32 { // already cut short by an earlier alteration
		return append(c, v.b.bytes(1+t.N(40))...)
	}
	switch t.N(10) {
	case 0: // one bit
		i := t.N(len(c) * 8)
		c[i/8] ^= 1 << (i % 8)
	case 1: // one byte
		c[t.N(len(c))] ^= byte(1 + t.N(255))
	case 2: // cut
		c = c[:t.N(len(c))]
	case 3: // longer
		c = append(c, v.b.bytes(1+t.N(40))...)
	case 4: // cut at the front
		c = c[1+t.N(len(c)-1):]
	case 5: // a block replaced
		i := t.N(len(c)/16) * 16
		copy(c[i:i+16], v.b.bytes(16))
	case 6: // two cipher blocks exchanged
		n := len(c) / 16
		i, j := t.N(n), t.N(n)
		var x [16]byte
		copy(x[:], c[i*16:])
		copy(c[i*16:i*16+16], c[j*16:j*16+16])
		copy(c[j*16:j*16+16], x[:])
	case 7: // the stated size
		if len(c) > 16 {
			c[8+t.N(8)] ^= byte(1 + t.N(255))
		}
	case 8: // another authentication code over the old data
		v.remac(t, c)
	case 9: // a range overwritten with zeros
		i := t.N(len(c))
		clear(c[i:min(len(c), i+1+t.N(64))])
	}
	if k := t.N(8); k > 4 { // another authentication code, over changed or unchanged data
		v.remac(t, c)
	}
	if string(c) == string(b) {
		c[t.N(len(c))] ^= 1
	}
	return c
}

// remac replaces the last 32 bytes by a code somebody without the keys can produce.
func (v *vaultM) remac(t *Tape, c []byte) {
	if len(c) < 64 {
		return
	}
	body, m := c[:len(c)-32], c[len(c)-32:]
	switch t.N(6) {
	case 0:
		clear(m)
	case 1:
		for i := range m {
			m[i] = 0xff
		}
	case 2:
		s := sha256.Sum256(body)
		copy(m, s[:])
	case 3:
		copy(m, mac(make([]byte, 32), body))
	case 4:
		copy(m, mac(nil, body[8:]))
	case 5:
		copy(m, body[len(body)-32:])
	}
}

func (v *vaultM) tamperProfile(w *World) string {
	t := w.T
	save1, save2 := v.masterBlob, v.overBlob
	what := "masterKey"
	if t.N(2) == 1 {
		v.overBlob, what = v.tamper(t, v.overBlob), "overviewKey"
	} else {
		v.masterBlob = v.tamper(t, v.masterBlob)
	}
	v.profRaw = ""
	raw := v.profile()
	if t.N(6) == 5 { // no value any more, or none of the right type
		m := t.Pick("masterKey", "overviewKey", "salt")
		raw = strings.Replace(raw, `"`+m+`":"`, `"`+t.Pick(m, "x")+`":`+t.Pick(`null`, `7`, `[]`)+`,"y":"`, 1)
		what = m + " (missing)"
	}
	if t.N(6) == 5 { // not base64 any more
		raw = strings.Replace(raw, `"masterKey":"`, `"masterKey":"!!`, 1)
		raw = strings.Replace(raw, `"overviewKey":"`, `"overviewKey":"!!`, 1)
		what = "masterKey and overviewKey (not base64)"
	}
	v.profRaw = raw
	v.masterBlob, v.overBlob = save1, save2
	v.profBad = true
	v.store(w)
	w.fs.syncAll()
	w.fault("tamper:" + what)
	return what
}

// C04: altered data.
func scenTamper(w *World) {
	v := w.setupVault(vopts{maxItems: 8, minItems: 1})
	w.benign = w.T.N(3) == 2
	if w.T.N(4) == 3 {
		what := v.tamperProfile(w)
		for i, n := 0, 1+w.T.N(2); i < n; i++ {
			it := w.pickItem(v)
			kind := w.T.Pick("list", "details", "overview")
			p := w.vrun(v, w.opt(vcmd{kind: kind, pass: v.pass, uid: it.uid, f: filter{trashed: it.trashed}}))
			w.judgeRefused(v, p, "C04", "an altered "+what)
		}
		v.profRaw = ""
		v.store(w)
		w.summary = "altered " + what
		return
	}
	n := 1 + w.T.N(3)
	var hit []*mItem
	for i := 0; i < n; i++ {
		it := w.pickItem(v)
		part := w.T.Pick("o", "d", "k", "d", "o")
		switch part {
		case "o":
			it.o = v.tamper(w.T, it.o)
		case "d":
			it.d = v.tamper(w.T, it.d)
		case "k":
			it.k = v.tamper(w.T, it.k)
		}
		w.fault("tamper:" + part)
		if !it.damaged {
			hit = append(hit, it)
		}
		it.damaged = true
		w.summary += part + " of " + it.uid + " altered; "
	}
	v.store(w)
	w.fs.syncAll()
	w.judgeDamaged(v, hit, "C04")
}

// judgeDamaged runs the commands over a vault with damaged items.
func (w *World) judgeDamaged(v *vaultM, hit []*mItem, prop string) {
	judge := func(why, what string) { w.ok(prop, why == "", "damaged", "%s: %s", what, why) }
	for _, tr := range []bool{false, true} {
		f := filter{trashed: tr}
		p := w.vrun(v, w.opt(vcmd{kind: "list", pass: v.pass, f: f}))
		if prop == "C04" && !p.ok() {
			if p.crash != "" {
				continue // C05's concern
			}
			continue
		}
		judge(v.judgeList(p, f), "list")
	}
	for _, it := range hit {
		kind := w.T.Pick("details", "overview")
		p := w.vrun(v, w.opt(vcmd{kind: kind, uid: it.uid, pass: v.pass, f: filter{trashed: it.trashed}}))
		if prop == "C05" {
			w.ok("C05", p.exited && p.crash == "", "crash", "%s", p.describe())
		}
		if it.odd {
			continue
		}
		if p.ok() {
			judge(it.subset(p, kind == "details"), kind+" of the damaged item "+it.uid)
		} else {
			judge(ifs(v.exposed(string(p.out)+string(p.errOut), false) != "", "a failing run shows content"), kind)
		}
	}
	for i, n := 0, 1+w.T.N(2); i < n; i++ {
		it := w.pickItem(v)
		if it.damaged {
			continue
		}
		kind := w.T.Pick("details", "overview")
		p := w.vrun(v, w.opt(vcmd{kind: kind, uid: it.uid, pass: v.pass, f: filter{trashed: it.trashed}}))
		if prop == "C04" && !p.ok() {
			continue
		}
		judge(v.judgeItem(p, it.uid, it.trashed, kind == "details"), kind+" of a sound item")
	}
}

func ifs(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

var oddDetails = []string{`{"sections":[{"fields":[{"k":"string","n":"a","t":"x","v":7}]}]}`, `{"sections":[{"fields":[{"k":"string","n":"a","v":"x"}]}]}`,
	`{"sections":[{"fields":[{"n":"a","t":"x","v":"y"}]}]}`, `{"sections":"none"}`, `{"fields":{}}`, `{"fields":[1]}`, `{"sections":[null]}`, `{"sections":[{"title":5,"fields":"x"}]}`,
	`{"notesPlain":12}`, `{"fields":[{"name":1,"value":2}]}`, `{"sections":[{"fields":[{"k":"address","n":"a","t":"x","v":"flat"}]}]}`,
	`{"sections":[{"fields":[{"k":"address","n":"a","t":"x","v":{"city":5}}]}]}`, `{"sections":[{"fields":[{"k":"date","n":"a","t":"x","v":{}}]}]}`, `[]`, `null`, `"text"`, `{`, ``, "\x00\x01", `{"sections":[{"fields":[null]}]}`, `{"sections":[[]]}`}
var oddOverview = []string{`{"title":5}`, `{"title":null,"url":[]}`, `[]`, `null`, `{`, ``, `{"url":{}}`, "\xff\xfe"}

// damage one item's encrypted data.
func (v *vaultM) damage(w *World, it *mItem) string {
	t := w.T
	if it.drop == nil {
		it.drop, it.raw = map[string]bool{}, map[string]string{}
	}
	it.damaged = true
	it.damagedO, it.damagedD = true, true
	part := t.Pick("d", "o", "k")
	get := map[string]*[]byte{"d": &it.d, "o": &it.o, "k": &it.k}[part]
	switch t.N(11) {
	case 10: // authentic, but not complete
		d := it.det[:t.N(len(it.det))]
		if t.N(3) == 2 {
			d = append(append([]byte(nil), it.det...), "}x"...)
		}
		it.reencrypt(v, d, nil)
		return "details cut in the clear"
	case 8: // authentic, but no ciphertext the format allows
		it.reencrypt(v, []byte("{}"), []byte(`{"title":"x"}`))
		if part != "o" {
			it.forge(v, t)
			return "details or item key of an impossible form"
		}
		it.o = v.oddOpdata(t, v.ok, v.om)
		return "overview of an impossible form"
	case 9: // an entry that is no item at all
		it.raw[""] = t.Pick(`null`, `5`, `"x"`, `[]`, `true`, `{}`, `[{}]`)
		it.odd, it.known = true, false
		return "entry that is no object"
	case 0:
		*get = v.tamper(t, *get)
		return part + " altered"
	case 1:
		*get = nil
		return part + " empty"
	case 2:
		*get = (*get)[:t.N(min(len(*get), 80))]
		return part + " cut short"
	case 3:
		it.raw[part] = t.Pick(`"***not base64***"`, `"YWJ"`, `"\n\n"`, `"AAAA"`)
		return part + " not base64"
	case 4:
		it.drop[t.Pick(part, "hmac")] = true
		return part + " or hmac missing"
	case 5:
		it.raw[t.Pick(part, "hmac")] = t.Pick(`null`, `5`, `true`, `[]`, `{}`)
		return part + " or hmac of another type"
	case 6: // authentic, but not what is expected inside
		it.reencrypt(v, []byte(oddDetails[t.N(len(oddDetails))]), nil)
		return "details of an unexpected form"
	default:
		it.reencrypt(v, nil, []byte(oddOverview[t.N(len(oddOverview))]))
		return "overview of an unexpected form"
	}
}

// oddOpdata is authentic data whose header or length makes no sense.
func (v *vaultM) oddOpdata(t *Tape, key, mkey []byte) []byte {
	n := t.Pickn(0, 16, 15, 17, 32, 100, 160)
	body := v.b.bytes(n)
	if n%16 == 0 {
		body = cbc(key, make([]byte, 16), body)
	}
	size := []uint64{0, 1, uint64(n), uint64(n) + 1, 1 << 20, 1 << 31, 1 << 40, 1 << 63, 1<<64 - 1, -uint64(n)}[t.N(10)]
	out := []byte("opdata01")
	out = binary.LittleEndian.AppendUint64(out, size)
	out = append(out, make([]byte, 16)...)
	out = append(out, body...)
	if t.N(5) == 4 {
		out = out[:t.N(33)]
	}
	return append(out, mac(mkey, out)...)
}

// forge gives the item authentic details or keys of an impossible form.
func (it *mItem) forge(v *vaultM, t *Tape) {
	ik := v.b.bytes(64)
	if t.N(2) == 1 {
		it.d = v.oddOpdata(t, ik[:32], ik[32:])
	} else {
		ik = v.b.bytes(t.Pickn(0, 16, 32, 48, 80, 256))
	}
	iv := v.b.bytes(16)
	k := append(append([]byte(nil), iv...), cbc(v.mk, iv, ik)...)
	if t.N(6) == 5 {
		k = append(k, v.b.bytes(7)...)
	}
	it.k = append(k, mac(v.mm, k)...)
}

func (it *mItem) reencrypt(v *vaultM, det, over []byte) {
	if over != nil {
		it.o = v.b.opdata(over, v.ok, v.om)
	}
	if det != nil {
		ik := v.b.bytes(64)
		it.d = v.b.opdata(det, ik[:32], ik[32:])
		iv := v.b.bytes(16)
		k := append(append([]byte(nil), iv...), cbc(v.mk, iv, ik)...)
		it.k = append(k, mac(v.mm, k)...)
	}
	// what is shown now is no longer the old content
	it.odd = true
}

// damageSome damages a few items, and now and then most of them.
func (v *vaultM) damageSome(w *World) []*mItem {
	n := 1 + w.T.N(3)
	if w.T.N(6) == 5 {
		n = 2 * len(v.items)
	}
	var hit []*mItem
	for i := 0; i < n; i++ {
		it := w.pickItem(v)
		if it.damaged {
			continue
		}
		if w.T.N(4) == 3 { // nothing of it is left
			it.o, it.d = v.tamper(w.T, it.o), v.tamper(w.T, it.d)
			it.damaged, it.damagedO, it.damagedD = true, true, true
			w.fault("damage:overview and details altered")
			w.summary += "overview and details altered; "
			hit = append(hit, it)
			continue
		}
		what := v.damage(w, it)
		w.fault("damage:" + what)
		hit = append(hit, it)
		w.summary += what + "; "
	}
	return hit
}

// C05: damaged items.
func scenDamage(w *World) {
	v := w.setupVault(vopts{maxItems: 8, minItems: 2})
	w.benign = w.T.N(3) == 2
	hit := v.damageSome(w)
	v.store(w)
	w.fs.syncAll()
	w.judgeDamaged(v, hit, "C05")
}

// ---- read faults

func (w *World) onVault(v *vaultM) func(o *op) bool {
	ds := v.dirs(w)
	return func(o *op) bool {
		for _, d := range ds {
			if under(o.path, d) {
				return true
			}
		}
		return false
	}
}

func baseOf(p string) string {
	_, b := dirOf(p)
	return b
}

// C06: the operating system fails while the vault is read.
func scenReadFault(w *World) {
	v := w.setupVault(vopts{maxItems: 12, minItems: 1})
	kind := w.T.Pick("list", "list", "details", "overview")
	it := w.pickItem(v)
	f := filter{trashed: it.trashed}
	c := vcmd{kind: kind, uid: it.uid, f: f, pass: v.pass, viaCfg: w.T.N(3) == 1}
	judge := func(p *Proc) string {
		if kind == "list" {
			return v.judgeList(p, f)
		}
		return v.judgeItem(p, it.uid, it.trashed, kind == "details")
	}
	w.dents = w.T.Pickn(0, 0, 1, 3, 7)
	keep := w.onVault(v)
	var base *Proc
	ops := w.record(keep, func() { base = w.vrun(v, c) })
	if why := judge(base); why != "" || len(ops) == 0 {
		w.probe("baseline-not-clean")
		w.ok("C06", why == "", "incomplete", "without any fault: %s", why)
		return
	}
	for i, n := 0, 1+w.T.N(3); i < n; i++ {
		k := w.T.N(len(ops))
		r := ops[k]
		if r.name == "close" {
			continue
		}
		e := w.errFor(r)
		what := errName(e) + " from " + r.name + " " + r.path
		mode := w.T.N(5)
		switch {
		case mode == 4 && strings.HasSuffix(r.path, ".js"):
			// the file was cut short (its writer was interrupted, or is still writing)
			n := w.fs.get(r.path)
			if n == nil || len(n.data) < 8 {
				continue
			}
			whole := n.data
			cut := w.T.N(len(whole))
			if w.T.N(2) == 1 { // just behind an item
				var ends []int
				for i := range whole {
					if whole[i] == '}' {
						ends = append(ends, i)
					}
				}
				cut = min(ends[w.T.N(len(ends))]+w.T.N(6), len(whole)-1)
			}
			n.data = append([]byte(nil), whole[:cut]...)
			how := " being cut short at " + itoa(cut)
			if w.T.N(3) == 2 { // a block of it never reached the disk
				n.data = append([]byte(nil), whole...)
				size := []int{1, 512, 4096}[w.T.N(3)]
				for i := cut; i < len(whole) && i < cut+size; i++ {
					n.data[i] = 0
				}
				how = " with a block lost at " + itoa(cut)
			}
			w.fault("cut short")
			p := w.vrun(v, c)
			n.data = whole
			w.judgeFault(p, judge(p), r.path+how)
			w.summary = r.path + " cut short"
			continue
		case mode == 3 && (r.name == "openat" || r.name == "stat"):
			// the file vanishes just before the call
			dir, base := dirOf(r.path)
			n := w.fs.get(dir)
			if n == nil || n.children[base] == nil || n.children[base].isDir() {
				continue
			}
			saved := n.children[base]
			w.plan = at(keep, k, func(o *op) *fault {
				delete(n.children, base)
				w.fault("vanished")
				return nil
			})
			p := w.vrun(v, c)
			w.plan = nil
			n.children[base] = saved
			w.judgeFault(p, judge(p), "file vanishing before "+r.name+" "+r.path)
			continue
		case mode == 2:
			w.plan = func(o *op) *fault { // from this call on everything of this kind fails
				return nil
			}
			cnt := 0
			w.plan = func(o *op) *fault {
				if !keep(o) {
					return nil
				}
				cnt++
				if cnt-1 >= k && o.name == r.name {
					return &fault{kind: "errno", errno: e}
				}
				return nil
			}
			what += " (persisting)"
		case mode == 1 && r.data && r.size > 1 && (r.name == "read" || r.name == "pread"):
			// some bytes arrive, then the error
			cut := 1 + w.T.N(200)
			cnt, armed := 0, ""
			w.plan = func(o *op) *fault {
				if !keep(o) {
					return nil
				}
				cnt++
				if cnt-1 == k {
					armed = o.path
					return &fault{kind: "short", n: cut}
				}
				if armed != "" && o.path == armed && o.name == r.name {
					armed = ""
					return &fault{kind: "errno", errno: e}
				}
				return nil
			}
			what += " after " + itoa(cut) + " bytes"
		default:
			w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "errno", errno: e} })
		}
		p := w.vrun(v, c)
		w.plan = nil
		w.judgeFault(p, judge(p), what)
		w.summary = what
	}
	p := w.vrun(v, c)
	why := judge(p)
	w.ok("C06", why == "", "not-recovered", "after the faults are gone: %s", why)
}

func (w *World) judgeFault(p *Proc, why, what string) {
	w.ok("C06", p.crash == "" && !p.hung(), "crash", "with %s: %s", what, p.describe())
	if p.ok() {
		w.ok("C06", why == "", "partial", "with %s: exit 0, but %s", what, why)
		w.ok("C24", why == "", "false-result", "with %s: exit 0, but %s", what, why)
	} else {
		w.ok("C06", p.message(), "silent", "with %s: %s without any message", what, p.describe())
		w.ok("C24", p.message(), "silent", "with %s: %s without any message", what, p.describe())
	}
	w.ok("C24", p.crash == "" && !p.hung(), "crash", "with %s: %s", what, p.describe())
}

// ---- mixed sessions for the properties that span every command

// scenVaultMix runs commands of every outcome, with and without faults, for
// C07, C08 and C24.
func scenVaultMix(w *World) {
	v := w.setupVault(vopts{maxItems: 6, minItems: 1, strongPass: true})
	if w.T.N(4) == 3 {
		for i, n := 0, 1+w.T.N(2); i < n; i++ {
			if it := w.pickItem(v); !it.damaged {
				w.fault("damage:" + v.damage(w, it))
			}
		}
		v.store(w)
		w.fs.syncAll()
	}
	n := 2 + w.T.N(3)
	for i := 0; i < n; i++ {
		it := w.pickItem(v)
		kind := w.T.Pick("list", "details", "overview")
		c := w.opt(vcmd{kind: kind, uid: it.uid, f: filter{trashed: it.trashed}, pass: v.pass})
		judge := func(p *Proc) string {
			if kind == "list" {
				return v.judgeList(p, c.f)
			}
			return v.judgeItem(p, it.uid, it.trashed, kind == "details")
		}
		switch w.T.N(3) {
		case 1:
			c.f.title = w.T.Pick("zzz nothing", it.title, "a")
			if strings.HasPrefix(strings.TrimSpace(c.f.title), "-") {
				c.f.title = ""
			}
		case 2:
			c.f.cat = cats[w.T.N(len(cats))].name
		}
		switch w.T.N(6) {
		case 0, 1:
			if kind != "list" && w.T.N(4) == 3 {
				c.uid = v.newUID()
				it = &mItem{uid: c.uid}
			}
			p := w.vrun(v, c)
			why := judge(p)
			w.ok("C24", why == "", "false-result", "%s", why)
		case 2:
			c.pass, c.noNL = w.wrongPass(v)
			p := w.vrun(v, c)
			if c.noNL {
				w.judgeClosed(v, p, "C24", "password "+quote(c.pass)+" and the terminal gone")
			} else {
				w.judgeRefused(v, p, "C24", "password "+quote(c.pass))
			}
		case 3:
			c.viaCfg = false
			c.path = w.badPath(v)
			p := w.vrun(v, c)
			w.ok("C24", p.exited && p.crash == "" && p.code != 0 && p.message(), "status", "invalid vault path %s: %s, output %s", quote(c.path), p.describe(), quote(tail(string(p.out), 120)))
		case 4:
			keep := w.onVault(v)
			var b *Proc
			ops := w.record(keep, func() { b = w.vrun(v, c) })
			if !b.ok() || len(ops) == 0 {
				continue
			}
			k := w.T.N(len(ops))
			e := w.errFor(ops[k])
			w.plan = at(keep, k, func(o *op) *fault { return &fault{kind: "errno", errno: e} })
			p := w.vrun(v, c)
			w.plan = nil
			if ops[k].name != "close" {
				w.judgeFault(p, judge(p), errName(e)+" from "+ops[k].name+" "+ops[k].path)
			}
		case 5: // killed anywhere
			k := w.T.N(60)
			w.plan = at(func(o *op) bool { return true }, k, func(o *op) *fault { return &fault{kind: "kill", after: w.T.N(2) == 1, n: -1} })
			w.vrun(v, c)
			w.plan = nil
		}
		if w.prop == "C08" && kind != "details" {
			p := w.procs[len(w.procs)-1]
			for _, x := range v.items {
				for _, s := range x.secrets {
					if strings.Contains(string(p.out)+string(p.errOut), s) {
						w.failf("overview-shows-secret", "%s prints a field value or note of item %s", p.describe0(), x.uid)
					}
				}
			}
			w.ok("C08", !strings.Contains(string(p.out), v.pass) && !strings.Contains(string(p.errOut), v.pass) && !strings.Contains(string(p.echoed), v.pass), "echo", "%s shows the master password", p.describe0())
		}
	}
	if w.prop == "C07" {
		w.sameVault(v)
	}
	w.summary = itoa(n) + " vault commands"
}

// sameVault compares the vault on disk with what was stored.
func (w *World) sameVault(v *vaultM) {
	d := v.dir(w)
	want := v.bands()
	want["profile.js"] = v.profile()
	for _, n := range sortedKeys(want) {
		b, _ := w.fs.read(d + "/" + n)
		w.ok("C07", string(b) == want[n], "vault-modified", "file %s of the vault changed", n)
	}
}

func (w *World) badPath(v *vaultM) string {
	switch w.T.N(5) {
	case 0:
		return "/nonexistent/x.opvault"
	case 1:
		return cfgFile
	case 2:
		w.fs.mkdirAll("/home/u/empty.opvault", 0755)
		return "/home/u/empty.opvault"
	case 3:
		w.fs.mkdirAll("/home/u/dirprofile.opvault/default/profile.js", 0755)
		return "/home/u/dirprofile.opvault"
	default:
		return w.abs(v.path) + "/default"
	}
}

var _ = syscall.EIO
var _ = json.Marshal

// scenBadProfile: a profile file that is not one (C24).
func scenBadProfile(w *World) {
	v := w.setupVault(vopts{maxItems: 4, minItems: 1, strongPass: true})
	t := w.T
	raw := v.profile()
	what := ""
	switch t.N(8) {
	case 0:
		n := t.N(len(raw) - 1)
		raw, what = raw[:n], "cut after "+itoa(n)+" bytes"
	case 1:
		raw, what = t.Pick("x", "\n", "{}", "var profile={};", "var profile=;", "var profile=[];", "var profile=null;", "var profile=\"x\";", strings.Repeat("\x00", 400)), "with other contents"
	case 2:
		k := t.Pick("salt", "masterKey", "iterations", "overviewKey")
		raw, what = strings.Replace(raw, `"`+k+`"`, `"no`+k+`"`, 1), "without "+k
	case 3:
		k := t.Pick("salt", "masterKey", "overviewKey")
		i := strings.Index(raw, `"`+k+`":"`) + len(k) + 3
		j := strings.IndexByte(raw[i+1:], '"') + i + 2
		x := t.Pick("7", "null", "[]", "{}", "true", `""`, `"!"`)
		raw, what = raw[:i]+x+raw[j:], "with "+k+" "+x
	case 4:
		x := t.Pick(`"100"`, "null", "[]", "{}", "true", "-1", "0", "1.5")
		raw, what = strings.Replace(raw, `"iterations":`+itoa(v.iter), `"iterations":`+x, 1), "with iterations "+x
	case 5:
		i := t.N(len(raw))
		raw, what = raw[:i]+"\x01"+raw[i:], "with a control character at "+itoa(i)
		if i <= 12 || i >= len(raw)-2 {
			return
		}
	case 6:
		raw, what = raw[:len(raw)/2]+raw[len(raw)/2+1+t.N(40):], "with a gap"
	case 7:
		raw, what = "\n", "without contents"
	}
	if strings.Contains(what, "iterations") && v.iter == 1 {
		return // no or zero iterations amount to one
	}
	v.profRaw, v.profBad = raw, true
	v.store(w)
	w.fs.syncAll()
	for i, n := 0, 1+t.N(3); i < n; i++ {
		it := w.pickItem(v)
		p := w.vrun(v, w.opt(vcmd{kind: t.Pick("list", "details", "overview"), pass: v.pass, uid: it.uid, f: filter{trashed: it.trashed}}))
		x := v.exposed(string(p.out)+string(p.errOut), false)
		w.ok("C24", p.exited && p.crash == "", "crash", "a profile %s: %s", what, p.describe())
		w.ok("C24", p.code != 0, "status", "a profile %s: %s", what, p.describe())
		w.ok("C24", p.message(), "silent", "a profile %s: %s", what, p.describe())
		w.ok("C24", x == "", "result", "a profile %s: %s shows %s", what, p.describe(), x)
	}
	if t.N(3) == 2 {
		g := newScreen(80, 24)
		p := w.spawn(spec{args: []string{"-v", v.path}, tty: true, gui: g})
		w.settle()
		for _, r := range v.pass {
			if p.gone() {
				break
			}
			g.ev <- seam.Event{Ch: r}
			w.settle()
		}
		if !p.gone() {
			g.ev <- seam.Event{Key: kEnter}
			w.settle()
		}
		w.ok("C24", p.crash == "", "crash", "a profile %s: %s", what, p.describe())
		if p.exited {
			w.ok("C24", p.code != 0 && p.message(), "status", "a profile %s: %s", what, p.describe())
		} else {
			p.kill("end")
			w.settle()
		}
	}
	w.summary = "profile " + what
}
