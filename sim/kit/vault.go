//go:build go1.27

package kit

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"sort"
	"strings"
	"time"
)

// The reference model of a vault: what the owner stored, how it is encoded on
// disk (OPVault) and how the program is expected to present it.

type catM struct{ code, name string }

var cats = []catM{{"001", "Login"}, {"002", "Credit Card"}, {"003", "Secure Note"}, {"004", "Identity"}, {"005", "Password"},
	{"099", "Tombstone"}, {"100", "Software License"}, {"101", "Bank Account"}, {"102", "Database"}, {"103", "Driver License"},
	{"104", "Outdoor License"}, {"105", "Membership"}, {"106", "Passport"}, {"107", "Rewards"}, {"108", "SSN"}, {"109", "Router"},
	{"110", "Server"}, {"111", "Email"}}

func catName(code string) string {
	for _, c := range cats {
		if c.code == code {
			return c.name
		}
	}
	return ""
}

type mField struct {
	name  string
	value string // as shown
}

type mSection struct {
	title  string
	fields []mField
}

type mItem struct {
	uid              string
	code             string
	title, url       string
	notes            string
	created, updated int64
	trashed          bool
	sections         []mSection
	o, d, k, hm      []byte // as stored
	det              []byte // the details in the clear
	drop             map[string]bool
	raw              map[string]string // field overrides (already JSON)
	known            bool
	damagedO         bool // overview may be missing
	damagedD         bool // details may be missing
	damaged          bool
	odd              bool
	secrets          []string
	extra            []string // further texts belonging to this item
}

type vaultM struct {
	path       string
	pass       string
	iter       int
	salt       []byte
	msec, osec []byte
	mk, mm     []byte
	ok, om     []byte
	masterBlob []byte
	overBlob   []byte
	items      []*mItem
	b          *bulk
	emptyBands int
	extraFiles bool
	profRaw    string // replaces the whole profile when set
	leakCache  []leak
	leakN      int
	o          vopts
	profBad    bool
	linkTo     string // the vault path is a symbolic link to this directory
}

const b32 = "BCDFGHJKLMNPQRSTVWXZ"

// token is a unique text that cannot occur by accident.
func (b *bulk) token(n int) string {
	out := make([]byte, n)
	for i := range out {
		out[i] = b32[b.n(len(b32))]
	}
	return string(out)
}

func (b *bulk) hex(n int) string {
	out := make([]byte, n)
	for i := range out {
		out[i] = "0123456789ABCDEF"[b.n(16)]
	}
	return string(out)
}

func cbc(key, iv, plain []byte) []byte {
	blk, _ := aes.NewCipher(key)
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, plain)
	return out
}

func mac(key, msg []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

func (b *bulk) opdata(plain, key, mkey []byte) []byte {
	pad := 16 - len(plain)%16
	if pad == 0 {
		pad = 16
	}
	body := append(b.bytes(pad), plain...)
	iv := b.bytes(16)
	out := []byte("opdata01")
	out = binary.LittleEndian.AppendUint64(out, uint64(len(plain)))
	out = append(out, iv...)
	out = append(out, cbc(key, iv, body)...)
	return append(out, mac(mkey, out)...)
}

var passwords = []string{"secret", "correct horse battery staple", "pässwörd-ü", "p@$$ w0rd!", "Tr0ub4dor&3", "x", "密码密码", "a\"b\\c", " spaced out ", "'q`t$HOME", "verylongpassword-" + "0123456789012345678901234567890123456789012345678901234567890123456789"}

var words = []string{"mail", "bank", "Work", "home", "GitHub", "router", "café", "shop", "news", "Alpha", "zeta", "日本", "ümlaut", "x-y", "a&b", "50%", "O'Neil", "q\"t", "two  gaps", "🔒safe"}

var secTitles = []string{"account", "Security", "more info", "", "contact", "limits", "VPN access", "2nd account", "übersicht", "id"}
var fldNames = []string{"username", "password", "pin", "security question", "email", "account Number", "code", "PIN", "one-time password", "a/b", "e-mail (work)", "id_no", "naïve"}

// asciiTitle: every word starts with a capital letter, nothing else changes.
func asciiTitle(s string) string { return strings.Title(s) }

type vopts struct {
	maxItems   int
	minItems   int
	simple     bool // ASCII only, short
	ties       bool
	unknown    bool // items of unknown categories too
	path       string
	big        bool // now and then a large vault
	few        bool // few categories and titles, to get many equal ones
	strongPass bool
	oneCat     bool // nearly all items in one category
	blank      bool // titles of blanks too
	gui        bool // titles of one-column characters only
}

// genVault draws a vault; its plain contents are functions of the tape.
func (w *World) genVault(o vopts) *vaultM {
	t := w.T
	v := &vaultM{path: o.path, b: &bulk{s: t.U64()}, o: o}
	if v.path == "" {
		v.path = t.Pick("/home/u/vault.opvault", "/home/u/my vault.opvault", "/home/u/v[1]*?.opvault", "/data/säfe/1Password.opvault", "/home/u/a\\b{c}.opvault", "vaults/rel.opvault", "/home/u/link.opvault", "./dot/../dots.opvault/")
		if v.path == "/home/u/link.opvault" {
			v.linkTo = "/mnt/sync/real.opvault"
		}
	}
	v.pass = passwords[t.N(len(passwords))]
	if o.simple {
		v.pass = []string{"secret", "s3cret pass", "pässwörd"}[t.N(3)]
	}
	if o.strongPass {
		v.pass = "Pw" + v.b.token(8) + t.Pick("", " x", "ü", "!#")
		if t.N(12) == 11 {
			v.pass += v.b.token(70)
		}
	}
	v.iter = []int{1, 2, 10, 100}[t.N(4)]
	v.salt = v.b.bytes(16)
	v.seal()
	n := o.minItems + t.Size(o.maxItems-o.minItems)
	if o.big && t.N(16) == 15 {
		n = 60 + t.N(140)
	}
	for i := 0; i < n; i++ {
		v.items = append(v.items, v.genItem(t, o))
	}
	v.emptyBands = t.N(4)
	v.extraFiles = t.N(2) == 1
	return v
}

func (v *vaultM) derived() ([]byte, []byte) {
	k, err := pbkdf2.Key(sha512.New, v.pass, v.salt, v.iter, 64)
	if err != nil {
		panic(err)
	}
	return k[:32], k[32:]
}

// seal draws fresh vault keys and protects them with the password.
func (v *vaultM) seal() {
	v.msec, v.osec = v.b.bytes(256), v.b.bytes(64)
	h := sha512.Sum512(v.msec)
	v.mk, v.mm = append([]byte(nil), h[:32]...), append([]byte(nil), h[32:]...)
	h = sha512.Sum512(v.osec)
	v.ok, v.om = append([]byte(nil), h[:32]...), append([]byte(nil), h[32:]...)
	v.protect()
}

// protect encrypts the vault keys with the present password.
func (v *vaultM) protect() {
	dk, dm := v.derived()
	v.masterBlob = v.b.opdata(v.msec, dk, dm)
	v.overBlob = v.b.opdata(v.osec, dk, dm)
}

func (v *vaultM) newUID() string {
	for {
		u := v.b.hex(32)
		dup := false
		for _, it := range v.items {
			if it.uid == u {
				dup = true
			}
		}
		if !dup {
			return u
		}
	}
}

func (v *vaultM) secret(it *mItem) string {
	s := v.b.token(12)
	it.secrets = append(it.secrets, s)
	return s
}

// value draws a text of an unusual form around a secret.
func (v *vaultM) value(it *mItem, t *Tape, o vopts) string {
	s := v.secret(it)
	switch t.N(16) {
	case 15:
		return "  " + s
	case 14:
		return s + "  "
	case 13:
		return s + "  " + v.secret(it)
	case 12:
		if !o.gui {
			return "\t" + s + "\t" + v.secret(it)
		}
	case 11:
		return s + "\n" + v.secret(it)
	case 8:
		if t.N(6) == 5 {
			return s + strings.Repeat(" word", 40+v.b.n(900)) + " " + v.secret(it)
		}
	case 10:
		if t.N(3) == 2 { // too short to be recognized elsewhere
			return t.Pick("x", "7", "-", "ab")
		}
		return s + "\\n%s{}" + stars
	case 9:
		if !o.gui {
			return s + " żółć 密碼 🔑 é"
		}
	}
	return s
}

func (v *vaultM) genItem(t *Tape, o vopts) *mItem {
	it := &mItem{uid: v.newUID(), known: true}
	if o.simple {
		it.code = cats[t.N(6)].code
	} else {
		it.code = cats[t.N(len(cats))].code
	}
	if o.oneCat && t.N(8) < 7 {
		it.code = cats[v.b.s%3].code
	}
	if o.unknown && t.N(12) == 11 {
		it.code = []string{"112", "114", "115", "000"}[t.N(4)]
		it.known = false
	}
	switch k := t.N(10); {
	case k < 6 || o.simple && k < 9:
		it.title = words[t.N(min(len(words), 6))] + " " + v.b.token(5)
	case (k == 6 || o.few && k > 2) && o.ties && len(v.items) > 0:
		it.title = v.items[t.N(len(v.items))].title
		if t.N(2) == 1 {
			it.code = v.items[t.N(len(v.items))].code
			it.known = catName(it.code) != ""
		}
		if t.N(4) == 3 {
			it.title = strings.ToLower(it.title)
		}
	case k == 7 && o.blank:
		it.title = t.Pick(" ", "  ", "a  ", " x")
	case k == 7 && o.gui && t.N(8) == 7:
		it.title = t.Pick("x", "-", "7", ".")
	case k == 7 && o.gui:
		it.title = words[t.N(6)]
	case k == 7 && t.N(8) == 7:
		it.title = t.Pick("x", " ", "-", "  a", "7", ".", "é")
	case k == 7:
		it.title = words[t.N(len(words))]
	case k == 8 && t.N(3) == 2:
		it.title = "long " + v.b.token(20) + strings.Repeat(" word", 5+v.b.n(60)) + " end"
	case k == 8 && o.gui:
		it.title = "Item " + v.b.token(7)
	case k == 8:
		it.title = words[t.N(len(words))] + " " + words[t.N(len(words))] + " " + v.b.token(6)
	case k == 9 && !o.simple:
		it.title = ""
	default:
		it.title = "Item " + v.b.token(6)
	}
	if t.N(3) > 0 {
		it.url = "https://" + strings.ToLower(v.b.token(6)) + ".example.com/login?a=1&b=<2>"
		if t.N(4) == 3 {
			it.url = t.Pick(it.url+"#top", "http://user@"+strings.ToLower(v.b.token(5))+":8443/a%20b/", strings.ToUpper(v.b.token(7)), "ftp://ü.example.com/ä b", it.url+strings.Repeat("/x", 60), it.url+"%d%s%!")
		}
	}
	it.trashed = t.N(4) == 3
	it.created = 1_300_000_000 + int64(v.b.n(400_000_000))
	it.updated = it.created + int64(v.b.n(50_000_000))
	if t.N(8) == 7 {
		it.created = []int64{0, 1, 2147483647, 4102444800}[v.b.n(4)]
	}
	if t.N(3) == 2 {
		it.notes = "note " + v.secret(it)
		if t.N(2) == 1 {
			it.notes += "\nsecond line " + v.secret(it)
		}
		if t.N(8) == 7 {
			for i, n := 0, 20+v.b.n(200); i < n; i++ {
				it.notes += "\nline " + itoa(i) + " of a long note " + v.b.token(8)
			}
			it.notes += "\n" + v.secret(it)
		}
		if o.big && t.N(48) == 47 {
			for i, n := 0, 600+v.b.n(1500); i < n; i++ {
				it.notes += "\n" + itoa(i) + " " + v.b.token(60+v.b.n(60))
			}
			it.notes += "\n" + v.secret(it)
		}
		if t.N(8) == 7 {
			it.notes = "  " + it.notes + "\n\n    indented " + v.secret(it) + "  "
		}
	}
	// details
	det := map[string]any{}
	if it.notes != "" {
		det["notesPlain"] = it.notes
	} else if t.N(4) == 3 {
		det["notesPlain"] = ""
	}
	mode := t.N(5)
	if mode == 0 || mode == 2 || mode == 4 { // login-style fields
		var fs []any
		var shown []mField
		for i, n := 0, t.Pickn(1, 0, 2, 3, 8); i < n; i++ {
			name := fldNames[t.N(len(fldNames))]
			f := map[string]any{"type": "T", "name": name, "designation": name}
			switch t.N(6) {
			case 4:
				f["value"] = ""
			case 5:
				if t.N(2) == 0 {
					delete(f, "name")
				} else {
					f["name"] = ""
				}
				f["value"] = v.b.token(12)
			default:
				s := v.value(it, t, o)
				if t.N(6) == 5 {
					s += strings.Repeat("=", v.b.n(3)) + " " + v.b.token(10+v.b.n(400))
				}
				f["value"] = s
				shown = append(shown, mField{asciiTitle(name), s})
				if t.N(12) == 11 { // the very same once more
					fs = append(fs, f)
					shown = append(shown, mField{asciiTitle(name), s})
				}
			}
			fs = append(fs, f)
		}
		if fs == nil {
			fs = []any{}
		}
		det["fields"] = fs
		if len(shown) > 0 {
			it.sections = append(it.sections, mSection{"", shown})
		}
	}
	if mode == 1 || mode == 2 || mode == 4 {
		ss := []any{}
		for i, n := 0, t.Pickn(1, 0, 2, 3, 7); i < n; i++ {
			title := secTitles[t.N(len(secTitles))]
			sec := map[string]any{"name": "section_" + v.b.token(4), "title": title}
			var fs []any
			var shown []mField
			for j, m := 0, t.Pickn(1, 0, 2, 3, 5, 12); j < m; j++ {
				name := fldNames[t.N(len(fldNames))]
				f := map[string]any{"k": "string", "n": v.b.token(8), "t": name}
				switch t.N(9) {
				case 1:
					f["k"] = "concealed"
					s := v.secret(it)
					f["v"] = s
					shown = append(shown, mField{asciiTitle(name), s})
				case 2: // not filled in
				case 3:
					f["k"] = "date"
					ts := int64(v.b.n(2_000_000_000))
					if v.b.n(4) == 0 {
						ts = -int64(v.b.n(900_000_000))
					}
					if v.b.n(4) == 0 {
						f["v"] = itoa(int(ts))
					} else {
						f["v"] = ts
					}
					shown = append(shown, mField{asciiTitle(name), time.Unix(ts, 0).UTC().Format("2006-01-02")})
				case 4:
					f["k"] = "monthYear"
					y, mo := 1990+v.b.n(60), 1+v.b.n(12)
					f["v"] = y*100 + mo
					ms := itoa(mo)
					if mo < 10 {
						ms = "0" + ms
					}
					shown = append(shown, mField{asciiTitle(name), itoa(y) + "-" + ms})
				case 5:
					f["k"] = "address"
					st, ci, zip := v.secret(it), v.secret(it), v.secret(it)
					ad := map[string]any{"street": st + " 7\nfloor 2", "city": " " + ci + " ", "zip": zip, "country": "pl"}
					state := ""
					if t.N(3) == 2 {
						ad["state"] = t.Pick("", "NSW", "Île-de-France")
						state = "\n  state: " + ad["state"].(string)
					}
					if t.N(6) == 5 {
						ad["country"] = "Polska"
					}
					f["v"] = ad
					shown = append(shown, mField{asciiTitle(name), "\n  city: " + ci + "\n  country: " + ad["country"].(string) + state + "\n  street: " + st + " 7 floor 2\n  zip: " + zip})
				case 6:
					f["k"] = []string{"email", "URL", "phone", "menu", "cctype"}[v.b.n(5)]
					s := v.secret(it) + "%d&<x>"
					f["v"] = s
					shown = append(shown, mField{asciiTitle(name), s})
				case 7:
					f["k"] = []string{"string", "menu", "phone", "gender"}[v.b.n(4)]
					n := v.b.n(1 << uint(1+v.b.n(50)))
					f["v"] = n
					shown = append(shown, mField{asciiTitle(name), itoa(n)})
					if t.N(4) == 3 {
						n >>= 20
						f["v"] = json.Number(itoa(n) + ".5")
						shown[len(shown)-1].value = itoa(n) + ".5"
					}
				default:
					s := v.value(it, t, o)
					f["v"] = s
					shown = append(shown, mField{asciiTitle(name), s})
					if t.N(12) == 11 {
						fs = append(fs, f)
						shown = append(shown, mField{asciiTitle(name), s})
					}
				}
				fs = append(fs, f)
			}
			if fs != nil || t.N(2) == 0 {
				if fs == nil {
					fs = []any{}
				}
				sec["fields"] = fs
			}
			ss = append(ss, sec)
			if title != "" || len(shown) > 0 {
				it.sections = append(it.sections, mSection{asciiTitle(title), shown})
			}
		}
		det["sections"] = ss
	}
	over := map[string]any{"ainfo": "info " + v.b.token(4), "ps": 50}
	if t.N(6) == 5 {
		over = map[string]any{}
	}
	if it.title != "" || t.N(2) == 1 {
		over["title"] = it.title
	}
	if it.url != "" {
		over["url"] = it.url
		over["URLs"] = []any{map[string]any{"u": it.url}}
	} else if t.N(3) == 2 {
		over["url"] = ""
	}
	v.encode(it, over, det)
	return it
}

// encode encrypts the item the way 1Password does.
func (v *vaultM) encode(it *mItem, over, det map[string]any) {
	ob, _ := json.Marshal(over)
	if _, ok := over["title"]; ok && v.b.n(2) == 1 { // the title first
		tb, _ := json.Marshal(over["title"])
		delete(over, "title")
		rest, _ := json.Marshal(over)
		ob = append([]byte(`{"title":`), tb...)
		if len(over) > 0 {
			ob = append(ob, ',')
		}
		ob = append(ob, rest[1:]...)
	}
	db, _ := json.Marshal(det)
	it.det = db
	ik := v.b.bytes(64)
	it.o = v.b.opdata(ob, v.ok, v.om)
	it.d = v.b.opdata(db, ik[:32], ik[32:])
	iv := v.b.bytes(16)
	k := append(append([]byte(nil), iv...), cbc(v.mk, iv, ik)...)
	it.k = append(k, mac(v.mm, k)...)
	it.hm = mac(v.om, []byte(it.uid))
}

func (it *mItem) json() string {
	if r, ok := it.raw[""]; ok {
		return r
	}
	e := base64.StdEncoding.EncodeToString
	kv := [][2]string{{"category", `"` + it.code + `"`}, {"created", itoa(int(it.created))}, {"d", `"` + e(it.d) + `"`}, {"hmac", `"` + e(it.hm) + `"`},
		{"k", `"` + e(it.k) + `"`}, {"o", `"` + e(it.o) + `"`}, {"tx", itoa(int(it.updated) + 3)}, {"updated", itoa(int(it.updated))}, {"uuid", `"` + it.uid + `"`}}
	if it.trashed {
		kv = append(kv, [2]string{"trashed", "true"})
	} else if it.uid[1] < '8' {
		kv = append(kv, [2]string{"trashed", "false"})
	}
	var sb strings.Builder
	sb.WriteByte('{')
	first := true
	for _, x := range kv {
		if it.drop[x[0]] {
			continue
		}
		val := x[1]
		if r, ok := it.raw[x[0]]; ok {
			val = r
		}
		if !first {
			sb.WriteByte(',')
		}
		first = false
		sb.WriteString(`"` + x[0] + `":` + val)
	}
	sb.WriteByte('}')
	return sb.String()
}

func (v *vaultM) profile() string {
	if v.profRaw != "" {
		return v.profRaw
	}
	e := base64.StdEncoding.EncodeToString
	return `var profile={"lastUpdatedBy":"Dropbox","updatedAt":1370323483,"profileName":"default","salt":"` + e(v.salt) + `","passwordHint":"hint","masterKey":"` + e(v.masterBlob) +
		`","iterations":` + itoa(v.iter) + `,"uuid":"2B894A18997C4638BACC55F2D56A4890","overviewKey":"` + e(v.overBlob) + `","createdAt":1373753414};`
}

// bands renders the band files.
func (v *vaultM) bands() map[string]string {
	by := map[byte][]*mItem{}
	for _, it := range v.items {
		by[it.uid[0]] = append(by[it.uid[0]], it)
	}
	out := map[string]string{}
	for _, c := range []byte("0123456789ABCDEF") {
		its := by[c]
		if len(its) == 0 {
			if v.emptyBands > 0 && (int(c)*7)%4 < v.emptyBands {
				out["band_"+string(c)+".js"] = "ld({});"
			}
			continue
		}
		var sb strings.Builder
		sb.WriteString("ld({")
		for i, it := range its {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(`"` + it.uid + `":` + it.json())
		}
		sb.WriteString("});")
		out["band_"+string(c)+".js"] = sb.String()
	}
	return out
}

func (w *World) abs(path string) string {
	if strings.HasPrefix(path, "/") {
		return cleanAbs(path)
	}
	p := cleanAbs("/home/u/./" + path)
	return p
}

func (v *vaultM) dir(w *World) string { return w.abs(v.path) + "/default" }

// store writes the vault to the simulated disk.
func (v *vaultM) store(w *World) {
	if v.linkTo != "" && w.fs.lget(v.path) == nil {
		w.fs.mkdirAll(v.linkTo, 0755)
		w.fs.symlink(v.path, v.linkTo)
	}
	d := v.dir(w)
	if v.linkTo != "" {
		d = v.linkTo + "/default"
	}
	w.fs.mkdirAll(d, 0755)
	if strings.Contains(v.path, "/dot/") {
		w.fs.mkdirAll("/home/u/dot", 0755)
	}
	w.fs.put(d+"/profile.js", []byte(v.profile()), 0644)
	dn := w.fs.get(d)
	want := v.bands()
	for _, n := range sortedKeys(dn.children) {
		if strings.HasPrefix(n, "band_") {
			if _, ok := want[n]; !ok {
				w.fs.remove(d + "/" + n)
			}
		}
	}
	for _, n := range sortedKeys(want) {
		w.fs.put(d+"/"+n, []byte(want[n]), 0644)
	}
	if v.extraFiles {
		w.fs.put(d+"/folders.js", []byte("loadFolders({});"), 0644)
		w.fs.put(d+"/._band_0.js", []byte("\x00\x05\x16\x07 resource fork"), 0644)
		w.fs.put(d+"/23F6167DC1FB457A8DE7033ACDCD06DB_attach.attachment", []byte("OPCLDAT bytes"), 0644)
	}
}

// ---- expectations

type filter struct {
	cat     string // name as typed, "" none
	title   string
	trashed bool
}

func (v *vaultM) match(f filter) []*mItem {
	var out []*mItem
	for _, it := range v.items {
		if !it.known || it.trashed != f.trashed {
			continue
		}
		if f.cat != "" && !strings.EqualFold(catName(it.code), strings.TrimSpace(f.cat)) {
			continue
		}
		if ti := strings.TrimSpace(f.title); ti != "" && !strings.Contains(strings.ToLower(it.title), strings.ToLower(ti)) {
			continue
		}
		out = append(out, it)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].code != out[j].code {
			return out[i].code < out[j].code
		}
		return out[i].title < out[j].title
	})
	return out
}

func (v *vaultM) find(uid string) *mItem {
	for _, it := range v.items {
		if it.uid == uid {
			return it
		}
	}
	return nil
}

const sep = "------------------------------"
const stars = "**********"

func stamp(sec int64) string { return time.Unix(sec, 0).UTC().Format("2006-01-02 15:04:05") }

// lines is what overview and details print for the item, blank lines left out.
func (it *mItem) lines(reveal bool) []string {
	out := []string{catName(it.code), sep}
	if it.title != "" {
		out = append(out, strings.Split(it.title, "\n")...)
	}
	out = append(out, "Updated: "+stamp(it.updated), "Created: "+stamp(it.created), "Trashed: "+map[bool]string{true: "true", false: "false"}[it.trashed])
	if it.url != "" {
		out = append(out, "URL: "+it.url)
	}
	for _, s := range it.sections {
		if s.title != "" {
			out = append(out, s.title)
		}
		out = append(out, sep)
		for _, f := range s.fields {
			val := stars
			if reveal {
				val = f.value
			}
			out = append(out, strings.Split(f.name+": "+val, "\n")...)
		}
	}
	if it.notes != "" {
		out = append(out, "Notes", sep)
		if reveal {
			out = append(out, strings.Split(it.notes, "\n")...)
		} else {
			out = append(out, stars)
		}
	}
	return out
}

func nonblank(lines []string) []string {
	var out []string
	for _, l := range lines {
		l = strings.TrimRight(l, " \r")
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

// notEmpty leaves out the lines without any text.
func notEmpty(lines []string) []string {
	var out []string
	for _, l := range lines {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

func sameLines(got, want []string) (bool, string) {
	return sameText(nonblank(got), nonblank(want))
}

// sameText compares line by line.
func sameText(g, x []string) (bool, string) {
	for i := 0; i < len(g) || i < len(x); i++ {
		a, b := "<nothing>", "<nothing>"
		if i < len(g) {
			a = g[i]
		}
		if i < len(x) {
			b = x[i]
		}
		if a != b {
			return false, "line " + itoa(i+1) + ": shown " + quote(a) + ", stored " + quote(b)
		}
	}
	return true, ""
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
