//go:build go1.27

package kit

import (
	"sort"
	"strings"
	"syscall"
)

type nodeKind int

const (
	kFile nodeKind = iota
	kDir
	kLink
	kDev
)

// inode is a file-system object with a volatile and a durable state.
type inode struct {
	ino      uint64
	kind     nodeKind
	mode     uint32
	dmode    uint32
	data     []byte
	durable  []byte
	dirty    bool
	target   string
	children map[string]*inode
	dchild   map[string]*inode
	dev      uint64
	nlink    int
	mtime    int64
	devname  string
}

func (n *inode) isDir() bool { return n.kind == kDir }

// meta is one not yet durable metadata change; they become durable in order.
type meta struct {
	what  string
	apply func()
}

// FS is the simulated disk.
type FS struct {
	root    *inode
	nextIno uint64
	journal []meta
	limit   int64 // bytes available; <0 unlimited
	used    int64
}

func newFS() *FS {
	fs := &FS{limit: -1}
	fs.root = fs.newNode(kDir, 0755, 1)
	fs.root.nlink = 1
	return fs
}

func (fs *FS) newNode(k nodeKind, mode uint32, dev uint64) *inode {
	fs.nextIno++
	n := &inode{ino: fs.nextIno, kind: k, mode: mode, dmode: mode, dev: dev, nlink: 1}
	if k == kDir {
		n.children = map[string]*inode{}
		n.dchild = map[string]*inode{}
	}
	return n
}

func splitPath(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// walk resolves path from dir. When want is the last component's parent it
// returns (parent, base, node or nil).
func (fs *FS) walk(cwd *inode, cwdPath, path string, followLast bool, depth int) (parent *inode, base string, n *inode, full string, err error) {
	if depth > 20 {
		return nil, "", nil, "", syscall.ELOOP
	}
	if path == "" {
		return nil, "", nil, "", syscall.ENOENT
	}
	if len(path) > 4095 {
		return nil, "", nil, "", syscall.ENAMETOOLONG
	}
	type fr struct {
		n    *inode
		name string
	}
	var stack []fr
	push := func(p string) error {
		cur := fs.root
		stack = []fr{{cur, ""}}
		for _, c := range splitPath(p) {
			nx := cur.children[c]
			if nx == nil {
				return syscall.ENOENT
			}
			stack = append(stack, fr{nx, c})
			cur = nx
		}
		return nil
	}
	if strings.HasPrefix(path, "/") {
		stack = []fr{{fs.root, ""}}
	} else {
		if e := push(cwdPath); e != nil {
			return nil, "", nil, "", e
		}
	}
	pathOf := func() string {
		var sb strings.Builder
		for _, f := range stack[1:] {
			sb.WriteByte('/')
			sb.WriteString(f.name)
		}
		if sb.Len() == 0 {
			return "/"
		}
		return sb.String()
	}
	comps := strings.Split(path, "/")
	var list []string
	for _, c := range comps {
		if c != "" {
			list = append(list, c)
		}
	}
	trailing := strings.HasSuffix(path, "/")
	for i, c := range list {
		cur := stack[len(stack)-1].n
		last := i == len(list)-1
		if !cur.isDir() {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		if c == "." {
			if last {
				break
			}
			continue
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		nx := cur.children[c]
		if nx == nil {
			if last {
				pp := pathOf()
				if pp == "/" {
					pp = ""
				}
				return cur, c, nil, pp + "/" + c, syscall.ENOENT
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if nx.kind == kLink && (!last || followLast || trailing) {
			tgt := nx.target
			rest := strings.Join(list[i+1:], "/")
			np := tgt
			if rest != "" {
				np = tgt + "/" + rest
			} else if trailing {
				np = tgt + "/"
			}
			return fs.walk(cur, pathOf(), np, followLast, depth+1)
		}
		stack = append(stack, fr{nx, c})
	}
	top := stack[len(stack)-1]
	if trailing && !top.n.isDir() {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	var par *inode
	if len(stack) > 1 {
		par = stack[len(stack)-2].n
	}
	return par, top.name, top.n, pathOf(), nil
}

func (fs *FS) log(what string, apply func()) { fs.journal = append(fs.journal, meta{what, apply}) }

func (fs *FS) link(dir *inode, name string, n *inode) {
	dir.children[name] = n
	fs.log("link "+name, func() { dir.dchild[name] = n })
}

func (fs *FS) unlink(dir *inode, name string) {
	delete(dir.children, name)
	fs.log("unlink "+name, func() { delete(dir.dchild, name) })
}

func (fs *FS) rename(od *inode, on string, nd *inode, nn string) {
	n := od.children[on]
	delete(od.children, on)
	nd.children[nn] = n
	fs.log("rename "+on+" "+nn, func() {
		delete(od.dchild, on)
		nd.dchild[nn] = n
	})
}

func (fs *FS) chmod(n *inode, mode uint32) {
	n.mode = mode
	fs.log("chmod", func() { n.dmode = mode })
}

// fsync makes the file's data and all metadata changes so far durable.
func (fs *FS) fsync(n *inode) {
	fs.flushMeta(len(fs.journal))
	if n.kind == kFile {
		n.durable = append([]byte(nil), n.data...)
		n.dirty = false
	}
}

func (fs *FS) flushMeta(k int) {
	for _, m := range fs.journal[:k] {
		m.apply()
	}
	fs.journal = append([]meta(nil), fs.journal[k:]...)
}

func (fs *FS) each(f func(path string, n *inode)) {
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		f(p, n)
		if n.isDir() {
			for _, k := range sortedKeys(n.children) {
				rec(p+"/"+k, n.children[k])
			}
		}
	}
	rec("", fs.root)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (fs *FS) syncAll() {
	fs.flushMeta(len(fs.journal))
	fs.each(func(_ string, n *inode) {
		if n.kind == kFile && n.dirty {
			n.durable = append([]byte(nil), n.data...)
			n.dirty = false
		}
	})
}

// powerLoss keeps an ordered prefix of the metadata changes and, for every
// file whose data was never synced, one of the contents a disk may hold.
func (fs *FS) powerLoss(t *Tape) string {
	k := len(fs.journal) - t.N(len(fs.journal)+1)
	desc := "kept " + itoa(k) + "/" + itoa(len(fs.journal)) + " metadata changes"
	fs.flushMeta(k)
	fs.journal = nil
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		n.mode = n.dmode
		if n.isDir() {
			n.children = make(map[string]*inode, len(n.dchild))
			for _, c := range sortedKeys(n.dchild) {
				n.children[c] = n.dchild[c]
			}
			for _, c := range sortedKeys(n.children) {
				rec(p+"/"+c, n.children[c])
			}
			return
		}
		if n.kind == kFile && n.dirty {
			switch t.N(4) {
			case 0: // all of it reached the disk
				desc += "; " + p + " complete"
			case 1:
				n.data = append([]byte(nil), n.durable...)
				desc += "; " + p + " reverted to " + itoa(len(n.data)) + " bytes"
			case 2:
				n.data = append([]byte(nil), n.data[:t.N(len(n.data)+1)]...)
				desc += "; " + p + " torn at " + itoa(len(n.data))
			case 3:
				n.data = make([]byte, len(n.data))
				desc += "; " + p + " zero-filled"
			}
			n.durable = append([]byte(nil), n.data...)
			n.dirty = false
		}
	}
	rec("", fs.root)
	return desc
}

// ---- direct access for the harness (never faulted)

func (fs *FS) get(path string) *inode {
	_, _, n, _, err := fs.walk(fs.root, "/", path, true, 0)
	if err != nil {
		return nil
	}
	return n
}

func (fs *FS) lget(path string) *inode {
	_, _, n, _, err := fs.walk(fs.root, "/", path, false, 0)
	if err != nil {
		return nil
	}
	return n
}

func (fs *FS) mkdirAll(path string, mode uint32) *inode {
	cur := fs.root
	for _, c := range splitPath(path) {
		nx := cur.children[c]
		if nx == nil {
			nx = fs.newNode(kDir, mode, cur.dev)
			cur.children[c] = nx
			cur.dchild[c] = nx
		}
		cur = nx
	}
	return cur
}

func dirOf(p string) (string, string) {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/", p[i+1:]
	}
	return p[:i], p[i+1:]
}

func (fs *FS) put(path string, data []byte, mode uint32) *inode {
	d, b := dirOf(path)
	dir := fs.mkdirAll(d, 0755)
	n := dir.children[b]
	if n == nil || n.kind != kFile {
		n = fs.newNode(kFile, mode, dir.dev)
		dir.children[b] = n
		dir.dchild[b] = n
	}
	n.mode, n.dmode = mode, mode
	n.data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	n.dirty = false
	return n
}

func (fs *FS) symlink(path, target string) {
	d, b := dirOf(path)
	dir := fs.mkdirAll(d, 0755)
	n := fs.newNode(kLink, 0777, dir.dev)
	n.target = target
	dir.children[b] = n
	dir.dchild[b] = n
}

func (fs *FS) remove(path string) {
	d, b := dirOf(path)
	if dir := fs.get(d); dir != nil {
		delete(dir.children, b)
		delete(dir.dchild, b)
	}
}

func (fs *FS) read(path string) ([]byte, bool) {
	n := fs.get(path)
	if n == nil || n.kind != kFile {
		return nil, false
	}
	return n.data, true
}

// mount marks a directory as the root of another device.
func (fs *FS) mount(path string, dev uint64) {
	fs.mkdirAll(path, 0755)
	var rec func(n *inode)
	rec = func(n *inode) {
		n.dev = dev
		for _, c := range n.children {
			rec(c)
		}
	}
	rec(fs.get(path))
}

// dump renders a subtree (names, modes, contents hash) for comparisons.
func (fs *FS) dump(path string) string {
	var sb strings.Builder
	n := fs.lget(path)
	if n == nil {
		return "<absent>"
	}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		switch n.kind {
		case kDir:
			sb.WriteString("d " + p + " " + itoa(int(n.mode)) + "\n")
			for _, k := range sortedKeys(n.children) {
				rec(p+"/"+k, n.children[k])
			}
		case kFile:
			sb.WriteString("f " + p + " " + itoa(int(n.mode)) + " " + itoa(len(n.data)) + " " + hex64(fnv64(n.data)) + "\n")
		case kLink:
			sb.WriteString("l " + p + " -> " + n.target + "\n")
		}
	}
	rec(path, n)
	return sb.String()
}

func fnv64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func fnvStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	return h
}

const hexd = "0123456789abcdef"

func hex64(v uint64) string {
	var b [16]byte
	for i := 15; i >= 0; i-- {
		b[i] = hexd[v&15]
		v >>= 4
	}
	return string(b[:])
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b [24]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}
