//go:build go1.27

package kit

import (
	crand "crypto/rand"
	"encoding/binary"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
)

const atFDCWD = -100

func (p *Proc) fdpath(fd int) string {
	if d := p.fds[fd]; d != nil {
		return d.path
	}
	return "fd" + itoa(fd)
}

func (p *Proc) base(dirfd int) (string, error) {
	if dirfd == atFDCWD || dirfd == -0x64 {
		return p.cwd, nil
	}
	d := p.fds[dirfd]
	if d == nil {
		return "", syscall.EBADF
	}
	return d.path, nil
}

func (p *Proc) abs(dirfd int, path string) string {
	if strings.HasPrefix(path, "/") {
		return path
	}
	b, err := p.base(dirfd)
	if err != nil {
		return path
	}
	if b == "/" {
		return "/" + path
	}
	return b + "/" + path
}

func (p *Proc) walkAt(dirfd int, path string, follow bool) (*inode, string, *inode, string, error) {
	b, err := p.base(dirfd)
	if err != nil {
		return nil, "", nil, "", err
	}
	return p.w.fs.walk(nil, b, path, follow, 0)
}

func (w *World) mutated(o *op, what, path string) {
	w.muts = append(w.muts, mutation{what, path, o.p})
	if w.onMut != nil {
		w.onMut(o)
	}
}

// tried: a removal that found nothing to remove, this time.
func (w *World) tried(o *op, what, path string) {
	if w.onTry != nil {
		w.onTry(o, mutation{what, path, o.p})
	}
}

func (p *Proc) newFd(d *fdesc) int {
	fd := p.nextFd
	p.nextFd++
	p.fds[fd] = d
	return fd
}

const oPATH = 0x200000

func (w *World) now32() int64 { return w.wall() }

func installHooks() {
	h := &syscall.VerifHooks{}
	h.Active = simActive
	h.Deny = func(name string) error {
		w := cur
		p := w.me()
		if p.gone() {
			p.die()
			return syscall.EIO
		}
		p.denied = append(p.denied, name)
		w.logf("%s %s denied", p.name, name)
		w.probe("denied:" + name)
		return syscall.EPERM
	}
	h.Exec = func(argv0 string) error {
		p := cur.me()
		p.execs = append(p.execs, argv0)
		cur.logf("%s exec %s refused", p.name, argv0)
		return syscall.EPERM
	}
	do := func(o *op) (int, error) {
		w := cur
		p := w.me()
		return w.submit(p, o)
	}
	path1 := func(dirfd int, path string) string { return cleanAbs(cur.me().abs(dirfd, path)) }

	h.Vopenat = func(dirfd int, path string, flags int, mode uint32) (int, error) {
		return do(&op{name: "openat", path: path1(dirfd, path), mut: flags&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0, exec: func(o *op) (int, error) {
			w, p := cur, o.p
			acc := flags & 3
			wr := acc == os.O_WRONLY || acc == os.O_RDWR
			follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&os.O_CREATE != 0 && flags&os.O_EXCL != 0)
			par, base, n, full, err := p.walkAt(dirfd, path, follow)
			if err != nil {
				if err == syscall.ENOENT && par != nil && flags&os.O_CREATE != 0 {
					if strings.HasSuffix(path, "/") {
						return -1, syscall.EISDIR
					}
					n = w.fs.newNode(kFile, 0100000|mode&^p.umask&07777, par.dev)
					n.mode &= 07777
					n.dmode = n.mode
					n.mtime = w.wall()
					n.dirty = true
					w.fs.link(par, base, n)
					w.mutated(o, "create", full)
					return p.newFd(&fdesc{n: n, path: full, flags: flags}), nil
				}
				return -1, err
			}
			if flags&os.O_CREATE != 0 && flags&os.O_EXCL != 0 {
				return -1, syscall.EEXIST
			}
			if n.kind == kLink && flags&oPATH == 0 {
				return -1, syscall.ELOOP
			}
			if flags&syscall.O_DIRECTORY != 0 && !n.isDir() {
				return -1, syscall.ENOTDIR
			}
			if n.isDir() && (wr || flags&os.O_CREATE != 0) {
				return -1, syscall.EISDIR
			}
			if wr && n.kind == kFile {
				for _, q := range w.procs {
					if !q.gone() && q.exeNode == n {
						return -1, syscall.ETXTBSY
					}
				}
			}
			if n.kind == kFile && flags&os.O_TRUNC != 0 && wr && len(n.data) > 0 {
				n.data = nil
				n.dirty = true
				w.mutated(o, "truncate", full)
			} else if wr && n.kind == kFile {
				w.mutated(o, "open-for-writing", full)
			}
			d := &fdesc{n: n, path: full, flags: flags}
			return p.newFd(d), nil
		}})
	}
	h.VClose = func(fd int) error {
		if fd >= 0 && fd <= 2 {
			return nil
		}
		w := cur
		p := w.me()
		if p.gone() {
			p.die()
			return syscall.EIO
		}
		if p.fds[fd] == nil {
			return syscall.EBADF
		}
		_, err := do(&op{name: "close", path: p.fdpath(fd), fd: fd, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			delete(o.p.fds, fd)
			return 0, nil
		}})
		if err != nil && err != syscall.EBADF {
			delete(p.fds, fd)
		}
		return err
	}
	rd := func(name string, fd int, b []byte, off int64, at bool) (int, error) {
		w := cur
		p := w.me()
		if fd == 0 && !at {
			return p.readStdin(b)
		}
		return do(&op{name: name, path: p.fdpath(fd), fd: fd, size: len(b), data: true, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			if d.flags&3 == os.O_WRONLY {
				return -1, syscall.EBADF
			}
			if d.n.isDir() {
				return -1, syscall.EISDIR
			}
			if d.n.kind == kDev {
				return 0, nil
			}
			pos := d.pos
			if at {
				pos = off
			}
			if pos >= int64(len(d.n.data)) {
				return 0, nil
			}
			m := b
			if o.limit >= 0 && o.limit < len(m) {
				m = m[:o.limit]
			}
			n := copy(m, d.n.data[pos:])
			if !at {
				d.pos += int64(n)
			}
			return n, nil
		}})
	}
	h.Vread = func(fd int, b []byte) (int, error) { return rd("read", fd, b, 0, false) }
	h.Vpread = func(fd int, b []byte, off int64) (int, error) { return rd("pread", fd, b, off, true) }
	wr := func(name string, fd int, b []byte, off int64, at bool) (int, error) {
		w := cur
		p := w.me()
		if fd == 1 || fd == 2 {
			if p.gone() {
				p.die()
				return -1, syscall.EIO
			}
			if fd == 1 {
				p.out = append(p.out, b...)
			} else {
				p.errOut = append(p.errOut, b...)
			}
			return len(b), nil
		}
		return do(&op{name: name, path: p.fdpath(fd), fd: fd, size: len(b), data: true, mut: true, exec: func(o *op) (int, error) {
			w := cur
			d := o.p.fds[fd]
			if d == nil || d.flags&3 == os.O_RDONLY {
				return -1, syscall.EBADF
			}
			m := b
			if o.limit >= 0 && o.limit < len(m) {
				m = m[:o.limit]
			}
			if d.n.kind == kDev {
				return len(m), nil
			}
			pos := d.pos
			if at {
				pos = off
			}
			if d.flags&os.O_APPEND != 0 {
				pos = int64(len(d.n.data))
			}
			if w.fs.limit >= 0 {
				grow := pos + int64(len(m)) - int64(len(d.n.data))
				if grow > w.fs.limit {
					cut := int64(len(m)) - (grow - w.fs.limit)
					w.fault("disk-full")
					o.flt = "disk-full"
					if cut <= 0 {
						return -1, syscall.ENOSPC
					}
					m = m[:cut]
					grow = w.fs.limit
				}
				if grow > 0 {
					w.fs.limit -= grow
				}
			}
			if need := pos + int64(len(m)); need > int64(len(d.n.data)) {
				nd := make([]byte, need)
				copy(nd, d.n.data)
				d.n.data = nd
			}
			copy(d.n.data[pos:], m)
			d.n.dirty = true
			d.n.mtime = w.wall()
			if !at {
				d.pos = pos + int64(len(m))
			}
			w.writes = append(w.writes, writeRec{d.path, append([]byte(nil), m...), o.p})
			w.mutated(o, "write", d.path)
			return len(m), nil
		}})
	}
	h.Vwrite = func(fd int, b []byte) (int, error) { return wr("write", fd, b, 0, false) }
	h.Vpwrite = func(fd int, b []byte, off int64) (int, error) { return wr("pwrite", fd, b, off, true) }
	h.VSeek = func(fd int, offset int64, whence int) (int64, error) {
		p := cur.me()
		if p.gone() {
			p.die()
			return -1, syscall.EIO
		}
		if fd <= 2 {
			return -1, syscall.ESPIPE
		}
		d := p.fds[fd]
		if d == nil {
			return -1, syscall.EBADF
		}
		switch whence {
		case 0:
			d.pos = offset
		case 1:
			d.pos += offset
		case 2:
			d.pos = int64(len(d.n.data)) + offset
		}
		if d.n.isDir() && d.pos == 0 {
			d.dirs, d.dirpos = nil, 0
		}
		return d.pos, nil
	}
	fill := func(st *syscall.Stat_t, n *inode) {
		*st = syscall.Stat_t{}
		st.Dev, st.Ino, st.Nlink = n.dev, n.ino, uint64(n.nlink)
		st.Mode = n.mode & 07777
		st.Size = int64(len(n.data))
		st.Mtim.Sec = n.mtime
		st.Uid, st.Gid = 0, 0
		st.Blksize = 4096
		switch n.kind {
		case kFile:
			st.Mode |= syscall.S_IFREG
		case kDir:
			st.Mode |= syscall.S_IFDIR
			st.Size = 4096
		case kLink:
			st.Mode |= syscall.S_IFLNK
			st.Size = int64(len(n.target))
		case kDev:
			st.Mode |= syscall.S_IFCHR
		}
	}
	h.VFstat = func(fd int, st *syscall.Stat_t) error {
		p := cur.me()
		if fd >= 0 && fd <= 2 {
			*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0620}
			if !p.inTTY && p.gui == nil {
				st.Mode = syscall.S_IFIFO | 0600
			}
			return nil
		}
		_, err := do(&op{name: "fstat", path: p.fdpath(fd), fd: fd, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			fill(st, d.n)
			return 0, nil
		}})
		return err
	}
	h.Vfstatat = func(dirfd int, path string, st *syscall.Stat_t, flags int) error {
		_, err := do(&op{name: "stat", path: path1(dirfd, path), exec: func(o *op) (int, error) {
			if path == "" && flags&0x1000 != 0 {
				if d := o.p.fds[dirfd]; d != nil {
					fill(st, d.n)
					return 0, nil
				}
			}
			_, _, n, _, err := o.p.walkAt(dirfd, path, flags&0x100 == 0)
			if err != nil {
				return -1, err
			}
			fill(st, n)
			return 0, nil
		}})
		return err
	}
	access := func(dirfd int, path string) error {
		_, err := do(&op{name: "access", path: path1(dirfd, path), exec: func(o *op) (int, error) {
			_, _, _, _, err := o.p.walkAt(dirfd, path, true)
			if err != nil {
				return -1, err
			}
			return 0, nil
		}})
		return err
	}
	h.Vfaccessat = func(dirfd int, path string, mode uint32) error { return access(dirfd, path) }
	h.Vfaccessat2 = func(dirfd int, path string, mode uint32, flags int) error { return access(dirfd, path) }
	h.VMkdirat = func(dirfd int, path string, mode uint32) error {
		_, err := do(&op{name: "mkdir", path: path1(dirfd, path), mut: true, exec: func(o *op) (int, error) {
			w := cur
			par, base, n, full, err := o.p.walkAt(dirfd, path, false)
			if n != nil {
				return -1, syscall.EEXIST
			}
			if err == syscall.ENOENT && par != nil {
				nn := w.fs.newNode(kDir, mode&^o.p.umask&07777, par.dev)
				w.fs.link(par, base, nn)
				w.mutated(o, "mkdir", full)
				return 0, nil
			}
			return -1, err
		}})
		return err
	}
	h.Vunlinkat = func(dirfd int, path string, flags int) error {
		nm := "unlink"
		if flags&0x200 != 0 {
			nm = "rmdir"
		}
		_, err := do(&op{name: nm, path: path1(dirfd, path), mut: true, exec: func(o *op) (int, error) {
			w := cur
			par, base, n, full, err := o.p.walkAt(dirfd, path, false)
			if err != nil {
				if err == syscall.ENOENT && par != nil {
					w.tried(o, nm, full)
				}
				return -1, err
			}
			if par == nil {
				return -1, syscall.EBUSY
			}
			if strings.HasSuffix(path, "/.") || path == "." {
				return -1, syscall.EINVAL
			}
			if flags&0x200 != 0 {
				if !n.isDir() {
					return -1, syscall.ENOTDIR
				}
				if len(n.children) > 0 {
					w.tried(o, nm, full)
					return -1, syscall.ENOTEMPTY
				}
			} else if n.isDir() {
				return -1, syscall.EISDIR
			}
			w.fs.unlink(par, base)
			n.nlink--
			w.mutated(o, nm, full)
			return 0, nil
		}})
		return err
	}
	h.VRenameat = func(od int, oldp string, nd int, newp string) error {
		_, err := do(&op{name: "rename", path: path1(od, oldp), path2: path1(nd, newp), mut: true, exec: func(o *op) (int, error) {
			w := cur
			op1, ob, on, ofull, err := o.p.walkAt(od, oldp, false)
			if err != nil {
				return -1, err
			}
			np, nb, nn, nfull, err := o.p.walkAt(nd, newp, false)
			if err != nil && !(err == syscall.ENOENT && np != nil) {
				return -1, err
			}
			if op1 == nil || np == nil {
				return -1, syscall.EBUSY
			}
			if op1.dev != np.dev {
				return -1, syscall.EXDEV
			}
			if nn == on {
				return 0, nil
			}
			if nn != nil {
				if nn.isDir() {
					if !on.isDir() {
						return -1, syscall.EISDIR
					}
					if len(nn.children) > 0 {
						return -1, syscall.ENOTEMPTY
					}
				} else if on.isDir() {
					return -1, syscall.ENOTDIR
				}
				nn.nlink--
			}
			w.fs.rename(op1, ob, np, nb)
			w.mutated(o, "rename-from", ofull)
			w.mutated(o, "rename-to", nfull)
			return 0, nil
		}})
		return err
	}
	h.Vlinkat = func(od int, oldp string, nd int, newp string, flags int) error {
		_, err := do(&op{name: "link", path: path1(od, oldp), path2: path1(nd, newp), mut: true, exec: func(o *op) (int, error) {
			w := cur
			_, _, on, _, err := o.p.walkAt(od, oldp, flags&0x400 != 0)
			if err != nil {
				return -1, err
			}
			if on.isDir() {
				return -1, syscall.EPERM
			}
			np, nb, nn, nfull, err := o.p.walkAt(nd, newp, false)
			if nn != nil {
				return -1, syscall.EEXIST
			}
			if np == nil {
				return -1, err
			}
			if np.dev != on.dev {
				return -1, syscall.EXDEV
			}
			w.fs.link(np, nb, on)
			on.nlink++
			w.mutated(o, "link", nfull)
			return 0, nil
		}})
		return err
	}
	h.Vsymlinkat = func(target string, nd int, newp string) error {
		_, err := do(&op{name: "symlink", path: path1(nd, newp), path2: target, mut: true, exec: func(o *op) (int, error) {
			w := cur
			np, nb, nn, nfull, err := o.p.walkAt(nd, newp, false)
			if nn != nil {
				return -1, syscall.EEXIST
			}
			if np == nil {
				return -1, err
			}
			n := w.fs.newNode(kLink, 0777, np.dev)
			n.target = target
			w.fs.link(np, nb, n)
			w.mutated(o, "symlink", nfull)
			return 0, nil
		}})
		return err
	}
	h.Vreadlinkat = func(dirfd int, path string, buf []byte) (int, error) {
		return do(&op{name: "readlink", path: path1(dirfd, path), exec: func(o *op) (int, error) {
			if path == "/proc/self/exe" {
				if w := o.p.w; o.p.exeNode != nil && w.fs.lget(o.p.exe) != o.p.exeNode {
					return copy(buf, o.p.exe+" (deleted)"), nil
				}
				return copy(buf, o.p.exe), nil
			}
			_, _, n, _, err := o.p.walkAt(dirfd, path, false)
			if err != nil {
				return -1, err
			}
			if n.kind != kLink {
				return -1, syscall.EINVAL
			}
			return copy(buf, n.target), nil
		}})
	}
	chmod := func(dirfd int, path string, mode uint32) error {
		_, err := do(&op{name: "chmod", path: path1(dirfd, path), mut: true, exec: func(o *op) (int, error) {
			_, _, n, full, err := o.p.walkAt(dirfd, path, true)
			if err != nil {
				return -1, err
			}
			cur.fs.chmod(n, mode&07777)
			cur.mutated(o, "chmod", full)
			return 0, nil
		}})
		return err
	}
	h.Vfchmodat = chmod
	h.Vfchmodat2 = func(dirfd int, path string, mode uint32, flags int) error { return chmod(dirfd, path, mode) }
	h.VFchmod = func(fd int, mode uint32) error {
		_, err := do(&op{name: "fchmod", path: cur.me().fdpath(fd), fd: fd, mut: true, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			cur.fs.chmod(d.n, mode&07777)
			cur.mutated(o, "chmod", d.path)
			return 0, nil
		}})
		return err
	}
	h.VFchown = func(fd int, uid, gid int) error {
		_, err := do(&op{name: "fchown", path: cur.me().fdpath(fd), fd: fd, mut: true, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			cur.mutated(o, "chown", d.path)
			return 0, nil
		}})
		return err
	}
	h.VFchownat = func(dirfd int, path string, uid, gid, flags int) error {
		_, err := do(&op{name: "chown", path: path1(dirfd, path), mut: true, exec: func(o *op) (int, error) {
			_, _, _, full, err := o.p.walkAt(dirfd, path, true)
			if err != nil {
				return -1, err
			}
			cur.mutated(o, "chown", full)
			return 0, nil
		}})
		return err
	}
	h.Vutimensat = func(dirfd int, path string, ts *[2]syscall.Timespec, flag int) error {
		_, err := do(&op{name: "utimens", path: path1(dirfd, path), mut: true, exec: func(o *op) (int, error) {
			_, _, n, full, err := o.p.walkAt(dirfd, path, true)
			if err != nil {
				return -1, err
			}
			if ts != nil {
				n.mtime = ts[1].Sec
			}
			cur.mutated(o, "utimens", full)
			return 0, nil
		}})
		return err
	}
	sync := func(name string, fd int) error {
		_, err := do(&op{name: name, path: cur.me().fdpath(fd), fd: fd, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			cur.fs.fsync(d.n)
			return 0, nil
		}})
		return err
	}
	h.VFsync = func(fd int) error { return sync("fsync", fd) }
	h.VFdatasync = func(fd int) error { return sync("fdatasync", fd) }
	h.VSync = func() {
		do(&op{name: "sync", exec: func(o *op) (int, error) { cur.fs.syncAll(); return 0, nil }})
	}
	h.VFlock = func(fd int, how int) error {
		for {
			var busy bool
			_, err := do(&op{name: "flock", path: cur.me().fdpath(fd), fd: fd, exec: func(o *op) (int, error) {
				d := o.p.fds[fd]
				if d == nil {
					return -1, syscall.EBADF
				}
				if how&syscall.LOCK_UN != 0 {
					o.p.locks = nil
					return 0, nil
				}
				for _, q := range cur.procs {
					if q != o.p && !q.gone() {
						for _, l := range q.locks {
							if l == d.n {
								busy = true
								if how&syscall.LOCK_NB != 0 {
									return -1, syscall.EWOULDBLOCK
								}
								return 0, nil
							}
						}
					}
				}
				busy = false
				o.p.locks = append(o.p.locks, d.n)
				return 0, nil
			}})
			if err != nil || !busy {
				return err
			}
			cur.me().pause(10e6)
		}
	}
	h.VFallocate = func(fd int, mode uint32, off, ln int64) error { return syscall.EOPNOTSUPP }
	trunc := func(o *op, n *inode, length int64, path string) {
		nd := make([]byte, length)
		copy(nd, n.data)
		n.data = nd
		n.dirty = true
		cur.mutated(o, "truncate", path)
	}
	h.VFtruncate = func(fd int, length int64) error {
		_, err := do(&op{name: "ftruncate", path: cur.me().fdpath(fd), fd: fd, mut: true, exec: func(o *op) (int, error) {
			d := o.p.fds[fd]
			if d == nil || d.flags&3 == os.O_RDONLY {
				return -1, syscall.EBADF
			}
			trunc(o, d.n, length, d.path)
			return 0, nil
		}})
		return err
	}
	h.VTruncate = func(path string, length int64) error {
		_, err := do(&op{name: "truncate", path: path1(atFDCWD, path), mut: true, exec: func(o *op) (int, error) {
			_, _, n, full, err := o.p.walkAt(atFDCWD, path, true)
			if err != nil {
				return -1, err
			}
			for _, q := range cur.procs {
				if !q.gone() && q.exeNode == n {
					return -1, syscall.ETXTBSY
				}
			}
			trunc(o, n, length, full)
			return 0, nil
		}})
		return err
	}
	h.VGetcwd = func(buf []byte) (int, error) {
		p := cur.me()
		if p.gone() {
			p.die()
			return -1, syscall.EIO
		}
		n := copy(buf, p.cwd)
		if n < len(buf) {
			buf[n] = 0
		}
		return n + 1, nil
	}
	h.VChdir = func(path string) error {
		_, err := do(&op{name: "chdir", path: path1(atFDCWD, path), exec: func(o *op) (int, error) {
			_, _, n, full, err := o.p.walkAt(atFDCWD, path, true)
			if err != nil {
				return -1, err
			}
			if !n.isDir() {
				return -1, syscall.ENOTDIR
			}
			o.p.cwd = full
			return 0, nil
		}})
		return err
	}
	h.VFchdir = func(fd int) error {
		p := cur.me()
		d := p.fds[fd]
		if d == nil || !d.n.isDir() {
			return syscall.EBADF
		}
		p.cwd = d.path
		return nil
	}
	h.Vfcntl = func(fd, cmd, arg int) (int, error) {
		p := cur.me()
		if fd > 2 && p.fds[fd] == nil {
			return -1, syscall.EBADF
		}
		switch cmd {
		case syscall.F_GETFL:
			if fd <= 2 {
				return os.O_RDWR, nil
			}
			return p.fds[fd].flags, nil
		case syscall.F_SETFL:
			return -1, syscall.EINVAL // nothing here is pollable
		case syscall.F_GETFD:
			return 1, nil
		case syscall.F_SETFD:
			return 0, nil
		case syscall.F_DUPFD_CLOEXEC, syscall.F_DUPFD:
			if fd <= 2 {
				return -1, syscall.EINVAL
			}
			return p.newFd(p.fds[fd]), nil
		}
		return -1, syscall.EINVAL
	}
	h.VGetdents = func(fd int, buf []byte) (int, error) {
		p := cur.me()
		return do(&op{name: "getdents", path: p.fdpath(fd), fd: fd, size: len(buf), data: true, exec: func(o *op) (int, error) {
			w := cur
			d := o.p.fds[fd]
			if d == nil {
				return -1, syscall.EBADF
			}
			if !d.n.isDir() {
				return -1, syscall.ENOTDIR
			}
			if d.dirs == nil {
				names := sortedKeys(d.n.children)
				if w.benign || w.T.replay || true { // any directory order is legal
					for i := len(names) - 1; i > 0; i-- {
						j := w.rnd.n(i + 1)
						names[i], names[j] = names[j], names[i]
					}
				}
				d.dirs = append([]string{".", ".."}, names...)
				d.dirpos = 0
			}
			off := 0
			cnt := 0
			for d.dirpos < len(d.dirs) {
				nm := d.dirs[d.dirpos]
				rl := (19 + len(nm) + 1 + 7) &^ 7
				if off+rl > len(buf) {
					if cnt == 0 {
						return -1, syscall.EINVAL
					}
					break
				}
				if w.benign && cnt > 0 && w.rnd.n(4) == 0 || w.dents > 0 && cnt >= w.dents {
					break
				}
				typ := byte(4)
				ino := d.n.ino
				if nm != "." && nm != ".." {
					c := d.n.children[nm]
					if c == nil { // removed meanwhile
						d.dirpos++
						continue
					}
					ino = c.ino
					switch c.kind {
					case kFile:
						typ = 8
					case kLink:
						typ = 10
					case kDev:
						typ = 2
					}
				}
				if w.benign && w.rnd.n(8) == 0 {
					typ = 0
				}
				e := buf[off : off+rl]
				for i := range e {
					e[i] = 0
				}
				binary.LittleEndian.PutUint64(e, ino)
				binary.LittleEndian.PutUint64(e[8:], uint64(d.dirpos+1))
				binary.LittleEndian.PutUint16(e[16:], uint16(rl))
				e[18] = typ
				copy(e[19:], nm)
				off += rl
				cnt++
				d.dirpos++
			}
			return off, nil
		}})
	}
	h.VGetpid = func() int { return int(cur.me().id) + 1000 }
	h.VGetuid = func() int { return 0 }
	h.VGeteuid = func() int { return 0 }
	h.VUmask = func(mask int) int {
		p := cur.me()
		old := p.umask
		p.umask = uint32(mask)
		return int(old)
	}
	syscall.VerifH = h
	os.VerifExit = hookExit
	os.VerifExecutable = func() (string, error, bool) {
		if !simActive() {
			return "", nil, false
		}
		return cur.me().exe, nil, true
	}
	net.VerifDial = dialHook
	crand.VerifSetRead(func(b []byte) bool {
		if cur == nil || runtime.VerifProcID() == 0 {
			return false
		}
		copy(b, cur.rnd.bytes(len(b)))
		return true
	})
	installTerm()
	runtime.VerifSetPanicHook(hookPanic)
	runtime.VerifLeakMode(true)
}

func cleanAbs(p string) string {
	if !strings.Contains(p, "..") && !strings.Contains(p, "//") && !strings.Contains(p, "/./") {
		return p
	}
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	return "/" + strings.Join(st, "/")
}

// readStdin serves terminal or pipe input; it never parks, so that one
// simulated process cannot hold the shared os.Stdin lock of another.
func (p *Proc) readStdin(b []byte) (int, error) {
	if p.gone() {
		p.die()
		return -1, syscall.EIO
	}
	w := p.w
	if len(b) == 0 {
		return 0, nil
	}
	if p.inPos >= len(p.stdin) {
		if p.inErr == 0 && p.inTTY {
			p.inErr = syscall.EIO // the terminal is gone
		}
		if p.inErr != 0 {
			w.fault("stdin:" + errName(p.inErr))
			if p.readPast++; p.readPast > 5000 {
				w.overrun = true
				p.kill("step budget exhausted")
				p.die()
			}
			return -1, p.inErr
		}
		p.readPast++
		if p.readPast > 5000 {
			w.overrun = true
			p.kill("step budget exhausted")
			p.die()
		}
		return 0, nil
	}
	n := len(b)
	if rest := len(p.stdin) - p.inPos; n > rest {
		n = rest
	}
	if p.inChunk != nil {
		if c := p.inChunk(); c > 0 && c < n {
			n = c
		}
	}
	if p.inTTY { // canonical mode hands out at most one line
		for i := 0; i < n; i++ {
			if p.stdin[p.inPos+i] == '\n' {
				n = i + 1
				break
			}
			if p.stdin[p.inPos+i] == 4 { // Ctrl-D hands out what was typed so far
				if n = i; n == 0 {
					p.inPos++
					w.fault("stdin:ctrl-d")
					return 0, nil
				}
				break
			}
		}
	}
	copy(b, p.stdin[p.inPos:p.inPos+n])
	if p.inTTY && !p.noEcho {
		p.echoed = append(p.echoed, b[:n]...)
	}
	p.inPos += n
	return n, nil
}
