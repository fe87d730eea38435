package simfs

import (
	"io"
	"os"
	"path"
	"syscall"

	"github.com/cockroachdb/errors"
	"github.com/cockroachdb/pebble/vfs"
)

// VFS is the simulated disk as pebble sees it. When fs is nil the disk of the
// calling goroutine's world is used.
type VFS struct{ Cur func() *FS }

var _ vfs.FS = (*VFS)(nil)

type file struct{ h *handle }

func e2(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return perr(op, p, e)
}

func (v VFS) fs() *FS { return v.Cur() }

func (v VFS) Create(name string) (vfs.File, error) {
	fs := v.fs()
	if f := fs.enter("create", name, true); f != nil {
		return nil, perr("open", name, f.errno())
	}
	d, n := fs.parent(name)
	if d == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	ino := fs.newInode(false)
	set(d, n, ino)
	return file{&handle{fs: fs, ino: ino, path: name, write: true}}, nil
}

func (v VFS) Link(o, n string) error { return e2("link", n, v.fs().link(o, n)) }

func (v VFS) Open(name string, opts ...vfs.OpenOption) (vfs.File, error) {
	h, e := v.fs().open(name, os.O_RDONLY)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return file{h}, nil
}

func (v VFS) OpenReadWrite(name string, opts ...vfs.OpenOption) (vfs.File, error) {
	h, e := v.fs().open(name, os.O_RDWR|os.O_CREATE)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return file{h}, nil
}

func (v VFS) OpenDir(name string) (vfs.File, error) {
	h, e := v.fs().open(name, os.O_RDONLY)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return file{h}, nil
}

func (v VFS) Remove(name string) error {
	fs := v.fs()
	ino := fs.lookup(name)
	return e2("remove", name, fs.unlink(name, ino != nil && ino.dir))
}

func (v VFS) RemoveAll(name string) error {
	fs := v.fs()
	ino := fs.lookup(name)
	if ino == nil {
		return nil
	}
	if ino.dir {
		names, e := fs.list(name)
		if e != 0 {
			return perr("removeall", name, e)
		}
		for _, n := range names {
			if err := v.RemoveAll(path.Join(name, n)); err != nil {
				return err
			}
		}
	}
	return v.Remove(name)
}

func (v VFS) Rename(o, n string) error { return e2("rename", n, v.fs().rename(o, n)) }

func (v VFS) ReuseForWrite(o, n string) (vfs.File, error) {
	if err := v.Rename(o, n); err != nil {
		return nil, err
	}
	h, e := v.fs().open(n, os.O_RDWR)
	if e != 0 {
		return nil, perr("open", n, e)
	}
	return file{h}, nil
}

func (v VFS) MkdirAll(dir string, perm os.FileMode) error {
	fs := v.fs()
	p := ""
	for _, c := range split(dir) {
		p += "/" + c
		ino := fs.lookup(p)
		if ino != nil {
			if !ino.dir {
				return perr("mkdir", p, syscall.ENOTDIR)
			}
			continue
		}
		if e := fs.mkdir(p); e != 0 && e != syscall.EEXIST {
			return perr("mkdir", p, e)
		}
	}
	return nil
}

type lockCloser struct {
	fs   *FS
	name string
}

func (l lockCloser) Close() error {
	delete(l.fs.locks, l.name)
	return nil
}

func (v VFS) Lock(name string) (io.Closer, error) {
	fs := v.fs()
	if f := fs.enter("lock", name, false); f != nil {
		return nil, perr("lock", name, f.errno())
	}
	if fs.locks[name] {
		return nil, errors.Newf("lock held by current process")
	}
	h, e := fs.open(name, os.O_RDWR|os.O_CREATE)
	if e != 0 {
		return nil, perr("lock", name, e)
	}
	h.close()
	fs.locks[name] = true
	return lockCloser{fs, name}, nil
}

func (v VFS) List(dir string) ([]string, error) {
	r, e := v.fs().list(dir)
	return r, e2("list", dir, e)
}

func (v VFS) Stat(name string) (os.FileInfo, error) {
	fs := v.fs()
	if f := fs.enter("stat", name, false); f != nil {
		return nil, perr("stat", name, f.errno())
	}
	n := fs.lookup(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(name), n}, nil
}

func (v VFS) PathBase(p string) string       { return path.Base(p) }
func (v VFS) PathJoin(elem ...string) string { return path.Join(elem...) }
func (v VFS) PathDir(p string) string        { return path.Dir(p) }
func (v VFS) GetDiskUsage(p string) (vfs.DiskUsage, error) {
	return vfs.DiskUsage{AvailBytes: 1 << 40, TotalBytes: 1 << 41, UsedBytes: 1 << 40}, nil
}

func (f file) Close() error {
	if f.h.fs.dead {
		park()
	}
	if f.h.closed {
		return perr("close", f.h.path, syscall.EBADF)
	}
	f.h.close()
	return nil
}

func (f file) Read(p []byte) (int, error) {
	n, e := f.h.pread(p, f.h.off)
	if e != 0 {
		return 0, perr("read", f.h.path, e)
	}
	f.h.off += int64(n)
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f file) ReadAt(p []byte, off int64) (int, error) {
	n, e := f.h.pread(p, off)
	if e != 0 {
		return 0, perr("read", f.h.path, e)
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// os.File.Write turns a short write into further writes or an error.
func (f file) writeAll(p []byte, off int64) (int, error) {
	done := 0
	for done < len(p) {
		n, e := f.h.pwrite(p[done:], off+int64(done))
		if e != 0 {
			return done, perr("write", f.h.path, e)
		}
		if n == 0 {
			return done, io.ErrUnexpectedEOF
		}
		done += n
	}
	return done, nil
}

func (f file) Write(p []byte) (int, error) {
	n, err := f.writeAll(p, f.h.off)
	f.h.off += int64(n)
	return n, err
}

func (f file) WriteAt(p []byte, off int64) (int, error) { return f.writeAll(p, off) }

func (f file) Preallocate(off, length int64) error { return nil }
func (f file) Stat() (os.FileInfo, error) {
	return finfo{path.Base(f.h.path), f.h.ino}, nil
}
func (f file) Sync() error     { return e2("sync", f.h.path, f.h.sync()) }
func (f file) SyncData() error { return f.Sync() }
func (f file) SyncTo(length int64) (bool, error) {
	if f.h.fs.dead {
		park()
	}
	return false, nil
}
func (f file) Prefetch(off, length int64) error { return nil }
func (f file) Fd() uintptr                      { return vfs.InvalidFd }
