package simfs

import (
	"encoding/binary"
	"os"
	"syscall"
)

// Sys is the simulated disk at system call level (everything that goes through
// package os).
type Sys struct {
	Cur func() *FS
	fds map[int]*handle
	nfd int
	out []byte
}

// OutFd takes what is printed, instead of the standard output.
const OutFd = syscall.SimFdBase

// Printed returns what was printed since the last call.
func (s *Sys) Printed() []byte {
	o := s.out
	s.out = nil
	return o
}

var _ syscall.SimHooks = (*Sys)(nil)

func NewSys(cur func() *FS) *Sys { return &Sys{Cur: cur, fds: map[int]*handle{}} }

func er(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func (s *Sys) get(fd int) *handle { return s.fds[fd] }

func (s *Sys) FdPath(fd int) string {
	if h := s.get(fd); h != nil {
		return h.path
	}
	return "/nonexistent"
}

func (s *Sys) Open(p string, flags int, mode uint32) (int, error) {
	h, e := s.Cur().open(p, flags&(syscall.O_ACCMODE|os.O_CREATE|os.O_EXCL|os.O_TRUNC|os.O_APPEND))
	if e != 0 {
		return -1, e
	}
	if flags&syscall.O_DIRECTORY != 0 && !h.ino.dir {
		return -1, syscall.ENOTDIR
	}
	s.nfd++
	fd := syscall.SimFdBase + s.nfd
	s.fds[fd] = h
	return fd, nil
}

func (s *Sys) Access(p string) error {
	if s.Cur().lookup(p) == nil {
		return syscall.ENOENT
	}
	return nil
}

func (s *Sys) Unlink(p string, dir bool) error   { return er(s.Cur().unlink(p, dir)) }
func (s *Sys) Mkdir(p string, mode uint32) error { return er(s.Cur().mkdir(p)) }
func (s *Sys) Link(o, n string) error            { return er(s.Cur().link(o, n)) }
func (s *Sys) Rename(o, n string) error          { return er(s.Cur().rename(o, n)) }

func (s *Sys) Truncate(p string, length int64) error {
	fs := s.Cur()
	if f := fs.enter("write", p, true); f != nil {
		return f.errno()
	}
	n := fs.lookup(p)
	if n == nil {
		return syscall.ENOENT
	}
	n.truncate(length)
	return nil
}

func fill(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: uint64(n.id), Nlink: 1, Size: int64(len(n.data)), Dev: 7, Blksize: 4096}
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	if n.dir {
		st.Mode = syscall.S_IFDIR | 0o755
	} else {
		st.Mode = syscall.S_IFREG | 0o644
	}
}

func (s *Sys) Stat(p string, st *syscall.Stat_t) error {
	fs := s.Cur()
	if f := fs.enter("stat", p, false); f != nil {
		return f.errno()
	}
	n := fs.lookup(p)
	if n == nil {
		// distinguish ENOTDIR the way the kernel does
		return syscall.ENOENT
	}
	fill(n, st)
	return nil
}

func (s *Sys) Close(fd int) error {
	h := s.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	if h.fs.dead {
		park()
	}
	delete(s.fds, fd)
	h.close()
	return nil
}

func (s *Sys) Fsync(fd int) error {
	h := s.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	return er(h.sync())
}

func (s *Sys) Getdents(fd int, buf []byte) (int, error) {
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	if !h.ino.dir {
		return -1, syscall.ENOTDIR
	}
	if h.names == nil {
		names, e := h.fs.list(h.path)
		if e != 0 {
			return -1, e
		}
		h.names = append([]string{}, names...)
	}
	n := 0
	for h.dirpos < len(h.names) {
		name := h.names[h.dirpos]
		ino := h.ino.ents[name]
		reclen := (19 + len(name) + 1 + 7) &^ 7
		if n+reclen > len(buf) {
			break
		}
		h.dirpos++
		if ino == nil {
			continue
		}
		b := buf[n : n+reclen]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b[0:], uint64(ino.id))
		binary.LittleEndian.PutUint64(b[8:], uint64(h.dirpos))
		binary.LittleEndian.PutUint16(b[16:], uint16(reclen))
		b[18] = syscall.DT_REG
		if ino.dir {
			b[18] = syscall.DT_DIR
		}
		copy(b[19:], name)
		n += reclen
	}
	return n, nil
}

func (s *Sys) Read(fd int, p []byte) (int, error) {
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	n, e := h.pread(p, h.off)
	if e != 0 {
		return -1, e
	}
	h.off += int64(n)
	return n, nil
}

func (s *Sys) Write(fd int, p []byte) (int, error) {
	if fd == OutFd {
		s.out = append(s.out, p...)
		return len(p), nil
	}
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	if h.append {
		h.off = int64(len(h.ino.data))
	}
	n, e := h.pwrite(p, h.off)
	if e != 0 {
		return -1, e
	}
	h.off += int64(n)
	return n, nil
}

func (s *Sys) Pread(fd int, p []byte, off int64) (int, error) {
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	n, e := h.pread(p, off)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func (s *Sys) Pwrite(fd int, p []byte, off int64) (int, error) {
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	n, e := h.pwrite(p, off)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func (s *Sys) Fstat(fd int, st *syscall.Stat_t) error {
	h := s.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	fill(h.ino, st)
	return nil
}

func (s *Sys) Ftruncate(fd int, length int64) error {
	h := s.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	if f := h.fs.enter("write", h.path, true); f != nil {
		return f.errno()
	}
	h.ino.truncate(length)
	return nil
}

func (s *Sys) Seek(fd int, off int64, whence int) (int64, error) {
	h := s.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case 0:
		h.off = off
	case 1:
		h.off += off
	case 2:
		h.off = int64(len(h.ino.data)) + off
	}
	if h.ino.dir && off == 0 {
		h.dirpos, h.names = 0, nil
	}
	return h.off, nil
}
