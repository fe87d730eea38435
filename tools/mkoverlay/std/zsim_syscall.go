package syscall

// File system seam of the simulator: while SimH is set every path, and every
// descriptor from SimFdBase upwards, belongs to the simulated disk.

const SimFdBase = 1 << 20

type SimHooks interface {
	FdPath(fd int) string
	Open(path string, flags int, mode uint32) (int, error)
	Access(path string) error
	Unlink(path string, dir bool) error
	Mkdir(path string, mode uint32) error
	Link(oldpath, newpath string) error
	Rename(oldpath, newpath string) error
	Truncate(path string, length int64) error
	Stat(path string, st *Stat_t) error
	Close(fd int) error
	Fsync(fd int) error
	Getdents(fd int, buf []byte) (int, error)
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Fstat(fd int, st *Stat_t) error
	Ftruncate(fd int, length int64) error
	Seek(fd int, off int64, whence int) (int64, error)
}

var SimH SimHooks

// While SimH is set the simulated disk is the only one there is.
func simPath(p string) bool { return SimH != nil }

func simFd(fd int) bool { return fd >= SimFdBase }

func simAt(dirfd int, path string) (string, bool) {
	if SimH == nil {
		return "", false
	}
	if len(path) > 0 && path[0] == '/' {
		return path, true
	}
	if dirfd >= SimFdBase {
		return SimH.FdPath(dirfd) + "/" + path, true
	}
	// the simulated process runs in /sim
	return "/sim/" + path, true
}

func SimAt(dirfd int, path string) (SimHooks, string, bool) {
	p, ok := simAt(dirfd, path)
	return SimH, p, ok
}
