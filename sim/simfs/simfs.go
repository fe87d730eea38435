// Package simfs is the simulated disk: one POSIX-like file system per simulated
// machine ("world"), reached both through pebble's vfs.FS and through the
// system call hooks of the patched syscall package.
//
// The volatile state is what the running process sees. The durable state is
// what survives a crash: per file the content at the last fsync plus a prefix
// of the writes after it (the last one possibly torn), per directory the
// entries at the last fsync of the directory plus a prefix of the changes after
// it. A crash is a Clone of the durable state; the old process never runs its
// next file system call.
package simfs

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

type wop struct {
	off   int64
	data  []byte // nil: truncate to off
	trunc bool
}

type inode struct {
	id      int
	dir     bool
	data    []byte
	durable []byte
	pend    []wop // since the last fsync
	// directories
	ents  map[string]*inode
	dents map[string]*inode
	dpend []dop
	mtime int64
	isLog bool
}

type dop struct {
	name string
	ino  *inode // nil: removed
	rm   string // rename: this name disappears in the same change
}

// Fault makes file system calls fail. A fault is armed by the workload; from
// then on calls of the given kind on the given class are counted and those in
// [Skip, Skip+Count) fail.
type Fault struct {
	Kind  string `json:"kind"`  // read write sync create remove rename open list mkdir stat any-write
	Class string `json:"class"` // wal sst manifest marker version filter dump options dir other, or any
	Errno string `json:"errno"` // EIO ENOSPC EMFILE
	Skip  int    `json:"skip"`
	Count int    `json:"count"`
	Short bool   `json:"short,omitempty"` // writes: a prefix is written before the error
	Crash bool   `json:"crash,omitempty"` // the process dies here instead

	seen, fired int
}

// CrashSpec says what a crash keeps of the state that was never synced.
type CrashSpec struct {
	Mode string `json:"mode"` // none all prefix
	Seed uint64 `json:"seed"`
}

type FS struct {
	Name   string
	root   *inode
	nextID int
	locks  map[string]bool
	Ops    uint64
	dead   bool

	Faults  []*Fault
	CrashAt uint64 // number of the mutating call at which the process dies; 0: never
	Mut     uint64 // mutating calls so far
	// CrashSpec of the crash triggered by CrashAt or a crash fault
	Spec    CrashSpec
	OnCrash func(snapshot *FS, where string)

	DelayP   uint32 // of 2^32: an operation takes simulated time
	DelayMax int64
	rng      uint64

	Stat    *Stats
	handles map[*handle]bool // open ones
	// Trace, when set, is told every mutating call.
	Trace func(string)
}

// Stats is shared by all worlds of a run.
type Stats struct {
	Calls    uint64
	Fired    map[string]int
	Crashes  int
	Torn     int
	LostW    int
	LostD    int
	Delays   int
	Shielded int
	Hash     uint64
}

func NewStats() *Stats { return &Stats{Fired: map[string]int{}} }

func rnd(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func New(name string, st *Stats, seed uint64) *FS {
	fs := &FS{Name: name, Stat: st, locks: map[string]bool{}, rng: seed, handles: map[*handle]bool{}}
	fs.root = fs.newInode(true)
	for _, d := range []string{"sim", "tmp"} {
		ino := fs.newInode(true)
		fs.root.ents[d] = ino
		fs.root.dents[d] = ino
	}
	return fs
}

func (fs *FS) newInode(dir bool) *inode {
	fs.nextID++
	n := &inode{id: fs.nextID, dir: dir, mtime: time.Now().UnixNano()}
	if dir {
		n.ents = map[string]*inode{}
		n.dents = map[string]*inode{}
	}
	return n
}

func (fs *FS) Dead() bool { return fs.dead }

// Class of a path, for faults.
func Class(p string) string {
	b := path.Base(p)
	switch {
	case strings.Contains(p, "/dump"):
		return "dump"
	case strings.HasSuffix(b, ".log"):
		return "wal"
	case strings.HasSuffix(b, ".sst"):
		return "sst"
	case strings.HasPrefix(b, "MANIFEST"):
		return "manifest"
	case strings.HasPrefix(b, "marker.") || b == "CURRENT":
		return "marker"
	case strings.HasPrefix(b, "OPTIONS"):
		return "options"
	case strings.HasPrefix(b, "PEBBLE_FORMAT_VERSION"):
		return "version"
	case strings.Contains(p, "/filter"):
		return "filter"
	}
	return "other"
}

func park() {
	select {}
}

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES}

// enter is called at the start of every file system call; it returns the
// injected error, if any.
func (fs *FS) enter(kind, p string, mutating bool) *Fault {
	runtime.SimYield(3)
	if fs.dead {
		park()
	}
	fs.Ops++
	fs.Stat.Calls++
	if fs.DelayP != 0 {
		x := rnd(&fs.rng)
		if uint32(x) < fs.DelayP {
			fs.Stat.Delays++
			time.Sleep(time.Duration(int64(x>>33) % fs.DelayMax))
			if fs.dead {
				park()
			}
		}
	}
	if mutating {
		fs.Mut++
		fs.Stat.Hash = (fs.Stat.Hash ^ hashStr(kind+p)) * 0x100000001b3
		if fs.Trace != nil {
			fs.Trace(fmt.Sprintf("%d %s %s", fs.Mut, kind, p))
		}
		if fs.CrashAt != 0 && fs.Mut == fs.CrashAt {
			fs.CrashNow("call " + kind + " " + Class(p))
			park()
		}
	}
	for _, f := range fs.Faults {
		if f.Kind != kind && !(f.Kind == "any-write" && mutating) {
			continue
		}
		cl := Class(p)
		if f.Class != "any" && f.Class != cl {
			continue
		}
		f.seen++
		if (kind == "read" || kind == "open") && f.seen > f.Skip && f.seen <= f.Skip+f.Count && inCompaction() {
			// the engine's compactions lose rows on read errors, whoever uses it
			f.seen--
			fs.Stat.Shielded++
			continue
		}
		if f.seen > f.Skip && f.seen <= f.Skip+f.Count {
			f.fired++
			if f.Crash {
				if kind == "write" {
					return f // write applies a part first
				}
				fs.Stat.Fired["crash@"+kind+"/"+cl]++
				fs.CrashNow("fault " + kind + " " + cl)
				park()
			}
			fs.Stat.Fired[kind+"/"+cl+"/"+f.Errno]++
			if fs.Trace != nil {
				buf := make([]byte, 8000)
				fs.Trace("fault fires\n" + string(buf[:runtime.Stack(buf, false)]))
			}
			return f
		}
	}
	return nil
}

// inCompaction: the caller is a compaction or a flush of the storage engine.
func inCompaction() bool {
	var pcs [64]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fr.Next()
		switch {
		case strings.HasSuffix(f.Function, "pebble.(*DB).compact"), strings.HasSuffix(f.Function, "pebble.(*DB).flush"),
			strings.HasSuffix(f.Function, "pebble.(*DB).runCompaction"):
			return true
		}
		if !more {
			return false
		}
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func (f *Fault) errno() syscall.Errno {
	if e, ok := errnos[f.Errno]; ok {
		return e
	}
	return syscall.EIO
}

func (f *Fault) Fired() int { return f.fired }

// CrashNow kills the process: the durable state becomes a new file system and
// this one never answers again.
func (fs *FS) CrashNow(where string) {
	if fs.dead {
		return
	}
	fs.dead = true
	fs.Stat.Crashes++
	snap := fs.Clone(fs.Spec)
	if fs.OnCrash != nil {
		fs.OnCrash(snap, where)
	}
}

// Kill marks the file system dead without a snapshot.
func (fs *FS) Kill() { fs.dead = true }

// Clone returns the state after a crash at this instant.
func (fs *FS) Clone(spec CrashSpec) *FS {
	n := &FS{Name: fs.Name + "'", Stat: fs.Stat, locks: map[string]bool{}, handles: map[*handle]bool{}, rng: spec.Seed ^ 0x5bd1e995,
		nextID: fs.nextID, DelayP: fs.DelayP, DelayMax: fs.DelayMax, Trace: fs.Trace}
	seed := spec.Seed
	seen := map[*inode]*inode{}
	var cl func(o *inode, name string) *inode
	cl = func(o *inode, name string) *inode {
		if c, ok := seen[o]; ok {
			return c
		}
		c := &inode{id: o.id, dir: o.dir, mtime: o.mtime}
		seen[o] = c
		if o.dir {
			ents := map[string]*inode{}
			for k, v := range o.dents {
				ents[k] = v
			}
			keep := len(o.dpend)
			switch spec.Mode {
			case "none":
				keep = 0
			case "prefix":
				x := rnd(&seed)
				switch x % 3 {
				case 0:
					keep = 0
				case 1:
				default:
					keep = int((x >> 8) % uint64(len(o.dpend)+1))
				}
			}
			fs.Stat.LostD += len(o.dpend) - keep
			for _, d := range o.dpend[:keep] {
				if d.ino == nil {
					delete(ents, d.name)
				} else {
					ents[d.name] = d.ino
				}
				if d.rm != "" {
					delete(ents, d.rm)
				}
			}
			names := make([]string, 0, len(ents))
			for k := range ents {
				names = append(names, k)
			}
			sort.Strings(names)
			c.ents = map[string]*inode{}
			c.dents = map[string]*inode{}
			for _, k := range names {
				v := cl(ents[k], k)
				c.ents[k] = v
				c.dents[k] = v
			}
			return c
		}
		data := append([]byte(nil), o.durable...)
		keep := len(o.pend)
		torn := -1
		switch spec.Mode {
		case "none":
			keep = 0
		case "prefix":
			x := rnd(&seed)
			switch x % 4 {
			case 0:
				keep = 0
			case 1:
			default:
				keep = int((x >> 8) % uint64(len(o.pend)+1))
				if keep < len(o.pend) && !o.pend[keep].trunc && x%4 == 3 && len(o.pend[keep].data) > 0 {
					torn = int((x >> 32) % uint64(len(o.pend[keep].data)))
				}
			}
		}
		fs.Stat.LostW += len(o.pend) - keep
		for _, w := range o.pend[:keep] {
			data = apply(data, w)
		}
		if torn > 0 {
			w := o.pend[keep]
			data = apply(data, wop{off: w.off, data: w.data[:torn]})
			fs.Stat.Torn++
		}
		// Pebble refuses a MANIFEST that ends inside a record of several blocks.
		if Class(name) == "manifest" && len(data)>>15 > len(o.durable)>>15 {
			data = append([]byte(nil), o.durable...)
		}
		c.data = data
		c.durable = append([]byte(nil), data...)
		return c
	}
	n.root = cl(fs.root, "")
	return n
}

// Copy returns an exact copy of the visible state, all of it durable (a clean
// machine stop).
func (fs *FS) Copy() *FS {
	return fs.Clone(CrashSpec{Mode: "all"})
}

func apply(data []byte, w wop) []byte {
	if w.trunc {
		if int64(len(data)) > w.off {
			return data[:w.off]
		}
		for int64(len(data)) < w.off {
			data = append(data, 0)
		}
		return data
	}
	end := w.off + int64(len(w.data))
	if int64(len(data)) < end {
		if int64(cap(data)) >= end {
			old := len(data)
			data = data[:end]
			for i := old; i < len(data); i++ {
				data[i] = 0
			}
		} else {
			nd := make([]byte, end, end+end/2)
			copy(nd, data)
			data = nd
		}
	}
	copy(data[w.off:], w.data)
	return data
}

// --- namespace --------------------------------------------------------------

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (fs *FS) lookup(p string) *inode {
	n := fs.root
	for _, c := range split(p) {
		if n == nil || !n.dir {
			return nil
		}
		n = n.ents[c]
	}
	return n
}

func (fs *FS) parent(p string) (*inode, string) {
	c := split(p)
	if len(c) == 0 {
		return nil, ""
	}
	n := fs.root
	for _, x := range c[:len(c)-1] {
		if n == nil || !n.dir {
			return nil, ""
		}
		n = n.ents[x]
	}
	if n == nil || !n.dir {
		return nil, ""
	}
	return n, c[len(c)-1]
}

func set(d *inode, name string, ino *inode) {
	if ino == nil {
		delete(d.ents, name)
	} else {
		d.ents[name] = ino
	}
	d.dpend = append(d.dpend, dop{name: name, ino: ino})
}

func perr(op, p string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: p, Err: e}
}

// handle is an open file description.
type handle struct {
	fs     *FS
	ino    *inode
	path   string
	off    int64
	append bool
	write  bool
	dirpos int
	names  []string
	closed bool
}

func (fs *FS) open(p string, flags int) (*handle, syscall.Errno) {
	wr := flags&(os.O_WRONLY|os.O_RDWR) != 0
	create := flags&os.O_CREATE != 0
	ino := fs.lookup(p)
	kind := "open"
	mut := false
	if (ino == nil && create) || (flags&os.O_TRUNC != 0 && wr) {
		kind = "create"
		mut = true
	}
	if f := fs.enter(kind, p, mut); f != nil {
		return nil, f.errno()
	}
	ino = fs.lookup(p)
	if ino == nil {
		if !create {
			return nil, syscall.ENOENT
		}
		d, name := fs.parent(p)
		if d == nil {
			return nil, syscall.ENOENT
		}
		ino = fs.newInode(false)
		set(d, name, ino)
	} else if create && flags&os.O_EXCL != 0 {
		return nil, syscall.EEXIST
	}
	if ino.dir && wr {
		return nil, syscall.EISDIR
	}
	if flags&os.O_TRUNC != 0 && wr && len(ino.data) > 0 {
		ino.truncate(0)
	}
	h := &handle{fs: fs, ino: ino, path: p, append: flags&os.O_APPEND != 0, write: wr}
	fs.handles[h] = true
	return h, 0
}

func (h *handle) close() {
	h.closed = true
	delete(h.fs.handles, h)
}

// OpenFiles lists the paths of open files and locks.
func (fs *FS) OpenFiles() []string {
	var l []string
	for h := range fs.handles {
		l = append(l, h.path)
	}
	for p, on := range fs.locks {
		if on {
			l = append(l, "lock "+p)
		}
	}
	sort.Strings(l)
	return l
}

func (n *inode) truncate(sz int64) {
	w := wop{off: sz, trunc: true}
	n.data = apply(n.data, w)
	n.pend = append(n.pend, w)
	n.mtime = time.Now().UnixNano()
}

func (h *handle) pread(p []byte, off int64) (int, syscall.Errno) {
	if f := h.fs.enter("read", h.path, false); f != nil {
		return 0, f.errno()
	}
	if h.ino.dir {
		return 0, syscall.EISDIR
	}
	if off >= int64(len(h.ino.data)) {
		return 0, 0
	}
	return copy(p, h.ino.data[off:]), 0
}

func (h *handle) pwrite(p []byte, off int64) (int, syscall.Errno) {
	f := h.fs.enter("write", h.path, true)
	if f != nil {
		n := 0
		if f.Short || f.Crash {
			n = len(p) / 2
			h.doWrite(p[:n], off)
		}
		if f.Crash {
			h.fs.Stat.Fired["crash@write/"+Class(h.path)]++
			h.fs.CrashNow("fault write " + Class(h.path))
			park()
		}
		if n > 0 {
			return n, 0 // short write
		}
		return 0, f.errno()
	}
	return h.doWrite(p, off), 0
}

func (h *handle) doWrite(p []byte, off int64) int {
	if len(p) == 0 {
		return 0
	}
	w := wop{off: off, data: append([]byte(nil), p...)}
	h.ino.data = apply(h.ino.data, w)
	h.ino.pend = append(h.ino.pend, w)
	h.ino.mtime = time.Now().UnixNano()
	return len(p)
}

func (h *handle) sync() syscall.Errno {
	if f := h.fs.enter("sync", h.path, true); f != nil {
		return f.errno()
	}
	n := h.ino
	if n.dir {
		n.syncDir()
	} else {
		for _, w := range n.pend {
			n.durable = apply(n.durable, w)
		}
		n.pend = nil
	}
	// a completed sync may be observed by others
	runtime.SimYield(3)
	if h.fs.dead {
		park()
	}
	return 0
}

func (fs *FS) unlink(p string, dir bool) syscall.Errno {
	if f := fs.enter("remove", p, true); f != nil {
		return f.errno()
	}
	d, name := fs.parent(p)
	if d == nil {
		return syscall.ENOENT
	}
	ino := d.ents[name]
	switch {
	case ino == nil:
		return syscall.ENOENT
	case dir && !ino.dir:
		return syscall.ENOTDIR
	case !dir && ino.dir:
		return syscall.EISDIR
	case dir && len(ino.ents) > 0:
		return syscall.ENOTEMPTY
	}
	set(d, name, nil)
	return 0
}

func (fs *FS) mkdir(p string) syscall.Errno {
	if f := fs.enter("mkdir", p, true); f != nil {
		return f.errno()
	}
	d, name := fs.parent(p)
	if d == nil {
		return syscall.ENOENT
	}
	if d.ents[name] != nil {
		return syscall.EEXIST
	}
	set(d, name, fs.newInode(true))
	return 0
}

func (fs *FS) rename(o, n string) syscall.Errno {
	if f := fs.enter("rename", n, true); f != nil {
		return f.errno()
	}
	od, on := fs.parent(o)
	nd, nn := fs.parent(n)
	if od == nil || nd == nil || od.ents[on] == nil {
		return syscall.ENOENT
	}
	ino := od.ents[on]
	if t := nd.ents[nn]; t != nil && t.dir && len(t.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	if od == nd && on == nn {
		return 0
	}
	if od == nd {
		// one atomic change of the directory
		delete(od.ents, on)
		nd.ents[nn] = ino
		od.dpend = append(od.dpend, dop{name: nn, ino: ino, rm: on})
		return 0
	}
	set(nd, nn, ino)
	set(od, on, nil)
	return 0
}

func (fs *FS) link(o, n string) syscall.Errno {
	if f := fs.enter("create", n, true); f != nil {
		return f.errno()
	}
	ino := fs.lookup(o)
	nd, nn := fs.parent(n)
	if ino == nil || nd == nil {
		return syscall.ENOENT
	}
	if nd.ents[nn] != nil {
		return syscall.EEXIST
	}
	set(nd, nn, ino)
	return 0
}

func (fs *FS) list(p string) ([]string, syscall.Errno) {
	if f := fs.enter("list", p, false); f != nil {
		return nil, f.errno()
	}
	n := fs.lookup(p)
	if n == nil {
		return nil, syscall.ENOENT
	}
	if !n.dir {
		return nil, syscall.ENOTDIR
	}
	var r []string
	for k := range n.ents {
		r = append(r, k)
	}
	sort.Strings(r)
	return r, 0
}

// --- harness access (no faults, no yields) -----------------------------------

// Files lists every file below p with its size.
func (fs *FS) Files(p string) map[string]int {
	r := map[string]int{}
	var walk func(q string, n *inode)
	walk = func(q string, n *inode) {
		if n == nil {
			return
		}
		if !n.dir {
			r[q] = len(n.data)
			return
		}
		for k, v := range n.ents {
			walk(q+"/"+k, v)
		}
	}
	walk(p, fs.lookup(p))
	return r
}

func (fs *FS) Exists(p string) bool { return fs.lookup(p) != nil }

// ReadAll returns the visible content of a file.
func (fs *FS) ReadAll(p string) ([]byte, bool) {
	n := fs.lookup(p)
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Put creates a durable file (set-up by the harness).
func (fs *FS) Put(p string, data []byte) {
	d := fs.root
	c := split(p)
	for _, x := range c[:len(c)-1] {
		n := d.ents[x]
		if n == nil {
			n = fs.newInode(true)
			d.ents[x], d.dents[x] = n, n
		}
		d = n
	}
	n := fs.newInode(false)
	n.data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	d.ents[c[len(c)-1]], d.dents[c[len(c)-1]] = n, n
}

type finfo struct {
	name string
	n    *inode
}

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return int64(len(i.n.data)) }
func (i finfo) ModTime() time.Time { return time.Unix(0, i.n.mtime) }
func (i finfo) IsDir() bool        { return i.n.dir }
func (i finfo) Sys() any           { return nil }
func (i finfo) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0o755
	}
	return 0o644
}

var _ = errors.New
var _ = io.EOF

// SyncTree makes everything below p durable, p's own name included (an operator
// who runs sync).
func (fs *FS) SyncTree(p string) {
	var walk func(n *inode)
	walk = func(n *inode) {
		if n == nil {
			return
		}
		if !n.dir {
			n.durable = append([]byte(nil), n.data...)
			n.pend = nil
			return
		}
		n.syncDir()
		for _, v := range n.ents {
			walk(v)
		}
	}
	c := split(p)
	d := fs.root
	for _, x := range c[:len(c)-1] {
		if d = d.ents[x]; d == nil {
			return
		}
	}
	d.syncDir()
	walk(d.ents[c[len(c)-1]])
}

func (n *inode) syncDir() {
	n.dents = map[string]*inode{}
	for k, v := range n.ents {
		n.dents[k] = v
	}
	n.dpend = nil
}

// TreeHash is the hash of names and contents of all files below p.
func (fs *FS) TreeHash(p string) uint64 {
	var h uint64
	for k := range fs.Files(p) {
		b, _ := fs.ReadAll(k)
		x := hashStr(k)
		for _, c := range b {
			x = (x ^ uint64(c)) * 0x100000001b3
		}
		h += x | 1
	}
	return h
}
