package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type patch struct {
	path string
	text string
}

func open(rel string) *patch {
	p := filepath.Join(*goroot, "src", rel)
	b, err := os.ReadFile(p)
	check(err)
	return &patch{path: p, text: string(b)}
}

// rep replaces exactly n occurrences, or fails loudly.
func (p *patch) rep(old, new string, n int) *patch {
	if c := strings.Count(p.text, old); c != n {
		die("%s: %d occurrences of %q, expected %d", p.path, c, old, n)
	}
	p.text = strings.ReplaceAll(p.text, old, new)
	return p
}

// body inserts code at the start of the body of the function whose
// declaration line matches the (quoted) header.
func (p *patch) body(header, code string) *patch {
	return p.rep(header+"\n", header+"\n"+code+"\n", 1)
}

func (p *patch) save() { emit(p.path, []byte(p.text)) }

// hookFn inserts a prologue into the (generated) function with this name.
func (p *patch) hookFn(name, prologue string) *patch {
	re := regexp.MustCompile(`(?m)^func ` + name + `\(.*\{\n`)
	loc := re.FindAllStringIndex(p.text, -1)
	if len(loc) != 1 {
		die("%s: func %s found %d times", p.path, name, len(loc))
	}
	p.text = p.text[:loc[0][1]] + "\tif SimH != nil {\n\t\t" + prologue + "\n\t}\n" + p.text[loc[0][1]:]
	return p
}

func patchStd() {
	// --- runtime ---------------------------------------------------------
	open("runtime/proc.go").
		rep("if GOARCH != \"wasm\" { // no threads on wasm yet, so no sysmon", "if false {", 1).
		rep("\tprocs := ncpu\n", "\tprocs := int32(1)\n", 1).
		rep("if n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); ok && n > 0 {", "if n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); false && ok && n > 0 {", 1).
		body("func runqempty(pp *p) bool {", "\tif simqn+simstn != 0 {\n\t\treturn false\n\t}").
		body("func runqput(pp *p, gp *g, next bool) {", "\tif simOn {\n\t\tsimqput(gp)\n\t\treturn\n\t}").
		body("func runqputbatch(pp *p, q *gQueue, qsize int) {", "\tif simOn {\n\t\tfor !q.empty() {\n\t\t\tsimqput(q.pop())\n\t\t}\n\t\treturn\n\t}").
		body("func globrunqput(gp *g) {", "\tif simOn {\n\t\tsimqput(gp)\n\t\treturn\n\t}").
		body("func globrunqputhead(gp *g) {", "\tif simOn {\n\t\tsimqput(gp)\n\t\treturn\n\t}").
		body("func globrunqputbatch(batch *gQueue, n int32) {", "\tif simOn {\n\t\tfor !batch.empty() {\n\t\t\tsimqput(batch.pop())\n\t\t}\n\t\treturn\n\t}").
		rep("\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {",
			"\tif simOn {\n\t\tif gp := simpick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {", 1).
		rep("\t// return P and block\n\tlock(&sched.lock)\n\tif sched.gcwaiting.Load()",
			"\tif simOn && pollUntil != 0 && sched.runqsize == 0 {\n\t\tsimjump(pollUntil)\n\t\tgoto top\n\t}\n\t// return P and block\n\tlock(&sched.lock)\n\tif sched.gcwaiting.Load()", 1).
		rep("\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.simWorld = callergp.simWorld\n", 1).
		rep("stealOrder.start(fastrand())", "stealOrder.start(simsysrandn(1<<31))", 1).
		rep("newg.trackingSeq = uint8(fastrand())", "newg.trackingSeq = uint8(simsysrandn(256))", 1).
		rep("\tgetRandomData(s)\n", "\tfor i := range s {\n\t\ts[i] = byte(i*37 + 11)\n\t}\n", 1).
		save()
	open("runtime/runtime2.go").
		rep("\tparentGoid    uint64  ", "\tsimWorld       uint64\n\tparentGoid    uint64  ", 1).
		save()
	open("runtime/os_linux.go").
		rep("\tncpu = getproccount()\n", "\tncpu = 4\n", 1).
		rep("\tif startupRandomData != nil {\n\t\tn := copy(r, startupRandomData)\n\t\textendRandom(r, n)\n\t\treturn\n\t}\n",
			"\tfor i := range r {\n\t\tr[i] = byte(i*101 + 7)\n\t}\n\tif len(r) >= 0 {\n\t\treturn\n\t}\n", 1).
		save()
	open("runtime/mgcpacer.go").
		rep("fastrandn(uint32(gomaxprocs - 1))", "simsysrandn(uint32(gomaxprocs - 1))", 1).
		body("func readGOGC() int32 {", "\tif true {\n\t\treturn -1\n\t}").
		save()
	open("runtime/stubs.go").
		body("func fastrand() uint32 {", "\tif simOn {\n\t\treturn uint32(simrand(&simRandState) >> 32)\n\t}").
		body("func fastrand64() uint64 {", "\tif simOn {\n\t\treturn simrand(&simRandState)\n\t}").
		save()
	// What the runtime draws for itself (caches, samples, work stealing) depends
	// on real time, so it must not come out of the simulated stream.
	open("runtime/symtab.go").
		rep("fastrandn(uint32(len(cache.entries[x])))", "simsysrandn(uint32(len(cache.entries[x])))", 1).
		save()
	open("runtime/malloc.go").
		rep("fastrandn(1<<randomBitCount)", "simsysrandn(1<<randomBitCount)", 1).
		rep("fastrandn(uint32(2 * rate))", "simsysrandn(uint32(2 * rate))", 1).
		save()
	open("runtime/mprof.go").
		rep("int64(fastrand())%rate", "int64(simsysrandn(1<<31))%rate", 2).
		save()
	open("runtime/time_fake.go").
		rep("\treturn faketime / 1e9, int32(faketime % 1e9), faketime\n",
			"\tw := faketime + simWallOff\n\treturn w / 1e9, int32(w % 1e9), faketime\n", 1).
		rep("\tif !(fd == 1 || fd == 2) {", "\tif true {", 1).
		save()
	open("runtime/chan.go").
		rep("func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tSimYield(2)\n", 1).
		rep("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tSimYield(2)\n", 1).
		rep("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tSimYield(2)\n", 1).
		rep("//go:nosplit\nfunc chansend1", "func chansend1", 1).
		rep("//go:nosplit\nfunc chanrecv1", "func chanrecv1", 1).
		rep("//go:nosplit\nfunc chanrecv2", "func chanrecv2", 1).
		save()
	newStd("runtime", "zsim_runtime.go")

	// --- sync --------------------------------------------------------------
	open("sync/mutex.go").
		body("func (m *Mutex) Lock() {", "\truntime_SimYield(1)").
		body("func (m *Mutex) TryLock() bool {", "\truntime_SimYield(1)").
		body("func (m *Mutex) Unlock() {", "\tdefer runtime_SimYield(1)").
		save()
	open("sync/rwmutex.go").
		body("func (rw *RWMutex) RLock() {", "\truntime_SimYield(1)").
		body("func (rw *RWMutex) Lock() {", "\truntime_SimYield(1)").
		body("func (rw *RWMutex) RUnlock() {", "\tdefer runtime_SimYield(1)").
		body("func (rw *RWMutex) Unlock() {", "\tdefer runtime_SimYield(1)").
		save()
	open("sync/runtime.go").
		rep("import \"unsafe\"\n", "import \"unsafe\"\n\nfunc runtime_SimYield(cat int)\n", 1).
		save()

	// --- syscall -------------------------------------------------------------
	z := open("syscall/zsyscall_linux_amd64.go")
	at := func(call string) string {
		return "if p, ok := simAt(dirfd, path); ok {\n\t\t\t" + call + "\n\t\t}"
	}
	fdc := func(call string) string { return "if simFd(fd) {\n\t\t\t" + call + "\n\t\t}" }
	z.hookFn("openat", at("return SimH.Open(p, flags, mode)"))
	z.hookFn("faccessat", at("return SimH.Access(p)"))
	z.hookFn("faccessat2", at("return SimH.Access(p)"))
	z.hookFn("fchmodat", at("return SimH.Access(p)"))
	z.hookFn("utimensat", at("return SimH.Access(p)"))
	z.hookFn("readlinkat", at("_ = p\n\t\t\treturn 0, EINVAL"))
	z.hookFn("unlinkat", at("return SimH.Unlink(p, flags&_AT_REMOVEDIR != 0)"))
	z.hookFn("Mkdirat", at("return SimH.Mkdir(p, mode)"))
	z.hookFn("linkat", "if p, ok := simAt(olddirfd, oldpath); ok {\n\t\t\treturn SimH.Link(p, newpath)\n\t\t}")
	z.hookFn("Renameat", "if p, ok := simAt(olddirfd, oldpath); ok {\n\t\t\tq, _ := simAt(newdirfd, newpath)\n\t\t\treturn SimH.Rename(p, q)\n\t\t}")
	z.hookFn("Truncate", "if simPath(path) {\n\t\t\treturn SimH.Truncate(path, length)\n\t\t}")
	z.hookFn("fstatat", "if p, ok := simAt(fd, path); ok {\n\t\t\treturn SimH.Stat(p, stat)\n\t\t}")
	z.hookFn("Getcwd", "return copy(buf, \"/sim\\x00\"), nil")
	z.hookFn("Close", fdc("return SimH.Close(fd)"))
	z.hookFn("Fallocate", fdc("return nil"))
	z.hookFn("Fchmod", fdc("return nil"))
	z.hookFn("fcntl", fdc("return 0, EINVAL"))
	z.hookFn("Fdatasync", fdc("return SimH.Fsync(fd)"))
	z.hookFn("Fsync", fdc("return SimH.Fsync(fd)"))
	z.hookFn("Flock", fdc("return nil"))
	z.hookFn("Getdents", fdc("return SimH.Getdents(fd, buf)"))
	z.hookFn("read", fdc("return SimH.Read(fd, p)"))
	z.hookFn("write", fdc("return SimH.Write(fd, p)"))
	z.hookFn("pread", fdc("return SimH.Pread(fd, p, offset)"))
	z.hookFn("pwrite", fdc("return SimH.Pwrite(fd, p, offset)"))
	z.hookFn("Fstat", fdc("return SimH.Fstat(fd, stat)"))
	z.hookFn("Ftruncate", fdc("return SimH.Ftruncate(fd, length)"))
	z.hookFn("Seek", fdc("return SimH.Seek(fd, offset, whence)"))
	z.hookFn("SyncFileRange", fdc("return nil"))
	z.save()
	newStd("syscall", "zsim_syscall.go")

	u := open("internal/syscall/unix/at.go")
	u.text = strings.ReplaceAll(u.text, "SimH", "SimH")
	u.rep("func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif h, p, ok := syscall.SimAt(dirfd, path); ok {\n\t\treturn h.Unlink(p, flags&AT_REMOVEDIR != 0)\n\t}\n", 1)
	u.rep("func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif h, p, ok := syscall.SimAt(dirfd, path); ok {\n\t\treturn h.Open(p, flags, perm)\n\t}\n", 1)
	u.save()
	open("internal/syscall/unix/at_fstatat.go").
		rep("func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif h, p, ok := syscall.SimAt(dirfd, path); ok {\n\t\treturn h.Stat(p, stat)\n\t}\n", 1).
		save()
	open("internal/syscall/unix/copy_file_range_linux.go").
		rep("(n int, err error) {\n", "(n int, err error) {\n\tif syscall.SimH != nil {\n\t\treturn 0, syscall.ENOSYS\n\t}\n", 1).
		save()

	// --- net -----------------------------------------------------------------
	open("net/dial.go").
		rep("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"// SimDial, when set, is the only network there is.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n", 1).
		save()
	open("os/proc.go").
		rep("func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n", 1).
		rep("// Exit causes the current program", "// SimExit, when set, ends the simulated process.\nvar SimExit func(code int)\n\n// Exit causes the current program", 1).
		save()
	// --- pebble: the same zstd encoder and decoder for all blocks; the simulator
	// has no garbage collector and they are megabytes each
	if f, _ := filepath.Glob(filepath.Join(*modc, "github.com/cockroachdb/pebble@v0.0.0-20240321023028-8a097e8ae86b/sstable/compression_nocgo.go")); len(f) == 1 {
		if b, err := os.ReadFile(f[0]); err == nil {
			t := string(b)
			for _, r := range [][2]string{
				{"\tdecoder, _ := zstd.NewReader(nil)\n\tdefer decoder.Close()\n", ""},
				{"\tencoder, _ := zstd.NewWriter(nil)\n\tdefer encoder.Close()\n", ""},
				{"// decodeZstd decompresses", "var decoder, _ = zstd.NewReader(nil)\nvar encoder, _ = zstd.NewWriter(nil)\n\n// decodeZstd decompresses"},
			} {
				if strings.Count(t, r[0]) != 1 {
					die("%s: %q", f[0], r[0])
				}
				t = strings.Replace(t, r[0], r[1], 1)
			}
			emit(f[0], []byte(t))
		}
	}
	// --- crypto/rand: no entropy from the outside -------------------------------
	open("crypto/rand/rand_unix.go").
		rep("func (r *reader) Read(b []byte) (n int, err error) {\n", "func (r *reader) Read(b []byte) (n int, err error) {\n\tif SimRead != nil {\n\t\treturn SimRead(b)\n\t}\n\tfor i := range b {\n\t\tsimCtr = simCtr*6364136223846793005 + 1442695040888963407\n\t\tb[i] = byte(simCtr >> 33)\n\t}\n\tif len(b) >= 0 {\n\t\treturn len(b), nil\n\t}\n", 1).
		rep("type reader struct {", "var simCtr uint64 = 88172645463325252\n\n// SimRead, when set, is the only source of entropy there is.\nvar SimRead func(b []byte) (int, error)\n\ntype reader struct {", 1).
		save()
}

func newStd(pkg, file string) {
	b, err := os.ReadFile(filepath.Join(*std, file))
	check(err)
	emit(filepath.Join(*goroot, "src", pkg, file), b)
}
