package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"bondsim/model"
	"bondsim/prog"
	"bondsim/simfs"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
)

const dbDir = "/sim/db"

type failure struct{ class, detail string }

// failNow ends the run with a violation.
func failNow(class, format string, a ...any) {
	panic(failure{class, fmt.Sprintf(format, a...)})
}

// delta is the change of one row by a commit.
type delta struct {
	tab    int
	id     uint64
	before *prog.Row
	after  *prog.Row // nil: deleted
}

const (
	stPending = iota
	stOK
	stUnknown // an error was returned from the commit itself
)

type commit struct {
	task       int
	start, end uint64 // event clock
	sync       bool
	st         int
	deltas     []delta
	what       string
}

type Engine struct {
	p    *prog.Program
	res  *prog.Result
	st   *simfs.Stats
	fs   *simfs.FS
	next *simfs.FS // after a crash

	lateInit bool
	noInit   bool
	world    uint64
	db       bond.DB
	tabs     []tableOps
	specs    []prog.Table
	filters  []*filterState

	base    []model.Rows // at the start of the phase
	cur     []model.Rows // every completed commit applied
	commits []*commit
	vobs    []*obsv
	clock   uint64

	lossy        bool // the database was closed with an error of its log
	walWas       uint64
	crashed      bool
	crashCh      chan struct{}
	phase        int
	ntasks       int
	shared       *sharedBatch
	remote       *remote
	serveMu      sync.Mutex
	cliMu        sync.Mutex
	dumpList     []*dump
	targets      []*target
	seq          *bond.NumberSequence
	issued       []issued
	uuids        map[[16]byte]int // drawn by which task
	noRand       int              // the next reads of entropy fail
	randWasOff   bool
	entropy      int // reads of it
	overflow     bool
	wall         int64
	faulty       bool // a fault was armed in this phase
	wfaulty      bool // ... on a write path
	stopWrite    bool // a commit failed: no more writes in this phase
	indexes      [][]int
	fail         *failure
	quiet        bool
	dumps        map[string]*dump
	curFormat    int
	noWAL        bool
	migrateTries int
	lost         int   // the format a crash may bring back, or -1
	tried        int   // the format of a migration that was begun, or -1
	migrate      int   // format to migrate to before the next open, or -1
	closed       []int // close callbacks that ran
	nclose       int   // ... that were registered
	closeAt      [][2]uint64
	pendingCut   *cutCtx
	retryIdx     map[int][]int // indexes whose build was interrupted
	building     map[int][]int // ... is under way
}

func (e *Engine) trace(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		e.res.Hash = (e.res.Hash ^ uint64(s[i])) * 0x100000001b3
	}
	if tracing {
		e.res.Trace = append(e.res.Trace, fmt.Sprintf("[%d.%d t=%v] %s", e.phase, e.clock, time.Duration(runtime.SimNow()-simEpoch), s))
	}
}

func newEngine(p *prog.Program, res *prog.Result) *Engine {
	e := &Engine{p: p, res: res, st: simfs.NewStats(), dumps: map[string]*dump{}, curFormat: p.Cfg.Format, migrate: -1, tried: -1, lost: -1, retryIdx: map[int][]int{}, building: map[int][]int{}}
	e.fs = simfs.New("disk", e.st, p.Seed)
	e.setDelay()
	if tracing && os.Getenv("SIMFS") != "" {
		e.fs.Trace = func(s string) {
			e.res.Trace = append(e.res.Trace, fmt.Sprintf("    [%d.%d t=%v] fs %s", e.phase, e.clock, time.Duration(runtime.SimNow()-simEpoch), s))
		}
	}
	e.fs.Put("/sim/.keep", nil)
	e.fs.Put(dbDir+"/.keep", nil)
	e.specs = p.Cfg.Tables
	for i := range e.specs {
		e.fs.Put(fmt.Sprintf("/sim/filter%d/.keep", i), nil)
		e.fs.Put("/sim/filters/.keep", nil)
	}
	for range e.specs {
		e.base = append(e.base, model.Rows{})
		e.cur = append(e.cur, model.Rows{})
		e.indexes = append(e.indexes, nil)
		e.filters = append(e.filters, nil)
	}
	for i := range e.specs {
		e.indexes[i] = append([]int(nil), e.specs[i].Idx...)
	}
	cur := func() *simfs.FS { return worldFS(e) }
	vfs.Default = &simfs.VFS{Cur: cur}
	sys = simfs.NewSys(cur)
	syscall.SimH = sys
	log.SetOutput(io.Discard)
	os.SimExit = func(code int) {
		if w := runtime.SimWorld(); w != 0 {
			e.fatal(w, fmt.Sprintf("exit %d", code))
		}
	}
	return e
}

func (e *Engine) setDelay() {
	if e.p.Cfg.DelayP > 0 {
		e.fs.DelayP = uint32(e.p.Cfg.DelayP * (1 << 32))
		e.fs.DelayMax = e.p.Cfg.DelayMax + 1
	}
}

var worlds = map[uint64]*simfs.FS{}

func worldFS(e *Engine) *simfs.FS {
	if w := runtime.SimWorld(); w != 0 {
		return worlds[w]
	}
	return e.fs
}

type simLogger struct {
	e *Engine
	w uint64
}

func (l simLogger) Infof(f string, a ...interface{})  {}
func (l simLogger) Errorf(f string, a ...interface{}) {}
func (l simLogger) Fatalf(f string, a ...interface{}) {
	l.e.fatal(l.w, fmt.Sprintf(f, a...))
}

// fatal: the process ends itself, which it may after an I/O error only.
func (e *Engine) fatal(w uint64, msg string) {
	fs := worlds[w]
	if !fs.Dead() {
		e.trace("the process ends itself: %s", msg)
		if !e.faulty && e.fail == nil {
			e.fail = &failure{"exit", "the process ended itself: " + msg}
		}
		fs.CrashNow("fatal")
	}
	select {}
}

// defaultOptions are the shipped ones without the caches, which are shared by
// all databases opened with them and so outlive each.
func defaultOptions() *pebble.Options {
	o := bond.DefaultPebbleOptions()
	_ = o.TableCache.Unref()
	o.TableCache, o.Cache = nil, nil
	return o
}

func (e *Engine) pebbleOptions() *pebble.Options { return e.pebbleOptionsFor(e.curFormat) }

func (e *Engine) pebbleOptionsFor(format int) *pebble.Options {
	c := &e.p.Cfg
	o := defaultOptions()
	o.Cache = pebble.NewCache(int64(c.Cache))
	o.MaxOpenFiles = 200
	o.FS = &simfs.VFS{Cur: func() *simfs.FS { return worldFS(e) }}
	o.Logger = simLogger{e, e.world}
	o.MemTableSize = uint64(c.MemTable)
	o.L0CompactionThreshold = c.L0
	o.LBaseMaxBytes = int64(c.TargetFile) * 4
	for i := range o.Levels {
		o.Levels[i].BlockSize = c.Block
		o.Levels[i].IndexBlockSize = c.Block * 2
		o.Levels[i].TargetFileSize = int64(c.TargetFile) << uint(i)
	}
	if format == 1 {
		o.FormatMajorVersion = pebble.FormatNewest
	}
	o.DisableWAL = e.noWAL
	return o
}

// migrateFormat brings a database to another storage format before it is
// opened. A crash inside leaves the old or the new format; either opens.
func (e *Engine) migrateFormat() error {
	old := formatOf(e.curFormat)
	v, err := bond.PebbleFormatVersion(dbDir)
	e.alive()
	if err != nil {
		return err
	}
	if e.tried >= 0 {
		// a migration was interrupted
		if v == formatOf(e.tried) {
			e.curFormat = e.tried
			old = v
		}
		e.tried = -1
	}
	if e.lost >= 0 && v == formatOf(e.lost) {
		e.curFormat, e.lost = e.lost, -1
		old = v
	}
	if v == 0 {
		// no database yet
		if e.migrate >= 0 {
			e.curFormat, e.migrate = e.migrate, -1
		}
		return nil
	}
	if e.migrate >= 0 && e.migrate < e.curFormat {
		// there is no way back
		to := formatOf(e.migrate)
		e.migrate = -1
		if v != old {
			return fmt.Errorf("the version file names %d, expected %d", v, old)
		}
		// as long as the database has not come into being there is a way
		armed := e.fs.Faults
		e.fs.Faults = nil
		d, perr := pebble.Peek(dbDir, vfs.Default)
		e.fs.Faults = armed
		if perr != nil {
			failNow("migrate", "the format of the storage cannot be found out: %v", perr)
		}
		if !d.Exists || uint64(d.FormatMajorVersion) <= to {
			return nil
		}
		err := bond.MigratePebbleFormatVersion(dbDir, to)
		e.alive()
		e.trace("migrate back from %d to %d -> %v", old, to, err)
		if err == nil {
			failNow("migrate", "a database of format %d is migrated back to %d", old, to)
		}
		e.res.OpKinds["migrate-back"]++
		if v, err := bond.PebbleFormatVersion(dbDir); (err != nil || v != old) && e.fs.Faults == nil {
			failNow("migrate", "after a refused migration to %d the version file names %d (%v), not %d", to, v, err, old)
		}
		e.alive()
	}
	if e.migrate >= 0 {
		to := formatOf(e.migrate)
		if v != old && v != to {
			return fmt.Errorf("the version file names %d, expected %d or %d", v, old, to)
		}
		if v == to {
			e.curFormat, e.migrate = e.migrate, -1
		} else if e.migrateTries > 0 && e.p.Seed&1 == 0 {
			// after an interrupted migration: stay with what the file says
			e.migrate = -1
		}
	} else if v != old {
		return fmt.Errorf("the version file names %d, expected %d", v, old)
	}
	if e.migrate < 0 {
		return nil
	}
	e.migrateTries++
	e.tried = e.migrate
	to := formatOf(e.migrate)
	err = bond.MigratePebbleFormatVersion(dbDir, to)
	e.alive()
	e.trace("migrate from %d to %d -> %v", old, to, err)
	if err != nil {
		e.fs.Faults = nil
		if v, verr := bond.PebbleFormatVersion(dbDir); verr != nil || v != old && v != to {
			failNow("migrate", "after a failed migration from %d to %d the version file names %d (%v)", old, to, v, verr)
		} else if v == to {
			// then the storage has to be in that version
			d, perr := pebble.Peek(dbDir, vfs.Default)
			e.alive()
			if perr != nil || uint64(d.FormatMajorVersion) != to {
				failNow("migrate", "after a failed migration the version file names %d, but the storage is in another: %v %v", v, d, perr)
			}
			// the directory was not synced: a crash may bring the old name back
			e.lost = e.curFormat
		}
		e.alive()
		return err
	}
	e.res.OpKinds["migrate"]++
	if v, err := bond.PebbleFormatVersion(dbDir); (err != nil || v != to) && (err == nil || e.fs.Faults == nil) {
		failNow("migrate", "after a migration to %d the version file names %d (%v)", to, v, err)
	}
	e.alive()
	// the old version is refused from now on
	if e.p.Seed&2 == 0 && e.migrate != e.curFormat {
		if db, err := bond.Open(dbDir, &bond.Options{PebbleOptions: e.pebbleOptions(), Serializer: serializer(e.p.Cfg.Ser)}); err == nil {
			_ = db.Close()
			e.alive()
			failNow("migrate", "a database of format %d opens with format %d", to, old)
		}
		e.alive()
	}
	e.curFormat, e.migrate, e.tried = e.migrate, -1, -1
	return nil
}

// wrongFormat: a database that names its version is refused in any other, newer
// or older, and is afterwards as it was.
func (e *Engine) wrongFormat() {
	if e.p.Seed>>6&3 != 0 || e.fs.Faults != nil {
		return
	}
	v, err := bond.PebbleFormatVersion(dbDir)
	e.alive()
	if err != nil || v == 0 {
		return
	}
	lo := uint64(defaultOptions().FormatMajorVersion)
	for w := lo; w <= uint64(pebble.FormatNewest); w++ {
		if w == v || (w != lo && w != uint64(pebble.FormatNewest) && e.p.Seed>>8&7 != w&7) {
			continue
		}
		o := e.pebbleOptions()
		o.FormatMajorVersion = pebble.FormatMajorVersion(w)
		db, err := bond.Open(dbDir, &bond.Options{PebbleOptions: o, Serializer: serializer(e.p.Cfg.Ser)})
		e.alive()
		if err == nil {
			_ = db.Close()
			e.alive()
			failNow("format", "a database whose version file names %d opens with format %d", v, w)
		}
		o.Cache.Unref()
		if x, err := bond.PebbleFormatVersion(dbDir); err != nil || x != v {
			failNow("format", "after it was refused in format %d the version file names %d (%v), not %d", w, x, err, v)
		}
		e.alive()
	}
}

func formatOf(f int) uint64 {
	if f == 1 {
		return uint64(pebble.FormatNewest)
	}
	return uint64(defaultOptions().FormatMajorVersion)
}

// open starts the database of the current world.
func (e *Engine) open() error {
	e.closed, e.nclose = nil, 0
	err := e.migrateFormat()
	e.alive()
	if err != nil {
		return fmt.Errorf("migration: %w", err)
	}
	e.wrongFormat()
	db, err := bond.Open(dbDir, &bond.Options{PebbleOptions: e.pebbleOptions(), Serializer: serializer(e.p.Cfg.Ser)})
	e.alive()
	if err != nil {
		return err
	}
	e.db = db
	e.tabs = nil
	for i := range e.specs {
		var f bond.Filter
		if e.specs[i].Filter != nil {
			f = e.mkFilter(i)
		}
		sp := e.specs[i]
		sp.Idx = e.indexes[i]
		t, err := newTab(db, sp, f)
		e.alive()
		if err != nil {
			return fmt.Errorf("table: %w", err)
		}
		e.tabs = append(e.tabs, t)
	}
	for i := range e.specs {
		if e.specs[i].Filter != nil && !e.lateInit && !e.noInit {
			err := e.initFilter(i)
			e.alive()
			if err != nil {
				return fmt.Errorf("filter: %w", err)
			}
		}
	}
	for i := 0; i < int(e.p.Seed>>4&3); i++ {
		e.onClose()
	}
	return nil
}

// start opens the database. When I/O errors are injected it may fail, but then
// it leaves nothing behind and opens without them.
func (e *Engine) start(ph *prog.Phase) {
	e.noWAL = ph.NoWAL
	if len(ph.OpenFaults) == 0 {
		if err := e.open(); err != nil {
			failNow("open", "the database cannot be opened: %v", err)
		}
		return
	}
	fired := func() (n uint64) {
		for _, c := range e.st.Fired {
			n += uint64(c)
		}
		return n
	}
	was := fired()
	for _, f := range ph.OpenFaults {
		e.arm(f)
	}
	err := e.open()
	e.fs.Faults = nil
	e.trace("opening with faults: %v", err)
	if fired() == was {
		e.faulty, e.wfaulty = false, false
		if err != nil {
			failNow("open", "the database cannot be opened: %v", err)
		}
		return
	}
	e.res.OpKinds["open-faults"]++
	if err == nil {
		return
	}
	e.res.OpKinds["open-failed"]++
	if e.db != nil {
		_ = e.db.Close()
		e.alive()
		e.db = nil
	}
	if l := e.fs.OpenFiles(); len(l) > 0 && !e.wfaulty {
		failNow("open-files", "after the database could not be opened %d files are still open: %v", len(l), l)
	}
	if err := e.open(); err != nil {
		failNow("reopen", "the database cannot be opened after an attempt that met an I/O error: %v", err)
	}
}

// migrateBusy tries to migrate the open database.
func (e *Engine) migrateBusy() {
	v, err := bond.PebbleFormatVersion(dbDir)
	e.alive()
	if err != nil || v != formatOf(e.curFormat) {
		failNow("migrate", "the version file of the open database names %d (%v), expected %d", v, err, formatOf(e.curFormat))
	}
	for _, to := range []uint64{formatOf(1), formatOf(0)} {
		err := bond.MigratePebbleFormatVersion(dbDir, to)
		e.alive()
		if err == nil {
			failNow("migrate", "a database is migrated while it is open")
		}
		if w, err := bond.PebbleFormatVersion(dbDir); err != nil || w != v {
			failNow("migrate", "after a refused migration to %d the version file names %d (%v), not %d", to, w, err, v)
		}
		e.alive()
	}
	e.res.OpKinds["migrate-busy"]++
	e.res.Checks++
}

// onClose registers a callback that runs, once and in order, while the closing
// database still works.
func (e *Engine) onClose() {
	n := e.nclose
	e.nclose++
	w := e.world
	for len(e.closeAt) <= n {
		e.closeAt = append(e.closeAt, [2]uint64{})
	}
	e.closeAt[n] = [2]uint64{e.begin(), 1 << 63}
	defer func() { e.closeAt[n][1] = e.ended() }()
	e.db.OnClose(func(db bond.DB) {
		e.alive()
		e.closed = append(e.closed, n)
		if db != e.db || w != e.world {
			failNow("onclose", "a close callback was given another database")
		}
		for i, tb := range e.tabs {
			rows, err := tb.Scan(newCtx(0), false)
			e.alive()
			if err != nil && !e.faulty {
				failNow("onclose", "the database does not work in its close callback: %v", err)
			}
			if err == nil && e.certain() && !same(rows, model.Select(e.cur[i], e.specs[i].PK, 0, nil)) {
				failNow("onclose", "a close callback reads other rows in table %d than there are", i)
			}
		}
	})
}

// run executes the program.
func (e *Engine) run() {
	for i := range e.p.Phases {
		e.phase = i
		e.runPhase(&e.p.Phases[i])
		if e.fail != nil {
			return
		}
	}
	// last: reopen and check everything
	e.phase = len(e.p.Phases)
	e.runPhase(&prog.Phase{End: "close"})
}

type task struct {
	e     *Engine
	n     int
	batch map[int]*batchState
	op    string
	done  bool
	busy  time.Time
	was   model.Rows
}

// spawn runs f as a goroutine of the current world; a violation in it ends the run.
func (e *Engine) spawn(f func(), done chan<- struct{}) {
	w := e.world
	go func() {
		runtime.SimSetWorld(w)
		defer func() {
			if r := recover(); r != nil {
				if worlds[w].Dead() {
					// the process had died already
					select {}
				}
				if fl, ok := r.(failure); ok {
					if e.fail == nil {
						e.fail = &fl
					}
				} else if e.injected(r) {
					// the storage engine gave up on an injected error
					e.trace("panic on injected error: %v", r)
					e.st.Fired["engine-panic"]++
					worlds[w].CrashNow("panic")
					select {}
				} else {
					buf := make([]byte, 6000)
					buf = buf[:runtime.Stack(buf, false)]
					if e.fail == nil {
						e.fail = &failure{"panic", fmt.Sprintf("panic: %v\n%s", r, buf)}
					}
				}
			}
			done <- struct{}{}
		}()
		f()
	}()
}

func (e *Engine) injected(r any) bool {
	if !e.faulty {
		return false
	}
	if err, ok := r.(error); ok {
		var no syscall.Errno
		if errors.As(err, &no) {
			return true
		}
		r = err.Error()
	}
	s := fmt.Sprint(r)
	return strings.Contains(s, "input/output error") || strings.Contains(s, "no space left") || strings.Contains(s, "too many open files") ||
		e.wfaulty && strings.Contains(s, "closed LogWriter")
}

const opTimeout = 30 * time.Minute // simulated

// await waits for n completions, a crash, or the progress deadline.
func (e *Engine) await(done <-chan struct{}, n int, what func() string) bool {
	deadline := time.NewTimer(opTimeout)
	defer deadline.Stop()
	for n > 0 {
		select {
		case <-done:
			n--
			if e.fail != nil {
				return false
			}
		case <-e.crashCh:
			return false
		case <-deadline.C:
			if os.Getenv("SIMSTACK") != "" {
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			}
			e.fail = &failure{"no-progress", fmt.Sprintf("no progress after %v of simulated time with all goroutines waiting: %s", opTimeout, what())}
			return false
		}
	}
	return true
}

func (e *Engine) runPhase(ph *prog.Phase) {
	e.world++
	e.next = nil
	e.crashed = false
	e.crashCh = make(chan struct{})
	e.faulty, e.wfaulty, e.stopWrite = false, false, false
	e.lossy, e.walWas = false, e.walFired()
	e.commits, e.vobs = nil, nil
	e.ntasks = len(ph.Tasks)
	e.shared = nil
	if e.p.Cfg.Shared {
		e.ntasks = 1 // whoever holds the shared batch works alone
	}
	e.closed, e.nclose = nil, 0
	e.db = nil
	e.remote = nil
	e.noInit = ph.NoInit
	e.lateInit = ph.LateInit && len(ph.Tasks) > 0
	if ph.Format != nil {
		e.migrate = *ph.Format
	}
	worlds[e.world] = e.fs
	fs := e.fs
	if ph.Crash != nil {
		fs.CrashAt = ph.Crash.At
		fs.Spec = simfs.CrashSpec{Mode: ph.Crash.Mode, Seed: ph.Crash.Seed}
	}
	fs.OnCrash = func(snap *simfs.FS, where string) {
		e.next = snap
		e.crashed = true
		e.trace("crash at %s (call %d)", where, fs.Mut)
		close(e.crashCh)
	}
	runtime.SimWall(ph.WallJump * 1e9)
	for i := range e.base {
		e.cur[i] = e.base[i].Clone()
	}

	done := make(chan struct{}, 64)
	stage := "open"
	e.spawn(func() {
		e.start(ph)
	}, done)
	ok := e.await(done, 1, func() string { return stage })
	if ok {
		// what survived must be explained by the history of the previous process
		stage = "first check"
		e.spawn(func() { e.verify("after open", true) }, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if ok && (len(e.targets) > 0 || len(e.dumpList) > 0) {
		stage = "check of restored databases"
		e.spawn(e.afterCrash, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if ok && (len(ph.AddIdx) > 0 || len(e.retryIdx) > 0) {
		stage = "add index"
		e.spawn(func() { e.addIndexes(ph.AddIdx) }, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if ok && e.p.Cfg.Shared {
		stage = "shared batch"
		e.spawn(e.openShared, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if ok && len(ph.Tasks) > 0 {
		stage = "tasks"
		tasks := make([]*task, len(ph.Tasks))
		for i := range ph.Tasks {
			t := &task{e: e, n: i, batch: map[int]*batchState{}}
			tasks[i] = t
			ops := ph.Tasks[i]
			e.spawn(func() { t.run(ops) }, done)
		}
		n := len(tasks)
		if e.lateInit {
			n++
			e.spawn(e.initFilters, done)
		}
		ok = e.await(done, n, func() string {
			s := ""
			if e.lateInit {
				s = "filters are initialized; "
			}
			for _, t := range tasks {
				if !t.done {
					s += fmt.Sprintf("task %d in %s; ", t.n, t.op)
				}
			}
			return s
		})
	}
	if ok && e.shared != nil {
		stage = "commit of the shared batch"
		e.spawn(e.closeShared, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if ok {
		stage = "end of phase"
		e.spawn(func() { e.endPhase(ph) }, done)
		ok = e.await(done, 1, func() string { return stage })
	}
	if e.fail != nil {
		return
	}
	e.res.Mut = append(e.res.Mut, fs.Mut)
	if !ok && !e.crashed {
		e.fail = &failure{"harness", "stage " + stage + " ended without a reason"}
		return
	}
	if e.lossy {
		fs.CrashAt = 0
		fs.OnCrash = nil
		fs.Kill()
		e.next = fs.Copy()
		e.crashed = true
	}
	if e.crashed {
		e.res.Crashes++
		e.fs = e.next
		e.fs.Faults = nil
		e.setDelay()
		if e.pendingCut == nil {
			e.pendingCut = &cutCtx{commits: e.commits, base: e.cloneBase(), crash: e.clock}
		} // else it died before the state left by the previous process was known
		e.buildInterrupted()
	} else {
		fs.CrashAt = 0
		fs.OnCrash = nil
		e.pendingCut = nil
		for i := range e.base {
			e.base[i] = e.cur[i].Clone()
		}
		fs.Kill() // nothing of the old process may touch the disk again
		e.fs = fs.Copy()
		e.setDelay()
	}
	runtime.SimAdvance(int64(time.Second))
}

func (e *Engine) cloneBase() []model.Rows {
	r := make([]model.Rows, len(e.base))
	for i := range e.base {
		r[i] = e.base[i].Clone()
	}
	return r
}

// noFaults ends the I/O errors and lets what met one come to its end: the
// storage engine hands the error of a file that one thread opens to all that
// wait for this file.
func (e *Engine) noFaults() {
	e.fs.Faults = nil
	if e.faulty {
		time.Sleep(time.Duration(5*e.p.Cfg.DelayMax) + time.Millisecond)
		e.alive()
	}
}

// endPhase checks the final state, closes the database or pulls the plug.
func (e *Engine) endPhase(ph *prog.Phase) {
	e.noFaults()
	if ph.End == "crash" {
		e.checkObs()
		e.fs.CrashNow("end of phase")
		select {}
	}
	e.fs.CrashAt = 0
	e.verify("end of phase", false)
	e.checkObs()
	if e.p.Prop == "C15" && e.p.Seed&12 == 0 {
		e.migrateBusy()
	}
	e.closeDB()
}

func (e *Engine) closeDB() {
	e.stopServe()
	e.trace("close")
	db := e.db
	if e.noWAL {
		// what is in memory only is lost
		if err := db.Backend().Flush(); err != nil {
			failNow("spurious-error", "flush failed without a fault: %v", err)
		}
		e.alive()
	}
	err := db.Close()
	e.alive()
	if err != nil && !e.wfaulty {
		failNow("close", "closing the database failed: %v", err)
	}
	// Commits without Sync may have been lost when the log could not be written
	// (and then Close says so).
	e.lossy = err != nil && e.walFired() > e.walWas
	if e.lossy {
		e.trace("close: %v", err)
	}
	ran := append([]int(nil), e.closed...)
	sort.Ints(ran)
	for i := 0; i < e.nclose || i < len(ran); i++ {
		if i >= len(ran) || i >= e.nclose || ran[i] != i {
			failNow("onclose", "%d close callbacks were registered, these ran: %v", e.nclose, e.closed)
		}
	}
	for i, a := range e.closed {
		for _, b := range e.closed[i+1:] {
			if e.closeAt[b][1] < e.closeAt[a][0] {
				failNow("onclose", "close callback %d was registered before %d, they ran as %v", b, a, e.closed)
			}
		}
	}
	e.leaks()
}

// walFired counts the I/O errors of the log.
func (e *Engine) walFired() (n uint64) {
	for k, c := range e.st.Fired {
		if strings.Contains(k, "/wal/") {
			n += uint64(c)
		}
	}
	return n
}

// leaks: a closed database has no open files and no goroutines.
func (e *Engine) leaks() {
	if e.wfaulty {
		return // the storage engine drops files and goroutines on the floor after a failed write
	}
	if l := e.fs.OpenFiles(); len(l) > 0 {
		failNow("open-files", "after the database was closed %d files are still open: %v", len(l), l)
	}
	if e.res.Crashes > 0 || !e.p.Leaks {
		return // the threads of dead processes are parked for ever
	}
	var bad string
	buf := make([]byte, 1<<20)
	for try := 0; try < 50; try++ {
		bad = ""
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if (strings.Contains(g, "github.com/go-bond/bond") || strings.Contains(g, "cockroachdb/pebble")) && !strings.Contains(g, ".closeDB(") {
				bad = g
			}
		}
		if bad == "" {
			e.res.Checks++
			return
		}
		time.Sleep(time.Second)
	}
	if len(bad) > 1500 {
		bad = bad[:1500]
	}
	failNow("goroutine", "after the database was closed a goroutine of it still runs: %s", bad)
}

// task body ------------------------------------------------------------------

func (t *task) run(ops []prog.Op) {
	e := t.e
	for i := range ops {
		e.alive()
		op := &ops[i]
		t.op = fmt.Sprintf("op %d %s", i, op.K)
		e.res.Ops++
		e.res.OpKinds[op.K]++
		var armed *simfs.Fault
		if op.Fault != nil && op.K != "arm" {
			armed = e.arm(op.Fault)
			e.trace("arm %+v for the next call", *op.Fault)
		}
		t.do(op)
		e.alive()
		e.disarm(armed)
		if e.fail != nil {
			return
		}
	}
	t.op = "close batches"
	var ns []int
	for n := range t.batch {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		t.closeBatch(n)
	}
	t.done = true
}

// alive parks the caller for good if its process has died.
func (e *Engine) alive() {
	if w := runtime.SimWorld(); w != 0 {
		if w != e.world || worlds[w].Dead() {
			select {}
		}
		return
	}
	if e.crashed || e.fs.Dead() {
		select {}
	}
}

func (e *Engine) begin() uint64 {
	e.alive()
	e.clock++
	return e.clock
}

// ended is called when an operation returned: if the process died meanwhile
// nobody heard the answer.
func (e *Engine) ended() uint64 {
	e.alive()
	e.clock++
	return e.clock
}

// owns: rows a task may write.
func (t *task) owns(id uint64) bool {
	return t.e.ntasks <= 1 || int(id%uint64(t.e.ntasks)) == t.n
}

func (t *task) locked(tab int, id uint64, b int) bool {
	for n, bs := range t.batch {
		if n != b && bs.over[tab] != nil {
			if _, ok := bs.over[tab][id]; ok {
				return true
			}
		}
	}
	return false
}

// sys is the disk below package os.
var sys *simfs.Sys

type batchState struct {
	b        bond.Batch
	rw       bool
	over     map[int]map[uint64]*prog.Row
	before   map[int]map[uint64]*prog.Row
	poisoned bool
	done     bool
	veto     bool
	n        int // writes in it
	nhooks   int // callbacks of each kind
	vetoAt   int // 1 + the callback that may refuse
	probing  bool
	cb       []string // callbacks that ran
	want     []string
	cbErr    error
	forgot   *batchState // what it was before a reset
}

// view is the state a task's operation sees: committed rows plus its batch.
func (t *task) view(tab, b int) model.Rows {
	cur := t.e.cur[tab]
	bs := t.batch[b]
	if b == 0 || bs == nil || !bs.rw || len(bs.over[tab]) == 0 {
		return cur
	}
	v := cur.Clone()
	for id, r := range bs.over[tab] {
		if r == nil {
			delete(v, id)
		} else {
			v[id] = *r
		}
	}
	return v
}

func ptr(r prog.Row) *prog.Row { return &r }

func lookup(m model.Rows, id uint64) *prog.Row {
	if r, ok := m[id]; ok {
		return &r
	}
	return nil
}

var _ = context.Background
