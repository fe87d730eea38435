package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"bondsim/model"
	"bondsim/prog"
	"bondsim/simfs"

	"github.com/go-bond/bond"
)

// cctx is a context that is cancelled at its n-th look.
type cctx struct {
	context.Context
	n      int
	ch     chan struct{}
	fired  bool
	before bool // ... before the call
}

func newCtx(n int) *cctx {
	return &cctx{Context: context.Background(), n: n, ch: make(chan struct{})}
}

func (c *cctx) look() {
	if c.n == 0 || c.fired {
		return
	}
	c.n--
	if c.n == 0 {
		c.fired = true
		close(c.ch)
	}
}

func (c *cctx) Done() <-chan struct{} { c.look(); return c.ch }

func (c *cctx) Err() error {
	c.look()
	if c.fired {
		return context.Canceled
	}
	return nil
}

func (t *task) tabOK(n int) bool { return n >= 0 && n < len(t.e.tabs) }

func (t *task) do(op *prog.Op) {
	e := t.e
	if f := extraOps[op.K]; f != nil {
		f(t, op)
		return
	}
	if op.K != "sleep" && !t.tabOK(op.T) {
		return
	}
	switch op.K {
	case "ins", "upd", "ups", "del", "uins", "uupd":
		t.write(op)
	case "bnew":
		t.newBatch(op)
	case "bcommit":
		t.commitBatch(op)
	case "bclose":
		t.closeBatch(op.B)
	case "breset":
		t.resetBatch(op)
	case "bapply":
		t.applyBatch(op)
	case "get", "getp", "exist", "scan", "scani", "query", "iquery", "refuse":
		t.read(op)
	case "flush":
		e.begin()
		err := e.db.Backend().Flush()
		e.ended()
		if err != nil && !e.faulty {
			failNow("flush", "flush failed without a fault: %v", err)
		}
	case "compact":
		e.begin()
		type compacter interface{ Compact() error }
		err := e.db.(compacter).Compact()
		e.ended()
		if err != nil && !e.faulty {
			failNow("compact", "compaction failed without a fault: %v", err)
		}
	case "sleep":
		e.begin()
		time.Sleep(time.Duration(op.N) * time.Millisecond)
		e.ended()
	case "arm":
		e.begin()
		f := op.Fault
		e.arm(f)
		e.trace("arm %+v", *f)
	case "disarm":
		e.begin()
		e.fs.Faults = nil
		e.trace("disarm")
	case "chk":
		e.begin()
		e.noFaults()
		if e.ntasks <= 1 && e.certain() && t.clean() {
			e.verify("check", false)
		}
	case "bhook":
		if bs := t.batch[op.B]; bs != nil && !bs.done {
			e.begin()
			t.hook(bs, op.N%2 == 1, false)
			e.ended()
		}
	case "reindex":
		t.reindex(op)
	case "addidx":
		t.addIndex(op)
	case "dump":
		t.dump(op)
	case "restore":
		t.restore(op)
	case "fsave":
		t.filterSave(op)
	case "page":
		t.paginate(op)
	default:
		failNow("harness", "unknown op %s", op.K)
	}
}

var extraOps = map[string]func(t *task, op *prog.Op){}

func (t *task) clean() bool { return len(t.batch) == 0 }

func (e *Engine) certain() bool {
	for _, c := range e.commits {
		if c.st == stUnknown {
			return false
		}
	}
	return true
}

// args passes no batch, a nil batch or the batch.
func (t *task) args(op *prog.Op, bs *batchState) []bond.Batch {
	if bs != nil {
		// handed around in a context
		ctx := bond.ContextWithBatch(context.Background(), bs.b)
		return []bond.Batch{bond.ContextRetrieveBatch(bond.ContextWithSyncBatch(ctx, nil))}
	}
	if op.Mode&64 != 0 {
		return []bond.Batch{nil}
	}
	return nil
}

// effect computes what a write must do: the resulting rows, or that it must be
// refused.
func effect(k string, uk int, rows []prog.Row, view model.Rows) (after map[uint64]*prog.Row, refuse bool) {
	after = map[uint64]*prog.Row{}
	get := func(id uint64) *prog.Row {
		if r, ok := after[id]; ok {
			return r
		}
		return lookup(view, id)
	}
	for _, r := range rows {
		r := r
		if r.X == prog.Unstorable && k != "del" && (k != "ups" || get(r.ID) == nil) {
			return nil, true
		}
		switch k {
		case "ins":
			if get(r.ID) != nil {
				return nil, true
			}
			after[r.ID] = &r
		case "upd":
			if get(r.ID) == nil {
				return nil, true
			}
			after[r.ID] = &r
		case "ups":
			if o := get(r.ID); o != nil {
				n := model.Conflict(uk, *o, r)
				if n.X == prog.Unstorable {
					return nil, true
				}
				after[r.ID] = &n
			} else {
				after[r.ID] = &r
			}
		case "del":
			after[r.ID] = nil
		case "uins", "uupd":
			after[r.ID] = &r
		}
	}
	return after, false
}

// chunk is the (shrunk) number of rows one round of a write handles at least.
func (e *Engine) chunk() int {
	if n := e.p.Cfg.Chunk; n > 0 && n < 7 {
		return n
	}
	return 7
}

func (t *task) write(op *prog.Op) {
	e := t.e
	var bs *batchState
	if op.B != 0 {
		bs = t.batch[op.B]
		if bs == nil || bs.done || bs.poisoned {
			return
		}
	}
	if e.stopWrite {
		return
	}
	view := t.view(op.T, op.B)
	var rows []prog.Row
	seen := map[uint64]bool{}
	for _, r := range op.Rows {
		if !t.owns(r.ID) || t.locked(op.T, r.ID, op.B) {
			continue
		}
		_, exists := view[r.ID]
		if op.K == "uins" && (exists || seen[r.ID]) || op.K == "uupd" && (!exists || seen[r.ID]) {
			continue // outside the contract of the unsafe calls
		}
		if bs != nil && !bs.rw {
			// a write-only batch cannot see its own rows
			if _, in := bs.over[op.T][r.ID]; in || seen[r.ID] && (op.K != "upd" && op.K != "ups" || len(op.Rows) > e.chunk()) {
				continue
			}
		}
		seen[r.ID] = true
		rows = append(rows, r)
	}
	if len(rows) == 0 && len(op.Rows) > 0 {
		return
	}
	call := rows
	if op.K == "del" {
		call = append([]prog.Row(nil), rows...)
		for i := range call {
			if op.Full {
				if o := lookup(view, call[i].ID); o != nil {
					call[i] = *o
				}
			}
		}
	}
	var old []prog.Row
	if op.K == "uupd" {
		for _, r := range rows {
			old = append(old, *lookup(view, r.ID))
		}
	}
	after, refuse := effect(op.K, op.UK, rows, view)
	if refuse && e.shared != nil {
		return // it could leave part of itself in the batch
	}
	ctx := newCtx(op.Ctx)
	if op.Ctx == 1 {
		ctx.look()
	}
	c := &commit{task: t.n, sync: true, what: op.K}
	ids := make([]uint64, 0, len(after))
	for id := range after {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		c.deltas = append(c.deltas, delta{op.T, id, lookup(view, id), after[id]})
	}
	c.start = e.begin()
	if bs == nil && !refuse && !e.noWAL {
		e.commits = append(e.commits, c)
	}
	a := t.args(op, bs)
	tb := e.tabs[op.T]
	var err error
	switch op.K {
	case "ins":
		err = tb.Insert(ctx, call, a...)
	case "upd":
		err = tb.Update(ctx, call, a...)
	case "ups":
		err = tb.Upsert(ctx, call, op.UK, a...)
	case "del":
		err = tb.Delete(ctx, call, a...)
	case "uins":
		err = tb.UnsafeInsert(ctx, call, a...)
	case "uupd":
		err = tb.UnsafeUpdate(ctx, call, old, a...)
	}
	c.end = e.ended()
	e.trace("task %d %s table %d rows %s batch %d -> %v", t.n, op.K, op.T, model.ShowList(rows), op.B, err)
	drop := func() {
		for i, x := range e.commits {
			if x == c {
				e.commits = append(e.commits[:i:i], e.commits[i+1:]...)
			}
		}
	}
	if err == nil {
		if refuse {
			failNow("accepted", "%s of rows %s into table %d succeeded, but the rows %s (batch %d)", op.K, model.ShowList(rows), op.T,
				map[bool]string{true: "exist already or cannot be stored", false: "are not all there or cannot be stored"}[op.K == "ins"], op.B)
		}
		if ctx.fired && op.Ctx == 1 && len(rows) > 0 {
			failNow("cancel-ignored", "%s with a context cancelled before the call succeeded", op.K)
		}
		if bs == nil && e.noWAL {
			for _, d := range c.deltas {
				if !(d.before == nil && d.after == nil) {
					failNow("accepted", "%s of rows %s into table %d succeeded, but its commit cannot", op.K, model.ShowList(rows), op.T)
				}
			}
			return
		}
		if bs == nil {
			c.st = stOK
			e.apply(c)
		} else {
			t.addToBatch(bs, c.deltas)
		}
		return
	}
	if bs != nil {
		bs.poisoned = true
	}
	if s := err.Error(); !refuse && strings.HasPrefix(s, "record: ") && (strings.HasSuffix(s, " not found") || strings.HasSuffix(s, " already exist")) {
		failNow("wrong-refusal", "%s of rows %s in table %d (batch %d) was refused for a wrong reason: %.200s", op.K, model.ShowList(rows), op.T, op.B, s)
	}
	switch {
	case refuse:
	case bs == nil && e.noWAL && !ctx.fired:
	case ctx.fired:
		if !errors.Is(err, context.Canceled) && !e.faulty {
			failNow("cancel-error", "%s with a cancelled context failed with an unrelated error: %v", op.K, err)
		}
		drop()
	case e.wfaulty:
		c.st = stUnknown
		if bs == nil {
			e.stopWrite = true
		}
	case e.faulty:
		drop()
	default:
		failNow("spurious-error", "%s of rows %s in table %d (batch %d) failed without any fault: %v", op.K, model.ShowList(rows), op.T, op.B, err)
	}
}

func (e *Engine) apply(c *commit) {
	for _, d := range c.deltas {
		if d.after == nil {
			delete(e.cur[d.tab], d.id)
		} else {
			e.cur[d.tab][d.id] = *d.after
		}
	}
}

// batches --------------------------------------------------------------------

func (t *task) newBatch(op *prog.Op) {
	if op.B == 0 || t.batch[op.B] != nil {
		return
	}
	e := t.e
	e.begin()
	ty := bond.BatchTypeWriteOnly
	if op.RW {
		ty = bond.BatchTypeReadWrite
	}
	b := e.db.Batch(ty)
	if x, ok := e.db.(interface{ BatchReadWrite() bond.Batch }); ok && op.RW && op.Mode&2 != 0 {
		_ = b.Close()
		b = x.BatchReadWrite()
	}
	if b.Type() != ty {
		failNow("batch-type", "batch of type %v asked for, %v made", ty, b.Type())
	}
	bs := &batchState{b: b, rw: op.RW, over: map[int]map[uint64]*prog.Row{}, before: map[int]map[uint64]*prog.Row{}}
	bs.veto = op.Mode&1 != 0
	t.hooks(bs, op.N)
	t.batch[op.B] = bs
	e.ended()
	e.trace("task %d new batch %d rw=%v", t.n, op.B, op.RW)
}

var errVeto = errors.New("veto")

// hooks registers one to three callbacks of each kind; one of them may veto.
func (t *task) hooks(bs *batchState, n int) {
	k := 1 + n%3
	for i := 0; i < k; i++ {
		t.hook(bs, n >= 3, i == (n/3)%k)
	}
}

// hook registers one callback of each kind. Probing ones also look at the rows
// of the batch: not there yet before the commit, there after it.
func (t *task) hook(bs *batchState, probe, veto bool) {
	n := bs.nhooks
	bs.nhooks++
	// zombies of a dead process may still run callbacks; nobody reads these then
	log := func(b bond.Batch, f string, a ...any) {
		if b != bs.b {
			failNow("callbacks", "a callback was given another batch")
		}
		bs.cb = append(bs.cb, fmt.Sprintf(f, a...))
	}
	bs.b.OnCommit(func(b bond.Batch) error {
		log(b, "commit%d", n)
		if probe && bs.probing {
			t.probe(bs, false, fmt.Sprintf("OnCommit callback %d", n))
		}
		if veto && bs.veto {
			return errVeto
		}
		return nil
	})
	bs.b.OnCommitted(func(b bond.Batch) {
		log(b, "committed%d", n)
		if probe && bs.probing {
			t.probe(bs, true, fmt.Sprintf("OnCommitted callback %d", n))
		}
	})
	bs.b.OnError(func(b bond.Batch, err error) {
		log(b, "error%d", n)
		bs.cbErr = err
	})
	bs.b.OnClose(func(b bond.Batch) { log(b, "close%d", n) })
	if veto && bs.vetoAt == 0 {
		bs.vetoAt = n + 1
	}
}

// probe reads rows of a batch from outside during its commit.
func (t *task) probe(bs *batchState, after bool, who string) {
	e := t.e
	ds := bs.deltas()
	if len(ds) > 4 {
		ds = []delta{ds[0], ds[1], ds[len(ds)/2], ds[len(ds)-1]}
	}
	for _, d := range ds {
		got, err := e.tabs[d.tab].GetPoint(newCtx(0), prog.Row{ID: d.id})
		e.alive()
		var g *prog.Row
		if err == nil {
			g = &got
		} else if !errors.Is(err, bond.ErrNotFound) {
			if !e.faulty {
				failNow("spurious-error", "a read in an %s failed: %v", who, err)
			}
			continue
		}
		want := d.after
		if !after {
			want = lookup(e.cur[d.tab], d.id)
		}
		e.res.Checks++
		if !model.SameP(g, want) {
			failNow("callback-time", "%s reads key %d of table %d as %s, expected %s (before the commit it is %s)", who, d.id, d.tab, model.ShowP(g), model.ShowP(want), model.ShowP(lookup(e.cur[d.tab], d.id)))
		}
	}
}

// wantCb adds the callbacks expected to have run; upTo: how many of the kind.
func (bs *batchState) wantCb(kind string, upTo int) {
	for i := 0; i < upTo; i++ {
		bs.want = append(bs.want, fmt.Sprintf("%s%d", kind, i))
	}
}

func (t *task) callbacks(bs *batchState, after string) {
	if o := bs.forgot; o != nil && len(o.cb) != len(o.want)-1 {
		failNow("callbacks", "after %s callbacks registered before a reset ran: %v", after, o.cb[len(o.want)-1:])
	}
	if strings.Join(bs.cb, " ") != strings.Join(bs.want, " ") {
		failNow("callbacks", "after %s the batch callbacks ran were [%s], expected [%s]", after, strings.Join(bs.cb, " "), strings.Join(bs.want, " "))
	}
}

func (t *task) addToBatch(bs *batchState, ds []delta) {
	bs.n += len(ds)
	for _, d := range ds {
		if bs.over[d.tab] == nil {
			bs.over[d.tab] = map[uint64]*prog.Row{}
			bs.before[d.tab] = map[uint64]*prog.Row{}
		}
		if _, ok := bs.over[d.tab][d.id]; !ok {
			bs.before[d.tab][d.id] = lookup(t.e.cur[d.tab], d.id)
		}
		bs.over[d.tab][d.id] = d.after
	}
}

func (bs *batchState) deltas() []delta {
	var out []delta
	var tabs []int
	for tb := range bs.over {
		tabs = append(tabs, tb)
	}
	sort.Ints(tabs)
	for _, tb := range tabs {
		var ids []uint64
		for id := range bs.over[tb] {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			out = append(out, delta{tb, id, bs.before[tb][id], bs.over[tb][id]})
		}
	}
	return out
}

func (t *task) commitBatch(op *prog.Op) {
	e := t.e
	bs := t.batch[op.B]
	if bs == nil || bs.done || bs.poisoned || e.stopWrite {
		return
	}
	c := &commit{task: t.n, sync: op.Sync, what: "batch", deltas: bs.deltas()}
	empty := bs.b.Empty()
	if empty && len(c.deltas) > 0 {
		for _, d := range c.deltas {
			if !(d.before == nil && d.after == nil) {
				failNow("batch-lost", "batch %d holds changes but says it is empty", op.B)
			}
		}
	}
	refused := op.Sync && e.noWAL
	c.start = e.begin()
	if !empty && !refused {
		e.commits = append(e.commits, c)
	}
	opt := bond.NoSync
	if op.Sync {
		opt = bond.Sync
	}
	var err error
	bs.probing = true
	bs.cbErr = nil
	if op.Mode == 2 {
		err = e.db.Apply(bs.b, opt)
	} else {
		err = bs.b.Commit(opt)
	}
	c.end = e.ended()
	bs.probing = false
	e.trace("task %d commit batch %d sync=%v rows %d -> %v", t.n, op.B, op.Sync, len(c.deltas), err)
	if empty {
		if err != nil {
			failNow("spurious-error", "commit of an empty batch failed: %v", err)
		}
		t.callbacks(bs, "commit of an empty batch")
		return
	}
	if bs.veto {
		bs.wantCb("commit", bs.vetoAt)
	} else {
		bs.wantCb("commit", bs.nhooks)
	}
	drop := func() {
		for i, x := range e.commits {
			if x == c {
				e.commits = append(e.commits[:i:i], e.commits[i+1:]...)
			}
		}
	}
	switch {
	case bs.veto:
		drop()
		if err != errVeto {
			failNow("veto", "a commit callback refused the commit, which returned %v", err)
		}
		bs.veto = false // a second try may pass
	case refused:
		// nothing is written, the batch is as it was
		bs.wantCb("error", bs.nhooks)
		if err == nil {
			failNow("accepted", "the synchronous commit of batch %d succeeded without a write-ahead log", op.B)
		}
		if bs.nhooks > 0 && bs.cbErr != err {
			failNow("callbacks", "the commit failed with %v, its OnError callback was given %v", err, bs.cbErr)
		}
	case err == nil:
		bs.wantCb("committed", bs.nhooks)
		bs.done = true
		c.st = stOK
		e.apply(c)
		bs.over = map[int]map[uint64]*prog.Row{}
	case e.wfaulty:
		bs.wantCb("error", bs.nhooks)
		if bs.nhooks > 0 && bs.cbErr != err {
			failNow("callbacks", "the commit failed with %v, its OnError callback was given %v", err, bs.cbErr)
		}
		c.st = stUnknown
		e.stopWrite = true
		bs.done = true
	default:
		failNow("spurious-error", "batch commit failed without a fault: %v", err)
	}
	t.callbacks(bs, "commit")
}

func (t *task) closeBatch(n int) {
	e := t.e
	bs := t.batch[n]
	if bs == nil {
		return
	}
	e.begin()
	delete(t.batch, n)
	err := bs.b.Close()
	e.ended()
	bs.wantCb("close", bs.nhooks)
	e.trace("task %d close batch %d -> %v", t.n, n, err)
	if err != nil {
		failNow("batch-close", "closing a batch failed: %v", err)
	}
	t.callbacks(bs, "close")
}

func (t *task) resetBatch(op *prog.Op) {
	e := t.e
	bs := t.batch[op.B]
	if bs == nil || bs.done && e.stopWrite {
		return
	}
	e.begin()
	id := bs.b.ID()
	bs.b.Reset()
	e.ended()
	if !bs.b.Empty() || bs.b.Len() > 12 {
		failNow("batch-reset", "a reset batch is not empty")
	}
	if bs.b.ID() == id {
		failNow("batch-id", "a reset batch kept its id %d", id)
	}
	e.trace("task %d reset batch %d", t.n, op.B)
	nb := &batchState{b: bs.b, rw: bs.rw, over: map[int]map[uint64]*prog.Row{}, before: map[int]map[uint64]*prog.Row{}}
	t.callbacks(bs, "reset")
	bs.wantCb("forgotten", 1) // none of these may run again
	if op.N != 1 {
		// without callbacks of its own a reset batch runs none
		t.hooks(nb, op.N)
	}
	nb.forgot = bs
	t.batch[op.B] = nb
}

// applyBatch merges one batch into another.
func (t *task) applyBatch(op *prog.Op) {
	e := t.e
	in, out := t.batch[op.B], t.batch[op.N]
	if in == nil || out == nil || in == out || in.done || out.done || in.poisoned || out.poisoned || e.stopWrite {
		return
	}
	for tb, m := range in.over {
		for id := range m {
			if _, ok := out.over[tb][id]; ok {
				return
			}
		}
	}
	e.begin()
	empty := in.b.Empty()
	err := out.b.Apply(in.b, bond.Sync)
	e.ended()
	e.trace("task %d apply batch %d to %d -> %v", t.n, op.B, op.N, err)
	if in.veto {
		in.wantCb("commit", in.vetoAt)
	} else {
		in.wantCb("commit", in.nhooks)
	}
	if in.veto {
		if err != errVeto {
			failNow("veto", "a commit callback refused, Apply returned %v", err)
		}
		in.veto = false
		t.callbacks(in, "refused apply")
		return
	}
	if err != nil {
		failNow("spurious-error", "applying a batch to a batch failed: %v", err)
	}
	_ = empty
	in.wantCb("committed", in.nhooks)
	t.callbacks(in, "apply")
	t.callbacks(out, "an apply of another batch to it")
	for tb, m := range in.over {
		if out.over[tb] == nil {
			out.over[tb] = map[uint64]*prog.Row{}
			out.before[tb] = map[uint64]*prog.Row{}
		}
		for id, r := range m {
			out.over[tb][id] = r
			out.before[tb][id] = in.before[tb][id]
		}
	}
	in.over = map[int]map[uint64]*prog.Row{}
	in.done = true
}

func (e *Engine) arm(f *prog.Fault) *simfs.Fault {
	e.faulty = true
	if f.Kind != "read" && f.Kind != "open" && f.Kind != "stat" && f.Kind != "list" {
		e.wfaulty = true
	}
	x := &simfs.Fault{Kind: f.Kind, Class: f.Class, Errno: f.Errno, Skip: f.Skip, Count: f.Count, Short: f.Short, Crash: f.Crash}
	e.fs.Faults = append(e.fs.Faults, x)
	return x
}

func (e *Engine) disarm(f *simfs.Fault) {
	for i, x := range e.fs.Faults {
		if x == f {
			e.fs.Faults = append(e.fs.Faults[:i:i], e.fs.Faults[i+1:]...)
			return
		}
	}
}
