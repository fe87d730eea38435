package main

import (
	"errors"
	"fmt"
	"path"
	"sort"

	"bondsim/model"
	"bondsim/prog"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

// dump remembers what a Dump contains.
type dump struct {
	path     string
	tabs     []int
	withIdx  bool
	exact    []model.Rows // nil: not known, an observation is recorded on restore
	seen     []model.Rows // what a restore of it brought
	start    uint64
	end      uint64
	indexes  [][]int
	retry    []map[int]bool // indexes that are not kept at the moment
	phase    int
	restored int
	hash     uint64 // of the files
	synced   bool   // somebody ran sync afterwards
}

// target is a database a backup was restored into.
type target struct {
	format  int
	dir     string
	d       *dump
	tabs    []int
	withIdx bool
	ok      bool // Restore returned nil
	started bool // Restore was called
	changed bool // rows were written afterwards
	other   []model.Rows
	re      map[int]bool // tables whose indexes were built afterwards
}

// dump writes a backup of some tables.
func (t *task) dump(op *prog.Op) {
	e := t.e
	if len(e.tabs) == 0 {
		return
	}
	var tabs []int
	var ids []bond.TableID
	for _, i := range op.Tabs {
		if t.tabOK(i) && !contains(tabs, i) {
			tabs = append(tabs, i)
			ids = append(ids, bond.TableID(e.specs[i].ID))
		}
	}
	d := &dump{path: op.Name, tabs: tabs, withIdx: op.Full, phase: e.phase}
	if e.dumps[op.Name] != nil || e.fs.Exists(op.Name) {
		return
	}
	idx := make([][]int, len(e.tabs))
	d.retry = make([]map[int]bool, len(e.tabs))
	for _, i := range tabs {
		idx[i] = append([]int(nil), e.indexes[i]...)
		d.retry[i] = map[int]bool{}
		for _, x := range e.retryIdx[i] {
			d.retry[i][x] = true
		}
	}
	d.start = e.begin()
	err := e.db.Dump(newCtx(0), op.Name, ids, op.Full)
	d.end = e.ended()
	e.trace("task %d dump %s tables %v index %v -> %v", t.n, op.Name, tabs, op.Full, err)
	if err != nil {
		if !e.faulty {
			failNow("dump", "Dump to %s failed without a fault: %v", op.Name, err)
		}
		return
	}
	d.indexes = idx
	d.hash = e.fs.TreeHash(d.path)
	if op.N&1 == 0 {
		e.fs.SyncTree(d.path)
		d.synced = true
	}
	if t.exactOK() {
		d.exact = make([]model.Rows, len(e.tabs))
		for _, i := range tabs {
			d.exact[i] = e.cur[i].Clone()
		}
	}
	e.dumps[op.Name] = d
	e.dumpList = append(e.dumpList, d)
}

func (e *Engine) openTarget(tg *target) (bond.DB, error) {
	return bond.Open(tg.dir, &bond.Options{PebbleOptions: e.pebbleOptionsFor(tg.format), Serializer: serializer(e.p.Cfg.Ser)})
}

func (d *dump) intact(e *Engine, after string) {
	if e.fs.TreeHash(d.path) != d.hash {
		failNow("backup-changed", "the backup %s is not what it was after %s: %v", d.path, after, e.fs.Files(d.path))
	}
}

// restore brings a backup into a fresh database and compares.
func (t *task) restore(op *prog.Op) {
	e := t.e
	d := e.dumps[op.Name]
	if d == nil || d.phase != e.phase {
		return
	}
	e.restoreFrom(t.n, d, op)
}

func (e *Engine) restoreFrom(who int, d *dump, op *prog.Op) {
	d.restored++
	tg := &target{format: e.curFormat, dir: fmt.Sprintf("/sim/r_%s_%d", path.Base(d.path), d.restored), d: d}
	tg.withIdx = op.Full
	for _, i := range op.Tabs {
		if contains(d.tabs, i) && !contains(tg.tabs, i) {
			tg.tabs = append(tg.tabs, i)
		}
	}
	e.begin()
	e.fs.Put(tg.dir+"/.keep", nil)
	db, err := e.openTarget(tg)
	if err != nil {
		e.ended()
		if !e.faulty {
			failNow("restore", "a fresh database does not open: %v", err)
		}
		return
	}
	if op.N&2 != 0 && !e.faulty {
		e.fillOthers(db, tg)
	}
	var ids []bond.TableID
	for _, i := range tg.tabs {
		ids = append(ids, bond.TableID(e.specs[i].ID))
	}
	if op.Mode == 1 {
		// a table that is not in the backup: refused, nothing happens
		if err := db.Restore(newCtx(0), d.path, append([]bond.TableID{201}, ids...), tg.withIdx); err == nil {
			failNow("restore", "Restore of a table that is not in the backup succeeded")
		}
		e.alive()
		e.nothing(db, tg, "a refused Restore")
	}
	e.targets = append(e.targets, tg)
	tg.started = true
	err = db.Restore(newCtx(0), d.path, ids, tg.withIdx)
	e.ended()
	tg.ok = err == nil
	e.trace("task %d restore %s to %s tables %v index %v -> %v", who, d.path, tg.dir, tg.tabs, tg.withIdx, err)
	if err != nil && !e.faulty {
		failNow("restore", "Restore of %s failed without a fault: %v", d.path, err)
	}
	d.intact(e, "a Restore")
	if err == nil {
		e.checkRestored(db, tg, op.N&1)
	}
	e.alive()
	if op.N&1 != 0 && err == nil {
		// from here on its rows are its own
		e.forget(tg)
	}
	if cerr := db.Close(); cerr != nil && !e.faulty {
		failNow("restore", "closing a restored database failed: %v", cerr)
	}
	e.alive()
	if err != nil || op.Mode == 2 {
		// a restored database is an ordinary one: it survives a restart; after a
		// failure it has nothing or everything and the Restore can be repeated
		if err != nil {
			e.noFaults()
		}
		e.revisit(tg)
	}
	e.forget(tg)
}

func (e *Engine) forget(tg *target) {
	for i, x := range e.targets {
		if x == tg {
			e.targets = append(e.targets[:i:i], e.targets[i+1:]...)
			return
		}
	}
}

// revisit opens a target again, after an error, a crash or a clean stop.
func (e *Engine) revisit(tg *target) {
	what := "a Restore that succeeded"
	if !tg.ok {
		what = "a Restore that failed or was interrupted"
	}
	db, err := e.openTarget(tg)
	e.alive()
	if err != nil {
		if e.faulty && (e.fs.Faults != nil || e.ntasks > 1) {
			return
		}
		failNow("restore", "the target of %s does not open: %v", what, err)
	}
	defer func() {
		e.alive()
		_ = db.Close()
		e.alive()
	}()
	if tg.changed {
		return
	}
	e.checkOthers(db, tg)
	n := 0
	for _, i := range tg.tabs {
		r, x := e.rawKeys(db, e.specs[i].ID)
		n += r + x
	}
	e.alive()
	e.trace("target %s of %s holds %d entries", tg.dir, what, n)
	if n > 0 || tg.ok {
		e.checkRestored(db, tg, 0)
		return
	}
	empty := true
	for _, i := range tg.tabs {
		if tg.d.seen != nil && len(tg.d.seen[i]) > 0 || tg.d.exact != nil && len(tg.d.exact[i]) > 0 {
			empty = false
		}
	}
	if tg.d.phase != e.phase && !tg.d.synced || empty {
		return
	}
	// nothing was brought: try again
	var ids []bond.TableID
	for _, i := range tg.tabs {
		ids = append(ids, bond.TableID(e.specs[i].ID))
	}
	err = db.Restore(newCtx(0), tg.d.path, ids, tg.withIdx)
	e.alive()
	e.trace("restore to %s again -> %v", tg.dir, err)
	if err != nil {
		if e.faulty && (e.fs.Faults != nil || e.ntasks > 1) {
			return
		}
		failNow("restore", "repeating %s failed: %v", what, err)
	}
	e.res.OpKinds["restore-again"]++
	e.checkRestored(db, tg, 0)
}

// afterCrash checks the databases that were being restored when the process
// died, and that the backups are as they were.
func (e *Engine) afterCrash() {
	for _, d := range e.dumpList {
		if !d.synced || d.phase >= e.phase {
			continue
		}
		d.intact(e, "a crash")
	}
	for len(e.targets) > 0 {
		tg := e.targets[0]
		if tg.started {
			if tg.d.synced && tg.d.exact == nil && tg.d.seen == nil {
				// what should be there is not known yet
				e.restoreFrom(-1, tg.d, &prog.Op{Full: tg.d.withIdx, Tabs: tg.d.tabs})
			}
			e.revisit(tg)
		}
		e.alive()
		e.forget(tg)
	}
}

// rawKeys counts the entries of a table: rows and index entries.
func (e *Engine) rawKeys(db bond.DB, id int) (rows, index int) {
	it, err := db.Backend().NewIter(&pebble.IterOptions{LowerBound: []byte{byte(id)}, UpperBound: []byte{byte(id + 1)}})
	if err != nil {
		e.alive()
		if !e.faulty {
			failNow("restore", "reading a restored database failed: %v", err)
		}
		return
	}
	for it.First(); it.Valid(); it.Next() {
		if it.Key()[1] == 0 {
			rows++
		} else {
			index++
		}
	}
	_ = it.Close()
	return
}

func (e *Engine) nothing(db bond.DB, tg *target, after string) {
	for _, i := range tg.tabs {
		if r, x := e.rawKeys(db, e.specs[i].ID); r+x > 0 {
			failNow("restore", "after %s table %d has %d rows and %d index entries", after, i, r, x)
		}
	}
}

// fillOthers writes rows of the tables that are not restored.
func (e *Engine) fillOthers(db bond.DB, tg *target) {
	tg.other = make([]model.Rows, len(e.specs))
	for i := range e.specs {
		if e.specs[i].KV || contains(tg.tabs, i) || contains(tg.d.tabs, i) && i%2 == 0 {
			continue
		}
		tb, err := newTab(db, e.specs[i], nil)
		if err != nil {
			failNow("restore", "table of a fresh database: %v", err)
		}
		var rows []prog.Row
		tg.other[i] = model.Rows{}
		for j := 0; j < 3; j++ {
			r := prog.Row{ID: uint64(j * 3), A: uint32(j), B: 1 << 40, S: "ab", P: []byte{1, 2, 3}, V: uint64(1<<50 + j)}
			rows = append(rows, r)
			tg.other[i][r.ID] = r
		}
		err = tb.Insert(newCtx(0), rows)
		e.alive()
		if err != nil {
			if e.faulty {
				tg.other = nil
				return
			}
			failNow("restore", "filling a fresh database: %v", err)
		}
	}
}

// checkOthers: what was not asked for is untouched.
func (e *Engine) checkOthers(db bond.DB, tg *target) {
	ctx := newCtx(0)
	for i := range e.specs {
		if e.specs[i].KV || contains(tg.tabs, i) {
			continue
		}
		if tg.other == nil || tg.other[i] == nil {
			r, x := e.rawKeys(db, e.specs[i].ID)
			if r+x > 0 {
				failNow("restore", "table %d was not asked for but a restore brought %d rows and %d index entries", i, r, x)
			}
			continue
		}
		tb, err := newTab(db, e.specs[i], nil)
		if err == nil {
			var rows []prog.Row
			rows, err = tb.Scan(ctx, false)
			if w := model.Select(tg.other[i], e.specs[i].PK, 0, nil); err == nil && !same(rows, w) {
				failNow("restore", "table %d was not asked for; it had %s, after a restore it has %s", i, model.ShowList(w), model.ShowList(rows))
			}
		}
		for _, ix := range e.specs[i].Idx {
			if err == nil {
				var rows []prog.Row
				sel := fullSel(e.specs[i].PK, ix)
				rows, err = tb.ScanIndex(ctx, ix, sel, false)
				if w := model.Select(tg.other[i], e.specs[i].PK, ix, sel); err == nil && !same(rows, w) {
					failNow("restore", "index %d of table %d was not asked for; after a restore it has %s, the rows say %s", ix, i, model.ShowList(rows), model.ShowList(w))
				}
			}
		}
		e.alive()
		if err != nil && !e.faulty {
			failNow("restore", "reading a restored database failed: %v", err)
		}
	}
}

// checkRestored compares the tables of a restored database with the backup.
func (e *Engine) checkRestored(db bond.DB, tg *target, more int) {
	ctx := newCtx(0)
	d := tg.d
	withIdx := tg.withIdx && d.withIdx
	state := make([]model.Rows, len(e.specs))
	tables := make([]tableOps, len(e.specs))
	bad := func(err error) bool {
		e.alive()
		if err == nil {
			return false
		}
		if !e.faulty {
			failNow("restore", "reading a restored database failed: %v", err)
		}
		return true
	}
	e.checkOthers(db, tg)
	for _, i := range tg.tabs {
		sp := e.specs[i]
		sp.Idx = nil
		if withIdx {
			sp.Idx = d.indexes[i]
		}
		tb, err := newTab(db, sp, nil)
		if bad(err) {
			return
		}
		tables[i] = tb
		rows, err := tb.Scan(ctx, false)
		if bad(err) {
			return
		}
		state[i] = model.Rows{}
		for _, r := range rows {
			state[i][r.ID] = r
		}
		if d.exact != nil {
			if w := model.Select(d.exact[i], sp.PK, 0, nil); !same(rows, w) {
				failNow("restore", "table %d restored from %s holds %s, the backup was made of %s", i, d.path, model.ShowList(rows), model.ShowList(w))
			}
		}
		if d.seen != nil && d.seen[i] != nil {
			if w := model.Select(d.seen[i], sp.PK, 0, nil); !same(rows, w) {
				failNow("restore", "table %d restored from %s holds %s, an earlier restore of the same backup brought %s", i, d.path, model.ShowList(rows), model.ShowList(w))
			}
		}
		if !withIdx {
			if _, x := e.rawKeys(db, sp.ID); x > 0 && !tg.reindexed(i) {
				failNow("restore", "%d index entries of table %d were restored that nobody asked for", x, i)
			}
			// the entries were left out; re-indexing brings them
			if tg.re == nil {
				tg.re = map[int]bool{}
			}
			tg.re[i] = true
			if err := tb.AddIndex(d.indexes[i], true); bad(err) {
				return
			}
		}
		for _, ix := range d.indexes[i] {
			if d.retry[i][ix] && withIdx {
				continue
			}
			sel := fullSel(sp.PK, ix)
			rows, err := tb.ScanIndex(ctx, ix, sel, false)
			if bad(err) {
				return
			}
			if w := model.Select(state[i], sp.PK, ix, sel); !same(rows, w) {
				failNow("restore", "index %d of restored table %d holds %s, the rows say %s", ix, i, model.ShowList(rows), model.ShowList(w))
			}
		}
	}
	if d.seen == nil {
		d.seen = make([]model.Rows, len(e.specs))
	}
	for _, i := range tg.tabs {
		if d.seen[i] == nil {
			d.seen[i] = state[i].Clone()
		}
	}
	if d.exact == nil && !e.faulty && d.phase == e.phase {
		o := &obsv{start: d.start, end: d.end, what: "backup " + d.path, tab: -1, multi: make([]model.Rows, len(e.specs))}
		for _, i := range tg.tabs {
			o.multi[i] = state[i].Clone()
		}
		e.vobs = append(e.vobs, o)
	}
	e.res.Checks++
	// life goes on in the restored database
	for _, i := range tg.tabs {
		ids := make([]uint64, 0, len(state[i]))
		for id := range state[i] {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		if more == 0 || len(ids) == 0 {
			continue
		}
		id, r := ids[0], state[i][ids[0]]
		err := tables[i].Insert(ctx, []prog.Row{r})
		e.alive()
		if err == nil {
			failNow("restore", "the restored table %d accepts an insert of key %d, which it holds", i, id)
		}
		tg.changed = true
		err = tables[i].Delete(ctx, []prog.Row{r})
		if bad(err) {
			return
		}
		_, err = tables[i].GetPoint(ctx, r)
		if e.alive(); !errors.Is(err, bond.ErrNotFound) && !e.faulty {
			failNow("restore", "a deleted row of a restored table still reads: %v", err)
		}
		err = tables[i].Insert(ctx, []prog.Row{r})
		if bad(err) {
			return
		}
		tg.changed = false
	}
}

func (tg *target) reindexed(i int) bool { return tg.re[i] }
