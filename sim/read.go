package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"bondsim/model"
	"bondsim/prog"

	"github.com/go-bond/bond"
)

// exactOK: the task can predict answers exactly (nobody else writes and no
// commit has an unknown outcome).
func (t *task) exactOK() bool { return t.e.ntasks <= 1 && t.e.certain() }

func same(a, b []prog.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !model.Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func reversed(rs []prog.Row) []prog.Row {
	out := make([]prog.Row, len(rs))
	for i := range rs {
		out[len(rs)-1-i] = rs[i]
	}
	return out
}

// heeded: a walk over rows looks at its context.
func heeded(what string, ctx *cctx, rows int) {
	if ctx.before && rows > 0 {
		failNow("cancel-ignored", "%s with a context cancelled before the call succeeded with %d rows", what, rows)
	}
}

// readErr judges an error of a read; true: the read is over.
func (t *task) readErr(what string, err error, ctx *cctx) bool {
	if err == nil {
		return false
	}
	e := t.e
	switch {
	case errors.Is(err, bond.ErrNotFound):
		return false // judged by the caller
	case ctx != nil && ctx.fired:
		if !errors.Is(err, context.Canceled) && !e.faulty {
			failNow("cancel-error", "%s with a cancelled context failed with an unrelated error: %v", what, err)
		}
	case e.faulty:
	default:
		failNow("spurious-error", "%s failed without any fault: %v", what, err)
	}
	return true
}

func selStr(s *prog.Sel) string {
	if s == nil {
		return "all"
	}
	x := s.Type
	for _, r := range s.Rows {
		x += " " + model.Show(r)
	}
	return x
}

func (t *task) read(op *prog.Op) {
	e := t.e
	var bs *batchState
	if op.B != 0 {
		bs = t.batch[op.B]
		if bs == nil || bs.done || bs.poisoned || !bs.rw {
			return
		}
	}
	a := t.args(op, bs)
	tb := e.tabs[op.T]
	sp := &e.specs[op.T]
	if op.Idx != 0 && !tb.HasIndex(op.Idx) {
		return
	}
	ctx := newCtx(op.Ctx)
	if op.Ctx == 1 {
		ctx.look()
		ctx.before = true
	}
	b := 0
	if bs != nil {
		b = op.B
	}
	view := func() model.Rows { return t.view(op.T, b) }
	note := func(rows []prog.Row, keys map[uint64]bool, match func(prog.Row) bool, start, end uint64, what string) {
		if bs != nil {
			return // the task's own uncommitted rows are in it
		}
		e.observe(start, end, what, op.T, keys, match, rows)
	}
	switch op.K {
	case "getp", "exist":
		r := op.Rows[0]
		start := e.begin()
		var got *prog.Row
		var err error
		if op.K == "getp" {
			var g prog.Row
			g, err = tb.GetPoint(ctx, r, a...)
			if err == nil {
				got = &g
			}
		}
		ex := false
		if op.K == "exist" {
			ex = tb.Exist(r, a...)
		}
		end := e.ended()
		e.trace("task %d %s table %d id %d batch %d -> %s %v %v", t.n, op.K, op.T, r.ID, b, model.ShowP(got), ex, err)
		if t.readErr(op.K, err, ctx) {
			return
		}
		if op.K == "exist" {
			if e.faulty {
				return // the call has no way to report an error
			}
			if t.exactOK() {
				e.res.Checks++
				if _, want := view()[r.ID]; want != ex {
					failNow("exist", "Exist of key %d in table %d says %v, expected %v (batch %d)", r.ID, op.T, ex, want, b)
				}
			}
			return
		}
		if t.exactOK() || bs != nil && t.owns(r.ID) && e.certain() {
			e.res.Checks++
			if want := lookup(view(), r.ID); !model.SameP(got, want) {
				failNow("get", "key %d of table %d (batch %d) reads %s, expected %s", r.ID, op.T, b, model.ShowP(got), model.ShowP(want))
			}
		}
		var rows []prog.Row
		if got != nil {
			if got.ID != r.ID {
				failNow("get", "key %d of table %d reads the record %s", r.ID, op.T, model.Show(*got))
			}
			rows = []prog.Row{*got}
		}
		note(rows, map[uint64]bool{r.ID: true}, nil, start, end, "get")
	case "get":
		start := e.begin()
		res, err := tb.Get(ctx, op.Sel, a...)
		end := e.ended()
		var rows []prog.Row
		for _, r := range res {
			if r != nil {
				rows = append(rows, *r)
			}
		}
		e.trace("task %d get table %d %s batch %d -> %s %v", t.n, op.T, op.Sel.Type, b, model.ShowList(rows), err)
		if t.readErr("Get", err, ctx) {
			return
		}
		notFound := err != nil
		v := view()
		switch op.Sel.Type {
		case "point", "points":
			if op.Sel.Type == "points" && notFound && len(op.Sel.Rows) > 0 {
				if e.faulty {
					failNow("get", "Get of points reports not found where a read failed: %v", err)
				}
				failNow("get", "Get of points failed: %v", err)
			}
			if notFound {
				res = []*prog.Row{nil}
			}
			if len(res) != len(op.Sel.Rows) {
				failNow("get", "Get of %d points of table %d returned %d rows", len(op.Sel.Rows), op.T, len(res))
			}
			keys := map[uint64]bool{}
			dedup := map[uint64]*prog.Row{}
			for i, r := range op.Sel.Rows {
				if res[i] != nil && res[i].ID != r.ID {
					failNow("get", "point %d (key %d) of a Get of table %d reads the record %s", i, r.ID, op.T, model.Show(*res[i]))
				}
				if t.exactOK() || bs != nil && t.owns(r.ID) && e.certain() {
					e.res.Checks++
					if want := lookup(v, r.ID); !model.SameP(res[i], want) {
						failNow("get", "point %d (key %d) of a Get of table %d (batch %d) reads %s, expected %s", i, r.ID, op.T, b, model.ShowP(res[i]), model.ShowP(want))
					}
				}
				if old, ok := dedup[r.ID]; ok && !model.SameP(old, res[i]) {
					failNow("get", "one Get of table %d reads key %d as %s and as %s", op.T, r.ID, model.ShowP(old), model.ShowP(res[i]))
				}
				keys[r.ID] = true
				dedup[r.ID] = res[i]
			}
			rows = rows[:0:0]
			for _, id := range sortedKeys(dedup) {
				if dedup[id] != nil {
					rows = append(rows, *dedup[id])
				}
			}
			note(rows, keys, nil, start, end, "get "+op.Sel.Type)
		default:
			if notFound {
				failNow("get", "Get of %s failed: %v", op.Sel.Type, err)
			}
			t.judge(op, bs, 0, op.Sel, false, rows, start, end, "Get "+op.Sel.Type)
		}
	case "refuse":
		e.begin()
		what, n, err := tb.Refused(ctx, op.Idx, op.Sel, op.N, a...)
		e.ended()
		e.trace("task %d query with a part that has %s -> %d rows, %v", t.n, what, n, err)
		e.res.Checks++
		if err == nil || n > 0 {
			failNow("refused", "a query intersected with one that has %s, which it does not apply, returned %d rows, %v", what, n, err)
		}
	case "scan", "scani":
		ix := op.Idx
		sel := op.Sel
		if op.K == "scan" {
			ix, sel = 0, nil
		}
		t.scan(op, bs, ctx, ix, sel, a)
	case "query", "iquery":
		q := *op.Q
		if op.K == "iquery" {
			x := inspectable(op.Q, op.Mode&5 != 0)
			if x == nil {
				return
			}
			q = *x
		}
		ok := q.Idx == 0 || tb.HasIndex(q.Idx)
		for _, in := range q.Inter {
			ok = ok && (in.Idx == 0 || tb.HasIndex(in.Idx))
		}
		if !ok {
			return
		}
		v := view()
		full := model.Unpaged(v, sp.PK, &q)
		after := -1
		var ar *prog.Row
		if q.After != nil && len(full) > 0 {
			after = int(*q.After % uint64(len(full)))
			ar = &full[after]
		}
		start := e.begin()
		var rows []prog.Row
		var err error
		if op.K == "iquery" {
			rows, err = t.iquery(op, ctx, &q, ar)
			if err == errNet {
				e.ended()
				return
			}
		} else {
			rows, err = tb.Query(ctx, &q, ar, a...)
		}
		end := e.ended()
		e.trace("task %d %s table %d idx %d %s batch %d -> %s %v", t.n, op.K, op.T, q.Idx, selStr(q.Sel), b, model.ShowList(rows), err)
		if t.readErr("Query", err, ctx) {
			return
		}
		heeded("Query", ctx, len(rows))
		if err != nil {
			failNow("query", "query of table %d index %d (%s) reports %v", op.T, q.Idx, selStr(q.Sel), err)
		}
		if t.exactOK() {
			e.res.Checks++
			want := model.Page(full, after, &q)
			if !same(rows, want) {
				failNow("query", "query of table %d %s after=%s (batch %d, faults %v) returned %s, expected %s", op.T, qStr(&q), model.ShowP(ar), b, e.faulty, model.ShowList(rows), model.ShowList(want))
			}
			return
		}
		if q.Offset == 0 && q.Limit == 0 && ar == nil && bs == nil {
			m := func(r prog.Row) bool { return len(model.Unpaged(model.Rows{r.ID: r}, sp.PK, &q)) > 0 }
			checkSorted(rows, func(x, y prog.Row) bool {
				if q.Order != "" {
					// several points or ranges may select a row twice
					return model.Less(q.Order, x, y) || model.Same(x, y) && q.Sel != nil && (q.Sel.Type == "points" || q.Sel.Type == "ranges")
				}
				c := model.Cmp(sp.PK, q.Idx, x, y)
				if len(q.Inter) > 0 {
					c = model.Cmp(sp.PK, 0, x, y)
				} else if q.Reverse {
					c = -c
				}
				return c < 0
			}, q.Order == "" && len(q.Inter) == 0 && q.Sel != nil && (q.Sel.Type == "points" || q.Sel.Type == "ranges"), "query")
			note(rows, nil, m, start, end, "query "+qStr(&q))
		}
	}
}

func qStr(q *prog.Query) string {
	s := fmt.Sprintf("index %d selector %s reverse=%v offset=%d limit=%d order=%q", q.Idx, selStr(q.Sel), q.Reverse, q.Offset, q.Limit, q.Order)
	if q.Filter != nil {
		s += fmt.Sprintf(" filter=%+v", *q.Filter)
	}
	for _, in := range q.Inter {
		s += fmt.Sprintf(" intersect index %d %s", in.Idx, selStr(&in.Sel))
	}
	return s
}

func sortedKeys(m map[uint64]*prog.Row) []uint64 {
	var ids []uint64
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func checkSorted(rows []prog.Row, less func(a, b prog.Row) bool, multi bool, what string) {
	if multi {
		return
	}
	for i := 1; i < len(rows); i++ {
		if !less(rows[i-1], rows[i]) {
			failNow("order", "%s returned %s before %s", what, model.Show(rows[i-1]), model.Show(rows[i]))
		}
	}
}

func (t *task) scan(op *prog.Op, bs *batchState, ctx *cctx, ix int, sel *prog.Sel, a []bond.Batch) {
	e := t.e
	tb := e.tabs[op.T]
	mode := op.Mode & 15
	var rows []prog.Row
	stopped := false
	calls, gaps := 0, 0
	var err error
	start := e.begin()
	if mode > 5 && e.specs[op.T].KV || mode == 9 && (bs != nil || e.shared != nil) {
		mode = 1
	}
	if mode == 9 && t.exactOK() {
		// deletions in between must not matter
		t.was = t.view(op.T, 0).Clone()
		defer func() { t.was = nil }()
	}
	switch mode {
	case 0:
		if sel == nil {
			rows, err = tb.Scan(ctx, op.Rev, a...)
		} else {
			rows, err = tb.ScanIndex(ctx, ix, sel, op.Rev, a...)
		}
	case 7:
		rows, err = tb.AnyScan(ctx, ix, sel, op.Rev, op.N, a...)
	case 8:
		t.walk(op, bs, ctx, ix, sel, a)
		return
	default:
		// 1: every record; 2: stop after N; 3: every third record skipped;
		// 4: records read twice; 5: the callback fails after N; 6: other reads
		// in the callback; 9: the callback deletes the record; 10: a record that
		// cannot be read is tried again, then left out
		err = tb.ScanForEach(ctx, ix, sel, op.Rev, func(get func() (prog.Row, error)) (bool, error) {
			calls++
			if calls > 100000 {
				failNow("scan-endless", "a scan of table %d index %d calls back forever", op.T, ix)
			}
			if mode == 3 && calls%3 == op.N%3 {
				rows = append(rows, prog.Row{ID: 1 << 60})
				return true, nil
			}
			r, err := get()
			if err != nil && mode == 10 {
				gaps++
				if r, err = get(); err != nil {
					rows = append(rows, prog.Row{ID: 1 << 60})
					return true, nil
				}
			}
			if err != nil {
				return false, err
			}
			if mode == 4 {
				r2, err := get()
				if err != nil {
					return false, err
				}
				if !model.Same(r, r2) {
					failNow("lazy", "reading a record of a scan twice gives %s and %s", model.Show(r), model.Show(r2))
				}
			}
			rows = append(rows, r)
			if mode == 6 && calls%op.N == 0 && calls <= 3*op.N {
				t.nested(op, bs, ix, sel, r, calls)
			}
			if mode == 9 && calls%op.N == 0 {
				t.write(&prog.Op{K: "del", T: op.T, Rows: []prog.Row{{ID: r.ID}}})
			}
			if mode == 2 && calls >= op.N {
				stopped = true
				return false, nil
			}
			if mode == 5 && calls >= op.N {
				return true, errVeto
			}
			return true, nil
		}, a...)
	}
	end := e.ended()
	e.trace("task %d scan table %d index %d %s rev=%v mode=%d batch %d -> %s %v", t.n, op.T, ix, selStr(sel), op.Rev, mode, op.B, model.ShowList(rows), err)
	if mode == 5 && err == errVeto {
		stopped, err = true, nil
	} else if mode == 5 && err == nil && calls >= op.N {
		failNow("scan", "a scan swallowed the callback's error")
	}
	if t.readErr("Scan", err, ctx) {
		return
	}
	heeded("a scan", ctx, len(rows))
	if err != nil {
		failNow("scan", "scan of table %d index %d (%s) reports %v", op.T, ix, selStr(sel), err)
	}
	if stopped {
		if t.exactOK() {
			e.res.Checks++
			b := 0
			if bs != nil {
				b = op.B
			}
			w := model.Select(t.view(op.T, b), e.specs[op.T].PK, ix, sel)
			if op.Rev {
				w = reversed(w)
			}
			if len(rows) > len(w) || !same(rows, w[:len(rows)]) {
				failNow("scan", "scan of table %d index %d (%s rev=%v) stopped after %d rows gave %s, expected a prefix of %s", op.T, ix, selStr(sel), op.Rev, op.N, model.ShowList(rows), model.ShowList(w))
			}
		}
		return
	}
	if gaps > 0 {
		if t.exactOK() {
			e.res.Checks++
			b := 0
			if bs != nil {
				b = op.B
			}
			w := model.Select(t.view(op.T, b), e.specs[op.T].PK, ix, sel)
			if op.Rev {
				w = reversed(w)
			}
			for i := range w {
				if i < len(rows) && rows[i].ID == 1<<60 {
					w[i] = rows[i]
				}
			}
			if !same(rows, w) {
				failNow("scan", "scan of table %d index %d (%s rev=%v) that leaves out records which cannot be read gave %s, expected %s", op.T, ix, selStr(sel), op.Rev, model.ShowList(rows), model.ShowList(w))
			}
		}
		return
	}
	if mode == 3 {
		if t.exactOK() {
			e.res.Checks++
			b := 0
			if bs != nil {
				b = op.B
			}
			w := model.Select(t.view(op.T, b), e.specs[op.T].PK, ix, sel)
			if op.Rev {
				w = reversed(w)
			}
			for i := range w {
				if (i+1)%3 == op.N%3 {
					w[i] = prog.Row{ID: 1 << 60}
				}
			}
			if !same(rows, w) {
				failNow("scan", "scan of table %d index %d (%s rev=%v) with skipped records gave %s, expected %s", op.T, ix, selStr(sel), op.Rev, model.ShowList(rows), model.ShowList(w))
			}
		}
		return
	}
	t.judge(op, bs, ix, sel, op.Rev, rows, start, end, "scan")
}

// judge a complete selector result.
func (t *task) judge(op *prog.Op, bs *batchState, ix int, sel *prog.Sel, rev bool, rows []prog.Row, start, end uint64, what string) {
	e := t.e
	pk := e.specs[op.T].PK
	if t.exactOK() {
		e.res.Checks++
		b := 0
		if bs != nil {
			b = op.B
		}
		v := t.was
		if v == nil {
			v = t.view(op.T, b)
		}
		w := model.Select(v, pk, ix, sel)
		if rev {
			w = reversed(w)
		}
		if !same(rows, w) {
			failNow("scan", "%s of table %d index %d (%s rev=%v, batch %d, faults %v) gave %s, expected %s", what, op.T, ix, selStr(sel), rev, b, e.faulty, model.ShowList(rows), model.ShowList(w))
		}
	}
	if bs != nil {
		return
	}
	multi := sel != nil && (sel.Type == "points" || sel.Type == "ranges")
	checkSorted(rows, func(x, y prog.Row) bool {
		c := model.Cmp(pk, ix, x, y)
		if rev {
			c = -c
		}
		return c < 0
	}, multi, what)
	e.observe(start, end, fmt.Sprintf("%s of table %d index %d %s", what, op.T, ix, selStr(sel)), op.T, nil,
		func(r prog.Row) bool { return len(model.Select(model.Rows{r.ID: r}, pk, ix, sel)) > 0 }, rows)
}

// nested reads inside the callback of a scan.
func (t *task) nested(op *prog.Op, bs *batchState, ix int, sel *prog.Sel, r prog.Row, calls int) {
	e := t.e
	tb := e.tabs[op.T]
	a := t.args(op, bs)
	got, err := tb.GetPoint(newCtx(0), r, a...)
	e.alive()
	if err != nil && !errors.Is(err, bond.ErrNotFound) {
		if !e.faulty {
			failNow("spurious-error", "a GetPoint in a scan callback failed: %v", err)
		}
		return
	}
	if t.exactOK() && (err != nil || !model.Same(got, r)) {
		failNow("get", "a scan of table %d reads %s, a GetPoint in its callback %s %v", op.T, model.Show(r), model.Show(got), err)
	}
	if calls > op.N {
		return
	}
	for _, rev := range []bool{op.Rev, !op.Rev} {
		var rows []prog.Row
		if sel == nil {
			rows, err = tb.Scan(newCtx(0), rev, a...)
		} else {
			rows, err = tb.ScanIndex(newCtx(0), ix, sel, rev, a...)
		}
		e.alive()
		if err != nil {
			if !e.faulty {
				failNow("spurious-error", "a scan in a scan callback failed: %v", err)
			}
			return
		}
		if !t.exactOK() {
			continue
		}
		e.res.Checks++
		b := 0
		if bs != nil {
			b = op.B
		}
		w := model.Select(t.view(op.T, b), e.specs[op.T].PK, ix, sel)
		if rev {
			w = reversed(w)
		}
		if !same(rows, w) {
			failNow("scan", "a scan (%s rev=%v) in a scan callback gave %s, expected %s", selStr(sel), rev, model.ShowList(rows), model.ShowList(w))
		}
	}
}

// walk reads an index with an iterator.
func (t *task) walk(op *prog.Op, bs *batchState, ctx *cctx, ix int, sel *prog.Sel, a []bond.Batch) {
	e := t.e
	tb := e.tabs[op.T]
	start := e.begin()
	pks, rows, err := tb.Walk(ix, sel, op.Rev, a...)
	end := e.ended()
	e.trace("task %d walk table %d index %d %s rev=%v batch %d -> %d keys %v", t.n, op.T, ix, selStr(sel), op.Rev, op.B, len(pks), err)
	if t.readErr("an iterator", err, nil) {
		return
	}
	if err != nil {
		failNow("iter", "an iterator over table %d index %d (%s) reports %v", op.T, ix, selStr(sel), err)
	}
	if t.exactOK() {
		e.res.Checks++
		b := 0
		if bs != nil {
			b = op.B
		}
		w := model.Select(t.view(op.T, b), e.specs[op.T].PK, ix, sel)
		if op.Rev {
			w = reversed(w)
		}
		ok := len(w) == len(pks)
		for i := 0; ok && i < len(w); i++ {
			ok = string(pks[i]) == string(tb.PKBytes(w[i]))
		}
		if !ok {
			failNow("iter", "an iterator over table %d index %d (%s rev=%v, batch %d, faults %v) found the keys %x, expected the rows %s", op.T, ix, selStr(sel), op.Rev, b, e.faulty, pks, model.ShowList(w))
		}
	}
	if ix == 0 {
		t.judge(op, bs, 0, sel, op.Rev, rows, start, end, "iterator")
	}
}
