package main

import (
	"bondsim/model"
	"bondsim/prog"
)

// paginate walks a query page by page. Mode 0: After and Limit; 1: the same with
// the last row of every page deleted before the next page is asked for; 2:
// Offset and Limit.
func (t *task) paginate(op *prog.Op) {
	e := t.e
	if !t.exactOK() || e.stopWrite {
		return
	}
	var bs *batchState
	if op.B != 0 {
		bs = t.batch[op.B]
		if bs == nil || bs.done || bs.poisoned || !bs.rw {
			return
		}
	}
	q := *op.Q
	tb := e.tabs[op.T]
	ok := q.Idx == 0 || tb.HasIndex(q.Idx)
	for _, in := range q.Inter {
		ok = ok && (in.Idx == 0 || tb.HasIndex(in.Idx))
	}
	if !ok {
		return
	}
	mode := op.Mode
	if mode == 1 && (len(t.batch) > 0 || len(q.Inter) > 0 || q.Order != "") {
		mode = 0
	}
	b := 0
	if bs != nil {
		b = op.B
	}
	want := model.Unpaged(t.view(op.T, b), e.specs[op.T].PK, &q)
	a := t.args(op, bs)
	var got []prog.Row
	var last *prog.Row
	q.Limit = uint64(op.N)
	for n := 0; ; n++ {
		if n > len(want)+2 {
			failNow("page", "pages of %d rows of table %d (%s, mode %d) never end: got %s, all are %s", op.N, op.T, qStr(&q), mode, model.ShowList(got), model.ShowList(want))
		}
		after := last
		if mode == 2 {
			q.Offset = uint64(len(got))
			after = nil
		}
		e.begin()
		rows, err := tb.Query(newCtx(0), &q, after, a...)
		e.ended()
		e.trace("task %d page %d of table %d -> %s %v", t.n, n, op.T, model.ShowList(rows), err)
		if err != nil {
			if e.faulty {
				return
			}
			failNow("page", "a page of table %d (%s, after %s) failed: %v", op.T, qStr(&q), model.ShowP(after), err)
		}
		got = append(got, rows...)
		if len(rows) > op.N {
			failNow("page", "a page of %d rows has %d", op.N, len(rows))
		}
		if len(rows) == 0 {
			break
		}
		last = &rows[len(rows)-1]
		if mode == 1 && t.owns(last.ID) && !e.stopWrite {
			t.write(&prog.Op{K: "del", T: op.T, Rows: []prog.Row{*last}})
			if e.stopWrite {
				return
			}
		}
	}
	e.res.Checks++
	if !same(got, want) {
		failNow("page", "pages of %d rows of table %d (%s, mode %d, batch %d) give %s, the whole result is %s", op.N, op.T, qStr(&q), mode, b, model.ShowList(got), model.ShowList(want))
	}
}
