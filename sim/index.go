package main

import (
	"fmt"
	"sort"

	"bondsim/prog"
)

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func without(l []int, xs []int) []int {
	var o []int
	for _, y := range l {
		if !contains(xs, y) {
			o = append(o, y)
		}
	}
	return o
}

// addIndexes adds indexes over existing rows right after opening: those of the
// program and those whose build a crash interrupted.
func (e *Engine) addIndexes(add [][]int) {
	for i := range e.tabs {
		var l []int
		for _, ix := range e.retryIdx[i] {
			if !contains(e.indexes[i], ix) && !contains(l, ix) {
				l = append(l, ix)
			}
		}
		if i < len(add) {
			for _, ix := range add[i] {
				if !contains(e.indexes[i], ix) && !contains(l, ix) {
					l = append(l, ix)
				}
			}
		}
		if len(l) > 0 {
			e.buildIndexes(i, l)
		}
	}
}

// buildIndexes adds indexes with re-indexing; the result must agree with the
// rows, whatever an interrupted attempt left behind.
func (e *Engine) buildIndexes(i int, l []int) {
	e.begin()
	e.building[i] = l
	err := e.tabs[i].AddIndex(l, true)
	e.ended()
	delete(e.building, i)
	e.trace("add indexes %v to table %d -> %v", l, i, err)
	e.res.OpKinds["addindex"]++
	if err != nil {
		if !e.faulty {
			failNow("addindex", "adding indexes %v to table %d failed without a fault: %v", l, i, err)
		}
		e.retryIdx[i] = append(without(e.retryIdx[i], l), l...)
		e.tabs[i].Forget(l)
		return
	}
	e.retryIdx[i] = without(e.retryIdx[i], l)
	if len(e.retryIdx[i]) == 0 {
		delete(e.retryIdx, i)
	}
	e.indexes[i] = append(append([]int(nil), e.indexes[i]...), l...)
	if !e.faulty {
		for _, ix := range l {
			e.verifyIndex("after adding it", i, ix, e.cur[i])
		}
	}
}

// buildInterrupted: the process died in AddIndex or ReIndex; the index has to be
// built again.
func (e *Engine) buildInterrupted() {
	for i, l := range e.building {
		e.indexes[i] = without(e.indexes[i], l)
		e.retryIdx[i] = append(without(e.retryIdx[i], l), l...)
		sort.Ints(e.retryIdx[i])
	}
	e.building = map[int][]int{}
}

func (t *task) addIndex(op *prog.Op) {
	e := t.e
	if e.ntasks > 1 || !t.clean() || !e.certain() {
		return
	}
	if e.tabs[op.T].HasIndex(op.Idx) {
		// refused, and nothing changes
		e.begin()
		err := e.tabs[op.T].AddIndex([]int{op.Idx}, false)
		e.ended()
		e.trace("add index %d again to table %d -> %v", op.Idx, op.T, err)
		if err == nil {
			failNow("addindex", "an index with an id that is in use was added to table %d", op.T)
		}
		return
	}
	if contains(e.retryIdx[op.T], op.Idx) {
		return
	}
	e.buildIndexes(op.T, []int{op.Idx})
}

func (t *task) reindex(op *prog.Op) {
	e := t.e
	if e.ntasks > 1 || !t.clean() || !e.certain() || len(e.indexes[op.T]) == 0 {
		return
	}
	l := e.indexes[op.T]
	if op.N < len(l) {
		l = l[op.N : op.N+1]
	}
	l = append([]int(nil), l...)
	e.begin()
	e.building[op.T] = l
	err := e.tabs[op.T].ReIndex(l)
	e.ended()
	delete(e.building, op.T)
	e.trace("reindex %v of table %d -> %v", l, op.T, err)
	if err != nil {
		if !e.faulty {
			failNow("reindex", "re-indexing %v of table %d failed without a fault: %v", l, op.T, err)
		}
		e.indexes[op.T] = without(e.indexes[op.T], l)
		e.retryIdx[op.T] = append(without(e.retryIdx[op.T], l), l...)
		e.tabs[op.T].Forget(l)
		return
	}
	if !e.faulty {
		for _, ix := range l {
			e.verifyIndex("after re-indexing", op.T, ix, e.cur[op.T])
		}
	}
}

var _ = fmt.Sprint
