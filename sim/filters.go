package main

import (
	"fmt"

	"bondsim/prog"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	"github.com/go-bond/bond/filters"
)

type filterState struct {
	f     *bond.FilterInitializable
	store bond.FilterStorer
	ready bool
}

// filterPrefixes: none begins another.
var filterPrefixes = [][]string{{"bf_a_", "bf_b_", "bf_c_"}, {"bf/a", "bf_a", "bf%2Fa"}, {"f\xff", "f\xfe", "g\x00"}}

func (e *Engine) mkFilter(i int) bond.Filter {
	c := e.specs[i].Filter
	prefix := bond.KeyEncode(bond.Key{PrimaryKey: []byte(filterPrefixes[c.Prefix][i])})
	b := bloom.NewBloomFilter(uint(c.N), c.FP, c.Buckets, prefix)
	f := &bond.FilterInitializable{Filter: b}
	st := bond.FilterStorer(e.db)
	if c.Store == "fs" {
		dir := fmt.Sprintf("/sim/filter%d", i)
		if c.Prefix != 0 {
			dir = "/sim/filters"
		}
		st = filters.NewFSFilterStorer(dir)
	}
	e.filters[i] = &filterState{f: f, store: st}
	return f
}

func (e *Engine) initFilter(i int) error {
	fs := e.filters[i]
	err := fs.f.Initialize(newCtx(0), fs.store, []bond.TableScanner[any]{e.tabs[i].Scanner()})
	fs.ready = err == nil
	return err
}

// initFilters initializes the filters while others work with the tables.
func (e *Engine) initFilters() {
	for i := range e.tabs {
		if e.filters[i] == nil {
			continue
		}
		for try := 0; try < 2; try++ {
			e.begin()
			err := e.initFilter(i)
			e.ended()
			e.trace("the filter of table %d is initialized: %v", i, err)
			if err == nil {
				break
			}
			if !e.faulty {
				failNow("filter-init", "initializing the filter of table %d failed: %v", i, err)
			}
		}
	}
}

func (t *task) filterSave(op *prog.Op) {
	e := t.e
	fs := e.filters[op.T]
	if fs == nil {
		return
	}
	e.begin()
	was := fs.ready
	err := fs.f.Save(newCtx(0), fs.store)
	e.ended()
	e.trace("task %d saves the filter of table %d -> %v", t.n, op.T, err)
	if err != nil && was && !e.faulty {
		failNow("filter-save", "saving the filter of table %d failed: %v", op.T, err)
	}
}
