package main

import (
	"fmt"
	"sort"

	"bondsim/model"
	"bondsim/prog"

	"github.com/go-bond/bond"
)

// observe records what a read saw of one table: the rows matching match among
// keys (nil: all keys).
func (e *Engine) observe(start, end uint64, what string, tab int, keys map[uint64]bool, match func(prog.Row) bool, rows []prog.Row) {
	o := &obsv{start: start, end: end, what: what, tab: tab, keys: keys, match: match, rows: model.Rows{}}
	for _, r := range rows {
		if old, dup := o.rows[r.ID]; dup && !model.Same(old, r) {
			failNow("mixed", "%s returned key %d as %s and as %s", what, r.ID, model.Show(old), model.Show(r))
		}
		o.rows[r.ID] = r
	}
	e.vobs = append(e.vobs, o)
}

type obsv struct {
	start, end uint64
	what       string
	tab        int
	keys       map[uint64]bool
	match      func(prog.Row) bool
	rows       model.Rows
	multi      []model.Rows // several tables at once (tab < 0); nil: not seen
}

// cutCtx is the history of a process that died.
type cutCtx struct {
	commits []*commit
	base    []model.Rows
	crash   uint64
}

type key struct {
	tab int
	id  uint64
}

// solver finds, per task, how many of its commits a state shows.
type solver struct {
	n     int
	per   [][]*commit // per task
	base  []model.Rows
	owner map[key]int
}

func newSolver(base []model.Rows, commits []*commit) *solver {
	s := &solver{base: base, owner: map[key]int{}}
	for _, c := range commits {
		for len(s.per) <= c.task {
			s.per = append(s.per, nil)
		}
		s.per[c.task] = append(s.per[c.task], c)
		for _, d := range c.deltas {
			s.owner[key{d.tab, d.id}] = c.task
		}
	}
	s.n = len(s.per)
	return s
}

// view gives the observed value of a key: (value, in scope).
type view func(k key) (*prog.Row, bool)

// solve returns the least vector of commit counts consistent with the
// observation, the lower bounds, and real-time order; "" on success.
//
//	lower: commits that must be included; allowed: commits that may be
func (s *solver) solve(see view, match func(tab int, r prog.Row) bool, lower []int, allowed func(*commit) bool) ([]int, string) {
	cand := make([][]bool, s.n)
	for t := 0; t < s.n; t++ {
		// state of the task's keys, incrementally; bad counts disagreements
		st := map[key]*prog.Row{}
		bad := map[key]bool{}
		agree := func(k key) bool {
			want := st[k]
			if want != nil && match != nil && !match(k.tab, *want) {
				want = nil
			}
			got, in := see(k)
			return !in || model.SameP(got, want)
		}
		for k, o := range s.owner {
			if o != t {
				continue
			}
			st[k] = lookup(s.base[k.tab], k.id)
			if !agree(k) {
				bad[k] = true
			}
		}
		cand[t] = make([]bool, len(s.per[t])+1)
		cand[t][0] = len(bad) == 0
		for i, c := range s.per[t] {
			for _, d := range c.deltas {
				k := key{d.tab, d.id}
				st[k] = d.after
				if agree(k) {
					delete(bad, k)
				} else {
					bad[k] = true
				}
			}
			cand[t][i+1] = len(bad) == 0
		}
	}
	p := make([]int, s.n)
	advance := func(t int) bool {
		for p[t] <= len(s.per[t]) && !cand[t][p[t]] {
			p[t]++
		}
		return p[t] <= len(s.per[t])
	}
	for t := 0; t < s.n; t++ {
		if lower != nil {
			p[t] = lower[t]
		}
		if !advance(t) {
			return p, s.explain(t, see, match, lower)
		}
	}
	for {
		changed := false
		for t := 0; t < s.n; t++ {
			// everything completed before the start of an included commit is included
			for i := 0; i < p[t]; i++ {
				x := s.per[t][i]
				for u := 0; u < s.n; u++ {
					for j := len(s.per[u]) - 1; j >= p[u]; j-- {
						y := s.per[u][j]
						if y.st == stOK && y.end < x.start {
							p[u] = j + 1
							if !advance(u) {
								return p, fmt.Sprintf("task %d's %s (completed at %d) is missing although task %d's later %s (started at %d) is there", u, y.what, y.end, t, x.what, x.start)
							}
							changed = true
							break
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	for t := 0; t < s.n; t++ {
		for i := 0; i < p[t]; i++ {
			if allowed != nil && !allowed(s.per[t][i]) {
				return p, fmt.Sprintf("task %d's %s (started at %d) is visible to an observation that had ended", t, s.per[t][i].what, s.per[t][i].start)
			}
		}
	}
	return p, ""
}

// explain finds the closest state for the report.
func (s *solver) explain(t int, see view, match func(int, prog.Row) bool, lower []int) string {
	lo := 0
	if lower != nil {
		lo = lower[t]
	}
	st := map[key]*prog.Row{}
	for k, o := range s.owner {
		if o == t {
			st[k] = lookup(s.base[k.tab], k.id)
		}
	}
	best, bestN := "", 1<<30
	for i := 0; i <= len(s.per[t]); i++ {
		if i > 0 {
			for _, d := range s.per[t][i-1].deltas {
				st[key{d.tab, d.id}] = d.after
			}
		}
		if i < lo {
			continue
		}
		var ks []key
		for k, w := range st {
			if w != nil && match != nil && !match(k.tab, *w) {
				w = nil
			}
			if got, in := see(k); in && !model.SameP(got, w) {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool {
			return ks[i].tab < ks[j].tab || ks[i].tab == ks[j].tab && ks[i].id < ks[j].id
		})
		if len(ks) > 0 && len(ks) < bestN {
			bestN = len(ks)
			got, _ := see(ks[0])
			best = fmt.Sprintf("no prefix (at least %d) of the %d commits of task %d explains it; closest is %d commits, where key %d of table %d would be %s but is %s (%d keys differ)",
				lo, len(s.per[t]), t, i, ks[0].id, ks[0].tab, model.ShowP(st[ks[0]]), model.ShowP(got), len(ks))
		}
	}
	return best
}

// checkObs verifies the reads of the phase against its commits.
func (e *Engine) checkObs() {
	if len(e.vobs) == 0 {
		return
	}
	s := newSolver(e.base, e.commits)
	obs := append([]*obsv(nil), e.vobs...)
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].end < obs[j].end })
	type seen struct {
		end uint64
		p   []int
	}
	var prev []seen
	for _, o := range obs {
		e.res.Checks++
		lower := make([]int, s.n)
		for t := 0; t < s.n; t++ {
			for i, c := range s.per[t] {
				if c.st == stOK && c.end < o.start && i+1 > lower[t] {
					lower[t] = i + 1
				}
			}
		}
		for _, q := range prev {
			if q.end < o.start {
				for t := range lower {
					if q.p[t] > lower[t] {
						lower[t] = q.p[t]
					}
				}
			}
		}
		see := func(k key) (*prog.Row, bool) {
			if o.multi != nil {
				if o.multi[k.tab] == nil {
					return nil, false
				}
				return lookup(o.multi[k.tab], k.id), true
			}
			if k.tab != o.tab || o.keys != nil && !o.keys[k.id] {
				return nil, false
			}
			return lookup(o.rows, k.id), true
		}
		var match func(int, prog.Row) bool
		if o.match != nil {
			match = func(_ int, r prog.Row) bool { return o.match(r) }
		}
		// keys nobody writes
		for id, r := range o.rows {
			if _, ok := s.owner[key{o.tab, id}]; !ok {
				if b := lookup(s.base[o.tab], id); !model.SameP(b, &r) {
					failNow("phantom", "%s returned %s, expected %s (nobody writes this key)", o.what, model.Show(r), model.ShowP(b))
				}
			}
			if o.match != nil && !o.match(r) {
				failNow("nomatch", "%s returned %s, which it does not select", o.what, model.Show(r))
			}
		}
		for i, m := range o.multi {
			if m == nil {
				continue
			}
			for id, r := range m {
				if _, ok := s.owner[key{i, id}]; !ok && !model.SameP(lookup(s.base[i], id), &r) {
					failNow("phantom", "%s holds %s in table %d, which nobody wrote", o.what, model.Show(r), i)
				}
			}
			for id, r := range s.base[i] {
				if _, ok := s.owner[key{i, id}]; !ok && lookup(m, id) == nil {
					failNow("missing", "%s does not hold %s of table %d", o.what, model.Show(r), i)
				}
			}
		}
		for id, r := range baseOf(s, o.tab) {
			if _, ok := s.owner[key{o.tab, id}]; ok || o.keys != nil && !o.keys[id] || o.match != nil && !o.match(r) {
				continue
			}
			if _, ok := o.rows[id]; !ok {
				failNow("missing", "%s did not return %s (nobody writes this key)", o.what, model.Show(r))
			}
		}
		p, bad := s.solve(see, match, lower, func(c *commit) bool { return c.start < o.end })
		if bad != "" {
			failNow("snapshot", "%s [%d,%d] does not show a state of its time: %s", o.what, o.start, o.end, bad)
		}
		prev = append(prev, seen{o.end, p})
		if len(prev) > 60 {
			prev = prev[1:]
		}
	}
	e.vobs = nil
}

// verify reads the whole database in every way and compares. After a crash the
// expected state is any state the history of the dead process allows.
func (e *Engine) verify(what string, open bool) {
	ctx := newCtx(0)
	e.trace("verify %s", what)
	sel0 := (*prog.Sel)(nil)
	var state []model.Rows
	for i, tb := range e.tabs {
		rows, err := tb.Scan(ctx, false)
		e.alive()
		if err != nil {
			failNow("verify", "%s: full scan of table %d failed: %v", what, i, err)
		}
		m := model.Rows{}
		for _, r := range rows {
			if _, dup := m[r.ID]; dup {
				failNow("verify", "%s: full scan of table %d returns key %d twice", what, i, r.ID)
			}
			m[r.ID] = r
		}
		if w := model.Select(m, e.specs[i].PK, 0, sel0); !same(rows, w) {
			failNow("verify", "%s: full scan of table %d is out of order: %s", what, i, model.ShowList(rows))
		}
		state = append(state, m)
	}
	e.res.Checks++
	commits, base := e.commits, e.base
	if open {
		if e.pendingCut != nil {
			commits, base = e.pendingCut.commits, e.pendingCut.base
		} else {
			commits = nil
		}
	}
	s := newSolver(base, commits)
	lower := make([]int, s.n)
	for t := 0; t < s.n; t++ {
		for i, c := range s.per[t] {
			if c.st != stOK {
				continue
			}
			if open && !durable(c, commits) {
				continue
			}
			lower[t] = i + 1
		}
	}
	see := func(k key) (*prog.Row, bool) { return lookup(state[k.tab], k.id), true }
	for i := range state {
		for id, r := range state[i] {
			if _, ok := s.owner[key{i, id}]; !ok {
				if b := lookup(base[i], id); !model.SameP(b, &r) {
					failNow("state", "%s: table %d holds %s, expected %s", what, i, model.Show(r), model.ShowP(b))
				}
			}
		}
		for id, r := range base[i] {
			if _, ok := s.owner[key{i, id}]; !ok {
				if _, ok := state[i][id]; !ok {
					failNow("state", "%s: table %d lost %s", what, i, model.Show(r))
				}
			}
		}
	}
	if _, bad := s.solve(see, nil, lower, nil); bad != "" {
		failNow("state", "%s: the tables do not hold what was written: %s", what, bad)
	}
	e.verifyViews(what, state)
	e.verifyKeys(what, state)
	if open {
		for i := range state {
			e.base[i] = state[i].Clone()
			e.cur[i] = state[i]
		}
		e.pendingCut = nil
	} else if !e.certain() {
		for i := range state {
			e.cur[i] = state[i]
		}
	}
}

// durable: acknowledged with Sync, or completed before the start of such a commit.
func durable(c *commit, all []*commit) bool {
	if c.sync {
		return true
	}
	for _, x := range all {
		if x.st == stOK && x.sync && len(x.deltas) > 0 && c.end < x.start {
			return true
		}
	}
	return false
}

// verifyViews compares every index and access path with the rows.
func (e *Engine) verifyViews(what string, state []model.Rows) {
	ctx := newCtx(0)
	for i, tb := range e.tabs {
		pk := e.specs[i].PK
		rows, err := tb.Scan(ctx, true)
		e.alive()
		if w := reversed(model.Select(state[i], pk, 0, nil)); err != nil || !same(rows, w) {
			failNow("verify", "%s: reverse scan of table %d: %s %v, expected %s", what, i, model.ShowList(rows), err, model.ShowList(w))
		}
		var ids []uint64
		for id := uint64(0); id < uint64(e.p.Cfg.Keys); id++ {
			ids = append(ids, id)
		}
		sel := &prog.Sel{Type: "points"}
		for _, id := range ids {
			sel.Rows = append(sel.Rows, prog.Row{ID: id})
		}
		got, err := tb.Get(ctx, sel)
		e.alive()
		if err != nil || len(got) != len(ids) {
			failNow("verify", "%s: Get of all keys of table %d: %d rows, %v", what, i, len(got), err)
		}
		for j, id := range ids {
			if want := lookup(state[i], id); !model.SameP(got[j], want) {
				failNow("verify", "%s: Get of key %d of table %d reads %s, a scan %s", what, id, i, model.ShowP(got[j]), model.ShowP(want))
			}
		}
		for _, id := range ids {
			_, want := state[i][id]
			if ex := tb.Exist(prog.Row{ID: id}); ex != want {
				failNow("verify", "%s: Exist of key %d of table %d says %v, a scan %v", what, id, i, ex, want)
			}
		}
		for _, ix := range e.indexes[i] {
			e.verifyIndex(what, i, ix, state[i])
		}
		e.res.Checks++
	}
}

// verifyKeys: the key space holds the rows and their index entries, and nothing else.
func (e *Engine) verifyKeys(what string, state []model.Rows) {
	n := map[[2]int]int{}
	it := e.db.Iter(&bond.IterOptions{})
	e.alive()
	for ok := it.First(); ok; ok = it.Next() {
		e.alive()
		k := bond.KeyDecode(it.Key())
		n[[2]int{int(k.TableID), int(k.IndexID)}]++
	}
	err := it.Error()
	if err2 := it.Close(); err == nil {
		err = err2
	}
	e.alive()
	if err != nil {
		failNow("verify", "%s: reading all keys failed: %v", what, err)
	}
	known := map[int]bool{int(bond.BOND_DB_DATA_TABLE_ID): true}
	for i := range e.tabs {
		sp := &e.specs[i]
		want := func(id, x, rows int) {
			if got := n[[2]int{id, x}]; got != rows {
				failNow("keys", "%s: table %d index %d has %d keys, expected %d", what, id, x, got, rows)
			}
		}
		if sp.KV {
			want(int(bond.BOND_DB_DATA_TABLE_ID), int(bond.BOND_DB_DATA_USER_SPACE_INDEX_ID), len(state[i]))
			continue
		}
		known[sp.ID] = true
		want(sp.ID, 0, len(state[i]))
		for _, ix := range e.indexes[i] {
			rows := 0
			for _, r := range state[i] {
				if model.Include(ix, r) {
					rows++
				}
			}
			want(sp.ID, prog.IndexID(ix), rows)
		}
	}
	for k, c := range n {
		if !known[k[0]] {
			failNow("keys", "%s: %d keys of table %d, which does not exist", what, c, k[0])
		}
	}
	e.res.Checks++
}

// verifyIndex reads a whole index through ranges or points covering every value
// any row ever had.
func (e *Engine) verifyIndex(what string, i, ix int, st model.Rows) {
	ctx := newCtx(0)
	tb := e.tabs[i]
	sel := fullSel(e.specs[i].PK, ix)
	for _, rev := range []bool{false, true} {
		rows, err := tb.ScanIndex(ctx, ix, sel, rev)
		e.alive()
		if err != nil {
			failNow("index", "%s: reading index %d of table %d fails: %v", what, ix, i, err)
		}
		w := model.Select(st, e.specs[i].PK, ix, sel)
		if rev {
			w = reversed(w)
		}
		if !same(rows, w) {
			failNow("index", "%s: index %d of table %d (reverse=%v) holds %s, the rows say %s", what, ix, i, rev, model.ShowList(rows), model.ShowList(w))
		}
	}
}

// fullSel covers every value in the domain of the generator.
func fullSel(pk, ix int) *prog.Sel {
	s := &prog.Sel{}
	min := prog.MinID(pk)
	if prog.HasS(ix) {
		s.Type = "points"
		as := prog.As
		if len(prog.Indexes[ix].Key) == 1 {
			as = as[:1]
		}
		for _, a := range as {
			for _, v := range prog.Ss {
				r := prog.Row{ID: min, A: a, S: v}
				prog.FirstOrd(ix, &r)
				s.Rows = append(s.Rows, r)
			}
		}
		return s
	}
	s.Type = "range"
	lo, up := prog.Row{ID: min}, prog.Row{ID: prog.MaxID(pk)}
	prog.FirstKey(ix, &lo)
	prog.FirstOrd(ix, &lo)
	prog.LastKey(ix, &up)
	prog.LastOrd(ix, &up)
	s.Rows = []prog.Row{lo, up}
	return s
}

func baseOf(s *solver, tab int) model.Rows {
	if tab < 0 {
		return nil
	}
	return s.base[tab]
}
