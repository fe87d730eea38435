package main

import (
	"bytes"
	"context"
	"math/big"
	"sort"

	"bondsim/model"
	"bondsim/prog"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
)

// scanRow is what a scan callback sees.
type scanRow struct {
	row prog.Row
	got bool // lazy.Get was called
}

// tableOps hides the record type (value or pointer) of a table.
type tableOps interface {
	Spec() *prog.Table
	Insert(ctx context.Context, rows []prog.Row, b ...bond.Batch) error
	Update(ctx context.Context, rows []prog.Row, b ...bond.Batch) error
	Upsert(ctx context.Context, rows []prog.Row, kind int, b ...bond.Batch) error
	Delete(ctx context.Context, rows []prog.Row, b ...bond.Batch) error
	UnsafeInsert(ctx context.Context, rows []prog.Row, b ...bond.Batch) error
	UnsafeUpdate(ctx context.Context, rows, old []prog.Row, b ...bond.Batch) error
	Get(ctx context.Context, sel *prog.Sel, b ...bond.Batch) ([]*prog.Row, error)
	GetPoint(ctx context.Context, r prog.Row, b ...bond.Batch) (prog.Row, error)
	Exist(r prog.Row, b ...bond.Batch) bool
	Scan(ctx context.Context, rev bool, b ...bond.Batch) ([]prog.Row, error)
	ScanIndex(ctx context.Context, ix int, sel *prog.Sel, rev bool, b ...bond.Batch) ([]prog.Row, error)
	ScanForEach(ctx context.Context, ix int, sel *prog.Sel, rev bool, f func(get func() (prog.Row, error)) (bool, error), b ...bond.Batch) error
	AnyScan(ctx context.Context, ix int, sel *prog.Sel, rev bool, turn int, b ...bond.Batch) ([]prog.Row, error)
	Refused(ctx context.Context, ix int, sel *prog.Sel, n int, b ...bond.Batch) (string, int, error)
	Walk(ix int, sel *prog.Sel, rev bool, b ...bond.Batch) ([][]byte, []prog.Row, error)
	Query(ctx context.Context, q *prog.Query, after *prog.Row, b ...bond.Batch) ([]prog.Row, error)
	AddIndex(ixs []int, reindex bool) error
	ReIndex(ixs []int) error
	HasIndex(ix int) bool
	Forget(ixs []int)
	Info() bond.TableInfo
	Scanner() bond.TableScanner[any]
	PKBytes(r prog.Row) []byte
}

type tab[T any] struct {
	spec  prog.Table
	t     bond.Table[T]
	idx   map[int]*bond.Index[T]
	to    func(prog.Row) T
	from  func(T) prog.Row
	isNil func(T) bool
}

func pkFunc[T any](kind int, from func(T) prog.Row) bond.TablePrimaryKeyFunc[T] {
	return func(b bond.KeyBuilder, t T) []byte {
		id := from(t).ID
		switch kind {
		case 1:
			return b.AddUint32Field(uint32(id % 3)).AddUint64Field(id).Bytes()
		case 2:
			return b.AddStringField(model.Name(id)).Bytes()
		case 7:
			return b.AddStringField(prog.LongPK + model.Name(id)).Bytes()
		case 3:
			return b.AddInt64Field(model.Int(id)).Bytes()
		case 4:
			return b.AddInt32Field(int32(model.Int(id))).Bytes()
		case 5:
			return b.AddByteField(byte(id % 2)).AddBytesField([]byte(model.Name(id))).Bytes()
		case 6:
			return b.AddBigIntField(big.NewInt(model.Int(id)), 128).Bytes()
		}
		return b.AddUint64Field(id).Bytes()
	}
}

// colKey adds the columns of an index key.
func colKey(b bond.KeyBuilder, l []prog.Col, r prog.Row) []byte {
	for _, c := range l {
		switch c.N {
		case "A":
			b = b.AddUint32Field(r.A)
		case "B":
			b = b.AddUint64Field(r.B)
		case "B8":
			b = b.AddByteField(byte(r.B))
		case "B16":
			b = b.AddUint16Field(uint16(r.B))
		case "G":
			b = b.AddInt64Field(r.G)
		case "G32":
			b = b.AddInt32Field(prog.G32(r))
		case "G16":
			b = b.AddInt16Field(prog.G16(r))
		case "GB":
			b = b.AddBigIntField(big.NewInt(r.G), 64)
		case "P":
			b = b.AddBytesField(r.P)
		case "S":
			b = b.AddStringField(r.S)
		}
	}
	return b.Bytes()
}

func order(o bond.IndexOrder, l []prog.Col, r prog.Row) bond.IndexOrder {
	for _, c := range l {
		d := bond.IndexOrderType(bond.IndexOrderTypeASC)
		if c.Desc {
			d = bond.IndexOrderTypeDESC
		}
		switch c.N {
		case "A":
			o = o.OrderUint32(r.A, d)
		case "B":
			o = o.OrderUint64(r.B, d)
		case "B8":
			o = o.OrderByte(byte(r.B), d)
		case "B16":
			o = o.OrderUint16(uint16(r.B), d)
		case "G":
			o = o.OrderInt64(r.G, d)
		case "G32":
			o = o.OrderInt32(prog.G32(r), d)
		case "G16":
			o = o.OrderInt16(prog.G16(r), d)
		case "GB":
			o = o.OrderBigInt(big.NewInt(r.G), 64, d)
		case "P":
			o = o.OrderBytes(r.P, d)
		}
	}
	return o
}

func index[T any](ix int, from func(T) prog.Row) *bond.Index[T] {
	def := &prog.Indexes[ix]
	o := bond.IndexOptions[T]{IndexID: bond.IndexID(prog.IndexID(ix)), IndexName: idxName(ix)}
	o.IndexKeyFunc = func(b bond.KeyBuilder, t T) []byte { return colKey(b, def.Key, from(t)) }
	if len(def.Ord) > 0 {
		o.IndexOrderFunc = func(o bond.IndexOrder, t T) bond.IndexOrder { return order(o, def.Ord, from(t)) }
	}
	switch def.If {
	case "Beven":
		o.IndexFilterFunc = func(t T) bool { return from(t).B%2 == 0 }
	case "Aodd":
		o.IndexFilterFunc = func(t T) bool { return from(t).A%2 == 1 }
	}
	return bond.NewIndex(o)
}

func mkTab[T any](db bond.DB, spec prog.Table, filter bond.Filter, to func(prog.Row) T, from func(T) prog.Row, isNil func(T) bool) (tableOps, error) {
	opt := bond.TableOptions[T]{
		DB: db, TableID: bond.TableID(spec.ID), TableName: tabName(&spec),
		TablePrimaryKeyFunc: pkFunc(spec.PK, from),
		ScanPrefetchSize:    spec.Prefetch,
		Filter:              filter,
	}
	opt.Serializer = serializer(spec.Ser)
	t := &tab[T]{spec: spec, t: bond.NewTable(opt), idx: map[int]*bond.Index[T]{}, to: to, from: from, isNil: isNil}
	t.idx[0] = t.t.PrimaryIndex()
	if err := t.AddIndex(spec.Idx, false); err != nil {
		return nil, err
	}
	return t, nil
}

func (t *tab[T]) Spec() *prog.Table { return &t.spec }

func (t *tab[T]) tos(rows []prog.Row) []T {
	r := make([]T, len(rows))
	for i := range rows {
		r[i] = t.to(rows[i])
	}
	return r
}

// unchanged: a write must leave the caller's records alone.
func (t *tab[T]) unchanged(x []T, rows []prog.Row) {
	for i := range rows {
		if !model.Same(t.from(x[i]), rows[i]) {
			failNow("caller-mutated", "a write call changed the caller's record %s into %s", model.Show(rows[i]), model.Show(t.from(x[i])))
		}
	}
}

func (t *tab[T]) Insert(ctx context.Context, rows []prog.Row, b ...bond.Batch) error {
	x := t.tos(rows)
	err := t.t.Insert(ctx, x, b...)
	t.unchanged(x, rows)
	return err
}

func (t *tab[T]) Update(ctx context.Context, rows []prog.Row, b ...bond.Batch) error {
	x := t.tos(rows)
	err := t.t.Update(ctx, x, b...)
	t.unchanged(x, rows)
	return err
}

func (t *tab[T]) Upsert(ctx context.Context, rows []prog.Row, kind int, b ...bond.Batch) error {
	f := bond.TableUpsertOnConflictReplace[T]
	if kind != 0 {
		f = func(old, new T) T {
			o := t.from(old)
			r := model.Conflict(kind, o, t.from(new))
			if kind == 3 {
				// in place where the record is a pointer
				if setRow(any(old), r) {
					return old
				}
			}
			return t.to(r)
		}
	}
	x := t.tos(rows)
	err := t.t.Upsert(ctx, x, f, b...)
	if kind != 3 {
		t.unchanged(x, rows) // kind 3 may be given a record of the caller as the old one
	}
	return err
}

func (t *tab[T]) Delete(ctx context.Context, rows []prog.Row, b ...bond.Batch) error {
	x := t.tos(rows)
	err := t.t.Delete(ctx, x, b...)
	t.unchanged(x, rows)
	return err
}

func (t *tab[T]) UnsafeInsert(ctx context.Context, rows []prog.Row, b ...bond.Batch) error {
	x := t.tos(rows)
	err := t.t.(bond.TableUnsafeInserter[T]).UnsafeInsert(ctx, x, b...)
	t.unchanged(x, rows)
	return err
}

func (t *tab[T]) UnsafeUpdate(ctx context.Context, rows, old []prog.Row, b ...bond.Batch) error {
	x, y := t.tos(rows), t.tos(old)
	err := t.t.(bond.TableUnsafeUpdater[T]).UnsafeUpdate(ctx, x, y, b...)
	t.unchanged(x, rows)
	t.unchanged(y, old)
	return err
}

func (t *tab[T]) sel(s *prog.Sel) bond.Selector[T] {
	rows := t.tos(s.Rows)
	switch s.Type {
	case "point":
		return bond.NewSelectorPoint(rows[0])
	case "points":
		return bond.NewSelectorPoints(rows...)
	case "range":
		return bond.NewSelectorRange(rows[0], rows[1])
	}
	var rs [][]T
	for i := 0; i+1 < len(rows); i += 2 {
		rs = append(rs, []T{rows[i], rows[i+1]})
	}
	return bond.NewSelectorRanges(rs...)
}

// Get returns nil for rows reported as absent (points selector).
func (t *tab[T]) Get(ctx context.Context, sel *prog.Sel, b ...bond.Batch) ([]*prog.Row, error) {
	rs, err := t.t.Get(ctx, t.sel(sel), b...)
	if err != nil {
		return nil, err
	}
	out := make([]*prog.Row, len(rs))
	for i, r := range rs {
		if t.isNil(r) {
			continue
		}
		x := t.from(r)
		out[i] = &x
	}
	return out, nil
}

func (t *tab[T]) GetPoint(ctx context.Context, r prog.Row, b ...bond.Batch) (prog.Row, error) {
	x, err := t.t.GetPoint(ctx, t.to(r), b...)
	if err != nil {
		return prog.Row{}, err
	}
	return t.from(x), nil
}

func (t *tab[T]) Exist(r prog.Row, b ...bond.Batch) bool { return t.t.Exist(t.to(r), b...) }

func (t *tab[T]) froms(rs []T) []prog.Row {
	out := make([]prog.Row, len(rs))
	for i := range rs {
		out[i] = t.from(rs[i])
	}
	return out
}

func (t *tab[T]) Scan(ctx context.Context, rev bool, b ...bond.Batch) ([]prog.Row, error) {
	var rs []T
	err := t.t.Scan(ctx, &rs, rev, b...)
	return t.froms(rs), err
}

func (t *tab[T]) ScanIndex(ctx context.Context, ix int, sel *prog.Sel, rev bool, b ...bond.Batch) ([]prog.Row, error) {
	var rs []T
	err := t.t.ScanIndex(ctx, t.idx[ix], t.sel(sel), &rs, rev, b...)
	return t.froms(rs), err
}

func (t *tab[T]) ScanForEach(ctx context.Context, ix int, sel *prog.Sel, rev bool, f func(get func() (prog.Row, error)) (bool, error), b ...bond.Batch) error {
	g := func(key bond.KeyBytes, l bond.Lazy[T]) (bool, error) {
		return f(func() (prog.Row, error) {
			x, err := l.Get()
			if err != nil {
				return prog.Row{}, err
			}
			r := t.from(x)
			k := key.ToKey()
			if pk := t.PKBytes(r); int(k.TableID) != t.spec.ID || int(k.IndexID) != prog.IndexID(ix) || !bytes.Equal(k.PrimaryKey, pk) {
				failNow("scan-key", "a scan of table %d index %d passed the key %x with the row %s, whose primary key is %x", t.spec.ID, ix, []byte(key), model.Show(r), pk)
			}
			return r, nil
		})
	}
	if sel == nil {
		return t.t.ScanForEach(ctx, g, rev, b...)
	}
	return t.t.ScanIndexForEach(ctx, t.idx[ix], t.sel(sel), g, rev, b...)
}

// AnyScan scans through the untyped scanner of the table.
func (t *tab[T]) AnyScan(ctx context.Context, ix int, sel *prog.Sel, rev bool, turn int, b ...bond.Batch) (rows []prog.Row, err error) {
	sc := t.Scanner()
	var aidx *bond.Index[any]
	var asel bond.Selector[any]
	if sel != nil {
		o := bond.IndexOptions[any]{IndexID: bond.IndexID(prog.IndexID(ix)), IndexName: idxName(ix)}
		i := t.idx[ix]
		o.IndexKeyFunc = func(b bond.KeyBuilder, x any) []byte { return i.IndexKeyFunction(b, x.(T)) }
		if len(prog.Indexes[ix].Ord) > 0 {
			o.IndexOrderFunc = func(o bond.IndexOrder, x any) bond.IndexOrder { return i.IndexOrderFunction(o, x.(T)) }
		}
		if prog.Indexes[ix].If != "" {
			o.IndexFilterFunc = func(x any) bool { return i.IndexFilterFunction(x.(T)) }
		}
		aidx = bond.NewIndex(o)
		asel = t.sel(sel).(bond.Selector[any])
	}
	if turn&1 == 0 {
		var l []any
		if sel == nil {
			err = sc.Scan(ctx, &l, rev, b...)
		} else {
			err = sc.ScanIndex(ctx, aidx, asel, &l, rev, b...)
		}
		for _, x := range l {
			rows = append(rows, t.from(x.(T)))
		}
		return rows, err
	}
	one := func(key bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		x, err := l.Get()
		if err != nil {
			return false, err
		}
		rows = append(rows, t.from(x.(T)))
		return true, nil
	}
	if sel == nil {
		err = sc.ScanForEach(ctx, one, rev, b...)
	} else {
		err = sc.ScanIndexForEach(ctx, aidx, asel, one, rev, b...)
	}
	return rows, err
}

// Walk reads the primary keys of an index, and the rows if it is the primary
// one, with an iterator: to one end and back.
func (t *tab[T]) Walk(ix int, sel *prog.Sel, rev bool, b ...bond.Batch) (pks [][]byte, rows []prog.Row, err error) {
	if sel == nil {
		sel = &prog.Sel{Type: "point", Rows: []prog.Row{{ID: prog.MinID(t.spec.PK)}}}
	}
	var it bond.Iterator
	if ix == 0 {
		it = t.t.Iter(t.sel(sel), b...)
	} else {
		it = t.idx[ix].Iter(t.t, t.sel(sel), b...)
	}
	defer func() {
		if err2 := it.Close(); err == nil {
			err = err2
		}
	}()
	var keys [][]byte
	start, next, prev := it.First, it.Next, it.Prev
	if rev {
		start, next, prev = it.Last, it.Prev, it.Next
	}
	for ok := start(); ok; ok = next() {
		if !it.Valid() {
			failNow("iter", "an iterator moved to a row but is not valid")
		}
		k := bond.KeyBytes(append([]byte(nil), it.Key()...)).ToKey()
		if int(k.TableID) != t.spec.ID || int(k.IndexID) != prog.IndexID(ix) {
			failNow("iter", "an iterator over index %d of table %d is at a key of index %d of table %d", prog.IndexID(ix), t.spec.ID, k.IndexID, k.TableID)
		}
		pks = append(pks, k.PrimaryKey)
		keys = append(keys, append([]byte(nil), it.Key()...))
		if ix == 0 {
			v := it.Value()
			if err := it.Error(); err != nil {
				return nil, nil, err
			}
			var x T
			if err := t.t.Serializer().Deserialize(v, &x); err != nil {
				return nil, nil, err
			}
			rows = append(rows, t.from(x))
		}
		if len(pks) > 100000 {
			failNow("iter", "an iterator moves on forever")
		}
	}
	if err := it.Error(); err != nil || it.Valid() {
		return nil, nil, err
	}
	if len(pks) == 0 {
		return nil, nil, t.seeks(it, ix, sel, nil)
	}
	for i := len(pks) - 1; i >= 0; i-- {
		if !prev() {
			if err := it.Error(); err != nil {
				return nil, nil, err
			}
			failNow("iter", "an iterator over index %d of table %d found %d rows one way and %d on the way back", ix, t.spec.ID, len(pks), len(pks)-1-i)
		}
		if k := bond.KeyBytes(it.Key()).ToKey(); !bytes.Equal(k.PrimaryKey, pks[i]) {
			failNow("iter", "an iterator over index %d of table %d found key %x as number %d of %d, on the way back it is %x", ix, t.spec.ID, pks[i], i, len(pks), k.PrimaryKey)
		}
	}
	if prev() {
		failNow("iter", "an iterator over index %d of table %d found %d rows one way and more on the way back", ix, t.spec.ID, len(pks))
	}
	if err := it.Error(); err != nil {
		return nil, nil, err
	}
	return pks, rows, t.seeks(it, ix, sel, keys)
}

// seeks positions an iterator over the keys before, at and after some of them.
func (t *tab[T]) seeks(it bond.Iterator, ix int, sel *prog.Sel, keys [][]byte) error {
	if (sel.Type == "points" || sel.Type == "ranges") && len(sel.Rows) > 0 {
		return nil // bond does not support it
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	low := []byte{byte(t.spec.ID), byte(prog.IndexID(ix)), 0, 0, 0, 0, 0, 0, 0, 0}
	if len(keys) == 0 {
		fs := []func([]byte) bool{it.SeekGE, it.SeekLT}
		if len(sel.Rows) == 0 {
			fs = append(fs, it.SeekPrefixGE) // Pebble's needs a key within the bounds
		}
		for n, f := range fs {
			if ok := f(low); (ok || it.Valid()) && it.Error() == nil {
				failNow("iter", "seek %d on an iterator without rows found one", n)
			}
		}
		return it.Error()
	}
	at := func(what string, ok bool, i int) error {
		if err := it.Error(); err != nil {
			return err
		}
		in := i >= 0 && i < len(keys)
		if ok != in || it.Valid() != in || ok && !bytes.Equal(it.Key(), keys[i]) {
			failNow("iter", "%s of an iterator over index %d of table %d with %d rows: found %v at %x, expected number %d", what, ix, t.spec.ID, len(keys), ok, it.Key(), i)
		}
		return nil
	}
	for k := 0; k < 3; k++ {
		i := k * (len(keys) - 1) / 2
		key := append([]byte(nil), keys[i]...)
		next := append(append([]byte(nil), key...), 0)
		if err := at("SeekGE of a key", it.SeekGE(key), i); err != nil {
			return err
		}
		if err := at("SeekPrefixGE of a key", it.SeekPrefixGE(key), i); err != nil {
			return err
		}
		if err := at("SeekLT of a key", it.SeekLT(key), i-1); err != nil {
			return err
		}
		if err := at("SeekGE behind a key", it.SeekGE(next), i+1); err != nil {
			return err
		}
		if err := at("SeekLT behind a key", it.SeekLT(next), i); err != nil {
			return err
		}
	}
	return nil
}

func (t *tab[T]) cond(c *prog.Cond) cond.Cond[T] {
	get := func(r T) uint64 {
		x := t.from(r)
		switch c.Field {
		case "A":
			return uint64(x.A)
		case "B":
			return x.B
		case "ID":
			return x.ID
		}
		return x.V
	}
	sub := func() []cond.Cond[T] {
		var s []cond.Cond[T]
		for i := range c.Sub {
			s = append(s, t.cond(&c.Sub[i]))
		}
		return s
	}
	switch c.Op {
	case "eq":
		return cond.Eq(get, c.Val)
	case "gt":
		return cond.Gt(get, c.Val)
	case "gte":
		return cond.Gte(get, c.Val)
	case "lt":
		return cond.Lt(get, c.Val)
	case "lte":
		return cond.Lte(get, c.Val)
	case "and":
		return cond.And(sub()...)
	case "or":
		return cond.Or(sub()...)
	case "not":
		return cond.Not(sub()[0])
	}
	return cond.Func(func(r T) bool { return (get(r)+c.Val)%3 != 0 })
}

func (t *tab[T]) query(q *prog.Query, after *prog.Row) bond.Query[T] {
	bq := t.t.Query()
	if q.Sel != nil {
		bq = bq.With(t.idx[q.Idx], t.sel(q.Sel))
	}
	if q.Filter != nil {
		bq = bq.Filter(t.cond(q.Filter))
	}
	if q.Order != "" {
		bq = bq.Order(func(a, b T) bool { return model.Less(q.Order, t.from(a), t.from(b)) })
	}
	if q.Reverse {
		bq = bq.Reverse()
	}
	if q.Offset > 0 {
		bq = bq.Offset(q.Offset)
	}
	if q.Limit > 0 {
		bq = bq.Limit(q.Limit)
	}
	if after != nil {
		bq = bq.After(t.to(*after))
	}
	for i := range q.Inter {
		base := bq
		bq = base.Intersects(t.t.Query().With(t.idx[q.Inter[i].Idx], t.sel(&q.Inter[i].Sel)))
		if q.Twice {
			// another query made from the same one
			_ = base.Intersects(t.t.Query().With(t.t.PrimaryIndex(), bond.NewSelectorPoints[T]()))
		}
	}
	if q.Twice {
		_ = bq.Reverse().Limit(1).Offset(1).Filter(cond.Func(func(T) bool { return false }))
	}
	return bq
}

func (t *tab[T]) Query(ctx context.Context, q *prog.Query, after *prog.Row, b ...bond.Batch) ([]prog.Row, error) {
	var rs []T
	bq := t.query(q, after)
	if q.Twice {
		if err := bq.Execute(ctx, &rs, b...); err != nil {
			return nil, err
		}
		rs = make([]T, 1, 50)
	}
	if err := bq.Execute(ctx, &rs, b...); err != nil {
		return nil, err
	}
	return t.froms(rs), nil
}

// Refused makes queries that bond must not run: they return what they found and
// an error.
func (t *tab[T]) Refused(ctx context.Context, ix int, sel *prog.Sel, n int, b ...bond.Batch) (string, int, error) {
	part := t.t.Query().With(t.idx[ix], t.sel(sel))
	what := "filter"
	switch n % 5 {
	case 0:
		part = part.Filter(cond.Func(func(T) bool { return true }))
	case 1:
		what, part = "order", part.Order(func(a, b T) bool { return model.Less("v", t.from(a), t.from(b)) })
	case 2:
		what, part = "after", part.After(t.to(prog.Row{ID: 1, P: []byte{0, 0, 0}, V: 1}))
	case 3:
		what, part = "offset", part.Offset(1)
	case 4:
		what, part = "limit", part.Limit(1)
	}
	q := t.t.Query().With(t.idx[ix], t.sel(sel))
	if n&8 != 0 {
		q = q.Intersects(t.t.Query().With(t.idx[ix], t.sel(sel)), part)
	} else {
		q = q.Intersects(part)
	}
	var rs []T
	err := q.Execute(ctx, &rs, b...)
	return what, len(rs), err
}

func (t *tab[T]) mkIdx(ixs []int) []*bond.Index[T] {
	var l []*bond.Index[T]
	for _, ix := range ixs {
		l = append(l, index(ix, t.from))
	}
	return l
}

func (t *tab[T]) AddIndex(ixs []int, reindex bool) error {
	l := t.mkIdx(ixs)
	var err error
	if reindex {
		err = t.t.AddIndex(l, true)
	} else {
		err = t.t.AddIndex(l)
	}
	if err != nil {
		return err
	}
	for i, ix := range ixs {
		t.idx[ix] = l[i]
	}
	return nil
}

func (t *tab[T]) ReIndex(ixs []int) error {
	var l []*bond.Index[T]
	for _, ix := range ixs {
		l = append(l, t.idx[ix])
	}
	return t.t.ReIndex(l)
}

func (t *tab[T]) HasIndex(ix int) bool { return t.idx[ix] != nil }

// Forget hides indexes from reads.
func (t *tab[T]) Forget(ixs []int) {
	for _, ix := range ixs {
		delete(t.idx, ix)
	}
}

func (t *tab[T]) Info() bond.TableInfo { return t.t }

func (t *tab[T]) Scanner() bond.TableScanner[any] { return bond.TableAnyScanner[T](t.t) }

func (t *tab[T]) PKBytes(r prog.Row) []byte { return t.t.PrimaryKey(bond.NewKeyBuilder(nil), t.to(r)) }
