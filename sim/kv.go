package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"

	"bondsim/model"
	"bondsim/prog"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
)

// kvTab keeps rows in the user's key space, through the plain operations of the
// database and of batches: Get, Set, Delete, DeleteRange, Iter.
type kvTab struct {
	tableOps // what is not there is never asked for
	spec     prog.Table
	db       bond.DB
	turn     int
}

var errExists, errMissing = errors.New("exists"), errors.New("missing")

func kvKey(id uint64) bond.KeyBytes { return bond.NewUserKey(fmt.Sprintf("k%06d", id)) }

func (t *kvTab) Spec() *prog.Table    { return &t.spec }
func (t *kvTab) HasIndex(ix int) bool { return ix == 0 }

func decodeRow(b []byte) (prog.Row, error) {
	var r prog.Row
	err := json.Unmarshal(b, &r)
	return r, err
}

func (t *kvTab) get(id uint64, b ...bond.Batch) (prog.Row, error) {
	v, c, err := t.db.Get(kvKey(id), b...)
	if errors.Is(err, pebble.ErrNotFound) {
		return prog.Row{}, bond.ErrNotFound
	}
	if err != nil {
		return prog.Row{}, err
	}
	r, err := decodeRow(v)
	if err2 := c.Close(); err == nil {
		err = err2
	}
	return r, err
}

func (t *kvTab) write(b []bond.Batch, rows []prog.Row, f func(r prog.Row, old *prog.Row) (*prog.Row, error)) error {
	var out bond.Batch
	own := false
	if len(b) > 0 && b[0] != nil {
		out = b[0]
	} else if len(rows) > 1 {
		own = true
		out = t.db.Batch(bond.BatchTypeReadWrite)
		defer func() { _ = out.Close() }()
	}
	var rd bond.Batch
	if out != nil && out.Type() == bond.BatchTypeReadWrite {
		rd = out
	}
	here := map[uint64]*prog.Row{}
	for _, r := range rows {
		old, ok := here[r.ID]
		if !ok || rd != nil {
			x, err := t.get(r.ID, rd)
			switch {
			case err == nil:
				old = &x
			case !errors.Is(err, bond.ErrNotFound):
				return err
			default:
				old = nil
			}
		}
		n, err := f(r, old)
		if err != nil {
			return err
		}
		here[r.ID] = n
		key := kvKey(r.ID)
		switch {
		case n != nil:
			v, err := json.Marshal(n)
			if err != nil {
				return err
			}
			err = t.db.Set(key, v, bond.Sync, out)
			for i := range v {
				v[i] = 0xee // the caller's buffer is free again
			}
			if err != nil {
				return err
			}
		case r.ID%2 == 0:
			if err := t.db.DeleteRange(key, append(append([]byte(nil), key...), 0), bond.Sync, out); err != nil {
				return err
			}
		default:
			if err := t.db.Delete(key, bond.Sync, out); err != nil {
				return err
			}
		}
		for i := range key {
			key[i] = 0xee
		}
	}
	if own {
		return t.db.Apply(out, bond.Sync)
	}
	return nil
}

func (t *kvTab) Insert(_ context.Context, rows []prog.Row, b ...bond.Batch) error {
	return t.write(b, rows, func(r prog.Row, old *prog.Row) (*prog.Row, error) {
		if old != nil {
			return nil, errExists
		}
		return &r, nil
	})
}

func (t *kvTab) Update(_ context.Context, rows []prog.Row, b ...bond.Batch) error {
	return t.write(b, rows, func(r prog.Row, old *prog.Row) (*prog.Row, error) {
		if old == nil {
			return nil, errMissing
		}
		return &r, nil
	})
}

func (t *kvTab) Upsert(_ context.Context, rows []prog.Row, kind int, b ...bond.Batch) error {
	return t.write(b, rows, func(r prog.Row, old *prog.Row) (*prog.Row, error) {
		if old != nil {
			n := model.Conflict(kind, *old, r)
			return &n, nil
		}
		return &r, nil
	})
}

func (t *kvTab) Delete(_ context.Context, rows []prog.Row, b ...bond.Batch) error {
	return t.write(b, rows, func(r prog.Row, old *prog.Row) (*prog.Row, error) { return nil, nil })
}

func (t *kvTab) UnsafeInsert(ctx context.Context, rows []prog.Row, b ...bond.Batch) error {
	return t.Upsert(ctx, rows, 0, b...)
}

func (t *kvTab) UnsafeUpdate(ctx context.Context, rows, _ []prog.Row, b ...bond.Batch) error {
	return t.Upsert(ctx, rows, 0, b...)
}

func (t *kvTab) GetPoint(_ context.Context, r prog.Row, b ...bond.Batch) (prog.Row, error) {
	return t.get(r.ID, b...)
}

func (t *kvTab) Exist(r prog.Row, b ...bond.Batch) bool {
	_, err := t.get(r.ID, b...)
	return err == nil
}

// Get reads all keys through one iterator.
func (t *kvTab) Get(_ context.Context, sel *prog.Sel, b ...bond.Batch) (out []*prog.Row, err error) {
	t.turn++
	it := t.db.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: bond.NewUserKey("k"), UpperBound: bond.NewUserKey("l")}}, b...)
	defer func() {
		if err2 := it.Close(); err == nil {
			err = err2
		}
	}()
	for _, r := range sel.Rows {
		key := kvKey(r.ID)
		ok := false
		if t.turn&1 == 0 {
			ok = it.SeekGE(key)
		} else {
			ok = it.SeekPrefixGE(key)
		}
		if ok != it.Valid() {
			failNow("iter", "a seek says %v, Valid says %v", ok, it.Valid())
		}
		if err := it.Error(); err != nil {
			return nil, err
		}
		if !ok || string(it.Key()) != string(key) {
			out = append(out, nil)
			continue
		}
		v := it.Value()
		if err := it.Error(); err != nil {
			return nil, err
		}
		x, err := decodeRow(v)
		if err != nil {
			return nil, err
		}
		out = append(out, &x)
	}
	return out, nil
}

func (t *kvTab) Scan(ctx context.Context, rev bool, b ...bond.Batch) ([]prog.Row, error) {
	var rows []prog.Row
	err := t.ScanForEach(ctx, 0, nil, rev, func(get func() (prog.Row, error)) (bool, error) {
		r, err := get()
		rows = append(rows, r)
		return true, err
	}, b...)
	return rows, err
}

func (t *kvTab) ScanForEach(_ context.Context, _ int, _ *prog.Sel, rev bool, f func(get func() (prog.Row, error)) (bool, error), b ...bond.Batch) (err error) {
	t.turn++
	lo, up := bond.NewUserKey("k"), bond.NewUserKey("l")
	it := t.db.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: lo, UpperBound: up}}, b...)
	defer func() {
		if err2 := it.Close(); err == nil {
			err = err2
		}
	}()
	ok := false
	switch t.turn & 1 {
	case 0:
		if rev {
			ok = it.Last()
		} else {
			ok = it.First()
		}
	default:
		if rev {
			ok = it.SeekLT(up)
		} else {
			ok = it.SeekGE(lo)
		}
	}
	for ok && it.Valid() {
		next, err := f(func() (prog.Row, error) {
			v := it.Value()
			if err := it.Error(); err != nil {
				return prog.Row{}, err
			}
			r, err := decodeRow(v)
			if err == nil && string(it.Key()) != string(kvKey(r.ID)) {
				failNow("scan-key", "an iterator is at key %x with the value of key %d", it.Key(), r.ID)
			}
			return r, err
		})
		if err != nil {
			return err
		}
		if !next {
			break
		}
		if rev {
			ok = it.Prev()
		} else {
			ok = it.Next()
		}
	}
	return it.Error()
}
