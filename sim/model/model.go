// Package model is the executable reference: tables as maps, indexes as sorted
// views computed from the rows, queries as filters over them. It shares no code
// with bond; keys are compared through its own order-preserving tuples.
package model

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"bondsim/prog"
)

type Rows map[uint64]prog.Row

func (r Rows) Clone() Rows {
	c := make(Rows, len(r))
	for k, v := range r {
		c[k] = v
	}
	return c
}

func (r Rows) IDs() []uint64 {
	ids := make([]uint64, 0, len(r))
	for k := range r {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func Same(a, b prog.Row) bool {
	return a.ID == b.ID && a.A == b.A && a.B == b.B && a.S == b.S && a.G == b.G && a.V == b.V && a.X == b.X && bytes.Equal(a.P, b.P)
}

func SameP(a, b *prog.Row) bool {
	if a == nil || b == nil {
		return a == b
	}
	return Same(*a, *b)
}

// Name is an injective map of IDs to strings in which many names are prefixes
// of others and 0xff bytes are frequent.
func Name(id uint64) string {
	var b []byte
	for id > 0 {
		id--
		b = append([]byte{"a\xffb"[id%3]}, b...)
		id /= 3
	}
	return string(b)
}

// Int maps IDs to integers of both signs.
func Int(id uint64) int64 {
	if id%2 == 0 {
		return int64(id / 2)
	}
	return -int64((id + 1) / 2)
}

func u64(b []byte, v uint64) []byte { return binary.BigEndian.AppendUint64(b, v) }
func u32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }
func i64(b []byte, v int64) []byte  { return u64(b, uint64(v)^(1<<63)) }

// PK is the order-preserving form of a row's primary key.
func PK(kind int, id uint64) []byte {
	switch kind {
	case 1:
		return u64(u32(nil, uint32(id%3)), id)
	case 2, 7:
		return []byte(Name(id))
	case 3, 4, 6:
		return i64(nil, Int(id))
	case 5:
		return append([]byte{byte(id % 2)}, Name(id)...)
	}
	return u64(nil, id)
}

// Include says whether the row has an entry in the index.
func Include(ix int, r prog.Row) bool {
	switch prog.Indexes[ix].If {
	case "Beven":
		return r.B%2 == 0
	case "Aodd":
		return r.A%2 == 1
	}
	return true
}

// column appends the order-preserving form of a column.
func column(b []byte, c prog.Col, r prog.Row) []byte {
	n := len(b)
	switch c.N {
	case "A":
		b = u32(b, r.A)
	case "B":
		b = u64(b, r.B)
	case "B8":
		b = append(b, byte(r.B))
	case "B16":
		b = append(b, byte(r.B>>8), byte(r.B))
	case "G", "GB":
		b = i64(b, r.G)
	case "G32":
		b = i64(b, int64(prog.G32(r)))
	case "G16":
		b = i64(b, int64(prog.G16(r)))
	case "P":
		b = append(b, r.P...)
	case "S":
		b = append(b, r.S...)
	default:
		panic("column " + c.N)
	}
	if c.Desc {
		for i := range b[n:] {
			b[n+i] = ^b[n+i]
		}
	}
	return b
}

// Idx is the index part of the key: equality decides point selectors.
func Idx(ix int, r prog.Row) []byte {
	var b []byte
	for _, c := range prog.Indexes[ix].Key {
		b = column(b, c, r)
	}
	return b
}

// Ord is the order part of the key.
func Ord(ix int, r prog.Row) []byte {
	var b []byte
	for _, c := range prog.Indexes[ix].Ord {
		b = column(b, c, r)
	}
	return b
}

func lenCmp(a, b []byte) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	return bytes.Compare(a, b)
}

// Cmp compares two rows in the order of an index.
func Cmp(pk, ix int, a, b prog.Row) int {
	if c := lenCmp(Idx(ix, a), Idx(ix, b)); c != 0 {
		return c
	}
	return cmpOrd(pk, ix, a, b)
}

func cmpOrd(pk, ix int, a, b prog.Row) int {
	if c := lenCmp(Ord(ix, a), Ord(ix, b)); c != 0 {
		return c
	}
	return bytes.Compare(PK(pk, a.ID), PK(pk, b.ID))
}

// Select returns the rows of a selector in ascending selector order; nil means
// every row of the index.
func Select(rows Rows, pk, ix int, sel *prog.Sel) []prog.Row {
	all := make([]prog.Row, 0, len(rows))
	for _, r := range rows {
		if Include(ix, r) {
			all = append(all, r)
		}
	}
	sort.Slice(all, func(i, j int) bool { return Cmp(pk, ix, all[i], all[j]) < 0 })
	if sel == nil {
		return all
	}
	var out []prog.Row
	add := func(f func(r prog.Row) bool) {
		for _, r := range all {
			if f(r) {
				out = append(out, r)
			}
		}
	}
	switch sel.Type {
	case "point":
		p := sel.Rows[0]
		add(func(r prog.Row) bool {
			return bytes.Equal(Idx(ix, r), Idx(ix, p)) && cmpOrd(pk, ix, r, p) >= 0
		})
	case "points":
		for _, p := range sel.Rows {
			p := p
			add(func(r prog.Row) bool {
				if ix == 0 {
					return r.ID == p.ID
				}
				return bytes.Equal(Idx(ix, r), Idx(ix, p)) && cmpOrd(pk, ix, r, p) >= 0
			})
		}
	case "range", "ranges":
		for i := 0; i+1 < len(sel.Rows); i += 2 {
			lo, up := sel.Rows[i], sel.Rows[i+1]
			add(func(r prog.Row) bool { return Cmp(pk, ix, lo, r) <= 0 && Cmp(pk, ix, r, up) <= 0 })
		}
	}
	return out
}

func field(f string, r prog.Row) uint64 {
	switch f {
	case "A":
		return uint64(r.A)
	case "B":
		return r.B
	case "ID":
		return r.ID
	}
	return r.V
}

// Eval decides a condition.
func Eval(c *prog.Cond, r prog.Row) bool {
	switch c.Op {
	case "eq":
		return field(c.Field, r) == c.Val
	case "gt":
		return field(c.Field, r) > c.Val
	case "gte":
		return field(c.Field, r) >= c.Val
	case "lt":
		return field(c.Field, r) < c.Val
	case "lte":
		return field(c.Field, r) <= c.Val
	case "and":
		for i := range c.Sub {
			if !Eval(&c.Sub[i], r) {
				return false
			}
		}
		return true
	case "or":
		for i := range c.Sub {
			if Eval(&c.Sub[i], r) {
				return true
			}
		}
		return false
	case "not":
		return !Eval(&c.Sub[0], r)
	case "func":
		return (field(c.Field, r)+c.Val)%3 != 0
	}
	panic("cond " + c.Op)
}

// Less is the order of Query.Order; all orders are total.
func Less(o string, a, b prog.Row) bool {
	switch o {
	case "b":
		if a.B != b.B {
			return a.B < b.B
		}
	case "bdesc":
		if a.B != b.B {
			return a.B > b.B
		}
	case "v":
		if a.V != b.V {
			return a.V < b.V
		}
	}
	return a.ID < b.ID
}

// Unpaged is the result of a query before After, Offset and Limit.
func Unpaged(rows Rows, pk int, q *prog.Query) []prog.Row {
	base := Select(rows, pk, q.Idx, q.Sel)
	if len(q.Inter) > 0 {
		keep := map[uint64]bool{}
		for _, r := range base {
			keep[r.ID] = true
		}
		for _, in := range q.Inter {
			k2 := map[uint64]bool{}
			sel := in.Sel
			for _, r := range Select(rows, pk, in.Idx, &sel) {
				if keep[r.ID] {
					k2[r.ID] = true
				}
			}
			keep = k2
		}
		sub := Rows{}
		for id := range keep {
			sub[id] = rows[id]
		}
		base = Select(sub, pk, 0, nil)
	} else if q.Reverse {
		for i, j := 0, len(base)-1; i < j; i, j = i+1, j-1 {
			base[i], base[j] = base[j], base[i]
		}
	}
	if q.Filter != nil {
		f := base[:0:0]
		for _, r := range base {
			if Eval(q.Filter, r) {
				f = append(f, r)
			}
		}
		base = f
	}
	if q.Order != "" {
		sort.Slice(base, func(i, j int) bool { return Less(q.Order, base[i], base[j]) })
	}
	return base
}

// Page applies After (a position in the unpaged result), Offset and Limit.
func Page(base []prog.Row, after int, q *prog.Query) []prog.Row {
	if after >= 0 {
		base = base[after+1:]
	}
	if q.Offset > 0 {
		if q.Offset >= uint64(len(base)) {
			base = nil
		} else {
			base = base[q.Offset:]
		}
	}
	if q.Limit > 0 && q.Limit < uint64(len(base)) {
		base = base[:q.Limit]
	}
	return base
}

// Conflict is the onConflict function of upserts, on values.
func Conflict(kind int, old, new prog.Row) prog.Row {
	switch kind {
	case 1: // merge into the new row
		n := new
		n.B = old.B + new.B
		n.X = Trim(old.X + "+" + fmt.Sprint(new.V%97))
		return n
	case 2: // keep the old row's columns
		n := old
		n.V = new.V
		return n
	case 3: // mutate the old row and return it
		n := old
		n.V = new.V
		n.A = new.A
		n.S = new.S
		return n
	}
	return new
}

func Trim(s string) string {
	if len(s) > 24 {
		return s[len(s)-24:]
	}
	return s
}

func Show(r prog.Row) string {
	if strings.HasPrefix(r.S, prog.Long) {
		r.S = "<long>" + r.S[len(prog.Long):]
	}
	return fmt.Sprintf("{ID:%d A:%d B:%d S:%q G:%d P:%x V:%d X:%q}", r.ID, r.A, r.B, r.S, r.G, r.P, r.V, r.X)
}

func ShowP(r *prog.Row) string {
	if r == nil {
		return "absent"
	}
	return Show(*r)
}

func ShowList(rs []prog.Row) string {
	s := "["
	for i, r := range rs {
		if i > 0 {
			s += " "
		}
		if i == 12 {
			s += fmt.Sprintf("... %d rows", len(rs))
			break
		}
		s += fmt.Sprintf("%d/v%d", r.ID, r.V)
	}
	return s + "]"
}
