package prog

import "fmt"

// Col is one column of an index. N: A B S G P are the columns of Row, B8 and B16
// the low bits of B, G32 and G16 the value of G clamped to a narrower integer,
// GB the value of G as a big integer.
type Col struct {
	N    string
	Desc bool
}

// IndexDef is one of the indexes a table can have.
type IndexDef struct {
	Key []Col
	Ord []Col
	If  string // rows that are in the index: "" all, "Beven", "Aodd"
}

func cols(l ...string) []Col {
	var c []Col
	for _, n := range l {
		if n[0] == '-' {
			c = append(c, Col{n[1:], true})
		} else {
			c = append(c, Col{N: n})
		}
	}
	return c
}

// Indexes by number; 0 is the primary index.
var Indexes = []IndexDef{
	{},
	{Key: cols("A")},
	{Key: cols("A"), Ord: cols("-B")},
	{Key: cols("S")},
	{Key: cols("B")},
	{Key: cols("A"), If: "Beven"},
	{Key: cols("A", "S")},
	{Key: cols("A"), Ord: cols("-G")},
	{Key: cols("G")},
	{Key: cols("A"), Ord: cols("-P")},
	{Key: cols("A"), Ord: cols("G")},
	{Key: cols("S"), Ord: cols("B"), If: "Aodd"},
	{Key: cols("B8"), Ord: cols("G32")},
	{Key: cols("B16"), Ord: cols("-G32", "A")},
	{Key: cols("G32"), Ord: cols("-A")},
	{Key: cols("G16"), Ord: cols("B16")},
	{Key: cols("P"), Ord: cols("-B8")},
	{Key: cols("GB"), Ord: cols("-B16"), If: "Beven"},
	{Key: cols("A"), Ord: cols("-GB")},
	{Key: cols("A", "B8"), Ord: cols("P")},
	{Key: cols("A"), Ord: cols("-G16", "B8")},
	{Key: nil, Ord: cols("A", "-G")},
	{Key: cols("S"), Ord: cols("GB"), If: "Aodd"},
	{Key: cols("B16"), Ord: cols("G16", "-A")},
}

// NumIndexes counts the secondary indexes.
var NumIndexes = len(Indexes) - 1

// IndexID is the identifier bond knows an index by.
func IndexID(ix int) int {
	switch ix {
	case 21:
		return 254
	case 22:
		return 255
	}
	return ix
}

func hasCol(l []Col, n string) bool {
	for _, c := range l {
		if c.N == n {
			return true
		}
	}
	return false
}

// HasCol: the column is part of the index.
func HasCol(ix int, n string) bool {
	return hasCol(Indexes[ix].Key, n) || hasCol(Indexes[ix].Ord, n)
}

// HasS: strings have no greatest value, such indexes are read through points.
func HasS(ix int) bool { return hasCol(Indexes[ix].Key, "S") }

func clamp(v, m int64) int64 {
	if v > m {
		return m
	}
	if v < -m {
		return -m
	}
	return v
}

func G32(r Row) int32 { return int32(clamp(r.G, 1<<31-1)) }
func G16(r Row) int16 { return int16(clamp(r.G, 1<<15-1)) }

// extreme sets a column to its least or greatest value.
func extreme(r *Row, n string, max bool) {
	switch n[0] {
	case 'A':
		r.A = 0
		if max {
			r.A = 1<<32 - 1
		}
	case 'B':
		r.B = 0
		if max {
			r.B = 1<<64 - 1
		}
	case 'G':
		r.G = -1<<63 + 1
		if max {
			r.G = 1<<63 - 1
		}
	case 'P':
		r.P = []byte{0, 0, 0}
		if max {
			r.P = []byte{0xff, 0xff, 0xff}
		}
	case 'S':
		r.S = ""
	}
}

// FirstOrd and LastOrd put the row at an end of its index key's rows; the ID is
// left alone.
func FirstOrd(ix int, r *Row) {
	for _, c := range Indexes[ix].Ord {
		extreme(r, c.N, c.Desc)
	}
}

func LastOrd(ix int, r *Row) {
	for _, c := range Indexes[ix].Ord {
		extreme(r, c.N, !c.Desc)
	}
}

// FirstKey and LastKey are the ends of the index key's domain.
func FirstKey(ix int, r *Row) {
	for _, c := range Indexes[ix].Key {
		extreme(r, c.N, c.Desc)
	}
}

func LastKey(ix int, r *Row) {
	for _, c := range Indexes[ix].Key {
		extreme(r, c.N, !c.Desc)
	}
}

// KeyString names the index key of a row.
func KeyString(ix int, r Row) string {
	if ix == 0 {
		return fmt.Sprint(r.ID)
	}
	s := ""
	for _, c := range Indexes[ix].Key {
		switch c.N {
		case "A":
			s += fmt.Sprint(r.A)
		case "B":
			s += fmt.Sprint(r.B)
		case "B8":
			s += fmt.Sprint(byte(r.B))
		case "B16":
			s += fmt.Sprint(uint16(r.B))
		case "G", "GB":
			s += fmt.Sprint(r.G)
		case "G32":
			s += fmt.Sprint(G32(r))
		case "G16":
			s += fmt.Sprint(G16(r))
		case "P":
			s += string(r.P)
		case "S":
			s += r.S
		}
		s += "\x01"
	}
	return s
}
