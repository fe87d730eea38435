package prog

import (
	"fmt"
	"strings"
)

// Value pools: small enough for collisions, with the awkward byte patterns
// (trailing 0xff, carries, sign changes).
var (
	Ss = []string{"", "a", "ab", "aÿ", "b", "zz\x00", "\x7f"}
	As = []uint32{0, 1, 2, 255, 256, 511, 65535, 1<<24 - 1, 1<<32 - 1}
	Bs = []uint64{0, 1, 2, 3, 254, 255, 256, 1<<32 - 1, 1<<64 - 1}
	Gs = []int64{-1<<63 + 1, -1 << 32, -256, -1, 0, 1, 255, 1 << 40, 1<<63 - 1}
	Ps = [][]byte{{0, 0, 0}, {0, 0, 255}, {0, 255, 255}, {1, 2, 3}, {255, 255, 254}, {255, 255, 255}}
)

// Strings longer than the buffers that keys are built in: a column, and the
// beginning of long primary keys.
var (
	Long   = "w" + strings.Repeat("ÿ", 1050)
	LongPK = "w" + strings.Repeat("\xff", 2100)
)

// MinID and MaxID are keys before and after every key of a table.
func MinID(pk int) uint64 {
	switch pk {
	case 3, 6:
		return 1<<40 + 1
	case 4:
		return 1<<20 + 1
	}
	return 0
}

func MaxID(pk int) uint64 {
	switch pk {
	case 1:
		id := uint64(1 << 40)
		for id%3 != 2 {
			id++
		}
		return id
	case 2, 5, 7:
		id := uint64(0)
		for i := 0; i < 20; i++ {
			id = id*3 + 2
		}
		if pk == 5 {
			id = id*3 + 3 // an odd one
		}
		return id
	case 4:
		return 1 << 20
	}
	return 1 << 40
}

// Knobs steer the generator; one profile per property.
type Knobs struct {
	Tasks      [2]int
	Phases     [2]int
	Ops        [2]int // per task
	Tables     [2]int
	Keys       [2]int
	W          map[string]int // weights of operation kinds
	CrashP     float64        // a phase ends with a crash somewhere inside
	EndCrashP  float64        // ... with a crash at its end
	FaultKinds []string       // faults armed by "arm"
	FaultCrash float64        // an armed fault is a crash
	CtxP       float64        // an operation gets a context that is cancelled
	MultiRow   int            // most rows per write
	NoDelays   bool
	SchedNoise float64 // probability that the schedule is perturbed
	FilterP    float64 // a table has a filter
	FilterFS   bool
	NoWALP     float64
	PKs        []int
	QueryAfter bool
	BatchRW    float64
	WallP      float64
	FormatP    float64
	OpenFaultP float64 // faults while the database is opened
	AddIdxP    float64
	IdxN       [2]int
	Sers       []string
	Leaks      bool
	Shared     bool
	KVP        float64 // plain keys are written too
	NetP       float64 // a remote call meets a network fault
}

type gen struct {
	*RNG
	k     *Knobs
	p     *Program
	v     uint64
	as    []uint32
	avail [][]int // indexes per table at this point
	ntask int
	ph    int
	ndump int
	dumps map[int][]string
	ntab  int   // tables without the one of plain keys
	unst  []int // tables that refuse unstorable records
}

func (g *gen) in(r [2]int) int { return r[0] + g.N(r[1]-r[0]+1) }

func (g *gen) sched(noise bool) {
	s := &g.p.Sched
	s.Seed = g.U64()
	s.Rand = g.U64()
	s.Tick = int64(g.Pick(20, 200, 1000, 5000))
	if !noise {
		return
	}
	s.Yield = [4]float64{
		g.F(0, 0.002, 0.01, 0.05, 0.2),
		g.F(0, 0.01, 0.05, 0.2, 0.5),
		g.F(0, 0.01, 0.05, 0.2),
		g.F(0, 0.05, 0.2, 0.5),
	}
	s.Pick = g.F(0, 0.1, 0.5, 1)
	s.Stall = g.F(0, 0, 0.02, 0.1, 0.3)
	s.StallMax = uint32(g.Pick(50, 500, 5000, 30000))
}

func (g *gen) cfg() {
	c := &g.p.Cfg
	k := g.k
	c.MemTable = g.Pick(16<<10, 64<<10, 256<<10)
	c.Block = g.Pick(64, 256, 4096)
	c.TargetFile = g.Pick(2<<10, 16<<10, 2<<20)
	c.Cache = g.Pick(0, 8<<10, 1<<20)
	c.L0 = g.Pick(1, 2, 4)
	c.Format = 0
	if g.P(0.15) {
		c.Format = 1
	}
	c.Ser = []string{"", "json", "cbor", "msgpack", "msgpackpool"}[g.Pick(0, 0, 1, 2, 3, 4)]
	if k.Sers != nil {
		c.Ser = k.Sers[g.N(len(k.Sers))]
	}
	c.Keys = g.in(k.Keys)
	if !k.NoDelays && g.P(0.3) {
		c.DelayP = g.F(0.001, 0.01, 0.05)
		c.DelayMax = int64(g.Pick(10_000, 1_000_000, 200_000_000))
	}
	c.Chunk = g.Pick(0, 0, 0, 0, 0, 2, 3, 15, 24, 64)
	c.ReChunk = g.Pick(0, 0, 0, 0, 1, 2, 12)
	ids := []int{1, 2, 10, 254, 127, 17}
	nt := g.in(k.Tables)
	off := g.N(len(ids))
	for i := 0; i < nt; i++ {
		t := Table{ID: ids[(off+i)%len(ids)], PK: g.Pick(0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7), Ptr: g.P(0.4), Prefetch: g.Pick(0, 1, 2, 3, 7, 100)}
		if k.PKs != nil {
			t.PK = k.PKs[g.N(len(k.PKs))]
		}
		n := 1 + g.N(4)
		if k.IdxN[1] > 0 {
			n = g.in(k.IdxN)
		}
		have := map[int]bool{}
		for j := 0; j < n; j++ {
			ix := 1 + g.N(NumIndexes)
			if !have[ix] {
				have[ix] = true
				t.Idx = append(t.Idx, ix)
			}
		}
		if g.P(0.2) {
			t.Ser = []string{"json", "cbor", "msgpack", "msgpackpool"}[g.N(4)]
		} else if g.P(0.3) {
			t.Ser = []string{"msgp", "vt", "pb"}[g.N(3)]
			g.unst = append(g.unst, i)
		} else if g.P(0.1) {
			t.Ser = "lean"
		}
		if g.P(k.FilterP) {
			t.Filter = &Filter{N: g.Pick(1, 5, 1000), FP: g.F(0.5, 0.1, 0.0001), Buckets: g.Pick(1, 2, 13), Store: "db"}
			if k.FilterFS && g.P(0.5) {
				t.Filter.Store = "fs"
			}
		}
		c.Tables = append(c.Tables, t)
		g.avail = append(g.avail, append([]int(nil), t.Idx...))
	}
	if g.P(0.5) {
		x := 1 + g.N(2)
		for i := range c.Tables {
			if c.Tables[i].Filter != nil {
				c.Tables[i].Filter.Prefix = x
			}
		}
	}
	g.ntab = nt
	if g.P(k.KVP) {
		c.Tables = append(c.Tables, Table{KV: true})
		g.avail = append(g.avail, nil)
	}
	na := 2 + g.N(4)
	for i := 0; i < na; i++ {
		g.as = append(g.as, As[g.N(len(As))])
	}
}

func (g *gen) row(id uint64) Row {
	g.v++
	r := Row{ID: id, A: g.as[g.N(len(g.as))], B: Bs[g.N(len(Bs))], S: Ss[g.N(len(Ss))], G: Gs[g.N(len(Gs))], P: Ps[g.N(len(Ps))], V: g.v}
	if g.P(0.02) {
		r.S = Long + []string{"", "", "a", "ÿ"}[g.N(4)]
	}
	if g.P(0.3) {
		n := g.Pick(3, 40, 300)
		if g.P(0.05) {
			n = 6000
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(g.N(26))
		}
		r.X = string(b)
	}
	return r
}

func (g *gen) id(task int) uint64 {
	id := uint64(g.N(g.p.Cfg.Keys))
	if g.ntask > 1 && task >= 0 {
		id = id/uint64(g.ntask)*uint64(g.ntask) + uint64(task)
	}
	return id
}

func (g *gen) rows(task int) []Row {
	n := 1
	if g.P(0.6) {
		n = 1 + g.N(g.k.MultiRow)
	}
	var rs []Row
	for i := 0; i < n; i++ {
		if i > 0 && g.P(0.1) {
			rs = append(rs, g.row(rs[g.N(i)].ID))
			continue
		}
		rs = append(rs, g.row(g.id(task)))
	}
	return rs
}

// selRow is a row used in a selector.
func (g *gen) selRow(tab, ix int, min bool) Row {
	pk := g.p.Cfg.Tables[tab].PK
	r := Row{ID: g.id(-1), A: g.as[g.N(len(g.as))], B: Bs[g.N(len(Bs))], S: Ss[g.N(len(Ss))], G: Gs[g.N(len(Gs))], P: Ps[g.N(len(Ps))]}
	if g.P(0.02) {
		r.S = Long
	}
	if min {
		r.ID = MinID(pk)
		FirstOrd(ix, &r)
	}
	return r
}

// sel makes a selector; disjoint ones never select a row twice.
func (g *gen) sel(tab, ix int, disjoint bool) *Sel {
	s := &Sel{}
	switch {
	case ix == 0:
		s.Type = []string{"point", "points", "range", "ranges"}[g.N(4)]
		if disjoint && s.Type == "point" {
			s.Type = "range"
		}
	case HasS(ix):
		s.Type = []string{"point", "points"}[g.N(2)]
	default:
		s.Type = []string{"point", "points", "range", "ranges", "range"}[g.N(5)]
	}
	min := g.P(0.8)
	switch s.Type {
	case "point":
		s.Rows = []Row{g.selRow(tab, ix, ix != 0 && min)}
		if ix == 0 && g.P(0.3) {
			s.Rows[0].ID = MinID(g.p.Cfg.Tables[tab].PK)
		}
	case "points":
		n := g.N(5)
		if g.P(0.9) {
			n++
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			r := g.selRow(tab, ix, ix != 0 && min)
			key := KeyString(ix, r)
			if disjoint && seen[key] {
				continue
			}
			seen[key] = true
			s.Rows = append(s.Rows, r)
		}
		if disjoint && len(s.Rows) == 0 {
			s.Rows = append(s.Rows, g.selRow(tab, ix, ix != 0))
		}
	case "range", "ranges":
		n := 1
		if s.Type == "ranges" && !disjoint {
			n = g.N(4)
			if g.P(0.9) && n == 0 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			lo, up := g.selRow(tab, ix, g.P(0.5)), g.selRow(tab, ix, false)
			if ix != 0 && g.P(0.5) {
				up.ID = MaxID(g.p.Cfg.Tables[tab].PK)
			}
			if g.P(0.4) {
				// the whole domain of the leading column
				FirstKey(ix, &lo)
				LastKey(ix, &up)
				if ix == 0 {
					lo.ID, up.ID = MinID(g.p.Cfg.Tables[tab].PK), MaxID(g.p.Cfg.Tables[tab].PK)
				}
			}
			s.Rows = append(s.Rows, lo, up)
		}
	}
	return s
}

func (g *gen) idx(tab int) int {
	a := g.avail[tab]
	if len(a) == 0 || g.P(0.15) {
		return 0
	}
	return a[g.N(len(a))]
}

func (g *gen) cond(depth int) *Cond {
	f := []string{"A", "B", "ID", "V"}[g.N(4)]
	var v uint64
	switch f {
	case "A":
		v = uint64(g.as[g.N(len(g.as))])
	case "B":
		v = Bs[g.N(len(Bs))]
	case "ID":
		v = g.id(-1)
	default:
		v = uint64(g.N(int(g.v) + 1))
	}
	if depth > 0 && g.P(0.5) {
		switch g.N(3) {
		case 0:
			return &Cond{Op: "and", Sub: []Cond{*g.cond(depth - 1), *g.cond(depth - 1)}}
		case 1:
			return &Cond{Op: "or", Sub: []Cond{*g.cond(depth - 1), *g.cond(depth - 1), *g.cond(0)}}
		default:
			return &Cond{Op: "not", Sub: []Cond{*g.cond(depth - 1)}}
		}
	}
	return &Cond{Op: []string{"eq", "gt", "gte", "lt", "lte", "func"}[g.N(6)], Field: f, Val: v}
}

func (g *gen) query(tab int) *Query {
	q := &Query{Twice: g.P(0.15)}
	q.Idx = g.idx(tab)
	inter := g.P(0.25) && len(g.avail[tab]) > 0
	after := g.k.QueryAfter && g.P(0.35)
	if q.Idx != 0 || inter || g.P(0.6) {
		q.Sel = g.sel(tab, q.Idx, after || inter)
	}
	if inter {
		n := 1 + g.N(2)
		if g.P(0.15) {
			n = 3 + g.N(3)
			q.Twice = g.P(0.6)
		}
		for i := 0; i < n; i++ {
			if i > 0 && n > 2 && g.P(0.7) {
				q.Inter = append(q.Inter, Inter{q.Idx, *q.Sel})
				continue
			}
			ix := g.idx(tab)
			q.Inter = append(q.Inter, Inter{ix, *g.sel(tab, ix, true)})
		}
	}
	if g.P(0.4) {
		q.Filter = g.cond(2)
	}
	if g.P(0.3) {
		q.Order = []string{"b", "bdesc", "v", "id"}[g.N(4)]
	}
	if !inter && g.P(0.35) {
		q.Reverse = true
	}
	if g.P(0.3) {
		q.Offset = uint64(g.Pick(1, 2, 5, 30))
	}
	if g.P(0.35) {
		q.Limit = uint64(g.Pick(1, 2, 3, 10))
	}
	if after {
		n := uint64(g.N(64))
		q.After = &n
	}
	return q
}

func (g *gen) ctx() int {
	if !g.P(g.k.CtxP) {
		return 0
	}
	if g.P(0.25) {
		return 1
	}
	return 2 + g.N(40)
}

func (g *gen) fault() *Fault {
	k := g.k
	f := &Fault{Kind: k.FaultKinds[g.N(len(k.FaultKinds))], Class: "any", Errno: "EIO", Skip: g.N(g.Pick(1, 3, 12, 60)), Count: g.Pick(1, 1, 2, 60)}
	switch f.Kind {
	case "read":
		f.Class = []string{"sst", "any"}[g.N(2)]
	case "write", "sync":
		f.Class = []string{"wal", "wal", "sst", "manifest", "any", "options", "marker"}[g.N(7)]
		f.Errno = []string{"EIO", "ENOSPC"}[g.N(2)]
		f.Short = g.P(0.5)
	case "create", "any-write":
		f.Errno = []string{"EIO", "ENOSPC", "EMFILE"}[g.N(3)]
	case "open":
		f.Errno = []string{"EIO", "EMFILE"}[g.N(2)]
	}
	f.Crash = g.P(k.FaultCrash)
	return f
}

// opFault arms a fault for one call.
func (g *gen) opFault(o *Op) {
	p, skip := 0.0, 3
	switch o.K {
	case "dump":
		p, skip = 0.2, g.Pick(5, 20, 60)
	case "restore":
		p, skip = 0.2, g.Pick(5, 30, 100)
	case "reindex", "addidx":
		p, skip = 0.15, g.Pick(3, 20)
	case "flush", "compact", "fsave":
		p, skip = 0.1, g.Pick(3, 12)
	case "bcommit", "bapply":
		p = 0.05
	case "ins", "upd", "ups", "del", "uins", "uupd", "query", "scan", "scani":
		p = 0.02
	}
	if !g.P(p) {
		return
	}
	f := g.fault()
	f.Skip, f.Count = g.N(skip), g.Pick(1, 1, 2, 10)
	if o.K == "dump" {
		f.Kind = []string{"write", "sync", "create", "any-write", "mkdir", "read", "open"}[g.N(7)]
		f.Class = []string{"dump", "dump", "any"}[g.N(3)]
		if f.Kind == "read" || f.Kind == "open" {
			f.Class = "any"
		} else if f.Class == "dump" && g.P(0.6) {
			f.Skip = g.N(4)
		}
	}
	o.Fault = f
}

func (g *gen) kind(w map[string]int, names []string) string {
	t := 0
	for _, n := range names {
		t += w[n]
	}
	x := g.N(t)
	for _, n := range names {
		if x < w[n] {
			return n
		}
		x -= w[n]
	}
	return names[0]
}

// Kinds in a fixed order.
var kinds = []string{"ins", "upd", "ups", "del", "uins", "uupd", "bnew", "bcommit", "bclose", "breset", "bapply", "bhook",
	"get", "getp", "exist", "scan", "scani", "query", "refuse", "flush", "compact", "sleep", "arm", "disarm", "chk",
	"reindex", "addidx", "dump", "restore", "fsave", "page", "inspect", "sync", "next", "clock", "iquery", "uuid", "norand", "onclose"}

func (g *gen) op(task int, open map[int]bool) Op {
	k := g.k
	o := Op{K: g.kind(k.W, kinds), T: g.N(len(g.p.Cfg.Tables))}
	kv := o.T == g.ntab
	if kv {
		switch o.K {
		case "get", "query", "scani", "page", "refuse":
			o.K = []string{"scan", "get", "getp"}[g.N(3)]
		case "ins", "upd", "ups", "del", "uins", "uupd", "getp", "exist", "scan":
		default:
			o.T, kv = g.N(g.ntab), false
		}
	}
	pickB := func() int {
		var l []int
		for i := 1; i <= 3; i++ {
			if open[i] {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return 0
		}
		return l[g.N(len(l))]
	}
	switch o.K {
	case "ins", "upd", "ups", "del", "uins", "uupd":
		o.Rows = g.rows(task)
		if o.K == "del" {
			o.Full = g.P(0.5)
		} else if g.P(0.06) {
			for _, t := range g.unst {
				if t == o.T {
					r := &o.Rows[g.N(len(o.Rows))]
					n := 0
					for _, x := range o.Rows {
						if x.ID == r.ID {
							n++
						}
					}
					if n == 1 { // an upsert or update stores the last version only
						r.X = Unstorable
					}
				}
			}
		}
		if o.T < g.ntab && g.p.Cfg.Tables[o.T].Ser == "lean" {
			for i := range o.Rows {
				if o.Rows[i].ID == 0 && g.P(0.6) {
					o.Rows[i] = Blank()
				}
			}
		}
		if o.K == "ups" {
			o.UK = g.N(4)
		}
		if g.P(0.4) {
			o.B = pickB()
		}
		if o.B == 0 && g.P(0.1) {
			o.Mode |= 64
		}
		o.Ctx = g.ctx()
	case "bnew":
		o.B = 1 + g.N(3)
		o.RW = g.P(k.BatchRW)
		if g.P(0.1) {
			o.Mode = 1
		}
		if g.P(0.3) {
			o.Mode |= 2
		}
		o.N = g.N(9)
		open[o.B] = true
	case "bcommit":
		o.B = pickB()
		o.Sync = g.P(0.5)
		if g.P(0.3) {
			o.Mode = 2
		}
	case "bclose":
		o.B = pickB()
		delete(open, o.B)
	case "breset":
		o.B = pickB()
		o.N = g.N(9)
	case "onclose":
		o.N = g.N(4)
	case "bhook":
		o.B = pickB()
		o.N = g.N(2)
	case "bapply":
		o.B, o.N = pickB(), pickB()
	case "getp", "exist":
		o.Rows = []Row{{ID: g.id(g.Pick(task, -1))}}
		if g.P(0.3) {
			o.B = pickB()
		}
		if o.B == 0 && g.P(0.1) {
			o.Mode |= 64
		}
		if o.K == "getp" {
			o.Ctx = g.ctx()
		}
	case "get":
		o.Sel = g.sel(o.T, 0, false)
		for kv && o.Sel.Type != "points" {
			o.Sel = g.sel(o.T, 0, false)
		}
		if g.P(0.3) {
			o.B = pickB()
		}
		o.Ctx = g.ctx()
	case "scan", "scani":
		o.Mode = g.Pick(0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10)
		o.N = 1 + g.N(6)
		o.Rev = g.P(0.4)
		if o.K == "scani" {
			o.Idx = g.idx(o.T)
			o.Sel = g.sel(o.T, o.Idx, false)
		}
		if g.P(0.3) {
			o.B = pickB()
		}
		if o.B == 0 && g.P(0.1) {
			o.Mode |= 64
		}
		o.Ctx = g.ctx()
	case "query", "page":
		o.Q = g.query(o.T)
		if o.K == "page" {
			o.Q.After, o.Q.Offset, o.Q.Limit = nil, 0, 0
			o.N = 1 + g.N(4)
			o.Mode = g.N(3)
			if g.P(0.5) {
				// a plain index walk, restartable by key
				o.Q.Inter, o.Q.Order = nil, ""
			}
			o.Q.Sel = g.sel(o.T, o.Q.Idx, true)
		}
		if g.P(0.3) {
			o.B = pickB()
		}
		if o.K == "query" {
			o.Ctx = g.ctx()
		}
	case "refuse":
		o.Idx = g.idx(o.T)
		o.Sel = g.sel(o.T, o.Idx, true)
		o.N = g.N(16)
		if g.P(0.3) {
			o.B = pickB()
		}
	case "sleep":
		o.N = g.Pick(1, 20, 500, 5000)
	case "arm":
		o.Fault = g.fault()
	case "dump":
		g.ndump++
		o.Name = fmt.Sprintf("/sim/dump%d", g.ndump)
		o.Full = g.P(0.6)
		o.Tabs = g.tabs()
		o.N = g.N(2)
		g.dumps[task] = append(g.dumps[task], o.Name)
	case "restore":
		l := g.dumps[task]
		if len(l) == 0 {
			o.K = "dump"
			g.ndump++
			o.Name = fmt.Sprintf("/sim/dump%d", g.ndump)
			o.Full = g.P(0.6)
			o.Tabs = g.tabs()
			o.N = g.N(2)
			g.dumps[task] = append(g.dumps[task], o.Name)
			break
		}
		o.Name = l[g.N(len(l))]
		o.Full = g.P(0.6)
		o.Tabs = g.tabs()
		o.Mode = g.N(4)
		o.N = g.N(4)
	case "addidx":
		o.Idx = 1 + g.N(NumIndexes)
	case "reindex":
		o.N = g.N(4)
	case "sync":
		o.Mode = g.Pick(0, 0, 0, 0, 1, 1, 2, 3)
		for n := g.N(4); n >= 0; n-- {
			kk := *k
			kk.W = subOps
			g.k = &kk
			x := g.op(task, map[int]bool{})
			g.k = k
			x.B = 9
			o.Sub = append(o.Sub, x)
		}
	case "next":
		o.N = g.Pick(1, 1, 1, 2, 5)
	case "uuid":
		o.N = g.Pick(1, 1, 2, 4, 20)
	case "norand":
		o.N = g.Pick(1, 1, 2, 6)
	case "clock":
		o.N = g.Pick(-86400_000, -1000, -1000, -2000, -400, 400, 1000, 1000, 2000, 86400_000*400)
	case "inspect":
		o.N = g.N(12)
		g.net(&o, false)
		if g.P(0.25) {
			o.Mode |= 4 // by the command line tool
		}
	case "iquery":
		o.N = g.N(8)
		g.net(&o, true)
		cli := g.P(0.25)
		qa := *k
		qa.QueryAfter = true
		g.k = &qa
		o.Q = g.query(o.T)
		if o.Q.Idx != 0 {
			s := g.sel(o.T, o.Q.Idx, false)
			for s.Type != "point" && s.Type != "points" || len(s.Rows) == 0 {
				s = g.sel(o.T, o.Q.Idx, false)
			}
			o.Q.Sel = s
		}
		if o.Q.Filter != nil {
			o.Q.Filter = g.cond(g.N(2))
		}
		g.k = k
		o.Ctx = g.ctx()
		if cli {
			o.Mode |= 4 // by the command line tool
			o.Ctx = 0
		}
	}
	if kv {
		o.Ctx = 0
	}
	return o
}

// net: locally, or remotely with or without a network fault.
func (g *gen) net(o *Op, ctx bool) {
	o.Mode = g.Pick(0, 1, 1)
	if o.Mode == 0 || !g.P(g.k.NetP) {
		return
	}
	l := []string{"refuse", "delay", "split", "cutc", "cuts", "cuts"}
	if ctx {
		l = append(l, "hang", "hole", "hole") // ends with the context only
	}
	o.Name = l[g.N(len(l))]
	if o.Name == "hole" || o.Name[:3] == "cut" {
		o.Name = fmt.Sprintf("%s:%d", o.Name, g.N(g.Pick(1, 50, 250, 1500)))
	}
}

// subOps are the operations with a shared batch.
var subOps = map[string]int{"ins": 3, "upd": 2, "ups": 6, "del": 3, "uins": 1, "getp": 2, "exist": 1, "scan": 1, "scani": 2, "query": 2, "sleep": 1}

// tabs picks tables, most often all.
func (g *gen) tabs() []int {
	var l []int
	all := g.P(0.5)
	off := g.N(8)
	n := g.ntab
	for i := 0; i < n; i++ {
		if all || g.P(0.6) {
			l = append(l, (i+off)%n)
		}
	}
	if len(l) == 0 {
		l = append(l, off%n)
	}
	return l
}

// lastSave makes a phase leave a saved copy of the filters that the next one
// trusts: the saves come last, or a few operations before the end. Now and
// then the phase is short, so that little stands between loading a copy and
// the end of the process.
func (g *gen) lastSave(ph *Phase) {
	if g.k.W["fsave"] == 0 || !g.k.FilterFS || len(ph.Tasks) == 0 {
		return
	}
	if g.P(0.3) {
		for i, ops := range ph.Tasks {
			if n := 1 + g.N(5); len(ops) > n {
				ph.Tasks[i] = ops[:n]
			}
		}
	}
	if !g.P(0.5) {
		return
	}
	i := g.N(len(ph.Tasks))
	ops := ph.Tasks[i]
	for t := range g.p.Cfg.Tables {
		if g.p.Cfg.Tables[t].Filter == nil {
			continue
		}
		at := len(ops)
		if g.P(0.3) {
			at -= g.N(4)
			if at < 0 {
				at = 0
			}
		}
		ops = append(ops[:at:at], append([]Op{{K: "fsave", T: t}}, ops[at:]...)...)
	}
	ph.Tasks[i] = ops
}

func (g *gen) phase(last bool) Phase {
	k := g.k
	g.dumps = map[int][]string{}
	ph := Phase{End: "close"}
	nt := g.in(k.Tasks)
	g.ntask = nt
	if k.Shared {
		g.ntask = 1 // all rows belong to all tasks
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		open := map[int]bool{}
		n := g.in(k.Ops)
		for i := 0; i < n; i++ {
			o := g.op(t, open)
			if k.W["arm"] > 0 && o.Fault == nil {
				g.opFault(&o)
			}
			ops = append(ops, o)
		}
		ph.Tasks = append(ph.Tasks, ops)
	}
	g.lastSave(&ph)
	switch {
	case g.P(k.CrashP):
		ph.Crash = &Crash{At: 1 + g.U64()%uint64(g.Pick(20, 60, 150, 400)), Mode: []string{"none", "prefix", "prefix", "all"}[g.N(4)], Seed: g.U64()}
	case g.P(k.EndCrashP):
		ph.End = "crash"
		ph.Crash = &Crash{Mode: []string{"none", "prefix", "all"}[g.N(3)], Seed: g.U64()}
	}
	if ph.Crash == nil && k.FaultCrash > 0 {
		ph.Crash = &Crash{Mode: []string{"none", "prefix", "all"}[g.N(3)], Seed: g.U64()}
		ph.Crash.At = 0
	}
	if g.P(k.WallP) {
		ph.WallJump = int64(g.Pick(-86400, -5, 5, 86400*365))
	}
	for _, t := range g.p.Cfg.Tables {
		if t.Filter != nil && nt > 0 {
			ph.LateInit = g.P(0.4)
			break
		}
	}
	if ph.LateInit {
		// Ends the initialization of the filter: what happens otherwise is the
		// known finding filter-late.
		ph.Crash, ph.End = nil, "close"
		for i, ops := range ph.Tasks {
			l := ops[:0]
			for _, o := range ops {
				if o.K != "arm" {
					o.Fault = nil
					l = append(l, o)
				}
			}
			ph.Tasks[i] = l
		}
	}
	if g.P(k.FormatP) {
		f := 1
		if g.P(0.2) {
			f = 0 // refused when the database is in the other
		}
		ph.Format = &f
	}
	if g.P(k.OpenFaultP) {
		for i := 1 + g.N(2); i > 0; i-- {
			f := g.fault()
			f.Skip = g.N(g.Pick(1, 5, 20, 60))
			if g.P(0.3) {
				f.Kind = []string{"read", "open", "create", "rename", "write", "sync", "list", "stat", "mkdir"}[g.N(9)]
				f.Class = "any"
			}
			ph.OpenFaults = append(ph.OpenFaults, f)
		}
	}
	if g.P(k.AddIdxP) {
		for t := 0; t < g.ntab; t++ {
			var l []int
			for i := 0; i < g.N(3); i++ {
				ix := 1 + g.N(NumIndexes)
				dup := false
				for _, h := range append(append([]int(nil), g.avail[t]...), l...) {
					dup = dup || h == ix
				}
				if !dup {
					l = append(l, ix)
				}
			}
			ph.AddIdx = append(ph.AddIdx, l)
			g.avail[t] = append(g.avail[t], l...)
		}
	}
	return ph
}

// Make builds the program of one seed.
func Make(propID string, k *Knobs, seed uint64) *Program {
	g := &gen{RNG: &RNG{Mix(seed, hash(propID))}, k: k, p: &Program{Prop: propID, Seed: seed}}
	g.p.Leaks = k.Leaks
	g.sched(g.P(k.SchedNoise))
	g.cfg()
	g.p.Cfg.Shared = k.Shared
	// swarm: leave some operations out of this program
	w := map[string]int{}
	for _, n := range kinds {
		x := k.W[n]
		if x > 0 && g.P(0.2) {
			x = 0
		}
		w[n] = x
	}
	t := 0
	for _, x := range w {
		t += x
	}
	if t > 0 && w["ins"]+w["ups"]+w["uins"] > 0 {
		kk := *k
		kk.W = w
		g.k = &kk
	}
	n := g.in(k.Phases)
	for i := 0; i < n; i++ {
		g.ph = i
		g.p.Phases = append(g.p.Phases, g.phase(i == n-1))
	}
	if g.P(k.NoWALP) {
		g.noWAL()
	}
	return g.p
}

// noWAL turns the program into one of a database without a write-ahead log,
// which refuses every synchronous commit and takes the others. No other faults
// happen in it.
func (g *gen) noWAL() {
	c := &g.p.Cfg
	kv := -1
	if n := len(c.Tables) - 1; c.Tables[n].KV {
		kv = n
		c.Tables = c.Tables[:n]
	}
	for i := range c.Tables {
		c.Tables[i].Filter = nil // its state is written synchronously
	}
	ph := &g.p.Phases[0]
	ph.LateInit = false
	ph.NoWAL = true
	ph.Crash, ph.End, ph.OpenFaults = nil, "close", nil
	for i, ops := range ph.Tasks {
		var l []Op
		for _, o := range ops {
			o.Fault = nil
			if o.K == "arm" || o.K == "disarm" || kv >= 0 && o.T == kv {
				continue
			}
			write := o.K == "ins" || o.K == "upd" || o.K == "ups" || o.K == "del" || o.K == "uins" || o.K == "uupd"
			if write && o.B == 0 && g.P(0.7) {
				o.B = 1 + g.N(2)
			}
			if o.K == "bcommit" {
				o.Sync = g.P(0.4)
			}
			l = append(l, o)
			if o.K == "breset" && g.P(0.5) {
				l = append(l, Op{K: "ins", B: o.B, T: g.N(g.ntab), Rows: []Row{g.row(g.id(i))}}, Op{K: "bcommit", B: o.B, Sync: g.P(0.7)})
			}
		}
		ph.Tasks[i] = l
	}
	// the process before made the database
	first := Phase{End: "close"}
	for i := range ph.Tasks {
		var l []Op
		for t := 0; t < g.ntab; t++ {
			if g.P(0.7) {
				l = append(l, Op{K: "ups", T: t, Rows: []Row{g.row(g.id(i)), g.row(g.id(i))}})
			}
		}
		first.Tasks = append(first.Tasks, l)
	}
	g.p.Phases = []Phase{first, *ph}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
