package prog

// KnownProgram completes the deterministic program of a known finding.
func KnownProgram(p *Program) {
	key := p.Scen
	p.Scen = ""
	row := func(id, v uint64) []Row { return []Row{{ID: id, A: 1, S: "a", P: []byte{1, 2, 3}, V: v}} }
	p.Sched = Sched{Seed: 1, Rand: 1, Tick: 1000}
	p.Cfg = Cfg{MemTable: 64 << 10, Block: 256, TargetFile: 2 << 10, Cache: 8 << 10, L0: 2, Keys: 8,
		Tables: []Table{{ID: 1, Idx: []int{1}}}}
	switch key {
	case "filter-invalidate":
		p.Cfg.Tables[0].Filter = &Filter{N: 1000, FP: 0.0001, Buckets: 1, Store: "fs"}
		p.Phases = []Phase{{End: "close", Tasks: [][]Op{{
			{K: "ins", Rows: row(1, 1)},
			{K: "fsave"},
			{K: "arm", Fault: &Fault{Kind: "remove", Class: "filter", Errno: "EIO", Count: 1000}},
			{K: "ins", Rows: row(2, 2)},
		}}}}
		p.Expect = "verify"
	case "filter-late":
		p.Cfg.Tables[0].Filter = &Filter{N: 1000, FP: 0.0001, Buckets: 1, Store: "db"}
		p.Phases = []Phase{
			{End: "close", Tasks: [][]Op{{{K: "ins", Rows: row(1, 1)}, {K: "fsave"}}}},
			{End: "close", NoInit: true, Tasks: [][]Op{{{K: "ins", Rows: row(2, 2)}}}},
		}
		p.Expect = "verify"
	}
}
