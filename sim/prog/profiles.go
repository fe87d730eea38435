package prog

// Profile is how one property is searched.
type Profile struct {
	Knobs Knobs
	Scens []Scen  // scenario programs, mixed in
	ScenP float64 // share of the seeds that run a scenario
	Rule  string
}

type Scen struct {
	Name string
	W    int
	Make func(g *RNG, p *Program)
}

func w(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func merge(ms ...map[string]int) map[string]int {
	o := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			o[k] += v
		}
	}
	return o
}

var (
	writes  = w("ins", 8, "upd", 5, "ups", 8, "del", 5, "uins", 2, "uupd", 2)
	batches = w("bnew", 4, "bcommit", 5, "bclose", 1, "breset", 1, "bapply", 1)
	reads   = w("get", 2, "getp", 2, "exist", 1, "scan", 2, "scani", 4, "query", 4)
	shape   = w("flush", 3, "compact", 1, "sleep", 1)
	chk     = w("chk", 1)
	faults  = w("arm", 2, "disarm", 2)
)

// Profiles of all properties.
var Profiles = map[string]*Profile{
	"C01": {Knobs: Knobs{KVP: 0.25, Tasks: [2]int{1, 3}, Phases: [2]int{1, 3}, Ops: [2]int{4, 25}, Tables: [2]int{1, 2}, Keys: [2]int{6, 40}, MultiRow: 8,
		W: merge(writes, batches, shape, w("getp", 1)), CrashP: 0.75, EndCrashP: 0.7, SchedNoise: 0.6, BatchRW: 0.5, FormatP: 0.1, OpenFaultP: 0.15, FaultKinds: []string{"read", "open", "write", "sync", "create"}}},
	"C02": {Knobs: Knobs{FilterP: 0.1, KVP: 0.25, Tasks: [2]int{1, 2}, Phases: [2]int{1, 2}, Ops: [2]int{4, 20}, Tables: [2]int{1, 3}, Keys: [2]int{6, 30}, MultiRow: 20,
		W: merge(writes, batches, shape, faults, w("scani", 1)), CrashP: 0.4, EndCrashP: 0.4, FaultKinds: []string{"write", "write", "sync", "any-write", "create", "read"}, FaultCrash: 0.3,
		CtxP: 0.1, SchedNoise: 0.5, BatchRW: 0.5, OpenFaultP: 0.2}},
	"C03": {Knobs: Knobs{FilterP: 0.1, Tasks: [2]int{1, 1}, Phases: [2]int{1, 2}, Ops: [2]int{8, 40}, Tables: [2]int{1, 2}, Keys: [2]int{4, 16}, MultiRow: 12,
		W: merge(writes, batches, shape, w("chk", 6)), CrashP: 0.1, EndCrashP: 0.2, BatchRW: 0.7, IdxN: [2]int{2, 6}, CtxP: 0.05}},
	"C04": {Knobs: Knobs{FilterP: 0.1, KVP: 0.25, Tasks: [2]int{1, 1}, Phases: [2]int{1, 2}, Ops: [2]int{20, 60}, Tables: [2]int{1, 2}, Keys: [2]int{6, 40}, MultiRow: 16,
		W: merge(writes, shape, reads, reads, w("bnew", 1, "bcommit", 2, "chk", 1, "refuse", 1)), EndCrashP: 0.2, BatchRW: 0.8}},
	"C05": {Knobs: Knobs{FilterP: 0.1, KVP: 0.25, Tasks: [2]int{1, 1}, Phases: [2]int{1, 1}, Ops: [2]int{20, 60}, Tables: [2]int{1, 2}, Keys: [2]int{6, 40}, MultiRow: 16,
		W: merge(writes, shape, reads, reads, w("arm", 10, "disarm", 3)), FaultKinds: []string{"read", "read", "read", "open"}, EndCrashP: 0.2, BatchRW: 0.8}},
	"C06": {Knobs: Knobs{FilterP: 0.1, KVP: 0.25, Tasks: [2]int{2, 4}, Phases: [2]int{1, 1}, Ops: [2]int{6, 25}, Tables: [2]int{1, 2}, Keys: [2]int{8, 24}, MultiRow: 6,
		W: merge(writes, shape, reads, reads, w("bnew", 1, "bcommit", 2)), SchedNoise: 1, BatchRW: 0.5}},
	"C07": {Knobs: Knobs{NoWALP: 0.08, FilterP: 0.1, KVP: 0.25, Tasks: [2]int{1, 3}, Phases: [2]int{1, 1}, Ops: [2]int{12, 40}, Tables: [2]int{1, 2}, Keys: [2]int{6, 24}, MultiRow: 6,
		W: merge(writes, reads, w("bnew", 8, "bcommit", 8, "bclose", 5, "breset", 4, "bapply", 4, "flush", 1)), SchedNoise: 0.6, BatchRW: 0.8, EndCrashP: 0.2}},
	"C08": {Knobs: Knobs{NoWALP: 0.2, KVP: 0.25, Tasks: [2]int{1, 3}, Phases: [2]int{1, 1}, Ops: [2]int{12, 40}, Tables: [2]int{1, 2}, Keys: [2]int{6, 24}, MultiRow: 6,
		W:          merge(writes, w("bnew", 10, "bcommit", 10, "bclose", 5, "breset", 4, "bapply", 5, "bhook", 3, "onclose", 3, "flush", 1, "arm", 1, "disarm", 1)),
		FaultKinds: []string{"write", "sync", "any-write"}, SchedNoise: 0.6, BatchRW: 0.6}},
	"C09": {Knobs: Knobs{Tasks: [2]int{1, 2}, Phases: [2]int{1, 4}, Ops: [2]int{4, 25}, Tables: [2]int{1, 2}, Keys: [2]int{6, 60}, MultiRow: 10,
		W:      merge(writes, w("ins", 8, "ups", 4, "getp", 5, "exist", 4, "get", 3, "bnew", 3, "bcommit", 4, "bclose", 1, "breset", 1, "bapply", 1, "flush", 1, "fsave", 4, "scan", 1, "scani", 1, "query", 3, "arm", 2, "disarm", 2)),
		CrashP: 0.4, EndCrashP: 0.3, FaultKinds: []string{"write", "sync", "create", "rename", "read"}, FaultCrash: 0.3, CtxP: 0.05, SchedNoise: 0.4, BatchRW: 0.5,
		FilterP: 0.9, FilterFS: true, OpenFaultP: 0.15}},
	"C10": {Knobs: Knobs{KVP: 0.25, Tasks: [2]int{1, 3}, Phases: [2]int{1, 3}, Ops: [2]int{4, 18}, Tables: [2]int{1, 3}, Keys: [2]int{6, 50}, MultiRow: 20,
		W: merge(writes, w("bnew", 1, "bcommit", 2, "flush", 2, "compact", 1, "dump", 6, "restore", 10, "arm", 2, "disarm", 2)), FaultKinds: []string{"read", "open", "write", "sync", "create", "any-write", "list", "link", "mkdir", "rename"}, FaultCrash: 0.2,
		CrashP: 0.35, EndCrashP: 0.2, SchedNoise: 0.6, BatchRW: 0.6, FormatP: 0.1}},
	"C11": {Knobs: Knobs{KVP: 0.25, Tasks: [2]int{1, 4}, Phases: [2]int{1, 2}, Ops: [2]int{5, 25}, Tables: [2]int{1, 2}, Keys: [2]int{6, 24}, MultiRow: 10,
		W: merge(writes, batches, shape, reads, w("arm", 3, "disarm", 3, "onclose", 1, "reindex", 1, "addidx", 1, "dump", 1, "restore", 1, "fsave", 1)), FaultKinds: []string{"read", "open", "read", "open", "create", "write"},
		CtxP: 0.25, SchedNoise: 0.8, BatchRW: 0.6, FilterP: 0.1, Leaks: true}},
	"C12": {Knobs: Knobs{FilterP: 0.1, Tasks: [2]int{1, 2}, Phases: [2]int{1, 1}, Ops: [2]int{10, 40}, Tables: [2]int{1, 2}, Keys: [2]int{6, 40}, MultiRow: 24,
		W:    merge(writes, batches, reads, w("flush", 1, "chk", 2, "reindex", 1, "addidx", 1, "dump", 1, "restore", 1)),
		CtxP: 0.8, SchedNoise: 0.5, BatchRW: 0.6, Leaks: true}},
	"C13": {Knobs: Knobs{Tasks: [2]int{1, 6}, Phases: [2]int{1, 1}, Ops: [2]int{3, 30}, Tables: [2]int{1, 1}, Keys: [2]int{1, 1}, MultiRow: 1,
		W: w("next", 8, "clock", 3, "sleep", 1, "uuid", 3, "norand", 1), SchedNoise: 0.9},
		ScenP: 1, Scens: []Scen{{Name: "sequence", W: 1, Make: func(g *RNG, p *Program) {
			for _, ph := range p.Phases {
				for _, ops := range ph.Tasks {
					for i := range ops {
						if ops[i].K == "sleep" {
							ops[i].N = g.Pick(1, 300, 1000)
						}
					}
				}
			}
			if g.P(0.005) {
				// more numbers than a second has; the clock stands still
				n := Op{K: "next", N: 1<<24 + g.Pick(50, -10, -3)}
				ts := [][]Op{{{K: "next", N: 1}, n, {K: "next", N: 2}, {K: "next", N: 2}, {K: "clock", N: g.Pick(-1000, 1000)}, {K: "next", N: 5}}}
				for i := g.N(4); i > 0; i-- {
					ts = append(ts, []Op{{K: "sleep", N: 100}, {K: "next", N: 2}, {K: "next", N: 2}, {K: "clock", N: g.Pick(-1000, 1000)}, {K: "next", N: 2}})
				}
				p.Phases = []Phase{{End: "close", Tasks: ts}}
				p.Sched.Tick = 0
			}
		}}}},
	"C14": {Knobs: Knobs{FilterP: 0.1, Tasks: [2]int{1, 1}, Phases: [2]int{2, 4}, Ops: [2]int{4, 20}, Tables: [2]int{1, 2}, Keys: [2]int{6, 40}, MultiRow: 16,
		W:      merge(writes, shape, w("reindex", 6, "addidx", 6, "chk", 2, "arm", 2, "disarm", 2, "scani", 2)),
		CrashP: 0.5, EndCrashP: 0.2, FaultKinds: []string{"read", "write", "sync", "create", "any-write"}, FaultCrash: 0.3, CtxP: 0.05, AddIdxP: 0.6, SchedNoise: 0.3, IdxN: [2]int{0, 3}}},
	"C15": {Knobs: Knobs{KVP: 0.25, Tasks: [2]int{1, 1}, Phases: [2]int{1, 5}, Ops: [2]int{0, 8}, Tables: [2]int{1, 1}, Keys: [2]int{6, 20}, MultiRow: 6,
		W: merge(writes, shape, w("getp", 1)), CrashP: 0.7, EndCrashP: 0.3, FormatP: 0.5, SchedNoise: 0.2, OpenFaultP: 0.4, FaultKinds: []string{"read", "open", "write", "sync", "create", "any-write", "rename"}, FaultCrash: 0.1}},
	"C16": {Knobs: Knobs{Tasks: [2]int{1, 3}, Phases: [2]int{1, 2}, Ops: [2]int{6, 30}, Tables: [2]int{1, 3}, Keys: [2]int{6, 30}, MultiRow: 12,
		W: merge(writes, w("inspect", 8, "iquery", 20, "flush", 1, "arm", 1, "disarm", 2)), FaultKinds: []string{"read"}, CtxP: 0.1, NetP: 0.4, AddIdxP: 0.2, SchedNoise: 0.7, FilterP: 0.1}},
	"C17": {Knobs: Knobs{KVP: 0.25, Tasks: [2]int{2, 6}, Phases: [2]int{1, 1}, Ops: [2]int{2, 10}, Tables: [2]int{1, 2}, Keys: [2]int{6, 30}, MultiRow: 12,
		W: w("sync", 10, "sleep", 1), SchedNoise: 1, Shared: true, EndCrashP: 0.2}},
	"C18": {Knobs: Knobs{Tasks: [2]int{1, 1}, Phases: [2]int{1, 2}, Ops: [2]int{20, 50}, Tables: [2]int{1, 2}, Keys: [2]int{6, 60}, MultiRow: 20,
		W: merge(writes, w("page", 25, "query", 6, "refuse", 1, "flush", 2, "compact", 1, "bnew", 2, "bcommit", 2, "bclose", 1)), BatchRW: 0.9, QueryAfter: true, EndCrashP: 0.1}},
	"C19": {Knobs: Knobs{Tasks: [2]int{1, 1}, Phases: [2]int{1, 1}, Ops: [2]int{15, 50}, Tables: [2]int{1, 2}, Keys: [2]int{4, 60}, MultiRow: 45,
		W: merge(writes, writes, batches, w("flush", 2, "chk", 8)), BatchRW: 0.7, FilterP: 0.15}},
}
