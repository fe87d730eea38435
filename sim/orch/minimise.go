package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"bondsim/prog"
)

func clone(p *prog.Program) *prog.Program {
	b, _ := json.Marshal(p)
	q := &prog.Program{}
	_ = json.Unmarshal(b, q)
	return q
}

type cand struct {
	p    *prog.Program
	devs []byte
	rep  bool
}

// firstFailing runs candidates in parallel and returns the first (in order)
// that fails with the class.
func firstFailing(cs []cand, class string) int {
	ok := make([]bool, len(cs))
	var wg sync.WaitGroup
	sem := make(chan bool, *workers)
	for i := range cs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			var fl uint32
			if cs[i].rep {
				fl = flagReplay
			}
			o := run(cs[i].p, fl, cs[i].devs)
			ok[i] = o.bad == "" && o.res.Fail == class
			<-sem
		}(i)
	}
	wg.Wait()
	for i := range ok {
		if ok[i] {
			return i
		}
	}
	return -1
}

type pos struct{ ph, t, i int }

func positions(p *prog.Program) []pos {
	var l []pos
	for a := range p.Phases {
		for b := range p.Phases[a].Tasks {
			for c := range p.Phases[a].Tasks[b] {
				l = append(l, pos{a, b, c})
			}
		}
	}
	return l
}

func dropOps(p *prog.Program, drop map[pos]bool) *prog.Program {
	q := clone(p)
	for a := range q.Phases {
		for b := range q.Phases[a].Tasks {
			var ops []prog.Op
			for c, o := range q.Phases[a].Tasks[b] {
				if !drop[pos{a, b, c}] {
					ops = append(ops, o)
				}
			}
			q.Phases[a].Tasks[b] = ops
		}
	}
	return q
}

// minimise shrinks a failing program and its schedule.
func minimise(p *prog.Program, class string, until time.Time) *prog.Program {
	cur := p
	try := func(mk ...func(q *prog.Program) bool) bool {
		var cs []cand
		for _, m := range mk {
			q := clone(cur)
			if m(q) {
				cs = append(cs, cand{p: q})
			}
		}
		if len(cs) == 0 || time.Now().After(until) {
			return false
		}
		if i := firstFailing(cs, class); i >= 0 {
			cur = cs[i].p
			return true
		}
		return false
	}
	// schedule noise and delays first: everything after is easier without
	try(func(q *prog.Program) bool {
		q.Sched.Yield, q.Sched.Pick, q.Sched.Stall = [4]float64{}, 0, 0
		q.Cfg.DelayP = 0
		return true
	}, func(q *prog.Program) bool { q.Cfg.DelayP = 0; return q.Cfg.DelayP != cur.Cfg.DelayP },
		func(q *prog.Program) bool { q.Sched.Stall = 0; return cur.Sched.Stall != 0 })
	for round := 0; round < 6 && time.Now().Before(until); round++ {
		changed := false
		// whole phases
		for i := len(cur.Phases) - 1; i >= 0 && len(cur.Phases) > 1; i-- {
			i := i
			if i < len(cur.Phases) && try(func(q *prog.Program) bool {
				q.Phases = append(q.Phases[:i:i], q.Phases[i+1:]...)
				return true
			}) {
				changed = true
			}
		}
		// operations, in chunks
		ps := positions(cur)
		for n := (len(ps) + 1) / 2; n >= 1 && time.Now().Before(until); {
			ps = positions(cur)
			var cs []cand
			for i := 0; i < len(ps); i += n {
				d := map[pos]bool{}
				for j := i; j < i+n && j < len(ps); j++ {
					d[ps[j]] = true
				}
				cs = append(cs, cand{p: dropOps(cur, d)})
			}
			if i := firstFailing(cs, class); len(cs) > 0 && i >= 0 {
				cur = cs[i].p
				changed = true
				if n > len(positions(cur)) {
					n = (len(positions(cur)) + 1) / 2
				}
				if len(positions(cur)) == 0 {
					break
				}
				continue
			}
			if n == 1 {
				break
			}
			n = (n + 1) / 2
		}
		// rows of operations
		for _, x := range positions(cur) {
			x := x
			for time.Now().Before(until) {
				o := &cur.Phases[x.ph].Tasks[x.t][x.i]
				var mk []func(q *prog.Program) bool
				if len(o.Rows) > 1 {
					for r := range o.Rows {
						r := r
						mk = append(mk, func(q *prog.Program) bool {
							y := &q.Phases[x.ph].Tasks[x.t][x.i]
							y.Rows = append(y.Rows[:r:r], y.Rows[r+1:]...)
							return true
						})
					}
				}
				if o.Fault != nil && o.K != "arm" {
					mk = append(mk, func(q *prog.Program) bool {
						q.Phases[x.ph].Tasks[x.t][x.i].Fault = nil
						return true
					})
				}
				if o.Q != nil {
					mk = append(mk, func(q *prog.Program) bool {
						y := q.Phases[x.ph].Tasks[x.t][x.i].Q
						y.Filter = nil
						return o.Q.Filter != nil
					}, func(q *prog.Program) bool {
						y := q.Phases[x.ph].Tasks[x.t][x.i].Q
						y.Inter = nil
						return o.Q.Inter != nil
					})
				}
				if len(mk) == 0 || !try(mk...) {
					break
				}
				changed = true
			}
		}
		// tables' indexes
		for t := range cur.Cfg.Tables {
			for j := len(cur.Cfg.Tables[t].Idx) - 1; j >= 0; j-- {
				t, j := t, j
				if try(func(q *prog.Program) bool {
					l := q.Cfg.Tables[t].Idx
					q.Cfg.Tables[t].Idx = append(l[:j:j], l[j+1:]...)
					return true
				}) {
					changed = true
				}
			}
		}
		// no crash
		for i := range cur.Phases {
			i := i
			try(func(q *prog.Program) bool {
				q.Phases[i].Crash = nil
				q.Phases[i].End = "close"
				return cur.Phases[i].Crash != nil
			}, func(q *prog.Program) bool {
				if cur.Phases[i].Crash == nil || cur.Phases[i].Crash.Mode == "none" {
					return false
				}
				q.Phases[i].Crash.Mode = "none"
				return true
			}, func(q *prog.Program) bool {
				q.Phases[i].OpenFaults = nil
				return cur.Phases[i].OpenFaults != nil
			})
		}
		if !changed {
			break
		}
	}
	return cur
}

// minimiseSchedule removes deviations from the default schedule.
func minimiseSchedule(p *prog.Program, class string, devs [][2]uint64, until time.Time) [][2]uint64 {
	if firstFailing([]cand{{p, nil, true}}, class) == 0 {
		return nil
	}
	for n := (len(devs) + 1) / 2; n >= 1 && len(devs) > 0 && time.Now().Before(until); {
		var cs []cand
		var ds [][][2]uint64
		for i := 0; i < len(devs); i += n {
			e := i + n
			if e > len(devs) {
				e = len(devs)
			}
			d := append(append([][2]uint64{}, devs[:i]...), devs[e:]...)
			ds = append(ds, d)
			cs = append(cs, cand{p, bytesOf(d), true})
			if len(cs) >= 64 {
				break
			}
		}
		if i := firstFailing(cs, class); i >= 0 {
			devs = ds[i]
			continue
		}
		if n == 1 || len(devs)/n >= 64 {
			break
		}
		n = (n + 1) / 2
	}
	return devs
}

// report minimises and writes the replay file.
func report(p *prog.Program, o *outcome) string {
	class := o.res.Fail
	q := p
	if !*noMin {
		q = minimise(p, class, time.Now().Add(60*time.Second))
	}
	rec := run(q, flagDevs, nil)
	if rec.bad != "" || rec.res.Fail != class {
		q = p
		rec = run(q, flagDevs, nil)
	}
	devs := devsOf(rec.devs)
	if len(rec.devs) == 0 && rec.res.Steps == 0 {
		// the worker died: the schedule is in the seed only
		devs = nil
	}
	if !*noMin && len(devs) > 0 && !rec.res.Overflow {
		devs = minimiseSchedule(q, class, devs, time.Now().Add(45*time.Second))
	}
	r := replay{Prop: *propID, Fail: class, Prog: *q, Devs: devs}
	fin := run(q, flagReplay|flagTrace, bytesOf(devs))
	if fin.res.Fail != class {
		fmt.Printf("note: the replay of the minimised run ends with %q %s\n", fin.res.Fail, fin.bad)
	}
	again := run(q, flagReplay|flagTrace, bytesOf(devs))
	if again.res.Hash == fin.res.Hash && again.res.Fail == fin.res.Fail && again.res.SchedHash == fin.res.SchedHash {
		fmt.Println("note: the replay file was run twice in fresh processes and repeats exactly")
	} else {
		fmt.Println("note: two replays differ")
	}
	r.Detail, r.Hash, r.Trace = fin.res.Detail, fin.res.Hash, fin.res.Trace
	b, _ := json.MarshalIndent(&r, "", " ")
	_ = os.MkdirAll(*replays, 0o755)
	path := filepath.Join(*replays, fmt.Sprintf("%s-%d-%016x.json", *propID, *seedF, p.Seed))
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("minimised to %d operations in %d processes, %d schedule deviations\n%s\n", len(positions(q)), len(q.Phases), len(devs), first(r.Detail, 3000))
	for i, l := range fin.res.Trace {
		if i > 60 {
			fmt.Println("   ...")
			break
		}
		fmt.Println("  ", first(l, 400))
	}
	return path
}
