// Command orch searches the seeds of one property: it generates programs, runs
// each in its own simulator process, minimises what fails and writes evidence
// and replay files.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"bondsim/prog"
)

var (
	bin      = flag.String("bin", "", "simulator binary")
	propID   = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "")
	seedF    = flag.Uint64("seed", 1, "")
	budget   = flag.Duration("budget", 40*time.Second, "search time")
	maxRuns  = flag.Int("runs", 1<<30, "most runs")
	evid     = flag.String("evidence", "", "evidence file")
	known    = flag.String("known", "", "known findings file")
	replays  = flag.String("replays", "", "directory of replay files")
	replayF  = flag.String("replay", "", "replay this file")
	workers  = flag.Int("j", runtime.NumCPU(), "")
	one      = flag.Int64("one", -1, "run one seed index with a trace")
	minOne   = flag.Bool("min", false, "with -one: minimise")
	noMin    = flag.Bool("nomin", false, "do not minimise")
	buildS   = flag.Float64("builds", 0, "seconds the build took")
	keep     = flag.Bool("keep", false, "go on after a violation and list failures by class")
	watchdog = flag.Duration("watchdog", 90*time.Second, "real time one run may take")
	pointsF  = flag.String("points", "", "names of the scheduling points")
	covF     = flag.String("cov", "", "write the scheduling points reached here")
	instr    = flag.String("instrumented", "", "note on instrumentation")
)

const (
	flagTrace  = 1
	flagReplay = 2
	flagDevs   = 4
)

type outcome struct {
	res  prog.Result
	devs []byte // 16 bytes each
	bad  string // no answer: why
}

// pb strips the time stamps the simulated clock puts in front of output.
func pb(b []byte) string {
	var o []byte
	for len(b) > 0 {
		if len(b) >= 16 && b[0] == 0 && b[1] == 0 && b[2] == 'P' && b[3] == 'B' {
			n := int(binary.BigEndian.Uint32(b[12:]))
			b = b[16:]
			if n > len(b) {
				n = len(b)
			}
			o = append(o, b[:n]...)
			b = b[n:]
			continue
		}
		o = append(o, b[0])
		b = b[1:]
	}
	return string(o)
}

func run(p *prog.Program, flags uint32, devs []byte) *outcome {
	o := &outcome{}
	js, err := json.Marshal(p)
	if err != nil {
		o.bad = err.Error()
		return o
	}
	var in bytes.Buffer
	var hdr [16]byte
	binary.LittleEndian.PutUint32(hdr[0:], flags)
	binary.LittleEndian.PutUint32(hdr[4:], uint32(len(js)))
	binary.LittleEndian.PutUint64(hdr[8:], uint64(len(devs)/16))
	in.Write(hdr[:])
	in.Write(js)
	in.Write(devs)
	r, w, err := os.Pipe()
	if err != nil {
		o.bad = err.Error()
		return o
	}
	c := exec.Command(*bin)
	c.Env = []string{"HOME=/nonexistent", "TMPDIR=/tmp", "TZ=UTC"}
	if os.Getenv("SIMSTACK") != "" {
		c.Env = append(c.Env, "SIMSTACK=1")
	}
	if os.Getenv("SIMFS") != "" {
		c.Env = append(c.Env, "SIMFS=1")
	}
	c.Stdin = &in
	var se, so bytes.Buffer
	c.Stderr, c.Stdout = &se, &so
	c.ExtraFiles = []*os.File{w}
	if err := c.Start(); err != nil {
		o.bad = err.Error()
		return o
	}
	w.Close()
	limitMemory(c.Process.Pid)
	t := time.AfterFunc(*watchdog, func() { c.Process.Kill() })
	data, _ := io.ReadAll(r)
	r.Close()
	werr := c.Wait()
	if ru, ok := c.ProcessState.SysUsage().(*syscall.Rusage); ok {
		for m := maxRSS.Load(); ru.Maxrss > m && !maxRSS.CompareAndSwap(m, ru.Maxrss); m = maxRSS.Load() {
		}
	}
	if !t.Stop() {
		o.bad = "watchdog: no answer in real time"
		return o
	}
	if os.Getenv("SIMSTACK") != "" {
		os.Stderr.WriteString(pb(se.Bytes()))
	}
	if werr == nil && len(data) >= 16 {
		n := int(binary.LittleEndian.Uint32(data))
		nd := int(binary.LittleEndian.Uint64(data[8:]))
		if len(data) == 16+n+16*nd && json.Unmarshal(data[16:16+n], &o.res) == nil {
			o.devs = data[16+n:]
			if o.res.Fail == "harness" {
				o.bad = o.res.Detail
			}
			return o
		}
	}
	msg := pb(se.Bytes())
	var ee *exec.ExitError
	if errors.As(werr, &ee) && ee.ExitCode() == 2 {
		o.res.Seed = p.Seed
		cl, det := classify(p, msg)
		o.res.Fail, o.res.Detail = cl, det
		if cl == "harness" {
			o.bad = det
		}
		return o
	}
	o.bad = fmt.Sprintf("worker: %v: %s%s", werr, pb(so.Bytes()), msg)
	return o
}

// memoryLimit of one run: a run collects no garbage, and the ordinary ones stay
// far below it.
const memoryLimit = 6 << 30

var maxRSS atomic.Int64 // kB

func limitMemory(pid int) {
	lim := [2]uint64{memoryLimit, memoryLimit}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// classify the death of a worker by its last words.
func classify(p *prog.Program, msg string) (string, string) {
	switch {
	case strings.Contains(msg, "sim: step limit reached"):
		return "no-progress", "the run does not end: step limit reached\n" + first(msg, 4000)
	case strings.Contains(msg, "sim: time limit reached"):
		return "no-progress", "the run does not end: simulated time limit reached\n" + first(msg, 4000)
	case strings.Contains(msg, "sim: run queue overflow"):
		return "harness", first(msg, 2000)
	case strings.Contains(msg, "all goroutines are asleep"):
		return "no-progress", "deadlock\n" + first(msg, 4000)
	case strings.Contains(msg, "out of memory") && !armed(p):
		return "no-progress", "the run takes more memory than there is\n" + first(msg, 4000)
	case strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:"):
		if strings.Contains(msg, "out of memory") {
			// the storage engine tries again and again, and memory is not freed here
			return "", ""
		}
		if armed(p) && strings.Contains(msg, "sync: unlock of unlocked mutex") && strings.Contains(msg, "pebble.(*DB).recycleWAL") {
			// the panic on an injected error while the engine had its lock released
			return "", ""
		}
		if armed(p) && (strings.Contains(msg, "input/output error") || strings.Contains(msg, "no space left") || strings.Contains(msg, "too many open files")) {
			// the storage engine's own goroutine gave up on the injected error
			return "", ""
		}
		return "panic", first(msg, 5000)
	}
	return "harness", first(msg, 3000)
}

func armed(p *prog.Program) bool {
	for i := range p.Phases {
		if len(p.Phases[i].OpenFaults) > 0 {
			return true
		}
		for _, t := range p.Phases[i].Tasks {
			for j := range t {
				if t[j].Fault != nil {
					return true
				}
			}
		}
	}
	return p.Scen != ""
}

type finding struct {
	prop, key, text string
}

var reFinding = regexp.MustCompile(`^finding: property=(\S+) scen=(\S+) (.*)$`)

func findings() []finding {
	var out []finding
	b, err := os.ReadFile(*known)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := reFinding.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

// makeProgram builds the n-th program of a search.
func makeProgram(pf *prog.Profile, id string, base uint64, n int64) *prog.Program {
	seed := prog.Mix(base, uint64(n))
	g := &prog.RNG{S: prog.Mix(seed, 77)}
	if len(pf.Scens) > 0 && g.P(pf.ScenP) {
		t := 0
		for _, s := range pf.Scens {
			t += s.W
		}
		x := g.N(t)
		for _, s := range pf.Scens {
			if x < s.W {
				k := pf.Knobs
				p := prog.Make(id, &k, seed)
				p.Scen = s.Name
				s.Make(g, p)
				return p
			}
			x -= s.W
		}
	}
	k := pf.Knobs
	return prog.Make(id, &k, seed)
}

type replay struct {
	Prop   string       `json:"property"`
	Fail   string       `json:"fail"`
	Detail string       `json:"detail"`
	Hash   uint64       `json:"hash"`
	Prog   prog.Program `json:"program"`
	Devs   [][2]uint64  `json:"schedule"` // deviations from the default schedule
	Trace  []string     `json:"trace"`
}

func devsOf(b []byte) [][2]uint64 {
	out := [][2]uint64{}
	for ; len(b) >= 16; b = b[16:] {
		out = append(out, [2]uint64{binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])})
	}
	return out
}

func bytesOf(d [][2]uint64) []byte {
	b := make([]byte, 0, 16*len(d))
	for _, x := range d {
		b = binary.LittleEndian.AppendUint64(b, x[0])
		b = binary.LittleEndian.AppendUint64(b, x[1])
	}
	return b
}

func doReplay() int {
	b, err := os.ReadFile(*replayF)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 3
	}
	o := run(&r.Prog, flagReplay|flagTrace, bytesOf(r.Devs))
	if o.bad != "" {
		fmt.Println("no answer:", o.bad)
		return 3
	}
	for _, l := range o.res.Trace {
		fmt.Println(l)
	}
	if o.res.Fail == "" {
		fmt.Println("the replay passes")
		return 0
	}
	fmt.Printf("%s: %s\n", o.res.Fail, o.res.Detail)
	if o.res.Fail == r.Fail && o.res.Hash == r.Hash && o.res.Detail == r.Detail {
		fmt.Println("replay is exact")
	} else {
		fmt.Printf("replay differs from the recorded run (hash %x/%x)\n", o.res.Hash, r.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, *replayF)
	return 1
}

type agg struct {
	points              []byte
	runs, bad           int
	distinct            map[[2]uint64]bool
	scheds              map[uint64]bool
	nontrivial          map[[2]uint64]bool
	faults              map[string]int
	kinds               map[string]int
	ops, checks         int
	crashes, torn       int
	lostw, lostd        int
	steps, switches     uint64
	decisions, preempts uint64
	stalls, jumps       uint64
	simns               int64
	fscalls             uint64
	badmsg              []string
	engine              int
	samples             []any
	scens               map[string]int
}

func main() {
	flag.Parse()
	if *replayF != "" {
		os.Exit(doReplay())
	}
	pf := prog.Profiles[*propID]
	if pf == nil {
		fmt.Println("no such property", *propID)
		os.Exit(3)
	}
	base := prog.Mix(*seedF, 1000)
	if *one >= 0 {
		p := makeProgram(pf, *propID, base, *one)
		js, _ := json.Marshal(p)
		fmt.Println(string(js))
		o := run(p, flagTrace, nil)
		for _, l := range o.res.Trace {
			fmt.Println(l)
		}
		o.res.Trace = nil
		js, _ = json.Marshal(o.res)
		fmt.Println(string(js), o.bad)
		if *minOne && o.res.Fail != "" && o.bad == "" {
			fmt.Println(report(p, o))
		}
		return
	}
	os.Exit(search(pf, base))
}

func search(pf *prog.Profile, base uint64) int {
	start := time.Now()
	fmt.Printf("seed %d property %s tier %s\n", *seedF, *propID, *tier)
	a := &agg{distinct: map[[2]uint64]bool{}, scheds: map[uint64]bool{}, nontrivial: map[[2]uint64]bool{}, faults: map[string]int{}, kinds: map[string]int{}, scens: map[string]int{}}
	// known findings: each has a program of its own
	nknown := 0
	for _, f := range findings() {
		if f.prop != *propID {
			continue
		}
		p := &prog.Program{Prop: *propID, Scen: f.key, Seed: 1}
		prog.KnownProgram(p)
		o := run(p, 0, nil)
		if o.res.Fail == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.text)
			nknown++
		} else if o.bad != "" || o.res.Fail != "" {
			fmt.Printf("note: scenario %s of a known finding ended with %s %s %s\n", f.key, o.res.Fail, first(o.res.Detail, 300), o.bad)
		} else {
			fmt.Printf("note: the known finding %s does not show any more\n", f.key)
		}
	}
	var mu sync.Mutex
	var failed *outcome
	var failProg *prog.Program
	var failN int64
	next := int64(0)
	stop := false
	classes := map[string][]int64{}
	detailOf := map[string]string{}
	repeatBad := 0
	repeats := 0
	var differ []int64
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || time.Since(start) > *budget || next >= int64(*maxRuns) {
					mu.Unlock()
					return
				}
				n := next
				next++
				mu.Unlock()
				p := makeProgram(pf, *propID, base, n)
				o := run(p, 0, nil)
				if n%50 < 2 && o.bad == "" {
					o2 := run(p, 0, nil)
					mu.Lock()
					repeats++
					if o2.res.Hash != o.res.Hash || o2.res.SchedHash != o.res.SchedHash || o2.res.Steps != o.res.Steps {
						repeatBad++
						differ = append(differ, n)
					}
					mu.Unlock()
				}
				mu.Lock()
				a.add(p, o, n)
				if o.bad == "" && o.res.Fail != "" {
					cl := o.res.Fail
					classes[cl] = append(classes[cl], n)
					if detailOf[cl] == "" {
						detailOf[cl] = o.res.Detail
					}
					if !*keep {
						if failed == nil || n < failN {
							failed, failProg, failN = o, p, n
						}
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(start).Seconds()
	if *keep {
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			fmt.Printf("%-16s %4d runs, e.g. %v\n    %s\n", c, len(classes[c]), classes[c][:min(6, len(classes[c]))], first(detailOf[c], 1200))
		}
	}
	if repeatBad > 0 {
		fmt.Printf("note: %d of %d repeated runs differed: %v\n", repeatBad, repeats, differ)
	}
	for _, m := range a.badmsg {
		fmt.Printf("note: no answer: %s\n", m)
	}
	code := 0
	viol := 0
	if failed != nil {
		viol = 1
		code = 1
		fmt.Printf("seed index %d fails: %s: %s\n", failN, failed.res.Fail, first(failed.res.Detail, 3000))
		path := report(failProg, failed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propID, path)
	}
	a.write(pf, searchS, start, viol, nknown, repeats, repeatBad)
	fmt.Printf("%d runs in %.1fs, %d without an answer, %d distinct schedules, simulated time %v, at most %d MB a run\n", a.runs, searchS, a.bad, len(a.scheds), time.Duration(a.simns).Round(time.Second), maxRSS.Load()>>10)
	if code == 0 && (a.runs == 0 || a.bad*2 > a.runs) {
		fmt.Println("too many runs without an answer")
		return 3
	}
	return code
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (a *agg) add(p *prog.Program, o *outcome, n int64) {
	a.runs++
	if o.bad != "" {
		a.bad++
		if len(a.badmsg) < 5 {
			a.badmsg = append(a.badmsg, fmt.Sprintf("seed index %d: %s", n, first(o.bad, 1500)))
		}
		return
	}
	r := &o.res
	if r.Steps == 0 {
		a.engine++
		return
	}
	if len(a.points) < len(r.Points) {
		a.points = append(a.points, make([]byte, len(r.Points)-len(a.points))...)
	}
	for i, b := range r.Points {
		a.points[i] |= b
	}
	k := [2]uint64{r.Hash, r.SchedHash}
	a.distinct[k] = true
	a.scheds[r.SchedHash] = true
	nf := 0
	for f, c := range r.Faults {
		a.faults[f] += c
		nf += c
	}
	if r.Checks > 0 && (r.Ops > 3 || p.Scen != "") {
		a.nontrivial[k] = true
	}
	for f, c := range r.OpKinds {
		a.kinds[f] += c
	}
	if p.Scen != "" {
		a.scens[p.Scen]++
	}
	a.ops += r.Ops
	a.checks += r.Checks
	a.crashes += r.Crashes
	a.torn += r.Torn
	a.lostw += r.LostW
	a.lostd += r.LostD
	a.steps += r.Steps
	a.switches += r.Switches
	a.decisions += r.Decisions
	a.preempts += r.Preempts
	a.stalls += r.Stalls
	a.jumps += r.Jumps
	a.simns += r.SimNS
	a.fscalls += r.FSCalls
	if len(a.samples) < 2 && r.Fail == "" {
		js, _ := json.Marshal(p)
		a.samples = append(a.samples, map[string]any{"seed_index": n, "program": first(string(js), 1500), "ops": r.Ops, "checks": r.Checks, "crashes": r.Crashes, "faults": r.Faults,
			"steps": r.Steps, "decisions": r.Decisions, "preemptions": r.Preempts, "sim_seconds": float64(r.SimNS) / 1e9, "history_hash": fmt.Sprintf("%016x", r.Hash), "schedule_hash": fmt.Sprintf("%016x", r.SchedHash)})
	}
}

// statements counts the statements of the code under test that were reached.
func (a *agg) statements() (reached, all int) {
	b, err := os.ReadFile(*pointsF)
	if err != nil {
		return 0, 0
	}
	names := strings.Split(string(b), "\n")
	var o bytes.Buffer
	for i, n := range names {
		if strings.HasPrefix(n, "/") || n == "" {
			continue // of a dependency
		}
		all++
		hit := i/8 < len(a.points) && a.points[i/8]>>(i&7)&1 != 0
		if hit {
			reached++
		}
		fmt.Fprintf(&o, "%v %s\n", hit, n)
	}
	if *covF != "" {
		_ = os.WriteFile(*covF, o.Bytes(), 0o644)
	}
	return reached, all
}

func (a *agg) write(pf *prog.Profile, searchS float64, start time.Time, viol, nknown, repeats, repeatBad int) {
	reached, named := a.statements()
	if *evid == "" {
		return
	}
	rule := "One evaluation is one simulated execution of a generated program (configuration, operations, faults, crash points, schedule noise all from one seed) on the real bond and Pebble code. " +
		"It is non-trivial when it ran more than three operations and evaluated at least one oracle check, and distinct when the pair (hash of history and file-system calls, hash of the context-switch sequence) differs from every other run's. " + pf.Rule
	samples := a.samples
	if samples == nil {
		samples = []any{"none"}
	}
	ev := map[string]any{
		"property": *propID, "tier": *tier, "seed": *seedF, "level": "exploration", "wall_s": *buildS + time.Since(start).Seconds(), "violations": viol,
		"assumptions": []string{
			"the simulated disk models a POSIX file system: unsynced writes and directory changes may be lost from any point on per file, the last one torn; synced data stays intact",
			"one processor: interleavings at scheduling points (every statement of bond and of the bloom filter, every lock, channel and atomic-based wait of the rest), sequentially consistent memory",
			"Go 1.21 standard library with its scheduler, clock, randomness and file system calls behind the simulator (build overlay); Pebble is compiled unmodified",
		},
		"coverage": map[string]any{
			"evaluations": a.runs, "distinct_nontrivial": len(a.nontrivial), "rule": rule, "samples": samples,
			"runs_per_hour": int(float64(a.runs) / searchS * 3600), "seeds": a.runs, "search_seconds": searchS, "build_seconds": *buildS,
			"simulated_seconds": float64(a.simns) / 1e9, "distinct_schedules": len(a.scheds), "distinct_executions": len(a.distinct),
			"operations": a.ops, "operation_kinds": a.kinds, "scenarios": a.scens, "oracle_checks": a.checks,
			"faults_injected": a.faults, "crashes": a.crashes, "torn_writes": a.torn, "lost_writes": a.lostw, "lost_directory_entries": a.lostd,
			"scheduling_points": a.steps, "scheduler_decisions": a.decisions, "context_switches": a.switches, "preemptions": a.preempts, "stalls": a.stalls, "clock_jumps": a.jumps,
			"statements_reached": reached, "statements_instrumented": named, "file_system_calls": a.fscalls, "no_answer": a.bad, "engine_gave_up_on_injected_error": a.engine, "known_findings": nknown,
			"determinism_repeats": repeats, "determinism_mismatches": repeatBad, "instrumentation": *instr,
			"real_code":  "all of go-bond/bond, Pebble, bloom filters, zstd, serializers, Go runtime and standard library",
			"stub_code":  "disk (file system model), scheduler choice, clock, randomness",
			"reference":  "executable model in /verif/sim/model and the history solver in /verif/sim/check.go",
			"bin_hashed": filepath.Base(*bin),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(*evid), 0o755)
	_ = os.WriteFile(*evid, append(b, '\n'), 0o644)
}

var _ = strconv.Itoa
