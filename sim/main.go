// Command bondsim runs one simulated program: standard input holds the program
// and, for a replay, the schedule; descriptor 3 receives the result.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"syscall"
	"unsafe"

	"bondsim/prog"
)

const simEpoch = int64(1257894000000000000)

var tracing bool

func readFull(fd int, p []byte) bool {
	for len(p) > 0 {
		n, err := syscall.Read(fd, p)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			return false
		}
		p = p[n:]
	}
	return true
}

func writeFull(fd int, p []byte) {
	for len(p) > 0 {
		n, err := syscall.Write(fd, p)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			os.Exit(4)
		}
		p = p[n:]
	}
}

const (
	flagTrace  = 1
	flagReplay = 2
	flagDevs   = 4
)

func devBytes(n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&runtime.SimDevs[0])), n*16)
}

func main() {
	runtime.GOMAXPROCS(1)
	var hdr [16]byte
	if !readFull(0, hdr[:]) {
		fmt.Println("bondsim: no program on standard input")
		os.Exit(4)
	}
	flags := binary.LittleEndian.Uint32(hdr[0:])
	buf := make([]byte, binary.LittleEndian.Uint32(hdr[4:]))
	nd := int(binary.LittleEndian.Uint64(hdr[8:]))
	var p prog.Program
	if !readFull(0, buf) || json.Unmarshal(buf, &p) != nil || nd > len(runtime.SimDevs) || !readFull(0, devBytes(nd)) {
		fmt.Println("bondsim: bad program")
		os.Exit(4)
	}
	tracing = flags&flagTrace != 0
	res := &prog.Result{Seed: p.Seed, OpKinds: map[string]int{}}
	simulate(&p, res, flags&flagReplay != 0, nd)
	st := runtime.SimStats()
	out, err := json.Marshal(res)
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	var devs []byte
	if flags&flagDevs != 0 && flags&flagReplay == 0 {
		devs = devBytes(st.NDev)
	}
	binary.LittleEndian.PutUint32(hdr[0:], uint32(len(out)))
	binary.LittleEndian.PutUint64(hdr[8:], uint64(len(devs)/16))
	writeFull(3, hdr[:])
	writeFull(3, out)
	writeFull(3, devs)
	os.Exit(0)
}

func prob(p float64) uint32 {
	x := p * (1 << 32)
	if x >= 1<<32 {
		return 1<<32 - 1
	}
	return uint32(x)
}

type scenario func(e *Engine)

var scenarios = map[string]scenario{}

func simulate(p *prog.Program, res *prog.Result, replay bool, nd int) {
	s := &p.Sched
	cfg := &runtime.SimConfig{Seed: s.Seed, RandSeed: s.Rand, Replay: replay, PickP: prob(s.Pick), StallP: prob(s.Stall), StallMax: s.StallMax,
		StepLimit: 60_000_000, TimeLimit: simEpoch + int64(400*24*3600)*1e9, Tick: s.Tick}
	for i := range s.Yield {
		cfg.YieldP[i] = prob(s.Yield[i])
	}
	runtime.SimSizes[0], runtime.SimSizes[1] = p.Cfg.Chunk, p.Cfg.ReChunk
	e := newEngine(p, res)
	runtime.SimStart(cfg, nd)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok {
					e.fail = &fl
					return
				}
				panic(r)
			}
		}()
		if p.Scen != "" {
			f := scenarios[p.Scen]
			if f == nil {
				failNow("harness", "unknown scenario %s", p.Scen)
			}
			f(e)
			return
		}
		e.run()
	}()
	runtime.SimStop()
	if e.fail != nil {
		res.Fail, res.Detail = e.fail.class, e.fail.detail
		if p.Expect != "" && p.Expect == res.Fail {
			res.Fail = "known"
		}
	}
	st := runtime.SimStats()
	res.Points = bytes.TrimRight(runtime.SimPoints(), "\x00")
	res.Steps, res.Decisions, res.Switches, res.Preempts = st.Steps, st.Decisions, st.Switches, st.Preempts
	res.Stalls, res.Jumps = st.Stalls, st.Jumps
	res.SimNS = runtime.SimNow() - simEpoch
	res.SchedHash = st.SchedHash
	res.Hash = (res.Hash ^ e.st.Hash) * 0x100000001b3
	res.FSCalls = e.st.Calls
	res.NDev, res.Overflow = st.NDev, st.DevOverflow
	res.Faults = e.st.Fired
	res.Torn, res.LostW, res.LostD = e.st.Torn, e.st.LostW, e.st.LostD
	if tracing {
		var ks []string
		for k := range res.Faults {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			res.Trace = append(res.Trace, fmt.Sprintf("fired %s %d", k, res.Faults[k]))
		}
	}
}
