package runtime

import _ "unsafe" // linkname

// Scheduler seam of the simulator. One P, one running thread; which goroutine
// runs next, whether a running goroutine is preempted at a scheduling point,
// the clock and all runtime randomness are decided here, from one PRNG (or
// from a recorded list of deviations).

const (
	simMaxQ   = 1 << 14
	simMaxDev = 1 << 20
	SimCats   = 4
)

// SimDev is one deviation from the default schedule (run queue in FIFO order,
// no preemption) at decision number At.
type SimDev struct {
	At  uint64
	Val uint64
}

type SimConfig struct {
	Seed      uint64          // schedule PRNG
	RandSeed  uint64          // fastrand (map order, select order)
	Replay    bool            // take decisions from SimDevs
	YieldP    [SimCats]uint32 // probability (of 2^32) to preempt, per category
	PickP     uint32          // probability (of 2^32) not to take the queue head
	StallP    uint32          // probability (of 2^32) that a preemption is a long stall
	StallMax  uint32          // longest stall, in decisions
	StepLimit uint64          // scheduling points before the run is given up
	TimeLimit int64           // simulated ns before the run is given up
	Tick      int64           // ns the clock advances per context switch
}

type SimCounters struct {
	Steps, Decisions, Switches, Preempts, Stalls, Picks, Jumps uint64
	Hash                                                       uint64
	SchedHash                                                  uint64
	NDev                                                       int
	DevOverflow                                                bool
}

var (
	simOn        bool
	simCfg       SimConfig
	simC         SimCounters
	simq         [simMaxQ]guintptr
	simqn        int
	simst        [simMaxQ]guintptr
	simstwake    [simMaxQ]uint64
	simstn       int
	simPendG     guintptr
	simPendV     uint64
	simRandState uint64
	simSchState  uint64
	simWallOff   int64
	SimDevs      [simMaxDev]SimDev
	simRepN      int
	simRepI      int
)

var simSysState uint32 = 2463534242

// simsysrandn is the runtime's own random source; nothing the program can
// observe depends on it.
//
//go:nosplit
func simsysrandn(n uint32) uint32 {
	x := simSysState
	x ^= x << 13
	x ^= x >> 17
	x ^= x << 5
	simSysState = x
	return uint32(uint64(x) * uint64(n) >> 32)
}

//go:nosplit
func simrand(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nowritebarrierrec
func simqput(gp *g) {
	if simPendV != 0 && simPendG.ptr() == gp {
		if simstn < simMaxQ {
			simst[simstn].set(gp)
			simstwake[simstn] = simC.Decisions + simPendV
			simstn++
			simPendV = 0
			return
		}
		simPendV = 0
	}
	if simqn >= simMaxQ {
		throw("sim: run queue overflow")
	}
	simq[simqn].set(gp)
	simqn++
}

// simdecide returns the value of this decision; 0 is the default.
//
//go:nosplit
func simdecide(rnd uint64) uint64 {
	at := simC.Decisions
	simC.Decisions++
	if simCfg.Replay {
		if simRepI < simRepN && SimDevs[simRepI].At == at {
			v := SimDevs[simRepI].Val
			simRepI++
			return v
		}
		return 0
	}
	if rnd == 0 {
		return 0
	}
	if simC.NDev >= simMaxDev {
		simC.DevOverflow = true
		return 0
	}
	SimDevs[simC.NDev] = SimDev{at, rnd}
	simC.NDev++
	return rnd
}

func simpick() *g {
	if simstn > 0 {
		j := 0
		for i := 0; i < simstn; i++ {
			if simstwake[i] <= simC.Decisions {
				simq[simqn] = simst[i]
				simqn++
			} else {
				simst[j] = simst[i]
				simstwake[j] = simstwake[i]
				j++
			}
		}
		simstn = j
		if simqn == 0 && simstn > 0 {
			simq[0] = simst[0]
			simqn = 1
			for i := 1; i < simstn; i++ {
				simst[i-1] = simst[i]
				simstwake[i-1] = simstwake[i]
			}
			simstn--
		}
	}
	if simqn == 0 {
		return nil
	}
	idx := 0
	if simqn > 1 {
		var r uint64
		if !simCfg.Replay && simCfg.PickP != 0 {
			x := simrand(&simSchState)
			if uint32(x) < simCfg.PickP {
				r = (x >> 32) % uint64(simqn)
			}
		}
		v := simdecide(r)
		if v != 0 {
			idx = int(v % uint64(simqn))
			simC.Picks++
		}
	}
	gp := simq[idx].ptr()
	for i := idx + 1; i < simqn; i++ {
		simq[i-1] = simq[i]
	}
	simqn--
	simq[simqn] = 0
	simC.Switches++
	simC.SchedHash = (simC.SchedHash ^ gp.goid) * 0x100000001b3
	faketime += simCfg.Tick
	return gp
}

func simjump(t int64) {
	if faketime < t {
		faketime = t
		simC.Jumps++
	}
	if simCfg.TimeLimit != 0 && faketime > simCfg.TimeLimit {
		fatal("sim: time limit reached")
	}
}

// SimYield is a scheduling point.
func SimYield(cat int) {
	if !simOn {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.preemptoff != "" || mp.mallocing != 0 || panicking.Load() != 0 {
		return
	}
	simC.Steps++
	if simC.Steps > simCfg.StepLimit {
		simOn = false
		fatal("sim: step limit reached")
	}
	if simqn == 0 && simstn == 0 {
		return
	}
	var r uint64
	if !simCfg.Replay && simCfg.YieldP[cat] != 0 {
		x := simrand(&simSchState)
		if uint32(x) < simCfg.YieldP[cat] {
			r = 1
			x = simrand(&simSchState)
			if uint32(x) < simCfg.StallP && simCfg.StallMax > 1 {
				// log-uniform stall length
				m := uint64(simCfg.StallMax)
				for sh := (x >> 32) % 12; sh > 0 && m > 2; sh-- {
					m /= 2
				}
				r = 2 + (x>>40)%m
			}
		}
	}
	v := simdecide(r)
	if v == 0 {
		return
	}
	simC.Preempts++
	if v > 1 {
		simC.Stalls++
		simPendG.set(gp)
		simPendV = v
	}
	mcall(gosched_m)
}

const SimMaxPoint = 1 << 15

var simPoints [SimMaxPoint / 8]uint8

// SimPoint is a numbered scheduling point.
func SimPoint(n uint32) {
	if n < SimMaxPoint && simOn {
		simPoints[n/8] |= 1 << (n & 7)
	}
	SimYield(0)
}

// SimSizes are the sizes a run uses in place of constants of the code under
// test; 0 is the constant.
var SimSizes [4]int

// SimSize is the size to use for a constant.
func SimSize(i, c int) int {
	if n := SimSizes[i]; n > 0 {
		return n
	}
	return c
}

// SimPoints returns which points were reached.
func SimPoints() []uint8 { return simPoints[:] }

//go:linkname sync_runtime_SimYield sync.runtime_SimYield
func sync_runtime_SimYield(cat int) { SimYield(cat) }

// SimStart turns the simulator on.
func SimStart(cfg *SimConfig, nrep int) {
	simCfg = *cfg
	simSchState = cfg.Seed
	simRandState = cfg.RandSeed
	simRepN = nrep
	simRepI = 0
	simC = SimCounters{}
	simOn = true
}

func SimStop()                 { simOn = false }
func SimIsOn() bool            { return simOn }
func SimStats() SimCounters    { return simC }
func SimNow() int64            { return faketime }
func SimWall(off int64)        { simWallOff = off }
func SimAdvance(d int64)       { faketime += d }
func SimSteps() uint64         { return simC.Steps }
func SimGoid() uint64          { return getg().goid }
func SimWorld() uint64         { return getg().simWorld }
func SimSetWorld(w uint64)     { getg().simWorld = w }
func SimMixHash(x uint64)      { simC.Hash = (simC.Hash ^ x) * 0x100000001b3 }
func SimSetStepLimit(n uint64) { simCfg.StepLimit = n }

// SimQuiet switches preemption off (the default schedule) and returns a
// function that restores it: used by the harness outside the phases of interest.
func SimSetProb(y [SimCats]uint32, pick, stall uint32) {
	simCfg.YieldP = y
	simCfg.PickP = pick
	simCfg.StallP = stall
}
