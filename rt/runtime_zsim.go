// Deterministic-simulation core, compiled INTO package runtime through
// `go build -overlay`.  It owns: which goroutine runs next, where a running
// goroutine is preempted, which ready select case wins, the clock, and the
// runtime's random numbers (map iteration, map seeds, treap tickets).
// Everything is off until SimStart is called.

package runtime

import "unsafe"

const (
	simMaxG     = 1 << 15
	SimMaxHosts = 128
)

// SimConfig selects the scheduling policy of one run.
type SimConfig struct {
	Seed       uint64   // schedule stream
	AuxSeed    uint64   // map iteration and other runtime-internal randomness
	Policy     int32    // 0 FIFO, 1 uniform random, 2 priorities (PCT-like), 3 LIFO
	YieldDen   uint32   // preempt at a statement with probability 1/YieldDen (0: never)
	StallDen   uint32   // stall at a statement with probability 1/StallDen (0: never)
	StallMax   int64    // longest single stall, ns
	StallTotal int64    // total stall budget, ns
	PrioDen    uint32   // policy 2: re-draw the running goroutine's priority with probability 1/PrioDen
	MaxSteps   uint64   // whole run
	InstSteps  uint64   // without the clock advancing
	Replay     bool     // take decisions from ReplayPos/ReplayVal, default 0
	ReplayPos  []uint64 // ascending positions
	ReplayVal  []uint64
	RecPos     []uint64 // recording buffers (deviations from the default)
	RecVal     []uint64
}

// SimStats is what the scheduler measured.
type SimStats struct {
	Steps     uint64
	Decisions uint64
	Picks     uint64
	MultiPick uint64 // picks with more than one candidate
	Yields    uint64
	Stalls    uint64
	StallNs   int64
	Selects   uint64
	Spawned   uint64
	Hash      uint64 // running hash over (goroutine, position) of every pick: the interleaving
	NRec      int
	RecFull   bool
	Overrun   bool
	Stuck     bool // overrun without the clock advancing
	Quiet     uint64
	MaxRunq   int
	MaxInst   uint64
}

var sim struct {
	on      bool
	cfg     SimConfig
	st      SimStats
	rng     uint64
	aux     uint64
	replayI int

	q  [simMaxG]guintptr
	qn int

	mainG    guintptr // harness goroutine parked in SimWaitUntil
	mainWhen int64
	wantIdle bool
	gotIdle  bool
	dirty    bool  // something ran since the last quiescent point
	blocked  int32 // goroutines inside a blocked system call
	instAt   int64
	instN    uint64

	wallOff int64 // wall clock minus monotonic clock (clock jumps)

	dead    [SimMaxHosts]bool
	stalled [SimMaxHosts]int32
	live    [SimMaxHosts]int32

	stallFrom, stallTo int64
	gseq               uint64
	only0              bool
}

func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simAuxNext() uint64 {
	sim.aux += 0x9e3779b97f4a7c15
	x := sim.aux
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simOwnRand reports whether the caller draws from the simulator's stream:
// goroutines of the program, never the runtime's own threads.
//
//go:nosplit
func simOwnRand() bool {
	gp := getg().m.curg
	return gp != nil && (gp.goid == 1 || gp.simHost != 0)
}

func simRand() uint64 {
	sim.rng += 0x9e3779b97f4a7c15
	x := sim.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simDecide is the single point through which every schedule decision goes.
// v is what the policy wants; the value taken is returned.  Position numbers
// are dense, so (position,value) pairs with value != 0 are a complete replay.
func simDecide(want uint64, limit uint64) uint64 {
	pos := sim.st.Decisions
	sim.st.Decisions++
	v := want
	if sim.cfg.Replay {
		v = 0
		for sim.replayI < len(sim.cfg.ReplayPos) && sim.cfg.ReplayPos[sim.replayI] < pos {
			sim.replayI++
		}
		if sim.replayI < len(sim.cfg.ReplayPos) && sim.cfg.ReplayPos[sim.replayI] == pos {
			v = sim.cfg.ReplayVal[sim.replayI]
			sim.replayI++
		}
		if limit != 0 && v >= limit {
			v = limit - 1
		}
	}
	if v != 0 {
		if sim.st.NRec < len(sim.cfg.RecPos) {
			sim.cfg.RecPos[sim.st.NRec] = pos
			sim.cfg.RecVal[sim.st.NRec] = v
			sim.st.NRec++
		} else {
			sim.st.RecFull = true
		}
	}
	return v
}

func simStep() {
	sim.st.Steps++
	sim.dirty = true
	if faketime != sim.instAt {
		sim.instAt, sim.instN = faketime, 0
	}
	sim.instN++
	if sim.instN > sim.st.MaxInst {
		sim.st.MaxInst = sim.instN
	}
	if sim.st.Overrun {
		return
	}
	if sim.cfg.InstSteps != 0 && sim.instN > sim.cfg.InstSteps {
		sim.st.Stuck = true
		sim.st.Overrun = true
	}
	if sim.cfg.MaxSteps != 0 && sim.st.Steps > sim.cfg.MaxSteps {
		sim.st.Overrun = true
	}
	if sim.st.Overrun {
		sim.only0 = true // from here on only the harness runs
	}
}

// simFind replaces the body of findRunnable while the simulation is on.
func simFind(pp *p) *g {
	for {
		// Collect everything runnable, oldest first.
		for {
			gp, _ := runqget(pp)
			if gp == nil {
				break
			}
			simEnq(gp)
		}
		if !sched.runq.empty() {
			lock(&sched.lock)
			for !sched.runq.empty() {
				simEnq(globrunqget())
			}
			unlock(&sched.lock)
		}
		// Choose.
		n := 0
		for i := 0; i < sim.qn; i++ {
			if simEligible(sim.q[i].ptr()) {
				n++
			}
		}
		if n > 0 {
			// The harness and the runtime's own goroutines go first; they
			// are not part of the schedule.
			for i := 0; i < sim.qn; i++ {
				if gp := sim.q[i].ptr(); gp.simHost == 0 {
					copy(sim.q[i:sim.qn-1], sim.q[i+1:sim.qn])
					sim.qn--
					return gp
				}
			}
			if n > sim.st.MaxRunq {
				sim.st.MaxRunq = n
			}
			k := 0
			if n > 1 {
				k = simPick(n)
			}
			for i := 0; i < sim.qn; i++ {
				gp := sim.q[i].ptr()
				if !simEligible(gp) {
					continue
				}
				if k == 0 {
					copy(sim.q[i:sim.qn-1], sim.q[i+1:sim.qn])
					sim.qn--
					sim.st.Picks++
					if gp.simHost != 0 {
						simStep()
						sim.st.Hash = simMix(sim.st.Hash ^ gp.simSeq<<8 ^ uint64(n))
					}
					return gp
				}
				k--
			}
			throw("sim: pick out of range")
		}
		// Nothing runnable: a quiescent point, unless something is merely
		// delayed.
		if simQuiet() {
			if sim.dirty {
				sim.dirty = false
				sim.st.Quiet++
			}
			if sim.wantIdle && sim.mainG != 0 {
				gp := sim.mainG.ptr()
				sim.mainG = 0
				sim.gotIdle = true
				ready(gp, 0, true)
				continue
			}
		}
		// Advance the clock to the next timer or harness event.
		when := pp.timers.wakeTime()
		if when == 0 {
			when = maxWhen
		}
		if sim.only0 && sim.mainG != 0 {
			// the run is over: hand control to the harness at once
			gp := sim.mainG.ptr()
			sim.mainG = 0
			ready(gp, 0, true)
			continue
		}
		if sim.mainG != 0 && sim.mainWhen <= when {
			if sim.mainWhen > faketime {
				faketime = sim.mainWhen
			}
			gp := sim.mainG.ptr()
			sim.mainG = 0
			ready(gp, 0, true)
			pp.timers.check(0, nil)
			continue
		}
		if when == maxWhen {
			throw("sim: all goroutines are asleep and the harness is not waiting")
		}
		if when > faketime {
			faketime = when
		}
		pp.timers.check(0, nil)
	}
}

func simEnq(gp *g) {
	if gp.simHost != 0 && sim.dead[gp.simHost] {
		return // its host has crashed: it never runs again
	}
	if sim.qn == simMaxG {
		throw("sim: too many runnable goroutines")
	}
	if sim.cfg.Policy == 2 && gp.simPrio == 0 && gp.simHost != 0 {
		gp.simPrio = uint32(simRand()) | 1
	}
	sim.q[sim.qn].set(gp)
	sim.qn++
}

func simEligible(gp *g) bool {
	if gp.simHost == 0 {
		return true
	}
	return !sim.only0 && !sim.dead[gp.simHost]
}

func simPick(n int) int {
	sim.st.MultiPick++
	var want uint64
	if !sim.cfg.Replay {
		switch sim.cfg.Policy {
		case 1:
			want = simRand() % uint64(n)
		case 2:
			best, bi, j := uint32(0), 0, 0
			for i := 0; i < sim.qn; i++ {
				gp := sim.q[i].ptr()
				if !simEligible(gp) {
					continue
				}
				if gp.simPrio > best {
					best, bi = gp.simPrio, j
				}
				j++
			}
			want = uint64(bi)
		case 3:
			want = uint64(n - 1)
		}
	}
	return int(simDecide(want, uint64(n)))
}

func simQuiet() bool {
	if sim.blocked > 0 {
		return false
	}
	for h := 1; h < SimMaxHosts; h++ {
		if sim.stalled[h] > 0 && !sim.dead[h] {
			return false
		}
	}
	return true
}

// simSelOrder replaces cheaprandn in selectgo.
func simSelOrder(n uint32) uint32 {
	gp := getg()
	if !sim.on || gp.simHost == 0 || n < 2 {
		return cheaprandn(n)
	}
	sim.st.Selects++
	var want uint64
	if !sim.cfg.Replay {
		want = simRand() % uint64(n)
	}
	return uint32(simDecide(want, uint64(n)))
}

// SimStmt is called before every statement of the code under test.
func SimStmt() {
	if !sim.on {
		return
	}
	gp := getg()
	mp := gp.m
	if gp.simHost == 0 || gp != mp.curg || mp.locks != 0 || gp.simNoYield != 0 {
		return
	}
	simStep()
	if sim.only0 {
		mcall(gosched_m)
		return
	}
	var want uint64
	if !sim.cfg.Replay {
		c := &sim.cfg
		if c.Policy == 2 && c.PrioDen != 0 && simRand()%uint64(c.PrioDen) == 0 {
			gp.simPrio = uint32(simRand()) | 1
		}
		if c.StallDen != 0 && faketime >= sim.stallFrom && faketime < sim.stallTo && sim.st.StallNs < c.StallTotal && simRand()%uint64(c.StallDen) == 0 {
			// log-uniform duration between 1us and StallMax
			top := c.StallMax
			sh := simRand() % 12
			top >>= sh
			if top < 2000 {
				top = 2000
			}
			want = 2 + 1000 + simRand()%uint64(top)
		} else if c.YieldDen != 0 && simRand()%uint64(c.YieldDen) == 0 {
			want = 1
		}
	}
	switch v := simDecide(want, 0); {
	case v == 0:
	case v == 1:
		sim.st.Yields++
		mcall(gosched_m)
	default:
		sim.st.Stalls++
		d := int64(v - 2)
		if sim.st.StallNs+d > sim.cfg.StallTotal {
			d = sim.cfg.StallTotal - sim.st.StallNs
		}
		if d <= 0 {
			mcall(gosched_m)
			return
		}
		sim.st.StallNs += d
		h := gp.simHost
		sim.stalled[h]++
		timeSleep(d)
		sim.stalled[h]--
	}
}

// ---- harness interface ----

// SimStart turns the simulation on.
func SimStart(cfg *SimConfig) {
	sim.cfg = *cfg
	sim.rng = simMix(cfg.Seed)
	sim.aux = simMix(cfg.AuxSeed ^ 0xabcdef)
	sim.st = SimStats{}
	sim.on = true
}

// SimStop hands scheduling back to the ordinary runtime.
func SimStop() {
	pp := getg().m.p.ptr()
	_ = pp
	sim.on = false
}

// SimAllGs is the number of goroutine descriptors made so far.
func SimAllGs() int { return int(allglen) }

func SimRead() SimStats { return sim.st }

func SimReseedAux(x uint64) { sim.aux = simMix(x) }

func SimOverrun() bool { return sim.st.Overrun }

// SimRunaway ends the run: too much is going on without the clock advancing.
func SimRunaway() {
	sim.st.Stuck, sim.st.Overrun, sim.only0 = true, true, true
}

// SimStallWindow limits stalls to [from,to) in simulated nanoseconds.
func SimStallWindow(from, to int64) { sim.stallFrom, sim.stallTo = from, to }

// SimSetHost labels the current goroutine; goroutines it starts inherit it.
func SimSetHost(h int32) int32 {
	gp := getg()
	old := gp.simHost
	gp.simHost = h
	return old
}

func SimHost() int32 { return getg().simHost }

// SimHarness marks the stretches of a goroutine that run harness code: the
// race detector sees neither their memory accesses nor their synchronisation.
func SimHarness(on bool) {
	gp := getg()
	simRaceIgnore(gp, on)
	if on {
		gp.simNoRace++
	} else {
		gp.simNoRace--
	}
}

func SimNoYield(d int32) { getg().simNoYield += d }

// SimKillHost freezes every goroutine of the host for good.
func SimKillHost(h int32) { sim.dead[h] = true }

func SimHostDead(h int32) bool { return h >= 0 && sim.dead[h] }

func SimNow() int64 { return faketime }

func SimWallJump(d int64) { sim.wallOff += d }

// SimSelf and SimPark/SimReady: park and wake without happens-before edges
// visible to the race detector.
func SimSelf() unsafe.Pointer { return unsafe.Pointer(getg()) }

func SimPark() { gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1) }

func SimReady(gp unsafe.Pointer) { goready((*g)(gp), 1) }

// SimWait parks the harness goroutine until simulated time t, the next
// quiescent point if idle is set (it then returns true), or the end of an
// overrun run.
func SimWait(t int64, idle bool) bool {
	gp := getg()
	if sim.mainG != 0 {
		throw("sim: two goroutines in SimWait")
	}
	sim.mainG.set(gp)
	sim.mainWhen = t
	sim.wantIdle = idle
	sim.gotIdle = false
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	sim.wantIdle = false
	return sim.gotIdle
}

// SimPullWake moves an in-progress SimWait earlier.
func SimPullWake(t int64) {
	if sim.mainG != 0 && t < sim.mainWhen {
		sim.mainWhen = t
	}
}

// SimBlocked counts goroutines inside a blocked system call: no quiescent
// point is declared while there are any.
func SimBlocked(d int32) { sim.blocked += d }

// SimQuietCount numbers the quiescent points passed so far.
func SimQuietCount() uint64 { return sim.st.Quiet }

// SimStalled is the stall time used so far.
func SimStalled() int64 { return sim.st.StallNs }

// SimGosched lets everything else that is runnable compete.
func SimGosched() { mcall(gosched_m) }

// SimLive counts the goroutines labelled h that have not finished.
func SimLive(h int32) int {
	n := 0
	forEachG(func(gp *g) {
		if gp.simHost == h && readgstatus(gp)&^_Gscan != _Gdead {
			n++
		}
	})
	return n
}
