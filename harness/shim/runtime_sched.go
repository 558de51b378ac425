package runtime

import "unsafe"

// Controlled scheduling. While an execution is active (one P), runnable
// controlled goroutines wait in verifQ instead of the run queue, and
// verifPick decides which one runs next by following a prescribed list of
// choices. Everything here runs in package runtime, which the race detector
// does not instrument: switching adds no happens-before edges.

const (
	verifMaxG      = 512
	verifMaxPoints = 1 << 16
)

// Scheduling point sites.
const (
	verifSiteBlock = iota // the previous goroutine blocked or ended
	verifSiteGo
	verifSiteSend
	verifSiteRecv
	verifSiteClose
	verifSiteSelect
	verifSiteSync
	verifSiteAtomic
	verifSiteIO
)

// VerifPoint is one scheduling decision with more than one enabled goroutine.
type VerifPoint struct {
	Enabled int32 // number of enabled goroutines
	Running bool  // the running goroutine was still enabled (it is choice 0)
	Chosen  int32 // choice taken
	ID      int32 // goroutine chosen
	Site    int32 // where the previous goroutine stopped
}

// Outcomes of an execution.
const (
	VerifDone     = 0
	VerifDeadlock = 1
)

var (
	verifActive   bool
	verifSpawn    bool // the next new goroutine is a controlled root
	verifQ        [verifMaxG]guintptr
	verifQN       int
	verifGs       [verifMaxG]guintptr // by id-1
	verifNextID   int32
	verifLive     int32
	verifMain     guintptr
	verifMainIdle bool
	verifLast     int32 // id of the goroutine that yielded last and is enabled, or 0
	verifSite     int32
	verifOutcome  int32
	verifPrefix   []int32
	verifPoints   [verifMaxPoints]VerifPoint
	verifNPoints  int
	verifSteps    int
	verifDiverged bool
	verifOverflow bool
	verifAllG     int32
	verifSyncAddr uintptr
	verifRandSt   uint64
)

// verifNextRand replaces the random numbers of the runtime, so that
// executions can be repeated.
//
//go:nosplit
func verifNextRand() uint64 {
	verifRandSt += 0x9E3779B97F4A7C15
	z := verifRandSt
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func verifPut(gp *g) {
	if verifQN >= verifMaxG {
		throw("verif: too many controlled goroutines")
	}
	verifQ[verifQN].set(gp)
	verifQN++
}

func verifNewG(newg, caller *g) {
	newg.verifID = 0
	if verifActive && (caller.verifID != 0 || verifSpawn) {
		verifSpawn = false
		verifNextID++
		if verifNextID > verifMaxG {
			throw("verif: too many controlled goroutines")
		}
		newg.verifID = verifNextID
		verifGs[verifNextID-1].set(newg)
		verifLive++
	}
}

func verifExitG(gp *g) {
	if gp.verifID != 0 {
		verifGs[gp.verifID-1].set(nil)
		gp.verifID = 0
		verifLive--
		verifLast = 0
		verifSite = verifSiteBlock
	}
}

// verifPick returns the goroutine to run next, or nil to use the normal
// scheduler. It runs on g0 with the P.
func verifPick(pp *p) *g {
	if verifQN == 0 {
		if !verifMainIdle {
			return nil
		}
		if verifLive > 0 {
			// Blocked, or waiting for something outside: a timer or a
			// goroutine that is not controlled.
			if !runqempty(pp) || sched.runq.size > 0 || len(pp.timers.heap) > 0 {
				return nil
			}
			for i := int32(0); i < verifNextID; i++ {
				if gp := verifGs[i].ptr(); gp != nil {
					if readgstatus(gp)&^_Gscan != _Gwaiting || gp.waitreason == waitReasonSleep || gp.waitreason == waitReasonIOWait {
						return nil
					}
				}
			}
			verifOutcome = VerifDeadlock
		}
		gp := verifMain.ptr()
		verifMainIdle = false
		verifActive = false
		casgstatus(gp, _Gwaiting, _Grunnable)
		return gp
	}
	// Canonical order: the running goroutine first, then ascending ids.
	for i := 1; i < verifQN; i++ {
		for j := i; j > 0; j-- {
			a, b := verifQ[j-1].ptr().verifID, verifQ[j].ptr().verifID
			if b == verifLast || (a != verifLast && b < a) {
				verifQ[j-1], verifQ[j] = verifQ[j], verifQ[j-1]
			} else {
				break
			}
		}
	}
	running := verifLast != 0 && verifQ[0].ptr().verifID == verifLast
	c := 0
	if verifQN > 1 {
		if verifNPoints < len(verifPrefix) {
			c = int(verifPrefix[verifNPoints])
			if c < 0 || c >= verifQN {
				verifDiverged = true
				c = 0
			}
		}
		if verifNPoints < verifMaxPoints {
			verifPoints[verifNPoints] = VerifPoint{int32(verifQN), running, int32(c), verifQ[c].ptr().verifID, verifSite}
			verifNPoints++
		} else {
			verifOverflow = true
		}
	}
	gp := verifQ[c].ptr()
	for i := c; i < verifQN-1; i++ {
		verifQ[i] = verifQ[i+1]
	}
	verifQN--
	verifQ[verifQN].set(nil)
	verifLast = 0
	verifSite = verifSiteBlock
	verifSteps++
	return gp
}

// verifYield is a scheduling point of the calling goroutine.
func verifYield(site int32) {
	if !verifActive {
		return
	}
	gp := getg()
	if gp.verifID == 0 || gp.m.curg != gp || gp.m.locks != 0 || gp.m.mallocing != 0 || gp.m.gsignal == gp {
		return
	}
	verifSteps++
	if verifQN == 0 {
		return // nobody else can run
	}
	verifSite = site
	mcall(verifYieldM)
}

func verifYieldM(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	verifPut(gp)
	verifLast = gp.verifID
	schedule()
}

// VerifYieldSync, VerifYieldAtomic and VerifYieldIO are scheduling points for
// packages outside the runtime.
func VerifYieldSync()   { verifYield(verifSiteSync) }
func VerifYieldAtomic() { verifYield(verifSiteAtomic) }
func VerifYieldIO()     { verifYield(verifSiteIO) }

// VerifID returns the number of the calling controlled goroutine.
func VerifID() int { return int(getg().verifID) }

// VerifExec runs the bodies as controlled goroutines 1..n, following the
// prefix of choices and choice 0 afterwards, and returns when all of them and
// all goroutines they started have ended, or when none can continue.
// GOMAXPROCS must be 1 and the garbage collector off.
func VerifExec(bodies []func(), prefix []int32) (outcome int, points []VerifPoint, steps, goroutines int, diverged, overflow bool) {
	if gomaxprocs != 1 {
		throw("verif: GOMAXPROCS must be 1")
	}
	verifQN, verifNextID, verifLive, verifLast = 0, 0, 0, 0
	verifNPoints, verifSteps = 0, 0
	verifDiverged, verifOverflow = false, false
	verifOutcome = VerifDone
	verifPrefix = prefix
	verifSite = verifSiteBlock
	for i := range verifGs {
		verifGs[i].set(nil)
	}
	getg().m.cheaprand = 0x9E3779B9
	verifRandSt = 1
	verifMain.set(getg())
	verifActive = true
	for _, f := range bodies {
		verifSpawn = true
		go verifBody(f)
	}
	mcall(verifPark)
	if raceenabled {
		raceacquire(unsafe.Pointer(&verifSyncAddr))
	}
	return int(verifOutcome), verifPoints[:verifNPoints], verifSteps, int(verifNextID), verifDiverged, verifOverflow
}

func verifBody(f func()) {
	f()
	if raceenabled {
		racereleasemerge(unsafe.Pointer(&verifSyncAddr))
	}
}

func verifPark(gp *g) {
	gp.waitreason = waitReasonZero
	casgstatus(gp, _Grunning, _Gwaiting)
	dropg()
	verifMainIdle = true
	schedule()
}

// VerifLiveIDs returns a description of the controlled goroutines that have
// not ended (after a deadlock).
func VerifLiveIDs() []string {
	var out []string
	for i := int32(0); i < verifNextID; i++ {
		if gp := verifGs[i].ptr(); gp != nil {
			out = append(out, gp.waitreason.String())
		}
	}
	return out
}
