package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"vibe-lsm/zzverif/vfs"
)

// scenario is a concurrent program over fresh state. setup returns the bodies
// to run concurrently and a function that judges the end state and returns a
// short description of the outcome.
type scenario struct {
	name  string
	setup func(t *T) (bodies []func(), end func(t *T) string)
}

var siteNames = []string{"block", "go", "send", "receive", "close", "select", "sync", "atomic", "I/O"}

var schedReady bool

func schedInit() {
	if schedReady {
		return
	}
	schedReady = true
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	vfs.Dev.Yield = runtime.VerifYieldIO
}

var execCount int

func collect() {
	if execCount++; execCount%64 != 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 1<<28 {
		runtime.GC()
	}
}

func fmtSchedule(ps []runtime.VerifPoint) string {
	var sb strings.Builder
	for i, p := range ps {
		if p.Chosen == 0 && p.Running {
			continue
		}
		fmt.Fprintf(&sb, "at choice %d (after %s, %d enabled) goroutine %d runs; ", i, siteNames[p.Site], p.Enabled, p.ID)
	}
	return sb.String()
}

// runOnce runs the scenario under the schedule that starts with prefix.
func runOnce(t *T, s scenario, prefix []int32) []runtime.VerifPoint {
	schedInit()
	vfs.Reset()
	bodies, end := s.setup(t)
	type caught struct {
		v     any
		stack string
	}
	panics := make([]*caught, len(bodies))
	guarded := make([]func(), len(bodies))
	for i, f := range bodies {
		guarded[i] = func() {
			defer func() {
				if x := recover(); x != nil {
					panics[i] = &caught{x, string(debug.Stack())}
				}
			}()
			f()
		}
	}
	races := runtime.RaceErrors()
	outcome, pts, steps, _, diverged, overflow := runtime.VerifExec(guarded, prefix)
	points := append([]runtime.VerifPoint(nil), pts...)
	t.e.Schedules++
	t.Trace()
	t.Op(steps)
	t.e.beat()
	collect()
	if diverged || overflow {
		t.e.Count("executions that could not be repeated", 1)
		return nil
	}
	where := func() string { return "schedule: " + fmtSchedule(points) }
	if outcome == runtime.VerifDeadlock {
		t.Fail("deadlock", "no goroutine can continue, waiting for: %v; %s", runtime.VerifLiveIDs(), where())
	}
	if n := runtime.RaceErrors(); n > races {
		t.Fail("race", "data race; %s", where())
	}
	for i, c := range panics {
		if c != nil {
			if fl, ok := c.v.(failure); ok {
				t.Fail(fl.sig, "goroutine %d: %s; %s", i+1, fl.msg, where())
			}
			t.Fail("panic", "goroutine %d: panic: %v; %s\n%s", i+1, c.v, where(), c.stack)
		}
	}
	t.Note("%s", where())
	o := end(t)
	t.log = t.log[:len(t.log)-1]
	t.e.outcome(s.name, o)
	h := hashStr(s.name)
	for _, p := range points {
		h = (h ^ uint64(p.Chosen)) * 0x100000001b3
	}
	t.State(h)
	return points
}

func (e *Env) outcome(name, o string) {
	if e.outcomes == nil {
		e.outcomes = map[string]map[string]int64{}
	}
	m := e.outcomes[name]
	if m == nil {
		m = map[string]int64{}
		e.outcomes[name] = m
	}
	if len(m) < 50 {
		m[o]++
	}
}

// explore runs the scenario under every schedule with at most bound
// preemptions, split into parts cases.
func explore(e *Env, s scenario, bound, parts int) bool {
	for part := 0; part < parts; part++ {
		if !e.Case(func() string {
			return fmt.Sprintf("%s, all schedules with up to %d preemptions, part %d of %d", s.name, bound, part+1, parts)
		}, func(t *T) {
			// Executions before the explored ones fill caches of the runtime
			// and the libraries.
			runOnce(t, s, nil)
			runOnce(t, s, nil)
			var rec func(prefix []int32, root bool)
			rec = func(prefix []int32, root bool) {
				p := runOnce(t, s, prefix)
				if p == nil {
					return
				}
				cost := 0
				for i, q := range p {
					if i >= len(prefix) && (!root || i%parts == part) {
						for alt := int32(1); alt < q.Enabled; alt++ {
							c := cost
							if q.Running {
								c++
							}
							if c > bound {
								continue
							}
							if e.Done() {
								return
							}
							np := make([]int32, i+1)
							for j := 0; j < i; j++ {
								np[j] = p[j].Chosen
							}
							np[i] = alt
							rec(np, false)
						}
					}
					if q.Running && q.Chosen != 0 {
						cost++
					}
				}
			}
			rec(nil, true)
		}) {
			return false
		}
	}
	return true
}
