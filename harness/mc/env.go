// Command mc explores one property of the module exhaustively within stated
// bounds. It is built from the module's current source through an overlay
// (tools/mkoverlay.py) and driven by check.py.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vibe-lsm/zzverif/vfs"
)

// Env is the enumeration of one property in one shard.
type Env struct {
	Prop      string
	Thorough  bool
	shard, of int64
	only      int64 // run only this case, -1 for all
	idx       int64 // next case number
	deadline  time.Time
	hb        []byte
	expired   bool

	Cases       int64
	Transitions int64
	Traces      int64
	Schedules   int64
	Bounds      []string
	Notes       map[string]int64
	Samples     []string
	states      map[uint64]struct{}
	outcomes    map[string]map[string]int64
	Violations  []Violation
	Anomalies   []string
	shape       string
}

// Violation is one failing case.
type Violation struct {
	Case    int64  `json:"case"`
	Name    string `json:"name"`
	Message string `json:"message"`
	Sig     string `json:"sig"`
	Repro   string `json:"repro"`
}

// T is a running case.
type T struct {
	e    *Env
	name string
	log  []string
}

type failure struct{ sig, msg string }

// Fail ends the case with a violation. sig identifies the kind of failure.
func (t *T) Fail(sig, format string, args ...any) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// Note adds a line to the report if the case fails.
func (t *T) Note(format string, args ...any) { t.log = append(t.log, fmt.Sprintf(format, args...)) }

// Op counts calls of the program under test.
func (t *T) Op(n int) { t.e.Transitions += int64(n) }

// Trace counts one execution compared with its reference.
func (t *T) Trace() { t.e.Traces++ }

// State counts a distinct state reached.
func (t *T) State(h uint64) {
	if len(t.e.states) < 1<<20 {
		t.e.states[h] = struct{}{}
	}
}

// Beat tells the watchdog that the case makes progress.
func (t *T) Beat() { t.e.beat() }

// Sub announces a numbered step of the case, so that a crash can be located.
func (t *T) Sub(n int) {
	binary.LittleEndian.PutUint64(t.e.hb[16:], uint64(n))
	t.e.beat()
}

func (e *Env) beat() {
	binary.LittleEndian.PutUint64(e.hb[0:], binary.LittleEndian.Uint64(e.hb[0:])+1)
}

// Bound describes a part of the space explored.
func (e *Env) Bound(format string, args ...any) {
	e.Bounds = append(e.Bounds, fmt.Sprintf(format, args...))
}

// Count adds to a named counter of the evidence.
func (e *Env) Count(name string, n int64) { e.Notes[name] += n }

// Done reports whether the enumeration should stop.
func (e *Env) Done() bool {
	if e.expired || len(e.Violations) > 0 {
		return true
	}
	if time.Now().After(e.deadline) {
		e.expired = true
	}
	return e.expired
}

// Case runs f if this shard owns the next case number. It returns false when
// the enumeration should stop.
func (e *Env) Case(name func() string, f func(t *T)) bool {
	i := e.idx
	e.idx++
	if e.only >= 0 {
		if i > e.only {
			return false
		}
		if i != e.only {
			return true
		}
	} else if int64((uint64(i)*0x9E3779B97F4A7C15>>40)%uint64(e.of)) != e.shard {
		return true
	}
	if e.Done() {
		return false
	}
	binary.LittleEndian.PutUint64(e.hb[8:], uint64(i))
	binary.LittleEndian.PutUint64(e.hb[16:], 0)
	e.beat()
	e.Cases++
	if e.only >= 0 {
		fmt.Printf("case %d: %s\n", i, name())
	}
	if len(e.Samples) < 3 && (e.Cases&(e.Cases-1)) == 0 && e.Cases > 8 {
		e.Samples = append(e.Samples, name())
	}
	fail, log := e.try(f)
	if fail == nil {
		return true
	}
	// Judge a failing case only when it fails again.
	again := 0
	for k := 0; k < 5; k++ {
		if f2, _ := e.try(f); f2 != nil {
			again++
		}
	}
	v := Violation{Case: i, Name: name(), Message: fail.msg, Sig: fail.sig, Repro: fmt.Sprintf("%d/5", again)}
	if len(log) > 0 {
		v.Message += "\n" + strings.Join(log, "\n")
	}
	if again == 0 {
		e.Anomalies = append(e.Anomalies, v.Name+": "+v.Message)
		if len(e.Anomalies) < 20 {
			return true
		}
	}
	e.Violations = append(e.Violations, v)
	fmt.Printf("FAIL case %d: %s\n%s\n", i, v.Name, v.Message)
	return false
}

func (e *Env) try(f func(t *T)) (fail *failure, log []string) {
	t := &T{e: e}
	defer func() {
		if x := recover(); x != nil {
			log = t.log
			if fl, ok := x.(failure); ok {
				fail = &fl
				return
			}
			fail = &failure{"panic", fmt.Sprintf("panic: %v\n%s", x, debug.Stack())}
		}
	}()
	vfs.Reset()
	f(t)
	return nil, nil
}

var props = map[string]func(e *Env){}

// solos answer questions about what something does in a process of its own.
var solos = map[string]func(args []int, input []byte) string{}

// solo runs the solo function of a property in a new process.
func solo(prop string, input []byte, args ...int) string {
	list := make([]string, len(args))
	for i, a := range args {
		list[i] = fmt.Sprint(a)
	}
	c := exec.Command("/proc/self/exe", "-prop", prop, "-solo", strings.Join(list, ","))
	c.Stdin = bytes.NewReader(input)
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Run(); err != nil {
		panic(failure{"alone", fmt.Sprintf("in a process of its own it ends with %v\n%s%s", err, out.String(), errs.String())})
	}
	return out.String()
}

func runSolo(prop, arg string) {
	var args []int
	for _, s := range strings.Split(arg, ",") {
		n, _ := strconv.Atoi(s)
		args = append(args, n)
	}
	input, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	vfs.Install()
	defer func() {
		if x := recover(); x != nil {
			if fl, ok := x.(failure); ok {
				fmt.Println(fl.sig, fl.msg)
				os.Exit(4)
			}
			panic(x)
		}
	}()
	os.Stdout.WriteString(solos[prop](args, input))
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func hashStr(s string) uint64 { return hash64([]byte(s)) }

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int64("shard", 0, "")
	of := flag.Int64("of", 1, "")
	only := flag.Int64("only", -1, "")
	secs := flag.Float64("deadline", 600, "")
	hbFile := flag.String("hb", "", "")
	out := flag.String("out", "", "")
	stOut := flag.String("states", "", "")
	soloArg := flag.String("solo", "", "")
	flag.Parse()
	if *soloArg != "" {
		runSolo(*prop, *soloArg)
		return
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	debug.SetPanicOnFault(false)
	e := &Env{Prop: *prop, Thorough: *tier == "thorough", shard: *shard, of: *of, only: *only,
		deadline: time.Now().Add(time.Duration(*secs * float64(time.Second))),
		Notes:    map[string]int64{}, states: map[uint64]struct{}{}, hb: make([]byte, 4096)}
	if *hbFile != "" {
		fd, err := syscall.Open(*hbFile, syscall.O_RDWR, 0)
		if err == nil {
			m, err := syscall.Mmap(fd, 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				e.hb = m
			}
		}
	}
	vfs.Install()
	runtime.GOMAXPROCS(1)
	t0 := time.Now()
	f(e)
	if *out == "" {
		fmt.Printf("cases=%d transitions=%d traces=%d states=%d expired=%v wall=%v notes=%v\n",
			e.Cases, e.Transitions, e.Traces, len(e.states), e.expired, time.Since(t0), e.Notes)
		for _, a := range e.Anomalies {
			fmt.Println("ANOMALY", a)
		}
		if len(e.Violations) > 0 {
			os.Exit(1)
		}
		return
	}
	res := map[string]any{"cases": e.Cases, "transitions": e.Transitions, "traces": e.Traces, "schedules": e.Schedules,
		"bounds": e.Bounds, "notes": e.Notes, "samples": e.Samples, "violations": e.Violations,
		"anomalies": e.Anomalies, "expired": e.expired, "outcomes": e.outcomes, "total_cases": e.idx}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *stOut != "" {
		hs := make([]uint64, 0, len(e.states))
		for h := range e.states {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		buf := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(buf[8*i:], h)
		}
		os.WriteFile(*stOut, buf, 0644)
	}
}
