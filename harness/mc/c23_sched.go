package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C23: objects on different files, and readers of one file, do not affect
// each other.
func init() {
	props["C23"] = c23
	solos["C23"] = func(a []int, _ []byte) string {
		b, err := json.Marshal(c23alone(a[0], a[1], a[2]))
		if err != nil {
			panic(err)
		}
		return string(b)
	}
}

// c23result is what a script does and leaves behind.
type c23result struct {
	Steps []string
	File  []byte
	Open  int
}

var c23common = []Block{{{1, 5}, {901, 6}}, {{102, -7}, {4, 1 << 35}}}

var c23files [4][]byte

// c23place makes the files the scripts read.
func c23place() {
	vfs.Reset()
	if c23files[3] == nil {
		for k := 0; k < 3; k++ {
			c23files[k] = encodeFile([]Block{scriptRows(k, 0), scriptRows(k, 1)}, []uint32{0, 3, 7}[k], 4096)
		}
		c23files[3] = encodeFile(c23common, 3, 4096)
	}
	for k := 0; k < 3; k++ {
		vfs.Put(fmt.Sprintf("/vfs/in%d", k), c23files[k])
	}
	vfs.Put("/vfs/common", append([]byte(nil), c23files[3]...))
	vfs.Put("/vfs/bad", c23files[0][:100])
}

// c23same stands, as the number of an input file, for the one path that
// several objects use one after another.
const c23same = 9

func c23path(s script, k, reads int) string {
	if reads == c23same {
		return "/vfs/same"
	}
	if s.writes {
		return fmt.Sprintf("/vfs/out%d", k)
	}
	return fmt.Sprintf("/vfs/in%d", reads)
}

func c23alone(si, k, in int) c23result {
	c23place()
	var r c23result
	s := scripts()[si]
	p := c23path(s, k, in)
	if in == c23same && !s.writes {
		vfs.Put(p, append([]byte(nil), c23files[k]...))
	}
	for _, f := range s.start(k, p) {
		r.Steps = append(r.Steps, f())
	}
	r.File = []byte(maskTime(vfs.Bytes(p)))
	r.Open = vfs.Dev.OpenN
	return r
}

// script is a sequence of calls of one object. start returns the calls, which
// describe their results.
type script struct {
	name   string
	writes bool
	start  func(k int, path string) []func() string
}

func errString(err error) string {
	if err == nil {
		return "ok"
	}
	var bf *col.BlockFullError
	if errors.As(err, &bf) {
		return fmt.Sprint("full after ", bf.ItemsWritten)
	}
	return "error"
}

// scriptRows gives the objects different rows of the same shape.
func scriptRows(k, part int) Block {
	base := int64(k*100 + part*10 + 1)
	return Block{{uint64(base + 3), -base}, {uint64(base), base * 1000003}, {uint64(base + 1), base << 33}}
}

func scripts() []script {
	wr := func(name string, enc uint32, whole bool) script {
		return script{name, true, func(k int, path string) []func() string {
			var w *col.Writer
			s := []func() string{
				func() string {
					var err error
					w, err = col.NewWriter(path, col.WithEncoding(enc))
					return errString(err)
				},
				func() string { return errString(w.WriteBlock(scriptRows(k, 0).split())) },
				func() string {
					n, err := w.EstimateBlockSize(scriptRows(k, 1).split())
					return fmt.Sprint(n, err, errString(w.WriteBlock(scriptRows(k, 1).split())))
				},
			}
			if whole {
				return append(s, func() string { return errString(w.FinalizeAndClose()) })
			}
			return append(s, func() string { return errString(w.Finalize()) }, func() string { return errString(w.Close()) })
		}}
	}
	rd := func(name string, ops ...func(k int, r *col.Reader) string) script {
		return script{name, false, func(k int, path string) []func() string {
			var r *col.Reader
			s := []func() string{func() string {
				var err error
				r, err = col.NewReader(path)
				return errString(err)
			}}
			for _, o := range ops {
				s = append(s, func() string { return o(k, r) })
			}
			return append(s, func() string { return errString(r.Close()) })
		}}
	}
	pairs := func(i uint64) func(k int, r *col.Reader) string {
		return func(k int, r *col.Reader) string {
			ids, vals, err := r.GetPairs(i)
			return fmt.Sprint(ids, vals, err)
		}
	}
	agg := func(o func(k int) col.AggregateOptions) func(k int, r *col.Reader) string {
		return func(k int, r *col.Reader) string { return aggString(r.AggregateWithOptions(o(k))) }
	}
	bitmap := func(k int, r *col.Reader) string { return bmString(r.GetGlobalIDBitmap()) }
	return []script{
		wr("writer of raw blocks", 0, false),
		wr("writer of delta blocks", 3, true),
		wr("writer of variable-length blocks", 7, true),
		{"writer of full blocks", true, func(k int, path string) []func() string {
			var w *col.Writer
			return []func() string{
				func() string {
					var err error
					w, err = col.NewWriter(path, col.WithBlockSize(256+uint32(16*k)), col.WithEncoding(4))
					return errString(err)
				},
				func() string { return errString(w.WriteBlock(family(k, 12).split())) },
				func() string { return errString(w.FinalizeAndClose()) },
			}
		}},
		{"simple writer", true, func(k int, path string) []func() string {
			var w *col.SimpleWriter
			return []func() string{
				func() string {
					var err error
					w, err = col.NewSimpleWriter(path, col.WithEncoding(uint32(3+4*k)))
					return errString(err)
				},
				func() string { return errString(w.Write(scriptRows(k, 1).split())) },
				func() string { return errString(w.Write(scriptRows(k, 0).split())) },
				func() string { return fmt.Sprint(errString(w.Close()), w.TotalItems(), w.IsClosed()) },
			}
		}},
		rd("reader of blocks", pairs(0), pairs(1), pairs(9)),
		rd("reader of aggregates", func(k int, r *col.Reader) string { return aggString(r.Aggregate()) },
			agg(func(k int) col.AggregateOptions {
				return col.AggregateOptions{Filter: bitmapOf(uint64(k*100+1), uint64(k*100+11), uint64(k*100+12))}
			}),
			agg(func(k int) col.AggregateOptions {
				return col.AggregateOptions{DenyFilter: bitmapOf(uint64(k*100+4), 901), SkipPreCalculated: true}
			})),
		rd("reader of the bitmap", func(k int, r *col.Reader) string {
			r.EnableGlobalIDBitmapCaching()
			return bitmap(k, r)
		}, bitmap, func(k int, r *col.Reader) string {
			r.DisableGlobalIDBitmapCaching()
			return bitmap(k, r)
		}),
		rd("parallel reader", agg(func(k int) col.AggregateOptions { return col.AggregateOptions{Parallel: 2} }),
			agg(func(k int) col.AggregateOptions {
				return col.AggregateOptions{Parallel: 2, Filter: bitmapOf(uint64(k*100+1), uint64(k*100+11))}
			})),
		{"multi reader", false, func(k int, path string) []func() string {
			var a, b *col.Reader
			var m *multicol.MultiReader
			return []func() string{
				func() string {
					var err, err2 error
					a, err = col.NewReader(path)
					b, err2 = col.NewReader("/vfs/common")
					m = multicol.NewMultiReader([]*col.Reader{b, a})
					return errString(err) + errString(err2)
				},
				func() string {
					r, err := m.Aggregate(multicol.AggregateOptions{})
					return fmt.Sprint(aggString(r), err)
				},
				func() string {
					r, err := m.Aggregate(multicol.AggregateOptions{Filter: bitmapOf(uint64(k*100+1), 901, 4)})
					return fmt.Sprint(aggString(r), err)
				},
				func() string { return errString(m.Close()) },
			}
		}},
		{"refused reader", false, func(k int, path string) []func() string {
			return []func() string{
				func() string { _, err := col.NewReader("/vfs/none"); return errString(err) },
				func() string { _, err := col.NewReader("/vfs/bad"); return errString(err) },
			}
		}},
	}
}

func c23(e *Env) {
	ss := scripts()
	place, path := c23place, c23path
	commonFile := encodeFile(c23common, 3, 4096)
	type solo1 struct {
		steps []string
		file  string
	}
	// What each does alone, in a process of its own.
	cache := map[string]solo1{}
	alone := func(t *T, si, k, in int) solo1 {
		key := fmt.Sprint(si, k, in)
		if s, ok := cache[key]; ok {
			return s
		}
		var r c23result
		if err := json.Unmarshal([]byte(solo("C23", nil, si, k, in)), &r); err != nil {
			panic(err)
		}
		if r.Open != 0 {
			t.Fail("handles", "%s leaves %d files open", ss[si].name, r.Open)
		}
		s := solo1{r.Steps, string(r.File)}
		cache[key] = s
		return s
	}
	n := make([]int, len(ss))
	for i, s := range ss {
		n[i] = len(s.start(0, ""))
	}
	// players are scripts with their data and, for readers, input file.
	type player struct{ s, k, in int }
	describe := func(ps []player) string {
		out := ""
		for _, p := range ps {
			out += fmt.Sprintf("%s on %s; ", ss[p.s].name, path(ss[p.s], p.k, p.in))
		}
		return out
	}
	end := func(t *T, ps []player, wants []solo1, how func() string) {
		for i, p := range ps {
			if got := maskTime(vfs.Bytes(path(ss[p.s], p.k, p.in))); got != wants[i].file {
				t.Fail("file", "%s: the file of %s differs from what it is when written alone", how(), ss[p.s].name)
			}
		}
		if vfs.Dev.OpenN != 0 {
			t.Fail("handles", "%s: %d files are left open", how(), vfs.Dev.OpenN)
		}
		if got := string(vfs.Bytes("/vfs/common")); got != string(commonFile) {
			t.Fail("file", "%s: an input file was changed", how())
		}
	}
	inTurn := func(ps []player) bool {
		return e.Case(func() string { return "in turn, every order of calls: " + describe(ps) }, func(t *T) {
			var wants []solo1
			left := make([]int, len(ps))
			total := 0
			for i, p := range ps {
				wants = append(wants, alone(t, p.s, p.k, p.in))
				left[i] = n[p.s]
				total += n[p.s]
			}
			order := make([]int, 0, total)
			var rec func()
			rec = func() {
				if len(order) == total {
					place()
					var calls [][]func() string
					at := make([]int, len(ps))
					for _, p := range ps {
						calls = append(calls, ss[p.s].start(p.k, path(ss[p.s], p.k, p.in)))
					}
					for i, o := range order {
						got := calls[o][at[o]]()
						if got != wants[o].steps[at[o]] {
							t.Fail("answer", "order of objects %v: call %d of %s (%d in all) gives %s, alone %s", order, at[o], ss[ps[o].s].name, i, got, wants[o].steps[at[o]])
						}
						at[o]++
					}
					t.Op(total)
					end(t, ps, wants, func() string { return fmt.Sprintf("order of objects %v", order) })
					t.Trace()
					t.State(hashStr(fmt.Sprint(ps, order)))
					t.Beat()
					collect()
					return
				}
				for i := range ps {
					if left[i] > 0 {
						left[i]--
						order = append(order, i)
						rec()
						order = order[:len(order)-1]
						left[i]++
					}
				}
			}
			rec()
		})
	}
	pairsOf := func(f func(ps []player) bool) bool {
		for i := range ss {
			for j := i; j < len(ss); j++ {
				if !f([]player{{i, 0, 0}, {j, 1, 1}}) {
					return false
				}
				if !ss[i].writes && !ss[j].writes && !f([]player{{i, 0, 0}, {j, 0, 0}}) {
					return false
				}
			}
		}
		return true
	}
	// One path, two files one after the other.
	for i := range ss {
		for j := range ss {
			if !e.Case(func() string { return fmt.Sprintf("one path: %s, then another file and %s", ss[i].name, ss[j].name) }, func(t *T) {
				wa, wb := alone(t, i, 0, c23same), alone(t, j, 1, c23same)
				const p = "/vfs/same"
				// inPlace: the second file is the first one rewritten; else it takes its name.
				one := func(at int, inPlace bool) {
					how := func() string {
						return fmt.Sprintf("one path; %s makes %d of its calls, another file takes the name (rewritten in place: %v), %s runs", ss[i].name, at, inPlace, ss[j].name)
					}
					place()
					if !ss[i].writes {
						vfs.Put(p, append([]byte(nil), c23files[0]...))
					}
					calls := ss[i].start(0, p)
					run := func(who script, calls []func() string, want []string, from int) {
						for x, f := range calls {
							if got := f(); got != want[from+x] {
								t.Fail("answer", "%s: call %d of %s gives %s, alone %s", how(), from+x, who.name, got, want[from+x])
							}
						}
						t.Op(len(calls))
					}
					run(ss[i], calls[:at], wa.steps, 0)
					first := vfs.Find(p)
					if first != nil && !inPlace {
						if err := vfs.Dev.Unlink(p); err != nil {
							panic(err)
						}
					}
					if !ss[j].writes {
						vfs.Put(p, append([]byte(nil), c23files[1]...))
					} else if inPlace {
						vfs.Put(p, nil)
					}
					run(ss[j], ss[j].start(1, p), wb.steps, 0)
					run(ss[i], calls[at:], wa.steps, at)
					if got := maskTime(vfs.Bytes(p)); got != wb.file {
						t.Fail("file", "%s: the second file differs from what it is when made alone", how())
					}
					if !inPlace && first != nil && maskTime(first.Data) != wa.file {
						t.Fail("file", "%s: the first file differs from what it is when made alone", how())
					}
					if vfs.Dev.OpenN != 0 {
						t.Fail("handles", "%s: %d files are left open", how(), vfs.Dev.OpenN)
					}
					t.Trace()
					t.State(hashStr(fmt.Sprint("same", i, j, at, inPlace)))
					t.Beat()
					collect()
				}
				for at := 1; at <= n[i]; at++ {
					one(at, false)
				}
				one(n[i], true)
			}) {
				return
			}
		}
	}
	e.Bound("every two of %d objects on two files that have the same name one after the other: the second file made and used after each call of the first object, or in place of its file when that is closed", len(ss))
	schedInit()
	if !pairsOf(inTurn) {
		return
	}
	e.Bound("every order of the calls of every two of %d objects on different files, and of every two readers of one file", len(ss))
	for i := range ss {
		for j := i; j < len(ss); j++ {
			for k := j; k < len(ss); k++ {
				if n[i]+n[j]+n[k] > 12 && !(e.Thorough && n[i]+n[j]+n[k] <= 13) || n[i]+n[j]+n[k] > 11 && !e.Thorough {
					continue
				}
				if !inTurn([]player{{i, 0, 0}, {j, 1, 1}, {k, 2, 2}}) {
					return
				}
			}
		}
	}
	e.Bound("every order of the calls of every three of these objects with %d calls or fewer in all", map[bool]int{false: 11, true: 13}[e.Thorough])
	if !pairsOf(func(ps []player) bool {
		bound := 2
		for _, p := range ps {
			if ss[p.s].name == "parallel reader" {
				bound--
			}
		}
		if ss[ps[0].s].writes && ss[ps[1].s].writes {
			bound--
		}
		if e.Thorough {
			bound++
		}
		return explore(e, scenario{"at the same time: " + describe(ps), func(t *T) ([]func(), func(t *T) string) {
			var wants []solo1
			for _, p := range ps {
				wants = append(wants, alone(t, p.s, p.k, p.in))
			}
			place()
			var bodies []func()
			for i, p := range ps {
				calls := ss[p.s].start(p.k, path(ss[p.s], p.k, p.in))
				bodies = append(bodies, func() {
					for j, f := range calls {
						if got := f(); got != wants[i].steps[j] {
							t.Fail("answer", "call %d of %s gives %s, alone %s", j, ss[p.s].name, got, wants[i].steps[j])
						}
					}
				})
			}
			return bodies, func(t *T) string {
				end(t, ps, wants, func() string { return "afterwards" })
				return "as alone"
			}
		}}, bound, 8)
	}) {
		return
	}
	x := 0
	if e.Thorough {
		x = 1
	}
	e.Bound("every two of these objects at the same time: all schedules at synchronization and I/O steps with up to %d preemptions (%d with two writers or a parallel aggregate, %d with two parallel aggregates), no data race", 2+x, 1+x, x)
}
