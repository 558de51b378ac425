package main

import (
	"fmt"
	"runtime"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C04: a parallel aggregate equals the sequential one under every schedule
// and for every number of workers.
func init() { props["C04"] = c04 }

// c04same compares with the sequential answer, to the last digit. The minimum
// and maximum of nothing are not specified.
func c04same(got, seq col.AggregateResult) string {
	if got.Count == 0 {
		got.Min, got.Max, seq.Min, seq.Max = 0, 0, 0, 0
	}
	if got != seq {
		return fmt.Sprintf("%+v, the sequential answer is %+v", got, seq)
	}
	return ""
}

func c04(e *Env) {
	// Every schedule of a few workers.
	type mode struct {
		name        string
		full        bool
		allow, deny func(ids []uint64) []uint64
	}
	every := func(ids []uint64) []uint64 { return ids }
	part := func(ids []uint64) []uint64 {
		var out []uint64
		for i, id := range ids {
			if i%3 != 1 {
				out = append(out, id)
			}
		}
		return out
	}
	last := func(ids []uint64) []uint64 { return ids[len(ids)-1:] }
	modes := []mode{
		{"statistics", false, nil, nil}, {"full scan", true, nil, nil}, {"allow some", false, part, nil},
		{"allow the last", true, last, nil}, {"deny some", false, nil, part}, {"deny all", true, nil, every}, {"allow all deny the last", false, every, last},
	}
	// Blocks whose aggregates tell apart every way of merging them wrongly:
	// only negative values, only positive values, extremes.
	kinds := []func(i, n int) Block{
		func(i, n int) Block {
			return Block{{uint64(2*i + 1), -int64(i + 1)}, {uint64(2*i + 2), -int64(10*i + 5)}}
		},
		func(i, n int) Block {
			return Block{{uint64(2*i + 1), int64(n-i) * 100}, {uint64(2*i + 2), int64((n-i)*(n-i)*7919 - i)}}
		},
	}
	for _, cfg := range []struct{ workers, blocks, bound, parts int }{{2, 2, 4, 8}, {2, 3, 3, 8}, {3, 3, 2, 16}, {2, 4, 3, 8}, {3, 4, 2, 16}, {3, 5, 2, 16}, {4, 4, 2, 16}, {4, 9, 1, 8}, {5, 7, 1, 8}} {
		bound := cfg.bound
		if e.Thorough {
			bound++
		}
		for mi, m := range modes {
			for ki, kind := range kinds {
				if !e.Thorough && (mi+ki)%2 == 1 && m.name != "full scan" {
					continue
				}
				var bs []Block
				for i := 0; i < cfg.blocks; i++ {
					bs = append(bs, kind(i, cfg.blocks))
				}
				var ids []uint64
				for _, r := range rowsOf(bs) {
					ids = append(ids, r.ID)
				}
				keep := func(id uint64) bool { return true }
				var allow, deny []uint64
				in := func(xs []uint64, x uint64) bool {
					for _, y := range xs {
						if x == y {
							return true
						}
					}
					return false
				}
				if m.allow != nil {
					allow = m.allow(ids)
				}
				if m.deny != nil {
					deny = m.deny(ids)
				}
				keep = func(id uint64) bool { return (m.allow == nil || in(allow, id)) && !in(deny, id) }
				want := refAgg(rowsOf(bs), keep)
				data := encodeFile(bs, 3, 4096)
				var seq *col.AggregateResult
				if !explore(e, scenario{fmt.Sprintf("%d workers, %d blocks, %s, values %d", cfg.workers, cfg.blocks, m.name, ki), func(t *T) ([]func(), func(t *T) string) {
					vfs.Put("/vfs/f", data)
					r := open(t, "/vfs/f")
					var got col.AggregateResult
					opts := col.AggregateOptions{SkipPreCalculated: m.full, Parallel: cfg.workers}
					if m.allow != nil {
						opts.Filter = bitmapOf(allow...)
					}
					if m.deny != nil {
						opts.DenyFilter = bitmapOf(deny...)
					}
					if seq == nil {
						o := opts
						o.Parallel = 0
						s := r.AggregateWithOptions(o)
						seq = &s
					}
					return []func(){func() { got = r.AggregateWithOptions(opts) }}, func(t *T) string {
						if d := want.diff(got); d != "" {
							t.Fail("aggregate", "parallel aggregate: %s", d)
						}
						if d := c04same(got, *seq); d != "" {
							t.Fail("aggregate", "parallel aggregate: %s", d)
						}
						r.Close()
						return fmt.Sprintf("%+v", got)
					}
				}}, bound, cfg.parts) {
					return
				}
			}
		}
	}
	x := 0
	if e.Thorough {
		x = 1
	}
	e.Bound("all schedules with up to b preemptions at synchronization and I/O steps for (workers, blocks, b) in (2,2,%d) (2,3,%d) (3,3,%d) (2,4,%d) (3,4,%d) (3,5,%d) (4,4,%d) (4,9,%d) (5,7,%d) x 7 modes x values; without data races", 4+x, 3+x, 2+x, 3+x, 2+x, 2+x, 2+x, 1+x, 1+x)

	// Every worker count around every block count.
	counts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	for _, n := range counts {
		bs := make([]Block, n)
		for i := range bs {
			bs[i] = kinds[i&1](i, n)
		}
		var data []byte
		workers := map[int]bool{-1: true, -2: true, 0: true, 1 << 20: true}
		for w := 1; w <= min(n+2, 34); w++ {
			workers[w] = true
		}
		for _, w := range []int{n/3 - 1, n / 3, n/3 + 1, n/2 - 1, n / 2, n/2 + 1, n - 2, n - 1, n, n + 1, n + 2, 2*n - 1, 2 * n, 2*n + 1} {
			if w > 0 {
				workers[w] = true
			}
		}
		for mi, m := range modes {
			if !e.Case(func() string { return fmt.Sprintf("%d blocks, every number of workers, %s", n, m.name) }, func(t *T) {
				schedInit()
				if data == nil {
					data = encodeFile(bs, 3, 4096)
				}
				vfs.Put("/vfs/f", data)
				r := open(t, "/vfs/f")
				var ids []uint64
				for _, row := range rowsOf(bs) {
					ids = append(ids, row.ID)
				}
				if len(ids) == 0 {
					ids = []uint64{4}
				}
				set := map[uint64]int{}
				opts := col.AggregateOptions{SkipPreCalculated: m.full}
				if m.allow != nil {
					a := m.allow(ids)
					opts.Filter = bitmapOf(a...)
					for _, id := range a {
						set[id] |= 1
					}
				}
				if m.deny != nil {
					d := m.deny(ids)
					opts.DenyFilter = bitmapOf(d...)
					for _, id := range d {
						set[id] |= 2
					}
				}
				want := refAgg(rowsOf(bs), func(id uint64) bool { return (m.allow == nil || set[id]&1 != 0) && set[id]&2 == 0 })
				defer runtime.GOMAXPROCS(1)
				races := runtime.RaceErrors()
				opts.Parallel = 0
				seq := r.AggregateWithOptions(opts)
				checkAgg(t, "sequential", seq, want)
				for _, procs := range []int{1, 3} {
					runtime.GOMAXPROCS(procs)
					for w := range workers {
						opts.Parallel = w
						got := r.AggregateWithOptions(opts)
						checkAgg(t, fmt.Sprintf("%d workers", w), got, want)
						if d := c04same(got, seq); d != "" {
							t.Fail("aggregate", "%d workers: %s", w, d)
						}
						if n := runtime.RaceErrors(); n > races {
							t.Fail("race", "data race with %d workers", w)
						}
						t.Trace()
						t.State(hashStr(fmt.Sprint(n, mi, w, procs)))
						t.Beat()
					}
				}
				runtime.GOMAXPROCS(1)
				closeReader(t, r)
				collect()
			}) {
				return
			}
		}
	}
	e.Bound("%d block counts up to 300 x every number of workers up to 34 and around the block count, negative and very large, x 7 modes, each under one schedule with 1 and 3 processors", len(counts))
}
