package main

import (
	"fmt"
	"strings"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C05: concurrent callers of one reader get the answers they would get alone.
func init() {
	props["C05"] = c05
	solos["C05"] = func(a []int, _ []byte) string {
		bs := c05files[a[0]]
		return sharedOps(len(bs[0]))[a[1]].f(c05prepare(a[0], 0))
	}
}

var c05files = [][2][]Block{
	{{{{1, -10}, {4, 20}}, {{5, 300}, {9, -4000}}}, {{{4, 7}, {5, 1 << 40}, {70000, 3}}}},
	{{{{3, 5}, {2, -5}, {1 << 33, 6}}, {{1<<33 + 1, 8}}, {{1<<33 + 7, -9}, {8, 2}}}, {{{2, 1}}, {{8, 1 << 50}}}},
}

var c05data [2][2][]byte

// c05prepare opens the shared readers on new files.
func c05prepare(fi, cache int) *shared {
	bs := c05files[fi]
	if c05data[fi][0] == nil {
		enc := []uint32{3, 7}[fi]
		c05data[fi] = [2][]byte{encodeFile(bs[0], enc, 4096), encodeFile(bs[1], enc, 4096)}
	}
	vfs.Put("/vfs/f", c05data[fi][0])
	vfs.Put("/vfs/g", c05data[fi][1])
	ids := rowsOf(bs[0])
	c := &shared{allow: bitmapOf(ids[0].ID, ids[1].ID, ids[3].ID, 70000), deny: bitmapOf(ids[1].ID, ids[2].ID)}
	var err, err2 error
	c.r, err = col.NewReader("/vfs/f")
	c.r2, err2 = col.NewReader("/vfs/g")
	if err != nil || err2 != nil {
		panic(failure{"open", fmt.Sprintf("NewReader: %v, %v", err, err2)})
	}
	c.multi = multicol.NewMultiReader([]*col.Reader{c.r2, c.r})
	if cache > 0 {
		c.r.EnableGlobalIDBitmapCaching()
		c.r2.EnableGlobalIDBitmapCaching()
	}
	if cache > 1 {
		c.r.GetGlobalIDBitmap()
		c.r2.GetGlobalIDBitmap()
	}
	return c
}

// shared is what the callers share: a reader, a second one, filters.
type shared struct {
	r, r2       *col.Reader
	allow, deny *sroar.Bitmap
	multi       *multicol.MultiReader
}

type sharedOp struct {
	name string
	f    func(c *shared) string
}

func sharedOps(nBlocks int) []sharedOp {
	agg := func(name string, o func(c *shared) col.AggregateOptions) sharedOp {
		return sharedOp{name, func(c *shared) string { return aggString(c.r.AggregateWithOptions(o(c))) }}
	}
	multi := func(name string, m func(c *shared) *multicol.MultiReader, o func(c *shared) multicol.AggregateOptions) sharedOp {
		return sharedOp{name, func(c *shared) string {
			a, err := m(c).Aggregate(o(c))
			return fmt.Sprint(aggString(a), err)
		}}
	}
	own := func(c *shared) *multicol.MultiReader { return multicol.NewMultiReader([]*col.Reader{c.r, c.r2}) }
	ops := []sharedOp{
		agg("aggregate", func(c *shared) col.AggregateOptions { return col.AggregateOptions{} }),
		agg("full scan", func(c *shared) col.AggregateOptions { return col.AggregateOptions{SkipPreCalculated: true} }),
		agg("allow", func(c *shared) col.AggregateOptions { return col.AggregateOptions{Filter: c.allow} }),
		agg("allow and deny", func(c *shared) col.AggregateOptions {
			return col.AggregateOptions{Filter: c.allow, DenyFilter: c.deny}
		}),
		agg("deny", func(c *shared) col.AggregateOptions { return col.AggregateOptions{DenyFilter: c.deny} }),
		agg("parallel", func(c *shared) col.AggregateOptions { return col.AggregateOptions{Parallel: 2} }),
		agg("parallel full scan", func(c *shared) col.AggregateOptions {
			return col.AggregateOptions{Parallel: 2, SkipPreCalculated: true}
		}),
		agg("parallel allow", func(c *shared) col.AggregateOptions { return col.AggregateOptions{Parallel: 2, Filter: c.allow} }),
		{"bitmap", func(c *shared) string { return bmString(c.r.GetGlobalIDBitmap()) }},
		{"bitmap as filter", func(c *shared) string {
			bm, err := c.r.GetGlobalIDBitmap()
			if err != nil {
				return "error"
			}
			return aggString(c.r.AggregateWithOptions(col.AggregateOptions{Filter: bm, DenyFilter: c.deny}))
		}},
		{"caching on, bitmap", func(c *shared) string {
			c.r.EnableGlobalIDBitmapCaching()
			return bmString(c.r.GetGlobalIDBitmap())
		}},
		{"caching off, bitmap", func(c *shared) string {
			c.r.DisableGlobalIDBitmapCaching()
			return bmString(c.r.GetGlobalIDBitmap())
		}},
		{"matching blocks", func(c *shared) string {
			return fmt.Sprint(c.r.FilteredBlockIterator(c.allow, nil), c.r.FilteredBlockIterator(nil, c.deny))
		}},
		{"info", func(c *shared) string {
			return fmt.Sprint(c.r.DebugInfo(), c.r.BlockCount(), c.r.EncodingType(), c.r.Version(), c.r.IsDeltaEncoded(), c.r.IsVarIntEncoded())
		}},
		multi("own multi", own, func(c *shared) multicol.AggregateOptions { return multicol.AggregateOptions{} }),
		multi("own multi, filter", own, func(c *shared) multicol.AggregateOptions {
			return multicol.AggregateOptions{Filter: c.allow, SkipPreCalculated: true}
		}),
		multi("reversed multi", func(c *shared) *multicol.MultiReader {
			return multicol.NewMultiReader([]*col.Reader{c.r2, c.r})
		}, func(c *shared) multicol.AggregateOptions { return multicol.AggregateOptions{} }),
		multi("shared multi", func(c *shared) *multicol.MultiReader { return c.multi }, func(c *shared) multicol.AggregateOptions {
			return multicol.AggregateOptions{Filter: c.allow}
		}),
	}
	for i := 0; i < nBlocks; i++ {
		ops = append(ops, sharedOp{fmt.Sprintf("block %d", i), func(c *shared) string {
			ids, vals, err := c.r.GetPairs(uint64(i))
			if err != nil {
				return "error"
			}
			return fmt.Sprint(ids, vals)
		}})
	}
	return append(ops, sharedOp{"no such block", func(c *shared) string {
		_, _, err := c.r.GetPairs(uint64(nBlocks))
		return fmt.Sprint(err != nil)
	}})
}

func c05(e *Env) {
	cacheModes := []string{"off", "on", "on and filled"}
	for fi, bs := range c05files {
		ops := sharedOps(len(bs[0]))
		ids := rowsOf(bs[0])
		// What each operation gives alone, in a process of its own.
		var want []string
		alone := func() {
			for k := range ops {
				if len(want) < len(ops) {
					want = append(want, solo("C05", nil, fi, k))
				}
			}
		}
		// run explores the callers, each with its sequence of operations.
		run := func(cache int, callers [][]int, bound, parts int) bool {
			name := fmt.Sprintf("file %d, caching %s:", fi, cacheModes[cache])
			for i, c := range callers {
				name += fmt.Sprintf(" caller %d:", i+1)
				for _, k := range c {
					name += " " + ops[k].name + ";"
				}
			}
			return explore(e, scenario{name, func(t *T) ([]func(), func(t *T) string) {
				alone()
				vfs.Reset()
				c := c05prepare(fi, cache)
				var bodies []func()
				for i, seq := range callers {
					bodies = append(bodies, func() {
						for _, k := range seq {
							if got := ops[k].f(c); got != want[k] {
								t.Fail("answer", "caller %d, %s: got %s, alone it gets %s", i+1, ops[k].name, got, want[k])
							}
						}
					})
				}
				return bodies, func(t *T) string {
					for k, o := range ops {
						if execCount%16 != 0 && k != 0 && o.name != "bitmap" {
							continue
						}
						if got := o.f(c); got != want[k] {
							t.Fail("answer", "afterwards, %s: got %s, alone it is %s", o.name, got, want[k])
						}
					}
					if bm := fmt.Sprint(c.allow.ToArray(), c.deny.ToArray()); bm != fmt.Sprint(bitmapOf(ids[0].ID, ids[1].ID, ids[3].ID, 70000).ToArray(), bitmapOf(ids[1].ID, ids[2].ID).ToArray()) {
						t.Fail("filter", "the shared filters are %s", bm)
					}
					c.r.Close()
					c.r2.Close()
					return "as alone"
				}
			}}, bound, parts)
		}
		bound := 2
		if e.Thorough {
			bound = 3
		}
		for cache := range cacheModes {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					b := bound
					if fi == 1 || strings.HasPrefix(ops[i].name, "parallel") || strings.HasPrefix(ops[j].name, "parallel") {
						b--
					}
					if !run(cache, [][]int{{i}, {j}}, b, 1) {
						return
					}
				}
			}
			e.Bound("file %d (%d blocks), caching %s: every pair of %d operations, all schedules with up to %d preemptions (%d with a parallel aggregate)", fi, len(bs[0]), cacheModes[cache], len(ops), bound-fi, bound-1)
		}
		// Callers of several operations each, around the cached bitmap.
		var bmOps []int
		for k, o := range ops {
			switch o.name {
			case "bitmap", "bitmap as filter", "caching on, bitmap", "caching off, bitmap", "own multi", "deny", "block 1":
				bmOps = append(bmOps, k)
			}
		}
		if fi == 0 {
			for cache := range cacheModes {
				for _, a := range bmOps {
					for _, b := range bmOps {
						for _, c := range bmOps {
							if !run(cache, [][]int{{a, b}, {c}}, bound-1, 1) {
								return
							}
							if a <= b && b <= c && !run(cache, [][]int{{a}, {b}, {c}}, bound-1, 1) {
								return
							}
						}
					}
				}
			}
			e.Bound("%d operations around the cached bitmap: every two after each other against one, and every three at once, %d preemptions", len(bmOps), bound-1)
		}
		if e.Thorough {
			for cache := range cacheModes {
				for i := range ops {
					for j := i; j < len(ops); j++ {
						for k := j; k < len(ops); k++ {
							if !run(cache, [][]int{{i}, {j}, {k}}, 1, 1) {
								return
							}
						}
					}
				}
			}
			e.Bound("file %d: every three of %d operations at once, 1 preemption", fi, len(ops))
		}
	}
}
