package main

import (
	"fmt"
	"math"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C17: which parts of a file a query reads.
func init() { props["C17"] = c17 }

// blocksRead tells which blocks of the file were touched by the recorded reads.
func blocksRead(rg []blockRange, ino int) map[int]bool {
	out := map[int]bool{}
	for _, r := range vfs.Dev.Log {
		if r.Kind != vfs.OpRead || r.File != ino {
			continue
		}
		for i, b := range rg {
			if r.Off < b.to && r.Off+int64(r.N) > b.from {
				out[i] = true
			}
		}
	}
	return out
}

func c17(e *Env) {
	run := func(bs []Block, enc uint32, filters [][]uint64) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
			writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
			ranges := blockRanges(vfs.Bytes("/vfs/f"))
			ino := vfs.Find("/vfs/f").Ino
			vfs.Dev.LogReads = true
			expect := func(what string, allowed func(i int) bool, needed func(i int) bool) {
				t.Op(1)
				t.Trace()
				got := blocksRead(ranges, ino)
				for i := range bs {
					if got[i] && !allowed(i) {
						t.Fail("io", "%s reads block %d", what, i)
					}
					if needed != nil && needed(i) && !got[i] {
						t.Fail("io", "%s does not read block %d", what, i)
					}
				}
				t.e.Count("reads observed", int64(len(vfs.Dev.Log)))
				vfs.Dev.Log = vfs.Dev.Log[:0]
			}
			none := func(int) bool { return false }
			vfs.Dev.Log = vfs.Dev.Log[:0]
			r := open(t, "/vfs/f")
			expect("opening", none, nil)
			r.BlockCount()
			r.DebugInfo()
			r.EncodingType()
			expect("asking for file information", none, nil)
			r.Aggregate()
			expect("Aggregate", none, nil)
			for _, w := range []int{-1, 1, 2, 3, len(bs), len(bs) + 1} {
				r.AggregateWithOptions(col.AggregateOptions{Parallel: w})
				expect(fmt.Sprintf("aggregate from statistics with %d workers", w), none, nil)
			}
			for k := 0; k < 3; k++ {
				if k == 1 {
					r.EnableGlobalIDBitmapCaching()
				}
				getBitmap(t, r)
				expect("GetGlobalIDBitmap", none, nil)
			}
			for i := range bs {
				if _, _, err := r.GetPairs(uint64(i)); err != nil {
					t.Fail("getpairs", "GetPairs(%d): %v", i, err)
				}
				expect(fmt.Sprintf("GetPairs(%d)", i), func(j int) bool { return j == i }, func(j int) bool { return j == i })
			}
			for _, i := range []uint64{uint64(len(bs)), 1 << 40, math.MaxUint64} {
				r.GetPairs(i)
				expect(fmt.Sprintf("GetPairs(%d)", i), none, nil)
			}
			for _, f := range filters {
				lo, hi := uint64(math.MaxUint64), uint64(0)
				for _, id := range f {
					lo, hi = min(lo, id), max(hi, id)
				}
				overlap := func(i int) bool {
					if len(f) == 0 {
						return true // an empty list has no range
					}
					bl, bh := uint64(math.MaxUint64), uint64(0)
					for _, row := range bs[i] {
						bl, bh = min(bl, row.ID), max(bh, row.ID)
					}
					return bl <= hi && bh >= lo
				}
				match := func(i int) bool {
					for _, row := range bs[i] {
						for _, id := range f {
							if row.ID == id {
								return true
							}
						}
					}
					return false
				}
				r.FilteredBlockIterator(bitmapOf(f...), nil)
				expect("FilteredBlockIterator", none, nil)
				for _, full := range []bool{false, true} {
					for _, w := range []int{0, 2, 3, -1} {
						for _, deny := range [][]uint64{nil, {1 << 50}} {
							o := col.AggregateOptions{Filter: bitmapOf(f...), Parallel: w, SkipPreCalculated: full}
							if deny != nil {
								o.DenyFilter = bitmapOf(deny...)
							}
							r.AggregateWithOptions(o)
							expect(fmt.Sprintf("aggregate with allow list %v, deny list %v, %d workers", f, deny, w), overlap, match)
						}
					}
					if _, err := multicol.NewMultiReader([]*col.Reader{r}).Aggregate(multicol.AggregateOptions{Filter: bitmapOf(f...), SkipPreCalculated: full}); err != nil {
						t.Fail("multi", "%v", err)
					}
					expect(fmt.Sprintf("multi-file aggregate with allow list %v", f), overlap, match)
				}
			}
			all := func(int) bool { return true }
			r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
			expect("full scan", all, all)
			r.AggregateWithOptions(col.AggregateOptions{DenyFilter: sroar.NewBitmap(), Parallel: 2})
			expect("empty deny list", all, all)
			closeReader(t, r)
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
		})
	}
	ids := []uint64{1, 2, 70000, 1 << 40}
	n := 4
	if e.Thorough {
		ids = append(ids, 65535, math.MaxUint64)
		n = 5
	}
	var filters [][]uint64
	for m := 0; m < 1<<len(ids); m++ {
		filters = append(filters, subset(ids, m))
	}
	filters = append(filters, []uint64{0}, []uint64{3}, []uint64{69999, 70001}, []uint64{1<<40 + 1}, []uint64{math.MaxUint64})
	for k := 0; k <= n; k++ {
		if k == 0 {
			for _, enc := range allEnc {
				if !run(nil, enc, filters) {
					return
				}
			}
			continue
		}
		x := uint32(0)
		if !seqs(k, len(ids), func(s []int) bool {
			rows := make(Block, k)
			for i, j := range s {
				rows[i] = Row{ids[j], int64(i + 1)}
			}
			return compositions(k, func(sizes []int) bool {
				x++
				if e.Thorough && k == 5 && x%3 > 0 {
					return true
				}
				return run(cut(rows, sizes), x%8, filters)
			})
		}) {
			return
		}
	}
	e.Bound("every sequence of up to %d IDs out of %v, every cut into blocks, %d allow lists with and without deny list, full scan, workers 0, 2, 3, GOMAXPROCS, multi-file: every read of the device", n, ids, len(filters))
	// Larger files, blocks of several pages, block index over several pages.
	for _, nb := range []int{5, 20, 80, 160} {
		for k := 0; k < numFamilies; k++ {
			rows := family(k, nb*3)
			var sz []int
			for i := 0; i < nb; i++ {
				sz = append(sz, 3)
			}
			f := [][]uint64{{rows[0].ID}, {rows[nb].ID, rows[nb+1].ID}, {rows[len(rows)-1].ID}}
			if !run(cut(rows, sz), uint32(k), f) {
				return
			}
		}
	}
	for k := 0; k < numFamilies; k++ {
		rows := family(k, 1500)
		if !run(cut(rows, []int{700, 100, 600, 100}), uint32(k), [][]uint64{{rows[0].ID}, {rows[750].ID}, {rows[1499].ID}}) {
			return
		}
	}
	e.Bound("files of 5..160 blocks and blocks of several pages, 8 shapes")
}
