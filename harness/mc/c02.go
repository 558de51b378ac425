package main

import (
	"fmt"
	"math"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C02: unfiltered aggregates, from metadata and from a full scan, equal a
// recomputation from the rows.
func init() { props["C02"] = c02 }

var aggModes = []struct {
	skip     bool
	parallel int
}{{false, 0}, {true, 0}, {false, 2}, {true, 2}, {false, 3}, {true, 3}, {false, -1}, {true, -1}, {false, 100}, {true, 100}}

func checkAllAggs(t *T, r *col.Reader, want Agg) {
	checkAgg(t, "Aggregate()", r.Aggregate(), want)
	for _, m := range aggModes {
		got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: m.skip, Parallel: m.parallel})
		checkAgg(t, fmt.Sprintf("Aggregate(skip=%v parallel=%d)", m.skip, m.parallel), got, want)
	}
}

func c02(e *Env) {
	run := func(bs []Block, enc uint32) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
			writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
			r := open(t, "/vfs/f")
			checkAllAggs(t, r, refAgg(rowsOf(bs), nil))
			closeReader(t, r)
			t.Trace()
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]) ^ uint64(enc))
		})
	}
	for _, enc := range allEnc {
		if !run(nil, enc) {
			return
		}
	}
	// Every value sequence, cut into blocks in every way.
	small := []int64{0, 1, -1, 5, math.MaxInt64, math.MinInt64 + 1, math.MinInt64, 1 << 62}
	if e.Thorough {
		small = append(small, -1<<62, 1<<32, -5, 100)
	}
	alphas := [][]int64{valAlpha, valAlpha, valAlpha, small}
	if e.Thorough {
		alphas = append(alphas, small[:8])
	}
	for i, al := range alphas {
		n := i + 1
		if !seqs(n, len(al), func(s []int) bool {
			b := make(Block, n)
			x := uint32(0)
			for i, k := range s {
				b[i] = Row{uint64(i), al[k]}
				x = x*3 + uint32(k)
			}
			return compositions(n, func(sizes []int) bool {
				if n <= 2 {
					for _, enc := range allEnc {
						if !run(cut(b, sizes), enc) {
							return false
						}
					}
					return true
				}
				x++
				return run(cut(b, sizes), x%8)
			})
		}) {
			return
		}
		e.Bound("all value sequences of length %d over %d boundary values x all cuts into blocks x 11 aggregation modes", n, len(al))
	}
	// Structured files.
	counts := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 20, 31, 33, 64, 73, 74, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025}
	pers := []int{1, 2, 255, 256, 257, 1000, 4096, 10000, 32767, 32768, 65535, 65536, 70000}
	if e.Thorough {
		counts = append(counts, 2000, 4097)
	}
	for _, n := range counts {
		for _, per := range pers {
			if n*per > 30000 && n > 2 && !(e.Thorough && n*per < 600000) {
				continue
			}
			for k := 0; k < numFamilies; k++ {
				rows := family(k, n*per)
				var bs []Block
				for i := 0; i < n; i++ {
					bs = append(bs, rows[i*per:(i+1)*per])
				}
				if !run(bs, uint32(k+n)%8) {
					return
				}
			}
		}
	}
	e.Bound("%d numbers of blocks up to %d x %d rows per block up to %d x %d shapes x 11 modes", len(counts), counts[len(counts)-1], len(pers), pers[len(pers)-1], numFamilies)
	// More blocks than a read of a megabyte of index or 16 bits can number.
	many := []int{4095, 4096, 4097, 18724, 18725, 20000, 32769, 65535, 65536, 65537, 70001}
	for i, n := range many {
		for _, k := range []int{4, 6} {
			if n > 20000 && (i+k/2)%2 == 0 && !e.Thorough {
				continue
			}
			if !e.Case(func() string { return fmt.Sprintf("%d blocks of one row, shape %d", n, k) }, func(t *T) {
				rows := family(k, n)
				bs := make([]Block, n)
				for i := range bs {
					bs[i] = rows[i : i+1]
				}
				vfs.Put("/vfs/f", encodeFile(bs, uint32(k)%8, 4096))
				r := open(t, "/vfs/f")
				t.Beat()
				checkAllAggs(t, r, refAgg(rows, nil))
				closeReader(t, r)
				t.Trace()
				t.State(hashStr(fmt.Sprint("many", n, k)))
			}) {
				return
			}
		}
	}
	e.Bound("%d numbers of blocks from %d to %d, one row each", len(many), many[0], many[len(many)-1])
	// One special row at every position of every block.
	for n := 1; n <= 9; n++ {
		for per := 1; per <= 3; per++ {
			for pos := 0; pos < n*per; pos++ {
				for _, sp := range []int64{math.MaxInt64, math.MinInt64, 1000, -1000, 0} {
					for _, base := range []int64{7, -7} {
						rows := make(Block, n*per)
						for i := range rows {
							rows[i] = Row{uint64(i), base}
						}
						rows[pos].Val = sp
						var bs []Block
						for i := 0; i < n; i++ {
							bs = append(bs, rows[i*per:(i+1)*per])
						}
						if !run(bs, uint32(pos)%8) {
							return
						}
					}
				}
			}
		}
	}
	e.Bound("one of 5 extreme values at every position of every file of 1..9 blocks x 1..3 rows, among positive and among negative values")
}
