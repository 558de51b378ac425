package main

import (
	"fmt"

	"vibe-lsm/zzverif/vfs"
)

// C01: whatever is written is read back, for every encoding.
func init() { props["C01"] = c01 }

func c01(e *Env) {
	olds := map[int][]byte{}
	check := func(bs []Block, enc, target uint32, old int) func(t *T) {
		return func(t *T) {
			if old > 0 {
				// An existing, larger file is replaced.
				data := olds[old]
				if data == nil {
					data = encodeFile([]Block{family(0, old), family(1, 3), family(5, old)}, 0, 4096)
					olds[old] = data
				}
				vfs.Put("/vfs/f", append([]byte(nil), data...))
			}
			writeBlocks(t, "/vfs/f", bs, enc, target)
			r := open(t, "/vfs/f")
			checkPairs(t, r, bs)
			closeReader(t, r)
			t.Trace()
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]) ^ uint64(enc))
		}
	}
	run := func(bs []Block, enc, target uint32, old int) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d target=%d old=%d %s", enc, target, old, fmtBlocks(bs)) }, check(bs, enc, target, old))
	}
	maxID, maxVal := 3, 3
	if e.Thorough {
		maxID, maxVal = 4, 4
	}
	// Every sequence of IDs, and every sequence of values.
	for n := 1; n <= maxID; n++ {
		if !seqs(n, len(idAlpha), func(s []int) bool {
			b := make(Block, n)
			for i, k := range s {
				b[i] = Row{idAlpha[k], valAlpha[(k+i)%len(valAlpha)]}
			}
			for _, enc := range allEnc {
				if !run([]Block{b}, enc, bigBlock, 0) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	e.Bound("all ID sequences of length 1..%d over %d boundary IDs x 8 encodings", maxID, len(idAlpha))
	for n := 1; n <= maxVal; n++ {
		if !seqs(n, len(valAlpha), func(s []int) bool {
			b := make(Block, n)
			for i, k := range s {
				b[i] = Row{idAlpha[(k+3*i)%len(idAlpha)], valAlpha[k]}
			}
			for _, enc := range allEnc {
				if !run([]Block{b}, enc, bigBlock, 0) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	e.Bound("all value sequences of length 1..%d over %d boundary values x 8 encodings", maxVal, len(valAlpha))
	// Every pair of rows, in one block and in two, over an old file too.
	pairIDs, pairVals := []uint64{0, 1, 127, 128, 65536, 1 << 32, 1 << 63, 1<<64 - 1}, []int64{0, 1, -1, 63, -65, 1 << 31, 1<<63 - 1, -1 << 63}
	if e.Thorough {
		pairIDs, pairVals = idAlpha, valAlpha[len(valAlpha)-len(idAlpha):]
	}
	for _, enc := range allEnc {
		if !seqs(4, len(pairIDs), func(s []int) bool {
			b := Block{{pairIDs[s[0]], pairVals[s[2]]}, {pairIDs[s[1]], pairVals[s[3]]}}
			old := []int{1, 600, 1500}[(s[0]+s[1]+s[2]+s[3])%3]
			return run([]Block{b}, enc, bigBlock, 0) && run([]Block{b[:1], b[1:]}, enc, bigBlock, old)
		}) {
			return
		}
	}
	e.Bound("all pairs of rows over %d IDs x %d values x 8 encodings, in one block and in two over an existing larger file", len(pairIDs), len(pairVals))
	// Sizes around every boundary of the implementation.
	var sizes []int
	for n := 1; n <= 1100; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000)
	if e.Thorough {
		for n := 1101; n <= 4200; n++ {
			sizes = append(sizes, n)
		}
	}
	for _, n := range sizes {
		for k := 0; k < numFamilies; k++ {
			for _, enc := range allEnc {
				if !run([]Block{family(k, n)}, enc, bigBlock, 0) {
					return
				}
			}
		}
	}
	e.Bound("%d block sizes from 1 to %d rows (all up to 1100) x %d shapes x 8 encodings", len(sizes), 70000, numFamilies)
	// Numbers of blocks.
	counts := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 64, 73, 74, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025}
	if e.Thorough {
		counts = append(counts, 2000, 4095, 4096, 4097)
	}
	for _, n := range counts {
		for k := 0; k < numFamilies; k++ {
			for _, per := range []int{1, 3, 600} {
				if per*n > 20000 && !e.Thorough {
					continue
				}
				for _, enc := range allEnc {
					var bs []Block
					rows := family(k, n*per)
					for i := 0; i < n; i++ {
						bs = append(bs, rows[i*per:(i+1)*per])
					}
					if !run(bs, enc, bigBlock, 0) {
						return
					}
				}
			}
		}
	}
	e.Bound("%d numbers of blocks from 1 to %d x 3 block sizes x %d shapes x 8 encodings", len(counts), counts[len(counts)-1], numFamilies)
	// More blocks than 16 bits can number.
	many := []int{4095, 4096, 4097, 65535, 65536, 65537, 70001}
	for i, n := range many {
		for j, enc := range []uint32{0, 3, 7} {
			if n > 65000 && (i+j)%3 != 0 && !e.Thorough {
				continue
			}
			bs := make([]Block, n)
			if !e.Case(func() string { return fmt.Sprintf("enc=%d, %d blocks of one row", enc, n) }, func(t *T) {
				rows := family(4, n)
				for i := range bs {
					bs[i] = rows[i : i+1]
				}
				check(bs, enc, bigBlock, 0)(t)
				r := open(t, "/vfs/f")
				checkAllAggs(t, r, refAgg(rows, nil))
				bm, err := r.GetGlobalIDBitmap()
				if err != nil {
					t.Fail("bitmap", "GetGlobalIDBitmap: %v", err)
				}
				distinct := map[uint64]bool{}
				for _, row := range rows {
					distinct[row.ID] = true
					if !bm.Contains(row.ID) {
						t.Fail("bitmap", "the bitmap of %d blocks lacks ID %d", n, row.ID)
					}
				}
				if bm.GetCardinality() != len(distinct) {
					t.Fail("bitmap", "the bitmap has %d IDs, the file %d", bm.GetCardinality(), len(distinct))
				}
				closeReader(t, r)
			}) {
				return
			}
		}
	}
	e.Bound("%d numbers of blocks up to %d, one row each", len(many), many[len(many)-1])
	// Blocks of different sizes after each other, over existing files.
	for _, sz := range [][]int{{1, 300, 1}, {600, 1, 600, 1}, {255, 256, 257}, {1000, 1, 1}, {1, 1, 1000}, {507, 508, 509}} {
		for k := 0; k < numFamilies; k++ {
			for _, enc := range allEnc {
				for _, old := range []int{0, 1, 600, 5000} {
					n := 0
					for _, s := range sz {
						n += s
					}
					if !run(cut(family(k, n), sz), enc, bigBlock, old) {
						return
					}
				}
			}
		}
	}
	e.Bound("6 block size sequences x %d shapes x 8 encodings x new file or one of 3 existing files", numFamilies)
}
