package main

import (
	"fmt"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C08: block size target, exact partial writes, exact estimates.
func init() { props["C08"] = c08 }

// paddedSize is the size of a block holding rows when it starts at pos.
func paddedSize(pos int, b Block, enc uint32) int {
	i, v := sectionSizes(b, enc)
	return pageAlign(pos+80+i+v) - pos
}

// prefixSizes returns the padded size of every prefix (index 1..n).
func prefixSizes(pos int, b Block, enc uint32) []int {
	idD, idV, vD, vV, _ := encFlags(enc)
	out := make([]int, len(b)+1)
	n := 80
	for i, r := range b {
		id, v := r.ID, uint64(r.Val)
		if i > 0 {
			if idD {
				id -= b[i-1].ID
			}
			if vD {
				v -= uint64(b[i-1].Val)
			}
		}
		n += len(encodeSection([]uint64{id}, false, idV, false)) + len(encodeSection([]uint64{v}, false, vV, true))
		out[i+1] = pageAlign(pos+n) - pos
	}
	return out
}

func c08(e *Env) {
	// runN stops each write after at most `blocks` blocks.
	runN := func(writes []Block, enc, target uint32, useDefault bool, blocks int) bool {
		return e.Case(func() string {
			return fmt.Sprintf("enc=%d target=%d default=%v first %d blocks of writes: %s", enc, target, useDefault, blocks, fmtBlocks(writes))
		}, func(t *T) {
			opts := []col.WriterOption{col.WithEncoding(enc)}
			if !useDefault {
				opts = append(opts, col.WithBlockSize(target))
			}
			w, err := col.NewWriter("/vfs/f", opts...)
			if err != nil {
				t.Fail("create", "NewWriter: %v", err)
			}
			pos := 64
			var bs []Block
			for _, b := range writes {
				for k := 0; len(b) > 0 && k < blocks; k++ {
					t.Beat()
					ids, vals := b.split()
					sizes := prefixSizes(pos, b, enc)
					est, err := w.EstimateBlockSize(ids, vals)
					t.Op(2)
					if err != nil || est != uint64(sizes[len(b)]) {
						t.Fail("estimate", "EstimateBlockSize of %d rows at %d is %d, %v, expected %d", len(b), pos, est, err, sizes[len(b)])
					}
					n := len(b)
					if sizes[n] > int(target) && n > 1 {
						n = 1
						for i := 1; i < len(b); i++ {
							if sizes[i] <= int(target) {
								n = i
							} else {
								break
							}
						}
					}
					err = w.WriteBlock(ids, vals)
					if n == len(b) {
						if err != nil {
							t.Fail("writeblock", "WriteBlock of %d rows at %d: %v, expected success", len(b), pos, err)
						}
					} else {
						bf, ok := err.(*col.BlockFullError)
						if !ok {
							t.Fail("writeblock", "WriteBlock of %d rows at %d: %v, expected a full block with %d rows", len(b), pos, err, n)
						}
						if bf.ItemsWritten != n {
							t.Fail("writeblock", "WriteBlock of %d rows at %d wrote %d, expected %d", len(b), pos, bf.ItemsWritten, n)
						}
					}
					if got := len(vfs.Bytes("/vfs/f")) - pos; got != sizes[n] {
						t.Fail("size", "block of %d rows at %d takes %d bytes, expected %d", n, pos, got, sizes[n])
					}
					pos += sizes[n]
					bs = append(bs, b[:n])
					b = b[n:]
				}
			}
			if err := w.FinalizeAndClose(); err != nil {
				t.Fail("finalize", "FinalizeAndClose: %v", err)
			}
			if d := conforms(vfs.Bytes("/vfs/f"), bs, enc, target); d != "" {
				t.Fail("contents", "%s", d)
			}
			r := open(t, "/vfs/f")
			checkPairs(t, r, bs)
			closeReader(t, r)
			t.Trace()
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
		})
	}
	run := func(writes []Block, enc, target uint32, useDefault bool) bool {
		return runN(writes, enc, target, useDefault, 1<<30)
	}
	targets := []uint32{0, 1, 80, 4031, 4032, 4095, 4096, 4097, 8191, 8192, 12288}
	// Rows that fill a page exactly, with one byte or row more or less.
	ns := []int{1, 2, 3, 100, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 760}
	if e.Thorough {
		ns = nil
		for n := 1; n <= 1100; n += 1 {
			ns = append(ns, n)
		}
	}
	for _, n := range ns {
		for k := 0; k < numFamilies; k++ {
			for _, enc := range allEnc {
				for ti, target := range targets {
					if n > 300 && target < 4000 || n > 300 && !e.Thorough && ti%2 == 0 || e.Thorough && (n+ti+k)%4 > 0 && n > 300 {
						continue
					}
					if target < 4000 && n > 3 {
						continue
					}
					if !run([]Block{family(k, n)}, enc, target, false) {
						return
					}
				}
			}
		}
	}
	e.Bound("%d batch sizes up to %d x %d shapes x 8 encodings x up to %d targets, written until nothing is left", len(ns), ns[len(ns)-1], numFamilies, len(targets))
	// Variable-width rows: block ends at every byte position around a page.
	for extra := 0; extra < 40; extra++ {
		for _, enc := range []uint32{4, 5, 6, 7} {
			b := make(Block, 0, 600)
			// one-byte deltas and values, then `extra` rows with longer ones
			for i := 0; i < 560; i++ {
				b = append(b, Row{uint64(i), int64(i % 60)})
			}
			for i := 0; i < extra; i++ {
				b = append(b, Row{uint64(1000 + i*200), int64(i) * 5000})
			}
			for _, cutAt := range []int{0, 10, 100, 101, 102} {
				if !run([]Block{b[cutAt:]}, enc, 4096, false) || !run([]Block{b[:3], b[cutAt:]}, enc, 4096, false) {
					return
				}
			}
		}
	}
	e.Bound("variable-width blocks whose data ends at each of 40 offsets around a page boundary, as first and as second block")
	// Histories of writes.
	al := []int{1, 2, 247, 248, 251, 252, 300}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	for n := 2; n <= depth; n++ {
		if !seqs(n, len(al), func(s []int) bool {
			total, x := 0, 0
			for _, k := range s {
				total += al[k]
				x = x*3 + k
			}
			var sz []int
			for _, k := range s {
				sz = append(sz, al[k])
			}
			return run(cut(family(x%numFamilies, total), sz), uint32(x)%8, []uint32{4096, 8192}[x%2], false)
		}) {
			return
		}
	}
	e.Bound("every sequence of 2..%d writes of %v rows", depth, al)
	// Blocks that end exactly at the target, one row before and after it, as
	// the first to the seventh block of a file, after small and full blocks.
	for _, enc := range allEnc {
		for _, target := range []uint32{4096, 8192, 20480, 65536} {
			// the rows of fixed size 16 that fill a block that starts at 64
			// or at a page
			first, later := (int(target)-80)/16, (int(target)-80)/16
			for before := 0; before < 7; before++ {
				for d := -2; d <= 2; d++ {
					for _, full := range []bool{false, true} {
						if full && (target > 20480 || before == 0) && !e.Thorough {
							continue
						}
						var writes []Block
						x := 0
						add := func(n int) {
							b := make(Block, n)
							for i := range b {
								x++
								b[i] = Row{uint64(x), int64(x % 50)}
							}
							writes = append(writes, b)
						}
						for i := 0; i < before; i++ {
							if full {
								add(first)
							} else {
								add(1 + i%2)
							}
						}
						add(later + d)
						if !run(writes, enc, target, false) {
							return
						}
						if before == 0 {
							add(later + d)
							if !run(writes[1:], enc, target, false) {
								return
							}
						}
					}
				}
			}
		}
	}
	e.Bound("blocks of the capacity and up to 2 rows more or less, as the 1st to 7th block after small or full blocks x 8 encodings x targets of 1, 2, 5 and 16 pages")
	// The default target.
	for _, n := range []int{1000, 1010, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1100} {
		for k := 0; k < numFamilies; k++ {
			if !run([]Block{family(k, n)}, []uint32{0, 3, 1}[n%3], 16384, true) {
				return
			}
		}
	}
	e.Bound("default target, 10 batch sizes around its capacity x %d shapes", numFamilies)
	// Batches much larger than the target: the first blocks of them.
	large := []int{16384, 32767, 32768, 65535, 65536, 65537, 70000, 131073}
	for _, n := range large {
		for _, k := range []int{0, 3, 5} {
			for _, enc := range allEnc {
				for _, target := range []uint32{4096, 16384, 65536} {
					if target > 16384 && (enc > 3 || n != 65536) && !e.Thorough {
						continue // the time is quadratic in the rows of a block
					}
					if !runN([]Block{family(k, n)}, enc, target, false, 2) {
						return
					}
				}
			}
		}
	}
	e.Bound("the first two blocks of batches of %v rows x 3 shapes x encodings x targets of 4096, 16384 and 65536 bytes", large)
	// The blocks of the simple writer keep to its target.
	simple := func(k, n, per int, enc uint32, set []int, opt uint32) bool {
		return e.Case(func() string {
			return fmt.Sprintf("SimpleWriter enc=%d, target set to %v (option %d), each time %d rows of shape %d in calls of %d", enc, set, opt, n, k, per)
		}, func(t *T) {
			opts := []col.WriterOption{col.WithEncoding(enc)}
			target := 16384
			if opt > 0 {
				opts, target = append(opts, col.WithBlockSize(opt)), int(opt)
			}
			w, err := col.NewSimpleWriter("/vfs/f", opts...)
			if err != nil {
				t.Fail("create", "NewSimpleWriter: %v", err)
			}
			// Rows may wait for their block, so that a target set later may
			// apply to them, but not one that was replaced before.
			for i, x := range set {
				if err := w.SetTargetBlockSize(x); err != nil {
					t.Fail("settarget", "SetTargetBlockSize: %v", err)
				}
				target = x
				rows := family(k, n)
				for a := range rows {
					rows[a].ID = uint64(i)<<40 | rows[a].ID&(1<<40-1)
				}
				for a := 0; a < n; a += per {
					ids, vals := rows[a:min(n, a+per)].split()
					if err := w.Write(ids, vals); err != nil {
						t.Fail("write", "Write: %v", err)
					}
					t.Op(1)
				}
			}
			if err := w.Close(); err != nil {
				t.Fail("close", "Close: %v", err)
			}
			r := open(t, "/vfs/f")
			pos, total := 64, 0
			for i, b := range readBlocks(t, r) {
				size := paddedSize(pos, b, enc)
				target := target
				for _, x := range b {
					for _, y := range set[x.ID>>40:] {
						target = max(target, y)
					}
				}
				if size > target && len(b) > 1 {
					t.Fail("simple", "block %d of %d rows at %d takes %d bytes, the target is %d", i, len(b), pos, size, target)
				}
				pos += size
				total += len(b)
			}
			if total != n*len(set) {
				t.Fail("simple", "%d rows of %d", total, n*len(set))
			}
			closeReader(t, r)
			t.Trace()
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
		})
	}
	for _, n := range []int{1, 10, 246, 247, 248, 600, 999, 1000, 1001, 2500} {
		for _, per := range []int{1, 300, 1000, 3000} {
			if per == 1 && n > 600 || per >= 2*n {
				continue
			}
			for k := 0; k < numFamilies; k++ {
				for _, enc := range allEnc {
					for j, set := range [][]int{{4096}, {8192}, {20480}, {131072}, {4096, 8192}, {8192, 4096}, {4096, 4096}, {1}} {
						if set[0] == 1 && n > 300 || (j+k+int(enc))%2 == 1 && !e.Thorough {
							continue
						}
						if !simple(k, n, per, enc, set, []uint32{0, 4096, 32768}[(k+j)%3]) {
							return
						}
					}
				}
			}
		}
	}
	for _, enc := range []uint32{0, 3} {
		if !simple(0, 20000, 20000, enc, []int{131072}, 262144) || !simple(0, 20000, 20000, enc, []int{262144, 131072}, 0) {
			return
		}
	}
	e.Bound("simple writer: 10 numbers of rows up to 2500 x calls of 1, 300, 1000 and all rows x %d shapes x 8 encodings x up to two targets from 1 to 131072 bytes", numFamilies)
}
