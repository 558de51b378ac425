package main

import (
	"fmt"
	"math"
	"syscall"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C06: aggregates over several files see, for every ID, only the newest file
// that has it.
func init() { props["C06"] = c06 }

// refMulti is the specification: a row counts unless a newer file has its ID.
func refMulti(files [][]Block, keep func(uint64) bool) Agg {
	var a Agg
	newer := map[uint64]bool{}
	for i := len(files) - 1; i >= 0; i-- {
		rows := rowsOf(files[i])
		for _, r := range rows {
			if !newer[r.ID] && (keep == nil || keep(r.ID)) {
				a.add(r.Val)
			}
		}
		for _, r := range rows {
			newer[r.ID] = true
		}
	}
	return a
}

func openMulti(t *T, files [][]Block, encs func(i int) uint32, cache func(i int) bool) (*multicol.MultiReader, []*col.Reader) {
	var rs []*col.Reader
	for i, f := range files {
		name := fmt.Sprintf("/vfs/f%d", i)
		writeBlocks(t, name, f, encs(i), bigBlock)
		r := open(t, name)
		if cache(i) {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	return multicol.NewMultiReader(rs), rs
}

func checkMulti(t *T, mr *multicol.MultiReader, files [][]Block, f filt) {
	var keep func(uint64) bool
	if f.bm != nil {
		keep = func(id uint64) bool { return f.set[id] }
	}
	want := refMulti(files, keep)
	for _, skip := range []bool{false, true} {
		got, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: skip, Filter: f.bm})
		t.Op(1)
		if err != nil {
			t.Fail("multi-error", "MultiReader.Aggregate: %v", err)
		}
		if d := want.diff(got); d != "" {
			t.Fail("multi", "MultiReader.Aggregate(filter=%s skip=%v): %s (got %+v)", f.name, skip, d, got)
		}
	}
	t.Trace()
}

func c06(e *Env) {
	// Values of file f, row i under several schemes.
	val := func(scheme, f, i int) int64 {
		v := int64(1) << (8*f + 3*i)
		switch scheme {
		case 1:
			return -v
		case 2:
			return v * int64(1-2*((f+i)%2))
		case 3:
			return []int64{math.MaxInt64, math.MinInt64, 0, -1, 1}[(f*2+i)%5]
		}
		return v
	}
	unis := [][]uint64{{1, 2, 3, 9}, {0, 65536, 1<<64 - 1, 7}}
	// Contents of one file: every sequence of up to two rows over three IDs,
	// in one block and in two.
	type content [][]int // blocks of ID indices
	var contents []content
	contents = append(contents, nil)
	for i := 0; i < 3; i++ {
		contents = append(contents, content{{i}})
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			contents = append(contents, content{{i, j}}, content{{i}, {j}})
		}
	}
	contents = append(contents, content{{0, 1, 2}}, content{{2, 0, 1}}, content{{0, 2}, {1}}, content{{1}, {0, 2}}, content{{0}, {1}, {2}})
	small := []content{nil, {{0}}, {{1}}, {{2}}, {{0, 1}}, {{1}, {2}}, {{2, 0}}, {{0}, {0}}, {{0, 1, 2}}}
	tiny := []content{nil, {{0}}, {{1}}, {{2, 0}}, {{0, 1, 2}}}
	build := func(cs []content, uni []uint64, scheme int) [][]Block {
		var files [][]Block
		for f, c := range cs {
			var bs []Block
			i := 0
			for _, blk := range c {
				var b Block
				for _, k := range blk {
					b = append(b, Row{uni[k], val(scheme, f, i)})
					i++
				}
				bs = append(bs, b)
			}
			files = append(files, bs)
		}
		return files
	}
	maxFiles := 4
	if e.Thorough {
		maxFiles = 5
	}
	for ui, uni := range unis {
		var fs []filt
		fs = append(fs, filt{name: "nil"})
		for m := 0; m < 16; m++ {
			fs = append(fs, mkFilt(subset(uni, m), fmt.Sprint(subset(uni, m))))
		}
		for n := 0; n <= maxFiles; n++ {
			al := contents
			switch {
			case n == 3 && e.Thorough:
			case n == 3, n == 4 && e.Thorough:
				al = small
			case n >= 4:
				al = tiny
			}
			for scheme := 0; scheme < 4; scheme++ {
				one := func(s []int) bool {
					cs := make([]content, len(s))
					x := 0
					for i, k := range s {
						cs[i] = al[k]
						x = x*5 + k
					}
					files := build(cs, uni, scheme)
					cached := x % 4
					return e.Case(func() string {
						s := ""
						for i, f := range files {
							s += fmt.Sprintf("file %d: [%s] ", i, fmtBlocks(f))
						}
						return fmt.Sprintf("%scaching=%b, all filters over %v", s, cached, uni)
					}, func(t *T) {
						mr, _ := openMulti(t, files, func(i int) uint32 { return uint32(x+i+ui) % 8 }, func(i int) bool { return cached>>(i%2)&1 == 1 })
						for _, f := range fs {
							checkMulti(t, mr, files, f)
						}
						checkMulti(t, mr, files, fs[0])
						if err := mr.Close(); err != nil {
							t.Fail("close", "MultiReader.Close: %v", err)
						}
						for i := range files {
							t.State(hash64(vfs.Bytes(fmt.Sprintf("/vfs/f%d", i))[64:]) * uint64(2*i+1))
						}
					})
				}
				if n == 0 {
					if !one(nil) {
						return
					}
				} else if !seqs(n, len(al), one) {
					return
				}
			}
			e.Bound("IDs %v: every sequence of %d files, each one of %d contents of up to 3 rows in up to 3 blocks x 4 value schemes x 17 filters x full scan or not", uni, n, len(al))
		}
	}
	// Many and large files.
	for _, n := range []int{2, 3, 5, 10} {
		for _, per := range []int{10, 1000, 5000} {
			for k := 0; k < numFamilies; k++ {
				for mode := 0; mode < 4; mode++ {
					files := make([][]Block, n)
					for f := range files {
						rows := append(Block(nil), family(k, per)...)
						switch mode {
						case 0: // every file has the same IDs
						case 1: // newer files have fewer
							rows = rows[:max(1, per*(n-f)/n)]
						case 2: // older files have fewer
							rows = rows[:max(1, per*(f+1)/n)]
						case 3: // windows that overlap by half
							lo := per / (n + 1) * f
							rows = rows[lo:min(per, lo+2*per/(n+1)+1)]
						}
						for i := range rows {
							rows[i].Val = int64(f+1)*1000003 + int64(i)
							if f%2 == 1 {
								rows[i].Val = -rows[i].Val
							}
						}
						h := len(rows) / 2
						files[f] = []Block{rows}
						if h > 0 {
							files[f] = []Block{rows[:h], rows[h:]}
						}
					}
					if !e.Case(func() string { return fmt.Sprintf("%d files of %d rows, shape %d, overlap %d", n, per, k, mode) }, func(t *T) {
						mr, rs := openMulti(t, files, func(i int) uint32 { return uint32(i+k) % 8 }, func(i int) bool { return i%2 == 0 })
						var half []uint64
						for i, r := range family(k, per) {
							if i%2 == 0 {
								half = append(half, r.ID)
							}
						}
						for rep := 0; rep < 2; rep++ {
							checkMulti(t, mr, files, filt{name: "nil"})
							checkMulti(t, mr, files, mkFilt(half, "every other ID"))
							checkMulti(t, mr, files, mkFilt([]uint64{family(k, per)[per-1].ID}, "the last ID"))
							t.Beat()
						}
						_ = rs
						if err := mr.Close(); err != nil {
							t.Fail("close", "MultiReader.Close: %v", err)
						}
						t.State(hashStr(fmt.Sprint(n, per, k, mode)))
					}) {
						return
					}
				}
			}
		}
	}
	e.Bound("2, 3, 5 and 10 files of 10, 1000 and 5000 rows x %d shapes x 4 kinds of overlap", numFamilies)
	// Numbers of files up to several hundred.
	for _, n := range []int{15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300} {
		for mode := 0; mode < 5; mode++ {
			files := make([][]Block, n)
			for f := range files {
				a, b := uint64(f), uint64(f+1)
				switch mode {
				case 1: // every file has the same ID and one of its own
					a, b = 5, uint64(1000+f)
				case 2: // the oldest and the newest share an ID
					a, b = uint64(f%(n-1)), uint64(70000*(f+1))
				case 3: // in descending order
					a, b = uint64(n-f), uint64(n-f+1)
				case 4: // few different IDs
					a, b = uint64(f%7), uint64(f%5)<<40
				}
				files[f] = []Block{{{a, int64(f+1) * 1000003}}, {{b, -int64(f+1) * 7919}}}
				if f%11 == 5 && mode > 0 {
					files[f] = nil
				}
			}
			if !e.Case(func() string { return fmt.Sprintf("%d files of 2 rows, overlap %d", n, mode) }, func(t *T) {
				mr, _ := openMulti(t, files, func(i int) uint32 { return uint32(i+mode) % 8 }, func(i int) bool { return i%3 == 0 })
				for rep := 0; rep < 2; rep++ {
					checkMulti(t, mr, files, filt{name: "nil"})
					checkMulti(t, mr, files, mkFilt([]uint64{0, 1, 2, 5, uint64(n), 1 << 40}, "few IDs"))
				}
				if err := mr.Close(); err != nil {
					t.Fail("close", "MultiReader.Close: %v", err)
				}
				if vfs.Dev.OpenN != 0 {
					t.Fail("close", "%d files are open after Close", vfs.Dev.OpenN)
				}
				t.State(hashStr(fmt.Sprint(n, mode)))
			}) {
				return
			}
		}
	}
	e.Bound("15..300 files of two rows or none, 5 kinds of overlap")
	// Closing, with readers that were closed before and closes that fail.
	for n := 1; n <= 5; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for fail := 0; fail < 1<<n; fail++ {
				if fail&mask != 0 {
					continue
				}
				if !e.Case(func() string {
					return fmt.Sprintf("Close of %d files, those of %b already closed, closing those of %b fails", n, mask, fail)
				}, func(t *T) {
					files := make([][]Block, n)
					for i := range files {
						files[i] = []Block{{{uint64(i + 1), 1}}}
					}
					mr, rs := openMulti(t, files, func(i int) uint32 { return 3 }, func(i int) bool { return false })
					for i, r := range rs {
						if mask>>i&1 == 1 {
							closeReader(t, r)
						}
					}
					vfs.Dev.Decide = func(_, op int, f *vfs.File, _ int64, _ int) (vfs.Fault, bool) {
						if op == vfs.OpClose {
							for i := 0; i < n; i++ {
								if fail>>i&1 == 1 && f == vfs.Find(fmt.Sprintf("/vfs/f%d", i)) {
									return vfs.Fault{Err: syscall.EIO}, true
								}
							}
						}
						return vfs.Fault{}, false
					}
					mr.Close()
					vfs.Dev.Decide = nil
					t.Op(1)
					t.Trace()
					if vfs.Dev.OpenN != 0 {
						t.Fail("close", "%d files are open after Close", vfs.Dev.OpenN)
					}
					t.State(hashStr(fmt.Sprint("close", n, mask, fail)))
				}) {
					return
				}
			}
		}
	}
	e.Bound("closing 1..5 files, every subset already closed x every subset of the others whose closing fails")
	_ = sroar.NewBitmap
}
