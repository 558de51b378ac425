package main

import (
	"fmt"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C03: filtered aggregates count exactly the rows that are allowed and not
// denied, and the block iterator never drops a block holding such a row.
func init() { props["C03"] = c03 }

func subset(uni []uint64, m int) []uint64 {
	var out []uint64
	for i, id := range uni {
		if m>>i&1 == 1 {
			out = append(out, id)
		}
	}
	return out
}

func member(ids []uint64) map[uint64]bool {
	m := make(map[uint64]bool, len(ids))
	for _, id := range ids {
		m[id] = true
	}
	return m
}

type filt struct {
	bm   *sroar.Bitmap
	set  map[uint64]bool
	name string
}

func mkFilt(ids []uint64, name string) filt { return filt{bitmapOf(ids...), member(ids), name} }

// keepFn is the specification of the two filters.
func keepFn(allow, deny filt) func(id uint64) bool {
	return func(id uint64) bool {
		return (allow.bm == nil || allow.set[id]) && !(deny.bm != nil && deny.set[id])
	}
}

// checkIterator checks that the returned blocks are valid, returned once, and
// include every block with a matching row.
func checkIterator(t *T, r *col.Reader, bs []Block, allow, deny filt) {
	got := r.FilteredBlockIterator(allow.bm, deny.bm)
	t.Op(1)
	in := map[uint64]bool{}
	for _, b := range got {
		if b >= uint64(len(bs)) || in[b] {
			t.Fail("iterator", "FilteredBlockIterator(%s, %s) returned %v for %d blocks", allow.name, deny.name, got, len(bs))
		}
		in[b] = true
	}
	keep := keepFn(allow, deny)
	for i, b := range bs {
		for _, row := range b {
			if keep(row.ID) && !in[uint64(i)] {
				t.Fail("iterator", "FilteredBlockIterator(%s, %s) leaves out block %d, which holds ID %d: %v", allow.name, deny.name, i, row.ID, got)
			}
		}
	}
	if allow.bm == nil && deny.bm == nil && len(got) != len(bs) {
		t.Fail("iterator", "FilteredBlockIterator(nil, nil) returned %v for %d blocks", got, len(bs))
	}
}

func checkFiltered(t *T, r *col.Reader, bs []Block, allow, deny filt, par []int) {
	want := refAgg(rowsOf(bs), keepFn(allow, deny))
	for _, skip := range []bool{false, true} {
		for _, p := range par {
			got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip, Filter: allow.bm, DenyFilter: deny.bm, Parallel: p})
			t.Op(1)
			if d := want.diff(got); d != "" {
				t.Fail("aggregate", "aggregate(allow=%s deny=%s skip=%v parallel=%d): %s (got %+v)", allow.name, deny.name, skip, p, d, got)
			}
		}
	}
	t.Trace()
}

func c03(e *Env) {
	unis := [][]uint64{{1, 2, 3, 4, 0, 9}, {0, 65535, 65536, 1 << 32, 65537, 1<<32 + 1}, {5, 1<<63 - 1, 1<<64 - 2, 1<<64 - 1, 6, 1 << 63}}
	maxRows := 3
	if e.Thorough {
		maxRows = 4
	}
	// Every small file with every pair of filters.
	for ui, uni := range unis {
		var fs []filt
		fs = append(fs, filt{name: "nil"})
		for m := 0; m < 1<<len(uni); m++ {
			fs = append(fs, mkFilt(subset(uni, m), fmt.Sprint(subset(uni, m))))
		}
		for n := 0; n <= maxRows; n++ {
			x := uint32(ui)
			one := func(bs []Block) bool {
				x++
				enc := x % 8
				return e.Case(func() string { return fmt.Sprintf("enc=%d %s, all pairs of filters over %v", enc, fmtBlocks(bs), uni) }, func(t *T) {
					writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
					r := open(t, "/vfs/f")
					for i, a := range fs {
						t.Sub(i)
						for _, d := range fs {
							checkIterator(t, r, bs, a, d)
							if e.Thorough {
								checkFiltered(t, r, bs, a, d, []int{0, 2, 3})
							} else {
								checkFiltered(t, r, bs, a, d, []int{0})
							}
						}
						checkFiltered(t, r, bs, a, fs[0], []int{2})
						checkFiltered(t, r, bs, fs[0], a, []int{2})
					}
					closeReader(t, r)
					t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
				})
			}
			if n == 0 {
				if !one(nil) {
					return
				}
				continue
			}
			if !seqs(n, 4, func(s []int) bool {
				b := make(Block, n)
				for i, k := range s {
					v := int64(3) << (7 * i)
					if (i+k)%2 == 1 {
						v = -v
					}
					b[i] = Row{uni[k], v}
				}
				return compositions(n, func(sizes []int) bool { return one(cut(b, sizes)) })
			}) {
				return
			}
		}
		e.Bound("every file of up to %d rows over 4 of the IDs %v, cut into blocks in every way x every allow and deny set over all 6 (and none) x full scan or not", maxRows, uni)
	}
	// Structured files: every boundary ID of every block as filter.
	type shape struct {
		k, n, per int
	}
	shapes := []shape{{0, 3, 50}, {0, 20, 50}, {1, 8, 100}, {3, 5, 60}, {4, 10, 33}, {5, 6, 300}, {6, 6, 300}, {7, 4, 20}, {2, 4, 100}, {0, 2, 5000}, {5, 3, 5000}, {0, 260, 2}}
	for si, sh := range shapes {
		for order := 0; order < 3; order++ {
			rows := family(sh.k, sh.n*sh.per)
			for i := range rows {
				rows[i].Val = int64(i+1) * int64(1-2*(i%3/2))
			}
			var bs []Block
			for i := 0; i < sh.n; i++ {
				switch order {
				case 0: // in order
					bs = append(bs, rows[i*sh.per:(i+1)*sh.per])
				case 1: // blocks in reverse
					bs = append(bs, rows[(sh.n-1-i)*sh.per:(sh.n-i)*sh.per])
				case 2: // interleaved, all blocks overlap
					b := make(Block, sh.per)
					for j := range b {
						b[j] = rows[j*sh.n+i]
					}
					bs = append(bs, b)
				}
			}
			enc := uint32(si+order) % 8
			ok := e.Case(func() string { return fmt.Sprintf("enc=%d shape %v order %d", enc, sh, order) }, func(t *T) {
				writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
				r := open(t, "/vfs/f")
				var all, even []uint64
				var fs []filt
				fs = append(fs, filt{name: "nil"}, mkFilt(nil, "{}"))
				for i, row := range rowsOf(bs) {
					all = append(all, row.ID)
					if i%2 == 0 {
						even = append(even, row.ID)
					}
				}
				fs = append(fs, mkFilt(all, "all IDs"), mkFilt(even, "every other row"), mkFilt([]uint64{0, 1<<64 - 1}, "{0,max}"))
				big := make([]uint64, 0, 9000)
				for i := uint64(0); i < 9000; i++ {
					big = append(big, i*2)
				}
				fs = append(fs, mkFilt(big, "even numbers below 18000"))
				step := max(1, len(bs)/6)
				for i := 0; i < len(bs); i += step {
					lo, hi := bs[i][0].ID, bs[i][0].ID
					for _, row := range bs[i] {
						lo, hi = min(lo, row.ID), max(hi, row.ID)
					}
					for _, ids := range [][]uint64{{lo}, {hi}, {lo - 1}, {hi + 1}, {lo, hi}, {lo - 1, hi + 1}, {bs[i][len(bs[i])/2].ID}} {
						fs = append(fs, mkFilt(ids, fmt.Sprint(ids)))
					}
				}
				for i, a := range fs {
					t.Sub(i)
					checkIterator(t, r, bs, a, fs[0])
					checkFiltered(t, r, bs, a, fs[0], []int{0, 2, 3, 7, -1})
					checkFiltered(t, r, bs, fs[0], a, []int{0, 2, 3, 7, -1})
					for j := 1; j < 6; j++ {
						checkIterator(t, r, bs, a, fs[j])
						checkFiltered(t, r, bs, a, fs[j], []int{0, 3})
					}
				}
				closeReader(t, r)
				t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
			})
			if !ok {
				return
			}
		}
	}
	e.Bound("%d structured files (up to 260 blocks, up to 10000 rows) x 3 block orders x filters at every block boundary (both sides) and dense filters x 1..7 workers", len(shapes))
	// Files of many blocks.
	many := []int{1000, 4097, 18725, 32769, 65536, 65537, 70001}
	for _, n := range many {
		for order := 0; order < 2; order++ {
			if n > 32769 && order == n%2 && !e.Thorough {
				continue
			}
			if !e.Case(func() string { return fmt.Sprintf("%d blocks of one row, order %d", n, order) }, func(t *T) {
				rows := make(Block, n)
				bs := make([]Block, n)
				for i := range rows {
					k := i
					if order == 1 {
						k = int(uint64(i) * 7919 % uint64(n)) // a permutation: 7919 is prime and divides no n
					}
					rows[i] = Row{uint64(3*k + 1), int64(i+1) * int64(1-2*(i%3/2))}
					bs[i] = rows[i : i+1]
				}
				vfs.Put("/vfs/f", encodeFile(bs, 7, 4096))
				r := open(t, "/vfs/f")
				none := filt{name: "nil"}
				var third []uint64
				for i := 0; i < n; i += 3 {
					third = append(third, rows[i].ID)
				}
				fs := []filt{mkFilt([]uint64{rows[0].ID}, "first block"), mkFilt([]uint64{rows[n-1].ID}, "last block"), mkFilt([]uint64{rows[n/2].ID, rows[n-2].ID}, "two blocks"),
					mkFilt(third, "every third block"), mkFilt(nil, "{}"), mkFilt([]uint64{1<<32 + 1}, "another ID")}
				for i, a := range fs {
					t.Beat()
					checkIterator(t, r, bs, a, none)
					checkIterator(t, r, bs, none, a)
					checkFiltered(t, r, bs, a, none, []int{0, 5})
					if i < 4 {
						checkFiltered(t, r, bs, none, a, []int{0, 5})
						checkFiltered(t, r, bs, fs[3], a, []int{0, 5})
					}
				}
				closeReader(t, r)
				t.State(hashStr(fmt.Sprint("many", n, order)))
			}) {
				return
			}
		}
	}
	e.Bound("%d numbers of blocks from %d to %d of one row each, in order and shuffled, x 6 filters", len(many), many[0], many[len(many)-1])
}
