package main

import (
	"fmt"
	"math"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C22: what the caller passes in is neither modified nor kept, what it gets
// is its own, and the same calls give the same file.
func init() { props["C22"] = c22 }

// lent is a pair of slices lent to a call, inside larger arrays.
type lent struct {
	allIDs  []uint64
	allVals []int64
	ids     []uint64
	vals    []int64
}

const lentPad = 3

func lend(b Block, buf *lent) *lent {
	n := len(b)
	l := buf
	if l == nil || len(l.allIDs) < n+2*lentPad {
		l = &lent{allIDs: make([]uint64, n+2*lentPad), allVals: make([]int64, n+2*lentPad)}
	}
	for i := range l.allIDs {
		l.allIDs[i], l.allVals[i] = 0xABCD000000000000+uint64(i), math.MinInt64+int64(i)
	}
	l.ids, l.vals = l.allIDs[lentPad:lentPad+n], l.allVals[lentPad:lentPad+n]
	for i, r := range b {
		l.ids[i], l.vals[i] = r.ID, r.Val
	}
	return l
}

func (l *lent) check(t *T, what string, b Block) {
	for i := range l.allIDs {
		id, v := 0xABCD000000000000+uint64(i), math.MinInt64+int64(i)
		if j := i - lentPad; j >= 0 && j < len(b) {
			id, v = b[j].ID, b[j].Val
		}
		if l.allIDs[i] != id || l.allVals[i] != v {
			t.Fail("modified", "%s changed the caller's data: element %d (of %d, row 0 is element %d) is (%d, %d), it was (%d, %d)", what, i, len(l.allIDs), lentPad, l.allIDs[i], l.allVals[i], id, v)
		}
	}
}

func (l *lent) scribble(how int) {
	for i := range l.allIDs {
		switch how {
		case 1:
			l.allIDs[i], l.allVals[i] = 0, 0
		case 2:
			l.allIDs[i], l.allVals[i] = uint64(1000-i)*0x100000001, -int64(i)-7
		}
	}
}

var careNames = []string{"the caller keeps its slices", "the caller zeroes its slices after every call", "the caller overwrites its slices after every call", "the caller uses the same slices for every call"}

func c22(e *Env) {
	// Writers.
	batches := []Block{
		{{7, 1}},
		{{9, -3}, {2, 1 << 40}, {5, 0}},
		{{1, 5}, {2, 4}, {3, 3}, {70000, 2}},
		{{4, 8}, {4, -8}, {3, 1}},
		{{1 << 40, math.MaxInt64}, {1, math.MinInt64 + 1}},
		family(2, 40),
	}
	big := []Block{family(4, 999), family(0, 1000), family(3, 1600), batches[1]}
	type kind struct {
		name   string
		simple bool
		target int
	}
	kinds := []kind{{"writer, large blocks", false, bigBlock}, {"writer, small blocks", false, 256}, {"simple writer", true, 0}, {"simple writer, small blocks", true, 256}}
	run := func(t *T, k kind, name string, enc uint32, bs []Block, care int) string {
		buf := (*lent)(nil)
		use := func(b Block, what string, f func(ids []uint64, vals []int64) error) error {
			l := lend(b, buf)
			err := f(l.ids, l.vals)
			l.check(t, what, b)
			if care == 3 {
				buf = l
			}
			l.scribble(care)
			t.Op(1)
			return err
		}
		if k.simple {
			w, err := col.NewSimpleWriter(name, col.WithEncoding(enc))
			if err != nil {
				t.Fail("create", "NewSimpleWriter: %v", err)
			}
			if k.target != 0 {
				w.SetTargetBlockSize(k.target)
			}
			for _, b := range bs {
				if err := use(b, "SimpleWriter.Write", w.Write); err != nil {
					t.Fail("write", "Write: %v", err)
				}
			}
			if err := w.Close(); err != nil {
				t.Fail("close", "Close: %v", err)
			}
			return maskTime(vfs.Bytes(name))
		}
		w, err := col.NewWriter(name, col.WithEncoding(enc), col.WithBlockSize(uint32(k.target)))
		if err != nil {
			t.Fail("create", "NewWriter: %v", err)
		}
		for _, b := range bs {
			use(b, "EstimateBlockSize", func(ids []uint64, vals []int64) error { _, err := w.EstimateBlockSize(ids, vals); return err })
			for len(b) > 0 {
				err := use(b, "WriteBlock", w.WriteBlock)
				if bf, ok := err.(*col.BlockFullError); ok {
					b = b[bf.ItemsWritten:]
					continue
				}
				if err != nil {
					t.Fail("write", "WriteBlock: %v", err)
				}
				break
			}
		}
		if err := w.FinalizeAndClose(); err != nil {
			t.Fail("finalize", "FinalizeAndClose: %v", err)
		}
		return maskTime(vfs.Bytes(name))
	}
	one := func(k kind, enc uint32, bs []Block) bool {
		return e.Case(func() string { return fmt.Sprintf("%s, enc=%d, %s", k.name, enc, fmtBlocks(bs)) }, func(t *T) {
			want := run(t, k, "/vfs/ref", enc, bs, 0)
			for care := range careNames {
				if got := run(t, k, fmt.Sprintf("/vfs/f%d", care), enc, bs, care); got != want {
					t.Fail("file", "%s: the file differs from the first one written with the same calls", careNames[care])
				}
				t.Trace()
				t.State(hashStr(fmt.Sprint(k, enc, bs, care)))
			}
		})
	}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	for _, k := range kinds {
		for _, enc := range allEnc {
			for n := 1; n <= depth; n++ {
				if !seqs(n, len(batches), func(s []int) bool {
					var bs []Block
					for _, i := range s {
						bs = append(bs, batches[i])
					}
					return one(k, enc, bs)
				}) {
					return
				}
			}
			if k.target == 256 && !e.Thorough {
				continue
			}
			for n := 1; n <= depth-1; n++ {
				if !seqs(n, len(big), func(s []int) bool {
					var bs []Block
					for _, i := range s {
						bs = append(bs, big[i])
					}
					return one(k, enc, bs)
				}) {
					return
				}
			}
		}
	}
	e.Bound("all sequences of up to %d batches out of %d, and of up to %d out of %d with about 1000 rows, x %d encodings x %d kinds of writer x 4 ways of treating the slices", depth, len(batches), depth-1, len(big), len(allEnc), len(kinds))

	// Readers: actions spoil what was passed in or returned.
	files := [][]Block{
		{{{1, 10}, {2, -20}}, {{3, 30}, {5, 7}}, {{9, 1}}},
		{{{9, 5}, {1, 4}}, {{1, 6}, {70000, -1}}},
		{{{90, 5}, {80, 4}}, {{50, 6}, {70, -1}}, {{1, 3}}, {{50, -6}}},
	}
	spoil := func(bm *sroar.Bitmap, ids []uint64) {
		for _, id := range ids {
			if bm.Contains(id) {
				bm.Remove(id)
			} else {
				bm.Set(id)
			}
		}
		for i := uint64(0); i < 70; i++ {
			bm.Set(i << 16)
		}
	}
	for fi, bs := range files {
		var ids []uint64
		for _, r := range rowsOf(bs) {
			ids = append(ids, r.ID)
		}
		type action struct {
			name string
			f    func(t *T, r *col.Reader)
		}
		// The bitmaps of one sequence of calls: the same objects are used again,
		// with other contents every time.
		var allow, deny *sroar.Bitmap
		uses := 0
		setTo := func(bm *sroar.Bitmap, to ...uint64) {
			for _, id := range bm.ToArray() {
				bm.Remove(id)
			}
			for _, id := range to {
				bm.Set(id)
			}
		}
		filtered := func(name string, same bool, f func(t *T, r *col.Reader, allow, deny *sroar.Bitmap)) action {
			return action{name, func(t *T, r *col.Reader) {
				deny := deny
				n := len(ids)
				setTo(allow, ids[uses%n], ids[(uses+2)%n], 4)
				setTo(deny, ids[(uses+1)%n], ids[(uses+3)%n], 6)
				uses++
				if same {
					deny = allow
				}
				a, d := bmString(allow, nil), bmString(deny, nil)
				f(t, r, allow, deny)
				if a2, d2 := bmString(allow, nil), bmString(deny, nil); a2 != a || d2 != d {
					t.Fail("modified", "%s changed its filters: %s to %s, %s to %s", name, a, a2, d, d2)
				}
				spoil(allow, ids)
				spoil(deny, ids)
			}}
		}
		agg := func(name string, same bool, o col.AggregateOptions, useAllow, useDeny bool) action {
			return filtered(name, same, func(t *T, r *col.Reader, allow, deny *sroar.Bitmap) {
				o := o
				if useAllow {
					o.Filter = allow
				}
				if useDeny {
					o.DenyFilter = deny
				}
				want := refAgg(rowsOf(bs), func(id uint64) bool {
					return (!useAllow || allow.Contains(id)) && !(useDeny && deny.Contains(id))
				})
				checkAgg(t, fmt.Sprintf("aggregate %d with a bitmap object used before (%s)", uses, name), r.AggregateWithOptions(o), want)
			})
		}
		acts := []action{
			agg("allow", false, col.AggregateOptions{}, true, false),
			agg("deny", false, col.AggregateOptions{}, false, true),
			agg("allow and deny", false, col.AggregateOptions{}, true, true),
			agg("allow and deny the same bitmap", true, col.AggregateOptions{}, true, true),
			agg("parallel allow and deny", false, col.AggregateOptions{Parallel: 2}, true, true),
			filtered("matching blocks", false, func(t *T, r *col.Reader, allow, deny *sroar.Bitmap) {
				checkIterator(t, r, bs, filt{allow, member(allow.ToArray()), "allow"}, filt{})
				checkIterator(t, r, bs, filt{allow, member(allow.ToArray()), "allow"}, filt{deny, member(deny.ToArray()), "deny"})
				for _, bl := range [][]uint64{r.FilteredBlockIterator(nil, nil), r.FilteredBlockIterator(allow, nil), r.FilteredBlockIterator(nil, deny), r.FilteredBlockIterator(allow, deny)} {
					for i := range bl {
						bl[i] = 1
					}
					_ = append(bl, 2, 3)
				}
			}),
			{"bitmap", func(t *T, r *col.Reader) {
				r.DisableGlobalIDBitmapCaching()
				bm, err := r.GetGlobalIDBitmap()
				if err != nil {
					t.Fail("bitmap", "GetGlobalIDBitmap: %v", err)
				}
				spoil(bm, ids)
			}},
			{"cached bitmap", func(t *T, r *col.Reader) {
				r.EnableGlobalIDBitmapCaching()
				bm, err := r.GetGlobalIDBitmap()
				if err != nil {
					t.Fail("bitmap", "GetGlobalIDBitmap: %v", err)
				}
				before := bmString(bm, nil)
				r.AggregateWithOptions(col.AggregateOptions{Filter: bm, DenyFilter: bitmapOf(ids[0])})
				r.AggregateWithOptions(col.AggregateOptions{Filter: bitmapOf(ids...), DenyFilter: bm, Parallel: 2})
				multicol.NewMultiReader([]*col.Reader{r, r}).Aggregate(multicol.AggregateOptions{Filter: bm})
				if after := bmString(bm, nil); after != before {
					t.Fail("modified", "queries changed the bitmap the caller holds from %s to %s", before, after)
				}
			}},
			filtered("multi", false, func(t *T, r *col.Reader, allow, deny *sroar.Bitmap) {
				vfs.Put("/vfs/g", encodeFile([]Block{{{ids[0], 77}, {12345, 5}}}, 0, 4096))
				g, err := col.NewReader("/vfs/g")
				if err != nil {
					panic(failure{"open", err.Error()})
				}
				rs := []*col.Reader{r, g, r}
				m := multicol.NewMultiReader(rs)
				for _, o := range []multicol.AggregateOptions{{}, {Filter: allow}, {Filter: deny, SkipPreCalculated: true}} {
					a, err := m.Aggregate(o)
					if err != nil {
						panic(failure{"multi", err.Error()})
					}
					// r is the newest file, of g only the other rows count
					f := o.Filter
					want := refAgg(append(rowsOf(bs), Row{12345, 5}), func(id uint64) bool { return f == nil || f.Contains(id) })
					checkAgg(t, "multi-file aggregate with a bitmap object used before", a, want)
				}
				if rs[0] != r || rs[1] != g || rs[2] != r {
					panic(failure{"modified", "a multi-file query reordered the caller's readers"})
				}
				g.Close()
			}),
		}
		for i := range bs {
			acts = append(acts, action{fmt.Sprintf("block %d", i), func(t *T, r *col.Reader) {
				a, b, err := r.GetPairs(uint64(i))
				if err != nil {
					t.Fail("getpairs", "GetPairs: %v", err)
				}
				for j := range a {
					a[j], b[j] = 4, -1
				}
				_ = append(a[:len(a):cap(a)], 1, 2, 3)
				_ = append(b[:len(b):cap(b)], 1, 2, 3)
			}})
		}
		qs := queries(len(bs), ids)
		for _, enc := range allEnc {
			var data []byte
			var want []string
			for first := range acts {
				if !e.Case(func() string {
					return fmt.Sprintf("file %d enc=%d: every sequence of %d calls starting with %s, spoiling what is passed and returned", fi, enc, depth, acts[first].name)
				}, func(t *T) {
					if data == nil {
						data = encodeFile(bs, enc, 4096)
						vfs.Put("/vfs/f", data)
						for _, q := range qs {
							r := open(t, "/vfs/f")
							want = append(want, q.f(r))
							closeReader(t, r)
						}
					}
					seqs(depth-1, len(acts), func(s []int) bool {
						t.Beat()
						vfs.Put("/vfs/f", data)
						r := open(t, "/vfs/f")
						allow, deny, uses = sroar.NewBitmap(), sroar.NewBitmap(), 0
						names := acts[first].name
						acts[first].f(t, r)
						for _, k := range s {
							names += ", " + acts[k].name
							acts[k].f(t, r)
						}
						r.DisableGlobalIDBitmapCaching()
						for k, q := range qs {
							if got := q.f(r); got != want[k] {
								t.Fail("answer", "after %s: %s gives %s, expected %s", names, q.name, got, want[k])
							}
							r.DisableGlobalIDBitmapCaching()
						}
						t.Op(depth + len(qs))
						closeReader(t, r)
						t.Trace()
						t.State(hashStr(fmt.Sprint(fi, enc, names)))
						return true
					})
				}) {
					return
				}
			}
			e.Bound("file %d, encoding %d: every sequence of %d out of %d calls with filters and results spoilt after each, then %d queries", fi, enc, depth, len(acts), len(qs))
		}
	}
}
