package main

import (
	"fmt"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C16: queries have no side effects, so that every answer depends on the file
// only and not on what was asked before.
func init() {
	props["C16"] = c16
	solos["C16"] = func(a []int, data []byte) string {
		var ids []uint64
		for _, r := range rowsOf(c16files[a[0]]) {
			ids = append(ids, r.ID)
		}
		vfs.Put("/vfs/f", data)
		r, err := col.NewReader("/vfs/f")
		if err != nil {
			panic(err)
		}
		return queries(len(c16files[a[0]]), ids)[a[1]].f(r)
	}
}

var c16files = [][]Block{
	{{{1, 10}, {2, -20}}, {{3, 30}, {5, 7}}, {{9, 1}}},
	{{{9, 5}, {1, 4}}, {{1, 6}, {70000, -1}}},
	{{{1 << 40, 5}, {1<<40 + 1, 4}, {1<<40 + 2, 1}}},
	{{{90, 5}, {80, 4}}, {{50, 6}, {70, -1}}, {{1, 3}}, {{50, -6}}},   // blocks in descending order
	{{{5, 1}, {6, 2}}, {{1, 4}, {9, 8}}, {{5, 1}, {6, 2}}},            // blocks inside each other, equal blocks
	{{{50, 1}, {3, 2}, {77, 4}, {3, 8}}, {{8, 16}, {7, 32}, {6, 64}}}, // rows out of order
}

func bmString(bm *sroar.Bitmap, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(bm.GetCardinality(), bm.ToArray())
}

func aggString(a col.AggregateResult) string {
	if a.Count == 0 {
		a.Min, a.Max = 0, 0
	}
	return fmt.Sprintf("%+v", a)
}

type query struct {
	name string
	f    func(r *col.Reader) string
}

func pairsQ(i uint64) query {
	return query{fmt.Sprintf("GetPairs(%d)", i), func(r *col.Reader) string {
		ids, vals, err := r.GetPairs(i)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(ids, vals)
	}}
}

func aggQ(name string, o func() col.AggregateOptions) query {
	return query{name, func(r *col.Reader) string { return aggString(r.AggregateWithOptions(o())) }}
}

// queries over a file of a few blocks; ids are IDs of the file.
func queries(nBlocks int, ids []uint64) []query {
	common, commonDeny := bitmapOf(ids...), bitmapOf(ids[0], ids[len(ids)-1])
	qs := []query{
		{"Aggregate", func(r *col.Reader) string { return aggString(r.Aggregate()) }},
		aggQ("full scan", func() col.AggregateOptions { return col.AggregateOptions{SkipPreCalculated: true} }),
		aggQ("parallel", func() col.AggregateOptions { return col.AggregateOptions{Parallel: 2} }),
		aggQ("parallel full scan", func() col.AggregateOptions {
			return col.AggregateOptions{Parallel: 3, SkipPreCalculated: true}
		}),
		aggQ("allow 1", func() col.AggregateOptions { return col.AggregateOptions{Filter: bitmapOf(ids[0])} }),
		aggQ("allow last", func() col.AggregateOptions { return col.AggregateOptions{Filter: bitmapOf(ids[len(ids)-1])} }),
		aggQ("allow all", func() col.AggregateOptions { return col.AggregateOptions{Filter: bitmapOf(ids...)} }),
		aggQ("allow none", func() col.AggregateOptions { return col.AggregateOptions{Filter: bitmapOf()} }),
		aggQ("deny 1", func() col.AggregateOptions { return col.AggregateOptions{DenyFilter: bitmapOf(ids[0])} }),
		aggQ("allow and deny parallel", func() col.AggregateOptions {
			return col.AggregateOptions{Filter: bitmapOf(ids...), DenyFilter: bitmapOf(ids[1]), Parallel: 2}
		}),
		aggQ("common allow", func() col.AggregateOptions { return col.AggregateOptions{Filter: common} }),
		aggQ("common allow and deny", func() col.AggregateOptions {
			return col.AggregateOptions{Filter: common, DenyFilter: commonDeny}
		}),
		{"GetGlobalIDBitmap", func(r *col.Reader) string { return bmString(r.GetGlobalIDBitmap()) }},
		{"EnableCaching", func(r *col.Reader) string { r.EnableGlobalIDBitmapCaching(); return "" }},
		{"DisableCaching", func(r *col.Reader) string { r.DisableGlobalIDBitmapCaching(); return "" }},
		{"FilteredBlockIterator", func(r *col.Reader) string {
			return fmt.Sprint(r.FilteredBlockIterator(bitmapOf(ids[0]), nil))
		}},
		{"info", func(r *col.Reader) string {
			return fmt.Sprint(r.DebugInfo(), r.BlockCount(), r.EncodingType(), r.Version(), r.IsDeltaEncoded(), r.IsVarIntEncoded())
		}},
		{"multi", func(r *col.Reader) string {
			a, err := multicol.NewMultiReader([]*col.Reader{r, r}).Aggregate(multicol.AggregateOptions{})
			return fmt.Sprint(aggString(a), err)
		}},
		{"multi filter", func(r *col.Reader) string {
			a, err := multicol.NewMultiReader([]*col.Reader{r}).Aggregate(multicol.AggregateOptions{Filter: bitmapOf(ids[1], ids[2]), SkipPreCalculated: true})
			return fmt.Sprint(aggString(a), err)
		}},
	}
	for i := 0; i < nBlocks; i++ {
		qs = append(qs, pairsQ(uint64(i)))
	}
	return append(qs, pairsQ(uint64(nBlocks)), pairsQ(1<<63))
}

func c16(e *Env) {
	files := c16files
	depth := 4
	if e.Thorough {
		depth = 5
	}
	for fi, bs := range files {
		var ids []uint64
		for _, r := range rowsOf(bs) {
			ids = append(ids, r.ID)
		}
		qs := queries(len(bs), ids)
		for _, enc := range []uint32{0, 3, 7} {
			vfs.Reset()
			var data []byte
			var want []string
			prepare := func(t *T) {
				if data != nil {
					return
				}
				writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
				data = snapshot("/vfs/f")
				for k := range qs {
					want = append(want, solo("C16", data, fi, k))
				}
			}
			for n := 1; n <= depth; n++ {
				if n == depth && (enc != 7 || e.Thorough && fi > 0) {
					continue
				}
				// The first query of the sequence is the case, the rest is inside.
				for first := range qs {
					if !e.Case(func() string {
						return fmt.Sprintf("file %d enc=%d: all sequences of %d queries starting with %s", fi, enc, n, qs[first].name)
					}, func(t *T) {
						prepare(t)
						step := 0
						seqs(n-1, len(qs), func(s []int) bool {
							step++
							if step%64 == 0 {
								t.Beat()
							}
							vfs.Reset()
							vfs.Put("/vfs/f", append([]byte(nil), data...))
							r := open(t, "/vfs/f")
							names := qs[first].name
							got := qs[first].f(r)
							t.Op(n)
							if got != want[first] {
								t.Fail("answer", "%s: got %s, expected %s", names, got, want[first])
							}
							for _, k := range s {
								names += ", " + qs[k].name
								if got := qs[k].f(r); got != want[k] {
									t.Fail("answer", "%s: the last answer is %s, expected %s", names, got, want[k])
								}
							}
							closeReader(t, r)
							if string(vfs.Bytes("/vfs/f")) != string(data) || vfs.Dev.Counts[vfs.OpWrite]+vfs.Dev.Counts[vfs.OpTruncate]+vfs.Dev.Counts[vfs.OpUnlink]+vfs.Dev.Counts[vfs.OpRename] > 0 || len(vfs.Dev.Files) != 2 {
								t.Fail("side-effect", "%s wrote to the file system", names)
							}
							t.Trace()
							t.State(hashStr(fmt.Sprint(fi, enc, names)))
							return true
						})
					}) {
						return
					}
				}
				e.Bound("file %d, encoding %d: every sequence of %d out of %d queries on one reader", fi, enc, n, len(qs))
			}
		}
	}
}
