package main

import (
	"fmt"
	"math"
	"strings"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C18: a refused call leaves no trace.
func init() { props["C18"] = c18 }

// maskTime removes the creation time from a file.
func maskTime(b []byte) string {
	c := append([]byte(nil), b...)
	if len(c) >= 44 {
		for i := 36; i < 44; i++ {
			c[i] = 0
		}
	}
	return string(c)
}

func contains(bs []Block, id uint64) bool {
	for _, r := range rowsOf(bs) {
		if r.ID == id {
			return true
		}
	}
	return false
}

func c18(e *Env) {
	histories := [][]Block{nil, {family(0, 3)}, {family(1, 2), family(5, 3)}, {family(3, 300), family(2, 4), family(6, 1)}}
	// Writer
	type wbad struct {
		name string
		f    func(w *col.Writer) error
	}
	bad := []wbad{
		{"WriteBlock of nothing", func(w *col.Writer) error { return w.WriteBlock(nil, nil) }},
		{"WriteBlock of empty slices", func(w *col.Writer) error { return w.WriteBlock([]uint64{}, []int64{}) }},
		{"WriteBlock with more IDs", func(w *col.Writer) error { return w.WriteBlock([]uint64{900, 901}, []int64{5}) }},
		{"WriteBlock with more values", func(w *col.Writer) error { return w.WriteBlock([]uint64{902}, []int64{5, 6, 7}) }},
		{"WriteBlock with values only", func(w *col.Writer) error { return w.WriteBlock(nil, []int64{5}) }},
		{"WriteBlock with IDs only", func(w *col.Writer) error { return w.WriteBlock([]uint64{903}, nil) }},
		{"WriteBlock with 2000 IDs and 1999 values", func(w *col.Writer) error {
			a, b := family(0, 2000).split()
			return w.WriteBlock(a, b[:1999])
		}},
		{"EstimateBlockSize of nothing", func(w *col.Writer) error { _, err := w.EstimateBlockSize(nil, nil); return err }},
		{"EstimateBlockSize with more IDs", func(w *col.Writer) error { _, err := w.EstimateBlockSize([]uint64{1, 2}, []int64{1}); return err }},
		{"EstimateBlockSize with values only", func(w *col.Writer) error { _, err := w.EstimateBlockSize(nil, []int64{1}); return err }},
	}
	write := func(t *T, name string, bs []Block, enc, target uint32, at map[int][]int, split bool) []byte {
		w, err := col.NewWriter(name, col.WithEncoding(enc), col.WithBlockSize(target))
		if err != nil {
			t.Fail("create", "NewWriter: %v", err)
		}
		refuse := func(i int) {
			for _, k := range at[i] {
				t.Op(1)
				if bad[k].f(w) == nil {
					t.Fail("accepted", "%s succeeds", bad[k].name)
				}
			}
		}
		for i, b := range bs {
			refuse(i)
			for len(b) > 0 {
				ids, vals := b.split()
				t.Op(1)
				err := w.WriteBlock(ids, vals)
				if bf, ok := err.(*col.BlockFullError); ok {
					b = b[bf.ItemsWritten:]
					continue
				}
				if err != nil {
					t.Fail("write", "WriteBlock %d: %v", i, err)
				}
				break
			}
		}
		refuse(len(bs))
		if split {
			if err := w.Finalize(); err != nil {
				t.Fail("finalize", "Finalize: %v", err)
			}
			if err := w.Close(); err != nil {
				t.Fail("close", "Close: %v", err)
			}
		} else if err := w.FinalizeAndClose(); err != nil {
			t.Fail("finalize", "FinalizeAndClose: %v", err)
		}
		done := snapshot(name)
		// after the end
		for i, f := range []func() error{
			func() error { return w.WriteBlock([]uint64{77}, []int64{1}) },
			func() error { return w.WriteBlock([]uint64{78, 79}, []int64{1, 2}) },
			func() error { return w.Finalize() },
			func() error { return w.FinalizeAndClose() },
			func() error { return w.Close() },
		} {
			t.Op(1)
			if f() == nil {
				t.Fail("accepted", "call %d after closing succeeds", i)
			}
			if string(vfs.Bytes(name)) != string(done) {
				t.Fail("trace", "call %d after closing changes the file", i)
			}
		}
		return done
	}
	// After finalizing, before closing: blocks are refused, and whatever else is
	// called the file stays complete.
	late := []struct {
		name string
		bad  bool
		f    func(w *col.Writer) error
	}{
		{"WriteBlock", true, func(w *col.Writer) error { return w.WriteBlock([]uint64{77}, []int64{1}) }},
		{"WriteBlock of many rows", true, func(w *col.Writer) error { return w.WriteBlock(family(1, 700).split()) }},
		{"WriteBlock of nothing", true, func(w *col.Writer) error { return w.WriteBlock(nil, nil) }},
		{"EstimateBlockSize", false, func(w *col.Writer) error { _, err := w.EstimateBlockSize([]uint64{1, 2}, []int64{3, 4}); return err }},
		{"Finalize", false, func(w *col.Writer) error { return w.Finalize() }},
		{"FinalizeAndClose", false, func(w *col.Writer) error { return w.FinalizeAndClose() }},
		{"Close", false, func(w *col.Writer) error { return w.Close() }},
	}
	lateLen := 3
	if e.Thorough {
		lateLen = 5
	}
	for _, bs := range histories {
		for _, enc := range []uint32{0, 3, 4, 7} {
			for _, target := range []uint32{bigBlock, 4096} {
				for n := 1; n <= lateLen; n++ {
					if !seqs(n, len(late), func(s []int) bool {
						return e.Case(func() string {
							var names []string
							for _, k := range s {
								names = append(names, late[k].name)
							}
							return fmt.Sprintf("Writer enc=%d target=%d: %s after Finalize of %s", enc, target, strings.Join(names, ", "), fmtBlocks(bs))
						}, func(t *T) {
							w, err := col.NewWriter("/vfs/f", col.WithEncoding(enc), col.WithBlockSize(target))
							if err != nil {
								t.Fail("create", "NewWriter: %v", err)
							}
							var want []Block
							for i, b := range bs {
								for len(b) > 0 {
									ids, vals := b.split()
									err := w.WriteBlock(ids, vals)
									k := len(b)
									if bf, ok := err.(*col.BlockFullError); ok {
										k = bf.ItemsWritten
									} else if err != nil {
										t.Fail("write", "WriteBlock %d: %v", i, err)
									}
									want = append(want, b[:k])
									b = b[k:]
								}
							}
							if err := w.Finalize(); err != nil {
								t.Fail("finalize", "Finalize: %v", err)
							}
							closed := false
							for i, k := range s {
								t.Op(1)
								err := late[k].f(w)
								if err == nil && (late[k].bad || closed && late[k].name != "EstimateBlockSize") {
									t.Fail("accepted", "%s (%d after finalizing, closed: %v) succeeds", late[k].name, i, closed)
								}
								closed = closed || late[k].name == "Close" || late[k].name == "FinalizeAndClose"
								r := open(t, "/vfs/f")
								checkPairs(t, r, want)
								checkAgg(t, "Aggregate()", r.Aggregate(), refAgg(rowsOf(want), nil))
								bm, err := r.GetGlobalIDBitmap()
								if err != nil || bm.Contains(77) && !contains(want, 77) {
									t.Fail("trace", "the bitmap has changed after %s (error %v)", late[k].name, err)
								}
								closeReader(t, r)
							}
							w.Close()
							t.Trace()
							t.State(hash64(vfs.Bytes("/vfs/f")[64:]) ^ hashStr(fmt.Sprint(enc, target, s)))
						})
					}) {
						return
					}
				}
			}
		}
	}
	e.Bound("%d write histories x 4 encodings x 2 targets: every sequence of up to %d of %d calls after finalizing", len(histories), lateLen, len(late))
	for hi, bs := range histories {
		for _, enc := range allEnc {
			for _, target := range []uint32{bigBlock, 4096} {
				for _, split := range []bool{false, true} {
					if !e.Case(func() string {
						return fmt.Sprintf("Writer enc=%d target=%d split=%v: refused calls at every point of %s", enc, target, split, fmtBlocks(bs))
					}, func(t *T) {
						want := maskTime(write(t, "/vfs/clean", bs, enc, target, nil, split))
						n := 0
						check := func(at map[int][]int) {
							n++
							t.Sub(n)
							got := maskTime(write(t, "/vfs/f", bs, enc, target, at, split))
							t.Trace()
							t.State(hashStr(fmt.Sprint(hi, enc, target, split, at)))
							if got != want {
								t.Fail("trace", "the refused calls %v (position: calls) change the file", at)
							}
						}
						for p := 0; p <= len(bs); p++ {
							for k := range bad {
								check(map[int][]int{p: {k}})
								for q := p; q <= len(bs); q++ {
									for l := range bad {
										if hi == 3 && !e.Thorough && (k+l)%5 > 0 {
											continue
										}
										m := map[int][]int{p: {k}}
										m[q] = append(m[q], l)
										check(m)
									}
								}
							}
						}
					}) {
						return
					}
				}
			}
		}
	}
	e.Bound("%d write histories x 8 encodings x 2 targets: every one and two of %d refused calls at every position, and 5 calls after the end", len(histories), len(bad))
	// Unknown encodings.
	for _, enc := range []uint32{8, 9, 15, 255, 1 << 31, math.MaxUint32} {
		for _, simple := range []bool{false, true} {
			if !e.Case(func() string { return fmt.Sprintf("unknown encoding %d, SimpleWriter %v", enc, simple) }, func(t *T) {
				if simple {
					w, err := col.NewSimpleWriter("/vfs/f", col.WithEncoding(enc))
					t.Op(2)
					if err == nil {
						e1 := w.Write([]uint64{1, 2}, []int64{1, 2})
						if e2 := w.Close(); e1 == nil && e2 == nil {
							t.Fail("accepted", "rows are accepted with encoding %d", enc)
						}
					}
				} else {
					w, err := col.NewWriter("/vfs/f", col.WithEncoding(enc))
					if err != nil {
						return
					}
					for i := 0; i < 3; i++ {
						t.Op(1)
						if w.WriteBlock([]uint64{1, 2}, []int64{1, 2}) == nil {
							t.Fail("accepted", "a block is accepted with encoding %d", enc)
						}
					}
					if w.FinalizeAndClose() != nil {
						w.Close()
					}
				}
				r, err := col.NewReader("/vfs/f")
				if err != nil {
					return
				}
				if r.BlockCount() != 0 || r.Aggregate().Count != 0 || getBitmap(t, r).GetCardinality() != 0 {
					t.Fail("trace", "refused rows are in the file")
				}
				closeReader(t, r)
				t.Trace()
				t.State(uint64(enc))
			}) {
				return
			}
		}
	}
	// SimpleWriter
	type sbad struct {
		name string
		ok   bool // succeeds without effect
		f    func(w *col.SimpleWriter) error
	}
	sb := []sbad{
		{"Write of nothing", true, func(w *col.SimpleWriter) error { return w.Write(nil, nil) }},
		{"Write of empty slices", true, func(w *col.SimpleWriter) error { return w.Write([]uint64{}, []int64{}) }},
		{"Write with more IDs", false, func(w *col.SimpleWriter) error { return w.Write([]uint64{900, 5}, []int64{1}) }},
		{"Write with more values", false, func(w *col.SimpleWriter) error { return w.Write([]uint64{900}, []int64{1, 2}) }},
		{"Write with values only", false, func(w *col.SimpleWriter) error { return w.Write(nil, []int64{1, 2}) }},
		{"Write with 1500 IDs and 1499 values", false, func(w *col.SimpleWriter) error {
			a, b := family(3, 1500).split()
			return w.Write(a, b[:1499])
		}},
	}
	swrite := func(t *T, name string, bs []Block, enc uint32, target int, at map[int][]int) []byte {
		w, err := col.NewSimpleWriter(name, col.WithEncoding(enc))
		if err != nil {
			t.Fail("create", "NewSimpleWriter: %v", err)
		}
		if err := w.SetTargetBlockSize(target); err != nil {
			t.Fail("target", "SetTargetBlockSize: %v", err)
		}
		total := 0
		refuse := func(i int) {
			for _, k := range at[i] {
				t.Op(1)
				before, items := len(vfs.Bytes(name)), w.TotalItems()
				err := sb[k].f(w)
				if (err == nil) != sb[k].ok {
					t.Fail("accepted", "%s returns %v", sb[k].name, err)
				}
				if w.TotalItems() != items || w.IsClosed() || !sb[k].ok && len(vfs.Bytes(name)) != before {
					t.Fail("trace", "%s has an effect", sb[k].name)
				}
			}
		}
		for i, b := range bs {
			refuse(i)
			ids, vals := b.split()
			if err := w.Write(ids, vals); err != nil {
				t.Fail("write", "Write: %v", err)
			}
			total += len(b)
			t.Op(1)
		}
		refuse(len(bs))
		if err := w.Close(); err != nil {
			t.Fail("close", "Close: %v", err)
		}
		if w.TotalItems() != uint64(total) || !w.IsClosed() {
			t.Fail("trace", "%d items after Close, expected %d", w.TotalItems(), total)
		}
		done := snapshot(name)
		for i, f := range []struct {
			err bool
			f   func() error
		}{
			{true, func() error { return w.Write([]uint64{1}, []int64{1}) }},
			{true, func() error { return w.Write([]uint64{1, 2}, []int64{1}) }},
			{true, func() error { a, b := family(0, 2000).split(); return w.Write(a, b) }},
			{true, func() error { return w.SetTargetBlockSize(100) }},
			{false, func() error { return w.Close() }},
			{false, func() error { return w.Close() }},
		} {
			t.Op(1)
			if err := f.f(); (err != nil) != f.err {
				t.Fail("accepted", "call %d after Close returns %v", i, err)
			}
			if string(vfs.Bytes(name)) != string(done) || w.TotalItems() != uint64(total) {
				t.Fail("trace", "call %d after Close has an effect", i)
			}
		}
		return done
	}
	shist := [][]Block{nil, {family(3, 5)}, {family(5, 2), family(0, 2)}, {family(3, 999), family(1, 3)}, {family(0, 600), family(3, 600), family(1, 2)}}
	for hi, bs := range shist {
		for _, enc := range allEnc {
			for _, target := range []int{128 * 1024, 4096} {
				if hi > 2 && !e.Thorough && enc != 0 && enc != 7 {
					continue
				}
				if !e.Case(func() string {
					return fmt.Sprintf("SimpleWriter enc=%d target=%d: refused calls at every point of %s", enc, target, fmtBlocks(bs))
				}, func(t *T) {
					want := maskTime(swrite(t, "/vfs/clean", bs, enc, target, nil))
					n := 0
					check := func(at map[int][]int) {
						n++
						t.Sub(n)
						got := maskTime(swrite(t, "/vfs/f", bs, enc, target, at))
						t.Trace()
						t.State(hashStr(fmt.Sprint("s", hi, enc, target, at)))
						if got != want {
							t.Fail("trace", "the refused calls %v (position: calls) change the file", at)
						}
					}
					for p := 0; p <= len(bs); p++ {
						for k := range sb {
							check(map[int][]int{p: {k}})
							for q := p; q <= len(bs); q++ {
								if hi > 2 && !e.Thorough {
									continue
								}
								for l := range sb {
									m := map[int][]int{p: {k}}
									m[q] = append(m[q], l)
									check(m)
								}
							}
						}
					}
				}) {
					return
				}
			}
		}
	}
	e.Bound("%d SimpleWriter histories x encodings x 2 targets: every one and two of %d refused or empty calls at every position, and 6 calls after Close", len(shist), len(sb))
	// Reader: block numbers out of range, and use after Close.
	nums := func(n int) []uint64 {
		return []uint64{uint64(n), uint64(n) + 1, math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32, 1<<32 + 1, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
	}
	for hi, bs := range histories {
		for _, enc := range allEnc {
			if !e.Case(func() string { return fmt.Sprintf("Reader enc=%d: refused calls on %s", enc, fmtBlocks(bs)) }, func(t *T) {
				writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
				ids := []uint64{1, 2, 3}
				for _, row := range rowsOf(bs) {
					ids = append(ids, row.ID)
				}
				qs := queries(len(bs), ids)
				var want []string
				r0 := open(t, "/vfs/f")
				for _, q := range qs {
					want = append(want, q.f(r0))
				}
				closeReader(t, r0)
				for _, i := range nums(len(bs)) {
					r := open(t, "/vfs/f")
					for k, q := range qs {
						a, b, err := r.GetPairs(i)
						if err == nil {
							t.Fail("accepted", "GetPairs(%d) of %d blocks returns %v %v", i, len(bs), a, b)
						}
						if got := q.f(r); got != want[k] {
							t.Fail("trace", "after GetPairs(%d), %s gives %s, expected %s", i, q.name, got, want[k])
						}
						t.Op(2)
						t.Trace()
					}
					closeReader(t, r)
				}
				// After Close: errors, no panic, and no effect on another reader.
				other := open(t, "/vfs/f")
				r := open(t, "/vfs/f")
				closeReader(t, r)
				for k, q := range qs {
					q.f(r)
					if got := q.f(other); got != want[k] {
						t.Fail("trace", "after use of a closed reader, %s on another gives %s, expected %s", q.name, got, want[k])
					}
					t.Op(2)
				}
				for i := range bs {
					if _, _, err := r.GetPairs(uint64(i)); err == nil {
						t.Fail("accepted", "GetPairs(%d) on a closed reader succeeds", i)
					}
				}
				r.DisableGlobalIDBitmapCaching()
				if len(bs) > 0 {
					if _, err := r.GetGlobalIDBitmap(); err == nil {
						t.Fail("accepted", "GetGlobalIDBitmap on a closed reader succeeds")
					}
					if _, err := multicol.NewMultiReader([]*col.Reader{other, r}).Aggregate(multicol.AggregateOptions{}); err == nil {
						t.Fail("accepted", "a multi-file aggregate with a closed reader succeeds")
					}
				}
				if r.Close() == nil {
					t.Fail("accepted", "closing a reader twice succeeds")
				}
				closeReader(t, other)
				t.State(hashStr(fmt.Sprint("r", hi, enc)))
			}) {
				return
			}
		}
	}
	e.Bound("readers: 12 block numbers out of range before every query, every query after Close")
}
