package main

import (
	"fmt"
	"sort"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C09: SimpleWriter stores every accepted row exactly once.
// C10: SimpleWriter orders the rows of every block by ID.
func init() {
	props["C09"] = func(e *Env) { c09(e, false) }
	props["C10"] = func(e *Env) { c09(e, true) }
}

// swOp is one call on a SimpleWriter.
type swOp struct {
	kind   int // 0 write, 1 set target, 2 mismatched write, 3 empty write
	rows   Block
	target int
}

func swName(ops []swOp) string {
	s := ""
	for _, o := range ops {
		switch o.kind {
		case 0:
			s += fmt.Sprintf("Write(%s) ", fmtBlocks([]Block{o.rows}))
		case 1:
			s += fmt.Sprintf("SetTargetBlockSize(%d) ", o.target)
		case 2:
			s += "Write(mismatched) "
		case 3:
			s += "Write(empty) "
		}
	}
	return s
}

func readBlocks(t *T, r *col.Reader) []Block {
	var out []Block
	for i := uint64(0); i < r.BlockCount(); i++ {
		ids, vals, err := r.GetPairs(i)
		t.Op(1)
		if err != nil {
			t.Fail("getpairs-error", "GetPairs(%d): %v", i, err)
		}
		if len(ids) != len(vals) {
			t.Fail("rows", "GetPairs(%d) returned %d IDs and %d values", i, len(ids), len(vals))
		}
		b := make(Block, len(ids))
		for j := range b {
			b[j] = Row{ids[j], vals[j]}
		}
		out = append(out, b)
	}
	return out
}

func sortRows(b Block) {
	sort.Slice(b, func(i, j int) bool {
		if b[i].ID != b[j].ID {
			return b[i].ID < b[j].ID
		}
		return b[i].Val < b[j].Val
	})
}

func sameMultiset(a, b Block) (string, bool) {
	a, b = append(Block(nil), a...), append(Block(nil), b...)
	sortRows(a)
	sortRows(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("sorted row %d is %v, expected %v", i, a[i], b[i]), false
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows, expected %d", len(a), len(b)), false
	}
	return "", true
}

func runSW(t *T, ops []swOp, enc uint32, ordered bool) {
	w, err := col.NewSimpleWriter("/vfs/f", col.WithEncoding(enc))
	if err != nil {
		t.Fail("create", "NewSimpleWriter: %v", err)
	}
	var all Block
	last := uint64(0)
	for i, o := range ops {
		t.Op(1)
		switch o.kind {
		case 0:
			ids, vals := o.rows.split()
			if err := w.Write(ids, vals); err != nil {
				t.Fail("write", "Write %d: %v", i, err)
			}
			all = append(all, o.rows...)
		case 1:
			if err := w.SetTargetBlockSize(o.target); err != nil {
				t.Fail("settarget", "SetTargetBlockSize: %v", err)
			}
		case 2:
			if err := w.Write([]uint64{77, 78}, []int64{1}); err == nil {
				t.Fail("mismatch", "Write of 2 IDs and 1 value succeeded")
			}
		case 3:
			if err := w.Write(nil, nil); err != nil {
				t.Fail("empty", "Write of nothing: %v", err)
			}
		}
		n := w.TotalItems()
		if n < last || n > uint64(len(all)) {
			t.Fail("total", "TotalItems is %d after %d before and %d accepted rows", n, last, len(all))
		}
		last = n
		if w.IsClosed() {
			t.Fail("closed", "IsClosed before Close")
		}
	}
	if err := w.Close(); err != nil {
		t.Fail("close", "Close: %v", err)
	}
	if n := w.TotalItems(); n != uint64(len(all)) {
		t.Fail("total", "TotalItems is %d after Close, expected %d", n, len(all))
	}
	if !w.IsClosed() {
		t.Fail("closed", "IsClosed is false after Close")
	}
	before := snapshot("/vfs/f")
	if w.Write([]uint64{1}, []int64{1}) == nil {
		t.Fail("closed", "Write after Close succeeded")
	}
	if w.SetTargetBlockSize(4096) == nil {
		t.Fail("closed", "SetTargetBlockSize after Close succeeded")
	}
	if err := w.Close(); err != nil {
		t.Fail("closed", "second Close: %v", err)
	}
	if n := w.TotalItems(); n != uint64(len(all)) {
		t.Fail("total", "TotalItems is %d after a rejected Write, expected %d", n, len(all))
	}
	if string(before) != string(vfs.Bytes("/vfs/f")) {
		t.Fail("closed", "calls after Close changed the file")
	}
	r := open(t, "/vfs/f")
	bs := readBlocks(t, r)
	if ordered {
		for i, b := range bs {
			for j := 1; j < len(b); j++ {
				if b[j].ID < b[j-1].ID {
					t.Fail("order", "block %d: ID %d at row %d follows ID %d", i, b[j].ID, j, b[j-1].ID)
				}
			}
		}
	} else {
		if d, ok := sameMultiset(rowsOf(bs), all); !ok {
			t.Fail("rows", "the file does not hold the accepted rows: %s", d)
		}
		checkAgg(t, "Aggregate()", r.Aggregate(), refAgg(all, nil))
		want := map[uint64]bool{}
		for _, row := range all {
			want[row.ID] = true
		}
		if n := getBitmap(t, r).GetCardinality(); n != len(want) {
			t.Fail("bitmap", "bitmap of %d IDs, expected %d", n, len(want))
		}
	}
	closeReader(t, r)
	t.Trace()
	t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
}

func c09(e *Env, ordered bool) {
	run := func(ops []swOp, enc uint32) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d %sClose", enc, swName(ops)) }, func(t *T) { runSW(t, ops, enc, ordered) })
	}
	// Small: every order of few rows over several calls.
	ids := []uint64{1, 2, 1<<64 - 1}
	maxRows := 4
	if e.Thorough {
		maxRows = 5
	}
	for n := 1; n <= maxRows; n++ {
		if !seqs(n, len(ids), func(s []int) bool {
			rows := make(Block, n)
			x := 0
			for i, k := range s {
				rows[i] = Row{ids[k], int64(i + 1)}
				x = x*3 + k
			}
			return compositions(n, func(sizes []int) bool {
				for _, target := range []int{0, 1, 4096} {
					var ops []swOp
					if target > 0 {
						ops = append(ops, swOp{kind: 1, target: target})
					}
					for _, b := range cut(rows, sizes) {
						ops = append(ops, swOp{kind: 0, rows: b})
					}
					x++
					if !run(ops, uint32(x)%8) {
						return false
					}
				}
				return true
			})
		}) {
			return
		}
	}
	e.Bound("every sequence of up to %d rows over 3 IDs, split into calls in every way x 3 block size targets", maxRows)
	// Rows that are equal in ID and value.
	equal := Block{{1, 7}, {1, 8}, {2, 7}, {2, 0}, {1<<64 - 1, 7}, {0, 0}}
	for n := 2; n <= maxRows; n++ {
		if !seqs(n, len(equal), func(s []int) bool {
			rows := make(Block, n)
			x := 0
			for i, k := range s {
				rows[i] = equal[k]
				x = x*5 + k
			}
			return compositions(n, func(sizes []int) bool {
				if n > 4 && (x+len(sizes))%4 > 0 {
					return true
				}
				var ops []swOp
				x++
				if target := []int{0, 1, 4096}[x%3]; target > 0 {
					ops = append(ops, swOp{kind: 1, target: target})
				}
				for _, b := range cut(rows, sizes) {
					ops = append(ops, swOp{kind: 0, rows: b})
				}
				return run(ops, uint32(x)%8)
			})
		}) {
			return
		}
	}
	for _, n := range []int{20, 100, 999, 1000, 1001, 2500} {
		for calls := 1; calls <= 3; calls++ {
			for _, mod := range []int{1, 2, 3, 10} {
				for _, target := range []int{0, 4096} {
					var ops []swOp
					if target > 0 {
						ops = append(ops, swOp{kind: 1, target: target})
					}
					for c := 0; c < calls; c++ {
						b := make(Block, n)
						for i := range b {
							b[i] = Row{uint64(i * 7 % mod), int64(i % 2)}
						}
						ops = append(ops, swOp{kind: 0, rows: b})
					}
					if !run(ops, uint32(n+calls+mod)%8) {
						return
					}
				}
			}
		}
	}
	e.Bound("every sequence of 2..%d rows over 6 rows (equal IDs, equal values, equal rows), split into calls in every way, and up to 7500 rows with few different IDs and values", maxRows)
	// Batches around the flush threshold.
	sizes := []int{0, 1, 2, 500, 999, 1000, 1001, 1500, 2500}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	for n := 1; n <= depth; n++ {
		if !seqs(n, len(sizes), func(s []int) bool {
			total, x := 0, 0
			for _, k := range s {
				total += sizes[k]
				x = x*7 + k
			}
			for shape := 0; shape < 4; shape++ {
				kind := []int{0, 3, 4, 6}[shape]
				if n == 3 && shape != x%4 && !e.Thorough {
					continue
				}
				if n == 4 && shape != x%4 {
					continue
				}
				rows := append(Block(nil), family(kind, total)...)
				for i := range rows {
					rows[i].Val = int64(i)*37 - 5000
				}
				var ops []swOp
				switch x % 3 {
				case 1:
					ops = append(ops, swOp{kind: 1, target: 4096})
				case 2:
					ops = append(ops, swOp{kind: 1, target: 8192})
				}
				rest := rows
				for i, k := range s {
					if sizes[k] == 0 {
						ops = append(ops, swOp{kind: 3})
						continue
					}
					ops = append(ops, swOp{kind: 0, rows: rest[:sizes[k]]})
					rest = rest[sizes[k]:]
					if i == 0 && x%5 == 0 {
						ops = append(ops, swOp{kind: 2})
					}
					if i == 0 && x%7 == 0 {
						ops = append(ops, swOp{kind: 1, target: 16384})
					}
				}
				if !run(ops, []uint32{0, 3, 7, 4, 5, 6, 1, 2}[x%8]) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	e.Bound("every sequence of 1..%d batches of %v rows, with rejected and empty calls and target changes in between", depth, sizes)
	// Unsorted batches that interleave with each other, several blocks.
	for _, per := range []int{1, 10, 300, 400, 1001} {
		for calls := 2; calls <= 5; calls++ {
			for perm := 0; perm < 3; perm++ {
				for _, target := range []int{0, 4096, 10000} {
					var ops []swOp
					if target > 0 {
						ops = append(ops, swOp{kind: 1, target: target})
					}
					for c := 0; c < calls; c++ {
						b := make(Block, per)
						for i := range b {
							switch perm {
							case 0: // later calls have smaller IDs
								b[i] = Row{uint64((calls-c)*per + i), int64(c*per + i)}
							case 1: // calls interleave
								b[i] = Row{uint64(i*calls + (calls - c)), int64(c*per + i)}
							case 2: // each call is shuffled
								b[i] = Row{uint64((i*7919 + c*31) % (per*calls + 1)), int64(c*per + i)}
							}
						}
						ops = append(ops, swOp{kind: 0, rows: b})
					}
					if !run(ops, uint32(per+calls+perm)%8) {
						return
					}
				}
			}
		}
	}
	e.Bound("2..5 overlapping, descending and shuffled batches of 1..1001 rows x 3 targets")
	// Two and three sorted runs that overlap in every way.
	lens := []int{1, 2, 249, 300, 500, 501, 700, 701, 999, 1000, 1001}
	for i, n1 := range lens {
		for j, n2 := range lens {
			for shape := 0; shape < 6; shape++ {
				var ops []swOp
				if (i+j)%3 > 0 {
					ops = append(ops, swOp{kind: 1, target: []int{4096, 32768}[(i+j)%3-1]})
				}
				add := func(start, step uint64, n int) {
					b := make(Block, n)
					for k := range b {
						b[k] = Row{start + step*uint64(k), int64(len(ops)*10000 + k)}
					}
					ops = append(ops, swOp{kind: 0, rows: b})
				}
				switch shape {
				case 0:
					add(0, 2, n1)
					add(1, 2, n2)
				case 1: // the second inside the first
					add(0, 10, n1)
					add(5, 1, n2)
				case 2: // the first inside the second
					add(1000, 1, n1)
					add(0, 7, n2)
				case 3: // overlap at the end
					add(0, 1, n1)
					add(uint64(n1)-1, 1, n2)
				case 4:
					add(0, 3, n1)
					add(2, 3, n2)
					add(1, 3, n1)
				case 5:
					add(0, 1, n1)
					add(uint64(n1)/2, 1, n2)
					add(uint64(n1)/2, 0, 1)
				}
				if !run(ops, uint32(i+j+shape)%8) {
					return
				}
			}
		}
	}
	e.Bound("two and three sorted runs of %v rows, interleaved, nested and overlapping (6 ways)", lens)
	// A sorted batch with one row out of place.
	for _, n := range []int{3, 4, 5, 8, 9, 16, 17, 32, 64, 100, 999, 1000, 1001, 1024, 1500, 2001} {
		var at []int
		for i := 0; i < n; i++ {
			if n <= 100 || i < 3 || i > n-4 || i%(n/8) < 3 {
				at = append(at, i)
			}
		}
		for _, i := range at {
			for _, to := range []int{-1, 0, 1, 2, 3, 4} {
				b := make(Block, n)
				for k := range b {
					b[k] = Row{uint64(k) * 2, int64(k)}
				}
				switch to {
				case -1:
					b[i].ID = 1<<64 - 1
				case 0:
					b[i].ID = 0
				case 1: // swapped with the next one
					b[i], b[(i+1)%n] = b[(i+1)%n], b[i]
				case 2: // just below the one before
					b[i].ID = b[(i+n-1)%n].ID - 1
				case 3: // swapped with the middle
					b[i], b[n/2] = b[n/2], b[i]
				case 4: // swapped with the last
					b[i], b[n-1] = b[n-1], b[i]
				}
				for _, calls := range []int{1, 2} {
					if calls == 2 && n > 100 && to%2 == 0 && !e.Thorough {
						continue
					}
					var ops []swOp
					if calls == 1 {
						ops = []swOp{{kind: 0, rows: b}}
					} else {
						ops = []swOp{{kind: 0, rows: b[:n/2]}, {kind: 0, rows: b[n/2:]}}
					}
					if !run(ops, uint32(i+to+2)%8) {
						return
					}
				}
			}
		}
	}
	e.Bound("sorted batches of 3..2001 rows with one row out of place (up to 100 rows: each place) in 6 ways, in one call and in two")
	// Calls with many rows.
	large := []int{32768, 65535, 65536, 65537, 70000}
	for _, n := range large {
		for _, kind := range []int{0, 3, 5} {
			for _, target := range []int{0, 32768, 1 << 20, 1 << 24} {
				if target == 1<<20 && !e.Thorough {
					continue // the time is quadratic in the rows of a block
				}
				for calls := 1; calls <= 2; calls++ {
					rows := append(Block(nil), family(kind, n+(calls-1)*10)...)
					for i := range rows {
						rows[i].Val = int64(i)*37 - 5000
					}
					if kind == 3 { // not sorted
						for i := 0; i+1 < len(rows); i += 2 {
							rows[i].ID, rows[i+1].ID = rows[i+1].ID, rows[i].ID
						}
					}
					var ops []swOp
					if target > 0 {
						ops = append(ops, swOp{kind: 1, target: target})
					}
					ops = append(ops, swOp{kind: 0, rows: rows[:n]})
					if calls == 2 {
						ops = append(ops, swOp{kind: 0, rows: rows[n:]})
					}
					if !run(ops, uint32(n+kind+calls+target>>16)%8) {
						return
					}
				}
			}
		}
	}
	e.Bound("calls with %v rows x 3 shapes x 3 targets (thorough: 4), alone and followed by a small one", large)
}
