package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C19: files and goroutines are released on every path.
func init() { props["C19"] = c19 }

// settled waits until no goroutine of the explored program is left. It
// returns the number of those that remain.
func settled(base int) int {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		runtime.Gosched()
	}
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base
}

// faultAt fails the operations in mask (by number from now on) in one way,
// and counts the operations.
func faultAt(mask uint64, errno syscall.Errno, partial bool, ops *int) {
	vfs.Dev.Decide = func(_, kind int, _ *vfs.File, _ int64, size int) (vfs.Fault, bool) {
		i := *ops
		*ops++
		if i < 64 && mask>>i&1 == 1 {
			if partial {
				if kind == vfs.OpRead {
					return vfs.Fault{Partial: size / 2}, true
				}
				if kind == vfs.OpWrite && size > 1 {
					return vfs.Fault{Err: errno, Partial: size / 2}, true
				}
			}
			return vfs.Fault{Err: errno, Partial: -1}, true
		}
		return vfs.Fault{Partial: -1}, false
	}
}

func faultAtN(at map[int]bool, errno syscall.Errno, ops *int) {
	vfs.Dev.Decide = func(int, int, *vfs.File, int64, int) (vfs.Fault, bool) {
		i := *ops
		*ops++
		if at[i] {
			return vfs.Fault{Err: errno, Partial: -1}, true
		}
		return vfs.Fault{Partial: -1}, false
	}
}

func c19(e *Env) {
	debug.SetGCPercent(-1) // finalizers would close what was forgotten
	defer debug.SetGCPercent(100)
	base := runtime.NumGoroutine()
	gc := 0
	released := func(t *T, what string) {
		if n := vfs.Dev.OpenN; n != 0 {
			t.Fail("handles", "%d files are still open after %s", n, what)
		}
		if n := settled(base); n > 0 {
			t.Fail("goroutines", "%d goroutines are still there after %s", n, what)
		}
		t.Trace()
		if gc++; gc%64 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1<<29 {
				runtime.GC()
			}
		}
	}

	// Writing. A history is a list of calls; each is tried once, or repeated
	// after a failure; then the object is closed.
	type history struct {
		name   string
		simple bool
		target uint32
		blocks []Block
		end    int // 0 FinalizeAndClose / SimpleWriter.Close, 1 Finalize, Close, 2 Close only
	}
	var hs []history
	for _, bs := range [][]Block{nil, {family(0, 2)}, {family(1, 2), family(3, 3)}} {
		for end := 0; end < 3; end++ {
			hs = append(hs, history{fmt.Sprintf("Writer, end %d", end), false, bigBlock, bs, end})
		}
		hs = append(hs, history{"SimpleWriter", true, bigBlock, bs, 0})
	}
	hs = append(hs, history{"SimpleWriter, several blocks", true, 4096, []Block{family(0, 1100)}, 0},
		history{"SimpleWriter, rows left over", true, 4096, []Block{family(0, 1100), family(1, 3)}, 0},
		history{"Writer, full block", false, 4096, []Block{family(0, 300)}, 0})
	runHistory := func(t *T, h history, repeat, again bool) {
		tries := func(f func() error) error {
			err := f()
			t.Op(1)
			if err != nil && repeat {
				err = f()
				t.Op(1)
			}
			return err
		}
		if h.simple {
			w, err := col.NewSimpleWriter("/vfs/f", col.WithEncoding(3), col.WithBlockSize(h.target))
			if err != nil {
				return
			}
			w.SetTargetBlockSize(int(h.target))
			for _, b := range h.blocks {
				ids, vals := b.split()
				if tries(func() error { return w.Write(ids, vals) }) != nil && !again {
					break
				}
			}
			w.Close()
			return
		}
		w, err := col.NewWriter("/vfs/f", col.WithEncoding(3), col.WithBlockSize(h.target))
		if err != nil {
			return
		}
		for _, b := range h.blocks {
			ids, vals := b.split()
			err := tries(func() error { return w.WriteBlock(ids, vals) })
			if _, full := err.(*col.BlockFullError); err != nil && !full && !again {
				break
			}
		}
		switch h.end {
		case 0:
			w.FinalizeAndClose()
		case 1:
			tries(w.Finalize)
			w.Close()
		case 2:
			w.Close()
		}
	}
	for _, h := range hs {
		for mode := 0; mode < 3; mode++ {
			repeat, again := mode == 1, mode == 2
			if !e.Case(func() string {
				return fmt.Sprintf("%s, %s, failing operations, repeat %v, go on %v", h.name, fmtBlocks(h.blocks), repeat, again)
			}, func(t *T) {
				ops := 0
				faultAt(0, 0, false, &ops)
				runHistory(t, h, repeat, again)
				released(t, "an undisturbed history")
				n := ops
				long := len(h.blocks) > 0 && len(h.blocks[0]) > 100 && !e.Thorough
				for at := 0; at < n+2; at++ {
					t.Sub(at)
					for _, errno := range []syscall.Errno{syscall.EIO, syscall.ENOSPC} {
						if errno == syscall.ENOSPC && long {
							continue
						}
						vfs.Reset()
						i := 0
						faultAtN(map[int]bool{at: true}, errno, &i)
						runHistory(t, h, repeat, again)
						t.State(hashStr(fmt.Sprint(h.name, len(h.blocks), mode, at, errno)))
						released(t, fmt.Sprintf("operation %d of %d failed", at, n))
					}
					// everything fails from here on
					vfs.Reset()
					i := 0
					all := map[int]bool{}
					for k := at; k < n+200; k++ {
						all[k] = true
					}
					faultAtN(all, syscall.EIO, &i)
					runHistory(t, h, repeat, again)
					released(t, fmt.Sprintf("all operations from %d of %d on failed", at, n))
					if long {
						continue
					}
					for b := at + 1; b < n+4; b++ {
						vfs.Reset()
						i := 0
						faultAtN(map[int]bool{at: true, b: true}, syscall.EIO, &i)
						runHistory(t, h, repeat, again)
						t.State(hashStr(fmt.Sprint(h.name, len(h.blocks), mode, at, b)))
						released(t, fmt.Sprintf("operations %d and %d of %d failed", at, b, n))
					}
				}
			}) {
				return
			}
		}
	}
	e.Bound("%d write histories x 3 reactions of the caller x every operation (open, stat, seek, truncate, write, sync, close) failing, every pair of them (not for blocks of hundreds of rows), all of them from some point on", len(hs))

	// Opening files that are not readable, whole or in parts.
	good := []Block{{{1, 10}, {2, -20}}, {{3, 30}, {5, 7}}, {{9, 1}}, {{70000, 4}}}
	var data []byte
	prepare := func(t *T) []byte {
		if data == nil {
			writeBlocks(t, "/vfs/f", good, 3, bigBlock)
			data = snapshot("/vfs/f")
		}
		vfs.Reset()
		return data
	}
	for part := 0; part < 16; part++ {
		if !e.Case(func() string { return fmt.Sprintf("opening damaged files, part %d", part) }, func(t *T) {
			d := prepare(t)
			try := func(b []byte, what string) {
				vfs.Reset()
				vfs.Put("/vfs/f", b)
				r, err := col.NewReader("/vfs/f")
				t.Op(1)
				if err == nil {
					r.GetPairs(0)
					r.GetGlobalIDBitmap()
					r.AggregateWithOptions(col.AggregateOptions{Parallel: 2, SkipPreCalculated: true})
					r.Close()
				}
				t.State(hash64(b))
				released(t, what)
			}
			for n := part; n <= len(d); n += 16 {
				if n > 100 && n < len(d)-400 && n%(16*7) != part {
					continue
				}
				try(d[:n:n], fmt.Sprintf("a file cut to %d bytes", n))
			}
			p, _ := parse(d)
			for i := part; i < len(d); i += 16 {
				if i >= 64 && i < p.FooterOff && i%4096 > 160 {
					continue
				}
				for _, v := range []byte{0, 1, 0x7f, 0xff} {
					b := append([]byte(nil), d...)
					b[i] ^= v
					try(b, fmt.Sprintf("byte %d changed", i))
				}
			}
		}) {
			return
		}
	}
	e.Bound("opening a file cut to any length near its structures, and with any byte of its metadata changed in 4 ways")

	// Queries with every operation failing.
	for fi, files := range [][][]Block{{good, {{{2, 5}, {3, 6}}, {{11, 8}}}}, {family2(9), {{{1, 2}}}}, {nil, {{{1, 1}}}}} {
		qs := faultQueries(files)
		for qi, q := range qs {
			if !e.Case(func() string { return fmt.Sprintf("files %d: %s with failing operations", fi, q.name) }, func(t *T) {
				names := []string{"/vfs/a", "/vfs/b"}
				var datas [][]byte
				for i, n := range names {
					writeBlocks(t, n, files[i], 3, bigBlock)
					datas = append(datas, snapshot(n))
				}
				run := func(what string, faults func(ops *int)) int {
					vfs.Reset()
					var rs []*col.Reader
					for i, n := range names {
						vfs.Put(n, datas[i])
						rs = append(rs, open(t, n))
					}
					held := vfs.Dev.OpenN
					ops := 0
					faults(&ops)
					q.run(rs)
					t.Op(1)
					if n := settled(base); n > 0 {
						t.Fail("goroutines", "%d goroutines outlive the query: %s", n, what)
					}
					if vfs.Dev.OpenN > held {
						t.Fail("handles", "the query left %d more files open: %s", vfs.Dev.OpenN-held, what)
					}
					vfs.Dev.Decide = nil
					for _, r := range rs {
						r.Close()
					}
					released(t, what)
					return ops
				}
				n := run("no failure", func(ops *int) { faultAt(0, 0, false, ops) })
				m := min(n, 8)
				if e.Thorough {
					m = min(n, 12)
				}
				for mask := uint64(1); mask < 1<<m; mask++ {
					t.Sub(int(mask))
					for _, partial := range []bool{false, true} {
						run(fmt.Sprintf("failing operations %b of %d", mask, n), func(ops *int) { faultAt(mask, syscall.EIO, partial, ops) })
						t.State(hashStr(fmt.Sprint(fi, qi, mask, partial)))
					}
				}
				for at := 0; at <= n; at++ {
					run(fmt.Sprintf("operations from %d of %d on fail", at, n), func(ops *int) { faultAt(^uint64(0)<<at, syscall.EIO, false, ops) })
				}
			}) {
				return
			}
		}
	}
	e.Bound("3 pairs of files x every query x every subset of its first 8 operations failing, all of them from some point on: no goroutine and no handle outlives the query")

	// Closing several readers of which some fail.
	for n := 0; n <= 4; n++ {
		for mask := uint64(0); mask < 1<<n; mask++ {
			if !e.Case(func() string { return fmt.Sprintf("MultiReader of %d files, closing %b fails", n, mask) }, func(t *T) {
				var rs []*col.Reader
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("/vfs/m%d", i)
					writeBlocks(t, name, good[:1+i%3], 3, bigBlock)
					rs = append(rs, open(t, name))
				}
				mr := multicol.NewMultiReader(rs)
				if _, err := mr.Aggregate(multicol.AggregateOptions{}); err != nil {
					t.Fail("aggregate", "Aggregate: %v", err)
				}
				ops := 0
				faultAt(mask, syscall.EIO, false, &ops)
				err := mr.Close()
				vfs.Dev.Decide = nil
				t.Op(2)
				released(t, "MultiReader.Close")
				if (err != nil) != (mask != 0) {
					t.Fail("error", "MultiReader.Close returns %v", err)
				}
				for i, r := range rs {
					if r.Close() == nil {
						t.Fail("open", "reader %d is still open after MultiReader.Close", i)
					}
				}
				t.State(hashStr(fmt.Sprint("multi", n, mask)))
			}) {
				return
			}
		}
	}
	e.Bound("closing up to 4 readers at once, every subset of the closes failing")
}

func family2(n int) []Block {
	var bs []Block
	for i := 0; i < n; i++ {
		bs = append(bs, Block{{uint64(2*i + 1), int64(i)}, {uint64(2*i + 2), -int64(i)}})
	}
	return bs
}
