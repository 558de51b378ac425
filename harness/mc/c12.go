package main

import (
	"bytes"
	"fmt"
	"syscall"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C12: a failing write, sync or close is reported, and whatever the caller
// does next, a file that opens holds exactly the accepted blocks.
func init() { props["C12"] = c12 }

type faultPlan struct {
	at    int // number of the operation among the eligible ones
	kind  string
	fault func(size int) vfs.Fault
	hard  bool // must be reported
}

func writeFaults() []faultPlan {
	part := func(f func(n int) int, e syscall.Errno) func(int) vfs.Fault {
		return func(n int) vfs.Fault { return vfs.Fault{Err: e, Partial: f(n)} }
	}
	return []faultPlan{
		{kind: "EIO", fault: func(int) vfs.Fault { return vfs.Fault{Err: syscall.EIO, Partial: -1} }, hard: true},
		{kind: "ENOSPC after one byte", fault: part(func(n int) int { return min(1, n) }, syscall.ENOSPC), hard: true},
		{kind: "ENOSPC after half", fault: part(func(n int) int { return n / 2 }, syscall.ENOSPC), hard: true},
		{kind: "ENOSPC before the last byte", fault: part(func(n int) int { return n - 1 }, syscall.ENOSPC), hard: true},
		{kind: "short write", fault: part(func(n int) int { return n / 2 }, 0)},
		{kind: "EINTR", fault: func(int) vfs.Fault { return vfs.Fault{Err: syscall.EINTR, Partial: -1} }},
	}
}

type attempt struct {
	rows Block
	n    int // rows accepted
}

// strategies after an error
const (
	stAbort = iota
	stContinue
	stRetryOnce
	stRetryTwice
	numStrategies
)

var strategyNames = []string{"abort", "continue", "retry once", "retry twice"}

// eligible tells which operations of the device get faults.
func eligible(kind int) bool {
	return kind == vfs.OpWrite || kind == vfs.OpSync || kind == vfs.OpSeek || kind == vfs.OpClose || kind == vfs.OpOpen || kind == vfs.OpTruncate
}

// runFaulty runs a write history with faults and returns the accepted blocks,
// whether any call failed, whether the file was reported complete, and the
// number of eligible operations.
func runFaulty(t *T, bs []Block, enc, target uint32, simple bool, end int, plans []faultPlan, strategy int) (acc []Block, optional []Block, anyErr, complete bool, ops int, hit []bool, seekHit bool) {
	hit = make([]bool, len(plans))
	vfs.Dev.Decide = func(n, kind int, file *vfs.File, off int64, size int) (vfs.Fault, bool) {
		if !eligible(kind) {
			return vfs.Fault{Partial: -1}, false
		}
		i := ops
		ops++
		for k, p := range plans {
			if p.at != i {
				continue
			}
			f := p.fault(size)
			if kind != vfs.OpWrite {
				if f.Err == 0 || (f.Err == syscall.EINTR && (kind == vfs.OpClose || kind == vfs.OpSeek)) {
					return vfs.Fault{Partial: -1}, false
				}
				f.Partial = -1
			}
			if f.Err != 0 && f.Partial >= size {
				f.Partial = -1 // nothing left to fail otherwise
			}
			if kind == vfs.OpWrite && f.Partial == 0 && f.Err == 0 {
				return vfs.Fault{Partial: -1}, false
			}
			if kind == vfs.OpSeek {
				// Need not be reported if the data is right all the same.
				seekHit = true
				return f, true
			}
			hit[k] = true
			return f, true
		}
		return vfs.Fault{Partial: -1}, false
	}
	defer func() { vfs.Dev.Decide = nil }()
	tries := func(f func() error) error {
		err := f()
		for k := 0; err != nil && k < strategy-1 && strategy >= stRetryOnce; k++ {
			anyErr = true
			err = f()
		}
		if err != nil {
			anyErr = true
		}
		return err
	}
	if simple {
		w, err := col.NewSimpleWriter("/vfs/f", col.WithEncoding(enc))
		t.Op(1)
		if err != nil {
			return nil, nil, true, false, ops, hit, seekHit
		}
		if target != bigBlock {
			w.SetTargetBlockSize(int(target))
		}
		for _, b := range bs {
			ids, vals := b.split()
			failed := 0
			err := tries(func() error {
				t.Op(1)
				err := w.Write(ids, vals)
				if err != nil {
					failed++
				}
				return err
			})
			for i := 0; i < failed; i++ {
				optional = append(optional, b)
			}
			if err == nil {
				acc = append(acc, b)
			} else if strategy == stAbort {
				break
			}
		}
		err = tries(func() error { t.Op(1); return w.Close() })
		complete = err == nil
		return
	}
	w, err := col.NewWriter("/vfs/f", col.WithEncoding(enc), col.WithBlockSize(target))
	t.Op(1)
	if err != nil {
		return nil, nil, true, false, ops, hit, seekHit
	}
	for _, b := range bs {
		var err error
		for len(b) > 0 {
			n := 0
			err = tries(func() error {
				ids, vals := b.split()
				t.Op(1)
				err := w.WriteBlock(ids, vals)
				if bf, ok := err.(*col.BlockFullError); ok {
					n = bf.ItemsWritten
					return nil
				}
				if err == nil {
					n = len(b)
				}
				return err
			})
			if err != nil {
				break
			}
			acc = append(acc, b[:n])
			b = b[n:]
		}
		if err != nil && strategy == stAbort {
			if w.Close() != nil {
				anyErr = true
			}
			return
		}
	}
	if end > 0 {
		err = tries(func() error { t.Op(1); return w.Finalize() })
		complete = err == nil
		if end == 2 {
			// Finalizing again must not put the complete file at risk.
			err = tries(func() error { t.Op(1); return w.Finalize() })
			complete = complete || err == nil
		}
		if w.Close() != nil {
			anyErr = true
		}
	} else {
		err = tries(func() error { t.Op(1); return w.FinalizeAndClose() })
		complete = err == nil
		if err != nil {
			w.Close()
		}
	}
	return
}

func c12(e *Env) {
	type scenario struct {
		bs     []Block
		enc    uint32
		target uint32
		simple bool
		end    int // 0 FinalizeAndClose, 1 Finalize, Close, 2 Finalize, Finalize, Close
		old    int // rows of the complete file the history starts over, 0 for a new file
	}
	oldFiles := map[int][]byte{}
	// start puts the existing file, if any, back.
	start := func(s scenario) []byte {
		var data []byte
		if s.old > 0 {
			data = oldFiles[s.old]
			if data == nil {
				vfs.Reset()
				rows := family(2, s.old)
				data = encodeFile([]Block{rows[:s.old/2], rows[s.old/2:]}, 3, bigBlock)
				oldFiles[s.old] = data
			}
		}
		vfs.Reset()
		if data != nil {
			vfs.Put("/vfs/f", append([]byte(nil), data...))
		}
		return data
	}
	name := func(s scenario) string {
		how := "Writer, FinalizeAndClose"
		if s.end > 0 {
			how = []string{"", "Writer, Finalize, Close", "Writer, Finalize, Finalize, Close"}[s.end]
		}
		if s.simple {
			how = "SimpleWriter"
		}
		if s.old > 0 {
			how += fmt.Sprintf(" over an existing file of %d rows", s.old)
		}
		return fmt.Sprintf("%s enc=%d target=%d %s", how, s.enc, s.target, fmtBlocks(s.bs))
	}
	check := func(t *T, s scenario, plans []faultPlan, strategy int) {
		old := start(s)
		acc, optional, anyErr, complete, _, hit, seekHit := runFaulty(t, s.bs, s.enc, s.target, s.simple, s.end, plans, strategy)
		desc := func() string {
			d := "strategy " + strategyNames[strategy]
			for _, p := range plans {
				d += fmt.Sprintf("; %s at operation %d", p.kind, p.at)
			}
			return d
		}
		hard := false
		for i, p := range plans {
			hard = hard || (p.hard && hit[i])
		}
		if hard && !anyErr {
			t.Fail("silent", "the failure was not reported: %s", desc())
		}
		if !hard && anyErr && !seekHit {
			t.Fail("spurious", "an interrupted or short operation was reported as a failure: %s", desc())
		}
		if vfs.Dev.OpenN != 0 {
			t.Fail("leak", "%d handles still open: %s", vfs.Dev.OpenN, desc())
		}
		t.Trace()
		t.State(hash64(vfs.Bytes("/vfs/f")) ^ hashStr(desc()))
		if old != nil && !complete && len(acc)+len(optional) == 0 && anyErr && bytes.Equal(vfs.Bytes("/vfs/f"), old) {
			return // the file could not be opened for writing: still the old one
		}
		r, err := col.NewReader("/vfs/f")
		if err != nil {
			if complete {
				t.Fail("lost", "the file was reported complete but does not open (%v): %s", err, desc())
			}
			return
		}
		t.e.Count("files that open after a fault", 1)
		got := readBlocks(t, r)
		defer r.Close()
		var rows Block
		if s.simple {
			// Rows of failed calls may or may not be there.
			rows = rowsOf(got)
			extra := map[Row]int{}
			for _, x := range rows {
				extra[x]++
			}
			for _, x := range rowsOf(acc) {
				extra[x]--
				if extra[x] < 0 {
					t.Fail("wrong", "the file opens without the accepted row %v: %s", x, desc())
				}
			}
			for _, x := range rowsOf(optional) {
				if extra[x] > 0 {
					extra[x]--
				}
			}
			for x, n := range extra {
				if n > 0 {
					t.Fail("wrong", "the file opens with %d copies too many of row %v: %s", n, x, desc())
				}
			}
		} else {
			if len(got) != len(acc) {
				t.Fail("wrong", "the file opens with %d blocks, %d were accepted: %s", len(got), len(acc), desc())
			}
			for i := range got {
				if fmt.Sprint(got[i]) != fmt.Sprint(acc[i]) {
					t.Fail("wrong", "block %d differs from the accepted one: %s", i, desc())
				}
			}
			rows = rowsOf(acc)
		}
		if d := refAgg(rows, nil).diff(r.Aggregate()); d != "" {
			t.Fail("wrong", "the file opens with a wrong aggregate: %s: %s", d, desc())
		}
		want := map[uint64]bool{}
		for _, x := range rows {
			want[x.ID] = true
		}
		checkBitmap(t, "bitmap after "+desc(), getBitmap(t, r), want)
	}
	var scs []scenario
	small := [][]Block{nil, {family(0, 1)}, {family(1, 2), family(5, 2)}, {family(0, 1), family(3, 2), family(6, 1)}}
	for i, bs := range small {
		for _, enc := range allEnc {
			scs = append(scs, scenario{bs, enc, bigBlock, false, (i + int(enc)) % 3, 0}, scenario{bs, enc, bigBlock, true, 0, 0})
			if i < 3 {
				scs = append(scs, scenario{bs, enc, bigBlock, false, (i + int(enc) + 1) % 3, 0}, scenario{bs, enc, bigBlock, false, (i + int(enc) + 2) % 3, 0})
			}
		}
	}
	scs = append(scs, scenario{[]Block{family(0, 300), family(1, 5)}, 0, 4096, false, 0, 0}, scenario{[]Block{family(0, 600)}, 4, 4096, false, 1, 0},
		scenario{[]Block{family(0, 600), family(3, 600)}, 7, bigBlock, true, 0, 0}, scenario{[]Block{family(3, 1000), family(0, 10)}, 3, 4096, true, 0, 0})
	// The same histories over an existing file, shorter or longer than the new one.
	for i, bs := range small {
		for _, enc := range allEnc {
			for j, old := range []int{2, 9, 1200} {
				if (i+int(enc)+j)%3 > 0 && !e.Thorough {
					continue
				}
				scs = append(scs, scenario{bs, enc, bigBlock, false, (i + int(enc) + j) % 3, old}, scenario{bs, enc, bigBlock, true, 0, old})
			}
		}
	}
	for _, s := range scs {
		vfs.Reset()
		nOps := -1
		count := func(t *T) int {
			if nOps < 0 {
				start(s)
				_, _, anyErr, complete, n, _, _ := runFaulty(t, s.bs, s.enc, s.target, s.simple, s.end, nil, stAbort)
				if anyErr || !complete {
					t.Fail("clean", "the history fails without a fault")
				}
				nOps = n
			}
			return nOps
		}
		for strategy := 0; strategy < numStrategies; strategy++ {
			for fi, fp := range writeFaults() {
				if !e.Case(func() string {
					return fmt.Sprintf("%s: %s at every operation, strategy %s", name(s), fp.kind, strategyNames[strategy])
				}, func(t *T) {
					n := count(t)
					step := 1
					if n > 400 && !e.Thorough {
						step = n / 400 * (1 + fi) // long histories: a regular part of the positions
					}
					for at := 0; at < n; at++ {
						if step > 1 && at%step != 0 && at > 30 && at < n-60 {
							continue
						}
						t.Sub(at)
						p := fp
						p.at = at
						check(t, s, []faultPlan{p}, strategy)
						t.e.Count("single faults", 1)
					}
				}) {
					return
				}
			}
			// Every pair of faults.
			if len(s.bs) > 2 && !e.Thorough || len(s.bs) > 0 && len(s.bs[0]) > 10 {
				continue
			}
			if strategy == stAbort {
				continue
			}
			for _, kinds := range [][2]int{{0, 0}, {2, 0}, {3, 2}} {
				if !e.Case(func() string {
					return fmt.Sprintf("%s: faults %v at every pair of operations, strategy %s", name(s), kinds, strategyNames[strategy])
				}, func(t *T) {
					n := count(t)
					fp := writeFaults()
					for a := 0; a < n; a++ {
						t.Sub(a)
						for b := a + 1; b < n+10; b++ {
							p, q := fp[kinds[0]], fp[kinds[1]]
							p.at, q.at = a, b
							check(t, s, []faultPlan{p, q}, strategy)
							t.e.Count("pairs of faults", 1)
						}
					}
				}) {
					return
				}
			}
		}
	}
	e.Bound("%d write histories (Writer and SimpleWriter, 8 encodings, up to 4 blocks; new files and existing complete ones of 2, 9 and 1200 rows) x every open, truncate, seek, write, sync and close operation x 6 faults x 4 reactions of the caller (abort, continue, retry once, retry twice)", len(scs))
	e.Bound("short histories: every pair of such faults")
}
