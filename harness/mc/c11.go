package main

import (
	"fmt"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C11: after a crash at any point a file is either refused or complete, and
// it is complete once Finalize has returned.
func init() { props["C11"] = c11 }

// epoch is what happened between two syncs.
type epoch struct {
	base  []byte // contents at the last sync
	ops   []vfs.Rec
	after bool // everything in it happened after the file was finalized
}

// epochs cuts a log at the syncs. old is what the file held before it.
func epochs(log []vfs.Rec, finalizedAt int, old []byte) []epoch {
	var out []epoch
	cur := append([]byte(nil), old...)
	e := epoch{base: old}
	for i, r := range log {
		if i == finalizedAt && len(e.ops) > 0 {
			// what is not yet synced when Finalize returns must survive
			out = append(out, epoch{base: e.base, ops: e.ops, after: true})
		}
		switch r.Kind {
		case vfs.OpSync:
			if len(e.ops) > 0 {
				out = append(out, e)
			}
			e = epoch{base: append([]byte(nil), cur...), after: i >= finalizedAt}
		case vfs.OpWrite:
			e.ops = append(e.ops, r)
			cur = applyWrite(cur, r)
		case vfs.OpTruncate:
			if r.Off == 0 && len(cur) > 0 {
				// emptying a file frees its blocks, later writes go elsewhere:
				// what was there and what comes are never mixed
				if len(e.ops) > 0 {
					out = append(out, e)
				}
				e, cur = epoch{after: i >= finalizedAt}, nil
				continue
			}
			e.ops = append(e.ops, r)
			if int(r.Off) <= len(cur) {
				cur = cur[:r.Off]
			} else {
				cur = append(cur, make([]byte, int(r.Off)-len(cur))...)
			}
		}
	}
	if finalizedAt >= len(log) {
		e.after = true
	}
	return append(out, e)
}

func applyWrite(b []byte, r vfs.Rec) []byte {
	end := int(r.Off) + len(r.Data)
	for len(b) < end {
		b = append(b, 0)
	}
	copy(b[r.Off:], r.Data)
	return b
}

// granVersions lists, for every granule touched in the epoch, its successive
// contents (the first is the one at the last sync).
func (e *epoch) versions(gran int) (idx []int, vers [][][]byte, sizes []int) {
	cur := append([]byte(nil), e.base...)
	sizes = []int{len(cur)}
	pos := map[int]int{}
	at := func(b []byte, g int) []byte {
		out := make([]byte, gran)
		if g*gran < len(b) {
			copy(out, b[g*gran:])
		}
		return out
	}
	for _, r := range e.ops {
		if r.Kind == vfs.OpTruncate {
			if int(r.Off) < len(cur) {
				cur = cur[:r.Off]
			}
			sizes = append(sizes, len(cur))
			continue
		}
		old := append([]byte(nil), cur...)
		cur = applyWrite(cur, r)
		if len(cur) != sizes[len(sizes)-1] {
			sizes = append(sizes, len(cur))
		}
		if len(r.Data) == 0 {
			continue
		}
		for g := int(r.Off) / gran; g <= (int(r.Off)+len(r.Data)-1)/gran; g++ {
			k, ok := pos[g]
			if !ok {
				k = len(idx)
				pos[g] = k
				idx = append(idx, g)
				vers = append(vers, [][]byte{at(old, g)})
			}
			v := at(cur, g)
			if string(v) != string(vers[k][len(vers[k])-1]) {
				vers[k] = append(vers[k], v)
			}
		}
	}
	return
}

// states calls f with every content the device may have after a crash in the
// epoch: every touched granule at any of its successive contents, the file at
// any of its successive sizes. Above limit combinations, only combinations
// that keep all granules but one at their first or last content.
func (e *epoch) states(gran, limit int, f func(data []byte, desc func() string) bool) (n int, full bool) {
	idx, vers, sizes := e.versions(gran)
	total := len(sizes)
	full = true
	for _, v := range vers {
		total *= len(v)
		if total > limit {
			full = false
			break
		}
	}
	choice := make([]int, len(idx))
	var buf []byte
	emit := func() bool {
		for _, size := range sizes {
			n++
			buf = append(buf[:0], e.base...)
			for len(buf) < size {
				buf = append(buf, 0)
			}
			for k, g := range idx {
				end := min((g+1)*gran, len(buf))
				if g*gran < end {
					copy(buf[g*gran:end], vers[k][choice[k]])
				}
			}
			if !f(buf[:size], func() string {
				return fmt.Sprintf("size %d, granules of %d bytes %v at versions %v", size, gran, idx, choice)
			}) {
				return false
			}
		}
		return true
	}
	if full {
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == len(idx) {
				return emit()
			}
			for c := range vers[k] {
				choice[k] = c
				if !rec(k + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
		return
	}
	all := sizes
	// the process stops: everything up to one operation
	cur := append([]byte(nil), e.base...)
	for i, r := range e.ops {
		if r.Kind == vfs.OpTruncate {
			continue
		}
		cur = applyWrite(cur, r)
		n++
		if !f(cur, func() string { return fmt.Sprintf("everything up to write %d", i) }) {
			return
		}
	}
	// every subset of granules is new
	m := len(idx)
	sizes = []int{all[0], all[len(all)/2], all[len(all)-1]}
	for mask := 0; mask < 1<<min(m, 8); mask++ {
		for k := range choice {
			choice[k] = 0
			if mask>>min(k, 7)&1 == 1 {
				choice[k] = len(vers[k]) - 1
			}
		}
		if !emit() {
			return
		}
	}
	// one granule at any version, all others old or all new
	sizes = []int{all[0], all[len(all)-1]}
	for one := 0; one < m; one++ {
		for _, others := range []bool{false, true} {
			for k := range choice {
				choice[k] = 0
				if others {
					choice[k] = len(vers[k]) - 1
				}
			}
			for c := range vers[one] {
				choice[one] = c
				if !emit() {
					return
				}
			}
		}
	}
	return
}

// checkRecovered opens what a crash left behind: it is refused or complete.
func checkRecovered(t *T, data []byte, bs []Block, must bool, desc func() string) (opened bool) {
	vfs.Put("/vfs/crashed", data)
	r, err := col.NewReader("/vfs/crashed")
	t.Op(1)
	if err != nil {
		if vfs.Dev.OpenN != 0 {
			t.Fail("leak", "a refused file stays open: %s", desc())
		}
		if must {
			t.Fail("durability", "a finalized file is refused after a crash (%v): %s", err, desc())
		}
		return false
	}
	bad := func(format string, args ...any) {
		t.Fail("crash", "after a crash the file opens but is not complete: %s\n%s", fmt.Sprintf(format, args...), desc())
	}
	if r.BlockCount() != uint64(len(bs)) {
		bad("%d blocks, expected %d", r.BlockCount(), len(bs))
	}
	for i, b := range bs {
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil || len(ids) != len(b) || len(vals) != len(b) {
			bad("GetPairs(%d): %d IDs, %d values, %v, expected %d rows", i, len(ids), len(vals), err, len(b))
		}
		for j := range b {
			if ids[j] != b[j].ID || vals[j] != b[j].Val {
				bad("block %d row %d is %d:%d, expected %d:%d", i, j, ids[j], vals[j], b[j].ID, b[j].Val)
			}
		}
	}
	if d := refAgg(rowsOf(bs), nil).diff(r.Aggregate()); d != "" {
		bad("Aggregate: %s", d)
	}
	bm, err := r.GetGlobalIDBitmap()
	if err != nil {
		bad("GetGlobalIDBitmap: %v", err)
	}
	want := map[uint64]bool{}
	for _, row := range rowsOf(bs) {
		want[row.ID] = true
	}
	if bm.GetCardinality() != len(want) {
		bad("bitmap with %d IDs, expected %d", bm.GetCardinality(), len(want))
	}
	for id := range want {
		if !bm.Contains(id) {
			bad("bitmap without ID %d", id)
		}
	}
	r.Close()
	return true
}

func c11(e *Env) {
	limit := 1500
	if e.Thorough {
		limit = 40000
	}
	runOver := func(old []Block, oldEnc uint32, bs []Block, enc uint32, how int, gran int) bool {
		return e.Case(func() string {
			over := ""
			if old != nil {
				over = fmt.Sprintf(" over an existing file (enc=%d) %s", oldEnc, fmtBlocks(old))
			}
			return fmt.Sprintf("enc=%d%s %s, granule %d: %s", enc, over, []string{"Writer.FinalizeAndClose", "Writer.Finalize", "SimpleWriter", "Writer.Finalize with later calls"}[how], gran, fmtBlocks(bs))
		}, func(t *T) {
			var oldData []byte
			if old != nil {
				oldData = encodeFile(old, oldEnc, 4096)
				vfs.Put("/vfs/f", append([]byte(nil), oldData...))
			}
			vfs.Dev.LogWrites = true
			at := 0
			model := bs
			if how == 2 {
				w, err := col.NewSimpleWriter("/vfs/f", col.WithEncoding(enc))
				if err != nil {
					t.Fail("create", "NewSimpleWriter: %v", err)
				}
				for _, b := range bs {
					ids, vals := b.split()
					if err := w.Write(ids, vals); err != nil {
						t.Fail("write", "Write: %v", err)
					}
				}
				if err := w.Close(); err != nil {
					t.Fail("close", "Close: %v", err)
				}
				at = len(vfs.Dev.Log)
			} else {
				w, err := col.NewWriter("/vfs/f", col.WithEncoding(enc), col.WithBlockSize(bigBlock))
				if err != nil {
					t.Fail("create", "NewWriter: %v", err)
				}
				for _, b := range bs {
					ids, vals := b.split()
					if err := w.WriteBlock(ids, vals); err != nil {
						t.Fail("write", "WriteBlock: %v", err)
					}
				}
				if how == 0 {
					err = w.FinalizeAndClose()
					at = len(vfs.Dev.Log)
				} else {
					err = w.Finalize()
					at = len(vfs.Dev.Log)
					if how == 3 {
						// The complete file is not put at risk by further calls.
						w.Finalize()
						w.WriteBlock([]uint64{12345, 67}, []int64{8, -9})
						w.FinalizeAndClose()
					}
					w.Close()
				}
				if err != nil {
					t.Fail("finalize", "Finalize: %v", err)
				}
			}
			t.Op(len(bs) + 2)
			log := append([]vfs.Rec(nil), vfs.Dev.Log...)
			final := snapshot("/vfs/f")
			vfs.Reset()
			// The contents to expect are what the complete file holds.
			if how == 2 {
				vfs.Put("/vfs/f", append([]byte(nil), final...))
				r := open(t, "/vfs/f")
				model = readBlocks(t, r)
				closeReader(t, r)
				if d, ok := sameMultiset(rowsOf(model), rowsOf(bs)); !ok {
					t.Fail("rows", "the complete file is wrong: %s", d)
				}
				vfs.Reset()
			}
			checkRecovered(t, final, model, true, func() string { return "no crash" })
			eps := epochs(log, at, oldData)
			seen := map[uint64]bool{}
			opened := 0
			for i, ep := range eps {
				if len(eps) > 12 && i > 2 && i < len(eps)-6 {
					continue // blocks in the middle of long files are alike
				}
				n, full := ep.states(gran, limit, func(data []byte, desc func() string) bool {
					if old != nil && !ep.after && string(data) == string(oldData) {
						return true // the crash came before anything was changed
					}
					h := hash64(data)
					if seen[h] && !ep.after {
						return true
					}
					seen[h] = true
					t.Sub(len(seen))
					if checkRecovered(t, data, model, ep.after, func() string {
						return fmt.Sprintf("crash after sync %d (of %d): %s", i, len(eps)-1, desc())
					}) {
						opened++
					}
					t.State(h)
					t.Trace()
					return true
				})
				t.e.Count("crash states", int64(n))
				if !full {
					t.e.Count("epochs with restricted combinations", 1)
				} else {
					t.e.Count("epochs with all combinations", 1)
				}
			}
			t.e.Count("crash states that open", int64(opened))
			t.e.Count("crash points (writes)", int64(len(log)))
		})
	}
	run := func(bs []Block, enc uint32, how int, gran int) bool {
		return runOver(nil, 0, bs, enc, how, gran)
	}
	shapes := [][]int{nil, {1}, {2}, {1, 1}, {1, 2, 1}, {3, 300}, {300, 3}, {600}}
	if e.Thorough {
		shapes = append(shapes, []int{1, 1, 1, 1, 1}, []int{250, 251, 252}, []int{1000}, []int{1200, 1200})
	}
	for _, sh := range shapes {
		n := 0
		for _, s := range sh {
			n += s
		}
		for k := 0; k < numFamilies; k++ {
			for _, enc := range allEnc {
				if n > 100 && (k+int(enc))%4 > 0 && !e.Thorough {
					continue
				}
				for how := 0; how < 4; how++ {
					for _, gran := range []int{4096, 512} {
						if !run(cut(family(k, n), sh), enc, how, gran) {
							return
						}
					}
				}
			}
		}
	}
	e.Bound("%d block structures x %d shapes x encodings x FinalizeAndClose, Finalize (and further calls after it) and SimpleWriter x granules of 4096 and 512 bytes: every crash point, every combination of granule versions and file sizes of an epoch (up to %d combinations; above that every prefix of the writes, every subset of old and new granules, and every version of each granule with all others old or new)", len(shapes), numFamilies, limit)
	// Footers that cross a page, so that the closing metadata is torn.
	for _, n := range []int{72, 73, 74, 145, 146, 147} {
		for _, gran := range []int{4096, 512} {
			rows := family(5, n)
			var bs []Block
			for i := range rows {
				bs = append(bs, rows[i:i+1])
			}
			if !run(bs, 7, 1, gran) {
				return
			}
		}
	}
	e.Bound("72..74 and 145..147 blocks: block index and closing metadata across a page boundary")
	// The name is taken by a complete file of the same, fewer or more rows.
	olds := [][]int{{}, {1}, {2}, {1, 1}, {1, 2, 1}, {300}, {3, 300, 3}, {1, 1, 1, 1, 1, 1, 1}}
	for oi, old := range olds {
		for _, sh := range [][]int{nil, {1}, {1, 1}, {1, 2, 1}, {300}} {
			for k := 0; k < numFamilies; k += 3 {
				for _, enc := range []uint32{0, 3, 7} {
					for how := 0; how < 4; how++ {
						for _, gran := range []int{4096, 512} {
							n, m := 0, 0
							for _, s := range sh {
								n += s
							}
							for _, s := range old {
								m += s
							}
							o := cut(family((k+oi)%numFamilies, m), old)
							if o == nil {
								o = []Block{}
							}
							if !runOver(o, (enc+uint32(oi))%8, cut(family(k, n), sh), enc, how, gran) {
								return
							}
						}
					}
				}
			}
		}
	}
	e.Bound("the same over %d existing complete files x 5 block structures x 3 shapes x 3 encodings", len(olds))
}
