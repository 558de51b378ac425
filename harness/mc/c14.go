package main

import (
	"fmt"
	"math"
	"runtime/metrics"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C14: truncated or damaged files give errors or rows that are really there.
func init() { props["C14"] = c14 }

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// field is a metadata field of a file.
type field struct {
	name string
	off  int
	size int
}

func fieldsOf(p *pFile) []field {
	fs := []field{{"magic", 0, 8}, {"version", 8, 4}, {"column type", 12, 4}, {"block count", 16, 8}, {"block size target", 24, 4}, {"compression", 28, 4},
		{"encoding", 32, 4}, {"creation time", 36, 8}, {"bitmap offset", 44, 8}, {"bitmap size", 52, 8}, {"reserved", 60, 4}}
	for i, e := range p.Entries {
		o := int(e.Off)
		for _, f := range []field{{"min ID", 0, 8}, {"max ID", 8, 8}, {"min value", 16, 8}, {"max value", 24, 8}, {"sum", 32, 8}, {"count", 40, 4}, {"encoding", 44, 4},
			{"compression", 48, 4}, {"uncompressed size", 52, 4}, {"compressed size", 56, 4}, {"rest", 60, 4}, {"ID section offset", 64, 4}, {"ID section size", 68, 4}, {"value section offset", 72, 4}, {"value section size", 76, 4}} {
			fs = append(fs, field{fmt.Sprintf("block %d %s", i, f.name), o + f.off, f.size})
		}
	}
	fs = append(fs, field{"index count", p.FooterOff, 4})
	for i := range p.Entries {
		o := p.FooterOff + 4 + 56*i
		for _, f := range []field{{"offset", 0, 8}, {"size", 8, 4}, {"min ID", 12, 8}, {"max ID", 20, 8}, {"min value", 28, 8}, {"max value", 36, 8}, {"sum", 44, 8}, {"count", 52, 4}} {
			fs = append(fs, field{fmt.Sprintf("index %d %s", i, f.name), o + f.off, f.size})
		}
	}
	m := p.FooterOff + int(p.FooterSize)
	fs = append(fs, field{"footer size", m, 8}, field{"checksum", m + 8, 8}, field{"closing magic", m + 16, 8})
	if p.BmSize > 0 {
		fs = append(fs, field{"bitmap length", int(p.BmOff), 4})
	}
	return fs
}

func (f field) get(b []byte) uint64 {
	if f.size == 4 {
		return uint64(le.Uint32(b[f.off:]))
	}
	return le.Uint64(b[f.off:])
}

func (f field) set(b []byte, v uint64) {
	if f.size == 4 {
		le.PutUint32(b[f.off:], uint32(v))
	} else {
		le.PutUint64(b[f.off:], v)
	}
}

// values a damaged field takes
func (f field) values(data []byte, p *pFile) []uint64 {
	v := f.get(data)
	n := uint64(len(data))
	vs := []uint64{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 24, 56, 60, 63, 64, 79, 80, 81, 4095, 4096, 4097, v - 1, v + 1, v * 2, v / 2, v - 8, v + 8, v ^ 0xff, v << 8, v << 32, v ^ 1<<31, v ^ 1<<63,
		n, n - 1, n + 1, n - 24, n - 64, n - 80, n - 28, n * 8, uint64(p.FooterOff), uint64(p.FooterOff) + 4, p.BmOff, p.BmSize, p.BmSize - 4,
		math.MaxInt8, math.MaxUint8, math.MaxInt16, math.MaxUint16, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 - 15, math.MaxUint32 - 16, math.MaxUint32 - 63, math.MaxUint32 - 79, 1 << 32, 1 << 40,
		math.MaxInt64, math.MaxInt64 - 24, math.MaxInt64 - 64, math.MaxInt64 - 80, 1 << 63, 1<<63 + 64, math.MaxUint64, math.MaxUint64 - 7, math.MaxUint64 - 23, math.MaxUint64 - 63, math.MaxUint64 - 79, math.MaxUint64 - 4095,
		math.MaxUint64/56 + 1, math.MaxUint32/56 + 1, magic}
	for _, e := range p.Entries {
		vs = append(vs, e.Off, e.Off+64, e.Off+80, uint64(e.Size), uint64(e.Count))
	}
	seen := map[uint64]bool{v: true}
	var out []uint64
	for _, x := range vs {
		if f.size == 4 {
			x = uint64(uint32(x))
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// lenient reads what a damaged file's metadata refers to. ok is false if the
// file has to be refused.
func lenient(data []byte) (p *pFile, ok bool) {
	c := append([]byte(nil), data...)
	if len(c) >= 60 {
		le.PutUint64(c[44:], 0) // the bitmap is judged separately
		le.PutUint64(c[52:], 0)
	}
	p, err := parse(c)
	if err != nil {
		return nil, false
	}
	if p.Blocks > uint64(len(p.Entries)) {
		return nil, false
	}
	return p, true
}

// checkDamaged opens and queries a damaged file.
func checkDamaged(t *T, data []byte, ids []uint64, desc func() string) {
	vfs.Reset()
	vfs.Put("/vfs/d", data)
	before := allocated()
	r, err := col.NewReader("/vfs/d")
	t.Op(1)
	t.Trace()
	if err != nil {
		if vfs.Dev.OpenN != 0 {
			t.Fail("leak", "the refused file stays open: %s", desc())
		}
		t.e.Count("refused", 1)
		return
	}
	defer r.Close()
	p, ok := lenient(data)
	if !ok {
		t.Fail("accepted", "an invalid file is accepted: %s", desc())
	}
	t.e.Count("opened", 1)
	n := len(p.Entries)
	if r.BlockCount() != uint64(n) {
		t.Fail("blocks", "the file opens with %d blocks, its index has %d: %s", r.BlockCount(), n, desc())
	}
	readable := make([]bool, n)
	var all Agg
	for i := 0; i < n; i++ {
		ids, vals, err := r.GetPairs(uint64(i))
		t.Op(1)
		if err != nil {
			continue
		}
		readable[i] = true
		e := p.Entries[i]
		if e.RowsErr != nil {
			t.Fail("invented", "GetPairs(%d) returns rows that are not in the file (%v): %v %v: %s", i, e.RowsErr, ids, vals, desc())
		}
		if len(ids) != len(e.Rows) || len(vals) != len(e.Rows) {
			t.Fail("invented", "GetPairs(%d) returns %d IDs and %d values, the file has %d rows there: %s", i, len(ids), len(vals), len(e.Rows), desc())
		}
		for j, row := range e.Rows {
			if ids[j] != row.ID || vals[j] != row.Val {
				t.Fail("invented", "GetPairs(%d) row %d is %d:%d, the file has %d:%d: %s", i, j, ids[j], vals[j], row.ID, row.Val, desc())
			}
			all.add(row.Val)
		}
	}
	if _, _, err := r.GetPairs(uint64(n)); err == nil {
		t.Fail("range", "GetPairs(%d) succeeds: %s", n, desc())
	}
	scan := func(what string, o col.AggregateOptions, keep func(id uint64) bool, prune func(e pEntry) bool) {
		got := r.AggregateWithOptions(o)
		t.Op(1)
		var a, b Agg
		for i, e := range p.Entries {
			if !readable[i] {
				continue
			}
			for _, row := range e.Rows {
				if keep(row.ID) {
					a.add(row.Val)
					if !prune(e) {
						b.add(row.Val)
					}
				}
			}
		}
		if da, db := a.diff(got), b.diff(got); da != "" && db != "" {
			t.Fail("aggregate", "%s: %s: %s", what, da, desc())
		}
	}
	none := func(pEntry) bool { return false }
	yes := func(uint64) bool { return true }
	scan("full scan", col.AggregateOptions{SkipPreCalculated: true}, yes, none)
	scan("parallel full scan", col.AggregateOptions{SkipPreCalculated: true, Parallel: 2}, yes, none)
	if len(ids) > 0 {
		x := ids[len(ids)/2]
		out := func(e pEntry) bool { return e.MaxID < x || e.MinID > x }
		scan("allow one", col.AggregateOptions{Filter: bitmapOf(x)}, func(id uint64) bool { return id == x }, out)
		scan("deny one", col.AggregateOptions{DenyFilter: bitmapOf(x), Parallel: 3}, func(id uint64) bool { return id != x }, none)
	}
	r.Aggregate()
	r.AggregateWithOptions(col.AggregateOptions{Parallel: 2})
	r.DebugInfo()
	if bm, err := r.GetGlobalIDBitmap(); err == nil {
		if bm == nil {
			t.Fail("nobitmap", "GetGlobalIDBitmap returns neither a bitmap nor an error: %s", desc())
		}
		for _, id := range ids {
			bm.Contains(id)
		}
		bm.Contains(77)
		bm.GetCardinality()
		bm.ToArray()
	}
	multicol.NewMultiReader([]*col.Reader{r, r}).Aggregate(multicol.AggregateOptions{})
	t.Op(5)
	if d := allocated() - before; d > 64<<20 {
		t.Fail("memory", "%d bytes allocated for a file of %d bytes: %s", d, len(data), desc())
	}
}

func c14(e *Env) {
	type file struct {
		bs  []Block
		enc uint32
	}
	base := [][]Block{nil, {{{5, -3}}}, {{{1, 10}, {2, -20}}, {{3, 30}, {300, 70000}}}, {{{9, 1}, {8, 2}}, {{7, 1 << 40}}, {{1 << 33, -1}, {3, math.MinInt64}, {4, 4}}}}
	var files []file
	for i, bs := range base {
		for _, enc := range allEnc {
			if i == 0 && enc != 0 && enc != 7 {
				continue
			}
			files = append(files, file{bs, enc})
		}
	}
	files = append(files, file{[]Block{family(1, 300), family(3, 40)}, 7}, file{[]Block{family(0, 520)}, 0},
		file{[]Block{append(family(0, 4500), Row{1 << 40, 1}, Row{1<<40 + 3, 1})}, 7})
	for fi, f := range files {
		var data []byte
		var ids []uint64
		var p *pFile
		prepare := func(t *T) {
			if data == nil {
				writeBlocks(t, "/vfs/f", f.bs, f.enc, bigBlock)
				data = snapshot("/vfs/f")
				var err error
				if p, err = parse(data); err != nil {
					t.Fail("parse", "%v", err)
				}
				for _, r := range rowsOf(f.bs) {
					ids = append(ids, r.ID)
				}
				vfs.Reset()
			}
			checkDamaged(t, data, ids, func() string { return "not damaged" })
		}
		name := func() string { return fmt.Sprintf("enc=%d %s", f.enc, fmtBlocks(f.bs)) }
		size := 64 // size of the file, by the documented format
		size = len(encodeFile(f.bs, f.enc, bigBlock))
		// truncation
		const chunk = 2048
		for from := 0; from < size; from += chunk {
			if !e.Case(func() string { return fmt.Sprintf("%s cut at %d..%d bytes", name(), from, from+chunk-1) }, func(t *T) {
				prepare(t)
				for n := from; n < min(from+chunk, len(data)); n++ {
					if n%256 == 0 {
						t.Beat()
					}
					t.Sub(n)
					vfs.Reset()
					vfs.Put("/vfs/d", data[:n:n])
					r, err := col.NewReader("/vfs/d")
					t.Op(1)
					t.Trace()
					t.State(hashStr(fmt.Sprint(fi, "cut", n)))
					if err == nil {
						r.Close()
						t.Fail("truncated", "the first %d of %d bytes are accepted as a file", n, len(data))
					}
					if vfs.Dev.OpenN != 0 {
						t.Fail("leak", "the refused file stays open")
					}
					t.e.Count("truncations", 1)
				}
			}) {
				return
			}
		}
		// every byte of the metadata
		nf := 11 + len(f.bs)*15 + 1 + len(f.bs)*8 + 3 + 1
		for k := 0; k < nf; k++ {
			if !e.Case(func() string { return fmt.Sprintf("%s metadata field %d damaged", name(), k) }, func(t *T) {
				prepare(t)
				fs := fieldsOf(p)
				if k >= len(fs) {
					return
				}
				fd := fs[k]
				buf := append([]byte(nil), data...)
				step := 0
				try := func(desc func() string) {
					t.Sub(step)
					step++
					checkDamaged(t, buf, ids, desc)
					t.State(hashStr(fmt.Sprint(fi, k, fd.get(buf))))
				}
				for i := 0; i < fd.size; i++ {
					old := buf[fd.off+i]
					for x := 0; x < 256; x++ {
						if !e.Thorough && fi >= 2 && fi%6 != 2 && x > 8 && x < 248 && x&(x-1) != 0 || len(f.bs) > 0 && len(f.bs[0]) > 100 && x > 2 && x < 255 && x != 128 {
							continue
						}
						buf[fd.off+i] = byte(x)
						try(func() string { return fmt.Sprintf("%s byte %d is %d", fd.name, i, x) })
					}
					buf[fd.off+i] = old
				}
				old := fd.get(buf)
				for _, v := range fd.values(data, p) {
					fd.set(buf, v)
					try(func() string { return fmt.Sprintf("%s is %d (%#x), was %d", fd.name, v, v, old) })
				}
				fd.set(buf, old)
			}) {
				return
			}
		}
		// every byte of the ID bitmap
		for from := 0; from < 200*(1+len(f.bs)) && (fi%8 == 1 || e.Thorough) || from < 12000 && fi == len(files)-1; from += 64 {
			if !e.Case(func() string { return fmt.Sprintf("%s bytes %d.. of the ID bitmap damaged", name(), from) }, func(t *T) {
				prepare(t)
				if len(f.bs) > 1 && len(f.bs[0]) > 4000 && from > 300 && from < 8000 && !e.Thorough {
					return
				}
				buf := append([]byte(nil), data...)
				for i := from; i < min(from+64, len(p.Bitmap)); i++ {
					o := int(p.BmOff) + 4 + i
					for x := 0; x < 256; x++ {
						if len(p.Bitmap) > 2000 && x != 0 && x != 1 && x != 255 && x != 16 {
							continue
						}
						t.Sub(i<<8 | x)
						buf[o] = byte(x)
						checkDamaged(t, buf, ids, func() string { return fmt.Sprintf("byte %d of the ID bitmap is %d (was %d)", i, x, data[o]) })
						t.State(hashStr(fmt.Sprint(fi, "bm", i, x)))
						t.e.Count("damaged bytes of the ID bitmap", 1)
					}
					buf[o] = data[o]
				}
			}) {
				return
			}
		}
		// the bitmap with another length, told alike by header and length
		// field, and pairs of the words of its node
		if len(f.bs) > 0 && (fi%4 == 1 || fi >= len(files)-3 || e.Thorough) {
			if !e.Case(func() string { return fmt.Sprintf("%s with other lengths of the ID bitmap", name()) }, func(t *T) {
				prepare(t)
				buf := append([]byte(nil), data...)
				for n := 0; n < len(p.Bitmap)+48; n++ {
					if n > 400 && n < len(p.Bitmap)-100 && n%97 > 1 {
						continue
					}
					t.Sub(n)
					le.PutUint64(buf[52:], uint64(n)+4)
					le.PutUint32(buf[p.BmOff:], uint32(n))
					checkDamaged(t, buf, ids, func() string { return fmt.Sprintf("the ID bitmap has %d bytes (was %d)", n, len(p.Bitmap)) })
					t.State(hashStr(fmt.Sprint(fi, "bml", n)))
					t.e.Count("lengths of the ID bitmap", 1)
				}
			}) {
				return
			}
			for a := 0; a < 6; a++ {
				if !e.Case(func() string {
					return fmt.Sprintf("%s word %d of the ID bitmap and every other one damaged", name(), a)
				}, func(t *T) {
					prepare(t)
					var fs []field
					for i := 0; i < 8 && 8*i+8 <= len(p.Bitmap); i++ {
						fs = append(fs, field{fmt.Sprintf("word %d of the ID bitmap", i), int(p.BmOff) + 4 + 8*i, 8})
					}
					if a >= len(fs) {
						return
					}
					words := uint64(len(p.Bitmap) / 2)
					buf := append([]byte(nil), data...)
					values := func(f field) []uint64 {
						v := f.get(data)
						return []uint64{v, 0, 1, 2, 3, 4, 8, 12, 15, 16, 17, 20, v - 1, v + 1, v - 4, v + 4, v * 2, words - 5, words - 4, words - 3, words - 1, words, words + 1, 2 * words, 1 << 16, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64, math.MaxUint64 / 16, math.MaxUint64/16 + 1}
					}
					fa := fs[a]
					for _, x := range values(fa) {
						fa.set(buf, x)
						for b := a + 1; b < len(fs); b++ {
							for _, y := range values(fs[b]) {
								fs[b].set(buf, y)
								t.Sub(b)
								checkDamaged(t, buf, ids, func() string {
									return fmt.Sprintf("%s is %#x (was %#x), %s is %#x (was %#x)", fa.name, x, fa.get(data), fs[b].name, y, fs[b].get(data))
								})
								t.State(hashStr(fmt.Sprint(fi, "bmw", a, b, x, y)))
								t.e.Count("pairs of words of the ID bitmap", 1)
							}
							fs[b].set(buf, fs[b].get(data))
						}
						t.Beat()
					}
				}) {
					return
				}
			}
		}
		// pairs of fields
		if !e.Thorough && (len(f.bs) == 0 || fi%12 != 2) || len(f.bs) > 0 && len(f.bs[0]) > 100 {
			continue
		}
		for k := 0; k < nf; k++ {
			if !e.Case(func() string { return fmt.Sprintf("%s metadata field %d and every other one damaged", name(), k) }, func(t *T) {
				prepare(t)
				fs := fieldsOf(p)
				if k >= len(fs) {
					return
				}
				buf := append([]byte(nil), data...)
				a := fs[k]
				va := a.values(data, p)
				olda := a.get(buf)
				for j := k + 1; j < len(fs); j++ {
					t.Sub(j)
					b := fs[j]
					vb := b.values(data, p)
					oldb := b.get(buf)
					for xi, x := range va {
						for yi, y := range vb {
							if !e.Thorough && (xi*7+yi*3+j)%43 > 0 {
								continue
							}
							if e.Thorough && (xi+yi)%3 > 0 && fi > 12 {
								continue
							}
							a.set(buf, x)
							b.set(buf, y)
							checkDamaged(t, buf, ids, func() string {
								return fmt.Sprintf("%s is %#x (was %#x), %s is %#x (was %#x)", a.name, x, olda, b.name, y, oldb)
							})
							t.e.Count("pairs of damaged fields", 1)
						}
						t.Beat()
					}
					a.set(buf, olda)
					b.set(buf, oldb)
				}
			}) {
				return
			}
		}
	}
	e.Bound("%d files (0..3 blocks, 8 encodings): every truncation length; every metadata field (header, block headers, section tables, block index, closing metadata, bitmap length) with every value of each byte and some 70 boundary values of the field", len(files))
	e.Bound("the ID bitmap with every other length, told alike by header and length field; every pair of the first eight 64-bit words of the ID bitmap (node header, keys, container offsets and headers) with 31 boundary values each, for some files")
	e.Bound("pairs of metadata fields with boundary values (quick: one value pair in 43, for some files)")
}
