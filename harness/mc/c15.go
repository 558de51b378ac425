package main

import (
	"fmt"
	"runtime/debug"

	"github.com/weaviate/sroar"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C15: files follow the documented format, in both directions: what is
// written is understood by an independent decoder, and files built by an
// independent encoder are understood by the reader.
func init() { props["C15"] = c15 }

func c15(e *Env) {
	run := func(bs []Block, enc uint32) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
			writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
			if d := conforms(vfs.Bytes("/vfs/f"), bs, enc, bigBlock); d != "" {
				t.Fail("format", "written file: %s", d)
			}
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]) ^ uint64(enc))
			t.Trace()
			vfs.Put("/vfs/g", encodeFile(bs, enc, 16384))
			r := open(t, "/vfs/g")
			checkPairs(t, r, bs)
			checkAgg(t, "Aggregate()", r.Aggregate(), refAgg(rowsOf(bs), nil))
			want := map[uint64]bool{}
			for _, row := range rowsOf(bs) {
				want[row.ID] = true
			}
			checkBitmap(t, "bitmap of the independently built file", getBitmap(t, r), want)
			if r.EncodingType() != enc || r.Version() != 1 || r.IsDeltaEncoded() != (enc >= 1 && enc <= 3) || r.IsVarIntEncoded() != (enc >= 4) {
				t.Fail("header", "encoding %d is reported as %d, delta %v, varint %v, version %d", enc, r.EncodingType(), r.IsDeltaEncoded(), r.IsVarIntEncoded(), r.Version())
			}
			closeReader(t, r)
			t.Trace()
			if len(bs) > 3 || len(bs) > 0 && len(bs[0]) > 3 {
				return
			}
			// The same file without an ID bitmap, which is then empty.
			data := append([]byte(nil), vfs.Bytes("/vfs/g")...)
			for i := 44; i < 60; i++ {
				data[i] = 0
			}
			vfs.Put("/vfs/g", data)
			r = open(t, "/vfs/g")
			checkPairs(t, r, bs)
			checkAgg(t, "Aggregate() of a file without bitmap", r.Aggregate(), refAgg(rowsOf(bs), nil))
			for k := 0; k < 4; k++ {
				checkBitmap(t, "bitmap of a file that has none", getBitmap(t, r), nil)
				if k == 1 {
					r.EnableGlobalIDBitmapCaching()
				}
			}
			closeReader(t, r)
			t.Trace()
		})
	}
	for _, enc := range allEnc {
		if !run(nil, enc) {
			return
		}
	}
	for n := 1; n <= 2; n++ {
		if !seqs(2*n, len(idAlpha), func(s []int) bool {
			b := make(Block, n)
			x := 0
			for i := range b {
				b[i] = Row{idAlpha[s[2*i]], valAlpha[(s[2*i+1]+4*i)%len(valAlpha)]}
				x += s[2*i]*3 + s[2*i+1]
			}
			if n == 1 || e.Thorough {
				for _, enc := range allEnc {
					if !run([]Block{b}, enc) {
						return false
					}
				}
				return true
			}
			enc := uint32(x) % 8
			return run([]Block{b}, enc) && run([]Block{b[:1], b[1:]}, enc)
		}) {
			return
		}
	}
	e.Bound("all files of one row and of two rows over %d IDs and %d values", len(idAlpha), len(idAlpha))
	for n := 3; n <= 3; n++ {
		if !seqs(n, len(valAlpha), func(s []int) bool {
			b := make(Block, n)
			x := 0
			for i, k := range s {
				b[i] = Row{idAlpha[(k*5+i)%len(idAlpha)], valAlpha[k]}
				x += k
			}
			return run([]Block{b}, uint32(x)%8)
		}) {
			return
		}
	}
	e.Bound("all value sequences of length 3 over %d values", len(valAlpha))
	for _, n := range []int{1, 2, 127, 128, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 1000, 1001, 1016, 4096, 5000, 70000} {
		for k := 0; k < numFamilies; k++ {
			for _, enc := range allEnc {
				if n > 1000 && enc%2 == 0 && !e.Thorough {
					continue
				}
				if !run([]Block{family(k, n)}, enc) {
					return
				}
				if n < 5000 && !run(cut(family(k, n+4), []int{1, n, 2, 1}), enc) {
					return
				}
			}
		}
	}
	for _, n := range []int{3, 7, 72, 73, 74, 75, 145, 146, 147, 255, 256, 257, 300, 1000} {
		for k := 0; k < numFamilies; k++ {
			rows := family(k, n*2)
			var bs []Block
			for i := 0; i < n; i++ {
				bs = append(bs, rows[2*i:2*i+2])
			}
			if !run(bs, uint32(n+k)%8) {
				return
			}
		}
	}
	for i, n := range []int{4095, 4097, 18725, 65535, 65537, 70001} {
		var bs []Block
		rows := family(4, n)
		for i := 0; i < n; i++ {
			bs = append(bs, rows[i:i+1])
		}
		if !run(bs, []uint32{7, 3, 0}[i%3]) {
			return
		}
	}
	e.Bound("6 numbers of blocks from 4095 to 70001, one row each")
	e.Bound("33 block sizes up to 70000 rows, alone and among other blocks, 14 numbers of blocks up to 1000, x %d shapes x encodings", numFamilies)
	for _, enc := range []uint32{0, 1, 2, 3} {
		if !e.Case(func() string {
			return fmt.Sprintf("enc=%d: a file of more than 4 GB with two blocks of 140000000 rows", enc)
		}, func(t *T) {
			const n = 140000000
			small := Block{{5, -3}, {1 << 40, 1 << 60}, {70000, 9}}
			vfs.Put("/vfs/big", bigFile(n, small, enc))
			r := open(t, "/vfs/big")
			ids, vals, err := r.GetPairs(2)
			if err != nil {
				t.Fail("getpairs-error", "GetPairs(2) beyond 4 GB: %v", err)
			}
			checkBlock(t, "GetPairs(2) beyond 4 GB", ids, vals, small)
			total := refAgg(small, nil)
			total.Count += 2 * n
			checkAgg(t, "Aggregate()", r.Aggregate(), total)
			checkAgg(t, "parallel aggregate", r.AggregateWithOptions(col.AggregateOptions{Parallel: 3}), total)
			checkAgg(t, "filtered aggregate", r.AggregateWithOptions(col.AggregateOptions{Filter: bitmapOf(5, 6, 70000)}),
				refAgg(small, func(id uint64) bool { return id <= 70000 }))
			checkBitmap(t, "bitmap beyond 4 GB", getBitmap(t, r), map[uint64]bool{0: true, 5: true, 1 << 40: true, 70000: true})
			closeReader(t, r)
			t.Trace()
			vfs.Put("/vfs/big", nil)
			debug.FreeOSMemory()
		}) {
			return
		}
	}
	e.Bound("files of more than 4 GB with two blocks of 140 million rows, fixed-width encodings")
}

// bigFile builds a file of two blocks of n zero rows each and a small one. Only
// its metadata and the small block take memory.
func bigFile(n int, small Block, enc uint32) []byte {
	block := encodeFile([]Block{small}, enc, 16384)
	size := pageAlign(64+80+16*n) - 64
	next := pageAlign(64+size+80+16*n) - (64 + size)
	end := 64 + size + next
	out := make([]byte, end+len(block)+4096)
	copy(out, block[:64])
	le.PutUint64(out[16:], 3)
	entries := le.AppendUint32(nil, 3)
	off := 64
	for _, sz := range []int{size, next} {
		h := out[off:]
		le.PutUint32(h[40:], uint32(n))
		le.PutUint32(h[44:], enc)
		le.PutUint32(h[64+4:], uint32(8*n))
		le.PutUint32(h[64+8:], uint32(8*n))
		le.PutUint32(h[64+12:], uint32(8*n))
		entries = le.AppendUint64(entries, uint64(off))
		entries = le.AppendUint32(entries, uint32(sz))
		entries = append(entries, make([]byte, 40)...)
		entries = le.AppendUint32(entries, uint32(n))
		off += sz
	}
	// the small block and its entry, as built for a file of its own
	foot := len(block) - 24 - 60
	smallSize := int(le.Uint32(block[foot+4+8:]))
	copy(out[off:], block[64:64+smallSize])
	entries = le.AppendUint64(entries, uint64(off))
	entries = append(entries, block[foot+4+8:foot+4+56]...)
	off = pageAlign(off + smallSize)
	bm := sroar.NewBitmap()
	bm.Set(0)
	for _, row := range small {
		bm.Set(row.ID)
	}
	img := bm.ToBuffer()
	le.PutUint64(out[44:], uint64(off))
	le.PutUint64(out[52:], uint64(len(img)+4))
	le.PutUint32(out[off:], uint32(len(img)))
	copy(out[off+4:], img)
	off = pageAlign(off + 4 + len(img))
	copy(out[off:], entries)
	off += len(entries)
	le.PutUint64(out[off:], uint64(len(entries)))
	le.PutUint64(out[off+16:], magic)
	return out[:off+24]
}
