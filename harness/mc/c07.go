package main

import (
	"fmt"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// C07: the global ID bitmap holds exactly the IDs of the file.
func init() { props["C07"] = c07 }

func checkBitmap(t *T, what string, bm *sroar.Bitmap, want map[uint64]bool) {
	if n := bm.GetCardinality(); n != len(want) {
		t.Fail("bitmap", "%s has %d IDs, expected %d", what, n, len(want))
	}
	for _, id := range bm.ToArray() {
		if !want[id] {
			t.Fail("bitmap", "%s holds ID %d, which is not in the file", what, id)
		}
	}
	for id := range want {
		if !bm.Contains(id) {
			t.Fail("bitmap", "%s does not contain ID %d", what, id)
		}
		if !want[id+1] && bm.Contains(id+1) || !want[id-1] && bm.Contains(id-1) {
			t.Fail("bitmap", "%s contains a neighbour of ID %d", what, id)
		}
	}
}

func getBitmap(t *T, r *col.Reader) *sroar.Bitmap {
	bm, err := r.GetGlobalIDBitmap()
	t.Op(1)
	if err != nil {
		t.Fail("bitmap-error", "GetGlobalIDBitmap: %v", err)
	}
	return bm
}

func c07(e *Env) {
	run := func(bs []Block, enc uint32) bool {
		return e.Case(func() string { return fmt.Sprintf("enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
			writeBlocks(t, "/vfs/f", bs, enc, bigBlock)
			want := map[uint64]bool{}
			for _, row := range rowsOf(bs) {
				want[row.ID] = true
			}
			r := open(t, "/vfs/f")
			checkBitmap(t, "bitmap", getBitmap(t, r), want)
			checkBitmap(t, "second bitmap", getBitmap(t, r), want)
			r.EnableGlobalIDBitmapCaching()
			checkBitmap(t, "bitmap with caching", getBitmap(t, r), want)
			checkBitmap(t, "cached bitmap", getBitmap(t, r), want)
			r.DisableGlobalIDBitmapCaching()
			checkBitmap(t, "bitmap after caching", getBitmap(t, r), want)
			// Set operations of the kind callers do must work on it.
			u := getBitmap(t, r).Clone().Or(bitmapOf(3, 1<<40))
			want[3], want[1<<40] = true, true
			checkBitmap(t, "union", u, want)
			closeReader(t, r)
			t.Trace()
			t.State(hash64(vfs.Bytes("/vfs/f")[64:]))
		})
	}
	// Every set of boundary IDs.
	for m := 0; m < 1<<len(idAlpha); m++ {
		var b Block
		for i, id := range subset(idAlpha, m) {
			b = append(b, Row{id, int64(i)})
		}
		if m%3 == 1 { // descending
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		var bs []Block
		if len(b) > 0 {
			bs = []Block{b}
		}
		if !run(bs, uint32(m)%8) {
			return
		}
		if len(b) > 1 && !run([]Block{b[:len(b)/2], b[len(b)/2:], b[:1]}, uint32(m)%8) {
			return
		}
	}
	e.Bound("every set of the %d boundary IDs, in one block and spread over three with a repeated ID", len(idAlpha))
	// Every set of IDs of two containers, the second half in another block.
	for _, base := range []uint64{0, 1 << 16, 1<<32 - 1<<16, 1 << 32, 1<<48 - 1<<16, 1 << 63, ^uint64(0) - 1<<16 + 1} {
		al := []uint64{base, base + 1, base + 0x7FFF, base + 0xFFFE, base + 0xFFFF, base ^ 1<<16, base ^ 1<<63}
		for m := 1; m < 1<<len(al); m++ {
			ids := subset(al, m)
			for cut := 0; cut <= len(ids); cut++ {
				var b Block
				for i, id := range ids {
					b = append(b, Row{id, int64(i)})
				}
				bs := []Block{b}
				if cut > 0 && cut < len(b) {
					bs = []Block{b[cut:], b[:cut]}
				} else if cut > 0 {
					continue
				}
				if !run(bs, uint32(m)%8) {
					return
				}
			}
		}
	}
	e.Bound("every set of 7 IDs at the edges of a container, at 7 places of the ID space, in one block and cut into two at every place")
	// As many containers as IDs, as many blocks as IDs.
	for _, n := range []int{1000, 4095, 4097, 18725, 32769, 65535, 65537, 70000} {
		for kind := 0; kind < 2; kind++ {
			b := make(Block, n)
			var bs []Block
			for i := range b {
				if kind == 0 {
					b[i] = Row{uint64(i)<<16 + uint64(i*7919%65536), 1}
				} else {
					b[i] = Row{uint64(i * 7919 % 100003), 1}
					bs = append(bs, b[i:i+1])
				}
			}
			if kind == 0 {
				bs = []Block{b}
			}
			if !run(bs, 7*uint32(kind)) {
				return
			}
		}
	}
	e.Bound("1000..70000 IDs, each in a container of its own, and each in a block of its own")
	// Ranges and strides across the container boundaries of the bitmap.
	ns := []int{1, 2, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 65535, 65536, 65537, 70000}
	strides := []uint64{1, 2, 3, 16, 17, 65535, 65536, 65537, 1 << 32, 1<<32 + 1}
	starts := []uint64{0, 1, 65530, 65536, 1<<32 - 10, 1 << 63}
	for _, n := range ns {
		for _, st := range strides {
			if n > 5000 && st > 17 && !e.Thorough {
				continue
			}
			for _, s := range starts {
				for order := 0; order < 3; order++ {
					if n > 5000 && order > 0 && !e.Thorough {
						continue
					}
					b := make(Block, n)
					for i := range b {
						j := i
						switch order {
						case 1:
							j = n - 1 - i
						case 2:
							j = i*7%n | 0
						}
						b[i] = Row{s + st*uint64(j), 1}
					}
					if n > 1000 && !run([]Block{b}, uint32(n)%8) {
						return
					}
					// in blocks of 1000 rows
					var bs []Block
					for len(b) > 0 {
						k := min(1000, len(b))
						bs = append(bs, b[:k])
						b = b[k:]
					}
					if !run(bs, 7) {
						return
					}
				}
			}
		}
	}
	e.Bound("%d lengths up to %d x %d strides x %d starts x 3 orders, in blocks of 1000 and in one", len(ns), ns[len(ns)-1], len(strides), len(starts))
	// Runs in which one ID is missing, repeated or elsewhere.
	for _, n := range []int{2, 3, 4, 5, 8, 16, 17, 20, 32, 33, 64, 65, 100, 255, 256, 257, 1000, 2049, 4097} {
		for _, start := range []uint64{0, 100, 65530, 1<<32 - 3} {
			for _, pos := range []int{0, 1, n / 2, n - 2, n - 1} {
				for change := 0; change < 7; change++ {
					if n > 300 && change > 3 && !e.Thorough {
						continue
					}
					b := make(Block, n)
					for i := range b {
						b[i] = Row{start + uint64(i), int64(i)}
					}
					switch change {
					case 0:
						b[pos].ID = b[(pos+1)%n].ID
					case 1:
						b[pos].ID = b[0].ID
					case 2:
						b[pos].ID = b[n-1].ID
					case 3:
						b[pos].ID += uint64(n)
					case 4:
						b[pos].ID += 1 << 33
					case 5: // descending
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							b[i], b[j] = b[j], b[i]
						}
						b[pos].ID = b[(pos+1)%n].ID
					case 6: // every other ID repeated
						for i := range b {
							b[i].ID = start + uint64(i)&^1
						}
						b[pos].ID++
					}
					if !run([]Block{b}, 7) || !run([]Block{b[:n/2], b[n/2:]}, 0) {
						return
					}
				}
			}
		}
	}
	e.Bound("runs of 2..4097 consecutive IDs x 4 starts with one ID at 5 places missing, repeated or elsewhere (7 changes), in one block and in two")
}
