package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/weaviate/sroar"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vfs"
)

// Row is one (ID, value) pair. The reference model of a file is the list of
// its blocks, each a list of rows.
type Row struct {
	ID  uint64
	Val int64
}

type Block []Row

func (b Block) split() ([]uint64, []int64) {
	ids := make([]uint64, len(b))
	vals := make([]int64, len(b))
	for i, r := range b {
		ids[i], vals[i] = r.ID, r.Val
	}
	return ids, vals
}

func fmtBlocks(bs []Block) string {
	var sb strings.Builder
	for i, b := range bs {
		if i > 0 {
			sb.WriteString(" | ")
		}
		if i > 6 {
			fmt.Fprintf(&sb, "... %d blocks", len(bs))
			break
		}
		for j, r := range b {
			if j > 6 {
				fmt.Fprintf(&sb, "... %d rows", len(b))
				break
			}
			fmt.Fprintf(&sb, "%d:%d ", r.ID, r.Val)
		}
	}
	return strings.TrimSpace(sb.String())
}

func rowsOf(bs []Block) Block {
	var out Block
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// Agg is the reference aggregate of a set of values. Sums wrap.
type Agg struct {
	Count    int
	Min, Max int64
	Sum      int64
	Overflow bool // the exact sum does not fit: the average is not specified
}

func (a *Agg) add(v int64) {
	if a.Count == 0 || v < a.Min {
		a.Min = v
	}
	if a.Count == 0 || v > a.Max {
		a.Max = v
	}
	s := a.Sum + v
	if (v > 0 && s < a.Sum) || (v < 0 && s > a.Sum) {
		a.Overflow = true
	}
	a.Sum = s
	a.Count++
}

func refAgg(rows []Row, keep func(id uint64) bool) Agg {
	var a Agg
	for _, r := range rows {
		if keep == nil || keep(r.ID) {
			a.add(r.Val)
		}
	}
	return a
}

// diff compares an aggregate with the reference. The minimum and maximum of
// nothing are not specified.
func (a Agg) diff(got col.AggregateResult) string {
	if got.Count != a.Count {
		return fmt.Sprintf("count is %d, expected %d", got.Count, a.Count)
	}
	if got.Sum != a.Sum {
		return fmt.Sprintf("sum is %d, expected %d", got.Sum, a.Sum)
	}
	if a.Count > 0 {
		if got.Min != a.Min {
			return fmt.Sprintf("minimum is %d, expected %d", got.Min, a.Min)
		}
		if got.Max != a.Max {
			return fmt.Sprintf("maximum is %d, expected %d", got.Max, a.Max)
		}
	}
	if a.Overflow {
		return ""
	}
	avg := 0.0
	if a.Count > 0 {
		avg = float64(a.Sum) / float64(a.Count)
	}
	if d := math.Abs(got.Avg - avg); !(d <= 1e-9*math.Max(1, math.Abs(avg))) {
		return fmt.Sprintf("average is %v, expected %v", got.Avg, avg)
	}
	return ""
}

const bigBlock = 1 << 30

// writeBlocks writes a file whose blocks are exactly bs.
func writeBlocks(t *T, name string, bs []Block, enc uint32, target uint32) {
	w, err := col.NewWriter(name, col.WithEncoding(enc), col.WithBlockSize(target))
	if err != nil {
		t.Fail("create", "NewWriter: %v", err)
	}
	for i, b := range bs {
		ids, vals := b.split()
		if err := w.WriteBlock(ids, vals); err != nil {
			t.Fail("write", "WriteBlock %d (%d rows): %v", i, len(b), err)
		}
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fail("finalize", "FinalizeAndClose: %v", err)
	}
	t.Op(len(bs) + 2)
}

func open(t *T, name string) *col.Reader {
	r, err := col.NewReader(name)
	if err != nil {
		t.Fail("open", "NewReader: %v", err)
	}
	t.Op(1)
	return r
}

// checkPairs compares what a reader returns for every block with the model.
func checkPairs(t *T, r *col.Reader, bs []Block) {
	if n := r.BlockCount(); n != uint64(len(bs)) {
		t.Fail("blockcount", "BlockCount is %d, expected %d", n, len(bs))
	}
	for i, b := range bs {
		ids, vals, err := r.GetPairs(uint64(i))
		t.Op(1)
		if err != nil {
			t.Fail("getpairs-error", "GetPairs(%d): %v", i, err)
		}
		checkBlock(t, fmt.Sprintf("GetPairs(%d)", i), ids, vals, b)
	}
}

func checkBlock(t *T, what string, ids []uint64, vals []int64, b Block) {
	if len(ids) != len(b) || len(vals) != len(b) {
		t.Fail("rows", "%s returned %d IDs and %d values, expected %d rows", what, len(ids), len(vals), len(b))
	}
	for j := range b {
		if ids[j] != b[j].ID || vals[j] != b[j].Val {
			t.Fail("rows", "%s row %d is (%d, %d), expected (%d, %d)", what, j, ids[j], vals[j], b[j].ID, b[j].Val)
		}
	}
}

func checkAgg(t *T, what string, got col.AggregateResult, want Agg) {
	t.Op(1)
	if d := want.diff(got); d != "" {
		t.Fail("aggregate", "%s: %s (got %+v)", what, d, got)
	}
}

func closeReader(t *T, r *col.Reader) {
	if err := r.Close(); err != nil {
		t.Fail("close", "Reader.Close: %v", err)
	}
}

func bitmapOf(ids ...uint64) *sroar.Bitmap {
	b := sroar.NewBitmap()
	for _, id := range ids {
		b.Set(id)
	}
	return b
}

func snapshot(name string) []byte { return append([]byte(nil), vfs.Bytes(name)...) }

// ---- the documented file format, implemented independently ---------------

const magic = uint64(0x5642455F434F4C00)

var le = binary.LittleEndian

func unmag(u uint64) int64 {
	if u>>63 == 0 {
		return int64(u)
	}
	return int64(-(u &^ (1 << 63))) // two's complement of the magnitude; 1<<63 alone below
}

// decodeStat reads a statistic stored as sign and magnitude.
func decodeStat(u uint64) int64 {
	if u == 1<<63 {
		return math.MinInt64
	}
	return unmag(u)
}

func encodeStat(v int64) uint64 {
	if v >= 0 {
		return uint64(v)
	}
	return uint64(-v) | 1<<63
}

type pEntry struct {
	Off              uint64
	Size             uint32
	MinID, MaxID     uint64
	MinVal, MaxVal   int64
	Sum              int64
	Count            uint32
	HMinID, HMaxID   uint64 // block header
	HMinVal, HMaxVal int64
	HSum             int64
	HCount           uint32
	HEnc, HComp      uint32
	DataEnd          int // end of the value section in the file
	Rows             Block
	RowsErr          error
}

type pFile struct {
	Blocks     uint64 // header count
	Target     uint32
	Enc        uint32
	BmOff      uint64
	BmSize     uint64
	Bitmap     []byte
	Entries    []pEntry
	FooterOff  int
	FooterSize uint64
}

var errShort = errors.New("file too short")

// decodeSection decodes one ID or value section holding exactly n items.
func decodeSection(b []byte, n int, delta, varint, zigzag bool) ([]uint64, error) {
	out := make([]uint64, 0, min(n, len(b)))
	if varint {
		for len(b) > 0 {
			v, k := binary.Uvarint(b)
			if k <= 0 {
				return nil, errors.New("bad varint")
			}
			if zigzag {
				v = v>>1 ^ -(v & 1)
			}
			out = append(out, v)
			b = b[k:]
		}
	} else {
		if len(b)%8 != 0 {
			return nil, errors.New("section is not a multiple of 8 bytes")
		}
		for len(b) > 0 {
			out = append(out, le.Uint64(b))
			b = b[8:]
		}
	}
	if len(out) != n {
		return nil, fmt.Errorf("section holds %d items, expected %d", len(out), n)
	}
	if delta {
		for i := 1; i < len(out); i++ {
			out[i] += out[i-1]
		}
	}
	return out, nil
}

// encFlags tells how an encoding treats IDs and values.
func encFlags(enc uint32) (idDelta, idVar, valDelta, valVar bool, ok bool) {
	switch enc {
	case 0:
		return false, false, false, false, true
	case 1:
		return true, false, false, false, true
	case 2:
		return false, false, true, false, true
	case 3:
		return true, false, true, false, true
	case 4:
		return false, true, false, true, true
	case 5:
		return true, true, false, false, true
	case 6:
		return false, false, true, true, true
	case 7:
		return true, true, true, true, true
	}
	return
}

// decodeBlock decodes block i of data using the file's encoding.
func (p *pFile) decodeBlock(data []byte, off, size uint64, count int, enc uint32) (Block, int, error) {
	if off > uint64(len(data)) || size > uint64(len(data))-off || size < 80 {
		return nil, 0, errors.New("block outside the file")
	}
	b := data[off+64 : off+size]
	io, is, vo, vs := uint64(le.Uint32(b)), uint64(le.Uint32(b[4:])), uint64(le.Uint32(b[8:])), uint64(le.Uint32(b[12:]))
	body := b[16:]
	n := uint64(len(body))
	if io+is > n || vo+vs > n {
		return nil, 0, errors.New("section outside the block")
	}
	idD, idV, vD, vV, ok := encFlags(enc)
	if !ok {
		return nil, 0, errors.New("unknown encoding")
	}
	ids, err := decodeSection(body[io:io+is], count, idD, idV, false)
	if err != nil {
		return nil, 0, fmt.Errorf("IDs: %w", err)
	}
	vals, err := decodeSection(body[vo:vo+vs], count, vD, vV, true)
	if err != nil {
		return nil, 0, fmt.Errorf("values: %w", err)
	}
	rows := make(Block, count)
	for i := range rows {
		rows[i] = Row{ids[i], int64(vals[i])}
	}
	return rows, int(off + 80 + max(io+is, vo+vs)), nil
}

// parse reads a file by its structure only: header, footer, block index,
// bitmap location and blocks. It fails if the file is not complete.
func parse(data []byte) (*pFile, error) {
	if len(data) < 64+4+24 {
		return nil, errShort
	}
	if le.Uint64(data) != magic {
		return nil, errors.New("bad magic number")
	}
	if le.Uint32(data[8:]) != 1 {
		return nil, errors.New("bad version")
	}
	if le.Uint32(data[12:]) != 0 {
		return nil, errors.New("bad column type")
	}
	p := &pFile{Blocks: le.Uint64(data[16:]), Target: le.Uint32(data[24:]), Enc: le.Uint32(data[32:]),
		BmOff: le.Uint64(data[44:]), BmSize: le.Uint64(data[52:])}
	if le.Uint32(data[28:]) != 0 {
		return nil, errors.New("compressed")
	}
	tail := data[len(data)-24:]
	if le.Uint64(tail[16:]) != magic {
		return nil, errors.New("bad footer magic number")
	}
	p.FooterSize = le.Uint64(tail)
	if p.FooterSize > uint64(len(data)-24-64) || p.FooterSize < 4 {
		return nil, errors.New("bad footer size")
	}
	p.FooterOff = len(data) - 24 - int(p.FooterSize)
	f := data[p.FooterOff : len(data)-24]
	n := le.Uint32(f)
	if uint64(n)*56+4 != p.FooterSize {
		return nil, fmt.Errorf("footer of %d bytes for %d blocks", p.FooterSize, n)
	}
	f = f[4:]
	for i := uint32(0); i < n; i, f = i+1, f[56:] {
		e := pEntry{Off: le.Uint64(f), Size: le.Uint32(f[8:]), MinID: le.Uint64(f[12:]), MaxID: le.Uint64(f[20:]),
			MinVal: decodeStat(le.Uint64(f[28:])), MaxVal: decodeStat(le.Uint64(f[36:])), Sum: decodeStat(le.Uint64(f[44:])), Count: le.Uint32(f[52:])}
		if e.Off < 1<<40 && e.Off+64 <= uint64(len(data)) {
			h := data[e.Off:]
			e.HMinID, e.HMaxID = le.Uint64(h), le.Uint64(h[8:])
			e.HMinVal, e.HMaxVal, e.HSum = decodeStat(le.Uint64(h[16:])), decodeStat(le.Uint64(h[24:])), decodeStat(le.Uint64(h[32:]))
			e.HCount, e.HEnc, e.HComp = le.Uint32(h[40:]), le.Uint32(h[44:]), le.Uint32(h[48:])
		}
		e.Rows, e.DataEnd, e.RowsErr = p.decodeBlock(data, e.Off, uint64(e.Size), int(e.Count), p.Enc)
		p.Entries = append(p.Entries, e)
	}
	if p.BmSize > 0 {
		if p.BmOff > uint64(len(data)) || p.BmSize > uint64(len(data))-p.BmOff || p.BmSize < 4 {
			return nil, errors.New("bitmap outside the file")
		}
		b := data[p.BmOff : p.BmOff+p.BmSize]
		if uint64(le.Uint32(b))+4 != p.BmSize {
			return nil, errors.New("bad bitmap size")
		}
		p.Bitmap = b[4:]
	}
	return p, nil
}

// conforms checks every structural rule of the documented format and that the
// file holds exactly bs. Empty when it does.
func conforms(data []byte, bs []Block, enc, target uint32) string {
	p, err := parse(data)
	if err != nil {
		return "independent decoder: " + err.Error()
	}
	if p.Enc != enc {
		return fmt.Sprintf("header encoding %d, expected %d", p.Enc, enc)
	}
	if p.Target != target {
		return fmt.Sprintf("header block size target %d, expected %d", p.Target, target)
	}
	if p.Blocks != uint64(len(bs)) || len(p.Entries) != len(bs) {
		return fmt.Sprintf("header says %d blocks, footer has %d, expected %d", p.Blocks, len(p.Entries), len(bs))
	}
	if p.FooterOff%4096 != 0 {
		return fmt.Sprintf("footer starts at %d, not at a page boundary", p.FooterOff)
	}
	next := uint64(64)
	var all Agg
	for i, e := range p.Entries {
		b := bs[i]
		var a Agg
		minID, maxID := uint64(math.MaxUint64), uint64(0)
		for _, r := range b {
			a.add(r.Val)
			all.add(r.Val)
			minID, maxID = min(minID, r.ID), max(maxID, r.ID)
		}
		if e.Off != next {
			return fmt.Sprintf("block %d is at %d, expected %d", i, e.Off, next)
		}
		next = e.Off + uint64(e.Size)
		if next%4096 != 0 {
			return fmt.Sprintf("block %d ends at %d, not at a page boundary", i, next)
		}
		if e.RowsErr != nil {
			return fmt.Sprintf("block %d: %v", i, e.RowsErr)
		}
		if len(e.Rows) != len(b) {
			return fmt.Sprintf("block %d has %d rows, expected %d", i, len(e.Rows), len(b))
		}
		for j := range b {
			if e.Rows[j] != b[j] {
				return fmt.Sprintf("block %d row %d is %v, expected %v", i, j, e.Rows[j], b[j])
			}
		}
		if uint64(e.DataEnd) > next || next-uint64(e.DataEnd) >= 4096 {
			return fmt.Sprintf("block %d: data ends at %d, block at %d", i, e.DataEnd, next)
		}
		for _, x := range data[e.DataEnd:next] {
			if x != 0 {
				return fmt.Sprintf("block %d: padding is not zero", i)
			}
		}
		if e.MinID != minID || e.MaxID != maxID || e.MinVal != a.Min || e.MaxVal != a.Max || e.Sum != a.Sum || int(e.Count) != a.Count {
			return fmt.Sprintf("block %d: footer statistics %+v", i, e)
		}
		if e.HMinID != minID || e.HMaxID != maxID || e.HMinVal != a.Min || e.HMaxVal != a.Max || e.HSum != a.Sum || int(e.HCount) != a.Count || e.HEnc != enc || e.HComp != 0 {
			return fmt.Sprintf("block %d: block header statistics %+v", i, e)
		}
	}
	// The bitmap follows the blocks.
	want := map[uint64]bool{}
	for _, r := range rowsOf(bs) {
		want[r.ID] = true
	}
	if p.BmOff < next || p.BmOff+p.BmSize > uint64(p.FooterOff) {
		return fmt.Sprintf("bitmap at %d+%d is not between the blocks and the footer", p.BmOff, p.BmSize)
	}
	var got []uint64
	if len(p.Bitmap) > 0 {
		got = sroar.FromBufferWithCopy(p.Bitmap).ToArray()
	}
	if len(got) != len(want) {
		return fmt.Sprintf("bitmap has %d IDs, expected %d", len(got), len(want))
	}
	for _, id := range got {
		if !want[id] {
			return fmt.Sprintf("bitmap has ID %d", id)
		}
	}
	return ""
}

func encodeSection(vals []uint64, delta, varint, zigzag bool) []byte {
	var out []byte
	prev := uint64(0)
	for i, v := range vals {
		d := v
		if delta && i > 0 {
			d = v - prev
		}
		prev = v
		if !varint {
			out = le.AppendUint64(out, d)
			continue
		}
		if zigzag {
			d = d<<1 ^ uint64(int64(d)>>63)
		}
		out = binary.AppendUvarint(out, d)
	}
	return out
}

// sectionSizes returns the sizes of the two sections of a block.
func sectionSizes(b Block, enc uint32) (int, int) {
	ids, vals := b.split()
	u := make([]uint64, len(vals))
	for i, v := range vals {
		u[i] = uint64(v)
	}
	idD, idV, vD, vV, _ := encFlags(enc)
	return len(encodeSection(ids, idD, idV, false)), len(encodeSection(u, vD, vV, true))
}

func pageAlign(n int) int { return (n + 4095) / 4096 * 4096 }

// encodeFile builds a file by the documented format.
func encodeFile(bs []Block, enc, target uint32) []byte {
	out := make([]byte, 64)
	idD, idV, vD, vV, _ := encFlags(enc)
	var footer []byte
	footer = le.AppendUint32(footer, uint32(len(bs)))
	bm := sroar.NewBitmap()
	for _, b := range bs {
		ids, vals := b.split()
		u := make([]uint64, len(vals))
		var a Agg
		minID, maxID := uint64(math.MaxUint64), uint64(0)
		for i, v := range vals {
			u[i] = uint64(v)
			a.add(v)
			minID, maxID = min(minID, ids[i]), max(maxID, ids[i])
			bm.Set(ids[i])
		}
		is := encodeSection(ids, idD, idV, false)
		vs := encodeSection(u, vD, vV, true)
		off := len(out)
		var h []byte
		for _, x := range []uint64{minID, maxID, encodeStat(a.Min), encodeStat(a.Max), encodeStat(a.Sum)} {
			h = le.AppendUint64(h, x)
		}
		for _, x := range []uint32{uint32(len(b)), enc, 0, 0, 0} {
			h = le.AppendUint32(h, x)
		}
		for len(h) < 64 {
			h = append(h, 0)
		}
		for _, x := range []int{0, len(is), len(is), len(vs)} {
			h = le.AppendUint32(h, uint32(x))
		}
		out = append(append(append(out, h...), is...), vs...)
		out = append(out, make([]byte, pageAlign(len(out))-len(out))...)
		footer = le.AppendUint64(footer, uint64(off))
		footer = le.AppendUint32(footer, uint32(len(out)-off))
		for _, x := range []uint64{minID, maxID, encodeStat(a.Min), encodeStat(a.Max), encodeStat(a.Sum)} {
			footer = le.AppendUint64(footer, x)
		}
		footer = le.AppendUint32(footer, uint32(len(b)))
	}
	bmOff := len(out)
	switch ids := bm.ToArray(); enc % 4 { // other ways to build the same bitmap
	case 1:
		bm = sroar.FromSortedList(ids)
	case 2:
		bm = sroar.FastOr(sroar.FromSortedList(ids[:len(ids)/2]), sroar.FromSortedList(ids[len(ids)/2:]))
	case 3:
		bm.Or(sroar.FromSortedList(ids[len(ids)/3:]))
		bm = bm.Clone()
	}
	buf := bm.ToBuffer()
	out = le.AppendUint32(out, uint32(len(buf)))
	out = append(out, buf...)
	bmSize := len(out) - bmOff
	out = append(out, make([]byte, pageAlign(len(out))-len(out))...)
	out = append(out, footer...)
	out = le.AppendUint64(out, uint64(len(footer)))
	out = le.AppendUint64(out, 0)
	out = le.AppendUint64(out, magic)
	le.PutUint64(out, magic)
	le.PutUint32(out[8:], 1)
	le.PutUint64(out[16:], uint64(len(bs)))
	le.PutUint32(out[24:], target)
	le.PutUint32(out[32:], enc)
	le.PutUint64(out[36:], 1700000000)
	le.PutUint64(out[44:], uint64(bmOff))
	le.PutUint64(out[52:], uint64(bmSize))
	return out
}

// ---- alphabets -----------------------------------------------------------

// idAlpha are IDs at the boundaries of the encodings and of the bitmap.
var idAlpha = []uint64{0, 1, 2, 127, 128, 16383, 16384, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}

// valAlpha are values at the boundaries of the encodings and statistics.
var valAlpha = []int64{0, 1, -1, 63, 64, -64, -65, 8191, 8192, -8193, 1<<31 - 1, 1 << 31, 1<<62 - 1, 1 << 62, -1 << 62, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}

// seqs calls f with every sequence of length n over 0..k-1 until f returns false.
func seqs(n, k int, f func(s []int) bool) bool {
	s := make([]int, n)
	for {
		if !f(s) {
			return false
		}
		i := n - 1
		for i >= 0 {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// compositions calls f with every way to cut n rows into consecutive
// non-empty blocks (sizes).
func compositions(n int, f func(sizes []int) bool) bool {
	for m := 0; m < 1<<(n-1); m++ {
		var sizes []int
		k := 1
		for i := 0; i < n-1; i++ {
			if m>>i&1 == 1 {
				sizes = append(sizes, k)
				k = 0
			}
			k++
		}
		if !f(append(sizes, k)) {
			return false
		}
	}
	return true
}

func cut(rows Block, sizes []int) []Block {
	var out []Block
	for _, n := range sizes {
		out = append(out, rows[:n:n])
		rows = rows[n:]
	}
	return out
}

// family returns n rows of one of the structured shapes.
const numFamilies = 8

func family(kind, n int) Block {
	b := make(Block, n)
	for i := range b {
		u := uint64(i)
		switch kind {
		case 0: // dense IDs, small values
			b[i] = Row{u + 1, int64(i%7) - 3}
		case 1: // gaps of every varint width, values of growing magnitude
			b[i] = Row{u * u * 131, int64(i) * int64(i) * 977 * int64(1-2*(i&1))}
		case 2: // extremes alternate
			b[i] = Row{u | uint64(i&1)<<63, []int64{math.MinInt64, math.MaxInt64}[i&1]}
		case 3: // descending IDs
			b[i] = Row{uint64(n - i), int64(n - i)}
		case 4: // every ID twice
			b[i] = Row{u / 2, int64(i)}
		case 5: // spread over many bitmap containers
			b[i] = Row{u * 40503 << 4, -int64(i)}
		case 6: // IDs above 2^32, equal values
			b[i] = Row{1<<32 + u<<33, 42}
		case 7: // all the same row
			b[i] = Row{7, -7}
		}
	}
	return b
}

var allEnc = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
