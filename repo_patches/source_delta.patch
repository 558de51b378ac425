From 3b292f36c79855b390a9ab58d63c40c619a806b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/12] fix: honour the ID-only and value-only encodings

Delta-for-IDs and delta-for-values files came back with wrong data because
both sections were delta-encoded but only one was decoded, and the two
single-section variable-length encodings could not be written at all.
---
 pkg/col/reader_decode.go   |  8 ++++++--
 pkg/col/writer_block.go    |  4 ++--
 pkg/col/writer_encoding.go | 22 ++++++++++++++++++++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..4228ffa 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -16,7 +16,11 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	// The ID-only and value-only encodings leave the other section fixed-width
+	idsVarInt := isVarInt && encodingType != EncodingVarIntValue
+	valuesVarInt := isVarInt && encodingType != EncodingVarIntID
+
+	if idsVarInt {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +49,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if valuesVarInt {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..565594f 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,10 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	return encodeData(idSectionEncoding(w.encodingType), ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	return encodeData(valueSectionEncoding(w.encodingType), values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..10fd552 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -47,3 +47,25 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 
 	return encodedData, encodedDataBytes, sectionSize, nil
 }
+
+// idSectionEncoding returns the encoding applied to the ID section of a block.
+// Encodings that only cover the values leave the IDs raw.
+func idSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaValue, EncodingVarIntValue:
+		return EncodingRaw
+	case EncodingVarIntID:
+		return EncodingVarIntBoth
+	}
+	return encodingType
+}
+
+// valueSectionEncoding returns the encoding applied to the value section of a
+// block. Encodings that only cover the IDs leave the values raw.
+func valueSectionEncoding(encodingType uint32) uint32 {
+	switch encodingType {
+	case EncodingDeltaID, EncodingVarIntID:
+		return EncodingRaw
+	}
+	return encodingType
+}
-- 
2.43.0


From 336f2f7e929238a38fc538cc53e435d51e84d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 02/12] fix: decode the smallest int64 in block statistics

It was stored as a lone sign bit and read back as 0, so metadata aggregates
were wrong for blocks whose minimum, maximum or sum is the smallest int64.
---
 pkg/col/encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..0234fdc 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,11 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	// The sign bit alone stands for the most negative value, whose magnitude
+	// does not fit into the remaining 63 bits
+	if value == 1<<63 {
+		return -1 << 63
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From bb765f976e77007b37ab6d6ac103d126f4997dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 03/12] fix: guard the cached global ID bitmap of a Reader

Concurrent GetGlobalIDBitmap calls on a Reader with caching enabled raced on
the cache field.
---
 pkg/col/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..006f39f 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -17,6 +18,8 @@ type Reader struct {
 	blockIndex     []FooterEntry
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
+
+	globalIDsMu sync.Mutex // Guards globalIDs and cacheGlobalIDs
 }
 
 // NewReader creates a new column file reader
@@ -126,11 +129,15 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +146,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From 17e8a1ee3d48d039ecfeb6338cd903e918fddd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 04/12] fix: report reads that reach past the end of the file

A read cut short by the end of the file was padded with zeros and taken for
data, and an offset or size from a damaged file could panic or allocate
without bound.
---
 pkg/col/reader_io.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..79fbfec 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,6 +8,11 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	// Never trust an offset or size found in the file beyond the file itself
+	if size < 0 || offset < 0 || offset > r.fileSize || int64(size) > r.fileSize-offset {
+		return nil, fmt.Errorf("read of %d bytes at offset %d is outside the file (%d bytes)", size, offset, r.fileSize)
+	}
+
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
@@ -16,6 +21,10 @@ func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
 	if n < size && err != io.EOF {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
+	if n < size {
+		// The file ended early, the rest of the buffer holds no data
+		return nil, fmt.Errorf("incomplete read at offset %d: %w", offset, io.ErrUnexpectedEOF)
+	}
 	return buf, nil
 }
 
-- 
2.43.0


From 473fa71be2169c2c6ca8a0cb71112db9e2403fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 05/12] fix: reject inconsistent metadata instead of panicking
 or inventing rows

Sizes and counts found in the header, footer and block layout were used
unchecked: damaged files could panic, allocate without bound, or return made
up IDs and values for items that are not in the file.
---
 pkg/col/reader.go        |  6 ++++++
 pkg/col/reader_block.go  |  4 ++++
 pkg/col/reader_decode.go | 37 +++++++++++++++++++++++++++++++++++++
 pkg/col/reader_header.go | 15 +++++++++++++++
 4 files changed, 62 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 006f39f..32dce2e 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -171,6 +171,12 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 	}
 	bitmapSize := binary.LittleEndian.Uint32(sizeBuf)
 
+	// The header covers the size field and the bitmap, which consists of
+	// 16-bit words
+	if uint64(bitmapSize)+4 != r.header.BitmapSize || bitmapSize%2 != 0 {
+		return nil, fmt.Errorf("invalid bitmap size: %d", bitmapSize)
+	}
+
 	// Read the bitmap data
 	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
 	if err != nil {
diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..f3f73a5 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -22,6 +22,10 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	dataOffset := blockOffset + blockHeaderSize
 	dataSize := int(blockSize) - blockHeaderSize
 
+	if dataSize < blockLayoutSize {
+		return nil, nil, fmt.Errorf("block %d is too small: %d bytes", blockIndex, blockSize)
+	}
+
 	// Read all data after the header in one call
 	blockData, err := r.readBytesAt(dataOffset, dataSize)
 	if err != nil {
diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 4228ffa..df48b87 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -20,6 +20,17 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	idsVarInt := isVarInt && encodingType != EncodingVarIntValue
 	valuesVarInt := isVarInt && encodingType != EncodingVarIntID
 
+	// Both sections have to hold exactly count items
+	if encodingType > EncodingVarIntBoth {
+		return nil, nil, fmt.Errorf("unsupported encoding type: %d", encodingType)
+	}
+	if err := checkSection(idBytes, count, idsVarInt); err != nil {
+		return nil, nil, fmt.Errorf("invalid ID section: %w", err)
+	}
+	if err := checkSection(valueBytes, count, valuesVarInt); err != nil {
+		return nil, nil, fmt.Errorf("invalid value section: %w", err)
+	}
+
 	if idsVarInt {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
@@ -115,6 +126,32 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	return ids, values, nil
 }
 
+// checkSection verifies that a section holds exactly count items
+func checkSection(buf []byte, count int, isVarInt bool) error {
+	if !isVarInt {
+		if len(buf) != count*8 {
+			return fmt.Errorf("%d bytes for %d fixed-width items", len(buf), count)
+		}
+		return nil
+	}
+
+	items, length := 0, 0
+	for _, b := range buf {
+		length++
+		if length > 10 || (length == 10 && b > 1) {
+			return fmt.Errorf("variable-length item %d overflows 64 bits", items)
+		}
+		if b&0x80 == 0 {
+			items++
+			length = 0
+		}
+	}
+	if items != count || length != 0 {
+		return fmt.Errorf("%d complete variable-length items, expected %d", items, count)
+	}
+	return nil
+}
+
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 	vals := make([]uint64, 0, count)
diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..4a2b3fa 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -63,6 +63,13 @@ func (r *Reader) readHeader() error {
 		return fmt.Errorf("unsupported version: %d", r.header.Version)
 	}
 
+	if r.header.ColumnType != DataTypeInt64 {
+		return fmt.Errorf("unsupported column type: %d", r.header.ColumnType)
+	}
+	if r.header.CompressionType != CompressionNone {
+		return fmt.Errorf("unsupported compression type: %d", r.header.CompressionType)
+	}
+
 	return nil
 }
 
@@ -103,6 +110,14 @@ func (r *Reader) readFooter() error {
 	}
 	blockIndexCount := binary.LittleEndian.Uint32(blockIndexCountBuf)
 
+	// The footer size and the header have to agree with the number of entries
+	if r.footerMeta.FooterSize != 4+uint64(blockIndexCount)*56 {
+		return fmt.Errorf("footer size %d does not match %d blocks", r.footerMeta.FooterSize, blockIndexCount)
+	}
+	if r.header.BlockCount > uint64(blockIndexCount) {
+		return fmt.Errorf("header has %d blocks, footer has %d", r.header.BlockCount, blockIndexCount)
+	}
+
 	// Check if block count matches with header
 	if uint64(blockIndexCount) != r.header.BlockCount {
 		// Use the higher value to ensure we don't miss data
-- 
2.43.0


From 8695dfe5a7ba584cbbe2fb1ff2b9f5f1ebd295ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 06/12] fix: sync a file's contents before writing the footer
 that completes it

A crash during Finalize could persist the end of the file but not the
rewritten header, the ID bitmap or all of the block index, leaving a file that
opens without error but misses data.
---
 pkg/col/writer_finalize.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..fa5de2f 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -111,6 +111,11 @@ func (w *Writer) Finalize() error {
 		}
 	}
 
+	// Everything the footer refers to must be durable before the footer is
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before the footer: %w", err)
+	}
+
 	// Get current position - start of footer (now page-aligned)
 	footerStart, err := w.file.Seek(0, io.SeekCurrent)
 	if err != nil {
@@ -161,6 +166,11 @@ func (w *Writer) Finalize() error {
 	footerSize := footerEnd - footerStart
 	footerMetaStart := footerEnd
 
+	// The block index must be durable before the metadata that completes the file
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before the footer metadata: %w", err)
+	}
+
 	// Write footer metadata
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
 		return fmt.Errorf("failed to write footer size: %w", err)
-- 
2.43.0


From 723b7f79e9fc870366ef8cc3274811817ee0ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/12] fix: refuse to continue a file after a failed write

Retrying WriteBlock after a failed sync stored the rows twice, and retrying
Finalize after a failed header update wrote the bitmap over the blocks; both
retries reported success.
---
 pkg/col/writer.go          |  1 +
 pkg/col/writer_block_io.go | 13 ++++++++++++-
 pkg/col/writer_finalize.go | 11 ++++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 202f748..588fcda 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -25,6 +25,7 @@ type Writer struct {
 	blockSizes      []uint32      // Size of each block in bytes
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
+	failed          error         // First failed write, after which the file cannot be completed
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..d6c728b 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -69,7 +69,18 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
-func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
+func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
+	// After a failed write neither the file position nor the bookkeeping can be
+	// trusted, so that continuing could produce a complete but wrong file
+	if w.failed != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.failed)
+	}
+	defer func() {
+		if err != nil {
+			w.failed = err
+		}
+	}()
+
 	// Add all IDs to the global ID bitmap
 	for _, id := range ids {
 		w.globalIDs.Set(id)
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index fa5de2f..ac60992 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -49,7 +49,16 @@ func (w *Writer) FinalizeAndClose() error {
 }
 
 // Finalize finalizes the file by writing the footer
-func (w *Writer) Finalize() error {
+func (w *Writer) Finalize() (err error) {
+	if w.failed != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.failed)
+	}
+	defer func() {
+		if err != nil {
+			w.failed = err
+		}
+	}()
+
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
 	if err != nil {
-- 
2.43.0


From 2bb53d0f20ac0041ff7a532e25b59803d79f48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 08/12] fix: release the file when it cannot be finalized

FinalizeAndClose and SimpleWriter.Close left the file open when they failed,
although a failed file can never be completed.
---
 pkg/col/simple_writer.go   | 1 +
 pkg/col/writer_finalize.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 2b398db..50da15b 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -95,6 +95,7 @@ func (sw *SimpleWriter) Close() error {
 
 	// Flush any remaining data
 	if err := sw.flushIfNeeded(true); err != nil {
+		sw.writer.Close() // The file cannot be completed any more
 		return fmt.Errorf("failed to flush remaining data: %w", err)
 	}
 
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index ac60992..b5a9d7e 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -43,6 +43,7 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 // FinalizeAndClose finalizes the file by writing the footer and closes the file
 func (w *Writer) FinalizeAndClose() error {
 	if err := w.Finalize(); err != nil {
+		w.file.Close() // The file cannot be completed any more
 		return err
 	}
 	return w.file.Close()
-- 
2.43.0


From 19632a54b4a92f1547ceb55df785e13a39ef81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 09/12] fix: sort the rows of a block across SimpleWriter.Write
 calls

Rows were only sorted within one call, so a block built from several calls
could hold unsorted IDs.
---
 pkg/col/simple_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 50da15b..5f5d69b 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -136,6 +136,11 @@ func (sw *SimpleWriter) flushIfNeeded(force bool) error {
 	}
 
 	if shouldWrite {
+		// Pending data from several Write calls is only sorted per call
+		if !isSorted(sw.pendingIDs) {
+			sortByID(sw.pendingIDs, sw.pendingValues)
+		}
+
 		// Try to write all pending items
 		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
 
-- 
2.43.0


From d27e80d47fbd28a21f4d3b1666a2dba047ab484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 10/12] fix: reject a damaged ID bitmap instead of panicking

---
 pkg/col/reader.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 32dce2e..fdfa858 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -184,6 +184,9 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 	}
 
 	// Create a bitmap from the buffer
+	if err := checkBitmap(bitmapBuf); err != nil {
+		return nil, fmt.Errorf("invalid bitmap: %w", err)
+	}
 	bitmap := sroar.FromBuffer(bitmapBuf)
 
 	// Only cache if enabled
@@ -193,3 +196,41 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 
 	return bitmap, nil
 }
+
+// checkBitmap verifies the structure of a serialized bitmap, which sroar trusts:
+// a node of keys and container offsets, followed by the containers. All sizes
+// and offsets are in 16-bit words.
+func checkBitmap(buf []byte) error {
+	if len(buf) == 0 {
+		return nil // no IDs
+	}
+	if len(buf) < 16 {
+		return fmt.Errorf("%d bytes are too short for a bitmap", len(buf))
+	}
+	words := uint64(len(buf) / 2)
+	nodeSize := binary.LittleEndian.Uint64(buf[0:8])
+	numKeys := binary.LittleEndian.Uint64(buf[8:16])
+	if nodeSize > words || nodeSize%4 != 0 || nodeSize < 16 || numKeys == 0 || numKeys > (nodeSize/4-2)/2 {
+		return fmt.Errorf("%d keys in a node of %d words", numKeys, nodeSize)
+	}
+	for i := uint64(0); i < numKeys; i++ {
+		key := binary.LittleEndian.Uint64(buf[16+i*16:])
+		if key&0xFFFF != 0 || (i > 0 && key <= binary.LittleEndian.Uint64(buf[i*16:])) {
+			return fmt.Errorf("key %d is out of order", i)
+		}
+		offset := binary.LittleEndian.Uint64(buf[24+i*16:])
+		if offset < nodeSize || offset >= words || words-offset < 4 {
+			return fmt.Errorf("container %d is outside the bitmap", i)
+		}
+		container := buf[offset*2:]
+		size := uint64(binary.LittleEndian.Uint16(container[0:2]))
+		kind := binary.LittleEndian.Uint16(container[2:4])
+		count := uint64(binary.LittleEndian.Uint16(container[4:6])) + uint64(binary.LittleEndian.Uint16(container[6:8]))
+		isArray := kind == 0 && size >= 4 && count <= size-4
+		isBitmap := kind == 1 && size == 4+65536/16 && count <= 65536
+		if (!isArray && !isBitmap) || size > words-offset {
+			return fmt.Errorf("container %d is inconsistent", i)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 43ce8d7a75c2dc79206d6755282aa536e65ea75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 11/12] fix: accept bitmaps whose node is not a multiple of 8
 bytes

---
 pkg/col/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index fdfa858..1fea15b 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -210,7 +210,7 @@ func checkBitmap(buf []byte) error {
 	words := uint64(len(buf) / 2)
 	nodeSize := binary.LittleEndian.Uint64(buf[0:8])
 	numKeys := binary.LittleEndian.Uint64(buf[8:16])
-	if nodeSize > words || nodeSize%4 != 0 || nodeSize < 16 || numKeys == 0 || numKeys > (nodeSize/4-2)/2 {
+	if nodeSize > words || nodeSize < 16 || numKeys == 0 || numKeys > (nodeSize/4-2)/2 {
 		return fmt.Errorf("%d keys in a node of %d words", numKeys, nodeSize)
 	}
 	for i := uint64(0); i < numKeys; i++ {
-- 
2.43.0


From 63c1f960a6a71b1f01d883197c43277a9d8cf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:04 +0000
Subject: [PATCH 12/12] fix: a finalized file stays complete

A block written after Finalize went behind the footer and made the complete
file unreadable; finalizing again rewrote the header and the footer, so that
a crash or a failure on the way lost a file that was already durable.
---
 pkg/col/writer.go          | 1 +
 pkg/col/writer_block_io.go | 4 ++++
 pkg/col/writer_finalize.go | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 588fcda..c3e1832 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -26,6 +26,7 @@ type Writer struct {
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
 	failed          error         // First failed write, after which the file cannot be completed
+	finalized       bool          // Whether the file is complete
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index d6c728b..ca9fc92 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -75,6 +75,10 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
 	if w.failed != nil {
 		return fmt.Errorf("an earlier write failed: %w", w.failed)
 	}
+	// A block behind the footer would make the complete file unreadable
+	if w.finalized {
+		return fmt.Errorf("the file is already finalized")
+	}
 	defer func() {
 		if err != nil {
 			w.failed = err
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index b5a9d7e..f6781ed 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -54,6 +54,10 @@ func (w *Writer) Finalize() (err error) {
 	if w.failed != nil {
 		return fmt.Errorf("an earlier write failed: %w", w.failed)
 	}
+	// The file is complete, writing it again would put that at risk
+	if w.finalized {
+		return w.file.Sync()
+	}
 	defer func() {
 		if err != nil {
 			w.failed = err
@@ -219,6 +223,7 @@ func (w *Writer) Finalize() (err error) {
 	if err := w.file.Sync(); err != nil {
 		return fmt.Errorf("failed to sync file during finalization: %w", err)
 	}
+	w.finalized = true
 
 	return nil
 }
-- 
2.43.0

