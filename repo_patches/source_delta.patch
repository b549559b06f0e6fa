From 45899bd7f6e693ae27fc6036c6781e14c90ca7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 01/62] fix: LumpId.Compare orders ids whose difference does
 not fit in an int

---
 lump/lump.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lump/lump.go b/lump/lump.go
index 262b649..f4ade96 100644
--- a/lump/lump.go
+++ b/lump/lump.go
@@ -66,7 +66,12 @@ func (id LumpId) Write(w io.Writer) (int, error) {
 }
 
 func (left LumpId) Compare(right LumpId) int {
-	return int(left.lo - right.lo)
+	if left.lo < right.lo {
+		return -1
+	} else if left.lo > right.lo {
+		return 1
+	}
+	return 0
 }
 
 func EmptyLump() LumpId {
-- 
2.43.0


From 2ec5ef9dd851f754cae698ba323e896fbc56cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 02/62] fix: FromBytes copies an unaligned source to the
 aligned part of the buffer

---
 block/aligned_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..e276c09 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -65,7 +65,7 @@ func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From 100d890935190c7305a882b09824859b149079d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 03/62] fix: FromBytes accepts an empty source

---
 block/aligned_bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index e276c09..293a582 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -17,7 +17,10 @@ type AlignedBytes struct {
 //https://github.com/ncw/directio/blob/master/direct_io.go
 func alignment(block []byte, AlignSize uint16) int {
 	//address % 512
-	return int(uintptr(unsafe.Pointer(&block[0])) & uintptr(AlignSize-1))
+	if cap(block) == 0 {
+		return 0
+	}
+	return int(uintptr(unsafe.Pointer(&block[:1][0])) & uintptr(AlignSize-1))
 }
 
 func createNewAlignedBuf(size int, blockSize BlockSize) (uint16, []byte) {
-- 
2.43.0


From c2de87e9fc5c47e1f8687d5fd06cc5dfa20c67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 04/62] fix: LumpIndex counts an overwritten id once and
 ignores absent deletes

---
 lumpindex/lump_index.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..294e95f 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,29 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id.U64(), n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id.U64(), n)
+}
+
+//only a new id changes the count
+func (index *LumpIndex) insert(id uint64, n uint64) {
+	if _, have := index.tree.Get(id); !have {
+		atomic.AddUint64(&index.counts, 1)
+	}
+	index.tree.Insert(id, n)
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
+	if !index.tree.Delete(id.U64()) {
+		return false
+	}
 	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	return true
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 914ac8c91efd1418856dd3241c4019917753a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 05/62] fix: DataRegion.Update covers every block an unaligned
 write touches

---
 storage/data_region.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..2c885a9 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -132,23 +132,27 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
 	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(startOffset)+uint64(len(payload)) > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
+	end := startOffset + uint32(len(payload))
+	//the last block is needed to know the real size, when the write may reach it
+	readEnd := end
+	if end >= onDiskSize-region.block_size.AsU32() {
+		readEnd = onDiskSize
+	}
 	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
+	prefixPadding := startOffset % region.block_size.AsU32()
 	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+		int(region.shiftBlockSize(prefixPadding+readEnd-startOffset)))
 	if err != nil {
 		return err
 	}
-	prefixPadding := startOffset % region.block_size.AsU32()
 	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
+	if readEnd == onDiskSize {
 		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
+		if end > onDiskSize-LUMP_DATA_TRAILER_SIZE-uint32(originalPaddingSize) {
 			return errors.Wrap(internalerror.InvalidInput,
 				"object reserved capacity exceeded")
 		}
-- 
2.43.0


From 6bd7660c8768bfc3934cf8daf52da502922a9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 06/62] fix: DataRegion.Update reports a failed write

---
 storage/data_region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 2c885a9..29ce7cd 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -166,7 +166,7 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 		// data is already aligned since it's returned from AlignedBytes
 		_, err = region.nvm.Write(data)
 	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	_, err = region.nvm.WriteAt(data, int64(readOffset))
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 	return err
-- 
2.43.0


From ffd9f262e3803b3fef6134e0b78bc2572fe0c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 07/62] fix: GetWithOffset reads every block an unaligned range
 touches

---
 storage/data_region.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 29ce7cd..ddc1a1f 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -247,33 +247,40 @@ func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 
 	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(startOffset)+uint64(length) > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
+	end := startOffset + length
+	//the last block is needed to know the real size, when the read may reach it
+	readEnd := end
+	if end >= onDiskSize-region.block_size.AsU32() {
+		readEnd = onDiskSize
+	}
 	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
 	prefixPadding := startOffset % region.block_size.AsU32()
 
 	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+		int(region.shiftBlockSize(prefixPadding+readEnd-startOffset)))
 	if err != nil {
 		return nil, err
 	}
 	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
+	if readEnd != onDiskSize {
 		return data[prefixPadding : prefixPadding+length], nil
 	}
 
 	//In this case, if length is too big(reach to the last block), prevent to read the padding data
 
 	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	realFileSize := onDiskSize - padding_size - LUMP_DATA_TRAILER_SIZE
+	if startOffset > realFileSize {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
+	end = util.Min32(end, realFileSize)
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	return data[prefixPadding : prefixPadding+end-startOffset], nil
 }
-- 
2.43.0


From 24ef4a8ce8d6f751cf52b7d505b918633e020af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 08/62] fix: DataRegion.Put gives the portion back when the
 write fails

---
 storage/data_region.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index ddc1a1f..5246f1b 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -101,7 +101,12 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	if err != nil {
+		//nobody will refer to this portion
+		region.Release(data_portion)
+		return portion.DataPortion{}, err
+	}
+	return data_portion, nil
 }
 
 //thread-safe
-- 
2.43.0


From 0dd489ee6fad81b1256cd0280f13987aba7a9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 09/62] fix: JournalNvmBuffer.Write keeps the buffered bytes
 after the written ones

---
 storage/journal/nvm_buffer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..eeb6d12 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -121,9 +121,9 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		end := uint32(start) + uint32(len(buf))
 
 		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
+		//never shrink, the bytes after end may not be flushed yet
+		if uint64(end) > oldLen {
+			jb.writeBuf.AlignResize(end)
 			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
 			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
 		}
-- 
2.43.0


From cb0b0da1cfc1ad3c4729610c86b9d6b30fbdddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 10/62] fix: JournalNvmBuffer.Write reports a failed read
 instead of buffering garbage

---
 storage/journal/nvm_buffer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index eeb6d12..23bb942 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -124,8 +124,14 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		//never shrink, the bytes after end may not be flushed yet
 		if uint64(end) > oldLen {
 			jb.writeBuf.AlignResize(end)
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+			if _, err := jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart); err != nil {
+				jb.writeBuf.Truncate(uint32(oldLen))
+				return 0, err
+			}
+			if _, err := jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:]); err != nil && err != io.EOF {
+				jb.writeBuf.Truncate(uint32(oldLen))
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -149,8 +155,14 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if _, err := jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart); err != nil {
+				jb.writeBuf.AlignResize(0)
+				return 0, err
+			}
+			if _, err := jb.nvm.Read(jb.writeBuf.AsBytes()); err != nil && err != io.EOF {
+				jb.writeBuf.AlignResize(0)
+				return 0, err
+			}
 		}
 
 		//call
-- 
2.43.0


From d37142788290fc49124c63012f3ee3f005ac02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 11/62] fix: a full journal is reported before the ring jumps
 to the front

---
 storage/journal/ring_buffer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..809db09 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -90,13 +90,18 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	jportion = portion.JournalPortion{}
 	err = nil
 	//1. check usage
-	if ring.checkFreeSpace(record) == false {
+	if ring.checkFreeSpace(ring.tail, record) == false {
 		err = internalerror.JournalStorageFull
 		return
 	}
 
 	//2. check overflow
 	if ring.isOverFlow(record) {
+		//the record must fit at the front before anything is written
+		if ring.checkFreeSpace(0, record) == false {
+			err = internalerror.JournalStorageFull
+			return
+		}
 		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
 			return
 		}
@@ -135,15 +140,15 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
-func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+func (ring *JournalRingBuffer) checkFreeSpace(tail uint64, record JournalRecord) bool {
+	writeEnd := tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
 
 	/*
 	* freeEnd is the length this record could possiblly reach. It could be overflow
 	 */
 	var freeEnd uint64
-	if ring.tail < ring.unreleasedHead {
+	if tail < ring.unreleasedHead {
 		freeEnd = ring.unreleasedHead
 	} else {
 		freeEnd = ring.Capacity() + ring.unreleasedHead
-- 
2.43.0


From a27244925e526fabb8c22dddc7523eb7f92beb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 12/62] fix: DequeueIter remembers that it passed the end of
 the ring

---
 storage/journal/ring_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 809db09..9b72d66 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -179,7 +179,7 @@ type DequeueIter struct {
 	isSecondLoop bool
 }
 
-func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
+func (iter *DequeueIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.readBuf)
 	if err != nil {
 		return JournalEntry{}, err
-- 
2.43.0


From c8c54976a99d2d52e860185530e1af0fb15648d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 13/62] fix: ReadIter reports where each journal entry starts

---
 storage/journal/ring_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 9b72d66..3a7e721 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -248,6 +248,7 @@ type ReadIter struct {
 
 /* No buffer and update nothing */
 func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
+	start := iter.ring.nvm.Position()
 	record, err := ReadRecordFrom(iter.ring.nvm)
 	if err != nil {
 		return JournalEntry{}, err
@@ -261,10 +262,9 @@ func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
 		return JournalEntry{}, internalerror.NoEntries
 	default:
 		entry = JournalEntry{
-			Start:  address.AddressFromU64(iter.ring.head),
+			Start:  address.AddressFromU64(start),
 			Record: record,
 		}
-		//current = entry.End()
 		return entry, nil
 	}
 }
-- 
2.43.0


From 72925ce14d08aecfb579e389d5ceb92d7b1ece34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 14/62] fix: Enqueue does not keep a record whose end marker
 could not be written

---
 storage/journal/ring_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 3a7e721..c6f1ccb 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -123,13 +123,14 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	if err = record.WriteTo(ring.nvm); err != nil {
 		return
 	}
-	ring.tail = ring.nvm.Position()
+	newTail := ring.nvm.Position()
 
 	//4. write End OF Record
 	endRecord := EndOfRecords{}
 	if err = endRecord.WriteTo(ring.nvm); err != nil {
 		return
 	}
+	ring.tail = newTail
 
 	switch r := record.(type) {
 	case EmbedRecord:
-- 
2.43.0


From c426347cc901f8c3792a40ba4df53b6660abb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 15/62] fix: GC after an append does not drop the Put record
 just appended

---
 storage/journal/region.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..67cf3a8 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -132,9 +132,11 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
+	//if record refers to a lump, we should update the index as well
 	//because journal GC start after append, to prevent to be GCed
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
 	}
-- 
2.43.0


From 44db4211cb26671dc536e48b6ffe90f109f85804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 16/62] fix: GC during DeleteRange does not write the deleted
 lumps again

---
 storage/journal/region.go |  4 ++++
 storage/storage.go        | 26 +++++++++++++-------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 67cf3a8..5fc6f6f 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -139,6 +139,9 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRange:
+		//prevent GC from appending the deleted lumps again, behind this record
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
@@ -326,6 +329,7 @@ func (journal *JournalRegion) RecordDelete(index *lumpindex.LumpIndex, id lump.L
 	return journal.appendWithGC(index, record)
 }
 
+//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordDeleteRange(index *lumpindex.LumpIndex, start, end lump.LumpId) error {
 	record := DeleteRange{
 		Start: start,
diff --git a/storage/storage.go b/storage/storage.go
index bac392b..f450677 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -707,25 +707,25 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
+	//remember what the range occupies, recording the deletion removes it from index
+	var released []portion.DataPortion
+	store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
+		switch v := p.(type) {
+		case portion.DataPortion:
+			released = append(released, v)
+		}
+		return nil
+	})
 	store.jr.Lock()
 	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
 	store.jr.Unlock()
 	if err != nil {
 		return err
 	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
-		switch v := p.(type) {
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-		return nil
-
-	})
+	for _, p := range released {
+		store.dataRegion.Release(p)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
-- 
2.43.0


From cdfe978e5caa678b3521b2bf264c94adf2f54813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 17/62] fix: GC keeps a live entry which can not be appended
 again

---
 storage/journal/region.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 5fc6f6f..e2e053c 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -203,7 +203,7 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
@@ -214,7 +214,10 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 
 			if journal.isGarbage(index, entry) == false {
 				record := entry.Record
-				journal.append(index, record)
+				if err = journal.append(index, record); err != nil {
+					//the entry is still needed, keep it for the next round
+					journal.gcQueue.PushFront(entry)
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -240,7 +243,7 @@ ENDFOR:
 			journal.ring.ReleaseBytesUntil(head)
 		}
 	*/
-
+	return err
 }
 
 func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
@@ -359,10 +362,13 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) error {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if err := journal.gcOnce(index); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -391,7 +397,10 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			journal.fillGCQueue()
 		}
 
-		journal.gcAllEntriesInQueue(index)
+		if err := journal.gcAllEntriesInQueue(index); err != nil {
+			//no room to move a live entry, nothing more can be released
+			return
+		}
 
 		if between(before_head, tail, journal.ring.Head()) {
 			break
-- 
2.43.0


From 062beaa85cf9cb7ac84ef8a8bf84ac06c78878f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 18/62] fix: GcAllEntries flushes the moved entries before it
 releases the old ones

---
 storage/journal/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index e2e053c..c08f4bf 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -406,6 +406,10 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			break
 		}
 	}
+	//the entries moved to the tail must be readable before the old ones are released
+	if err := journal.ring.Flush(); err != nil {
+		panic(fmt.Sprintf("GcAllEntries %+v", err))
+	}
 	journal.writeUnusedJournalHeader(journal.ring.Head())
 	//assert head == unreleased_head
 	//journal.headerRegion.WriteTo(journal.ring.Head())
-- 
2.43.0


From 21a882579fc8daa1efbf64c0ad225b15e15b00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 19/62] fix: journal space is not released when the header can
 not be written

---
 storage/journal/region.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index c08f4bf..dd63b2f 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -247,7 +247,10 @@ ENDFOR:
 }
 
 func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		//the journal still starts at the old head on disk, its space can not be reused
+		return
+	}
 	journal.ring.ReleaseBytesUntil(head)
 }
 
-- 
2.43.0


From a3db7b712e7268575f54a08415490dff89c431c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 20/62] fix: Usage reports no free segment when the store is
 full

---
 storage/storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index f450677..9befeb6 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -263,13 +263,17 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	var maxSegmentSize uint64
+	if n := store.alloc.MaxSegmentSize(); n > 0 {
+		maxSegmentSize = util.Min(lump.LUMP_MAX_SIZE, n*blockSize-LUMP_DATA_TRAILER_SIZE)
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    maxSegmentSize,
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
-- 
2.43.0


From f32846f5afc198ecab5ba2d2fd22892e8db05666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 21/62] fix: Close takes the locks in the same order as
 everyone else

---
 storage/storage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 9befeb6..e52cef7 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -676,10 +676,11 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
+	//lock order is i, jr
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
-- 
2.43.0


From 36ca47709c7218df76f177d8288921afd83a55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 22/62] fix: JournalSnapshot does not read a closed store

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index e52cef7..16f391e 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -350,6 +350,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
-- 
2.43.0


From 9cca61c4208543564368992a9a711cd400ec38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 23/62] fix: a lump can not be deleted and its blocks reused
 while it is being read

---
 storage/storage.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 16f391e..d12ccc2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -388,15 +388,14 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//the portion must not be reused until it is read
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
 
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -417,13 +416,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//the portion must not be reused until it is read
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -449,13 +448,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//the portion must not be reused until it is read
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e215229d8c321c89b00e78def6467bfcfa61d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 24/62] fix: GetWithOffset of an embedded lump rejects a range
 past its end

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index d12ccc2..cdf311b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -468,6 +468,9 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
+		if uint64(startOffset)+uint64(length) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
+		}
 		return data[startOffset : startOffset+length], nil
 	default:
 		panic("never here")
-- 
2.43.0


From dbda47b36a5837cd02cb07c55b0429080304b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 25/62] fix: a lump stays when its deletion can not be recorded

---
 storage/journal/region.go |  4 ++++
 storage/storage.go        | 15 +++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index dd63b2f..a3b260c 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -139,6 +139,9 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRecord:
+		//prevent GC from appending the deleted lump again, behind this record
+		index.Delete(v.LumpID)
 	case DeleteRange:
 		//prevent GC from appending the deleted lumps again, behind this record
 		index.DeleteRange(v.Start, v.End)
@@ -328,6 +331,7 @@ func (journal *JournalRegion) RecordEmbed(index *lumpindex.LumpIndex, id lump.Lu
 	return journal.appendWithGC(index, record)
 }
 
+//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordDelete(index *lumpindex.LumpIndex, id lump.LumpId) error {
 	record := DeleteRecord{
 		LumpID: id,
diff --git a/storage/storage.go b/storage/storage.go
index cdf311b..369267a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -600,15 +600,18 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
 	if doRecord {
 		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
+		err = store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+		if err != nil {
+			return false, 0, err
+		}
+	} else {
+		//Because previous Get is ok, this Delete will surely success
+		if ok := store.index.Delete(lumpid); ok == false {
+			panic("Delete after Get failed, something bad happend")
+		}
 	}
 
 	var releasedSize uint32
-- 
2.43.0


From 5ddc2e647f0801a3590ef383576f94129dcc71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 26/62] fix: two puts of the same lump do not leak the blocks
 of the first

---
 storage/storage.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 369267a..98d5be7 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -486,6 +486,13 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		//the allocator is gone with the store
+		return internalerror.StorageClosed
+	}
+
+	//somebody else may have put the same lump in the meantime
+	old, _ := store.index.Get(lumpid)
 
 	store.jr.Lock()
 	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
@@ -497,7 +504,9 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
+	if v, ok := old.(portion.DataPortion); ok {
+		store.dataRegion.Release(v)
+	}
 
 	if int64(lumpdata.Inner.Len()) == 1 {
 
-- 
2.43.0


From 67530d236fab36a6f8c68c2a727cf573f45cd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 27/62] fix: a failed overwrite leaves memory and journal in
 agreement

---
 storage/storage.go | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 98d5be7..6e98491 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -517,7 +517,9 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
 	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
+	//the old lump gives its blocks back before the new one is stored. This must be recorded,
+	//otherwise the old record owns the blocks again after a reopen, if the new one fails
+	if updated, _, err = store.deleteIfExist(lumpid); err != nil {
 		return updated, err
 	}
 	return updated, store.put(lumpid, lumpdata)
@@ -577,24 +579,30 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, getErr := store.index.Get(lumpid)
+	if err = store.journalRegion.RecordEmbed(store.index, lumpid, data); err != nil {
+		//the old lump, if any, is untouched
+		return false, err
+	}
+	if v, ok := old.(portion.DataPortion); ok {
+		store.dataRegion.Release(v)
+	}
+	return getErr == nil, nil
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
+	updated, size, err = store.deleteIfExist(lumpid)
 	return
 }
 
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
+func (store *Storage) deleteIfExist(lumpid lump.LumpId) (bool, uint32, error) {
 
 	store.i.Lock()
 	defer store.i.Unlock()
@@ -609,18 +617,11 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	if doRecord {
-		store.jr.Lock()
-		err = store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-		if err != nil {
-			return false, 0, err
-		}
-	} else {
-		//Because previous Get is ok, this Delete will surely success
-		if ok := store.index.Delete(lumpid); ok == false {
-			panic("Delete after Get failed, something bad happend")
-		}
+	store.jr.Lock()
+	err = store.journalRegion.RecordDelete(store.index, lumpid)
+	store.jr.Unlock()
+	if err != nil {
+		return false, 0, err
 	}
 
 	var releasedSize uint32
-- 
2.43.0


From 271c3bb1d03bb46672f2e5ed6ea2cba80d3be2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 28/62] fix: PutWithOffset updates a lump exclusively

---
 storage/storage.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 6e98491..702269f 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -547,32 +547,38 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
+	payload := lumpdata.AsBytes()
+	if found, err := store.updateIfExist(lumpid, payload, startOffset); found || err != nil {
+		// `reservation` is ignored in this case
+		return err
+	}
+
+	// this is a new object. Padding necessary zeros and call `put`
+	toWrite := paddingWithZero(payload, startOffset, reservation)
+	data := block.FromBytes(toWrite, block.Min())
+	lumpdata = lump.NewLumpDataWithAb(data)
+	return store.put(lumpid, lumpdata)
+}
+
+//update exist object
+func (store *Storage) updateIfExist(lumpid lump.LumpId, payload []byte, startOffset uint32) (bool, error) {
+	//neither readers nor other updates of the same blocks are allowed in the meantime
+	store.i.Lock()
+	defer store.i.Unlock()
 	if !store.opened {
-		store.i.RUnlock()
-		return internalerror.StorageClosed
+		return false, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
-	payload := lumpdata.AsBytes()
-
 	if err != nil {
 		// Only one error possible, which is "object could not be found",
-		// meaning this is a new object. Padding necessary zeros and call `put`
-		toWrite := paddingWithZero(payload, startOffset, reservation)
-		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		return false, nil
 	}
-
-	// update exist object; `reservation` is ignored in this case
-
 	switch v := p.(type) {
 	case portion.DataPortion:
-		return store.dataRegion.Update(v, startOffset, payload)
+		return true, store.dataRegion.Update(v, startOffset, payload)
 	case portion.JournalPortion:
 		// TODO?
-		return errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
+		return true, errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From 5f797168aed455e679e0f8516cd0befb6e5f1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 29/62] fix: PutWithOffset rejects an object bigger than the
 largest lump

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 702269f..c44bad7 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -553,6 +553,9 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		return err
 	}
 
+	if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE || reservation > lump.LUMP_MAX_SIZE {
+		return errors.Wrap(internalerror.InvalidInput, "object is too big")
+	}
 	// this is a new object. Padding necessary zeros and call `put`
 	toWrite := paddingWithZero(payload, startOffset, reservation)
 	data := block.FromBytes(toWrite, block.Min())
-- 
2.43.0


From d21e951738a8e5bfd2217038f9b26faf728313e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 30/62] fix: Put rejects an object bigger than the largest lump

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index c44bad7..9d35c93 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -517,6 +517,9 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
 	err = nil
+	if lumpdata.Inner == nil || lumpdata.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return false, errors.Wrap(internalerror.InvalidInput, "object is too big")
+	}
 	//the old lump gives its blocks back before the new one is stored. This must be recorded,
 	//otherwise the old record owns the blocks again after a reopen, if the new one fails
 	if updated, _, err = store.deleteIfExist(lumpid); err != nil {
-- 
2.43.0


From 5c425460e6e7c89a036c2d90bd343d09a6ab45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 31/62] fix: a new store never claims more space than its file

---
 storage/storage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 9d35c93..231a640 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -194,15 +194,17 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 		journalSize = uint64(file.BlockSize().AsU16() * 2)
 	}
 
+	//at least one block for data
+	if headerSize+journalSize+uint64(file.BlockSize().AsU16()) > totalSize {
+		panic("journal size is too big")
+	}
+
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
 		panic(fmt.Sprintf("data size is too big: %d", dataSize))
 	}
 
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
-	}
 
 	header := nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
-- 
2.43.0


From 7c126b25abee81e83d2ee64a78f9c887efbf6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 32/62] fix: CreateCannylsStorage reports a failed write

---
 storage/storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 231a640..2ffbaa2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -162,7 +162,9 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
+		return nil, err
+	}
 
 	if err = snapNVM.Sync(); err != nil {
 		return nil, err
-- 
2.43.0


From bc7c77a9acff8b65582a5837d78f044a7840fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 33/62] fix: FileNVM does not read or write outside of its view

---
 nvm/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..c195431 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -209,6 +209,10 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
 	}
 
+	if off < 0 || uint64(off) > nvm.Capacity() {
+		return -1, errors.Wrapf(internalerror.InvalidInput, "offset %d is out of range, in read", off)
+	}
+
 	maxLen := nvm.Capacity() - uint64(off)
 	if maxLen == 0 {
 		return 0, io.EOF
@@ -258,6 +262,10 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
 	}
 
+	if offset < 0 || uint64(offset) > nvm.Capacity() {
+		return -1, errors.Wrapf(internalerror.InvalidInput, "offset %d is out of range, in write", offset)
+	}
+
 	realPos := int64(nvm.viewStart) + offset
 	maxLen := nvm.Capacity() - uint64(offset)
 	bufLen := uint64(len(buf))
-- 
2.43.0


From 9209b8b59dcf8013d34ca946b67248a25a920966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 34/62] fix: Split rejects a position outside of the view

---
 nvm/file.go        | 3 +++
 nvm/header.go      | 3 +++
 nvm/snapnvm.go     | 5 ++++-
 storage/storage.go | 3 +++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index c195431..2a5cfca 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -161,6 +161,9 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 	if block.Min().CeilAlign(uint64(position)) != position {
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "position %d is out of range in split", position)
+	}
 
 	//TODO
 	leftNVM := &FileNVM{
diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..3116eef 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -238,5 +238,8 @@ func (self *StorageHeader) SplitRegion(nvm NonVolatileMemory) (NonVolatileMemory
 		return nil, nil
 	}
 	journalNVM, dataNVM, err := body.Split(self.JournalRegionSize)
+	if err != nil {
+		return nil, nil
+	}
 	return journalNVM, dataNVM
 }
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..cce2586 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -757,7 +757,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
diff --git a/storage/storage.go b/storage/storage.go
index 2ffbaa2..9112045 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -68,6 +68,9 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 
 	index := lumpindex.NewIndex()
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
+	if journalNVM == nil || dataNVM == nil {
+		return nil, errors.Wrap(internalerror.StorageCorrupted, "region size is wrong")
+	}
 
 	journalRegion, err := journal.OpenJournalRegion(journalNVM)
 	if err != nil {
-- 
2.43.0


From 34bc47006d3d4d2b16854c8c3fbc6eac7266d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 35/62] fix: FileNVM.Seek returns the new position

---
 nvm/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index 2a5cfca..4457e25 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -203,7 +203,7 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	realFilePosition := nvm.viewStart + uint64(abs)
 
 	nvm.cursor_position = realFilePosition
-	return offset, nil
+	return abs, nil
 }
 
 //read,write threadSafe
-- 
2.43.0


From 17ed6282c6ba4151670ec3d59d0a9659e7655f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 36/62] fix: FileNVM.Read fills what was never written with
 zeros

---
 nvm/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nvm/file.go b/nvm/file.go
index 4457e25..d9e0947 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -250,6 +250,10 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 	}
 
 	if n < int(len) {
+		//the file is shorter than its capacity, the rest is not written yet
+		for i := n; i < int(len); i++ {
+			buf[i] = 0
+		}
 		nvm.file.Seek(int64(newPosition), io.SeekStart)
 		nvm.cursor_position = newPosition
 		return int(len), nil
-- 
2.43.0


From 8ce2c25daa753f0492fcc206f1eaf4d3e8859857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 37/62] fix: a snapshot is not read while its origin is being
 written

---
 nvm/snapnvm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index cce2586..924a271 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -518,8 +518,9 @@ func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
 //read thread-safe
 func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
+	//the origin region must not be written while it is read
+	self.snap.RLock()
+	defer self.snap.RUnlock()
 
 	regionSize := self.snap.myBackfile.RegionSize()
 	/* local buffer is empty */
-- 
2.43.0


From fa8b6561e81b7cc01a08c7d0fa29fd84daea5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 38/62] fix: a write of more than one region does not panic
 when there is a snapshot

---
 nvm/snapnvm.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 924a271..10c47eb 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -668,9 +668,6 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	defer self.Unlock()
 	realPos := self.originFile.ViewStart() + uint64(off)
 	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
 		rawFile := self.rawSnapNVM.originFile
 
 		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
@@ -695,10 +692,6 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	start := self.originFile.Position() //start is a relative position
 	realPos := self.originFile.ViewStart() + start
 	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
 		rawFile := self.rawSnapNVM.originFile
 
 		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-- 
2.43.0


From b70cc4489834fd7785e5a895cffdf91eee658e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 39/62] fix: an empty write copies nothing to the snapshot

---
 nvm/snapnvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 10c47eb..140f225 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -299,6 +299,9 @@ func (bf *BackingFile) Delete() {
 func (bf *BackingFile) GetCopyOffset(start uint64, end uint64) (onBacking []uint32, onOrigin []uint32) {
 	bf.RLock()
 	defer bf.RUnlock()
+	if start >= end {
+		return
+	}
 	n0 := start / bf.regionSize
 	n1 := (end - 1) / bf.regionSize
 	for i := n0; i <= n1; i++ {
-- 
2.43.0


From 11569d79c478356ebc04ad052b9ef6daa241a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 40/62] fix: a store does not open the snapshot of another
 store

---
 nvm/snapnvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 140f225..905dc4c 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -619,7 +619,8 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	//../../../ASDF.lusf => ASDF
 	baseName := filepath.Base(originFile.path)
 	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
+	//the prefix of another store could start with prefix_, only a uuid may follow
+	pattern := fmt.Sprintf("%s/%s_%s_lusf.snapshot", fileDirectory, prefix, "????????-????-????-????-????????????")
 	//fmt.Println(pattern)
 	matches, err := filepath.Glob(pattern)
 	//fmt.Println(matches)
-- 
2.43.0


From 8ef44d9a046a45a8c71b8a2157ed474a60772060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 41/62] fix: a snapshot is created where it is searched for

---
 nvm/snapnvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 905dc4c..19355a6 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -639,7 +639,7 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	snapNVM := &SnapNVM{
 		originFile: originFile,
 		myBackfile: myBackFile,
-		prefix:     prefix,
+		prefix:     filepath.Join(fileDirectory, prefix),
 		splited:    false,
 	}
 	//create ab for read data from
-- 
2.43.0


From 6b8952e24ff200d57989c5dc170bfebcf81e98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 42/62] fix: SnapNVM.RawSize holds its lock

---
 nvm/snapnvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 19355a6..f42fd48 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -855,7 +855,7 @@ func (self *SnapNVM) Position() uint64 {
 
 func (self *SnapNVM) RawSize() int64 {
 	self.Lock()
-	self.Unlock()
+	defer self.Unlock()
 	return self.rawSnapNVM.originFile.RawSize()
 }
 
-- 
2.43.0


From a1c3a4350032dcd884d5581a94cb21ae54adb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 43/62] fix: buffers are aligned to block sizes that are not a
 power of two

---
 block/aligned_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index 293a582..4f48f63 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -20,7 +20,7 @@ func alignment(block []byte, AlignSize uint16) int {
 	if cap(block) == 0 {
 		return 0
 	}
-	return int(uintptr(unsafe.Pointer(&block[:1][0])) & uintptr(AlignSize-1))
+	return int(uintptr(unsafe.Pointer(&block[:1][0])) % uintptr(AlignSize))
 }
 
 func createNewAlignedBuf(size int, blockSize BlockSize) (uint16, []byte) {
-- 
2.43.0


From 5df327cfa4bb842738ef6435e7e2dff7e74724a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 44/62] fix: report a failed write of a delete range record

---
 storage/journal/record.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..79ca1a2 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -246,8 +246,12 @@ func (record DeleteRange) WriteTo(w io.Writer) error {
 	if err := writeRecordHeader(record, w); err != nil {
 		return err
 	}
-	record.Start.Write(w)
-	record.End.Write(w)
+	if _, err := record.Start.Write(w); err != nil {
+		return err
+	}
+	if _, err := record.End.Write(w); err != nil {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From 2ffda0084237a58616d21a29746c5863a84f52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 45/62] fix: reject a journal record with an unknown tag with
 an error

---
 storage/journal/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index 79ca1a2..d8d37f7 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -323,7 +323,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
-- 
2.43.0


From 6f8fa7a151b3240cfd6172a31904b228b65ea085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 46/62] fix: append a journal record and the end mark with one
 write

---
 storage/journal/ring_buffer.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index c6f1ccb..9669685 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -85,6 +85,14 @@ func (ring *JournalRingBuffer) Flush() error {
 	return ring.nvm.Flush()
 }
 
+//recordBuf collects the bytes of records
+type recordBuf []byte
+
+func (buf *recordBuf) Write(p []byte) (int, error) {
+	*buf = append(*buf, p...)
+	return len(p), nil
+}
+
 //only return embeded JournalPortion
 func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.JournalPortion, err error) {
 	jportion = portion.JournalPortion{}
@@ -115,22 +123,24 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 		return ring.Enqueue(record)
 	}
 
-	//3. write data
+	//3. write data and End OF Record at once, a failed write must not leave a part of
+	//them behind the last record
 	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+	buf := make(recordBuf, 0, record.ExternalSize()+END_OF_RECORDS_SIZE)
+	if err = record.WriteTo(&buf); err != nil {
+		return
+	}
+	endRecord := EndOfRecords{}
+	if err = endRecord.WriteTo(&buf); err != nil {
 		return
 	}
-	if err = record.WriteTo(ring.nvm); err != nil {
+	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
 		return
 	}
-	newTail := ring.nvm.Position()
-
-	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	if _, err = ring.nvm.Write(buf); err != nil {
 		return
 	}
-	ring.tail = newTail
+	ring.tail = preTail + uint64(record.ExternalSize())
 
 	switch r := record.(type) {
 	case EmbedRecord:
-- 
2.43.0


From f3e2b03db2374602515bd811d8110f372ec40724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 47/62] fix: write the record at the front of the journal
 before the jump to it

---
 storage/journal/ring_buffer.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 9669685..34ffecf 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -110,17 +110,18 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 			err = internalerror.JournalStorageFull
 			return
 		}
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-			return
-		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
-			return
-		}
-
-		//Jump to front
+		//write the record at the front before the jump to it, the journal must not lead
+		//to the old records there
+		jumpAt := ring.tail
 		ring.tail = 0
-		return ring.Enqueue(record)
+		if jportion, err = ring.Enqueue(record); err == nil {
+			if err = ring.writeGoToFront(jumpAt); err == nil {
+				return
+			}
+		}
+		ring.tail = jumpAt
+		ring.DoStoreUsage()
+		return portion.JournalPortion{}, err
 	}
 
 	//3. write data and End OF Record at once, a failed write must not leave a part of
@@ -151,6 +152,19 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+func (ring *JournalRingBuffer) writeGoToFront(position uint64) error {
+	if _, err := ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
+		return err
+	}
+	buf := make(recordBuf, 0, END_OF_RECORDS_SIZE)
+	r := GoToFront{}
+	if err := r.WriteTo(&buf); err != nil {
+		return err
+	}
+	_, err := ring.nvm.Write(buf)
+	return err
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(tail uint64, record JournalRecord) bool {
 	writeEnd := tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
-- 
2.43.0


From a0c285195dd682a53865c056994592add4f9a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 48/62] fix: a new free-space map reported zero as its longest
 free run

---
 storage/allocator/allocator.go      | 1 +
 storage/allocator/judy_allocator.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/storage/allocator/allocator.go b/storage/allocator/allocator.go
index 36798ea..b69c648 100644
--- a/storage/allocator/allocator.go
+++ b/storage/allocator/allocator.go
@@ -57,6 +57,7 @@ func NewBtreeAlloc() *BtreeDataPortionAlloc {
 func BuildBtreeDataPortionAlloc(capacitySector uint32) *BtreeDataPortionAlloc {
 	alloc := NewBtreeAlloc()
 	alloc.addFreePortion(portion.NewFreePortion(address.AddressFromU32(0), capacitySector))
+	alloc.updateMaxSegmentSize()
 	return alloc
 }
 
diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index 5ca01bc..1e4d042 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -121,6 +121,7 @@ func NewJudyAlloc() *JudyPortionAlloc {
 func BuildJudyAlloc(capacitySector uint32) *JudyPortionAlloc {
 	alloc := NewJudyAlloc()
 	alloc.addPortion(newJudyPortion(address.AddressFromU64(0), capacitySector))
+	alloc.updateMaxSegmentSize()
 	return alloc
 }
 
-- 
2.43.0


From 0cd0a84a16a9df870c36e66afb099e8fb10501a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 49/62] fix: a lump kept in a buffer with larger blocks got
 padding that partial reads took for data

---
 storage/data_region.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 5246f1b..830a0e5 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -61,13 +61,13 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
-	//Aligned
-	data.Inner.AlignResize(size)
+	//Aligned to the blocks of the region, whatever the block size of the buffer is
+	data.Inner.Resize(uint32(region.block_size.CeilAlign(uint64(size))))
 
 	trailer_offset := data.Inner.Len() - LUMP_DATA_TRAILER_SIZE
 	padding_len := data.Inner.Len() - size
 
-	if padding_len >= uint32(data.Inner.BlockSize().AsU16()) {
+	if padding_len >= region.block_size.AsU32() {
 		panic("data region put's align is wrong")
 	}
 	util.PutUINT16(data.Inner.AsBytes()[trailer_offset:], uint16(padding_len))
-- 
2.43.0


From 13b2e670516ab2c9335363e61d6ac0af6c345ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 50/62] fix: Close does not free the free-space map while a put
 allocates from it

---
 storage/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 9112045..763536b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -727,7 +727,10 @@ func (store *Storage) Close() {
 	store.journalSync()
 	store.innerNVM.Close()
 	store.index.Free()
+	//a put allocates without holding i
+	store.dataRegion.Lock()
 	store.alloc.Free()
+	store.dataRegion.Unlock()
 }
 
 func (store *Storage) RunSideJobOnce(countSideJob int) {
-- 
2.43.0


From d167f059c74d69127a12b044dbd8cadf1782e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 51/62] fix: SetAutomaticGcMode takes the lock of the journal
 it changes

---
 storage/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 763536b..2e45bc3 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -223,6 +223,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
-- 
2.43.0


From c7362a56de6a8b12d7bbb67230c66322bcf75e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 52/62] fix: a storage header of the wrong length is rejected

---
 nvm/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nvm/header.go b/nvm/header.go
index 3116eef..f69aa9c 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -87,6 +87,8 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 	var headerSize uint16
 	if err := binary.Read(reader, binary.BigEndian, &headerSize); err != nil {
 		return nil, errors.Wrap(internalerror.InvalidInput, "read header size failed")
+	} else if headerSize != HEADER_SIZE {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "read header size not match: %v", headerSize)
 	}
 
 	reader = io.LimitReader(reader, int64(headerSize))
-- 
2.43.0


From 936e8d88faa1fc7530d30224103e79039f5175be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 53/62] fix: MemoryNVM rejects misaligned and out-of-range
 accesses

---
 nvm/memory.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..adcf34c 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -47,7 +47,7 @@ func (memory *MemoryNVM) RawSize() int64 {
 }
 
 func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
-	if memory.BlockSize().CeilAlign(p) != p {
+	if memory.BlockSize().CeilAlign(p) != p || p > uint64(len(memory.vec)) {
 		return nil, nil, internalerror.InvalidInput
 	}
 
@@ -85,11 +85,14 @@ func (memory *MemoryNVM) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (memory *MemoryNVM) Read(buf []byte) (n int, err error) {
-	memory.RLock()
-	defer memory.RUnlock()
+	memory.Lock()
+	defer memory.Unlock()
 	if memory.position >= uint64(len(memory.vec)) {
 		return 0, io.EOF
 	}
+	if !memory.BlockSize().IsAligned(uint64(len(buf))) {
+		return -1, internalerror.InvalidInput
+	}
 	//TODO, maybe copyBuffer?
 	n = copy(buf, memory.vec[memory.position:])
 	memory.position += uint64(n)
@@ -116,10 +119,19 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 	return block.Min()
 }
 
+//isValid tells whether an access at off is aligned and does not begin outside of the memory
+func (memory *MemoryNVM) isValid(p []byte, off int64) bool {
+	return memory.BlockSize().IsAligned(uint64(off)) && memory.BlockSize().IsAligned(uint64(len(p))) &&
+		off >= 0 && off <= int64(len(memory.vec))
+}
+
 //Thread-Safe
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
+	if !memory.isValid(p, off) {
+		return -1, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -130,6 +142,9 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
+	if !memory.isValid(p, off) {
+		return -1, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 08cb80b872f2072d26c51adf90ff8c488f64399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 54/62] fix: a write fails if the snapshot can not save the old
 data, WriteAt leaves the cursor

---
 nvm/snapnvm.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index f42fd48..19f366f 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -677,10 +677,11 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
 
 		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
+			//the cursor of rawFile stays where it is
+			n, err = util.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes(), int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()))
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				//the old data can not be saved, keep it
+				return 0, err
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
@@ -704,13 +705,11 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 				onOrigin, start, realPos, realPos+uint64(len(buf)))
 		*/
 		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
+			//the cursor of rawFile stays where it is
+			n, err = util.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes(), int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()))
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				//the old data can not be saved, keep it
+				return 0, err
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
-- 
2.43.0


From da83d994fa44a43c8f7dd8a574c436cc83417743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 55/62] fix: a write past the end of a view saves no region
 that does not exist

---
 nvm/snapnvm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 19f366f..4771297 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -674,7 +674,7 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	if self.rawSnapNVM.myBackfile != nil {
 		rawFile := self.rawSnapNVM.originFile
 
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
+		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, util.Min(realPos+uint64(len(buf)), self.originFile.ViewEnd()))
 
 		for i := 0; i < len(onOrigin); i++ {
 			//the cursor of rawFile stays where it is
@@ -699,7 +699,7 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	if self.rawSnapNVM.myBackfile != nil {
 		rawFile := self.rawSnapNVM.originFile
 
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
+		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, util.Min(realPos+uint64(len(buf)), self.originFile.ViewEnd()))
 		/*
 			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
 				onOrigin, start, realPos, realPos+uint64(len(buf)))
-- 
2.43.0


From b0122bff2114a60db583b7c000c9dccd498454af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 56/62] fix: seeking in a snapshot counts the buffered bytes
 and stays inside the snapshot

---
 nvm/snapnvm.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 4771297..11f3c65 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -499,23 +499,23 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 
 //read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
 	switch whence {
 	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
 	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
+		//self.offset is the end of the buffered data
+		offset += int64(self.offset) - int64(self.waterHighMark-self.waterLowMark)
 	case 2:
 		panic("not supported so far")
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	if offset < 0 || offset > int64(self.snap.myBackfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
+	}
+	self.waterHighMark = 0
+	self.waterLowMark = 0
+	self.offset = uint64(offset)
+	return offset, nil
 }
 
 //read thread-safe
-- 
2.43.0


From 6a6d8ff51bc479fbcb2c7b8f331104a54e4ba616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 57/62] fix: a region torn at the end of a snapshot file does
 not shift the next one

---
 nvm/snapnvm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 11f3c65..3e4c0d2 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -446,6 +446,8 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	var dataEnd = util.Max(dataStart, uint64(info.Size()))
 
 	n := (dataEnd - dataStart) >> header.RegionShift
+	//a region which was not written completely does not count
+	dataEnd = dataStart + n<<header.RegionShift
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
-- 
2.43.0


From 9e60d0597703eb11877d34fc9d766c95c907a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 58/62] fix: a snapshot that can not be created leaves no file
 behind

---
 nvm/snapnvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 3e4c0d2..5b577b9 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -403,6 +403,9 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 	}
 
 	if err = header.WriteTo(file); err != nil {
+		//the store could not be opened with it
+		file.Close()
+		os.Remove(fileName)
 		return nil, err
 	}
 
-- 
2.43.0


From 4e2fd92e1df2b41b212e78db57ffbef3a1bf1438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 59/62] fix: a region that could not be saved does not shift
 the next ones in the snapshot

WriteOffset moved the end of the data before the data was written: after a
failed write the snapshot file held one region more than entries and could
not be opened any more. It returns an error now, which fails the write.
---
 nvm/snapnvm.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 5b577b9..355d227 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -347,7 +347,8 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
 //WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+//when it fails the region is not saved and can be saved again
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
@@ -365,23 +366,28 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
 	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
+	if _, err := bf.file.Seek(int64(bf.JournalEnd), io.SeekStart); err != nil {
+		return errors.Wrap(err, "failed to seek in the snapshot")
+	}
 	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+		return errors.Wrap(err, "failed to write to the snapshot")
 	}
 	//Write data
-	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+	if _, err := bf.file.Seek(int64(start), io.SeekStart); err != nil {
+		return errors.Wrap(err, "failed to seek in the snapshot")
 	}
-	bf.dataEnd += bf.regionSize
 	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+		return errors.Wrap(err, "failed to write to the snapshot")
+	}
+	if err := bf.file.Sync(); err != nil {
+		return errors.Wrap(err, "failed to sync the snapshot")
 	}
 
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
@@ -690,7 +696,9 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
+			if err = self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i]); err != nil {
+				return 0, err
+			}
 		}
 	}
 	return self.originFile.WriteAt(buf, off)
@@ -718,7 +726,9 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
+			if err = self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i]); err != nil {
+				return 0, err
+			}
 		}
 	}
 	self.originFile.Seek(int64(start), io.SeekStart)
-- 
2.43.0


From cffc225dacdd9da91657b4f962323085a1a4b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 60/62] fix: a snapshot gets its name when its header is
 complete

After a crash while a snapshot was created, the store found a snapshot file
with a part of a header and could not be opened.
---
 nvm/snapnvm.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 355d227..01a713a 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -393,7 +393,9 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
 	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	//it gets its name when its header is complete, the store could not be opened with a part of it
+	tmpName := fileName + ".tmp"
+	file, err := os.OpenFile(tmpName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -408,15 +410,17 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
-	if err = header.WriteTo(file); err != nil {
-		//the store could not be opened with it
+	if err = header.WriteTo(file); err == nil {
+		if err = file.Sync(); err == nil {
+			err = os.Rename(tmpName, fileName)
+		}
+	}
+	if err != nil {
 		file.Close()
-		os.Remove(fileName)
+		os.Remove(tmpName)
 		return nil, err
 	}
 
-	file.Sync()
-
 	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
 		file:           file,
-- 
2.43.0


From 71cea26f1711780a88c7775bd7c428211a97cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 61/62] fix: a snapshot can be read with any buffer, and a
 failed read returns no negative count

io.ReadAll of a snapshot larger than a few regions grows its buffer beyond a
region, which made Read panic.
---
 nvm/snapnvm.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 01a713a..5fb2e90 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -541,10 +541,6 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 	defer self.snap.RUnlock()
 
 	regionSize := self.snap.myBackfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
-		panic("Read data too big")
-	}
 	start := self.offset / regionSize * regionSize
 	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
 	//read the whole region size
@@ -564,7 +560,7 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
 			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
 			if err != nil && err != io.EOF {
-				return -1, err
+				return 0, err
 			}
 			if n == 0 {
 				return 0, io.EOF
@@ -582,7 +578,7 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
 			//if originFile is shorter than expected
 			if err != nil && err != io.EOF {
-				return -1, err
+				return 0, err
 			}
 			if n == 0 {
 				return 0, io.EOF
-- 
2.43.0


From 894aa950a2bdfbbc73f9706f05fe06d8cdaa2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 62/62] fix: find the snapshot of a store whose path has
 characters special in a pattern

---
 nvm/snapnvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 5fb2e90..ddcdfee 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -631,7 +632,9 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	baseName := filepath.Base(originFile.path)
 	prefix := baseName[0 : len(baseName)-5]
 	//the prefix of another store could start with prefix_, only a uuid may follow
-	pattern := fmt.Sprintf("%s/%s_%s_lusf.snapshot", fileDirectory, prefix, "????????-????-????-????-????????????")
+	//only the uuid is a pattern, the path is taken literally
+	quote := strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+	pattern := fmt.Sprintf("%s/%s_%s_lusf.snapshot", quote.Replace(fileDirectory), quote.Replace(prefix), "????????-????-????-????-????????????")
 	//fmt.Println(pattern)
 	matches, err := filepath.Glob(pattern)
 	//fmt.Println(matches)
-- 
2.43.0

