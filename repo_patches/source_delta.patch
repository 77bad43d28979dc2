From 188040ffbc4da28ba87fc6d964688c32dbe1e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 01/45] fix: flush the new database header in recdb Create

Create wrote the prefix and the header into a bufio.Writer that was never
flushed, so the initialised database stayed empty.
---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From 67125f27a1f8edf4ea810bdd381bc354fcfefe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 02/45] fix: make the recdb iterator rewrite the entry it has
 just returned

SetPrevious sought back from the underlying file pointer, which the buffered
reader had already moved past the following entries, so it overwrote another
entry (the last one of a short file) and then lost the reading position.
---
 internal/infra/recdb/iterator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..ecf5eab 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,17 +105,23 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The file pointer can't be relied on, since the reader reads ahead.
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	// Resume reading right after the entry whether it has been written or not.
+	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
+	if err == nil {
+		err = seekErr
+	}
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
 	return nil
 }
-- 
2.43.0


From 342a5ac5193591e42cb0a36a3372a27373b09088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 03/45] fix: reject recdb entries that don't fit into their
 capacity

WriteEntry wrote the whole data regardless of the declared capacity, so an
entry that had outgrown it silently overwrote the beginning of the next one.
---
 internal/infra/recdb/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..fca951a 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,14 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if int64(size) > int64(entry.Capacity) {
+		return 0, fmt.Errorf("entry of size %d exceeds its capacity %d", size, entry.Capacity)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From cf516842ea22fdc93955993422fa2ee7c9f82c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 04/45] fix: report an entry without data instead of panicking

reflect.TypeOf(nil) is nil, so building the error message panicked.
---
 internal/infra/recdb/likeprotocol.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..9272404 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"recengine/internal/domain"
-	"reflect"
 )
 
 // Binary ("like") implementation of IConcreteProtocol.
@@ -78,8 +77,8 @@ func (p *likeProtocol) WriteEntryData(entry *Entry, writer io.Writer) (int, erro
 	profile, ok := entry.Data.(*domain.Profile)
 	if !ok {
 		return 0, fmt.Errorf(
-			"entry's data type doesn't represent like profile, got %s",
-			reflect.TypeOf(entry.Data).Name(),
+			"entry's data type doesn't represent like profile, got %T",
+			entry.Data,
 		)
 	}
 	// Write user ID
-- 
2.43.0


From 58db83e4d288c33506ccdc0014a0d6474f2c8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 05/45] fix: survive malformed item counts and capacities of
 recdb entries

An item count read from a damaged file was allocated in advance (up to 64 GB
for 16 bytes of data), and the capacity check underflowed for capacities that
are less than the entry header, so such entries were accepted.
---
 internal/infra/recdb/likeprotocol.go | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 9272404..f76115b 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -19,6 +19,29 @@ func NewLikeProtocol() ConcreteProtocol {
 	return &likeProtocol{}
 }
 
+// The number of items to read (and allocate memory for) at a time.
+const itemChunkSize = 4096
+
+// Reads a list of item IDs. The memory is allocated as the data arrives, since
+// the number of items can't be trusted if the file is malformed.
+func (p *likeProtocol) readItems(count uint32, reader io.Reader) ([]uint64, error) {
+	items := make([]uint64, 0)
+	for remaining := count; remaining > 0; {
+		size := remaining
+		if size > itemChunkSize {
+			size = itemChunkSize
+		}
+		chunk := make([]uint64, size)
+		err := binary.Read(reader, binary.BigEndian, chunk)
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, chunk...)
+		remaining -= size
+	}
+	return items, nil
+}
+
 // Reads entry data filling the `Entry.Data` struct.
 // Returns the number of the bytes having read.
 // The returned size can vary from 0 to `Entry.Capacity`.
@@ -35,8 +58,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	likes := make([]uint64, numLikes)
-	err = binary.Read(reader, binary.BigEndian, likes)
+	likes, err := p.readItems(numLikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -46,8 +68,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	dislikes := make([]uint64, numDislikes)
-	err = binary.Read(reader, binary.BigEndian, dislikes)
+	dislikes, err := p.readItems(numDislikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -62,7 +83,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, fmt.Errorf("cannot predict data size: %w", err)
 	}
-	if size > int(entry.Capacity-entryHeaderSize) {
+	if int64(size) > int64(entry.Capacity)-entryHeaderSize {
 		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
-- 
2.43.0


From 7ab2ef3526e8c5a39fc414a0bc9d2a868845e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 06/45] fix: don't share the skip buffer between concurrent
 readers

SkipReading read into a package level buffer, so reading two database files
at the same time was a data race.
---
 internal/helpers/io.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..8550cbf 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	// The buffer isn't shared, because readers may be used concurrently
+	dump := [100]byte{}
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0


From 72d8314f7fd249c852e58da2921f5175a0dbecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 07/45] fix: don't fail skipping when the last bytes come along
 with EOF

io.Reader is allowed to return the final bytes together with an error.
---
 internal/helpers/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 8550cbf..cb0d32a 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -39,7 +39,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		if err != nil && skipped < size {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From 9afba3e02a35284b0897abcb6c8db4d6d7012938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 08/45] fix: keep the order when inserting next to duplicates

InsertSavingOrder put the value right next to the duplicate that the search
happened to find: inserting 2 into [1 1] resulted in [1 2 1].
---
 internal/helpers/arrays.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..c999dd4 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -144,9 +144,16 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 		return append(haystack, value)
 	}
 	index := BinaryIndexOfClosest(haystack, value)
+	// Step over the duplicates of the closest element
 	if value >= haystack[index] {
+		for index+1 < len(haystack) && haystack[index+1] <= value {
+			index++
+		}
 		return Insert(haystack, index+1, value)
 	}
+	for index > 0 && haystack[index-1] > value {
+		index--
+	}
 	return Insert(haystack, index, value)
 }
 
-- 
2.43.0


From 9f0317a8e669d7880e601536ae51f9fadbc717bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 09/45] fix: keep profile similarity defined and in range

The weight of dislikes was truncated to an integer, so small dislike sets were
ignored, and two profiles of zero total weight had NaN similarity.
---
 internal/domain/profile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..639f983 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -99,7 +99,10 @@ func computeSimilarityBetweenSets(itemsA []uint64, itemsB []uint64) (float32, in
 func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32 {
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
-	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
-	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
-		(float32(likesWeight) + float32(dislikesWeight)))
+	weightedDislikes := float32(dislikesWeight) * dislikeFactor
+	if float32(likesWeight)+weightedDislikes == 0 {
+		return 0
+	}
+	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*weightedDislikes) /
+		(float32(likesWeight) + weightedDislikes))
 }
-- 
2.43.0


From cf91e297a7b1bf5ea063db317b0f525a0f217525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 10/45] fix: find flushed delta operations of users with
 unflushed ones

Get looked into the flushed operations of a user only if the user had no
unflushed operations at all, so adding any item hid all the earlier ones.
---
 internal/infra/delta/storage.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..c1bc99f 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,17 +146,13 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
-	if !exists {
-		return domain.DeltaOpAdd, false
-	}
-	for i := range deltas {
-		delta := deltas[len(deltas)-i-1]
-		if delta.item == item {
-			return delta.op, true
+	// The unflushed operations are newer than the flushed ones
+	for _, deltas := range [][]itemDelta{s.newDelta[user], s.deltaCache[user]} {
+		for i := range deltas {
+			delta := deltas[len(deltas)-i-1]
+			if delta.item == item {
+				return delta.op, true
+			}
 		}
 	}
 	return domain.DeltaOpAdd, false
-- 
2.43.0


From 407d9d1e83029c40e138ebcda6c376358535e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 11/45] fix: let a failed delta flush be retried

A flush interrupted by an I/O error left a part of the entries in the file and
in the cache. The next one appended all of them again after the leftovers,
possibly unaligned, so the file turned into garbage, but was marked as clean.
Also seek errors were ignored.
---
 internal/infra/delta/storage.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index c1bc99f..ee1a34e 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -56,8 +59,14 @@ func (s *storage) flushHeader() error {
 
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
-	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// Write to file right after the flushed entries. The end of the file can't be
+	// relied on, since a failed flush might have left some data there.
+	flushedItemCount := s.totalItemCount - s.unflushedItemCount
+	offset := int64(len(prefix)) + headerSize + int64(flushedItemCount)*entrySize
+	_, err := s.file.Seek(offset, io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -71,19 +80,17 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From bf0591e610b836ac2ca55f347ce0ec9ba1ba2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 12/45] fix: open empty and incompletely created delta files

OpenMaybeRecover failed with EOF checking the lock of a new (empty) file or of
a file whose creation had been interrupted, so a namespace couldn't ever start.
Recover reads the file from the beginning wherever the file pointer is.
---
 internal/infra/delta/storagefactory.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..2593efc 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,12 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
@@ -138,11 +142,19 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
 	if err != nil {
-		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		return nil, fmt.Errorf("failed to get file size: %v", err)
+	}
+	// A non-empty file that is too short hasn't been created completely
+	corrupted := size > 0 && size < int64(len(prefix)+headerSize)
+	if size > 0 && !corrupted {
+		corrupted, err = f.proto.IsLocked(file)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		}
 	}
-	if locked {
+	if corrupted {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From cfb95dd6e7a8c32a62c60cc7f77a8f1c26136783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 13/45] fix: keep the delta file locked until its recovery is
 complete

Recover started with writing the unlocked header, so a crash in the middle of
the rewriting left a file that was considered valid, but contained a mix of
recovered and corrupted entries.
---
 internal/infra/delta/storagefactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 2593efc..132f7af 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -41,6 +41,12 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	// The file has to stay locked until it's completely rewritten, otherwise an
+	// interrupted recovery would leave inconsistent data that look valid.
+	err = f.proto.WriteLocked(true, tmpFile)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	if err != nil {
 		return err
@@ -58,6 +64,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From f46b22e3dfa9243beb3f4fd39f824e0d41f0879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 14/45] fix: skip recovered delta entries of unknown operations

A zero-filled block, which is what a crash often leaves at the end of a file,
has a matching checksum and was recovered as a series of entries.
---
 internal/infra/delta/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..098500c 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -292,6 +292,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From fe4bbb2f1a6192d344bf7fba3290326514900aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 15/45] fix: don't take a read failure for the end of a
 recovered delta file

Recovery treated any error as the end of the data, so a transient read error
made it rewrite the file without all the entries it hadn't managed to read.
---
 internal/infra/delta/protocol.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 098500c..c2f6db3 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -40,6 +40,15 @@ var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 // The offset of the lock byte of the header from the beginning of the file.
 const lockedOffset = len(prefix) + 1
 
+// The file doesn't begin with the prefix.
+var errNotDeltaFile = errors.New("not a delta file")
+
+// Returns true if the error means that the data ended unexpectedly, rather than
+// that they couldn't be read.
+func isEOF(err error) bool {
+	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // Provides delta file functions.
 type Protocol interface {
 	// Writes the file prefix, aka "Magic number", which verifies type of the file.
@@ -107,7 +116,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDeltaFile
 	}
 	return nil
 }
@@ -264,12 +273,18 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
+	if err != nil && !isEOF(err) && err != errNotDeltaFile {
+		return err
+	}
 	if err != nil {
 		return p.WriteHeader(&hdr, writer)
 	}
 
 	// Try to read header
 	err = p.ReadHeader(&hdr, reader)
+	if err != nil && !isEOF(err) {
+		return err
+	}
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
@@ -286,6 +301,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	var entriesRecovered uint32 = 0
 	for {
 		err = p.ReadEntry(&entry, reader)
+		if err != nil && !isEOF(err) {
+			return err
+		}
 		if err != nil {
 			break
 		}
-- 
2.43.0


From 8b9630f343480e46c07d27d1bd04430405c6b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/45] fix: unlock the index file after its entries are saved

Close unlocked the file before writing the entries, so a crash or an error in
between left an outdated or incomplete index that was considered valid.
---
 internal/infra/index/storage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..3c1ff8e 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,7 +83,8 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	// The file must stay locked until all the data are written
+	err := s.saveHeader(true)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
@@ -97,6 +98,13 @@ func (s *storage) Close() error {
 		}
 		return err
 	}
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		if s.closer != nil {
+			s.closer.Close()
+		}
+		return err
+	}
 	if s.closer != nil {
 		return s.closer.Close()
 	}
-- 
2.43.0


From 93e244df89e764012a88b33af6fd4ffdf24349e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 17/45] fix: reset the index file of a namespace after a crash

The index storage never reported CorruptedFileError the namespace looks for,
and it had closed the file the namespace then tried to truncate, so after an
unexpected termination a namespace couldn't start any more.
---
 internal/domain/errors.go              | 6 ++++++
 internal/domain/likenamespace.go       | 4 ++--
 internal/infra/index/storage.go        | 3 +--
 internal/infra/index/storagefactory.go | 9 +++++++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..967df45 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// Makes errors.Is() match any errors of this type.
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..9b63c71 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,9 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The factory has closed the file
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 3c1ff8e..d112c36 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -59,7 +58,7 @@ func (s *storage) load() error {
 		return fmt.Errorf("failed to read index header: %v", err)
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return domain.NewCorruptedFileError()
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..a51a93a 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -58,12 +58,17 @@ func (f *storageFactory) Open(
 		return nil, err
 	}
 	if size > 0 {
-		err = storage.load()
+		if size < int64(entriesOffset) {
+			// The file hasn't been created completely
+			err = domain.NewCorruptedFileError()
+		} else {
+			err = storage.load()
+		}
 		if err != nil {
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 6fabfd2b284d9ced5bf39aa8c9868b00dd0bfb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 18/45] fix: let namespaces be stopped while they are being
 used

An action sent to a stopped namespace panicked (send on closed channel), one
sent to a namespace that hadn't been started waited forever, and stopping it
twice panicked. A cancelled context made the worker wait for Stop forever
instead of closing the storages, which left their files locked.
---
 internal/domain/likenamespace.go | 58 +++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 9b63c71..dc81b3a 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
@@ -21,6 +22,9 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	actionMutex             sync.RWMutex // guards the fields below and closing of the channel
+	running                 bool
+	stopped                 bool
 }
 
 // Compile-time type check
@@ -153,6 +157,11 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	ns.actionMutex.Lock()
+	defer ns.actionMutex.Unlock()
+	if ns.running || ns.stopped {
+		return fmt.Errorf("namespace %s has already been started or stopped", ns.name.Value())
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
@@ -168,6 +177,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		indexStorage.Close()
 		return err
 	}
+	ns.running = true
 	go func() {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
@@ -176,6 +186,8 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		for {
 			select {
 			case <-ctx.Done():
+				// The queue has to be drained meanwhile, since its writers may be blocked
+				go ns.Stop()
 				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
 			case action, more := <-ns.action:
@@ -207,7 +219,23 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.name)
-	close(ns.action)
+	ns.actionMutex.Lock()
+	defer ns.actionMutex.Unlock()
+	if !ns.stopped {
+		ns.stopped = true
+		close(ns.action)
+	}
+}
+
+// Puts an action to the queue unless there is nobody to process it.
+func (ns *likeNamespace) enqueue(action Action) error {
+	ns.actionMutex.RLock()
+	defer ns.actionMutex.RUnlock()
+	if !ns.running || ns.stopped {
+		return errors.New("the namespace stopped")
+	}
+	ns.action <- action
+	return nil
 }
 
 func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
@@ -232,7 +260,9 @@ func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActio
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
 	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
+	if sendErr := ns.enqueue(Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}); sendErr != nil {
+		return sendErr
+	}
 	return <-err
 }
 
@@ -241,10 +271,12 @@ func (ns *likeNamespace) DeleteProfile(user uint64) error {
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 	errChan := make(chan error)
 	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	if err := ns.enqueue(Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
+	}); err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
@@ -257,21 +289,27 @@ func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
 	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
+	if sendErr := ns.enqueue(Action{ActionLike, err, LikePayload{user, item}}); sendErr != nil {
+		return sendErr
+	}
 	return <-err
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
 	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
+	if sendErr := ns.enqueue(Action{ActionDislike, err, DislikePayload{user, item}}); sendErr != nil {
+		return sendErr
+	}
 	return <-err
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
 	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
+	if sendErr := ns.enqueue(Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}); sendErr != nil {
+		return sendErr
+	}
 	return <-err
 }
 
@@ -279,10 +317,12 @@ func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
 	errChan := make(chan error)
 	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	if err := ns.enqueue(Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
+	}); err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
@@ -296,10 +336,12 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
 	errChan := make(chan error)
 	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	if err := ns.enqueue(Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
+	}); err != nil {
+		return nil, err
 	}
 	select {
 	case err := <-errChan:
-- 
2.43.0


From d35a5cfd1c3f427f95e6bfd7f06b7f538ad5feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 19/45] fix: close the like storage before the storages it
 depends on

---
 internal/domain/likenamespace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index dc81b3a..7fc2298 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -179,9 +179,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	}
 	ns.running = true
 	go func() {
-		defer likeStorage.Close()
+		// The like storage depends on the others, so it has to be closed first
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
+		defer likeStorage.Close()
 		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
 		for {
 			select {
-- 
2.43.0


From 0d7d8db47adac9d88715c31f11f90e7df5704dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 20/45] fix: process all queued actions of a namespace at once

The slice had room for all the queued actions, but the length of one, so only
one action was processed in each waiting period.
---
 internal/domain/likenamespace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 7fc2298..b82f31a 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -200,12 +200,13 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
 				// Take out actions from the channel
-				actions := make([]Action, 1, len(ns.action)+1)
+				actions := make([]Action, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
 					actions[i], more = <-ns.action
 					if !more || actions[i].ActionType == ActionStop {
+						actions = actions[:i]
 						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
 						return
 					}
-- 
2.43.0


From cd65c061d4c470c4054cc1490d38241d3abbe440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 21/45] fix: don't panic starting a namespace without like
 storage

The namespace service has no like storage implementation to provide yet, so
starting any namespace dereferenced a nil factory. Report it instead.
---
 internal/domain/likenamespace.go    | 3 +++
 internal/domain/namespaceservice.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index b82f31a..88895e3 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -162,6 +162,9 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	if ns.running || ns.stopped {
 		return fmt.Errorf("namespace %s has already been started or stopped", ns.name.Value())
 	}
+	if ns.likeStorageFactory == nil {
+		return fmt.Errorf("namespace %s has no like storage", ns.name.Value())
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..edbd8af 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
@@ -73,7 +74,9 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
 	for _, ns := range s.namespaces {
-		ns.Start(ctx)
+		if err := ns.Start(ctx); err != nil {
+			log.Printf("Failed to start namespace %s: %v\n", ns.GetName().Value(), err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 946e5e8b0cf7d026935757b660fce866459322ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 22/45] fix: don't hang updating a namespace

Rename returned a nil channel, receiving from which blocks forever.
---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 88895e3..805b029 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -75,7 +75,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	done := make(chan error, 1)
+	done <- nil
+	return done
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From a66ceacc400a45941f8be8b2aa40965539c0dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 23/45] fix: find namespaces by the name from the path

The handlers read a route parameter that had another name, so requests for
a single namespace were always rejected.
---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From ec290cf143c3f77adccb07cd69c7b84868163723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 24/45] fix: accept zero dislike factor in requests

The validator considered zero a missing value.
---
 internal/api/shard/dto/namespacecreaterequest.go | 10 +++++-----
 internal/api/shard/dto/namespaceupdaterequest.go |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/api/shard/dto/namespacecreaterequest.go b/internal/api/shard/dto/namespacecreaterequest.go
index c412fe3..9e90a9b 100644
--- a/internal/api/shard/dto/namespacecreaterequest.go
+++ b/internal/api/shard/dto/namespacecreaterequest.go
@@ -7,10 +7,10 @@ import (
 
 // A DTO for creating a Namespace.
 type NamespaceCreateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	Type               string  `json:"type" binding:"required,oneof=like"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	Type               string   `json:"type" binding:"required,oneof=like"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, error) {
@@ -30,7 +30,7 @@ func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, e
 		Name:               domainName,
 		Type:               domainType,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
diff --git a/internal/api/shard/dto/namespaceupdaterequest.go b/internal/api/shard/dto/namespaceupdaterequest.go
index e774db2..40390d1 100644
--- a/internal/api/shard/dto/namespaceupdaterequest.go
+++ b/internal/api/shard/dto/namespaceupdaterequest.go
@@ -7,9 +7,9 @@ import (
 
 // A DTO for updating a Namespace.
 type NamespaceUpdateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, error) {
@@ -20,7 +20,7 @@ func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, e
 	domainDto := &domain.NamespaceUpdateRequest{
 		Name:               domainName,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
-- 
2.43.0


From a281c0a1910faa09cc32b54adc9006a33a9482c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 25/45] fix: keep the similar profile limit if an update omits
 it

The limit is optional in update requests, but omitting it set it to zero.
---
 internal/domain/namespaceservice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index edbd8af..2c7adcf 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -173,7 +173,9 @@ func (s *NamespaceService) UpdateNamespace(
 		return nil, err
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
-	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
+	if dto.MaxSimilarProfiles != 0 {
+		ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
+	}
 	if err := s.SaveNamespaces(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From da891ad5a3c7a36fab82a2f8b00f9aa9b4498fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 26/45] fix: keep namespace files in the configured directory

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 2c7adcf..f8f46d2 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -61,6 +61,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From 4c712711a4230d50fc8f79f1c27f7aa7a523f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 27/45] fix: let namespace settings be used concurrently

---
 internal/domain/likenamespace.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 805b029..85ed742 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -21,6 +21,7 @@ type likeNamespace struct {
 	deltaStorageFactory     DeltaStorageFactory
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
+	settingsMutex           sync.RWMutex // guards name, maxSimilarProfiles and dislikeFactor
 	action                  chan Action
 	actionMutex             sync.RWMutex // guards the fields below and closing of the channel
 	running                 bool
@@ -63,6 +64,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.name
 }
 
@@ -73,6 +76,8 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.name = name
 	// TODO: rename the files
 	done := make(chan error, 1)
@@ -82,11 +87,15 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -94,12 +103,14 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.settingsMutex.Lock()
+	defer ns.settingsMutex.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+	filePath := ns.basePath + ns.GetName().Value() + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -107,14 +118,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+	filePath := ns.basePath + ns.GetName().Value() + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -123,7 +134,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 		}
 		// The factory has closed the file
 		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
@@ -144,7 +155,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + ns.GetName().Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -152,7 +163,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
@@ -162,10 +173,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	ns.actionMutex.Lock()
 	defer ns.actionMutex.Unlock()
 	if ns.running || ns.stopped {
-		return fmt.Errorf("namespace %s has already been started or stopped", ns.name.Value())
+		return fmt.Errorf("namespace %s has already been started or stopped", ns.GetName().Value())
 	}
 	if ns.likeStorageFactory == nil {
-		return fmt.Errorf("namespace %s has no like storage", ns.name.Value())
+		return fmt.Errorf("namespace %s has no like storage", ns.GetName().Value())
 	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
@@ -188,7 +199,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
 		defer likeStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName())
 		for {
 			select {
 			case <-ctx.Done():
@@ -225,7 +236,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName())
 	ns.actionMutex.Lock()
 	defer ns.actionMutex.Unlock()
 	if !ns.stopped {
-- 
2.43.0


From e11b129aeab238be3893785a75d2d2a861d3f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 28/45] fix: let the namespace service be used concurrently

HTTP handlers call it from many goroutines at a time.
---
 internal/domain/namespaceservice.go | 36 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index f8f46d2..3cf5ae1 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -27,6 +28,7 @@ type NamespaceUpdateRequest struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	mutex               sync.RWMutex // guards namespaces and the file they are saved to
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -74,7 +76,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
-	for _, ns := range s.namespaces {
+	for _, ns := range s.GetNamespaces() {
 		if err := ns.Start(ctx); err != nil {
 			log.Printf("Failed to start namespace %s: %v\n", ns.GetName().Value(), err)
 		}
@@ -104,6 +106,13 @@ func (s *NamespaceService) LoadNamespaces() error {
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+// Saves namespace list to the file. The mutex must be locked.
+func (s *NamespaceService) saveNamespaces() error {
 	data, err := json.Marshal(s.namespaces)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -118,10 +127,12 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return append([]Namespace{}, s.namespaces...)
 }
 
-// Returns the index of the namespace in the namespace list.
+// Returns the index of the namespace in the namespace list. The mutex must be locked.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
 	for i, ns := range s.namespaces {
 		if ns.GetName() == name {
@@ -133,6 +144,8 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -144,6 +157,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -152,7 +167,7 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -163,10 +178,13 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
-	if ns == nil {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -177,7 +195,7 @@ func (s *NamespaceService) UpdateNamespace(
 	if dto.MaxSimilarProfiles != 0 {
 		ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	}
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -186,13 +204,15 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
 	s.namespaces[index].Stop()
 	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From a42b27706afb4b2e17ff9f37090c137e178a29f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 29/45] fix: make the saved namespaces loadable

Namespaces were encoded as empty objects, which couldn't be decoded back.
---
 internal/domain/likenamespace.go    |  7 ++++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 50 +++++++++++++++++++++++++++--
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 85ed742..bcbe49c 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -108,6 +108,13 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.settingsMutex.RLock()
+	defer ns.settingsMutex.RUnlock()
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.GetName().Value() + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 3cf5ae1..bd97dc6 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -26,6 +26,14 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// The form in which a Namespace is persisted.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // Manages namespaces.
 type NamespaceService struct {
 	mutex               sync.RWMutex // guards namespaces and the file they are saved to
@@ -74,6 +82,24 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 	}
 }
 
+// Creates a namespace from its persisted form.
+func (s *NamespaceService) forgeNamespaceFromRecord(record *namespaceRecord) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(record.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(record.Type)
+	if err != nil {
+		return nil, err
+	}
+	return s.forgeNamespace(&NamespaceCreateRequest{
+		Name:               name,
+		Type:               nsType,
+		MaxSimilarProfiles: record.MaxSimilarProfiles,
+		DislikeFactor:      record.DislikeFactor,
+	})
+}
+
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
 	for _, ns := range s.GetNamespaces() {
@@ -97,10 +123,21 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var records []namespaceRecord
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, len(records))
+	for i := range records {
+		namespaces[i], err = s.forgeNamespaceFromRecord(&records[i])
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+	}
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	s.namespaces = namespaces
 	return nil
 }
 
@@ -113,7 +150,16 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Saves namespace list to the file. The mutex must be locked.
 func (s *NamespaceService) saveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From a4832e453a65c29e116057f81b540f92b8e38390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 30/45] fix: replace the file of saved namespaces atomically

A crash or a full disk while saving destroyed the whole registry.
---
 internal/domain/namespaceservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index bd97dc6..4bcd682 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -164,9 +164,15 @@ func (s *NamespaceService) saveNamespaces() error {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	// The file must never be incomplete, so it's replaced as a whole
+	tmpPath := filePath + ".tmp"
+	err = os.WriteFile(tmpPath, data, 0644)
 	if err != nil {
-		return fmt.Errorf("failed to write to %s: %v", filePath, err)
+		return fmt.Errorf("failed to write to %s: %v", tmpPath, err)
+	}
+	err = os.Rename(tmpPath, filePath)
+	if err != nil {
+		return fmt.Errorf("failed to replace %s: %v", filePath, err)
 	}
 	return nil
 }
-- 
2.43.0


From 35deef5ebb725fcdd1f3bbc361390de2b5c02d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 31/45] fix: undo namespace changes that couldn't be saved

A failed request used to take effect until restart. A namespace kept running
after its failed deletion doesn't get stopped anymore.
---
 internal/domain/namespaceservice.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4bcd682..d0817c0 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -220,6 +220,7 @@ func (s *NamespaceService) CreateNamespace(
 	}
 	s.namespaces = append(s.namespaces, ns)
 	if err = s.saveNamespaces(); err != nil {
+		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
 	return ns, nil
@@ -240,6 +241,8 @@ func (s *NamespaceService) UpdateNamespace(
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
+	oldDislikeFactor := ns.GetDislikeFactor()
+	oldMaxSimilarProfiles := ns.GetMaxSimilarProfiles()
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
@@ -248,6 +251,9 @@ func (s *NamespaceService) UpdateNamespace(
 		ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	}
 	if err := s.saveNamespaces(); err != nil {
+		<-ns.Rename(name)
+		ns.SetDislikeFactor(oldDislikeFactor)
+		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
 		return nil, err
 	}
 	return ns, nil
@@ -262,10 +268,12 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
+	ns := s.namespaces[index]
 	s.namespaces = helpers.Remove(s.namespaces, index)
 	if err := s.saveNamespaces(); err != nil {
+		s.namespaces = append(s.namespaces, ns)
 		return err
 	}
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From 051068351e3bef5d990acf397cde7dfca36fb7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 32/45] fix: don't report saved namespace updates as failed

The service has already saved the change, so saving it again could only turn
a successful update into an error.
---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index a5973d7..b2b9f75 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -137,9 +137,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	if err := endpoint.nsService.SaveNamespaces(); err != nil {
-		ctx.AbortWithStatusJSON(http.StatusInternalServerError, dto.FromError(err))
-		return
-	}
 	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
 }
-- 
2.43.0


From 3abafc44537c8a97a675d3580cf60417e7828b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 33/45] fix: report that the server failed to listen

Run kept waiting for a signal, and a signal could be missed.
---
 internal/api/shard/application.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..a61658c 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From a863f0ebeb298c3a079c6308a601af7e80ebe84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 34/45] fix: shut down gracefully on signals sent during
 startup

A signal sent as soon as the server answered could kill the process, since it
was not subscribed to yet.
---
 internal/api/shard/application.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index a61658c..a0442eb 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,6 +50,12 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
+	quit := make(chan os.Signal, 1)
+	// kill (no param) default send syscanll.SIGTERM
+	// kill -2 is syscall.SIGINT
+	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
+	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
+
 	listenError := make(chan error, 1)
 
 	go func() {
@@ -63,11 +69,6 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal, 1)
-	// kill (no param) default send syscanll.SIGTERM
-	// kill -2 is syscall.SIGINT
-	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
-	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
 	select {
 	case err := <-listenError:
 		return err
-- 
2.43.0


From 8502e9e4a3bad4d5b939377822b4c8ffc5ab7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 35/45] fix: keep the order when putting next to duplicates

---
 internal/helpers/arrays.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index c999dd4..736e79d 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -168,8 +168,5 @@ func PutSavingOrder[T Numeric](haystack []T, value T) []T {
 	if value == haystack[index] {
 		return haystack
 	}
-	if value > haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
-	return Insert(haystack, index, value)
+	return InsertSavingOrder(haystack, value)
 }
-- 
2.43.0


From a1c5a122e475cced14e98b95a484e3eb408e58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 36/45] fix: find the closest element among signed values far
 apart

---
 internal/helpers/arrays.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index 736e79d..b7904ac 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -74,6 +74,16 @@ func Deviation[T Numeric](a, b T) T {
 	return a - b
 }
 
+// Returns true if the deviation a is less than the deviation b.
+// Deviations that exceed the range of a signed integer are wrapped to negative
+// values, whose order is the right one.
+func isLessDeviation[T Numeric](a, b T) bool {
+	if (a < 0) != (b < 0) {
+		return b < 0
+	}
+	return a < b
+}
+
 // Returns the index of the element whose value in the sorted array is the
 // closest to the given one.
 func BinaryIndexOfClosest[T Numeric](haystack []T, needle T) int {
@@ -83,7 +93,7 @@ func BinaryIndexOfClosest[T Numeric](haystack []T, needle T) int {
 	a, b, m := 0, len(haystack)-1, 0
 	minDIndex, minD := a, Deviation(haystack[a], needle)
 	bD := Deviation(haystack[b], needle)
-	if bD < minD {
+	if isLessDeviation(bD, minD) {
 		minD = bD
 		minDIndex = b
 	}
@@ -95,7 +105,7 @@ func BinaryIndexOfClosest[T Numeric](haystack []T, needle T) int {
 		if needle == haystack[m] {
 			return m
 		}
-		if d := Deviation(haystack[m], needle); d < minD {
+		if d := Deviation(haystack[m], needle); isLessDeviation(d, minD) {
 			minD = d
 			minDIndex = m
 		}
-- 
2.43.0


From 96ea5d0f723d20d27af8048552ee7118f845d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 37/45] fix: let failed iterator operations be retried

---
 internal/infra/recdb/iterator.go | 33 +++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index ecf5eab..8f47a46 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -34,6 +34,8 @@ type iterator struct {
 	fileOffset int64
 	entry      Entry
 	proto      Protocol
+	// False if the reader might be not at the fileOffset because of a failure.
+	synced bool
 }
 
 // Compile-time type check
@@ -58,17 +60,23 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto, true}
 	return iter, nil
 }
 
+// Makes the reader continue from the fileOffset.
+func (iter *iterator) seek() error {
+	_, err := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
+	iter.synced = err == nil
+	return err
+}
+
 // Sets the iterator pointer to the beginging of the entries.
 func (iter *iterator) Rewind() error {
-	var err error
-	iter.fileOffset, err = iter.file.Seek(int64(entriesOffset), 0)
+	iter.fileOffset = int64(entriesOffset)
 	iter.entryIndex = 0
-	iter.reader.Reset(iter.file)
-	if err != nil {
+	if err := iter.seek(); err != nil {
 		return fmt.Errorf("failed to rewind DB iterator: %v", err)
 	}
 	return nil
@@ -86,11 +94,19 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	if !iter.synced {
+		if err := iter.seek(); err != nil {
+			return nil, fmt.Errorf("failed to iterate next: %v", err)
+		}
+	}
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
+		iter.synced = false
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.entry = entry
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
 	entryCopy := iter.entry
 	return &entryCopy, nil
@@ -112,8 +128,7 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
 	// Resume reading right after the entry whether it has been written or not.
-	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
-	iter.reader.Reset(iter.file)
+	seekErr := iter.seek()
 	if err == nil {
 		err = seekErr
 	}
-- 
2.43.0


From b8e04c731a545dd3f20e5eb4c6f6bca63e0b4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 38/45] fix: don't replace namespaces that couldn't be loaded

---
 internal/domain/namespaceservice.go | 2 +-
 main.go                             | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index d0817c0..afc5475 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -121,7 +121,7 @@ func (s *NamespaceService) LoadNamespaces() error {
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-		return fmt.Errorf("failed to open %s: %v", filePath, err)
+		return fmt.Errorf("failed to open %s: %w", filePath, err)
 	}
 	var records []namespaceRecord
 	err = json.Unmarshal(data, &records)
diff --git a/main.go b/main.go
index ea47458..c4372d5 100644
--- a/main.go
+++ b/main.go
@@ -2,7 +2,9 @@ package main
 
 import (
 	"context"
+	"errors"
 	"log"
+	"os"
 	"recengine/internal/api/shard"
 	"recengine/internal/domain"
 	"recengine/internal/infra/delta"
@@ -20,6 +22,10 @@ func runShard() {
 
 	nsService := domain.NewNamespaceService(ctx, deltaStorageFactory, indexStorageFactory)
 	if err := nsService.LoadNamespaces(); err != nil {
+		if !errors.Is(err, os.ErrNotExist) {
+			// The next change would replace the namespaces that couldn't be loaded.
+			log.Fatalf("Error loading namespaces: %v\n", err)
+		}
 		log.Printf("Warning: couldn't load domains (first load?): %v\n", err)
 	}
 	if err := nsService.Start(ctx); err != nil {
-- 
2.43.0


From f478e95dec9484ce0353452bc9ff3a6c377e4d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 39/45] fix: make responses show the state their requests found
 or made

Requests running at the same time could get bodies that mixed the states of
a namespace before and after another update, or show the result of a later one.
---
 .../api/shard/endpoints/namespaceendpoint.go  | 69 +++++++++++++++----
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index b2b9f75..ddc5f7c 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -5,6 +5,7 @@ import (
 	"recengine/internal/api/shard/dto"
 	"recengine/internal/domain"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 
 	"github.com/gin-gonic/gin"
 )
@@ -12,6 +13,7 @@ import (
 // Controller for the namespace API endpoint.
 type NamespaceEndpoint struct {
 	nsService *domain.NamespaceService
+	mutex     sync.RWMutex // makes responses show what their own requests found or changed
 }
 
 // Creates a NamespaceEndpoint.
@@ -56,12 +58,25 @@ func (endpoint *NamespaceEndpoint) Create(ctx *gin.Context) {
 		AbortWithValidationError(ctx, err)
 		return
 	}
-	ns, err := endpoint.nsService.CreateNamespace(domainDto)
+	response, err := endpoint.create(domainDto)
 	if err != nil {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ctx.IndentedJSON(http.StatusCreated, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusCreated, response)
+}
+
+// Creates a namespace and tells what it is like.
+func (endpoint *NamespaceEndpoint) create(
+	req *domain.NamespaceCreateRequest,
+) (*dto.NamespaceResponse, error) {
+	endpoint.mutex.Lock()
+	defer endpoint.mutex.Unlock()
+	ns, err := endpoint.nsService.CreateNamespace(req)
+	if err != nil {
+		return nil, err
+	}
+	return dto.NewNamespaceResponse(ns), nil
 }
 
 // @Summary      Returns a namespace by its name.
@@ -79,12 +94,23 @@ func (endpoint *NamespaceEndpoint) Get(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ns := endpoint.nsService.GetNamespaceByName(name)
-	if ns == nil {
+	response := endpoint.get(name)
+	if response == nil {
 		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace not found"})
 		return
 	}
-	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusOK, response)
+}
+
+// Tells what the namespace is like, or returns nil if there is none.
+func (endpoint *NamespaceEndpoint) get(name valueobjects.NamespaceName) *dto.NamespaceResponse {
+	endpoint.mutex.RLock()
+	defer endpoint.mutex.RUnlock()
+	ns := endpoint.nsService.GetNamespaceByName(name)
+	if ns == nil {
+		return nil
+	}
+	return dto.NewNamespaceResponse(ns)
 }
 
 // @Summary      Returns all registered namespaces.
@@ -94,8 +120,14 @@ func (endpoint *NamespaceEndpoint) Get(ctx *gin.Context) {
 // @Success      200  {array}   dto.NamespaceResponse
 // @Router       /api/v1/namespaces [get]
 func (endpoint *NamespaceEndpoint) List(ctx *gin.Context) {
-	responses := dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())
-	ctx.IndentedJSON(http.StatusOK, responses)
+	ctx.IndentedJSON(http.StatusOK, endpoint.list())
+}
+
+// Tells what all the namespaces are like.
+func (endpoint *NamespaceEndpoint) list() []dto.NamespaceResponse {
+	endpoint.mutex.RLock()
+	defer endpoint.mutex.RUnlock()
+	return dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())
 }
 
 // @Summary      Updates a namespaces.
@@ -112,8 +144,7 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ns := endpoint.nsService.GetNamespaceByName(name)
-	if ns == nil {
+	if endpoint.nsService.GetNamespaceByName(name) == nil {
 		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace not found"})
 		return
 	}
@@ -127,15 +158,29 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		AbortWithValidationError(ctx, err)
 		return
 	}
-	if ns.GetName().Value() != req.Name &&
+	if name != domainDto.Name &&
 		endpoint.nsService.GetNamespaceByName(domainDto.Name) != nil {
 		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace name taken"})
 		return
 	}
-	ns, err = endpoint.nsService.UpdateNamespace(name, domainDto)
+	response, err := endpoint.update(name, domainDto)
 	if err != nil {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusOK, response)
+}
+
+// Changes the namespace and tells what it has become like.
+func (endpoint *NamespaceEndpoint) update(
+	name valueobjects.NamespaceName,
+	req *domain.NamespaceUpdateRequest,
+) (*dto.NamespaceResponse, error) {
+	endpoint.mutex.Lock()
+	defer endpoint.mutex.Unlock()
+	ns, err := endpoint.nsService.UpdateNamespace(name, req)
+	if err != nil {
+		return nil, err
+	}
+	return dto.NewNamespaceResponse(ns), nil
 }
-- 
2.43.0


From 2878c72bf33b6ddb47dfd35a666e9e2b43e1b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 40/45] fix: reset an index file that is cut short instead of
 failing to start

---
 internal/infra/index/storage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index d112c36..8744fde 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -72,6 +72,10 @@ func (s *storage) load() error {
 	for i := uint(0); i < uint(header.NumEntries); i++ {
 		size, err = s.proto.ReadEntry(&entry, reader)
 		offset += int64(size)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// Some of the entries the header tells about are missing
+			return domain.NewCorruptedFileError()
+		}
 		if err != nil {
 			return fmt.Errorf("failed to read index entry: %v", err)
 		}
-- 
2.43.0


From c21c632d40af68327173af6966d05127b4dac332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 41/45] fix: find the closest float where distances exceed the
 range of the type

---
 internal/helpers/arrays.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b7904ac..a51ac8c 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -91,15 +91,19 @@ func BinaryIndexOfClosest[T Numeric](haystack []T, needle T) int {
 		return -1
 	}
 	a, b, m := 0, len(haystack)-1, 0
+	// Outside of the array all the deviations may exceed the range of a float
+	if needle <= haystack[a] {
+		return a
+	}
+	if needle >= haystack[b] {
+		return b
+	}
 	minDIndex, minD := a, Deviation(haystack[a], needle)
 	bD := Deviation(haystack[b], needle)
 	if isLessDeviation(bD, minD) {
 		minD = bD
 		minDIndex = b
 	}
-	if minD == 0 {
-		return minDIndex
-	}
 	for a < b {
 		m = (a + b) / 2
 		if needle == haystack[m] {
-- 
2.43.0


From 17c7336f9f337e802be8145c113878592d6ccf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:43 +0000
Subject: [PATCH 42/45] fix: every flush of a delta storage printed all of its
 contents to the standard output

---
 internal/infra/delta/storage.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index ee1a34e..8d2c97d 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -35,7 +35,6 @@ var _ = (domain.DeltaStorage)((*storage)(nil))
 
 // Rewrites file header with actual data.
 func (s *storage) flushHeader() error {
-	fmt.Println(s)
 	hdr := &Header{
 		Version:    Version,
 		Locked:     1,
-- 
2.43.0


From 039f314b7105c6269521f74c6f7d7b3b45b7408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 43/45] fix: stopping, deleting or starting a namespace again
 waited for room in its full queue

---
 internal/domain/likenamespace.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bcbe49c..017da51 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -26,6 +26,8 @@ type likeNamespace struct {
 	actionMutex             sync.RWMutex // guards the fields below and closing of the channel
 	running                 bool
 	stopped                 bool
+	quit                    chan struct{} // closed as soon as the namespace is to stop
+	quitOnce                sync.Once
 }
 
 // Compile-time type check
@@ -54,6 +56,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		quit:                    make(chan struct{}),
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
@@ -177,6 +180,13 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	// A running namespace may hold the mutex for as long as its queue is full
+	ns.actionMutex.RLock()
+	started := ns.running
+	ns.actionMutex.RUnlock()
+	if started {
+		return fmt.Errorf("namespace %s has already been started or stopped", ns.GetName().Value())
+	}
 	ns.actionMutex.Lock()
 	defer ns.actionMutex.Unlock()
 	if ns.running || ns.stopped {
@@ -244,6 +254,8 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.GetName())
+	// Those who wait for room in the queue hold the mutex
+	ns.quitOnce.Do(func() { close(ns.quit) })
 	ns.actionMutex.Lock()
 	defer ns.actionMutex.Unlock()
 	if !ns.stopped {
@@ -259,8 +271,12 @@ func (ns *likeNamespace) enqueue(action Action) error {
 	if !ns.running || ns.stopped {
 		return errors.New("the namespace stopped")
 	}
-	ns.action <- action
-	return nil
+	select {
+	case ns.action <- action:
+		return nil
+	case <-ns.quit:
+		return errors.New("the namespace stopped")
+	}
 }
 
 func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-- 
2.43.0


From 3adc7ca0f37eade1af2e2d930679f2075fb344d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:06 +0000
Subject: [PATCH 44/45] fix: the server couldn't listen at an IPv6 address
 given without brackets

---
 internal/api/shard/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/api/shard/config.go b/internal/api/shard/config.go
index 767726a..def2a9d 100644
--- a/internal/api/shard/config.go
+++ b/internal/api/shard/config.go
@@ -3,6 +3,7 @@ package shard
 import (
 	"os"
 	"strconv"
+	"strings"
 )
 
 const defaultServerHost = "localhost"
@@ -42,5 +43,9 @@ func NewConfigFromEnv(defaults *Config) *Config {
 
 // Returns host and port as a string joined with a colon e.g. "localhost:8080".
 func (c *Config) GetHostPort() string {
+	if strings.Contains(c.Host, ":") && !strings.HasPrefix(c.Host, "[") {
+		// An IPv6 address
+		return "[" + c.Host + "]:" + strconv.Itoa(c.Port)
+	}
 	return c.Host + ":" + strconv.Itoa(c.Port)
 }
-- 
2.43.0


From 8f53b7864809bcdc827880029a4a2b65636b1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:06 +0000
Subject: [PATCH 45/45] fix: invalid fields of a request were answered with
 "Unknown error"

---
 internal/api/shard/endpoints/helpers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/api/shard/endpoints/helpers.go b/internal/api/shard/endpoints/helpers.go
index 6e7b5a4..9719e2c 100644
--- a/internal/api/shard/endpoints/helpers.go
+++ b/internal/api/shard/endpoints/helpers.go
@@ -14,10 +14,16 @@ func getFieldErrorMsg(fieldError validator.FieldError) string {
 	switch fieldError.Tag() {
 	case "required":
 		return "This field is required"
-	case "lte":
-		return "Should be less than " + fieldError.Param()
-	case "gte":
-		return "Should be greater than " + fieldError.Param()
+	case "lte", "max":
+		return "Should be less than or equal to " + fieldError.Param()
+	case "gte", "min":
+		return "Should be greater than or equal to " + fieldError.Param()
+	case "lowercase":
+		return "Should be in lower case"
+	case "alphanum":
+		return "Should consist of letters and digits"
+	case "oneof":
+		return "Should be one of: " + fieldError.Param()
 	}
 	return "Unknown error"
 }
-- 
2.43.0

