From 1c7ab0eab709c6bcfa8f551cafaff92cde03c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 01/42] fix: keySuccessor must clear the bytes after the
 incremented one

The successor of a prefix that ends in 0xFF kept the 0xFF bytes, so it
sorted above rows that do not have the prefix.
---
 table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/table.go b/table.go
index 2a25b0a..fc04852 100644
--- a/table.go
+++ b/table.go
@@ -1271,6 +1271,12 @@ func keySuccessor(src, dst []byte) []byte {
 			dst[i]++
 			return dst
 		}
+		dst[i] = 0x00
+	}
+
+	// all bytes are 0xFF, there is no successor of the same length
+	for i := range src {
+		dst[i] = 0xFF
 	}
 	return dst
 }
-- 
2.43.0


From 6e9bc934762599fae6eaaf62ee0b658572640e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 02/42] fix: upper bounds of primary key points and ranges must
 be exact

The successor of a full key also covered longer keys that start with the
same bytes, so rows outside of a range or point were returned.
---
 index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..cbeeef6 100644
--- a/index.go
+++ b/index.go
@@ -208,7 +208,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
+				upperBound = append(append(upperBound[:0], lowerBound...), 0x00)
 			}
 
 			releaseBuffers := func() {
@@ -232,7 +232,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 		lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-		upperBound = keySuccessor(upperBound, nil)
+		upperBound = append(upperBound, 0x00) // first key after the upper bound
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
@@ -255,7 +255,7 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 
 			lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
 			upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-			upperBound = keySuccessor(upperBound, nil)
+			upperBound = append(upperBound, 0x00) // first key after the upper bound
 
 			releaseBuffers := func() {
 				keyBufferPool.Put(lowerBound[:0])
-- 
2.43.0


From 1deece4da22b588ca4452c2342a658c4ae515440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 03/42] fix: batch Close must call the OnClose callbacks

It called the OnCommitted callbacks instead, and Apply called OnCommitted
after a failure.
---
 batch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batch.go b/batch.go
index eb73032..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
@@ -202,7 +203,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 2820c6672033c12c57fae718c3976d5f922145d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 04/42] fix: AddIndex must release the table lock on a
 duplicate IndexID

The table was locked forever, with some of the indexes registered.
---
 table.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index fc04852..c7450f3 100644
--- a/table.go
+++ b/table.go
@@ -247,13 +247,17 @@ func (t *_table[T]) Serializer() Serializer[*T] {
 
 func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	t.mutex.Lock()
+	added := make(map[IndexID]*Index[T], len(idxs))
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
-		if ok {
+		_, dup := added[idx.IndexID]
+		if ok || dup {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-		t.secondaryIndexes[idx.IndexID] = idx
+		added[idx.IndexID] = idx
 	}
+	maps.Copy(t.secondaryIndexes, added)
 	t.mutex.Unlock()
 
 	if len(reIndex) > 0 && reIndex[0] {
-- 
2.43.0


From 86657a06aff0d93903837d0f71d87eabe2275dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 05/42] fix: Upsert and Update must work on the row that is
 stored

Duplicates within one Upsert were merged with a record of another key,
the index entries of the stored row were not removed, the order of
duplicates was not kept, and one record was reused for all stored rows:
fields of an earlier row leaked into later ones.
---
 table.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/table.go b/table.go
index c7450f3..4983238 100644
--- a/table.go
+++ b/table.go
@@ -498,9 +498,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -534,6 +531,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -683,9 +681,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -715,6 +710,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// old record
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
@@ -733,10 +729,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
-				continue
+				tr = onConflict(tr, trs[keyOrder[i]])
 			}
 
 			// serialize
@@ -1199,7 +1193,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 func (t *_table[T]) sortKeys(keys [][]byte) []int {
 	keyOrder := utils.ArrayN(len(keys))
-	sort.Sort(&utils.SortShim{
+	sort.Stable(&utils.SortShim{
 		Length: len(keys),
 		SwapFn: func(i, j int) {
 			keys[i], keys[j] = keys[j], keys[i]
-- 
2.43.0


From 7de9630f7ad12cab2eca23885d065acda0b8aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 06/42] fix: Upsert must remove old index entries if onConflict
 modifies the old record

---
 table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 4983238..a6877be 100644
--- a/table.go
+++ b/table.go
@@ -724,7 +724,14 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// handle upsert
 			if isUpdate {
-				tr = onConflict(oldTr, tr)
+				// onConflict may modify the record it is given, oldTr
+				// has to stay as it is stored.
+				var conflictTr T
+				err = t.serializer.Deserialize(iter.Value(), &conflictTr)
+				if err != nil {
+					return err
+				}
+				tr = onConflict(conflictTr, tr)
 			}
 
 			// apply conficts recursively if duplicate exist
-- 
2.43.0


From 0a6691920c4d388b43ab7b1c5c5fe555865305ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 07/42] fix: Delete must remove the index entries of the stored
 record

The index entries of the passed record were deleted. With a record that
only has its primary key set, as in the README, the entries of the stored
record stayed in every index and scans of the index failed.
---
 table.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index a6877be..5d7420f 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -583,8 +584,9 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	t.mutex.RUnlock()
 
 	var (
-		batch         Batch
-		externalBatch = len(optBatch) > 0 && optBatch[0] != nil
+		batch          Batch
+		batchReadWrite Batch
+		externalBatch  = len(optBatch) > 0 && optBatch[0] != nil
 	)
 
 	if externalBatch {
@@ -594,6 +596,10 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		defer batch.Close()
 	}
 
+	if batch.Type() == BatchTypeReadWrite {
+		batchReadWrite = batch
+	}
+
 	var (
 		keyBuffer      = t.db.getKeyBufferPool().Get()[:0]
 		indexKeyBuffer = t.db.getKeyBufferPool().Get()[:0]
@@ -611,6 +617,14 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		// data key
 		var key = t.key(tr, keyBuffer[:0])
 
+		// delete from index the entries of the stored record
+		if len(indexes) > 0 {
+			err := t.deleteStoredIndexKeys(key, indexes, batch, batchReadWrite, indexKeyBuffer[:0])
+			if err != nil {
+				return err
+			}
+		}
+
 		// delete
 		err := batch.Delete(key, Sync)
 		if err != nil {
@@ -636,6 +650,33 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	return nil
 }
 
+// deleteStoredIndexKeys deletes index entries of the record that is stored under
+// the key. The record passed to Delete may have only primary key fields set.
+func (t *_table[T]) deleteStoredIndexKeys(key []byte, indexes map[IndexID]*Index[T], batch, batchReadWrite Batch, indexKeyBuffer []byte) error {
+	value, closer, err := t.db.Get(key, batchReadWrite)
+	if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
+			return nil
+		}
+		return err
+	}
+	defer closer.Close()
+
+	var oldTr T
+	err = t.serializer.Deserialize(value, &oldTr)
+	if err != nil {
+		return err
+	}
+
+	for _, idx := range indexes {
+		err = idx.OnDelete(t, oldTr, batch, indexKeyBuffer[:0])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
 	t.mutex.RLock()
 	indexes := make(map[IndexID]*Index[T])
-- 
2.43.0


From 676f3929a359e48f84c17d3116aaf147a7c4c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 08/42] fix: OrderBytes must not change the record it reads

Descending order inverted the bytes of the slice in place, which belongs
to the caller's record.
---
 index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index cbeeef6..9e95ca1 100644
--- a/index.go
+++ b/index.go
@@ -91,9 +91,12 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		// the slice belongs to the record, it must not change
+		inverted := make([]byte, len(b))
 		for i := 0; i < len(b); i++ {
-			b[i] = ^b[i]
+			inverted[i] = ^b[i]
 		}
+		b = inverted
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddBytesField(b)
-- 
2.43.0


From 4000892400fe01fe5d995b8a7b4e7e694f41cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 09/42] fix: filter copy in a file store must survive crashes
 and stay in its range

Set replaced the file in place without syncing it, DeleteRange ignored the
end of the range and removed every other file that sorts after its start,
and keys that differ in special characters shared one file.
---
 filters/filter_fs_storer.go | 87 +++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 14 deletions(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..a4b6d57 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -2,8 +2,10 @@ package filters
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/fs"
+	"net/url"
 	"os"
 	"path"
 	"regexp"
@@ -11,6 +13,9 @@ import (
 	"github.com/go-bond/bond"
 )
 
+// _tempFilePattern is not the file name of any key.
+const _tempFilePattern = "tmp-*"
+
 type FilterFSStorer struct {
 	path          string
 	noASCIIRegexp *regexp.Regexp
@@ -33,32 +38,86 @@ func (f *FilterFSStorer) Get(key []byte, batch ...bond.Batch) (data []byte, clos
 func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
 	filePath := f.prepareFilePath(f.path, string(key))
 
-	err := os.WriteFile(filePath, value, 0660)
+	// The file is replaced at once, a crash leaves the old or the new value.
+	tempFile, err := os.CreateTemp(f.path, _tempFilePattern)
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tempFile.Name())
+
+	_, err = tempFile.Write(value)
+	if err == nil {
+		err = tempFile.Chmod(0660)
+	}
+	if err == nil {
+		err = tempFile.Sync()
+	}
+	if closeErr := tempFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	err = os.Rename(tempFile.Name(), filePath)
 	if err != nil {
 		return err
 	}
-	return nil
+	return f.syncDir()
 }
 
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	startFile := []byte(f.prepareFilePath("", string(start)))
+	entries, err := os.ReadDir(f.path)
+	if err != nil {
+		return err
+	}
 
-	dirFS := os.DirFS(f.path)
-	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
-			return os.Remove(path.Join(f.path, filePath))
+	for _, entry := range entries {
+		key, ok := f.fileKey(entry)
+		if !ok || bytes.Compare(key, start) < 0 || bytes.Compare(key, end) >= 0 {
+			continue
 		}
-		return nil
-	})
 
-	return err
+		err = os.Remove(path.Join(f.path, entry.Name()))
+		if err != nil {
+			return err
+		}
+	}
+	return f.syncDir()
+}
+
+func (f *FilterFSStorer) syncDir() error {
+	dir, err := os.Open(f.path)
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
 }
 
+// prepareFilePath returns the path of a key. The bytes that can not be part of
+// a file name are escaped, every key has its own file.
 func (f *FilterFSStorer) prepareFilePath(root, fileName string) string {
-	return path.Join(
-		root,
-		f.noASCIIRegexp.ReplaceAllLiteralString(fileName, ""),
-	)
+	return path.Join(root, f.noASCIIRegexp.ReplaceAllStringFunc(fileName, func(s string) string {
+		escaped := ""
+		for i := 0; i < len(s); i++ {
+			escaped += fmt.Sprintf("%%%02X", s[i])
+		}
+		return escaped
+	}))
+}
+
+// fileKey returns the key that is stored in the file.
+func (f *FilterFSStorer) fileKey(entry fs.DirEntry) ([]byte, bool) {
+	if entry.IsDir() {
+		return nil, false
+	}
+
+	key, err := url.PathUnescape(entry.Name())
+	if err != nil || f.prepareFilePath("", key) != entry.Name() {
+		return nil, false
+	}
+	return []byte(key), true
 }
 
 var _ bond.FilterStorer = &FilterFSStorer{}
-- 
2.43.0


From 594be35e48ddd0d09b3056546ff7db71038274b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 10/42] fix: saved bloom filter must not be loaded when it
 misses keys

Keys that were added after Load or Save were unknown to the saved copy: a
process that ended without another Save left a filter that hid existing
rows. The copy is now invalidated before the first key is added to it, the
bucket count that makes it valid is written last, Add takes the write lock
when it changes the filter, and Load closes what it opens.
---
 bloom/bloom_filter.go | 108 ++++++++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 30 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..cd7e454 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -36,6 +36,10 @@ type BloomFilter struct {
 	numOfBuckets int
 	buckets      []*_bucket
 
+	// savedTo is the store that holds a copy of the current content of
+	// the filter. The copy is invalidated before anything else is added.
+	savedTo bond.FilterStorer
+
 	mutex sync.RWMutex
 }
 
@@ -77,11 +81,26 @@ func NewBloomFilter(n uint, fp float64, numOfBuckets int, keyPrefixes ...[]byte)
 }
 
 func (b *BloomFilter) Add(_ context.Context, key []byte) {
+	bucket := b.buckets[b.hash(key)]
+
 	b.mutex.RLock()
-	defer b.mutex.RUnlock()
+	exist := bucket.filter.Test(key)
+	b.mutex.RUnlock()
+	if exist {
+		return
+	}
 
-	bucket := b.buckets[b.hash(key)]
-	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	// The saved copy would miss the key if the process ends without
+	// another Save, so it must not be loaded any more.
+	if b.savedTo != nil && b.invalidate(b.savedTo) == nil {
+		b.savedTo = nil
+	}
+
+	bucket.filter.Add(key)
+	bucket.hasChanges = true
 }
 
 func (b *BloomFilter) MayContain(_ context.Context, key []byte) bool {
@@ -97,41 +116,52 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	if err != nil {
+		return fmt.Errorf("configuration changed")
+	}
+
+	sameConfig := len(bucketNum) == 8 && binary.BigEndian.Uint64(bucketNum) == uint64(b.numOfBuckets)
+	_ = bucketNumCloser.Close()
+	if !sameConfig {
 		return fmt.Errorf("configuration changed")
 	}
 
 	for _, bucket := range b.buckets {
-		data, closer, err := store.Get(buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
+		err = b.loadBucket(bucket, keyBuff[:0], store)
 		if err != nil {
 			return err
 		}
+	}
 
-		filter := bloom.New(0, 0)
-		zr, err := zstd.NewReader(bytes.NewBuffer(data))
-		if err != nil {
-			return err
-		}
+	b.savedTo = store
+	return nil
+}
 
-		_, err = filter.ReadFrom(zr)
-		if err != nil {
-			return err
-		}
+func (b *BloomFilter) loadBucket(bucket *_bucket, keyBuff []byte, store bond.FilterStorer) error {
+	data, closer, err := store.Get(buildKey(keyBuff, b.keyPrefix, bucket.num))
+	if err != nil {
+		return err
+	}
+	defer closer.Close()
 
-		zr.Close()
-		_ = closer.Close()
+	zr, err := zstd.NewReader(bytes.NewBuffer(data))
+	if err != nil {
+		return err
+	}
+	defer zr.Close()
 
-		err = bucket.filter.Merge(filter)
-		if err != nil {
-			return fmt.Errorf("configuration changed: %w", err)
-		}
+	filter := bloom.New(0, 0)
+	_, err = filter.ReadFrom(zr)
+	if err != nil {
+		return err
+	}
 
-		bucket.hasBeenWritten = true
+	err = bucket.filter.Merge(filter)
+	if err != nil {
+		return fmt.Errorf("configuration changed: %w", err)
 	}
 
+	bucket.hasBeenWritten = true
 	return nil
 }
 
@@ -143,12 +173,6 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 	dataBuff := _buffPool.Get().([]byte)
 	defer _buffPool.Put(dataBuff)
 
-	binary.BigEndian.PutUint64(dataBuff[:8], uint64(b.numOfBuckets))
-	err := store.Set(buildBucketNumKey(keyBuff[:0], b.keyPrefix), dataBuff[:8], bond.Sync)
-	if err != nil {
-		return err
-	}
-
 	for _, bucket := range b.buckets {
 		if !bucket.hasChanges && bucket.hasBeenWritten {
 			continue
@@ -183,16 +207,40 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 		bucket.hasBeenWritten = true
 	}
 
+	// The number of buckets makes the copy valid, it is written when the
+	// buckets are complete.
+	binary.BigEndian.PutUint64(dataBuff[:8], uint64(b.numOfBuckets))
+	err := store.Set(buildBucketNumKey(keyBuff[:0], b.keyPrefix), dataBuff[:8], bond.Sync)
+	if err != nil {
+		return err
+	}
+
+	b.savedTo = store
 	return nil
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	b.savedTo = nil
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+
 	end := make([]byte, len(b.keyPrefix))
 	copy(end, b.keyPrefix)
 	end[len(end)-1]++
 	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
 }
 
+// invalidate removes the number of buckets from the store, Load fails without it.
+func (b *BloomFilter) invalidate(store bond.FilterStorer) error {
+	start := buildBucketNumKey(nil, b.keyPrefix)
+	end := append(buildBucketNumKey(nil, b.keyPrefix), 0x00)
+	return store.DeleteRange(start, end, bond.Sync)
+}
+
 func (b *BloomFilter) hash(key []byte) int {
 	hasher := b.hasher.Get().(jump.KeyHasher)
 	defer b.hasher.Put(hasher)
-- 
2.43.0


From ea690ed4add0c3b672dc103b835e86945f56fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 11/42] fix: read errors must not look like missing rows

Get, Update, Upsert, Insert, multi selectors, Intersect, ReIndex, Dump and
Open took a failed read for the end of the data: they returned ErrNotFound
or partial results without an error, and wrote incomplete dumps and
indexes. ReIndex and Dump also left iterators open when they failed.
---
 bond.go    | 52 +++++++++++++++++++++++++++++++++++++-----------
 index.go   |  8 ++++++--
 iter.go    | 28 +++++++++++++++++++++-----
 table.go   | 58 +++++++++++++++++++++++++++++++++++++++---------------
 version.go | 13 ++++++++++--
 5 files changed, 123 insertions(+), 36 deletions(-)

diff --git a/bond.go b/bond.go
index 7e49f6f..14523b2 100644
--- a/bond.go
+++ b/bond.go
@@ -220,12 +220,17 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
-		if err := db.initVersion(); err != nil {
-			return nil, err
-		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	dbVersion, err := db.readVersion()
+	if err == nil && dbVersion == 0 {
+		dbVersion = BOND_DB_DATA_VERSION
+		err = db.initVersion()
+	}
+	if err == nil && dbVersion != BOND_DB_DATA_VERSION {
+		err = fmt.Errorf("bond db version is %d but expecting %d", dbVersion, BOND_DB_DATA_VERSION)
+	}
+	if err != nil {
+		_ = pdb.Close()
+		return nil, err
 	}
 
 	return db, nil
@@ -389,6 +394,9 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
+	// the iterators have to be closed before the snapshot
+	defer func() { _ = grp.Wait() }()
+
 	// write all the table data to the sst file.
 	for _, tableID := range tables {
 		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
@@ -414,7 +422,10 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		indexes, err := readIndexIDS(snapshot, tableID)
+		if err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -499,10 +510,18 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	indexIDS, _ := readIndexIDS(db.pebble, tableID)
+	return indexIDS
+}
+
+func readIndexIDS(reader pebble.Reader, tableID TableID) ([]IndexID, error) {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
+	itr, err := reader.NewIter(&pebble.IterOptions{})
+	if err != nil {
+		return nil, err
+	}
 	for {
 		if !itr.SeekGE(prefix) {
 			break
@@ -518,12 +537,17 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	return indexIDS, itr.Close()
 }
 
 // write all the key/value of iterator to the SST file.
-func iteratorToSST(itr Iterator, path string) error {
-	defer itr.Close()
+func iteratorToSST(itr Iterator, path string) (err error) {
+	defer func() {
+		if closeErr := itr.Close(); err == nil {
+			err = closeErr
+		}
+	}()
+
 	// sst reader
 	currentFileID := 1
 	file, err := vfs.Default.Create(filepath.Join(path, fmt.Sprintf("%d.sst", currentFileID)))
@@ -535,6 +559,12 @@ func iteratorToSST(itr Iterator, path string) error {
 		TableFormat: sstable.TableFormatPebblev2, Parallelism: true, Comparer: DefaultKeyComparer(),
 	}
 	writer := sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
+	defer func() {
+		if err != nil {
+			// release the file, Close has no effect on a closed writer
+			_ = writer.Close()
+		}
+	}()
 
 	for itr.First(); itr.Valid(); itr.Next() {
 		if err := writer.Set(itr.Key(), itr.Value()); err != nil {
diff --git a/index.go b/index.go
index 9e95ca1..ccf959c 100644
--- a/index.go
+++ b/index.go
@@ -370,7 +370,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -387,7 +389,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
diff --git a/iter.go b/iter.go
index d6ded27..2ec4a43 100644
--- a/iter.go
+++ b/iter.go
@@ -86,10 +86,22 @@ func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
 	}
 }
 
+// closeIterator closes the current iterator, iteration ends if it has failed.
+func (it *_iteratorMulti) closeIterator() bool {
+	err := it.iterator.Close()
+	if err != nil {
+		it.iterator = errIterator{err: err}
+		return false
+	}
+	return true
+}
+
 func (it *_iteratorMulti) First() bool {
 	// find the valid iterator from the start of the list.
 	for i := 0; i < len(it.iteratorOptions); i++ {
-		_ = it.iterator.Close()
+		if !it.closeIterator() {
+			return false
+		}
 		it.iteratorOptionsIndex = i
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.First() {
@@ -102,7 +114,9 @@ func (it *_iteratorMulti) First() bool {
 func (it *_iteratorMulti) Last() bool {
 	// find the valid iterator from the end of the list.
 	for i := len(it.iteratorOptions) - 1; i >= 0; i-- {
-		_ = it.iterator.Close()
+		if !it.closeIterator() {
+			return false
+		}
 		it.iteratorOptionsIndex = i
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.Last() {
@@ -118,7 +132,9 @@ func (it *_iteratorMulti) Prev() bool {
 			return false
 		}
 
-		_ = it.iterator.Close()
+		if !it.closeIterator() {
+			return false
+		}
 
 		it.iteratorOptionsIndex--
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
@@ -135,7 +151,9 @@ func (it *_iteratorMulti) Next() bool {
 			return false
 		}
 
-		_ = it.iterator.Close()
+		if !it.closeIterator() {
+			return false
+		}
 
 		it.iteratorOptionsIndex++
 		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
@@ -248,7 +266,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
diff --git a/table.go b/table.go
index 5d7420f..6c5e7ba 100644
--- a/table.go
+++ b/table.go
@@ -290,6 +290,9 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer func() {
+		_ = iter.Close()
+	}()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -326,16 +329,20 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 				return fmt.Errorf("failed to commit reindex batch: %w", err)
 			}
 
+			_ = batch.Close()
 			batch = t.db.Batch(BatchTypeWriteOnly)
 		}
 	}
 
-	err := batch.Commit(Sync)
+	err := iter.Error()
 	if err != nil {
-		return fmt.Errorf("failed to commit reindex batch: %w", err)
+		return fmt.Errorf("failed to read rows during reindexing: %w", err)
 	}
 
-	_ = iter.Close()
+	err = batch.Commit(Sync)
+	if err != nil {
+		return fmt.Errorf("failed to commit reindex batch: %w", err)
+	}
 
 	return nil
 }
@@ -408,7 +415,15 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist := t.keyDuplicate(i, keys)
+			if !exist {
+				var err error
+				exist, err = t.exist(key, batch, iter)
+				if err != nil {
+					return err
+				}
+			}
+			if exist {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -529,6 +544,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -750,17 +768,16 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			key := keys[i]
 
 			// old record
-			var (
-				oldTr    T
-				isUpdate bool
-				err      error
-			)
-			if t.exist(key, batch, iter) {
-				err := t.serializer.Deserialize(iter.Value(), &oldTr)
+			var oldTr T
+			isUpdate, err := t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if isUpdate {
+				err = t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
 				}
-				isUpdate = true
 			}
 
 			// handle upsert
@@ -861,9 +878,9 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
 	if iter == nil {
@@ -876,7 +893,10 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 		defer iter.Close()
 	}
 
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	if iter.SeekGE(key) && bytes.Equal(iter.Key(), key) {
+		return true, nil
+	}
+	return false, iter.Error()
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
@@ -916,7 +936,10 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 
 		record, closer, err := t.db.Get(key, batch)
 		if err != nil {
-			return nil, ErrNotFound
+			if errors.Is(err, pebble.ErrNotFound) {
+				return nil, ErrNotFound
+			}
+			return nil, err
 		}
 		defer closer.Close()
 
@@ -1011,6 +1034,9 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
diff --git a/version.go b/version.go
index f8f4db1..7378650 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,14 +14,22 @@ const (
 )
 
 func (db *_db) Version() int {
+	ver, _ := db.readVersion()
+	return ver
+}
+
+func (db *_db) readVersion() (int, error) {
 	value, closer, err := db.pebble.Get(bondDataVersionKey())
 	if err != nil {
-		return 0
+		if errors.Is(err, pebble.ErrNotFound) {
+			return 0, nil
+		}
+		return 0, err
 	}
 	defer func() { _ = closer.Close() }()
 
 	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	return int(ver), nil
 }
 
 func (db *_db) initVersion() error {
-- 
2.43.0


From 840deb81a46972d69907f877b52fbb894d0ca153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 12/42] fix: Index.Iter must accept empty selectors and nil
 batches

It panicked where all other methods accept them; a query with After
builds an empty selector when it is past the last point or range.
---
 index.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index ccf959c..e1c2f85 100644
--- a/index.go
+++ b/index.go
@@ -178,7 +178,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
@@ -228,6 +228,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			})
 		}
 
+		if len(pebbleOpts) == 0 {
+			return errIterator{}
+		}
 		return newIteratorMulti(iterConstructor, pebbleOpts)
 	case SelectorTypeRange:
 		sel := selector.(SelectorRange[T])
@@ -274,6 +277,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			})
 		}
 
+		if len(pebbleOpts) == 0 {
+			return errIterator{}
+		}
 		return newIteratorMulti(iterConstructor, pebbleOpts)
 	default:
 		return errIterator{err: fmt.Errorf("unknown selector type: %v", selector.Type())}
-- 
2.43.0


From 15e62cdbd2c0fc1ef51643c2db3f2afdcc57e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 13/42] fix: scans of secondary indexes must visit every row
 once

A callback that did not read a prefetched row was called with it forever,
one that read a row twice skipped the next row, and the key passed to the
callback changed when it read the row.
---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 6c5e7ba..7e92620 100644
--- a/table.go
+++ b/table.go
@@ -1193,11 +1193,14 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
 	prefetchAndGetValue := func() (T, error) {
+		if len(prefetchedValues) > 0 {
+			return getPrefetchedValue()
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1235,14 +1238,17 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		// the iterator moves when the values are prefetched
+		key := append(multiKeyBuffer[:0], it.Key()...)
+
+		cont, err := f(key, Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
 		}
 
 		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
+		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From d683078b70a79e2187eeb0324de9d41d9158cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 14/42] fix: SyncBatch must be usable after a panic in WithSync

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..b5b633d 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,6 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+	return f(s.batch)
 }
-- 
2.43.0


From 14dd919013e56695a8e4c0b754742b73b777cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 15/42] fix: UnsafeUpdate must close its own batch and leave
 the caller's open

The batch was not closed after a successful update or a cancelled context,
and a batch of the caller was closed after an error.
---
 table_unsafe.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..9b37ca6 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From acd1750cf2952438fa3a2125847f933217a37d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 16/42] fix: TableAnyScanner must pass the batch to ScanForEach
 and ScanIndexForEach

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From d8290e521091e643397b5a16da0230cd7006a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 17/42] fix: ReIndex of IndexID 255 must not fail

The end of the deleted range overflowed to the start of the table.
---
 table.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 7e92620..78426e6 100644
--- a/table.go
+++ b/table.go
@@ -271,9 +271,8 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 	idxsMap := make(map[IndexID]*Index[T])
 	for _, idx := range idxs {
 		idxsMap[idx.IndexID] = idx
-		err := t.db.DeleteRange(
-			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+		start := []byte{byte(t.id), byte(idx.IndexID)}
+		err := t.db.DeleteRange(start, keySuccessor(start, []byte{}), Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
-- 
2.43.0


From ac3275ee73e432425a22b9c344dc7ceb56d068d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 18/42] fix: writes of more than 5000 rows must see their own
 rows

Duplicates in different rounds of one call were not found: Insert stored
the last of them, and index entries of the others stayed.
---
 table.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 78426e6..a1b47ad 100644
--- a/table.go
+++ b/table.go
@@ -361,7 +361,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -483,7 +483,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -709,7 +709,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -1379,6 +1379,15 @@ func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	return nil
 }
 
+// internalBatchType returns the type of the batch for writing numOfRows rows.
+// Rows that do not fit in one round of batched have to be visible to the next.
+func internalBatchType(numOfRows int) BatchType {
+	if numOfRows > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func minInt(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 9adbfe785b6e98e06d62822c51cb7aa6aa3a1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 19/42] fix: Restore must take only the files of the requested
 tables

Tables were selected by a substring of the path: table_1 selected table_10
as well, and a path that contains index lost its rows.
---
 bond.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/bond.go b/bond.go
index 14523b2..45346b7 100644
--- a/bond.go
+++ b/bond.go
@@ -475,6 +475,9 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 	// ingest the required sst file.
 	ssts := []string{}
 	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
@@ -482,25 +485,14 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			return nil
 		}
 		// filter only relevant tables.
-		filter := true
+		dir := filepath.Base(filepath.Dir(path))
 		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
-				filter = false
+			tableDir := fmt.Sprintf("table_%d", table)
+			if dir == tableDir || (withIndex && strings.HasPrefix(dir, tableDir+"_index_")) {
+				ssts = append(ssts, path)
 				break
 			}
 		}
-
-		if filter {
-			return nil
-		}
-
-		if !strings.Contains(path, "index") {
-			ssts = append(ssts, path)
-			return nil
-		}
-		if withIndex {
-			ssts = append(ssts, path)
-		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From e92d459ab04194abc89737eba17dfbdedcec7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 20/42] fix: Restore must not remove the backup

The files of the backup were removed when they had been ingested, another
Restore of it brought empty tables.
---
 bond.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bond.go b/bond.go
index 45346b7..3c971b4 100644
--- a/bond.go
+++ b/bond.go
@@ -123,7 +123,8 @@ type DB interface {
 }
 
 type _db struct {
-	pebble *pebble.DB
+	pebble  *pebble.DB
+	dirname string
 
 	serializer Serializer[any]
 
@@ -205,6 +206,7 @@ func Open(dirname string, opts *Options) (DB, error) {
 
 	db := &_db{
 		pebble:     pdb,
+		dirname:    dirname,
 		serializer: serializer,
 		keyBufferPool: utils.NewPreAllocatedPool[[]byte](func() any {
 			return make([]byte, 0, DefaultKeyBufferSize)
@@ -498,6 +500,21 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 	if err != nil {
 		return err
 	}
+
+	// Ingest removes the files it is given, the backup has to stay.
+	stagePath, err := os.MkdirTemp(filepath.Join(db.dirname, "bond"), "restore-*")
+	if err != nil {
+		return err
+	}
+	defer os.RemoveAll(stagePath)
+
+	for i, sst := range ssts {
+		staged := filepath.Join(stagePath, fmt.Sprintf("%d.sst", i))
+		if err := vfs.LinkOrCopy(vfs.Default, sst, staged); err != nil {
+			return err
+		}
+		ssts[i] = staged
+	}
 	return db.pebble.Ingest(ssts)
 }
 
-- 
2.43.0


From 8085b37095d1a697f6e5c6efcc282488e1ed2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 21/42] fix: a crash must not leave an empty
 PEBBLE_FORMAT_VERSION file

The database could not be opened after a crash in its first Open or in
MigratePebbleFormatVersion.
---
 bond.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/bond.go b/bond.go
index 3c971b4..18a1400 100644
--- a/bond.go
+++ b/bond.go
@@ -173,9 +173,7 @@ func Open(dirname string, opts *Options) (DB, error) {
 	if err != nil && os.IsNotExist(err) {
 		// create version for to check invariant in the
 		// next open.
-		if err := os.WriteFile(pebbelVersionPath,
-			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
-			os.ModePerm); err != nil {
+		if err := writePebbleFormatVersion(bondPath, uint64(opts.PebbleOptions.FormatMajorVersion)); err != nil {
 			return nil, err
 		}
 	} else {
@@ -636,12 +634,41 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
-	versionFile, err := os.OpenFile(filepath.Join(dir, "bond", PebbleFormatFile), os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	return writePebbleFormatVersion(filepath.Join(dir, "bond"), upgradeVersion)
+}
+
+// writePebbleFormatVersion replaces the version file at once. A crash leaves
+// the old or the new version, never a part of it.
+func writePebbleFormatVersion(bondPath string, version uint64) error {
+	versionPath := filepath.Join(bondPath, PebbleFormatFile)
+	tempPath := versionPath + ".tmp"
+
+	versionFile, err := os.OpenFile(tempPath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	if err != nil {
+		return err
+	}
+	_, err = versionFile.Write([]byte(fmt.Sprintf("%d", version)))
+	if err == nil {
+		err = versionFile.Sync()
+	}
+	if closeErr := versionFile.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return err
 	}
 
-	defer versionFile.Close()
-	_, err = versionFile.Write([]byte(fmt.Sprintf("%d", upgradeVersion)))
+	if err = os.Rename(tempPath, versionPath); err != nil {
+		return err
+	}
+
+	dir, err := vfs.Default.OpenDir(bondPath)
+	if err != nil {
+		return err
+	}
+	err = dir.Sync()
+	if closeErr := dir.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From f35a7e6f48708b85d85a84da28ca516ed58fbc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 22/42] fix: NumberSequence must stay unique when the clock
 goes backward

---
 helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..2d67547 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,8 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	// the clock may go backward, used timestamps must not be started again
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 66a73d0131495258a2daf5f47bc4f99f4b5935d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 23/42] fix: index scans and queries must read one state of the
 database

The index, the rows and each part of a multi selector were read by their
own iterators. A writer in between made a scan fail with not found, or
return rows that do not match the selector or the same row twice.
Queries with Intersects did not read the rows from the batch.
---
 index.go | 19 ++++++++++++--
 iter.go  | 79 ++++++++++++++++++++++++++++++++++++++++++++------------
 query.go |  7 +++--
 table.go | 33 +++++++++++++++--------
 4 files changed, 106 insertions(+), 32 deletions(-)

diff --git a/index.go b/index.go
index e1c2f85..6b57330 100644
--- a/index.go
+++ b/index.go
@@ -181,7 +181,10 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
+	return idx.iter(table, selector, iterConstructor)
+}
 
+func (idx *Index[T]) iter(table Table[T], selector Selector[T], iterConstructor Iterationer) Iterator {
 	keyBufferPool := table.DB().getKeyBufferPool()
 
 	switch selector.Type() {
@@ -362,10 +365,22 @@ func (idx *Index[T]) OnDelete(table Table[T], tr T, batch Batch, buffs ...[]byte
 }
 
 func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], optBatch ...Batch) ([][]byte, error) {
+	var iterConstructor Iterationer = table.DB()
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		iterConstructor = optBatch[0]
+	}
+
+	view := newView(iterConstructor, table.ID())
+	defer view.Close()
+
+	return idx.intersect(ctx, table, sel, indexes, sels, view)
+}
+
+func (idx *Index[T]) intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], iterConstructor Iterationer) ([][]byte, error) {
 	tempKeysMap := map[string]struct{}{}
 	intersectKeysMap := map[string]struct{}{}
 
-	it := idx.Iter(table, sel, optBatch...)
+	it := idx.iter(table, sel, iterConstructor)
 	for it.First(); it.Valid(); it.Next() {
 		select {
 		case <-ctx.Done():
@@ -381,7 +396,7 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 	}
 
 	for i, idx2 := range indexes {
-		it = idx2.Iter(table, sels[i], optBatch...)
+		it = idx2.iter(table, sels[i], iterConstructor)
 		for it.First(); it.Valid(); it.Next() {
 			select {
 			case <-ctx.Done():
diff --git a/iter.go b/iter.go
index 2ec4a43..f72f30a 100644
--- a/iter.go
+++ b/iter.go
@@ -69,6 +69,54 @@ func (it *_iterator) Close() error {
 	return it.Iterator.Close()
 }
 
+// cloneIterator returns an iterator that reads the same state as it. Iterators
+// that can not be cloned are created by the constructor.
+func cloneIterator(it Iterator, itc Iterationer, opts *IterOptions) Iterator {
+	if bondIt, ok := it.(*_iterator); ok {
+		it = bondIt.Iterator
+	}
+
+	switch src := it.(type) {
+	case *pebble.Iterator:
+		clone, err := src.Clone(pebble.CloneOptions{IterOptions: &opts.IterOptions})
+		if err != nil {
+			return &_iterator{Iterator: &errIterator{err: err}, opts: opts}
+		}
+		return &_iterator{Iterator: clone, opts: opts}
+	case *errIterator:
+		return &_iterator{Iterator: src, opts: opts}
+	default:
+		return itc.Iter(opts)
+	}
+}
+
+// _view creates iterators that all read the state at the time of its creation,
+// writes that are made later are not visible to any of them.
+type _view struct {
+	iterationer Iterationer
+	iterator    Iterator
+}
+
+func newView(itc Iterationer, tableID TableID) *_view {
+	return &_view{
+		iterationer: itc,
+		iterator: itc.Iter(&IterOptions{
+			IterOptions: pebble.IterOptions{
+				LowerBound: []byte{byte(tableID), 0x00, 0x00, 0x00, 0x00, 0x00},
+				UpperBound: []byte{byte(tableID), 0x01, 0x00, 0x00, 0x00, 0x00},
+			},
+		}),
+	}
+}
+
+func (v *_view) Iter(opts *IterOptions, _ ...Batch) Iterator {
+	return cloneIterator(v.iterator, v.iterationer, opts)
+}
+
+func (v *_view) Close() error {
+	return v.iterator.Close()
+}
+
 type _iteratorMulti struct {
 	iteratorOptions      []*IterOptions
 	iteratorOptionsIndex int
@@ -86,24 +134,29 @@ func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
 	}
 }
 
-// closeIterator closes the current iterator, iteration ends if it has failed.
-func (it *_iteratorMulti) closeIterator() bool {
+// openIterator replaces the current iterator by the one with the given index,
+// that reads the same state. Iteration ends if the current iterator has failed.
+func (it *_iteratorMulti) openIterator(index int) bool {
+	next := cloneIterator(it.iterator, it.iteratorConstuctor, childIteratorOptions(it.iteratorOptions[index]))
+
 	err := it.iterator.Close()
 	if err != nil {
-		it.iterator = errIterator{err: err}
+		_ = next.Close()
+		it.iterator = &errIterator{err: err}
 		return false
 	}
+
+	it.iteratorOptionsIndex = index
+	it.iterator = next
 	return true
 }
 
 func (it *_iteratorMulti) First() bool {
 	// find the valid iterator from the start of the list.
 	for i := 0; i < len(it.iteratorOptions); i++ {
-		if !it.closeIterator() {
+		if !it.openIterator(i) {
 			return false
 		}
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.First() {
 			return true
 		}
@@ -114,11 +167,9 @@ func (it *_iteratorMulti) First() bool {
 func (it *_iteratorMulti) Last() bool {
 	// find the valid iterator from the end of the list.
 	for i := len(it.iteratorOptions) - 1; i >= 0; i-- {
-		if !it.closeIterator() {
+		if !it.openIterator(i) {
 			return false
 		}
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.Last() {
 			return true
 		}
@@ -132,12 +183,9 @@ func (it *_iteratorMulti) Prev() bool {
 			return false
 		}
 
-		if !it.closeIterator() {
+		if !it.openIterator(it.iteratorOptionsIndex - 1) {
 			return false
 		}
-
-		it.iteratorOptionsIndex--
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.Last() {
 			break
 		}
@@ -151,12 +199,9 @@ func (it *_iteratorMulti) Next() bool {
 			return false
 		}
 
-		if !it.closeIterator() {
+		if !it.openIterator(it.iteratorOptionsIndex + 1) {
 			return false
 		}
-
-		it.iteratorOptionsIndex++
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
 		if it.iterator.First() {
 			break
 		}
diff --git a/query.go b/query.go
index 4ebdf88..4942868 100644
--- a/query.go
+++ b/query.go
@@ -297,7 +297,10 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
-	keys, err := q.index.Intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), optBatch...)
+	view := q.table.newView(optBatch...)
+	defer view.Close()
+
+	keys, err := q.index.intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), view)
 	if err != nil {
 		return nil, err
 	}
@@ -324,7 +327,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	values, err := q.table.get(keys, view, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/table.go b/table.go
index a1b47ad..c33646f 100644
--- a/table.go
+++ b/table.go
@@ -963,7 +963,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		err := batched[T](selPoints, len(selPoints), func(selPoints []T) error {
 			keys := t.keysExternal(selPoints, keyArray)
 
-			values, err := t.get(keys, batch, valueArray, false)
+			values, err := t.get(keys, t.iterationer(batch), valueArray, false)
 			if err != nil {
 				return err
 			}
@@ -1006,7 +1006,19 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 	}
 }
 
-func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
+func (t *_table[T]) iterationer(optBatch ...Batch) Iterationer {
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		return optBatch[0]
+	}
+	return t.db
+}
+
+// newView returns the view for reads that need more than one iterator.
+func (t *_table[T]) newView(optBatch ...Batch) *_view {
+	return newView(t.iterationer(optBatch...), t.id)
+}
+
+func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
 	if len(keys) == 0 {
 		return [][]byte{}, nil
 	}
@@ -1014,12 +1026,12 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 	// sort keys so we get data from db efficiently
 	originalOrder := t.sortKeys(keys)
 
-	iter := t.db.Iter(&IterOptions{
+	iter := itc.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
 			LowerBound: keys[0],
 			UpperBound: t.dataKeySpaceEnd,
 		},
-	}, batch)
+	})
 	defer iter.Close()
 
 	for i := 0; i < len(keys); i++ {
@@ -1142,7 +1154,11 @@ func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T],
 }
 
 func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	it := idx.Iter(t, s, optBatch...)
+	// the rows are read from the state the index was read from
+	view := t.newView(optBatch...)
+	defer view.Close()
+
+	it := idx.iter(t, s, view)
 
 	first := func() bool {
 		if reverse {
@@ -1160,11 +1176,6 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 	}
 
-	var batch Batch
-	if len(optBatch) > 0 {
-		batch = optBatch[0]
-	}
-
 	keys := t.db.getBytesArrayPool().Get()[:0]
 	indexKeys := t.db.getBytesArrayPool().Get()[:0]
 	multiKeyBuffer := t.db.getMultiKeyBufferPool().Get()[:0]
@@ -1221,7 +1232,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 
 		var err error
-		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)
+		prefetchedValues, err = t.get(keys, view, valuesBuffer, true)
 		if err != nil {
 			return t.valueNil, err
 		}
-- 
2.43.0


From 9b68fa0712771e7d7a08b471921258c815829449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 24/42] fix: Scan and Query must return rows that sort before
 the empty record

The default selector started at the key of the empty record: rows with a
negative primary key were skipped by Scan, by queries without a selector
and by filter initialization.
---
 index.go    | 3 +++
 query.go    | 2 +-
 selector.go | 9 +++++++++
 table.go    | 4 ++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 6b57330..544988b 100644
--- a/index.go
+++ b/index.go
@@ -193,6 +193,9 @@ func (idx *Index[T]) iter(table Table[T], selector Selector[T], iterConstructor
 
 		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
 		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
+		if sp, ok := selector.(*selectorPoint[T]); ok && sp.all {
+			lowerBound = lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]
+		}
 
 		releaseBuffers := func() {
 			keyBufferPool.Put(lowerBound[:0])
diff --git a/query.go b/query.go
index 4942868..01b8b3e 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorAll[T](utils.MakeNew[T]()),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..3f2523a 100644
--- a/selector.go
+++ b/selector.go
@@ -51,6 +51,14 @@ type SelectorRanges[T any] interface {
 
 type selectorPoint[T any] struct {
 	point T
+
+	// all is set if the selector starts at the first row, there may be
+	// rows that sort before the empty record.
+	all bool
+}
+
+func newSelectorAll[T any](empty T) SelectorPoint[T] {
+	return &selectorPoint[T]{point: empty, all: true}
 }
 
 // NewSelectorPoint creates a new point selector.
@@ -68,6 +76,7 @@ func (s *selectorPoint[T]) Point() T {
 
 func (s *selectorPoint[T]) SetPoint(p T) {
 	s.point = p
+	s.all = false
 }
 
 type selectorPoints[T any] struct {
diff --git a/table.go b/table.go
index c33646f..d9a4bab 100644
--- a/table.go
+++ b/table.go
@@ -1081,7 +1081,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1096,7 +1096,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From aba7ecda35628f102156159b9c25b8706c8aeb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 25/42] fix: After must work with Reverse, points of the
 primary key and Intersects

With Reverse the page started over, with points of the primary index the
rows came twice, and Offset and Limit were ignored with Intersects. Large
offsets and limits overflowed.
---
 query.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/query.go b/query.go
index 01b8b3e..1c60404 100644
--- a/query.go
+++ b/query.go
@@ -169,7 +169,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// after
 	selector := q.indexSelector
-	if hasAfter && !hasSort {
+	if hasAfter && !hasSort && !q.reverse {
 		var err error
 		selector, err = q.selectorWithAfter()
 		if err != nil {
@@ -180,6 +180,15 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	var records = make([]T, 0, DefaultScanPrefetchSize)
 	count := uint64(0)
 	skippedFirstRow := false
+
+	// in reverse order all the rows up to the after row come first
+	var afterIndexKey []byte
+	if hasAfter && !hasSort && q.reverse {
+		afterApplied = true
+		skippedFirstRow = true
+		afterIndexKey = encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
+	}
+
 	err := q.table.ScanIndexForEach(ctx, q.index, selector, func(key KeyBytes, lazy Lazy[T]) (bool, error) {
 		if q.isAfter && !hasSort && !skippedFirstRow {
 			skippedFirstRow = true
@@ -197,6 +206,10 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 			}
 		}
 
+		if afterIndexKey != nil && bytes.Compare(key, afterIndexKey) >= 0 {
+			return true, nil
+		}
+
 		// check if can apply offset in here
 		if !hasFilter && !hasSort && q.offset > count {
 			offsetApplied = true
@@ -226,7 +239,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +273,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +283,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -309,7 +322,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -319,7 +332,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -370,10 +383,10 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
+	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
+			if q.offset >= uint64(len(records)) {
 				records = make([]T, 0)
 			} else {
 				records = records[q.offset:]
@@ -383,7 +396,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		// limit
 		if hasLimit && !limitApplied {
 			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
+			if lastIndex >= uint64(len(records)) {
 				lastIndex = uint64(len(records))
 			}
 			records = records[:lastIndex]
@@ -443,6 +456,11 @@ func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
 			if bytes.Compare(afterKey, pntKey) < 0 {
 				newPoints = append(newPoints, pnt)
+			} else if q.index.IndexID == PrimaryIndexID {
+				// the point is one row, not all the rows from there on
+				if bytes.Equal(afterKey, pntKey) {
+					newPoints = append(newPoints, q.afterSelector)
+				}
 			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
 				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
 				newPoints = append(newPoints, q.afterSelector)
-- 
2.43.0


From 29a3fa69430951eb579c5a2d805c554438cec8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 26/42] fix: errors of reading a value must not look like an
 empty value

---
 bond.go  |  6 +++++-
 iter.go  | 10 ++++++++++
 table.go | 37 +++++++++++++++++++++++++++++++------
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/bond.go b/bond.go
index 18a1400..3c3f7be 100644
--- a/bond.go
+++ b/bond.go
@@ -574,7 +574,11 @@ func iteratorToSST(itr Iterator, path string) (err error) {
 	}()
 
 	for itr.First(); itr.Valid(); itr.Next() {
-		if err := writer.Set(itr.Key(), itr.Value()); err != nil {
+		value, err := iteratorValue(itr)
+		if err != nil {
+			return err
+		}
+		if err := writer.Set(itr.Key(), value); err != nil {
 			return err
 		}
 
diff --git a/iter.go b/iter.go
index f72f30a..4385385 100644
--- a/iter.go
+++ b/iter.go
@@ -28,6 +28,16 @@ type Iterator interface {
 	Close() error
 }
 
+// iteratorValue returns the value of the current key and the error of reading it,
+// which Value on its own hides.
+func iteratorValue(it Iterator) ([]byte, error) {
+	value := it.Value()
+	if err := it.Error(); err != nil {
+		return nil, err
+	}
+	return value, nil
+}
+
 type _iterConstructor interface {
 	NewIter(opts *pebble.IterOptions) Iterator
 }
diff --git a/table.go b/table.go
index d9a4bab..c340fbc 100644
--- a/table.go
+++ b/table.go
@@ -305,7 +305,12 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		var tr T
 
 		// deserialize row
-		err := t.serializer.Deserialize(iter.Value(), &tr)
+		value, err := iteratorValue(iter)
+		if err != nil {
+			return fmt.Errorf("failed to read rows during reindexing: %w", err)
+		}
+
+		err = t.serializer.Deserialize(value, &tr)
 		if err != nil {
 			return fmt.Errorf("failed to deserialize during reindexing: %w", err)
 		}
@@ -549,8 +554,13 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			value, err := iteratorValue(iter)
+			if err != nil {
+				return err
+			}
+
 			var oldTr T
-			err := t.serializer.Deserialize(iter.Value(), &oldTr)
+			err = t.serializer.Deserialize(value, &oldTr)
 			if err != nil {
 				return err
 			}
@@ -772,8 +782,14 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			if err != nil {
 				return err
 			}
+			var oldValue []byte
 			if isUpdate {
-				err = t.serializer.Deserialize(iter.Value(), &oldTr)
+				oldValue, err = iteratorValue(iter)
+				if err != nil {
+					return err
+				}
+
+				err = t.serializer.Deserialize(oldValue, &oldTr)
 				if err != nil {
 					return err
 				}
@@ -784,7 +800,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 				// onConflict may modify the record it is given, oldTr
 				// has to stay as it is stored.
 				var conflictTr T
-				err = t.serializer.Deserialize(iter.Value(), &conflictTr)
+				err = t.serializer.Deserialize(oldValue, &conflictTr)
 				if err != nil {
 					return err
 				}
@@ -1056,7 +1072,11 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 			}
 		}
 
-		iterValue := iter.Value()
+		iterValue, err := iteratorValue(iter)
+		if err != nil {
+			return nil, err
+		}
+
 		value := values[i][:0]
 		value = append(value, iterValue...)
 
@@ -1128,7 +1148,12 @@ func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T],
 
 	getValue := func() (T, error) {
 		var record T
-		err := t.serializer.Deserialize(it.Value(), &record)
+		value, err := iteratorValue(it)
+		if err != nil {
+			return t.valueNil, fmt.Errorf("get failed to read: %w", err)
+		}
+
+		err = t.serializer.Deserialize(value, &record)
 		if err != nil {
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
-- 
2.43.0


From 3e97e8d94bc3ef054ce70d0cb661f65e171a9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 27/42] fix: After must work with points and ranges in any
 order

---
 query.go | 98 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 30 deletions(-)

diff --git a/query.go b/query.go
index 1c60404..8464616 100644
--- a/query.go
+++ b/query.go
@@ -169,7 +169,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// after
 	selector := q.indexSelector
-	if hasAfter && !hasSort && !q.reverse {
+	if hasAfter && !hasSort {
 		var err error
 		selector, err = q.selectorWithAfter()
 		if err != nil {
@@ -206,7 +206,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 			}
 		}
 
-		if afterIndexKey != nil && bytes.Compare(key, afterIndexKey) >= 0 {
+		if afterIndexKey != nil && q.isUpToAfter(key, afterIndexKey) {
 			return true, nil
 		}
 
@@ -443,52 +443,90 @@ func (q Query[T]) selectors() []Selector[T] {
 	return sels
 }
 
+// selectorWithAfter returns the part of the selector that is scanned from the
+// after row on. Points and ranges are scanned in the order they are given.
 func (q Query[T]) selectorWithAfter() (Selector[T], error) {
 	switch q.indexSelector.Type() {
 	case SelectorTypePoint:
+		if q.reverse {
+			return q.indexSelector, nil
+		}
 		return NewSelectorPoint(q.afterSelector), nil
 	case SelectorTypePoints:
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
-		var newPoints []T
-		pntsSelector := q.indexSelector.(SelectorPoints[T])
-		for _, pnt := range pntsSelector.Points() {
+		var remaining []T
+		points := q.indexSelector.(SelectorPoints[T]).Points()
+		at := -1
+		for i, pnt := range points {
 			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			if bytes.Compare(afterKey, pntKey) < 0 {
-				newPoints = append(newPoints, pnt)
-			} else if q.index.IndexID == PrimaryIndexID {
-				// the point is one row, not all the rows from there on
-				if bytes.Equal(afterKey, pntKey) {
-					newPoints = append(newPoints, q.afterSelector)
-				}
-			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
-				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
-				newPoints = append(newPoints, q.afterSelector)
+			if (bytes.Compare(afterKey, pntKey) < 0) != q.reverse {
+				remaining = append(remaining, pnt)
 			}
-		}
-		return NewSelectorPoints(newPoints...), nil
-	case SelectorTypeRange:
-		rngSelector := q.indexSelector.(SelectorRange[T])
 
-		_, upper := rngSelector.Range()
-		return NewSelectorRange(q.afterSelector, upper), nil
-	case SelectorTypeRanges:
+			// the point of the primary key is one row, not all the rows from there on
+			contains := bytes.Equal(afterKey, pntKey)
+			if q.index.IndexID != PrimaryIndexID {
+				contains = bytes.Compare(afterKey, pntKey) >= 0 && isSameKeyPrefix(afterKey, pntKey)
+			}
+			if contains && (at == -1 || !q.reverse) {
+				at = i
+			}
+		}
+		if at != -1 && q.reverse {
+			remaining = points[:at+1]
+		} else if at != -1 {
+			remaining = append([]T{q.afterSelector}, points[at+1:]...)
+		}
+		return NewSelectorPoints(remaining...), nil
+	case SelectorTypeRange, SelectorTypeRanges:
 		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
 
-		var newRanges [][]T
-		rngsSelector := q.indexSelector.(SelectorRanges[T])
-		for _, rng := range rngsSelector.Ranges() {
+		var ranges, remaining [][]T
+		if rngSelector, ok := q.indexSelector.(SelectorRange[T]); ok {
+			lower, upper := rngSelector.Range()
+			ranges = [][]T{{lower, upper}}
+		} else {
+			ranges = q.indexSelector.(SelectorRanges[T]).Ranges()
+		}
+		at := -1
+		for i, rng := range ranges {
 			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
 			upperKey := encodeIndexKey[T](q.table, rng[1], q.index, []byte{})
 
-			if bytes.Compare(afterKey, lowerKey) < 0 {
-				newRanges = append(newRanges, rng)
-			} else if bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0 {
-				newRanges = append(newRanges, []T{q.afterSelector, rng[1]})
+			if (bytes.Compare(afterKey, lowerKey) < 0) != q.reverse {
+				remaining = append(remaining, rng)
 			}
+
+			contains := bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0
+			if contains && (at == -1 || !q.reverse) {
+				at = i
+			}
+		}
+		if at != -1 && q.reverse {
+			remaining = append(append([][]T{}, ranges[:at]...), []T{ranges[at][0], q.afterSelector})
+		} else if at != -1 {
+			remaining = append([][]T{{q.afterSelector, ranges[at][1]}}, ranges[at+1:]...)
 		}
-		return NewSelectorRanges(newRanges...), nil
+		return NewSelectorRanges(remaining...), nil
 	default:
 		return nil, fmt.Errorf("unsupported selector type")
 	}
 }
+
+// isUpToAfter tells if the reverse scan of selectorWithAfter has not passed the
+// after row yet.
+func (q Query[T]) isUpToAfter(key, afterKey []byte) bool {
+	switch {
+	case q.indexSelector.Type() == SelectorTypePoint:
+		return bytes.Compare(key, afterKey) >= 0
+	case q.indexSelector.Type() == SelectorTypePoints && q.index.IndexID != PrimaryIndexID:
+		return bytes.Compare(key, afterKey) >= 0 && isSameKeyPrefix(key, afterKey)
+	default:
+		return bytes.Equal(key, afterKey)
+	}
+}
+
+func isSameKeyPrefix(a, b []byte) bool {
+	return bytes.Equal(a[:_KeyPrefixSplitIndex(a)], b[:_KeyPrefixSplitIndex(b)])
+}
-- 
2.43.0


From 9713b492eae9045f85baa3d0278e7216c76b6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 28/42] fix: StringToBytes must return a slice with a capacity

The capacity was whatever followed the string header in memory. Slicing the
result could give wrong bytes: bloom filters hashed the primary keys found by
Intersect to other values and the query failed with not found.
---
 utils/unsafe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unsafe.go b/utils/unsafe.go
index fd68e8e..80c4cb7 100644
--- a/utils/unsafe.go
+++ b/utils/unsafe.go
@@ -3,7 +3,7 @@ package utils
 import "unsafe"
 
 func StringToBytes(s string) []byte {
-	return *(*[]byte)(unsafe.Pointer(&s))
+	return unsafe.Slice(unsafe.StringData(s), len(s))
 }
 
 func BytesToString(b []byte) string {
-- 
2.43.0


From 52358071424e096b0def558e8604a417c52a49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 29/42] fix: inspect: query by index and after a row on tables
 of plain struct entries

utils.MakeValue returns a pointer even when the entry type is not one, so
SetPoint and After were called with the wrong type and panicked.
---
 inspect/inspect.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..aed2c87 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -98,7 +98,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 		}
 
 		selectorPoint := utils.MakeValue(tableInfo.SelectorPointType())
-		selectorPoint.MethodByName("SetPoint").Call([]reflect.Value{indexSelectorValue})
+		selectorPoint.MethodByName("SetPoint").Call([]reflect.Value{entryArg(tableInfo, indexSelectorValue)})
 
 		queryValue = queryValue.MethodByName("With").Call([]reflect.Value{indexValue, selectorPoint})[0]
 	}
@@ -150,7 +150,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 			return nil, err
 		}
 
-		queryValue = queryValue.MethodByName("After").Call([]reflect.Value{afterValue})[0]
+		queryValue = queryValue.MethodByName("After").Call([]reflect.Value{entryArg(tableInfo, afterValue)})[0]
 	}
 
 	execValues := queryValue.MethodByName("Execute").Call(
@@ -173,6 +173,15 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	return resultMapArray, nil
 }
 
+// entryArg returns the entry made by utils.MakeValue, which is always a
+// pointer, as a value of the table's entry type.
+func entryArg(tableInfo bond.TableInfo, entry reflect.Value) reflect.Value {
+	if tableInfo.EntryType().Kind() != reflect.Ptr {
+		return entry.Elem()
+	}
+	return entry
+}
+
 func (in *inspect) findTableAndIndexInfo(table string, index string) (bond.TableInfo, bond.IndexInfo, error) {
 	if index == "" {
 		index = bond.PrimaryIndexName
-- 
2.43.0


From ae0d8967809fe5c346c72a9e704e267680d3f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 30/42] fix: inspect: a null in the selector, filter or after
 does not panic

reflect.ValueOf(nil) is the zero Value, on which CanConvert panics: a remote
client could crash the handler's request with {"filter":{"ID":null}}. A null
matches no row in a filter, and is a type mismatch elsewhere.
---
 inspect/inspect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index aed2c87..b743c93 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -114,7 +114,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 				if rowInterface, ok := row[filterField]; ok {
 					rv := reflect.ValueOf(rowInterface)
 					if fv.Kind() != rv.Kind() {
-						if fv.CanConvert(rv.Type()) {
+						if fv.IsValid() && fv.CanConvert(rv.Type()) {
 							filterInterface = fv.Convert(rv.Type()).Interface()
 						} else {
 							ret = false
@@ -226,7 +226,7 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 			vv := val.FieldByName(fieldNameToSet)
 
 			if vt.Kind() != vv.Kind() {
-				if vt.CanConvert(vv.Type()) {
+				if vt.IsValid() && vt.CanConvert(vv.Type()) {
 					vt = vt.Convert(vv.Type())
 				} else {
 					return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
-- 
2.43.0


From 59657f4cf4e70b7b0d5680f732e28193aabc34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 31/42] fix: inspect: a remote query honours its context

The client dropped the context, so a query could be neither cancelled nor given
a deadline.
---
 inspect/inspect_handler_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..3dc603b 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -150,6 +150,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
-- 
2.43.0


From 71d8b3b50332173e958f2237887080db46c3448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 32/42] fix: inspect: a remote query keeps 64-bit integers
 exact

Selectors, filters, cursors and results went through float64, which can not hold
integers over 2^53: a row with such an id (NumberSequence makes no other ones)
could neither be selected, nor paged after, nor shown with its own id. Integers
which float64 does hold are still decoded as float64.
---
 inspect/inspect_cli.go            |  6 +--
 inspect/inspect_handler.go        |  2 +-
 inspect/inspect_handler_client.go |  2 +-
 inspect/inspect_json.go           | 88 +++++++++++++++++++++++++++++++
 4 files changed, 93 insertions(+), 5 deletions(-)
 create mode 100644 inspect/inspect_json.go

diff --git a/inspect/inspect_cli.go b/inspect/inspect_cli.go
index ed0fcf5..cf9cc14 100644
--- a/inspect/inspect_cli.go
+++ b/inspect/inspect_cli.go
@@ -194,7 +194,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var indexSelector map[string]interface{}
 					if indexSelectorStr := ctx.String(_FlagIndexSelector.Name); indexSelectorStr != "" {
-						err = json.Unmarshal([]byte(indexSelectorStr), &indexSelector)
+						err = unmarshal([]byte(indexSelectorStr), &indexSelector)
 						if err != nil {
 							return err
 						}
@@ -202,7 +202,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var filter map[string]interface{}
 					if filterStr := ctx.String(_FlagFilter.Name); filterStr != "" {
-						err = json.Unmarshal([]byte(filterStr), &filter)
+						err = unmarshal([]byte(filterStr), &filter)
 						if err != nil {
 							return err
 						}
@@ -210,7 +210,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var after map[string]interface{}
 					if afterStr := ctx.String(_FlagAfter.Name); afterStr != "" {
-						err = json.Unmarshal([]byte(afterStr), &after)
+						err = unmarshal([]byte(afterStr), &after)
 						if err != nil {
 							return err
 						}
diff --git a/inspect/inspect_handler.go b/inspect/inspect_handler.go
index ee0ba20..1b655aa 100644
--- a/inspect/inspect_handler.go
+++ b/inspect/inspect_handler.go
@@ -199,7 +199,7 @@ func buildQueryHandler(inspect Inspect) http.HandlerFunc {
 		}
 
 		var req requestQuery
-		err = json.Unmarshal(data, &req)
+		err = unmarshal(data, &req)
 		if err != nil {
 			writeErrorResponse(response, http.StatusInternalServerError, err)
 			return
diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index 3dc603b..24e60f2 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -169,7 +169,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	var result []map[string]interface{}
-	err = json.Unmarshal(resp.Body(), &result)
+	err = unmarshal(resp.Body(), &result)
 	if err != nil {
 		return nil, err
 	}
diff --git a/inspect/inspect_json.go b/inspect/inspect_json.go
new file mode 100644
index 0000000..bca725e
--- /dev/null
+++ b/inspect/inspect_json.go
@@ -0,0 +1,88 @@
+package inspect
+
+import (
+	"bytes"
+	"encoding/json"
+	"errors"
+	"fmt"
+	"io"
+	"math"
+	"strconv"
+)
+
+// unmarshal decodes like json.Unmarshal, but for the numbers decoded into an
+// interface{}: a 64-bit integer which a float64 can not hold exactly is decoded
+// as int64 or uint64.
+func unmarshal(data []byte, v interface{}) error {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	if err := decoder.Decode(v); err != nil {
+		return err
+	}
+
+	if _, err := decoder.Token(); !errors.Is(err, io.EOF) {
+		return fmt.Errorf("unexpected data after the top-level value")
+	}
+
+	switch value := v.(type) {
+	case *requestQuery:
+		for _, fields := range []map[string]interface{}{value.IndexSelector, value.Filter, value.After} {
+			if err := exactNumbersInMap(fields); err != nil {
+				return err
+			}
+		}
+	case *map[string]interface{}:
+		return exactNumbersInMap(*value)
+	case *[]map[string]interface{}:
+		for _, fields := range *value {
+			if err := exactNumbersInMap(fields); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+func exactNumbersInMap(fields map[string]interface{}) error {
+	for name, value := range fields {
+		exact, err := exactNumbers(value)
+		if err != nil {
+			return err
+		}
+		fields[name] = exact
+	}
+	return nil
+}
+
+func exactNumbers(value interface{}) (interface{}, error) {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return v, exactNumbersInMap(v)
+	case []interface{}:
+		for i := range v {
+			exact, err := exactNumbers(v[i])
+			if err != nil {
+				return nil, err
+			}
+			v[i] = exact
+		}
+		return v, nil
+	case json.Number:
+		f, err := v.Float64()
+		if err != nil {
+			return nil, err
+		}
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			if f >= math.MaxInt64 || int64(f) != i {
+				return i, nil
+			}
+		} else if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			if f >= math.MaxUint64 || uint64(f) != u {
+				return u, nil
+			}
+		}
+		return f, nil
+	}
+	return value, nil
+}
-- 
2.43.0


From e1dd7db1ac562075f32a6def3fa797a9e72575de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 33/42] fix: Get of several points returns rows whose
 serialized value is empty

A record that serializes to no bytes was reported as missing.
---
 table.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/table.go b/table.go
index c340fbc..b666969 100644
--- a/table.go
+++ b/table.go
@@ -985,7 +985,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 			}
 
 			for _, value := range values {
-				if len(value) == 0 {
+				if value == nil {
 					trs = append(trs, t.valueNil)
 					continue
 				}
@@ -1042,6 +1042,9 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 	// sort keys so we get data from db efficiently
 	originalOrder := t.sortKeys(keys)
 
+	// nil for the rows that do not exist, a row may serialize to no bytes
+	found := make([][]byte, len(keys))
+
 	iter := itc.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
 			LowerBound: keys[0],
@@ -1055,7 +1058,6 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
@@ -1067,7 +1069,6 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
@@ -1081,15 +1082,13 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 		value = append(value, iterValue...)
 
 		values[i] = value
+		found[i] = value
 	}
 
-	// resize values
-	values = values[:len(keys)]
-
 	// restore original order on values
-	t.reorderValues(values, originalOrder)
+	t.reorderValues(found, originalOrder)
 
-	return values, nil
+	return found, nil
 }
 
 func (t *_table[T]) Iter(sel Selector[T], optBatch ...Batch) Iterator {
-- 
2.43.0


From 49a77d8b112b691c95e649e9f76b360efb634235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 34/42] fix: queries derived from one query share their
 Intersects parts

Intersects appended to the parts of the query it was called on; a second query
derived from the same one overwrote the last part of the first.
---
 query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 8464616..69531b4 100644
--- a/query.go
+++ b/query.go
@@ -148,7 +148,8 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	// queries derived from the same query must not share the backing array
+	q.intersects = append(q.intersects[:len(q.intersects):len(q.intersects)], queries...)
 	return q
 }
 
-- 
2.43.0


From 47d1e73f5e177d85aeb33a2efb26f2b3e36f9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 35/42] fix: keys added to a bloom filter before it is loaded
 are lost by the next process

Load kept the saved copy valid although the filter already held keys the copy
misses, which happens when rows are inserted while the filter initializes.
---
 bloom/bloom_filter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index cd7e454..db459d1 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -126,11 +126,19 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		return fmt.Errorf("configuration changed")
 	}
 
+	changed := false
 	for _, bucket := range b.buckets {
 		err = b.loadBucket(bucket, keyBuff[:0], store)
 		if err != nil {
 			return err
 		}
+		changed = changed || bucket.hasChanges
+	}
+
+	// The copy misses the keys that were added before it was loaded, it
+	// must not be loaded again.
+	if changed {
+		return b.invalidate(store)
 	}
 
 	b.savedTo = store
-- 
2.43.0


From f31718bf49d8b6deb699fc155570d5b1cda93672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 36/42] fix: UUIDGenerator.Next returns the error when no
 entropy can be read

uuid.New panics in that case, though Next has an error to return.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 2d67547..8dd0622 100644
--- a/helpers.go
+++ b/helpers.go
@@ -54,5 +54,5 @@ type UUIDGenerator struct {
 }
 
 func (n *UUIDGenerator) Next() (uuid.UUID, error) {
-	return uuid.New(), nil
+	return uuid.NewRandom()
 }
-- 
2.43.0


From 4182aa410d74fb0b2ffd684544af0a62b3fd6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 37/42] fix: MigratePebbleFormatVersion refuses to record a
 version the storage is not in

Asked for an older version than the storage has, Pebble opens it and keeps it
in its own version, but the older one was recorded.
---
 bond.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bond.go b/bond.go
index 3c3f7be..d39b88a 100644
--- a/bond.go
+++ b/bond.go
@@ -638,6 +638,12 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
+	// there is no way back to an older version, the pebble stays in its own.
+	if version := uint64(db.FormatMajorVersion()); version != upgradeVersion {
+		return fmt.Errorf("the pebble db is in version %d. it can't be migrated to version %d",
+			version, upgradeVersion)
+	}
+
 	return writePebbleFormatVersion(filepath.Join(dir, "bond"), upgradeVersion)
 }
 
-- 
2.43.0


From 4ad4e4e850cff777c9e2bbcebec1ba38c687e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 38/42] fix: Get returned an empty value when the value could
 not be read

The Get of Pebble ignores the error of fetching a value from a value block of
an sstable. Its closer, the iterator, knows it.
---
 batch.go   |  2 +-
 bond.go    | 18 +++++++++++++++++-
 version.go |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/batch.go b/batch.go
index 3f78517..f6d7d73 100644
--- a/batch.go
+++ b/batch.go
@@ -92,7 +92,7 @@ func (b *_batch) Reset() {
 }
 
 func (b *_batch) Get(key []byte, _ ...Batch) (data []byte, closer io.Closer, err error) {
-	return b.Batch.Get(key)
+	return pebbleGet(b.Batch, key)
 }
 
 func (b *_batch) Set(key []byte, value []byte, opt WriteOptions, _ ...Batch) error {
diff --git a/bond.go b/bond.go
index d39b88a..1e31e42 100644
--- a/bond.go
+++ b/bond.go
@@ -248,11 +248,27 @@ func (db *_db) Get(key []byte, batch ...Batch) (data []byte, closer io.Closer, e
 	if len(batch) > 0 && batch[0] != nil {
 		data, closer, err = batch[0].Get(key)
 	} else {
-		data, closer, err = db.pebble.Get(key)
+		data, closer, err = pebbleGet(db.pebble, key)
 	}
 	return
 }
 
+// pebbleGet gets the value of the key and the error of reading it, which the Get
+// of pebble hides. The iterator that is its closer knows it.
+func pebbleGet(reader pebble.Reader, key []byte) ([]byte, io.Closer, error) {
+	data, closer, err := reader.Get(key)
+	if err != nil {
+		return nil, nil, err
+	}
+	if it, ok := closer.(interface{ Error() error }); ok {
+		if err = it.Error(); err != nil {
+			_ = closer.Close()
+			return nil, nil, err
+		}
+	}
+	return data, closer, nil
+}
+
 func (db *_db) Set(key []byte, value []byte, opt WriteOptions, batch ...Batch) error {
 	if len(batch) > 0 && batch[0] != nil {
 		return batch[0].Set(key, value, opt)
diff --git a/version.go b/version.go
index 7378650..82116e3 100644
--- a/version.go
+++ b/version.go
@@ -19,7 +19,7 @@ func (db *_db) Version() int {
 }
 
 func (db *_db) readVersion() (int, error) {
-	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	value, closer, err := pebbleGet(db.pebble, bondDataVersionKey())
 	if err != nil {
 		if errors.Is(err, pebble.ErrNotFound) {
 			return 0, nil
-- 
2.43.0


From 1021226b7b6ebb14b0120e2e9f7516d84649e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 39/42] fix: a filter initialized during a read hid rows of the
 state that is read

An index scan reported ErrNotFound for a row that was deleted, and the filter
initialized without it, after the state that the scan reads.
---
 table.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index b666969..74240d8 100644
--- a/table.go
+++ b/table.go
@@ -1045,6 +1045,16 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 	// nil for the rows that do not exist, a row may serialize to no bytes
 	found := make([][]byte, len(keys))
 
+	// The filter may be initialized, by a later state, while this one is read. It
+	// counts only for the keys it ruled out before. Keys that must exist are read.
+	var ruledOut []bool
+	if t.filter != nil && !errorOnNotExist {
+		ruledOut = make([]bool, len(keys))
+		for i, key := range keys {
+			ruledOut[i] = !t.filter.MayContain(context.Background(), key)
+		}
+	}
+
 	iter := itc.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
 			LowerBound: keys[0],
@@ -1054,12 +1064,8 @@ func (t *_table[T]) get(keys [][]byte, itc Iterationer, values [][]byte, errorOn
 	defer iter.Close()
 
 	for i := 0; i < len(keys); i++ {
-		if t.filter != nil && !t.filter.MayContain(context.Background(), keys[i]) {
-			if errorOnNotExist {
-				return nil, ErrNotFound
-			} else {
-				continue
-			}
+		if ruledOut != nil && ruledOut[i] && !t.filter.MayContain(context.Background(), keys[i]) {
+			continue
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
-- 
2.43.0


From c281e355699271adca0e481748e9958f088dcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 40/42] fix: an index scan whose rows could not be prefetched
 panicked or left them out

After the prefetch of a batch of rows failed the iterator is past these rows.
Getting the row again indexed into the values of the previous batch, and a
callback that went on was never given the rows that were passed. The error is
remembered: it is returned again by the lazy row, and by the scan when its
callback goes on.
---
 table.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 74240d8..782497a 100644
--- a/table.go
+++ b/table.go
@@ -1217,6 +1217,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 	var prefetchedValues [][]byte
 	var prefetchedValuesIndex int
+	var prefetchErr error
 
 	var prefetchCloser func()
 	defer func() {
@@ -1241,6 +1242,11 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return getPrefetchedValue()
 		}
 
+		// the iterator has passed the rows that could not be prefetched
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1261,10 +1267,9 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			break
 		}
 
-		var err error
-		prefetchedValues, err = t.get(keys, view, valuesBuffer, true)
-		if err != nil {
-			return t.valueNil, err
+		prefetchedValues, prefetchErr = t.get(keys, view, valuesBuffer, true)
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
 		}
 
 		return getPrefetchedValue()
@@ -1282,6 +1287,9 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		key := append(multiKeyBuffer[:0], it.Key()...)
 
 		cont, err := f(key, Lazy[T]{GetFunc: prefetchAndGetValue})
+		if cont && err == nil {
+			err = prefetchErr
+		}
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
-- 
2.43.0


From fc47add80e6a47019b346a0f30b08dbb3bdd1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 41/42] fix: close callbacks that are registered at the same
 time got lost

OnClose appended to the callbacks without synchronization, a concurrent
registration could overwrite another.
---
 bond.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bond.go b/bond.go
index 1e31e42..71c0c38 100644
--- a/bond.go
+++ b/bond.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/cockroachdb/pebble"
 	"github.com/cockroachdb/pebble/objstorage/objstorageprovider"
@@ -134,6 +135,7 @@ type _db struct {
 	byteArraysPool     *utils.PreAllocatedPool[[][]byte]
 
 	onCloseCallbacks []func(db DB)
+	onCloseMutex     sync.Mutex
 }
 
 func Open(dirname string, opts *Options) (DB, error) {
@@ -333,11 +335,17 @@ func (db *_db) Close() error {
 }
 
 func (db *_db) OnClose(f func(db DB)) {
+	db.onCloseMutex.Lock()
+	defer db.onCloseMutex.Unlock()
 	db.onCloseCallbacks = append(db.onCloseCallbacks, f)
 }
 
 func (db *_db) notifyOnClose() {
-	for _, onClose := range db.onCloseCallbacks {
+	db.onCloseMutex.Lock()
+	callbacks := db.onCloseCallbacks
+	db.onCloseMutex.Unlock()
+
+	for _, onClose := range callbacks {
 		onClose(db)
 	}
 }
-- 
2.43.0


From ac148a837053dd85d1cb62acdfa506f8a883b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 42/42] fix: Clear of a bloom filter whose key prefix ends in
 0xff cleared nothing

The end of the range was the prefix with its last byte increased, which
overflowed: the range was empty, and the next process could load the copy that
was to be cleared and hide the rows that were added after it.
---
 bloom/bloom_filter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index db459d1..4dc96ce 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -236,9 +236,8 @@ func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
 		bucket.hasBeenWritten = false
 	}
 
-	end := make([]byte, len(b.keyPrefix))
-	copy(end, b.keyPrefix)
-	end[len(end)-1]++
+	// The prefix is followed by a number or by letters.
+	end := append(append([]byte{}, b.keyPrefix...), 0xFF)
 	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
 }
 
-- 
2.43.0

