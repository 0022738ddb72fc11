From 3aa923cb8db71337f15857fd1a1912d2879a3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/41] hooks: observe the preallocated pools under the verif
 build tag

---
 utils/sync.go           |  6 +++++-
 utils/sync_monitor.go   | 24 ++++++++++++++++++++++++
 utils/sync_nomonitor.go |  7 +++++++
 3 files changed, 36 insertions(+), 1 deletion(-)
 create mode 100644 utils/sync_monitor.go
 create mode 100644 utils/sync_nomonitor.go

diff --git a/utils/sync.go b/utils/sync.go
index 9d809bd..d814d2b 100644
--- a/utils/sync.go
+++ b/utils/sync.go
@@ -54,9 +54,12 @@ func (s *PreAllocatedPool[T]) Get() T {
 	if itemsLen := len(s.preAllocItems); itemsLen > 0 {
 		item := s.preAllocItems[itemsLen-1]
 		s.preAllocItems = s.preAllocItems[:itemsLen-1]
+		poolOnGet(s, item)
 		return item
 	} else {
-		return s.Pool.Get().(T)
+		item := s.Pool.Get().(T)
+		poolOnGet(s, item)
+		return item
 	}
 }
 
@@ -64,6 +67,7 @@ func (s *PreAllocatedPool[T]) Put(t T) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	poolOnPut(s, t)
 	if len(s.preAllocItems) < s.preAllocItemsSize {
 		s.preAllocItems = append(s.preAllocItems, t)
 	} else {
diff --git a/utils/sync_monitor.go b/utils/sync_monitor.go
new file mode 100644
index 0000000..5a0498b
--- /dev/null
+++ b/utils/sync_monitor.go
@@ -0,0 +1,24 @@
+//go:build verif
+
+package utils
+
+// PoolMonitor observes every PreAllocatedPool when the package is built with
+// the verif build tag. It has to be set before the first pool is created.
+var PoolMonitor interface {
+	// OnGet is called with each item that leaves a pool.
+	OnGet(pool any, item any)
+	// OnPut is called with each item that is returned to a pool.
+	OnPut(pool any, item any)
+}
+
+func poolOnGet[T any](pool *PreAllocatedPool[T], item T) {
+	if PoolMonitor != nil {
+		PoolMonitor.OnGet(pool, item)
+	}
+}
+
+func poolOnPut[T any](pool *PreAllocatedPool[T], item T) {
+	if PoolMonitor != nil {
+		PoolMonitor.OnPut(pool, item)
+	}
+}
diff --git a/utils/sync_nomonitor.go b/utils/sync_nomonitor.go
new file mode 100644
index 0000000..43a69ca
--- /dev/null
+++ b/utils/sync_nomonitor.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package utils
+
+func poolOnGet[T any](*PreAllocatedPool[T], T) {}
+
+func poolOnPut[T any](*PreAllocatedPool[T], T) {}
-- 
2.43.0


From ea06e320bbbe018a5916768045fa02e5bb7d9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 02/41] fix: run the close call-backs of a batch on close and
 notify of an applied batch only when it was applied

---
 batch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batch.go b/batch.go
index eb73032..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
@@ -202,7 +203,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From d124a17c44026b119165cc0c87e28d87951c5ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 03/41] fix: keep the given order of rows that share a primary
 key

---
 table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 2a25b0a..dc91c16 100644
--- a/table.go
+++ b/table.go
@@ -1195,7 +1195,8 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 func (t *_table[T]) sortKeys(keys [][]byte) []int {
 	keyOrder := utils.ArrayN(len(keys))
-	sort.Sort(&utils.SortShim{
+	// rows with the same key keep the order in which they were given
+	sort.Stable(&utils.SortShim{
 		Length: len(keys),
 		SwapFn: func(i, j int) {
 			keys[i], keys[j] = keys[j], keys[i]
-- 
2.43.0


From 048ed7ee380b633e8fe2c2ad3e8b7ebabef3a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 04/41] fix: fold repeated upsert rows in order and remove the
 index entries of the stored row

---
 table.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/table.go b/table.go
index dc91c16..1d6d025 100644
--- a/table.go
+++ b/table.go
@@ -679,9 +679,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -709,30 +706,33 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			// update key
 			key := keys[i]
 
-			// old record
+			// old record, the stored one is kept apart from the one
+			// given to onConflict so the index keys are always the
+			// ones of the row as stored
 			var (
+				storedTr T
 				isUpdate bool
-				err      error
 			)
 			if t.exist(key, batch, iter) {
+				var oldTr T
 				err := t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
 				}
+				err = t.serializer.Deserialize(iter.Value(), &storedTr)
+				if err != nil {
+					return err
+				}
 				isUpdate = true
-			}
 
-			// handle upsert
-			if isUpdate {
+				// handle upsert
 				tr = onConflict(oldTr, tr)
 			}
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
-				continue
+				tr = onConflict(tr, trs[keyOrder[i]])
 			}
 
 			// serialize
@@ -750,7 +750,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			// update indexes
 			if isUpdate {
 				for _, idx := range indexes {
-					err = idx.OnUpdate(t, oldTr, tr, batch, indexKeyBuffer[:0], indexKeyBuffer2[:0])
+					err = idx.OnUpdate(t, storedTr, tr, batch, indexKeyBuffer[:0], indexKeyBuffer2[:0])
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 6253192854b4683822e55a164932d0a5b93384c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 05/41] fix: decode each old row of an update into a fresh row

---
 table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 1d6d025..9c771e0 100644
--- a/table.go
+++ b/table.go
@@ -494,9 +494,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -530,6 +527,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			// not reused between the rows, decoding may leave fields
+			// that are absent in the stored row untouched
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
-- 
2.43.0


From d56d77ff55c67bba0ae55353478494228f463e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 06/41] fix: let the later rows of a large write call see the
 earlier ones

---
 table.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 9c771e0..61c7097 100644
--- a/table.go
+++ b/table.go
@@ -350,7 +350,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -464,7 +464,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -649,7 +649,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -1297,6 +1297,15 @@ func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	return nil
 }
 
+// internalBatchType returns the type of batch a write call needs for its rows.
+// The rows are processed in chunks, and a chunk has to see the previous ones.
+func internalBatchType(numOfRows int) BatchType {
+	if numOfRows > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func minInt(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 9104ec050862ea43372f1e4ec514692bc3836db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 07/41] fix: refuse a duplicate index without keeping the table
 locked or half changed

---
 table.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 61c7097..9d559a5 100644
--- a/table.go
+++ b/table.go
@@ -247,13 +247,17 @@ func (t *_table[T]) Serializer() Serializer[*T] {
 
 func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	t.mutex.Lock()
+	added := make(map[IndexID]*Index[T])
 	for _, idx := range idxs {
-		_, ok := t.secondaryIndexes[idx.IndexID]
-		if ok {
+		_, registered := t.secondaryIndexes[idx.IndexID]
+		_, repeated := added[idx.IndexID]
+		if registered || repeated || idx.IndexID == PrimaryIndexID {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
-		t.secondaryIndexes[idx.IndexID] = idx
+		added[idx.IndexID] = idx
 	}
+	maps.Copy(t.secondaryIndexes, added)
 	t.mutex.Unlock()
 
 	if len(reIndex) > 0 && reIndex[0] {
-- 
2.43.0


From 695e8ff0780db22c0fae06eb44476a78fe057002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 08/41] fix: delete the whole key space of every rebuilt index
 and report read errors

---
 table.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/table.go b/table.go
index 9d559a5..7200c99 100644
--- a/table.go
+++ b/table.go
@@ -267,28 +267,23 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 }
 
 func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
-	idxsMap := make(map[IndexID]*Index[T])
 	for _, idx := range idxs {
-		idxsMap[idx.IndexID] = idx
-		err := t.db.DeleteRange(
-			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+		start, end := indexKeySpace(t.id, idx.IndexID)
+		err := t.db.DeleteRange(start, end, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
 	}
 
-	var prefixBuffer [DefaultKeyBufferSize]byte
-	var prefixSuccessorBuffer [DefaultKeyBufferSize]byte
-	prefix := keyPrefix(t.id, t.primaryIndex, t.valueEmpty, prefixBuffer[:0])
-	prefixSuccessor := keySuccessor(prefix, prefixSuccessorBuffer[:0])
-
 	iter := t.db.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
-			LowerBound: prefix,
-			UpperBound: prefixSuccessor,
+			LowerBound: t.dataKeySpaceStart,
+			UpperBound: t.dataKeySpaceEnd,
 		},
 	})
+	defer func() {
+		_ = iter.Close()
+	}()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -298,7 +293,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 	counter := 0
 	indexKeyBuffer := make([]byte, 0, (DefaultKeyBufferSize)*len(idxs))
 
-	for iter.SeekGE(prefix); iter.Valid(); iter.Next() {
+	for iter.First(); iter.Valid(); iter.Next() {
 		var tr T
 
 		// deserialize row
@@ -325,20 +320,30 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 				return fmt.Errorf("failed to commit reindex batch: %w", err)
 			}
 
+			_ = batch.Close()
 			batch = t.db.Batch(BatchTypeWriteOnly)
 		}
 	}
 
+	if err := iter.Error(); err != nil {
+		return fmt.Errorf("failed to read rows during reindexing: %w", err)
+	}
+
 	err := batch.Commit(Sync)
 	if err != nil {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
 	}
 
-	_ = iter.Close()
-
 	return nil
 }
 
+// indexKeySpace returns the bounds of all the keys of an index, end is exclusive.
+func indexKeySpace(tableID TableID, indexID IndexID) (start, end []byte) {
+	start = []byte{byte(tableID), byte(indexID), 0x00, 0x00, 0x00, 0x00}
+	end = []byte{byte(tableID), byte(indexID), 0xff, 0xff, 0xff, 0xff}
+	return start, end
+}
+
 func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) error {
 	t.mutex.RLock()
 	indexes := make(map[IndexID]*Index[T])
-- 
2.43.0


From ead9e1b8575dad7dd409811c1afa9c9842f0a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 09/41] fix: report the error of an iterator that could not be
 created and accept a nil batch in index iterators

---
 index.go | 2 +-
 iter.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..57b14fd 100644
--- a/index.go
+++ b/index.go
@@ -175,7 +175,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
diff --git a/iter.go b/iter.go
index d6ded27..f0958e8 100644
--- a/iter.go
+++ b/iter.go
@@ -248,7 +248,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
-- 
2.43.0


From 5a22bbaec1f1e2e67523a8963bc5ffe582d3c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 10/41] fix: keep the read error of every part of a multi-part
 iterator and accept a selector without parts

---
 iter.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/iter.go b/iter.go
index f0958e8..1ec3b07 100644
--- a/iter.go
+++ b/iter.go
@@ -77,7 +77,11 @@ type _iteratorMulti struct {
 	iterator           Iterator
 }
 
-func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
+func newIteratorMulti(itc Iterationer, opts []*IterOptions) Iterator {
+	if len(opts) == 0 {
+		return errIterator{}
+	}
+
 	return &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
@@ -86,15 +90,23 @@ func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
 	}
 }
 
+// open replaces the current iterator with the one of the given index.
+func (it *_iteratorMulti) open(index int) {
+	_ = it.iterator.Close()
+	it.iteratorOptionsIndex = index
+	it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[index]))
+}
+
 func (it *_iteratorMulti) First() bool {
 	// find the valid iterator from the start of the list.
 	for i := 0; i < len(it.iteratorOptions); i++ {
-		_ = it.iterator.Close()
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		it.open(i)
 		if it.iterator.First() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
@@ -102,26 +114,24 @@ func (it *_iteratorMulti) First() bool {
 func (it *_iteratorMulti) Last() bool {
 	// find the valid iterator from the end of the list.
 	for i := len(it.iteratorOptions) - 1; i >= 0; i-- {
-		_ = it.iterator.Close()
-		it.iteratorOptionsIndex = i
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		it.open(i)
 		if it.iterator.Last() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
 
 func (it *_iteratorMulti) Prev() bool {
 	for !it.iterator.Prev() {
-		if it.iteratorOptionsIndex == 0 {
+		if it.iteratorOptionsIndex == 0 || it.iterator.Error() != nil {
 			return false
 		}
 
-		_ = it.iterator.Close()
-
-		it.iteratorOptionsIndex--
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		it.open(it.iteratorOptionsIndex - 1)
 		if it.iterator.Last() {
 			break
 		}
@@ -131,14 +141,11 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 || it.iterator.Error() != nil {
 			return false
 		}
 
-		_ = it.iterator.Close()
-
-		it.iteratorOptionsIndex++
-		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
+		it.open(it.iteratorOptionsIndex + 1)
 		if it.iterator.First() {
 			break
 		}
-- 
2.43.0


From 2348ac2ce3a4fdb247054493e081b566e0a73387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 11/41] fix: end ranges and primary points exactly at the last
 selected key

---
 index.go | 117 +++++++++++++++++++------------------------------------
 table.go |  30 +++++---------
 2 files changed, 48 insertions(+), 99 deletions(-)

diff --git a/index.go b/index.go
index 57b14fd..53c0d25 100644
--- a/index.go
+++ b/index.go
@@ -179,102 +179,63 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		iterConstructor = optBatch[0]
 	}
 
-	keyBufferPool := table.DB().getKeyBufferPool()
-
 	switch selector.Type() {
-	case SelectorTypePoint:
-		sel := selector.(SelectorPoint[T])
-
-		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
-		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
+	case SelectorTypePoint, SelectorTypeRange:
+		return iterConstructor.Iter(idx.parts(table, selector)[0])
+	case SelectorTypePoints, SelectorTypeRanges:
+		return newIteratorMulti(iterConstructor, idx.parts(table, selector))
+	default:
+		return errIterator{err: fmt.Errorf("unknown selector type: %v", selector.Type())}
+	}
+}
 
-		releaseBuffers := func() {
-			keyBufferPool.Put(lowerBound[:0])
-			keyBufferPool.Put(upperBound[:0])
-		}
+// parts returns the iterator options of every point and range of the selector.
+func (idx *Index[T]) parts(table Table[T], selector Selector[T]) []*IterOptions {
+	keyBufferPool := table.DB().getKeyBufferPool()
 
-		return iterConstructor.Iter(&IterOptions{
+	part := func(lowerBound, upperBound []byte) *IterOptions {
+		return &IterOptions{
 			IterOptions: pebble.IterOptions{
 				LowerBound: lowerBound,
 				UpperBound: upperBound,
 			},
-			releaseBufferOnClose: releaseBuffers,
-		})
-	case SelectorTypePoints:
-		sel := selector.(SelectorPoints[T])
-
-		var pebbleOpts []*IterOptions
-		for _, point := range sel.Points() {
-			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
-			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
-			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
-			}
-
-			releaseBuffers := func() {
+			releaseBufferOnClose: func() {
 				keyBufferPool.Put(lowerBound[:0])
 				keyBufferPool.Put(upperBound[:0])
-			}
-
-			pebbleOpts = append(pebbleOpts, &IterOptions{
-				IterOptions: pebble.IterOptions{
-					LowerBound: lowerBound,
-					UpperBound: upperBound,
-				},
-				releaseBufferOnClose: releaseBuffers,
-			})
+			},
 		}
+	}
 
-		return newIteratorMulti(iterConstructor, pebbleOpts)
-	case SelectorTypeRange:
-		sel := selector.(SelectorRange[T])
-		low, up := sel.Range()
+	pointPart := func(point T) *IterOptions {
+		lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
+		return part(lowerBound, keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0]))
+	}
 
+	rangePart := func(low, up T) *IterOptions {
 		lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
-		upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-		upperBound = keySuccessor(upperBound, nil)
+		return part(lowerBound, keyNext(encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])))
+	}
 
-		releaseBuffers := func() {
-			keyBufferPool.Put(lowerBound[:0])
-			keyBufferPool.Put(upperBound[:0])
+	var parts []*IterOptions
+	switch selector.Type() {
+	case SelectorTypePoint:
+		parts = append(parts, pointPart(selector.(SelectorPoint[T]).Point()))
+	case SelectorTypePoints:
+		for _, point := range selector.(SelectorPoints[T]).Points() {
+			if idx.IndexID == PrimaryIndexID {
+				parts = append(parts, rangePart(point, point))
+			} else {
+				parts = append(parts, pointPart(point))
+			}
 		}
-
-		return iterConstructor.Iter(&IterOptions{
-			IterOptions: pebble.IterOptions{
-				LowerBound: lowerBound,
-				UpperBound: upperBound,
-			},
-			releaseBufferOnClose: releaseBuffers,
-		})
+	case SelectorTypeRange:
+		parts = append(parts, rangePart(selector.(SelectorRange[T]).Range()))
 	case SelectorTypeRanges:
-		sel := selector.(SelectorRanges[T])
-
-		var pebbleOpts []*IterOptions
-		for _, r := range sel.Ranges() {
-			low, up := r[0], r[1]
-
-			lowerBound := encodeIndexKey(table, low, idx, keyBufferPool.Get()[:0])
-			upperBound := encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])
-			upperBound = keySuccessor(upperBound, nil)
-
-			releaseBuffers := func() {
-				keyBufferPool.Put(lowerBound[:0])
-				keyBufferPool.Put(upperBound[:0])
-			}
-
-			pebbleOpts = append(pebbleOpts, &IterOptions{
-				IterOptions: pebble.IterOptions{
-					LowerBound: lowerBound,
-					UpperBound: upperBound,
-				},
-				releaseBufferOnClose: releaseBuffers,
-			})
+		for _, r := range selector.(SelectorRanges[T]).Ranges() {
+			parts = append(parts, rangePart(r[0], r[1]))
 		}
-
-		return newIteratorMulti(iterConstructor, pebbleOpts)
-	default:
-		return errIterator{err: fmt.Errorf("unknown selector type: %v", selector.Type())}
 	}
+	return parts
 }
 
 func (idx *Index[T]) OnInsert(table Table[T], tr T, batch Batch, buffs ...[]byte) error {
diff --git a/table.go b/table.go
index 7200c99..8f7fc12 100644
--- a/table.go
+++ b/table.go
@@ -1256,35 +1256,23 @@ func (t *_table[T]) keyDuplicate(index int, keys [][]byte) bool {
 	return index > 0 && bytes.Equal(keys[index], keys[index-1])
 }
 
-func keyPrefix[T any](tableID TableID, idx *Index[T], s T, buff []byte) []byte {
-	return KeyEncodeRaw(
-		tableID,
-		idx.IndexID,
-		func(b []byte) []byte {
-			return idx.IndexKeyFunction(NewKeyBuilder(b), s)
-		},
-		nil,
-		nil,
-		buff[:0],
-	)
-}
-
+// keySuccessor appends to dst the first key after all the keys that start with src.
 func keySuccessor(src, dst []byte) []byte {
-	if dst != nil {
-		dst = append(dst, src...)
-	} else {
-		dst = src
-	}
-
-	for i := len(src) - 1; i >= 0; i-- {
+	dst = append(dst, src...)
+	for i := len(dst) - 1; i >= 0; i-- {
 		if dst[i] != 0xFF {
 			dst[i]++
-			return dst
+			return dst[:i+1]
 		}
 	}
 	return dst
 }
 
+// keyNext turns the key into the first key after it.
+func keyNext(key []byte) []byte {
+	return append(key, 0x00)
+}
+
 func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	batchNum := 0
 	itemsLen := len(items)
-- 
2.43.0


From d9f0b8db7e48c699ef455e26c09bfc91159ab329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 12/41] fix: scan tables from their first key

---
 index.go    |  6 ++++++
 query.go    |  2 +-
 selector.go | 12 ++++++++++++
 table.go    |  4 ++--
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 53c0d25..cf54c4e 100644
--- a/index.go
+++ b/index.go
@@ -217,6 +217,12 @@ func (idx *Index[T]) parts(table Table[T], selector Selector[T]) []*IterOptions
 	}
 
 	var parts []*IterOptions
+	if _, ok := selector.(*selectorAll[T]); ok && idx.IndexID == PrimaryIndexID {
+		// from the first key of the table, the key of an empty row may not be it
+		lowerBound := KeyEncodeRaw(table.ID(), PrimaryIndexID, nil, nil, nil, keyBufferPool.Get()[:0])
+		return append(parts, part(lowerBound, keySuccessor(lowerBound, keyBufferPool.Get()[:0])))
+	}
+
 	switch selector.Type() {
 	case SelectorTypePoint:
 		parts = append(parts, pointPart(selector.(SelectorPoint[T]).Point()))
diff --git a/query.go b/query.go
index 4ebdf88..8df146b 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorAll[T](),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..48e4810 100644
--- a/selector.go
+++ b/selector.go
@@ -1,5 +1,7 @@
 package bond
 
+import "github.com/go-bond/bond/utils"
+
 // SelectorType is the type of selector.
 type SelectorType uint8
 
@@ -74,6 +76,16 @@ type selectorPoints[T any] struct {
 	points []T
 }
 
+// selectorAll selects all the rows of the primary index, for the secondary
+// indexes it is the point selector it embeds.
+type selectorAll[T any] struct {
+	selectorPoint[T]
+}
+
+func newSelectorAll[T any]() Selector[T] {
+	return &selectorAll[T]{selectorPoint[T]{point: utils.MakeNew[T]()}}
+}
+
 // NewSelectorPoints creates a new multi-point selector.
 func NewSelectorPoints[T any](points ...T) SelectorPoints[T] {
 	return &selectorPoints[T]{points: points}
diff --git a/table.go b/table.go
index 8f7fc12..fe02597 100644
--- a/table.go
+++ b/table.go
@@ -1007,7 +1007,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorAll[T](), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1022,7 +1022,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorAll[T](), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From 6492fe6ae45782d9508f819e157e44fc4ede932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 13/41] fix: read the index and the rows of a scan or
 intersection at one moment and through the batch

---
 index.go | 40 ++++++++++++++++++++++++++++++++++------
 iter.go  | 28 ++++++++++++++++++++++++++++
 query.go | 14 ++++++++++++--
 table.go | 36 +++++++++++++++++++++++++-----------
 4 files changed, 99 insertions(+), 19 deletions(-)

diff --git a/index.go b/index.go
index cf54c4e..1a5ade1 100644
--- a/index.go
+++ b/index.go
@@ -174,11 +174,24 @@ func (idx *Index[T]) Name() string {
 
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
-	var iterConstructor Iterationer = table.DB()
 	if len(optBatch) > 0 && optBatch[0] != nil {
-		iterConstructor = optBatch[0]
+		return idx.iter(table, selector, optBatch[0])
 	}
 
+	switch selector.Type() {
+	case SelectorTypePoints, SelectorTypeRanges:
+		// the parts are iterated one after another, all have to show the same moment
+		snapshot := newSnapshot(table.DB())
+		return &_snapshotIterator{
+			Iterator: idx.iter(table, selector, snapshot),
+			snapshot: snapshot,
+		}
+	default:
+		return idx.iter(table, selector, table.DB())
+	}
+}
+
+func (idx *Index[T]) iter(table Table[T], selector Selector[T], iterConstructor Iterationer) Iterator {
 	switch selector.Type() {
 	case SelectorTypePoint, SelectorTypeRange:
 		return iterConstructor.Iter(idx.parts(table, selector)[0])
@@ -320,10 +333,21 @@ func (idx *Index[T]) OnDelete(table Table[T], tr T, batch Batch, buffs ...[]byte
 }
 
 func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], optBatch ...Batch) ([][]byte, error) {
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		return idx.intersect(ctx, table, sel, indexes, sels, optBatch[0])
+	}
+
+	snapshot := newSnapshot(table.DB())
+	defer snapshot.Close()
+
+	return idx.intersect(ctx, table, sel, indexes, sels, snapshot)
+}
+
+func (idx *Index[T]) intersect(ctx context.Context, table Table[T], sel Selector[T], indexes []*Index[T], sels []Selector[T], iterConstructor Iterationer) ([][]byte, error) {
 	tempKeysMap := map[string]struct{}{}
 	intersectKeysMap := map[string]struct{}{}
 
-	it := idx.Iter(table, sel, optBatch...)
+	it := idx.iter(table, sel, iterConstructor)
 	for it.First(); it.Valid(); it.Next() {
 		select {
 		case <-ctx.Done():
@@ -334,10 +358,12 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
-		it = idx2.Iter(table, sels[i], optBatch...)
+		it = idx2.iter(table, sels[i], iterConstructor)
 		for it.First(); it.Valid(); it.Next() {
 			select {
 			case <-ctx.Done():
@@ -351,7 +377,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
diff --git a/iter.go b/iter.go
index 1ec3b07..ba7c30b 100644
--- a/iter.go
+++ b/iter.go
@@ -69,6 +69,34 @@ func (it *_iterator) Close() error {
 	return it.Iterator.Close()
 }
 
+// _snapshot creates iterators that show the same moment of the database.
+type _snapshot struct {
+	*pebble.Snapshot
+}
+
+func newSnapshot(db DB) *_snapshot {
+	return &_snapshot{Snapshot: db.Backend().NewSnapshot()}
+}
+
+func (s *_snapshot) Iter(opts *IterOptions, _ ...Batch) Iterator {
+	return newIterator(&_bondIterConstructor{pebbleConstructor: s.Snapshot}, opts)
+}
+
+// _snapshotIterator closes the snapshot it reads from when it's closed.
+type _snapshotIterator struct {
+	Iterator
+
+	snapshot *_snapshot
+}
+
+func (it *_snapshotIterator) Close() error {
+	err := it.Iterator.Close()
+	if errSnapshot := it.snapshot.Close(); err == nil {
+		err = errSnapshot
+	}
+	return err
+}
+
 type _iteratorMulti struct {
 	iteratorOptions      []*IterOptions
 	iteratorOptionsIndex int
diff --git a/query.go b/query.go
index 8df146b..8d1a679 100644
--- a/query.go
+++ b/query.go
@@ -297,7 +297,17 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
-	keys, err := q.index.Intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), optBatch...)
+	// all the indexes and the rows have to be read at the same moment
+	var iterConstructor Iterationer
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		iterConstructor = optBatch[0]
+	} else {
+		snapshot := newSnapshot(q.table.db)
+		defer snapshot.Close()
+		iterConstructor = snapshot
+	}
+
+	keys, err := q.index.intersect(ctx, q.table, q.indexSelector, q.indexes(), q.selectors(), iterConstructor)
 	if err != nil {
 		return nil, err
 	}
@@ -324,7 +334,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	values, err := q.table.get(keys, iterConstructor, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/table.go b/table.go
index fe02597..09b840a 100644
--- a/table.go
+++ b/table.go
@@ -904,7 +904,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		err := batched[T](selPoints, len(selPoints), func(selPoints []T) error {
 			keys := t.keysExternal(selPoints, keyArray)
 
-			values, err := t.get(keys, batch, valueArray, false)
+			values, err := t.get(keys, t.iterationer(batch), valueArray, false)
 			if err != nil {
 				return err
 			}
@@ -947,7 +947,16 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 	}
 }
 
-func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
+// iterationer returns the source of the iterators for reading through the batch,
+// or directly from the database if it's nil.
+func (t *_table[T]) iterationer(batch Batch) Iterationer {
+	if batch != nil {
+		return batch
+	}
+	return t.db
+}
+
+func (t *_table[T]) get(keys [][]byte, iterConstructor Iterationer, values [][]byte, errorOnNotExist bool) ([][]byte, error) {
 	if len(keys) == 0 {
 		return [][]byte{}, nil
 	}
@@ -955,12 +964,12 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 	// sort keys so we get data from db efficiently
 	originalOrder := t.sortKeys(keys)
 
-	iter := t.db.Iter(&IterOptions{
+	iter := iterConstructor.Iter(&IterOptions{
 		IterOptions: pebble.IterOptions{
 			LowerBound: keys[0],
 			UpperBound: t.dataKeySpaceEnd,
 		},
-	}, batch)
+	})
 	defer iter.Close()
 
 	for i := 0; i < len(keys); i++ {
@@ -1080,7 +1089,17 @@ func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T],
 }
 
 func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	it := idx.Iter(t, s, optBatch...)
+	// the index and the rows have to be read at the same moment
+	var iterConstructor Iterationer
+	if len(optBatch) > 0 && optBatch[0] != nil {
+		iterConstructor = optBatch[0]
+	} else {
+		snapshot := newSnapshot(t.db)
+		defer snapshot.Close()
+		iterConstructor = snapshot
+	}
+
+	it := idx.iter(t, s, iterConstructor)
 
 	first := func() bool {
 		if reverse {
@@ -1098,11 +1117,6 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 	}
 
-	var batch Batch
-	if len(optBatch) > 0 {
-		batch = optBatch[0]
-	}
-
 	keys := t.db.getBytesArrayPool().Get()[:0]
 	indexKeys := t.db.getBytesArrayPool().Get()[:0]
 	multiKeyBuffer := t.db.getMultiKeyBufferPool().Get()[:0]
@@ -1156,7 +1170,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 
 		var err error
-		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)
+		prefetchedValues, err = t.get(keys, iterConstructor, valuesBuffer, true)
 		if err != nil {
 			return t.valueNil, err
 		}
-- 
2.43.0


From 6a5b4268fd54640d0b3bde66dc81367c1dd4c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 14/41] fix: give every entry of an index scan its own key and
 row whatever the function fetches

---
 table.go | 99 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/table.go b/table.go
index 09b840a..908ff44 100644
--- a/table.go
+++ b/table.go
@@ -1044,6 +1044,12 @@ func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selec
 
 func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
 	it := idx.Iter(t, s, optBatch...)
+	closed := false
+	defer func() {
+		if !closed {
+			_ = it.Close()
+		}
+	}()
 
 	first := func() bool {
 		if reverse {
@@ -1073,18 +1079,17 @@ func (t *_table[T]) scanForEachPrimaryIndex(ctx context.Context, idx *Index[T],
 	for first(); it.Valid(); next() {
 		select {
 		case <-ctx.Done():
-			_ = it.Close()
 			return fmt.Errorf("context done: %w", ctx.Err())
 		default:
 		}
 
 		cont, err := f(it.Key(), Lazy[T]{GetFunc: getValue})
 		if !cont || err != nil {
-			_ = it.Close()
 			return err
 		}
 	}
 
+	closed = true
 	return it.Close()
 }
 
@@ -1100,6 +1105,12 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	}
 
 	it := idx.iter(t, s, iterConstructor)
+	closed := false
+	defer func() {
+		if !closed {
+			_ = it.Close()
+		}
+	}()
 
 	first := func() bool {
 		if reverse {
@@ -1126,29 +1137,11 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
 	defer t.db.putValueArray(valuesBuffer)
 
+	// values of the entries starting at the one at which the row was first needed
 	var prefetchedValues [][]byte
 	var prefetchedValuesIndex int
 
-	var prefetchCloser func()
-	defer func() {
-		if prefetchCloser != nil {
-			prefetchCloser()
-			prefetchCloser = nil
-		}
-	}()
-
-	getPrefetchedValue := func() (T, error) {
-		var rtr T
-		err := t.serializer.Deserialize(prefetchedValues[prefetchedValuesIndex], &rtr)
-		if err != nil {
-			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
-		}
-
-		prefetchedValuesIndex++
-		return rtr, nil
-	}
-
-	prefetchAndGetValue := func() (T, error) {
+	prefetch := func() error {
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1171,48 +1164,68 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 		var err error
 		prefetchedValues, err = t.get(keys, iterConstructor, valuesBuffer, true)
+		return err
+	}
+
+	// the scan can't go on after it, the iterator has moved
+	var prefetchErr error
+
+	getValue := func() (T, error) {
+		if prefetchedValues == nil && prefetchErr == nil {
+			prefetchErr = prefetch()
+		}
+		if prefetchErr != nil {
+			return t.valueNil, prefetchErr
+		}
+
+		var rtr T
+		err := t.serializer.Deserialize(prefetchedValues[prefetchedValuesIndex], &rtr)
 		if err != nil {
-			return t.valueNil, err
+			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		return getPrefetchedValue()
+		return rtr, nil
 	}
 
+	// the key given to the function, the iterator moves when the rows are prefetched
+	var key []byte
+
 	for first(); it.Valid(); next() {
-		select {
-		case <-ctx.Done():
-			_ = it.Close()
-			return fmt.Errorf("context done: %w", ctx.Err())
-		default:
-		}
+		key = append(key[:0], it.Key()...)
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
-		if !cont || err != nil {
-			_ = it.Close()
-			return err
-		}
+		// the current entry, and the rest of prefetched entries if its row was needed.
+		for prefetchedValuesIndex == 0 || prefetchedValuesIndex < len(prefetchedValues) {
+			select {
+			case <-ctx.Done():
+				return fmt.Errorf("context done: %w", ctx.Err())
+			default:
+			}
+
+			if prefetchedValuesIndex > 0 {
+				key = indexKeys[prefetchedValuesIndex]
+			}
 
-		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
-			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
+			cont, err := f(key, Lazy[T]{GetFunc: getValue})
 			if !cont || err != nil {
-				_ = it.Close()
 				return err
 			}
+			if prefetchErr != nil {
+				return prefetchErr
+			}
+
+			prefetchedValuesIndex++
 		}
 
 		prefetchedValuesIndex = 0
 		prefetchedValues = nil
-		if prefetchCloser != nil {
-			prefetchCloser()
-			prefetchCloser = nil
-		}
 
+		key = nil
 		keys = keys[:0]
 		indexKeys = indexKeys[:0]
 		multiKeyBuffer = multiKeyBuffer[:0]
 	}
 
+	closed = true
 	return it.Close()
 }
 
-- 
2.43.0


From c8d6f4a6d94d148e2ccbc080d689dab3d7f4deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 15/41] fix: continue a query after the given row for every
 selector and direction and honour every clause of an intersection

---
 index.go    |  65 ++++++++++++++++
 query.go    | 216 ++++++++++++++++++++--------------------------------
 selector.go |   9 +++
 3 files changed, 157 insertions(+), 133 deletions(-)

diff --git a/index.go b/index.go
index 1a5ade1..849bca1 100644
--- a/index.go
+++ b/index.go
@@ -229,6 +229,13 @@ func (idx *Index[T]) parts(table Table[T], selector Selector[T]) []*IterOptions
 		return part(lowerBound, keyNext(encodeIndexKey(table, up, idx, keyBufferPool.Get()[:0])))
 	}
 
+	if sel, ok := selector.(*selectorAfter[T]); ok {
+		afterKey := encodeIndexKey(table, sel.after, idx, keyBufferPool.Get()[:0])
+		defer keyBufferPool.Put(afterKey[:0])
+
+		return partsAfter(idx.parts(table, sel.Selector), afterKey, sel.reverse)
+	}
+
 	var parts []*IterOptions
 	if _, ok := selector.(*selectorAll[T]); ok && idx.IndexID == PrimaryIndexID {
 		// from the first key of the table, the key of an empty row may not be it
@@ -257,6 +264,64 @@ func (idx *Index[T]) parts(table Table[T], selector Selector[T]) []*IterOptions
 	return parts
 }
 
+// partsAfter limits the parts to what follows the key in the direction of
+// iteration. The part that includes the key is limited and the ones iterated
+// before it are left empty. If there isn't one, or the parts overlap, all of
+// them are limited.
+func partsAfter(parts []*IterOptions, key []byte, reverse bool) []*IterOptions {
+	limit := func(part *IterOptions) {
+		if reverse {
+			if bytes.Compare(key, part.UpperBound) < 0 {
+				part.UpperBound = append([]byte{}, key...)
+			}
+		} else if bytes.Compare(key, part.LowerBound) >= 0 {
+			part.LowerBound = keyNext(append([]byte{}, key...))
+		}
+
+		// bounds of the parts that end before the key are kept in order
+		if bytes.Compare(part.LowerBound, part.UpperBound) > 0 {
+			part.UpperBound = part.LowerBound
+		}
+	}
+
+	at := -1
+	for i, part := range parts {
+		if bytes.Compare(part.LowerBound, key) <= 0 && bytes.Compare(key, part.UpperBound) < 0 {
+			at = i
+			break
+		}
+	}
+
+	if at == -1 || partsOverlap(parts) {
+		for _, part := range parts {
+			limit(part)
+		}
+		return parts
+	}
+
+	for i, part := range parts {
+		if i == at {
+			limit(part)
+		} else if (i < at) != reverse {
+			part.UpperBound = part.LowerBound
+		}
+	}
+	return parts
+}
+
+func partsOverlap(parts []*IterOptions) bool {
+	sorted := append([]*IterOptions{}, parts...)
+	sort.Slice(sorted, func(i, j int) bool {
+		return bytes.Compare(sorted[i].LowerBound, sorted[j].LowerBound) < 0
+	})
+	for i := 1; i < len(sorted); i++ {
+		if bytes.Compare(sorted[i].LowerBound, sorted[i-1].UpperBound) < 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (idx *Index[T]) OnInsert(table Table[T], tr T, batch Batch, buffs ...[]byte) error {
 	var buff []byte
 	if len(buffs) > 0 {
diff --git a/query.go b/query.go
index 8d1a679..2cabb08 100644
--- a/query.go
+++ b/query.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 
@@ -148,7 +149,7 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	q.intersects = append(q.intersects[:len(q.intersects):len(q.intersects)], queries...)
 	return q
 }
 
@@ -170,33 +171,23 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// after
 	selector := q.indexSelector
 	if hasAfter && !hasSort {
-		var err error
-		selector, err = q.selectorWithAfter()
-		if err != nil {
-			return nil, err
+		afterApplied = true
+		selector = &selectorAfter[T]{
+			Selector: q.indexSelector,
+			after:    q.afterSelector,
+			reverse:  q.reverse,
 		}
 	}
 
+	// number of rows needed to apply offset and limit
+	lastCount := q.offset + q.limit
+	if lastCount < q.offset {
+		lastCount = math.MaxUint64
+	}
+
 	var records = make([]T, 0, DefaultScanPrefetchSize)
 	count := uint64(0)
-	skippedFirstRow := false
 	err := q.table.ScanIndexForEach(ctx, q.index, selector, func(key KeyBytes, lazy Lazy[T]) (bool, error) {
-		if q.isAfter && !hasSort && !skippedFirstRow {
-			skippedFirstRow = true
-			afterApplied = true
-
-			keyBuffer := q.table.db.getKeyBufferPool().Get()
-			defer q.table.db.getKeyBufferPool().Put(keyBuffer)
-
-			rowIdxKey := key.ToKey()
-			selIdxKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])).ToKey()
-			if bytes.Compare(selIdxKey.Index, rowIdxKey.Index) == 0 &&
-				bytes.Compare(selIdxKey.IndexOrder, rowIdxKey.IndexOrder) == 0 &&
-				bytes.Compare(selIdxKey.PrimaryKey, rowIdxKey.PrimaryKey) == 0 {
-				return true, nil
-			}
-		}
-
 		// check if can apply offset in here
 		if !hasFilter && !hasSort && q.offset > count {
 			offsetApplied = true
@@ -226,7 +217,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < lastCount
 		}
 
 		return next, nil
@@ -243,37 +234,17 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	}
 
 	if hasAfter && !afterApplied {
-		afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
-		recordKey := []byte{}
-		for index, record := range records {
-			recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
-			if bytes.Equal(afterKey, recordKey) {
-				if index+1 == len(records) {
-					records = make([]T, 0)
-				} else {
-					records = records[index+1:]
-				}
-				break
-			}
-		}
+		records = q.sortedAfter(records)
 	}
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
-			records = make([]T, 0)
-		} else {
-			records = records[q.offset:]
-		}
+		records = skipFirst(records, q.offset)
 	}
 
 	// limit
 	if hasLimit && !limitApplied {
-		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
-			lastIndex = uint64(len(records))
-		}
-		records = records[:lastIndex]
+		records = keepFirst(records, q.limit)
 	}
 
 	return records, nil
@@ -312,24 +283,33 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	if q.reverse {
+		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
+			keys[i], keys[j] = keys[j], keys[i]
+		}
+	}
+
+	// after
+	if hasAfter && !hasSort {
+		afterKey := q.table.key(q.afterSelector, []byte{})
+		keys = keys[sort.Search(len(keys), func(i int) bool {
+			if q.reverse {
+				return bytes.Compare(keys[i], afterKey) < 0
+			}
+			return bytes.Compare(keys[i], afterKey) > 0
+		}):]
+	}
+
 	// apply offset & limit early
-	if !hasFilter && !hasSort && !hasAfter {
+	if !hasFilter && !hasSort {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
-				return make([]T, 0), nil
-			} else {
-				keys = keys[q.offset:]
-			}
+			keys = skipFirst(keys, q.offset)
 		}
 
 		if hasLimit {
 			limitApplied = true
-			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
-				lastIndex = uint64(len(keys))
-			}
-			keys = keys[:lastIndex]
+			keys = keepFirst(keys, q.limit)
 		}
 	}
 
@@ -361,45 +341,54 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// after
-	if hasAfter {
-		afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
-		recordKey := []byte{}
-		for index, record := range records {
-			recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
-			if bytes.Equal(afterKey, recordKey) {
-				if index+1 == len(records) {
-					records = make([]T, 0)
-				} else {
-					records = records[index+1:]
-				}
-				break
-			}
-		}
+	if hasAfter && hasSort {
+		records = q.sortedAfter(records)
 	}
 
-	if hasFilter || hasSort {
-		// offset
-		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
-				records = make([]T, 0)
-			} else {
-				records = records[q.offset:]
-			}
-		}
+	// offset
+	if hasOffset && !offsetApplied {
+		records = skipFirst(records, q.offset)
+	}
 
-		// limit
-		if hasLimit && !limitApplied {
-			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
-				lastIndex = uint64(len(records))
-			}
-			records = records[:lastIndex]
-		}
+	// limit
+	if hasLimit && !limitApplied {
+		records = keepFirst(records, q.limit)
 	}
 
 	return records, nil
 }
 
+// sortedAfter returns the part of the sorted records that follows the after row.
+func (q Query[T]) sortedAfter(records []T) []T {
+	afterKey := q.table.PrimaryKey(NewKeyBuilder([]byte{}), q.afterSelector)
+	recordKey := []byte{}
+	for index, record := range records {
+		recordKey = q.table.PrimaryKey(NewKeyBuilder(recordKey[:0]), record)
+		if bytes.Equal(afterKey, recordKey) {
+			return records[index+1:]
+		}
+	}
+
+	// the row is not there any more, continue at the place it would have
+	return records[sort.Search(len(records), func(i int) bool {
+		return q.orderLessFunc(q.afterSelector, records[i])
+	}):]
+}
+
+func skipFirst[E any](elems []E, count uint64) []E {
+	if count >= uint64(len(elems)) {
+		return elems[len(elems):]
+	}
+	return elems[count:]
+}
+
+func keepFirst[E any](elems []E, count uint64) []E {
+	if count >= uint64(len(elems)) {
+		return elems
+	}
+	return elems[:count]
+}
+
 func (q Query[T]) checkIntersectQueries() error {
 	for _, q1 := range q.intersects {
 		if q1.filterFunc != nil {
@@ -417,6 +406,12 @@ func (q Query[T]) checkIntersectQueries() error {
 		if q1.limit != 0 {
 			return fmt.Errorf("queries passed to Intersect do not support limit")
 		}
+		if q1.reverse {
+			return fmt.Errorf("queries passed to Intersect do not support reverse")
+		}
+		if len(q1.intersects) != 0 {
+			return fmt.Errorf("queries passed to Intersect do not support intersects")
+		}
 	}
 	return nil
 }
@@ -436,48 +431,3 @@ func (q Query[T]) selectors() []Selector[T] {
 	}
 	return sels
 }
-
-func (q Query[T]) selectorWithAfter() (Selector[T], error) {
-	switch q.indexSelector.Type() {
-	case SelectorTypePoint:
-		return NewSelectorPoint(q.afterSelector), nil
-	case SelectorTypePoints:
-		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
-
-		var newPoints []T
-		pntsSelector := q.indexSelector.(SelectorPoints[T])
-		for _, pnt := range pntsSelector.Points() {
-			pntKey := encodeIndexKey[T](q.table, pnt, q.index, []byte{})
-			if bytes.Compare(afterKey, pntKey) < 0 {
-				newPoints = append(newPoints, pnt)
-			} else if bytes.Compare(afterKey, pntKey) >= 0 &&
-				bytes.Compare(afterKey[:_KeyPrefixSplitIndex(afterKey)], pntKey[:_KeyPrefixSplitIndex(pntKey)]) == 0 {
-				newPoints = append(newPoints, q.afterSelector)
-			}
-		}
-		return NewSelectorPoints(newPoints...), nil
-	case SelectorTypeRange:
-		rngSelector := q.indexSelector.(SelectorRange[T])
-
-		_, upper := rngSelector.Range()
-		return NewSelectorRange(q.afterSelector, upper), nil
-	case SelectorTypeRanges:
-		afterKey := encodeIndexKey[T](q.table, q.afterSelector, q.index, []byte{})
-
-		var newRanges [][]T
-		rngsSelector := q.indexSelector.(SelectorRanges[T])
-		for _, rng := range rngsSelector.Ranges() {
-			lowerKey := encodeIndexKey[T](q.table, rng[0], q.index, []byte{})
-			upperKey := encodeIndexKey[T](q.table, rng[1], q.index, []byte{})
-
-			if bytes.Compare(afterKey, lowerKey) < 0 {
-				newRanges = append(newRanges, rng)
-			} else if bytes.Compare(afterKey, lowerKey) >= 0 && bytes.Compare(afterKey, upperKey) <= 0 {
-				newRanges = append(newRanges, []T{q.afterSelector, rng[1]})
-			}
-		}
-		return NewSelectorRanges(newRanges...), nil
-	default:
-		return nil, fmt.Errorf("unsupported selector type")
-	}
-}
diff --git a/selector.go b/selector.go
index 48e4810..ff10718 100644
--- a/selector.go
+++ b/selector.go
@@ -86,6 +86,15 @@ func newSelectorAll[T any]() Selector[T] {
 	return &selectorAll[T]{selectorPoint[T]{point: utils.MakeNew[T]()}}
 }
 
+// selectorAfter selects the rows of the embedded selector that follow the after
+// row in the direction of iteration.
+type selectorAfter[T any] struct {
+	Selector[T]
+
+	after   T
+	reverse bool
+}
+
 // NewSelectorPoints creates a new multi-point selector.
 func NewSelectorPoints[T any](points ...T) SelectorPoints[T] {
 	return &selectorPoints[T]{points: points}
-- 
2.43.0


From 553331a8074d750f5a93d7bf409485f95fe8b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 16/41] fix: report storage read errors instead of taking the
 row as absent and find rows stored as zero bytes

---
 table.go | 58 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/table.go b/table.go
index 908ff44..597ba3e 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -412,7 +413,11 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist, err := t.exist(key, iter)
+			if err != nil {
+				return err
+			}
+			if exist || t.keyDuplicate(i, keys) {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -533,6 +538,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -722,9 +730,13 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 				storedTr T
 				isUpdate bool
 			)
-			if t.exist(key, batch, iter) {
+			exist, err := t.exist(key, iter)
+			if err != nil {
+				return err
+			}
+			if exist {
 				var oldTr T
-				err := t.serializer.Deserialize(iter.Value(), &oldTr)
+				err = t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
 				}
@@ -824,22 +836,15 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
-	if iter == nil {
-		iter = t.db.Iter(&IterOptions{
-			IterOptions: pebble.IterOptions{
-				LowerBound: key,
-				UpperBound: t.dataKeySpaceEnd,
-			},
-		}, batch)
-		defer iter.Close()
+	if !iter.SeekGE(key) {
+		return false, iter.Error()
 	}
-
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	return bytes.Equal(iter.Key(), key), nil
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
@@ -878,9 +883,12 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		}
 
 		record, closer, err := t.db.Get(key, batch)
-		if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
 			return nil, ErrNotFound
 		}
+		if err != nil {
+			return nil, err
+		}
 		defer closer.Close()
 
 		var rtr T
@@ -910,7 +918,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 			}
 
 			for _, value := range values {
-				if len(value) == 0 {
+				if value == nil {
 					trs = append(trs, t.valueNil)
 					continue
 				}
@@ -972,21 +980,25 @@ func (t *_table[T]) get(keys [][]byte, iterConstructor Iterationer, values [][]b
 	})
 	defer iter.Close()
 
+	// the values of the rows that do not exist are nil
+	rows := make([][]byte, len(keys))
+
 	for i := 0; i < len(keys); i++ {
 		if t.filter != nil && !t.filter.MayContain(context.Background(), keys[i]) {
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
 				continue
 			}
 		}
@@ -996,15 +1008,13 @@ func (t *_table[T]) get(keys [][]byte, iterConstructor Iterationer, values [][]b
 		value = append(value, iterValue...)
 
 		values[i] = value
+		rows[i] = value
 	}
 
-	// resize values
-	values = values[:len(keys)]
-
 	// restore original order on values
-	t.reorderValues(values, originalOrder)
+	t.reorderValues(rows, originalOrder)
 
-	return values, nil
+	return rows, nil
 }
 
 func (t *_table[T]) Iter(sel Selector[T], optBatch ...Batch) Iterator {
-- 
2.43.0


From d06c12e346c82248f99e16fef6890d9cb75407a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 17/41] fix: scan through the given batch in the type-erased
 scanner

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From 30c3b39e8c4eb42cb87163efb4f69f91122c4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 18/41] fix: close the internal batch of an unsafe update on
 every path and leave the batch of the caller open

---
 table_unsafe.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..30c3bfe 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -48,7 +49,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	// value
 	value := t.db.getValueBufferPool().Get()[:0]
 	valueBuffer := bytes.NewBuffer(value)
-	defer t.db.getValueBufferPool().Put(value)
+	defer t.db.getValueBufferPool().Put(value[:0])
 
 	// serializer
 	var serialize = t.serializer.Serializer.Serialize
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From 0836b05395977fd87b9b3b128c46554310f6353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 19/41] fix: give the bytes of a string a valid capacity

---
 utils/unsafe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unsafe.go b/utils/unsafe.go
index fd68e8e..80c4cb7 100644
--- a/utils/unsafe.go
+++ b/utils/unsafe.go
@@ -3,7 +3,7 @@ package utils
 import "unsafe"
 
 func StringToBytes(s string) []byte {
-	return *(*[]byte)(unsafe.Pointer(&s))
+	return unsafe.Slice(unsafe.StringData(s), len(s))
 }
 
 func BytesToString(b []byte) string {
-- 
2.43.0


From 9cc8cb356aa05a056be93ee5059585091babcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 20/41] fix: encode into an empty buffer whatever the pool
 hands out and return what failed to encode

---
 serializers/msgp.go     | 13 ++++++++-----
 serializers/msgp_gen.go |  6 +++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/serializers/msgp.go b/serializers/msgp.go
index 0921dd7..13cd916 100644
--- a/serializers/msgp.go
+++ b/serializers/msgp.go
@@ -23,12 +23,12 @@ func (m *MsgpackSerializer) Serialize(i interface{}) ([]byte, error) {
 		enc.Reset(&buff)
 
 		err := enc.Encode(i)
+		m.Encoder.Put(enc)
 		if err != nil {
+			m.freeBuffer(buff)
 			return nil, err
 		}
 
-		m.Encoder.Put(enc)
-
 		return buff.Bytes(), nil
 	}
 	return msgpack.Marshal(i)
@@ -44,12 +44,12 @@ func (m *MsgpackSerializer) SerializerWithCloseable(i interface{}) ([]byte, func
 		enc.Reset(&buff)
 
 		err := enc.Encode(i)
+		m.Encoder.Put(enc)
 		if err != nil {
+			m.freeBuffer(buff)
 			return nil, nil, err
 		}
 
-		m.Encoder.Put(enc)
-
 		closeable := func() {
 			m.freeBuffer(buff)
 		}
@@ -67,7 +67,10 @@ func (m *MsgpackSerializer) Deserialize(b []byte, i interface{}) error {
 
 func (m *MsgpackSerializer) getBuffer() bytes.Buffer {
 	if m.Buffer != nil {
-		return m.Buffer.Get()
+		// the previous user leaves its bytes in the buffer
+		buffer := m.Buffer.Get()
+		buffer.Reset()
+		return buffer
 	} else {
 		return bytes.Buffer{}
 	}
diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index a7cca1d..2e6c4a5 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -55,6 +55,7 @@ func (m *MsgpackGenSerializer) SerializerWithCloseable(i interface{}) ([]byte, f
 
 	err := msgp.Encode(&buff, e)
 	if err != nil {
+		m.freeBuffer(buff)
 		return nil, nil, err
 	}
 
@@ -80,7 +81,10 @@ func (m *MsgpackGenSerializer) Deserialize(b []byte, i interface{}) error {
 
 func (m *MsgpackGenSerializer) getBuffer() bytes.Buffer {
 	if m.Buffer != nil {
-		return m.Buffer.Get()
+		// the previous user leaves its bytes in the buffer
+		buffer := m.Buffer.Get()
+		buffer.Reset()
+		return buffer
 	} else {
 		return bytes.Buffer{}
 	}
-- 
2.43.0


From b07bd0b047df797a9b0327f829b6e81dbc228298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 21/41] fix: unlock a synchronized batch when the function
 panics

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..b5b633d 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,6 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+	return f(s.batch)
 }
-- 
2.43.0


From bd01bea9cd99d1ead92f5cc81afefbcd0a985b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 22/41] fix: never hand out a number again when the clock goes
 back

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..5b27d84 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,7 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From e9fa8b919700a2d708ff64dce2961370818ad31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 23/41] fix: leave the bytes given to OrderBytes unchanged

---
 index.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.go b/index.go
index 849bca1..3459172 100644
--- a/index.go
+++ b/index.go
@@ -91,6 +91,8 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		// the bytes may belong to the row
+		b = append([]byte{}, b...)
 		for i := 0; i < len(b); i++ {
 			b[i] = ^b[i]
 		}
-- 
2.43.0


From bbdd4c8e4d849a0721bcab62fffb3db32aab136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 24/41] fix: keep every filter key in a file of its own and
 delete only the given range

---
 filters/filter_fs_storer.go | 83 +++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 18 deletions(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..e87b750 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -2,22 +2,22 @@ package filters
 
 import (
 	"bytes"
+	"fmt"
 	"io"
-	"io/fs"
 	"os"
 	"path"
-	"regexp"
+	"strconv"
+	"strings"
 
 	"github.com/go-bond/bond"
 )
 
 type FilterFSStorer struct {
-	path          string
-	noASCIIRegexp *regexp.Regexp
+	path string
 }
 
 func NewFSFilterStorer(path string) *FilterFSStorer {
-	return &FilterFSStorer{path: path, noASCIIRegexp: regexp.MustCompile("[^A-Za-z0-9_.]")}
+	return &FilterFSStorer{path: path}
 }
 
 func (f *FilterFSStorer) Get(key []byte, batch ...bond.Batch) (data []byte, closer io.Closer, err error) {
@@ -41,24 +41,71 @@ func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, ba
 }
 
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
-	startFile := []byte(f.prepareFilePath("", string(start)))
+	entries, err := os.ReadDir(f.path)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
 
-	dirFS := os.DirFS(f.path)
-	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
-			return os.Remove(path.Join(f.path, filePath))
+	for _, entry := range entries {
+		if entry.IsDir() {
+			continue
 		}
-		return nil
-	})
 
-	return err
+		key, ok := f.keyOfFile(entry.Name())
+		if !ok || bytes.Compare(key, start) < 0 || bytes.Compare(key, end) >= 0 {
+			continue
+		}
+
+		err = os.Remove(path.Join(f.path, entry.Name()))
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// prepareFilePath returns the path of the file of the key. The bytes that are not
+// safe in a file name are escaped, so that every key has a file of its own.
+func (f *FilterFSStorer) prepareFilePath(root, key string) string {
+	var name strings.Builder
+	for i := 0; i < len(key); i++ {
+		if isSafeInFileName(key[i]) && (i > 0 || key[i] != '.') {
+			name.WriteByte(key[i])
+		} else {
+			fmt.Fprintf(&name, "%%%02x", key[i])
+		}
+	}
+	return path.Join(root, name.String())
+}
+
+// keyOfFile returns the key of the file, false if the file isn't one of the storer.
+func (f *FilterFSStorer) keyOfFile(name string) ([]byte, bool) {
+	var key []byte
+	for i := 0; i < len(name); i++ {
+		if name[i] != '%' {
+			key = append(key, name[i])
+			continue
+		}
+
+		if i+2 >= len(name) {
+			return nil, false
+		}
+		b, err := strconv.ParseUint(name[i+1:i+3], 16, 8)
+		if err != nil {
+			return nil, false
+		}
+		key = append(key, byte(b))
+		i += 2
+	}
+	return key, f.prepareFilePath("", string(key)) == name
 }
 
-func (f *FilterFSStorer) prepareFilePath(root, fileName string) string {
-	return path.Join(
-		root,
-		f.noASCIIRegexp.ReplaceAllLiteralString(fileName, ""),
-	)
+func isSafeInFileName(b byte) bool {
+	return 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z' || '0' <= b && b <= '9' || b == '_' || b == '.'
 }
 
 var _ bond.FilterStorer = &FilterFSStorer{}
-- 
2.43.0


From 3647960ba0df1e889309f774d3205f64f489b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 25/41] fix: lose no key when several are added to a bloom
 filter at once

---
 bloom/bloom_filter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..a22f0dc 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -81,13 +81,21 @@ func (b *BloomFilter) Add(_ context.Context, key []byte) {
 	defer b.mutex.RUnlock()
 
 	bucket := b.buckets[b.hash(key)]
+
+	bucket.mutex.Lock()
+	defer bucket.mutex.Unlock()
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
 }
 
 func (b *BloomFilter) MayContain(_ context.Context, key []byte) bool {
 	b.mutex.RLock()
 	defer b.mutex.RUnlock()
-	return b.buckets[b.hash(key)].filter.Test(key)
+
+	bucket := b.buckets[b.hash(key)]
+
+	bucket.mutex.RLock()
+	defer bucket.mutex.RUnlock()
+	return bucket.filter.Test(key)
 }
 
 func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
-- 
2.43.0


From ed2216729becb69f5a33d6beb67fdac366db2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 26/41] fix: refuse a damaged bloom filter and release what
 loading it used

---
 bloom/bloom_filter.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index a22f0dc..d7ba96f 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -104,34 +104,42 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 
 	var keyBuff [1024]byte
 
-	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	bucketNum, closer, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
+	if err != nil {
 		return fmt.Errorf("configuration changed")
 	}
 
+	configurationChanged := len(bucketNum) != 8 || binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)
+	_ = closer.Close()
+	if configurationChanged {
+		return fmt.Errorf("configuration changed")
+	}
+
+	zr, err := zstd.NewReader(nil)
+	if err != nil {
+		return err
+	}
+	defer zr.Close()
+
 	for _, bucket := range b.buckets {
 		data, closer, err := store.Get(buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
 		if err != nil {
 			return err
 		}
 
-		filter := bloom.New(0, 0)
-		zr, err := zstd.NewReader(bytes.NewBuffer(data))
+		// decoded to the end, so that the checksum is verified
+		data, err = zr.DecodeAll(data, nil)
+		_ = closer.Close()
 		if err != nil {
 			return err
 		}
 
-		_, err = filter.ReadFrom(zr)
+		filter := bloom.New(0, 0)
+		_, err = filter.ReadFrom(bytes.NewReader(data))
 		if err != nil {
 			return err
 		}
 
-		zr.Close()
-		_ = closer.Close()
-
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
-- 
2.43.0


From 6fe26e527da983fdd69e26963eeef1f7b9c16888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 27/41] fix: save every bucket again after a bloom filter was
 cleared and clear every prefix

---
 bloom/bloom_filter.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index d7ba96f..6509e52 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -203,9 +203,24 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
-	end := make([]byte, len(b.keyPrefix))
-	copy(end, b.keyPrefix)
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	// the first key after all the keys with the prefix
+	end := append([]byte{}, b.keyPrefix...)
+	for len(end) > 0 && end[len(end)-1] == 0xFF {
+		end = end[:len(end)-1]
+	}
+	if len(end) == 0 {
+		return fmt.Errorf("key prefix %x can't be cleared", b.keyPrefix)
+	}
 	end[len(end)-1]++
+
+	// none of the buckets is in the store any more, whatever happens to the rest
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+
 	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
 }
 
@@ -217,13 +232,15 @@ func (b *BloomFilter) hash(key []byte) int {
 
 func buildKey(buff []byte, keyPrefix []byte, bucketNo int) []byte {
 	buffer := bytes.NewBuffer(buff)
-	_, _ = buffer.Write(append(keyPrefix, []byte(fmt.Sprintf("%d", bucketNo))...))
+	_, _ = buffer.Write(keyPrefix)
+	_, _ = buffer.WriteString(fmt.Sprintf("%d", bucketNo))
 	return buffer.Bytes()
 }
 
 func buildBucketNumKey(buff []byte, keyPrefix []byte) []byte {
 	buffer := bytes.NewBuffer(buff)
-	_, _ = buffer.Write(append(keyPrefix, []byte("bn")...))
+	_, _ = buffer.Write(keyPrefix)
+	_, _ = buffer.WriteString("bn")
 	return buffer.Bytes()
 }
 
-- 
2.43.0


From d04d33834c186a777d5f13dcfafdf07eb6ecc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 28/41] fix: dump rows and indexes of one snapshot and report
 every error after the files are finished

---
 bond.go | 120 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 48 deletions(-)

diff --git a/bond.go b/bond.go
index 7e49f6f..753cec6 100644
--- a/bond.go
+++ b/bond.go
@@ -389,41 +389,18 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
-	// write all the table data to the sst file.
-	for _, tableID := range tables {
-		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
-		if err := os.Mkdir(tablePath, 0755); err != nil {
-			return err
-		}
-		itr, err := snapshot.NewIter(
-			&pebble.IterOptions{
-				LowerBound: []byte{byte(tableID), 0x00, 0x00, 0x00, 0x00, 0x00},
-				UpperBound: []byte{byte(tableID), 0x01, 0x00, 0x00, 0x00, 0x00},
-			},
-		)
-		if err != nil {
-			return err
-		}
-		grp.Go(func(itr Iterator, path string) func() error {
-			return func() error {
-				return iteratorToSST(itr, path)
-			}
-		}(itr, tablePath))
-
-		if !withIndex {
-			continue
-		}
-		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
-		for _, index := range indexes {
-			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
-			if err := os.Mkdir(indexPath, 0755); err != nil {
+	err := func() error {
+		// write all the table data to the sst file.
+		for _, tableID := range tables {
+			tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
+			if err := os.Mkdir(tablePath, 0755); err != nil {
 				return err
 			}
-			itr, err := snapshot.NewIter(&pebble.IterOptions{
-				LowerBound: []byte{byte(tableID), byte(index), 0x00, 0x00, 0x00, 0x00},
-				UpperBound: []byte{byte(tableID), byte(index), 0xff, 0xff, 0xff, 0xff},
-			},
+			itr, err := snapshot.NewIter(
+				&pebble.IterOptions{
+					LowerBound: []byte{byte(tableID), 0x00, 0x00, 0x00, 0x00, 0x00},
+					UpperBound: []byte{byte(tableID), 0x01, 0x00, 0x00, 0x00, 0x00},
+				},
 			)
 			if err != nil {
 				return err
@@ -432,10 +409,44 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 				return func() error {
 					return iteratorToSST(itr, path)
 				}
-			}(itr, indexPath))
+			}(itr, tablePath))
+
+			if !withIndex {
+				continue
+			}
+			// write all the index data to sst file.
+			indexes, err := readIndexIDS(snapshot, tableID)
+			if err != nil {
+				return err
+			}
+			for _, index := range indexes {
+				indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
+				if err := os.Mkdir(indexPath, 0755); err != nil {
+					return err
+				}
+				itr, err := snapshot.NewIter(&pebble.IterOptions{
+					LowerBound: []byte{byte(tableID), byte(index), 0x00, 0x00, 0x00, 0x00},
+					UpperBound: []byte{byte(tableID), byte(index), 0xff, 0xff, 0xff, 0xff},
+				},
+				)
+				if err != nil {
+					return err
+				}
+				grp.Go(func(itr Iterator, path string) func() error {
+					return func() error {
+						return iteratorToSST(itr, path)
+					}
+				}(itr, indexPath))
+			}
 		}
+		return nil
+	}()
+
+	// the files being written use the snapshot
+	if errGrp := grp.Wait(); err == nil {
+		err = errGrp
 	}
-	return grp.Wait()
+	return err
 }
 
 func (db *_db) Restore(_ context.Context, path string, tables []TableID, withIndex bool) error {
@@ -499,14 +510,21 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
-	prefix := []byte{byte(tableID), 1}
+	indexIDS, _ := readIndexIDS(db.pebble, tableID)
+	return indexIDS
+}
+
+// readIndexIDS returns the indexes of the table that have entries.
+func readIndexIDS(reader _pebbleIterConstructor, tableID TableID) ([]IndexID, error) {
+	prefix := []byte{byte(tableID), 1, 0x00, 0x00, 0x00, 0x00}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
-	for {
-		if !itr.SeekGE(prefix) {
-			break
-		}
+	itr, err := reader.NewIter(&pebble.IterOptions{})
+	if err != nil {
+		return nil, err
+	}
+
+	for itr.SeekGE(prefix) {
 		indexTableID := TableID(itr.Key()[0])
 		indexID := itr.Key()[1]
 		if indexTableID != tableID {
@@ -518,26 +536,32 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	return indexIDS, itr.Close()
 }
 
 // write all the key/value of iterator to the SST file.
-func iteratorToSST(itr Iterator, path string) error {
-	defer itr.Close()
+func iteratorToSST(itr Iterator, path string) (err error) {
+	defer func() {
+		if errClose := itr.Close(); err == nil {
+			err = errClose
+		}
+	}()
+
+	opts := sstable.WriterOptions{
+		TableFormat: sstable.TableFormatPebblev2, Parallelism: true, Comparer: DefaultKeyComparer(),
+	}
+
 	// sst reader
 	currentFileID := 1
 	file, err := vfs.Default.Create(filepath.Join(path, fmt.Sprintf("%d.sst", currentFileID)))
 	if err != nil {
 		return err
 	}
-
-	opts := sstable.WriterOptions{
-		TableFormat: sstable.TableFormatPebblev2, Parallelism: true, Comparer: DefaultKeyComparer(),
-	}
 	writer := sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
 
 	for itr.First(); itr.Valid(); itr.Next() {
 		if err := writer.Set(itr.Key(), itr.Value()); err != nil {
+			_ = writer.Close()
 			return err
 		}
 
-- 
2.43.0


From 1a676d6965d4c62cb2f047355272960de5c2c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 29/41] fix: restore exactly the files of the requested tables
 and indexes

---
 bond.go | 75 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/bond.go b/bond.go
index 753cec6..9350303 100644
--- a/bond.go
+++ b/bond.go
@@ -5,12 +5,10 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"io/fs"
 	"math"
 	"os"
 	"path/filepath"
 	"strconv"
-	"strings"
 
 	"github.com/cockroachdb/pebble"
 	"github.com/cockroachdb/pebble/objstorage/objstorageprovider"
@@ -462,51 +460,56 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 		return fmt.Errorf("expecting version %d to restore, but found %d", BOND_DB_DATA_VERSION, version)
 	}
 
-	// The table directory, must be present for the bond to restore. return an error if it
-	// doesn't exist
+	// ingest the required sst file.
+	ssts := []string{}
+	added := map[TableID]bool{}
 	for _, table := range tables {
-		tableDir := filepath.Join(path, fmt.Sprintf("table_%d", table))
-		_, err := os.Stat(tableDir)
+		if added[table] {
+			continue
+		}
+		added[table] = true
+
+		// The table directory, must be present for the bond to restore. return an error if it
+		// doesn't exist
+		tableSSTs, err := dumpedSSTs(filepath.Join(path, fmt.Sprintf("table_%d", table)))
 		if err != nil {
 			return err
 		}
-	}
+		ssts = append(ssts, tableSSTs...)
 
-	// ingest the required sst file.
-	ssts := []string{}
-	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
-		if info.IsDir() {
-			return nil
-		}
-		if filepath.Ext(path) != ".sst" {
-			return nil
-		}
-		// filter only relevant tables.
-		filter := true
-		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
-				filter = false
-				break
+		for index := 1; withIndex && index <= math.MaxUint8; index++ {
+			indexSSTs, err := dumpedSSTs(filepath.Join(path, fmt.Sprintf("table_%d_index_%d", table, index)))
+			if os.IsNotExist(err) {
+				continue
 			}
+			if err != nil {
+				return err
+			}
+			ssts = append(ssts, indexSSTs...)
 		}
+	}
+	return db.pebble.Ingest(ssts)
+}
 
-		if filter {
-			return nil
-		}
+// dumpedSSTs returns the files of one dumped table or index.
+func dumpedSSTs(dir string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
 
-		if !strings.Contains(path, "index") {
-			ssts = append(ssts, path)
-			return nil
-		}
-		if withIndex {
-			ssts = append(ssts, path)
+	ssts := []string{}
+	for _, entry := range entries {
+		if !entry.IsDir() && filepath.Ext(entry.Name()) == ".sst" {
+			ssts = append(ssts, filepath.Join(dir, entry.Name()))
 		}
-		return nil
-	})
-	if err != nil {
-		return err
 	}
-	return db.pebble.Ingest(ssts)
+
+	// there is one even if there are no rows, and none after the dump was restored
+	if len(ssts) == 0 {
+		return nil, fmt.Errorf("no files to restore in %s", dir)
+	}
+	return ssts, nil
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
-- 
2.43.0


From d389a8ac9315733488157561cc5458056b2f7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 30/41] fix: fail the command line tool when a dump or restore
 fails and close the database

---
 cmd/bond-cli/bond-cli.go |  1 +
 cmd/bond-cli/dump.go     | 27 +++++++++++++++++++++++----
 cmd/bond-cli/restore.go  | 12 ++++++++----
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/cmd/bond-cli/bond-cli.go b/cmd/bond-cli/bond-cli.go
index 39bf89a..148a2d3 100644
--- a/cmd/bond-cli/bond-cli.go
+++ b/cmd/bond-cli/bond-cli.go
@@ -21,5 +21,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		_, _ = fmt.Fprintf(os.Stderr, "[Error] %s\n", err.Error())
+		os.Exit(1)
 	}
 }
diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 03c27f2..2c88835 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -1,6 +1,9 @@
 package main
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/go-bond/bond"
 	"github.com/urfave/cli/v2"
 )
@@ -42,15 +45,31 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
+			tables, err := tableIDs(ctx)
+			if err != nil {
+				return err
+			}
 			db, err := bond.Open(ctx.String("bond-dir"), nil)
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			err = db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
+			if errClose := db.Close(); err == nil {
+				err = errClose
 			}
-			return db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
+			return err
 		},
 	}
 }
+
+// tableIDs returns the tables given with the flag.
+func tableIDs(ctx *cli.Context) ([]bond.TableID, error) {
+	var tables []bond.TableID
+	for _, id := range ctx.IntSlice(_FlagExportTables.Name) {
+		if id < 0 || id > math.MaxUint8 {
+			return nil, fmt.Errorf("table id %d is out of range", id)
+		}
+		tables = append(tables, bond.TableID(id))
+	}
+	return tables, nil
+}
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 77283b9..e89ee92 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -18,15 +18,19 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
+			tables, err := tableIDs(ctx)
+			if err != nil {
+				return err
+			}
 			db, err := bond.Open(ctx.String("bond-dir"), nil)
 			if err != nil {
 				return err
 			}
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
+			err = db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
+			if errClose := db.Close(); err == nil {
+				err = errClose
 			}
-			return db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
+			return err
 		},
 	}
 }
-- 
2.43.0


From 6a2ea0cca4040b0c6e092d828c03911b0769bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 31/41] fix: refuse what can't be opened without recording it
 or leaving it open and write the format file at once

---
 bond.go    | 52 ++++++++++++++++++++++++++++++++++------------------
 version.go | 31 ++++++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/bond.go b/bond.go
index 9350303..9a9fac4 100644
--- a/bond.go
+++ b/bond.go
@@ -167,15 +167,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, err
 	}
 
-	if err != nil && os.IsNotExist(err) {
-		// create version for to check invariant in the
-		// next open.
-		if err := os.WriteFile(pebbelVersionPath,
-			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
-			os.ModePerm); err != nil {
-			return nil, err
-		}
-	} else {
+	newVersionFile := os.IsNotExist(err)
+	if !newVersionFile {
 		existingVersion, err := strconv.ParseUint(string(version), 10, 64)
 		if err != nil {
 			return nil, err
@@ -218,12 +211,15 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
-		if err := db.initVersion(); err != nil {
-			return nil, err
-		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	err = db.checkVersion()
+	if err == nil && newVersionFile {
+		// create version for to check invariant in the
+		// next open.
+		err = writePebbleFormatFile(pebbelVersionPath, uint64(opts.PebbleOptions.FormatMajorVersion))
+	}
+	if err != nil {
+		_ = pdb.Close()
+		return nil, err
 	}
 
 	return db, nil
@@ -624,12 +620,32 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
-	versionFile, err := os.OpenFile(filepath.Join(dir, "bond", PebbleFormatFile), os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	return writePebbleFormatFile(filepath.Join(dir, "bond", PebbleFormatFile), upgradeVersion)
+}
+
+// writePebbleFormatFile replaces the file at once, a partially written one would
+// make it impossible to open the database.
+func writePebbleFormatFile(path string, version uint64) error {
+	tempFile, err := os.CreateTemp(filepath.Dir(path), PebbleFormatFile)
 	if err != nil {
 		return err
 	}
 
-	defer versionFile.Close()
-	_, err = versionFile.Write([]byte(fmt.Sprintf("%d", upgradeVersion)))
+	_, err = tempFile.WriteString(fmt.Sprintf("%d", version))
+	if err == nil {
+		err = tempFile.Chmod(0755)
+	}
+	if err == nil {
+		err = tempFile.Sync()
+	}
+	if errClose := tempFile.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tempFile.Name(), path)
+	}
+	if err != nil {
+		_ = os.Remove(tempFile.Name())
+	}
 	return err
 }
diff --git a/version.go b/version.go
index f8f4db1..60a00dc 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,14 +14,38 @@ const (
 )
 
 func (db *_db) Version() int {
+	ver, _ := db.readVersion()
+	return ver
+}
+
+// readVersion returns 0 if there is no version stored.
+func (db *_db) readVersion() (int, error) {
 	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	if errors.Is(err, pebble.ErrNotFound) {
+		return 0, nil
+	}
 	if err != nil {
-		return 0
+		return 0, err
 	}
 	defer func() { _ = closer.Close() }()
 
-	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	ver, err := strconv.ParseInt(string(value), 10, 32)
+	return int(ver), err
+}
+
+func (db *_db) checkVersion() error {
+	ver, err := db.readVersion()
+	if err != nil {
+		return fmt.Errorf("failed to read bond db version: %w", err)
+	}
+
+	if ver == 0 {
+		return db.initVersion()
+	}
+	if ver != BOND_DB_DATA_VERSION {
+		return fmt.Errorf("bond db version is %d but expecting %d", ver, BOND_DB_DATA_VERSION)
+	}
+	return nil
 }
 
 func (db *_db) initVersion() error {
-- 
2.43.0


From 10be012f149ab4ebb72007d86c34cdb67928b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 32/41] fix: release the table cache of the default options
 with the database

---
 bond.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index 9a9fac4..8da3222 100644
--- a/bond.go
+++ b/bond.go
@@ -135,11 +135,13 @@ type _db struct {
 
 func Open(dirname string, opts *Options) (DB, error) {
 	if opts == nil {
-		opts = DefaultOptions()
+		opts = &Options{Serializer: &serializers.CBORSerializer{}}
 	}
 
 	if opts.PebbleOptions == nil {
-		opts.PebbleOptions = DefaultPebbleOptions()
+		opts = &Options{PebbleOptions: DefaultPebbleOptions(), Serializer: opts.Serializer}
+		// the open database keeps its own reference
+		defer func() { _ = opts.PebbleOptions.TableCache.Unref() }()
 	}
 
 	// expand the path if it is not absolute
@@ -607,6 +609,8 @@ func PebbleFormatVersion(dir string) (uint64, error) {
 func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	opt := DefaultPebbleOptions()
 	opt.FormatMajorVersion = pebble.FormatMajorVersion(upgradeVersion)
+	// the open database keeps its own reference
+	defer func() { _ = opt.TableCache.Unref() }()
 
 	// expand the path if it is not absolute
 	dir, err := filepath.Abs(dir)
-- 
2.43.0


From 148ab45d43328d4f9a90c746664763e878466047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 33/41] fix: inspect tables of value types and refuse unknown
 fields and values that don't fit

---
 inspect/inspect.go                | 155 ++++++++++++++++++++++++------
 inspect/inspect_cli.go            |   6 +-
 inspect/inspect_handler.go        |  14 ++-
 inspect/inspect_handler_client.go |   1 +
 4 files changed, 145 insertions(+), 31 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..417a5bd 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -2,7 +2,9 @@ package inspect
 
 import (
 	"context"
+	"encoding/json"
 	"fmt"
+	"math/big"
 	"reflect"
 
 	"github.com/fatih/structs"
@@ -89,7 +91,15 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 	queryEvalFuncType := queryValue.Interface().(queryEvalTypeFuncInterface).CondFuncType()
 
-	if indexInfo.Name() != bond.PrimaryIndexName {
+	// entryArg gives the entry as the table takes it
+	entryArg := func(entry reflect.Value) reflect.Value {
+		if tableInfo.EntryType().Kind() != reflect.Ptr {
+			return entry.Elem()
+		}
+		return entry
+	}
+
+	if indexInfo.Name() != bond.PrimaryIndexName || len(indexSelector) > 0 {
 		indexValue := reflect.ValueOf(indexInfo)
 		indexSelectorValue := utils.MakeValue(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
@@ -98,35 +108,25 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 		}
 
 		selectorPoint := utils.MakeValue(tableInfo.SelectorPointType())
-		selectorPoint.MethodByName("SetPoint").Call([]reflect.Value{indexSelectorValue})
+		selectorPoint.MethodByName("SetPoint").Call([]reflect.Value{entryArg(indexSelectorValue)})
 
 		queryValue = queryValue.MethodByName("With").Call([]reflect.Value{indexValue, selectorPoint})[0]
 	}
 
 	if filter != nil {
+		filter, err = convertFilter(tableInfo.EntryType(), filter)
+		if err != nil {
+			return nil, err
+		}
+
 		filterFuncType := reflect.FuncOf([]reflect.Type{tableInfo.EntryType()}, []reflect.Type{reflect.TypeOf(false)}, false)
 		filterFunc := reflect.MakeFunc(filterFuncType, func(args []reflect.Value) (results []reflect.Value) {
 			ret := true
 			row := structs.Map(args[0].Interface())
 
 			for filterField, filterInterface := range filter {
-				fv := reflect.ValueOf(filterInterface)
-				if rowInterface, ok := row[filterField]; ok {
-					rv := reflect.ValueOf(rowInterface)
-					if fv.Kind() != rv.Kind() {
-						if fv.CanConvert(rv.Type()) {
-							filterInterface = fv.Convert(rv.Type()).Interface()
-						} else {
-							ret = false
-							break
-						}
-					}
-
-					if !reflect.DeepEqual(filterInterface, rowInterface) {
-						ret = false
-						break
-					}
-				} else {
+				rowInterface, ok := row[filterField]
+				if !ok || !reflect.DeepEqual(filterInterface, rowInterface) {
 					ret = false
 					break
 				}
@@ -150,7 +150,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 			return nil, err
 		}
 
-		queryValue = queryValue.MethodByName("After").Call([]reflect.Value{afterValue})[0]
+		queryValue = queryValue.MethodByName("After").Call([]reflect.Value{entryArg(afterValue)})[0]
 	}
 
 	execValues := queryValue.MethodByName("Execute").Call(
@@ -213,15 +213,14 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	for fieldNameToSet, valueToSetInterface := range toSet {
 		fields := structs.Map(val.Interface())
 		if _, ok := fields[fieldNameToSet]; ok {
-			vt := reflect.ValueOf(valueToSetInterface)
 			vv := val.FieldByName(fieldNameToSet)
+			if !vv.IsValid() {
+				return fmt.Errorf("field '%s' not found", fieldNameToSet)
+			}
 
-			if vt.Kind() != vv.Kind() {
-				if vt.CanConvert(vv.Type()) {
-					vt = vt.Convert(vv.Type())
-				} else {
-					return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
-				}
+			vt, err := convertValue(valueToSetInterface, vv.Type())
+			if err != nil {
+				return err
 			}
 
 			vv.Set(vt)
@@ -232,3 +231,105 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 
 	return nil
 }
+
+// convertFilter gives the filter with every value in the type the field has in the map of an entry.
+func convertFilter(entryType reflect.Type, filter map[string]interface{}) (map[string]interface{}, error) {
+	fields := structs.Map(utils.MakeValue(entryType).Interface())
+
+	converted := make(map[string]interface{}, len(filter))
+	for fieldName, value := range filter {
+		field, ok := fields[fieldName]
+		if !ok {
+			return nil, fmt.Errorf("field '%s' not found", fieldName)
+		}
+
+		if fieldType := reflect.TypeOf(field); fieldType != nil {
+			fieldValue, err := convertValue(value, fieldType)
+			if err != nil {
+				return nil, err
+			}
+			value = fieldValue.Interface()
+		}
+		converted[fieldName] = value
+	}
+	return converted, nil
+}
+
+// convertValue gives the value in the type of a field, or an error if the field can't hold exactly that value.
+func convertValue(value interface{}, typ reflect.Type) (reflect.Value, error) {
+	if value == nil {
+		switch typ.Kind() {
+		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface:
+			return reflect.Zero(typ), nil
+		}
+		return reflect.Value{}, fmt.Errorf("field type mismatch nil != %s", typ.Kind().String())
+	}
+
+	v := reflect.ValueOf(value)
+	if v.Type().AssignableTo(typ) {
+		return v.Convert(typ), nil
+	}
+
+	_, isJSONNumber := value.(json.Number)
+	if isNumeric(typ.Kind()) {
+		if number, ok := numberOf(value); ok {
+			ret := reflect.New(typ).Elem()
+			if !setNumber(ret, number) {
+				return reflect.Value{}, fmt.Errorf("value %v does not fit %s", value, typ.Kind().String())
+			}
+			return ret, nil
+		}
+	} else if !isJSONNumber && !isNumeric(v.Kind()) && typ.Kind() != reflect.Array && v.CanConvert(typ) {
+		return v.Convert(typ), nil
+	}
+
+	return reflect.Value{}, fmt.Errorf("field type mismatch %s != %s", v.Kind().String(), typ.Kind().String())
+}
+
+func isNumeric(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Float64
+}
+
+// numberOf gives the exact value of a finite number.
+func numberOf(value interface{}) (*big.Rat, bool) {
+	if number, ok := value.(json.Number); ok {
+		if _, err := number.Float64(); err != nil {
+			return nil, false
+		}
+		return new(big.Rat).SetString(number.String())
+	}
+
+	switch v := reflect.ValueOf(value); {
+	case v.CanInt():
+		return new(big.Rat).SetInt64(v.Int()), true
+	case v.CanUint():
+		return new(big.Rat).SetInt(new(big.Int).SetUint64(v.Uint())), true
+	case v.CanFloat():
+		number := new(big.Rat).SetFloat64(v.Float())
+		return number, number != nil
+	}
+	return nil, false
+}
+
+// setNumber sets the number; integers must be exact and floats are rounded to the nearest.
+func setNumber(to reflect.Value, number *big.Rat) bool {
+	switch {
+	case to.CanInt():
+		if !number.IsInt() || !number.Num().IsInt64() || to.OverflowInt(number.Num().Int64()) {
+			return false
+		}
+		to.SetInt(number.Num().Int64())
+	case to.CanUint():
+		if !number.IsInt() || !number.Num().IsUint64() || to.OverflowUint(number.Num().Uint64()) {
+			return false
+		}
+		to.SetUint(number.Num().Uint64())
+	default:
+		float, _ := number.Float64()
+		if to.OverflowFloat(float) {
+			return false
+		}
+		to.SetFloat(float)
+	}
+	return true
+}
diff --git a/inspect/inspect_cli.go b/inspect/inspect_cli.go
index ed0fcf5..37b8a75 100644
--- a/inspect/inspect_cli.go
+++ b/inspect/inspect_cli.go
@@ -194,7 +194,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var indexSelector map[string]interface{}
 					if indexSelectorStr := ctx.String(_FlagIndexSelector.Name); indexSelectorStr != "" {
-						err = json.Unmarshal([]byte(indexSelectorStr), &indexSelector)
+						err = unmarshalExact([]byte(indexSelectorStr), &indexSelector)
 						if err != nil {
 							return err
 						}
@@ -202,7 +202,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var filter map[string]interface{}
 					if filterStr := ctx.String(_FlagFilter.Name); filterStr != "" {
-						err = json.Unmarshal([]byte(filterStr), &filter)
+						err = unmarshalExact([]byte(filterStr), &filter)
 						if err != nil {
 							return err
 						}
@@ -210,7 +210,7 @@ func NewInspectCLI(init func(path string) (Inspect, error)) *cli.Command {
 
 					var after map[string]interface{}
 					if afterStr := ctx.String(_FlagAfter.Name); afterStr != "" {
-						err = json.Unmarshal([]byte(afterStr), &after)
+						err = unmarshalExact([]byte(afterStr), &after)
 						if err != nil {
 							return err
 						}
diff --git a/inspect/inspect_handler.go b/inspect/inspect_handler.go
index ee0ba20..f14c542 100644
--- a/inspect/inspect_handler.go
+++ b/inspect/inspect_handler.go
@@ -1,6 +1,7 @@
 package inspect
 
 import (
+	"bytes"
 	"encoding/json"
 	"io/ioutil"
 	"net/http"
@@ -199,7 +200,7 @@ func buildQueryHandler(inspect Inspect) http.HandlerFunc {
 		}
 
 		var req requestQuery
-		err = json.Unmarshal(data, &req)
+		err = unmarshalExact(data, &req)
 		if err != nil {
 			writeErrorResponse(response, http.StatusInternalServerError, err)
 			return
@@ -227,6 +228,17 @@ func buildQueryHandler(inspect Inspect) http.HandlerFunc {
 	}
 }
 
+// unmarshalExact unmarshals keeping the numbers of maps exact, whatever their size.
+func unmarshalExact(data []byte, v interface{}) error {
+	if !json.Valid(data) {
+		return json.Unmarshal(data, v)
+	}
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode(v)
+}
+
 func writeResponse(response http.ResponseWriter, status int, data []byte) {
 	response.WriteHeader(status)
 	_, _ = response.Write(data)
diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..3dc603b 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -150,6 +150,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
-- 
2.43.0


From 600a3f99f7d43dfb0a563f0244669c73a5f7bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 34/41] fix: ignore empty ranges when looking for overlapping
 parts of a selector

---
 index.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 3459172..187d163 100644
--- a/index.go
+++ b/index.go
@@ -312,7 +312,13 @@ func partsAfter(parts []*IterOptions, key []byte, reverse bool) []*IterOptions {
 }
 
 func partsOverlap(parts []*IterOptions) bool {
-	sorted := append([]*IterOptions{}, parts...)
+	sorted := make([]*IterOptions, 0, len(parts))
+	for _, part := range parts {
+		// a range that ends before it starts is empty
+		if bytes.Compare(part.LowerBound, part.UpperBound) < 0 {
+			sorted = append(sorted, part)
+		}
+	}
 	sort.Slice(sorted, func(i, j int) bool {
 		return bytes.Compare(sorted[i].LowerBound, sorted[j].LowerBound) < 0
 	})
-- 
2.43.0


From f3efa1d379c2fac014a04f6057f3451a2f7e0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 35/41] fix: a cancelled context stops an intersection while it
 reads the rows

---
 query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query.go b/query.go
index 2cabb08..158b577 100644
--- a/query.go
+++ b/query.go
@@ -321,6 +321,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 
 	var records = make([]T, 0)
 	for _, value := range values {
+		select {
+		case <-ctx.Done():
+			return nil, fmt.Errorf("context done: %w", ctx.Err())
+		default:
+		}
+
 		var record T
 		err = q.table.Serializer().Deserialize(value, &record)
 		if err != nil {
-- 
2.43.0


From 325ac51340d490e783869710bfdc34de06eb1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 36/41] fix: msgpack-gen serializer reports nil values instead
 of panicking

---
 serializers/msgp_gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index 2e6c4a5..ba05e0d 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -16,8 +16,8 @@ type MsgpackGenSerializer struct {
 func (m *MsgpackGenSerializer) Serialize(i interface{}) ([]byte, error) {
 	e, ok := i.(msgp.Encodable)
 	if !ok {
-		if typ := reflect.TypeOf(i); typ.Kind() == reflect.Ptr {
-			i := reflect.ValueOf(i).Elem().Interface()
+		if v := reflect.ValueOf(i); v.Kind() == reflect.Ptr && !v.IsNil() {
+			i := v.Elem().Interface()
 			e, ok = i.(msgp.Encodable)
 			if !ok {
 				return nil, fmt.Errorf("interface does not implement msgp.Encodable")
@@ -40,8 +40,8 @@ func (m *MsgpackGenSerializer) Serialize(i interface{}) ([]byte, error) {
 func (m *MsgpackGenSerializer) SerializerWithCloseable(i interface{}) ([]byte, func(), error) {
 	e, ok := i.(msgp.Encodable)
 	if !ok {
-		if typ := reflect.TypeOf(i); typ.Kind() == reflect.Ptr {
-			i := reflect.ValueOf(i).Elem().Interface()
+		if v := reflect.ValueOf(i); v.Kind() == reflect.Ptr && !v.IsNil() {
+			i := v.Elem().Interface()
 			e, ok = i.(msgp.Encodable)
 			if !ok {
 				return nil, nil, fmt.Errorf("interface does not implement msgp.Encodable")
-- 
2.43.0


From 8ca9d5f5859dd4cb6886d038009254b2f2785209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 37/41] fix: batches created while a second's identifiers are
 exhausted get unique identifiers

---
 batch.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/batch.go b/batch.go
index 3f78517..c668598 100644
--- a/batch.go
+++ b/batch.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"fmt"
 	"io"
+	"time"
 
 	"github.com/cockroachdb/pebble"
 )
@@ -55,8 +56,18 @@ type _batch struct {
 	onClose              []func(b Batch)
 }
 
+// nextBatchID waits when the identifiers of a second are exhausted.
+func nextBatchID() uint64 {
+	for {
+		if id, err := sequenceId.Next(); err == nil {
+			return id
+		}
+		time.Sleep(time.Millisecond)
+	}
+}
+
 func newBatch(db *_db, indexed bool) Batch {
-	id, _ := sequenceId.Next()
+	id := nextBatchID()
 	if indexed {
 		return &_batch{
 			Batch: db.pebble.NewIndexedBatch(),
@@ -83,7 +94,7 @@ func (b *_batch) Type() BatchType {
 func (b *_batch) Reset() {
 	b.Batch.Reset()
 
-	b.id, _ = sequenceId.Next()
+	b.id = nextBatchID()
 
 	b.onCommitCallbacks = nil
 	b.onCommittedCallbacks = nil
-- 
2.43.0


From ead101ca12f9c6eeb637041d3408a23e1a03e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 38/41] fix: closing a batch again does nothing

---
 batch.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index c668598..7122adb 100644
--- a/batch.go
+++ b/batch.go
@@ -48,7 +48,8 @@ type Batch interface {
 type _batch struct {
 	*pebble.Batch
 
-	id uint64
+	id     uint64
+	closed bool
 
 	onCommitCallbacks    []func(b Batch) error
 	onCommittedCallbacks []func(b Batch)
@@ -164,6 +165,12 @@ func (b *_batch) Commit(opt WriteOptions) error {
 }
 
 func (b *_batch) Close() error {
+	// the batch below may serve someone else already
+	if b.closed {
+		return nil
+	}
+	b.closed = true
+
 	b.notifyOnClose()
 
 	err := b.Batch.Close()
-- 
2.43.0


From b60d64a25b7d891dba020f76291202056989575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 39/41] fix: inspect takes the largest float32 given in decimal

---
 inspect/inspect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 417a5bd..2551b6b 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 
@@ -326,7 +327,10 @@ func setNumber(to reflect.Value, number *big.Rat) bool {
 		to.SetUint(number.Num().Uint64())
 	default:
 		float, _ := number.Float64()
-		if to.OverflowFloat(float) {
+		if to.Kind() == reflect.Float32 {
+			float = float64(float32(float))
+		}
+		if math.IsInf(float, 0) {
 			return false
 		}
 		to.SetFloat(float)
-- 
2.43.0


From 037b9e45d2da1e44be5d9ce96b9c977a24e9d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 40/41] fix: rebuilding the primary index is refused instead of
 deleting the rows

---
 table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/table.go b/table.go
index 597ba3e..7719f60 100644
--- a/table.go
+++ b/table.go
@@ -268,6 +268,13 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 }
 
 func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
+	// its entries are the rows themselves
+	for _, idx := range idxs {
+		if idx.IndexID == PrimaryIndexID {
+			return fmt.Errorf("primary index can not be rebuilt")
+		}
+	}
+
 	for _, idx := range idxs {
 		start, end := indexKeySpace(t.id, idx.IndexID)
 		err := t.db.DeleteRange(start, end, Sync)
-- 
2.43.0


From 3caa08b5c1ce9ad0f63775fae66890a363a98d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 41/41] fix: the type-erased scanner takes type-erased
 selectors instead of crashing

---
 table_utils.go | 68 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 0571551..eca5465 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -1,6 +1,9 @@
 package bond
 
-import "context"
+import (
+	"context"
+	"fmt"
+)
 
 type _tableAnyScanner struct {
 	scan             func(ctx context.Context, tr *[]any, reverse bool, optBatch ...Batch) error
@@ -63,7 +66,12 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 				},
 			})
 
-			err := scanner.ScanIndex(ctx, iAny, s.(Selector[T]), &ttr, reverse, optBatch...)
+			sel, err := selectorFromAny[T](s)
+			if err != nil {
+				return err
+			}
+
+			err = scanner.ScanIndex(ctx, iAny, sel, &ttr, reverse, optBatch...)
 			if err != nil {
 				return err
 			}
@@ -104,7 +112,12 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 				},
 			})
 
-			return scanner.ScanIndexForEach(ctx, iAny, s.(Selector[T]), func(keyBytes KeyBytes, l Lazy[T]) (bool, error) {
+			sel, err := selectorFromAny[T](s)
+			if err != nil {
+				return err
+			}
+
+			return scanner.ScanIndexForEach(ctx, iAny, sel, func(keyBytes KeyBytes, l Lazy[T]) (bool, error) {
 				return f(keyBytes, Lazy[any]{
 					GetFunc: func() (any, error) {
 						return l.Get()
@@ -114,3 +127,52 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 		},
 	}
 }
+
+// selectorFromAny returns the selector with its rows in the type of the table.
+func selectorFromAny[T any](s Selector[any]) (Selector[T], error) {
+	switch sel := s.(type) {
+	case SelectorPoint[any]:
+		points, err := rowsFromAny[T](sel.Point())
+		if err != nil {
+			return nil, err
+		}
+		return NewSelectorPoint(points[0]), nil
+	case SelectorPoints[any]:
+		points, err := rowsFromAny[T](sel.Points()...)
+		if err != nil {
+			return nil, err
+		}
+		return NewSelectorPoints(points...), nil
+	case SelectorRange[any]:
+		start, end := sel.Range()
+		bounds, err := rowsFromAny[T](start, end)
+		if err != nil {
+			return nil, err
+		}
+		return NewSelectorRange(bounds[0], bounds[1]), nil
+	case SelectorRanges[any]:
+		var ranges [][]T
+		for _, r := range sel.Ranges() {
+			bounds, err := rowsFromAny[T](r...)
+			if err != nil {
+				return nil, err
+			}
+			ranges = append(ranges, bounds)
+		}
+		return NewSelectorRanges(ranges...), nil
+	default:
+		return s.(Selector[T]), nil
+	}
+}
+
+func rowsFromAny[T any](rows ...any) ([]T, error) {
+	trs := make([]T, 0, len(rows))
+	for _, row := range rows {
+		tr, ok := row.(T)
+		if !ok {
+			return nil, fmt.Errorf("selector with %T passed to a table of %T", row, tr)
+		}
+		trs = append(trs, tr)
+	}
+	return trs, nil
+}
-- 
2.43.0

