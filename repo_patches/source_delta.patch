From e530ba19b86f53173f7974491bac21468fdbd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 01/36] fix: MultiGet panicked on any non-empty list of keys

---
 store/multiget.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..f705010 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -20,13 +20,13 @@ package store
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
 	vals := make([][]byte, 0, len(keys))
 
-	for i, key := range keys {
+	for _, key := range keys {
 		val, err := kvreader.Get(key)
 		if err != nil {
 			return nil, err
 		}
 
-		vals[i] = val
+		vals = append(vals, val)
 	}
 
 	return vals, nil
-- 
2.43.0


From 46c8e46cfa9a6559d35609c7748966f8df6dbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 02/36] fix: batch merges retained the value buffer of the
 caller

---
 store/batch.go | 4 ----
 store/merge.go | 9 ++++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..cb74e7c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -46,10 +46,6 @@ func (b *EmulatedBatch) Delete(key []byte) {
 }
 
 func (b *EmulatedBatch) Merge(key, val []byte) {
-	ck := make([]byte, len(key))
-	copy(ck, key)
-	cv := make([]byte, len(val))
-	copy(cv, val)
 	b.Merger.Merge(key, val)
 }
 
diff --git a/store/merge.go b/store/merge.go
index ca2561b..e7a34b2 100644
--- a/store/merge.go
+++ b/store/merge.go
@@ -46,19 +46,22 @@ func NewEmulatedMerge(mo MergeOperator) *EmulatedMerge {
 }
 
 func (m *EmulatedMerge) Merge(key, val []byte) {
+	// the caller may reuse val as soon as the batch call returns
+	cv := make([]byte, len(val))
+	copy(cv, val)
 	ops, ok := m.Merges[string(key)]
 	if ok && len(ops) > 0 {
 		last := ops[len(ops)-1]
-		mergedVal, partialMergeOk := m.mo.PartialMerge(key, last, val)
+		mergedVal, partialMergeOk := m.mo.PartialMerge(key, last, cv)
 		if partialMergeOk {
 			// replace last entry with the result of the merge
 			ops[len(ops)-1] = mergedVal
 		} else {
 			// could not partial merge, append this to the end
-			ops = append(ops, val)
+			ops = append(ops, cv)
 		}
 	} else {
-		ops = [][]byte{val}
+		ops = [][]byte{cv}
 	}
 	m.Merges[string(key)] = ops
 }
-- 
2.43.0


From 7a3f37d68702a2640aa38fd6f6a8cc619d17f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 03/36] fix: resetting an emulated batch kept its merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index cb74e7c..e726379 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -51,6 +51,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From 9e8dacdcb142ae1adb67810a60bd8b21988eb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 04/36] fix: a failed merge left the gtreap store locked and
 half written

---
 store/gtreap/writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..1fc9b85 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,28 +44,32 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	// the batch is built on a private root, published only once it is complete
+	t := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
-		existingItem := w.s.t.Get(&Item{k: kb})
+		existingItem := t.Get(&Item{k: kb})
 		if existingItem != nil {
-			existingVal = w.s.t.Get(&Item{k: kb}).(*Item).v
+			existingVal = existingItem.(*Item).v
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		t = t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
 		if op.V != nil {
-			w.s.t = w.s.t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
+			t = t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
 		} else {
-			w.s.t = w.s.t.Delete(&Item{k: op.K})
+			t = t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
+	w.s.t = t
 
 	return nil
 }
-- 
2.43.0


From d5ed2829a4ed895447cfce8a96252135fa581c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 05/36] fix: the badger writer committed failed batches and
 ignored errors

---
 store/badger/writer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..9e8e435 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -31,16 +32,20 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
-	defer (func() {
-		txn.Commit()
-	})()
+	// does nothing once the transaction has been committed
+	defer txn.Discard()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
+		var existingVal []byte
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+		} else if err == badger.ErrKeyNotFound {
+			err = nil
+		}
+		if err != nil {
+			return err
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
@@ -66,7 +71,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		}
 	}
 
-	return nil
+	return txn.Commit()
 }
 
 // Close closes the current writer
-- 
2.43.0


From e30332001a160a38a5da2d92dfca48b9142f3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 06/36] fix: badger Get reported failures and empty values as
 absent keys

---
 store/badger/reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..9fe3e44 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,10 +15,14 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound || err == badger.ErrEmptyKey {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	// copying into a non-nil slice keeps an empty value distinct from an absent key
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From ffa7aeb7cfa48da010d14baaa03a30f556ea421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 07/36] fix: exhausted boltdb iterators exposed out of bounds
 entries and came back to life

---
 store/boltdb/iterator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/iterator.go b/store/boltdb/iterator.go
index 82ab946..d74bfd8 100644
--- a/store/boltdb/iterator.go
+++ b/store/boltdb/iterator.go
@@ -41,6 +41,10 @@ func (i *Iterator) updateValid() {
 			i.valid = bytes.Compare(i.key, i.end) < 0
 		}
 	}
+	if !i.valid {
+		// an entry out of bounds is never exposed
+		i.key, i.val = nil, nil
+	}
 }
 
 func (i *Iterator) Seek(k []byte) {
@@ -51,7 +55,8 @@ func (i *Iterator) Seek(k []byte) {
 		if bytes.Compare(k, i.prefix) < 0 {
 			k = i.prefix
 		} else {
-			i.valid = false
+			i.key, i.val = nil, nil
+			i.updateValid()
 			return
 		}
 	}
@@ -60,6 +65,9 @@ func (i *Iterator) Seek(k []byte) {
 }
 
 func (i *Iterator) Next() {
+	if !i.valid {
+		return
+	}
 	i.key, i.val = i.cursor.Next()
 	i.updateValid()
 }
-- 
2.43.0


From 929ff6e687ac02826a2bbd656d46c9709abb7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 08/36] fix: exhausted badger iterators panicked or walked past
 their bounds

---
 store/badger/prefix_iterator.go | 10 +++++++++-
 store/badger/range_iterator.go  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/store/badger/prefix_iterator.go b/store/badger/prefix_iterator.go
index cbd2f61..5ad4b0e 100644
--- a/store/badger/prefix_iterator.go
+++ b/store/badger/prefix_iterator.go
@@ -23,7 +23,9 @@ func (i *PrefixIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *PrefixIterator) Next() {
-	i.iterator.Next()
+	if i.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
@@ -36,11 +38,17 @@ func (i *PrefixIterator) Current() ([]byte, []byte, bool) {
 
 // Key return the key of the current step
 func (i *PrefixIterator) Key() []byte {
+	if !i.Valid() {
+		return nil
+	}
 	return i.iterator.Item().KeyCopy(nil)
 }
 
 // Value returns the value of the current step
 func (i *PrefixIterator) Value() []byte {
+	if !i.Valid() {
+		return nil
+	}
 	v, _ := i.iterator.Item().ValueCopy(nil)
 	return v
 }
diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index c3eb153..288fb69 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -24,7 +24,9 @@ func (i *RangeIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *RangeIterator) Next() {
-	i.iterator.Next()
+	if i.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
@@ -37,11 +39,17 @@ func (i *RangeIterator) Current() ([]byte, []byte, bool) {
 
 // Key return the key of the current step
 func (i *RangeIterator) Key() []byte {
+	if !i.Valid() {
+		return nil
+	}
 	return i.iterator.Item().KeyCopy(nil)
 }
 
 // Value returns the value of the current step
 func (i *RangeIterator) Value() []byte {
+	if !i.Valid() {
+		return nil
+	}
 	v, _ := i.iterator.Item().ValueCopy(nil)
 
 	return v
-- 
2.43.0


From eb243d2d051a22a2d2178933a11a3593071f04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 09/36] fix: badger range iterators took an empty end for no
 end

---
 store/badger/range_iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index 288fb69..34cf89f 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -61,7 +61,7 @@ func (i *RangeIterator) Valid() bool {
 		return false
 	}
 
-	if i.stop == nil || len(i.stop) == 0 {
+	if i.stop == nil {
 		return true
 	}
 
-- 
2.43.0


From 28ab455ac22b9e3f65b41e7b10fa9694cbff1d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 10/36] fix: badger iterators dropped the errors met while
 reading values

---
 store/badger/prefix_iterator.go |  9 +++++++--
 store/badger/range_iterator.go  | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/store/badger/prefix_iterator.go b/store/badger/prefix_iterator.go
index 5ad4b0e..d2b55f6 100644
--- a/store/badger/prefix_iterator.go
+++ b/store/badger/prefix_iterator.go
@@ -10,6 +10,8 @@ import (
 type PrefixIterator struct {
 	iterator *badger.Iterator
 	prefix   []byte
+	// first failed read of a value, returned by Close
+	err error
 }
 
 // Seek advance the iterator to the specified key
@@ -49,7 +51,10 @@ func (i *PrefixIterator) Value() []byte {
 	if !i.Valid() {
 		return nil
 	}
-	v, _ := i.iterator.Item().ValueCopy(nil)
+	v, err := i.iterator.Item().ValueCopy(nil)
+	if err != nil && i.err == nil {
+		i.err = err
+	}
 	return v
 }
 
@@ -61,5 +66,5 @@ func (i *PrefixIterator) Valid() bool {
 // Close closes the current iterator and commit its transaction
 func (i *PrefixIterator) Close() error {
 	i.iterator.Close()
-	return nil
+	return i.err
 }
diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index 34cf89f..8ba3042 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -11,6 +11,8 @@ type RangeIterator struct {
 	iterator *badger.Iterator
 	start    []byte
 	stop     []byte
+	// first failed read of a value, returned by Close
+	err error
 }
 
 // Seek advance the iterator to the specified key
@@ -50,8 +52,10 @@ func (i *RangeIterator) Value() []byte {
 	if !i.Valid() {
 		return nil
 	}
-	v, _ := i.iterator.Item().ValueCopy(nil)
-
+	v, err := i.iterator.Item().ValueCopy(nil)
+	if err != nil && i.err == nil {
+		i.err = err
+	}
 	return v
 }
 
@@ -74,5 +78,5 @@ func (i *RangeIterator) Valid() bool {
 // Close closes the current iterator and commit its transaction
 func (i *RangeIterator) Close() error {
 	i.iterator.Close()
-	return nil
+	return i.err
 }
-- 
2.43.0


From 726f8fabeaa6579a2c4bad00db42f73793fc83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 11/36] fix: stepping a closed gtreap iterator blocked forever,
 and raced with other calls

---
 store/gtreap/iterator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/store/gtreap/iterator.go b/store/gtreap/iterator.go
index 092ccf2..89594ee 100644
--- a/store/gtreap/iterator.go
+++ b/store/gtreap/iterator.go
@@ -97,9 +97,12 @@ func (w *Iterator) restart(start *Item) *Iterator {
 
 func (w *Iterator) Next() {
 	w.m.Lock()
-	nextCh := w.nextCh
-	w.m.Unlock()
-	w.curr, w.currOk = <-nextCh
+	defer w.m.Unlock()
+	if w.nextCh == nil {
+		// closed
+		return
+	}
+	w.curr, w.currOk = <-w.nextCh
 }
 
 func (w *Iterator) Current() ([]byte, []byte, bool) {
-- 
2.43.0


From 0c4c35d3550043d5df34107f166dca22f8252e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 12/36] fix: seeking past an all 0xff prefix restarted gtreap
 iterators from the first key

---
 store/gtreap/iterator.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/store/gtreap/iterator.go b/store/gtreap/iterator.go
index 89594ee..ee32cf5 100644
--- a/store/gtreap/iterator.go
+++ b/store/gtreap/iterator.go
@@ -43,20 +43,9 @@ func (w *Iterator) Seek(k []byte) {
 		k = w.start
 	}
 	if w.prefix != nil && !bytes.HasPrefix(k, w.prefix) {
+		// any other k is greater than every key with the prefix
 		if bytes.Compare(k, w.prefix) < 0 {
 			k = w.prefix
-		} else {
-			var end []byte
-			for i := len(w.prefix) - 1; i >= 0; i-- {
-				c := w.prefix[i]
-				if c < 0xff {
-					end = make([]byte, i+1)
-					copy(end, w.prefix)
-					end[i] = c + 1
-					break
-				}
-			}
-			k = end
 		}
 	}
 	w.restart(&Item{k: k})
-- 
2.43.0


From 77c2ee2edb3579bb2fcc1f4bb01cb76d9b9b8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 13/36] fix: goleveldb returned an unusable reader when no
 snapshot can be taken

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From 741549377ef9a89c9cb89c69c7ff0fd23e7fda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 14/36] fix: a failed goleveldb compaction kept the database
 locked for writes

---
 store/goleveldb/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 9ad2dfe..af5bcfa 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -128,6 +128,8 @@ func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 			}
 			err = t.Commit()
 			if err != nil {
+				// a transaction that failed to commit stays open
+				t.Discard()
 				return err
 			}
 		} else {
-- 
2.43.0


From e022dc027c641b8e283fc898c369098a2ef1d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 15/36] fix: goleveldb applied merges over the sets and deletes
 of their batch

---
 store/goleveldb/writer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..08361c4 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,7 +44,9 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
-	// first process merges
+	// merges apply to the values from before the batch, so they come first;
+	// the batch of the caller is left as it is
+	wb := new(leveldb.Batch)
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
 		existingVal, err := w.store.db.Get(kb, w.store.defaultReadOptions)
@@ -55,12 +57,15 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		// add the final merge to this batch
-		batch.batch.Put(kb, mergedVal)
+		wb.Put(kb, mergedVal)
 	}
 
-	// now execute the batch
-	return w.store.db.Write(batch.batch, w.store.defaultWriteOptions)
+	// then the sets and deletes
+	err := batch.batch.Replay(wb)
+	if err != nil {
+		return err
+	}
+	return w.store.db.Write(wb, w.store.defaultWriteOptions)
 }
 
 func (w *Writer) Close() error {
-- 
2.43.0


From 4fdac382fe210c81aedec4c2eb94f8b2634b1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 16/36] fix: concurrent goleveldb merges of one key lost
 updates

---
 store/goleveldb/store.go  | 5 +++++
 store/goleveldb/writer.go | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index af5bcfa..0a6c4c8 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -38,6 +39,10 @@ type Store struct {
 
 	defaultWriteOptions *opt.WriteOptions
 	defaultReadOptions  *opt.ReadOptions
+
+	// held exclusively from reading the values to merge until the batch is
+	// written, and shared by the batches without merges
+	mergeLock sync.RWMutex
 }
 
 func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore, error) {
diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 08361c4..fa26590 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,6 +44,14 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	if len(batch.merge.Merges) > 0 {
+		w.store.mergeLock.Lock()
+		defer w.store.mergeLock.Unlock()
+	} else {
+		w.store.mergeLock.RLock()
+		defer w.store.mergeLock.RUnlock()
+	}
+
 	// merges apply to the values from before the batch, so they come first;
 	// the batch of the caller is left as it is
 	wb := new(leveldb.Batch)
-- 
2.43.0


From b346eebed74d9dbc851a4770f9351a508a70d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 17/36] fix: closing a goleveldb iterator hid the errors of its
 scan

---
 store/goleveldb/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/iterator.go b/store/goleveldb/iterator.go
index e7be4e8..ee6a858 100644
--- a/store/goleveldb/iterator.go
+++ b/store/goleveldb/iterator.go
@@ -49,6 +49,8 @@ func (ldi *Iterator) Valid() bool {
 }
 
 func (ldi *Iterator) Close() error {
+	// Release hides the errors of the scan
+	err := ldi.iterator.Error()
 	ldi.iterator.Release()
-	return nil
+	return err
 }
-- 
2.43.0


From f7bf259b9bac0887a5dab3c590b5154e3ffaa9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 18/36] fix: boltdb kept the file locked when its bucket could
 not be created

---
 store/boltdb/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..ba1dc44 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,7 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			_ = db.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From bf190389371742dee331c435d44b8c2450d5404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 19/36] fix: boltdb returned an unusable reader when the bucket
 does not exist

---
 store/boltdb/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index ba1dc44..bf19096 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -111,10 +111,15 @@ func (bs *Store) Reader() (store.KVReader, error) {
 	if err != nil {
 		return nil, err
 	}
+	bucket := tx.Bucket([]byte(bs.bucket))
+	if bucket == nil {
+		_ = tx.Rollback()
+		return nil, bolt.ErrBucketNotFound
+	}
 	return &Reader{
 		store:  bs,
 		tx:     tx,
-		bucket: tx.Bucket([]byte(bs.bucket)),
+		bucket: bucket,
 	}, nil
 }
 
-- 
2.43.0


From 7c65962cbea6b862e3cc49ce9b43d577ac14e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 20/36] fix: index queries crashed when the store refused a
 reader

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..f95e782 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..89a6e07 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -148,10 +148,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -202,10 +202,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From 68b61f7ae60e529b2bee03f934077c954d899ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 21/36] fix: index operations leaked store readers, writers and
 iterators

---
 index/s2idx.go      | 1 +
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index f95e782..e08ba2e 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 89a6e07..4db1487 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -34,6 +34,7 @@ func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
@@ -95,6 +96,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -177,6 +179,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -227,6 +230,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..775aeb1 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -48,6 +48,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 	if err != nil {
 		return err
 	}
+	defer kv.Close()
 
 	batch := kv.NewBatch()
 	defer batch.Close()
@@ -128,9 +129,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From beaf679594e37be10dd6980684d8ef5a9b709804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 22/36] fix: cell queries returned IDs sharing the memory of
 the store

---
 index/s2idx.go      | 3 ++-
 index/s2pointidx.go | 3 ++-
 index/s2timeidx.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index e08ba2e..397d164 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -98,7 +98,8 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the next move of the iterator
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 4db1487..48369ce 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -111,7 +111,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the next move of the iterator
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 775aeb1..e1e4d0d 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -144,7 +144,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the next move of the iterator
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
-- 
2.43.0


From 31f33fe2b4ad81799edc6179a6c23eeb047587d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 23/36] fix: point queries missed the last leaf cell of every
 cell they scan

---
 index/s2pointidx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 48369ce..ff3033e 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -86,9 +86,10 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start := make([]byte, len(idx.prefix))
 	copy(start, idx.prefix)
 	start = append(start, itob(uint64(c.RangeMin()))...)
+	// the end of a scan is exclusive, and RangeMax is still inside the cell
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -163,9 +164,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start := make([]byte, len(idx.prefix))
 		copy(start, idx.prefix)
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
+		// the end of a scan is exclusive, and RangeMax is still inside the cell
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -216,9 +218,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start := make([]byte, len(idx.prefix))
 		copy(start, idx.prefix)
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
+		// the end of a scan is exclusive, and RangeMax is still inside the cell
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From 1f001d1b31e86f03302fac7686299ff05b8786a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 24/36] fix: empty IDs were accepted and broke the queries
 reading them back

---
 index/s2idx.go      |  5 +++++
 index/s2pointidx.go | 10 ++++++++++
 index/s2timeidx.go  |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 397d164..c94b9a0 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,11 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	// a key without ID can't be read back
+	if len(id) == 0 {
+		return errors.New("geo object can't be indexed, empty ID")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index ff3033e..d5a1136 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -30,6 +30,11 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	// a key without ID can't be read back
+	if len(id) == 0 {
+		return nil, errors.New("geo object can't be indexed, empty ID")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
@@ -62,6 +67,11 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
+	// a key without ID can't be read back
+	if len(id) == 0 {
+		return nil, errors.New("geo object can't be indexed, empty ID")
+	}
+
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index e1e4d0d..c94866c 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -39,6 +39,11 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	// a key without ID can't be read back
+	if len(id) == 0 {
+		return errors.New("geo object can't be indexed, empty ID")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
-- 
2.43.0


From f6b1b256a699520fa25d648863932dd58cdc69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 25/36] fix: the time index accepted geometries without a cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index c94866c..b30bc40 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -49,6 +49,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From 4deb7b9c879bd86daaacffc797ce8b8f8db9cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 26/36] fix: index queries returned truncated results when a
 scan failed

---
 index/s2idx.go      |  6 ++----
 index/s2pointidx.go | 14 ++++++++------
 index/s2timeidx.go  |  6 ++----
 index/tools.go      |  8 ++++++++
 4 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index c94b9a0..5d345df 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -72,7 +72,7 @@ func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
 }
 
 // GeoIdsAtCell returns all GeoData keys contained in the cell
-func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
+func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) (res []GeoID, err error) {
 	if c.Level() != idx.level {
 		return nil, errors.New("requested a cellID with a different level than the index")
 	}
@@ -82,8 +82,6 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	copy(k, idx.prefix)
 	k = append(k, itob(uint64(c))...)
 
-	var res []GeoID
-
 	kv, err := idx.Reader()
 	if err != nil {
 		return nil, err
@@ -92,7 +90,7 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
-	defer iter.Close()
+	defer closeWith(iter, &err)
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index d5a1136..9ebbfa9 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -91,7 +91,7 @@ func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, err
 }
 
 // GeoIdsAtCell returns all GeoData keys contained in the cell
-func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
+func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) (res []GeoID, err error) {
 	// add the prefix to the queried key
 	start := make([]byte, len(idx.prefix))
 	copy(start, idx.prefix)
@@ -101,8 +101,6 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	copy(stop, idx.prefix)
 	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
-	var res []GeoID
-
 	kv, err := idx.Reader()
 	if err != nil {
 		return nil, err
@@ -111,7 +109,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
-	defer iter.Close()
+	defer closeWith(iter, &err)
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
@@ -203,7 +201,9 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			iter.Next()
 		}
-		iter.Close()
+		if err := iter.Close(); err != nil {
+			return nil, errors.Wrap(err, "scanning cell failed")
+		}
 	}
 	return res, nil
 }
@@ -256,7 +256,9 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			iter.Next()
 		}
-		iter.Close()
+		if err := iter.Close(); err != nil {
+			return nil, errors.Wrap(err, "scanning cell failed")
+		}
 	}
 	return res, nil
 }
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index b30bc40..c533330 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -125,7 +125,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCells(cells []s2.CellID, from time.Time, t
 }
 
 // GeoTimeIdsAtCell returns all GeoData keys contained in the cell from time from  to time to
-func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.Time) ([]GeoID, error) {
+func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.Time) (res []GeoID, err error) {
 	if c.Level() != idx.level {
 		return nil, errors.New("requested a cellID with a different level than the index")
 	}
@@ -133,8 +133,6 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	startKey := idx.timePrefixKey(c, from)
 	stopKey := idx.timePrefixKey(c, to)
 
-	var res []GeoID
-
 	kv, err := idx.Reader()
 	if err != nil {
 		return nil, err
@@ -143,7 +141,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
-	defer iter.Close()
+	defer closeWith(iter, &err)
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
diff --git a/index/tools.go b/index/tools.go
index a47c087..410d25f 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"encoding/binary"
+	"io"
 	"math"
 	"time"
 )
@@ -19,6 +20,13 @@ var (
 // GeoID a key referring to a GeoData
 type GeoID []byte
 
+// closeWith closes c and reports its failure in err unless it already holds one
+func closeWith(c io.Closer, err *error) {
+	if cerr := c.Close(); cerr != nil && *err == nil {
+		*err = cerr
+	}
+}
+
 func itob(v uint64) []byte {
 	b := make([]byte, 8)
 	binary.BigEndian.PutUint64(b, v)
-- 
2.43.0


From ff9524f23a574a3c62463816f710386c6909dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 27/36] fix: covering a polygon scrambled its coordinates in
 place

---
 index/geodata/tools.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..5e77d98 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -217,15 +217,6 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
-
 	if interior {
 		return coverer.InteriorCovering(l), nil
 	}
-- 
2.43.0


From 4f242fa850883f4c71f8437cc9f9e28589cc66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 28/36] fix: the orientation of concave polygons was guessed
 from three vertices

---
 index/geodata/loop.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..7d474bd 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -19,19 +19,15 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
 	}
 
-	if checkCCW && s2.RobustSign(points[0], points[1], points[2]) != s2.CounterClockwise {
-		// reversing the slice
-		for i := len(points)/2 - 1; i >= 0; i-- {
-			opp := len(points) - 1 - i
-			points[i], points[opp] = points[opp], points[i]
-		}
-	}
-
 	if points[0] == points[len(points)-1] {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
 	loop := s2.LoopFromPoints(points)
+	if checkCCW {
+		// reverses the loop when it covers more than half of the sphere
+		loop.Normalize()
+	}
 	return loop
 }
-- 
2.43.0


From 68443dc0b570a0f973d2980f8c95166b9dc22159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 29/36] fix: line covers did not respect the minimum level of
 the coverer

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 5e77d98..265ffe6 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -174,9 +174,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From 2f50a77cabbacf040b8c3489425ad214d42aa1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 30/36] fix: holes and elevations were stored as coordinates of
 the geometry

---
 index/geodata/tools.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 265ffe6..d90a5b7 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,7 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +24,14 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if g.NumLinearRings() == 0 {
+			return errors.New("polygon without ring")
+		}
+		geo.Coordinates = flatXY(g.LinearRing(0).FlatCoords(), g.Stride())
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +41,18 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// flatXY returns the first two dimensions of the flat coordinates c
+func flatXY(c []float64, stride int) []float64 {
+	if stride <= 2 {
+		return c
+	}
+	res := make([]float64, 0, len(c)/stride*2)
+	for i := 0; i+1 < len(c); i += stride {
+		res = append(res, c[i], c[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From 85d1d70164b008d008f74db1f6cb4fee63775135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 31/36] fix: malformed geometries caused panics instead of
 errors

---
 index/geodata/loop.go  |  4 +++
 index/geodata/tools.go | 78 ++++++++++++++++++++++++++++++++++--------
 index/s2pointidx.go    |  6 ++++
 3 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 7d474bd..125f782 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -24,6 +24,10 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
+	if len(points) < 3 {
+		return nil
+	}
+
 	loop := s2.LoopFromPoints(points)
 	if checkCCW {
 		// reverses the loop when it covers more than half of the sphere
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index d90a5b7..c6adecd 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -10,6 +10,48 @@ import (
 	"github.com/twpayne/go-geom/encoding/geojson"
 )
 
+// CheckGeometry returns an error unless geo holds what is needed to build a geometry of its type
+func CheckGeometry(geo *Geometry) error {
+	if geo == nil {
+		return errors.New("invalid geometry")
+	}
+	n := len(geo.Coordinates)
+	switch geo.Type {
+	case Geometry_POINT:
+		if n != 2 {
+			return errors.New("invalid coordinates count for point")
+		}
+
+	case Geometry_POLYGON:
+		if n < 6 || n%2 != 0 {
+			return errors.New("invalid coordinates count for polygon")
+		}
+
+	case Geometry_MULTIPOLYGON:
+		if len(geo.Geometries) == 0 {
+			return errors.New("multipolygon without polygon")
+		}
+		for _, g := range geo.Geometries {
+			if g == nil {
+				return errors.New("invalid geometry in multipolygon")
+			}
+			n := len(g.Coordinates)
+			if n < 6 || n%2 != 0 {
+				return errors.New("invalid coordinates count for multipolygon")
+			}
+		}
+
+	case Geometry_LINESTRING:
+		if n < 4 || n%2 != 0 {
+			return errors.New("invalid coordinates count for line")
+		}
+
+	default:
+		return errors.New("unsupported data type")
+	}
+	return nil
+}
+
 // GeomToGeoData update gd with geo data gathered from g
 func GeomToGeoData(g geom.T, gd *GeoData) error {
 	geo := &Geometry{}
@@ -37,6 +79,9 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 		return errors.Errorf("unsupported geo type %T", g)
 	}
 
+	if err := CheckGeometry(geo); err != nil {
+		return err
+	}
 	gd.Geometry = geo
 	return nil
 }
@@ -55,6 +100,9 @@ func flatXY(c []float64, stride int) []float64 {
 
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
+	if err := CheckGeometry(gd.Geometry); err != nil {
+		return nil, err
+	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
 		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates), nil
@@ -113,8 +161,8 @@ func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
 // GeoDataToRect generate a RectBound for GeoData gd
 // only works with Polygons & LineString
 func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
-	if gd.Geometry == nil {
-		return s2.Rect{}, errors.New("invalid geometry")
+	if err := CheckGeometry(gd.Geometry); err != nil {
+		return s2.Rect{}, err
 	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
@@ -122,7 +170,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
@@ -131,10 +179,6 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		return s2.Rect{}, errors.New("multipolygon not supported")
 
 	case Geometry_LINESTRING:
-		if len(gd.Geometry.Coordinates)%2 != 0 {
-			return s2.Rect{}, errors.New("invalid coordinates count for line")
-		}
-
 		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
 		for i := 0; i < len(gd.Geometry.Coordinates); i += 2 {
 			ll := s2.LatLngFromDegrees(gd.Geometry.Coordinates[i+1], gd.Geometry.Coordinates[i])
@@ -150,8 +194,8 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 // geoDataToCoverCellUnion generate an s2 cover normalized for GeoData gd
 func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
-	if gd.Geometry == nil {
-		return nil, errors.New("invalid geometry")
+	if err := CheckGeometry(gd.Geometry); err != nil {
+		return nil, err
 	}
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
@@ -177,10 +221,6 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		}
 
 	case Geometry_LINESTRING:
-		if len(gd.Geometry.Coordinates)%2 != 0 {
-			return nil, errors.New("invalid coordinates count for line")
-		}
-
 		pl := make(s2.Polyline, len(gd.Geometry.Coordinates)/2)
 		for i := 0; i < len(gd.Geometry.Coordinates); i += 2 {
 			ll := s2.LatLngFromDegrees(gd.Geometry.Coordinates[i+1], gd.Geometry.Coordinates[i])
@@ -228,7 +268,7 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 	}
 
 	l := LoopFromCoordinatesAndCCW(c, true)
-	if l.IsEmpty() || l.IsFull() {
+	if l == nil || l.IsEmpty() || l.IsFull() {
 		return nil, errors.New("invalid polygons")
 	}
 
@@ -242,6 +282,9 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 	fc := geojson.FeatureCollection{}
 	for _, g := range geos {
+		if err := CheckGeometry(g.Geometry); err != nil {
+			return nil, err
+		}
 		f := &geojson.Feature{}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
@@ -254,7 +297,9 @@ func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 			mp := geom.NewMultiPolygon(geom.XY)
 			for _, poly := range g.Geometry.Geometries {
 				ng := geom.NewPolygonFlat(geom.XY, poly.Coordinates, []int{len(poly.Coordinates)})
-				mp.Push(ng)
+				if err := mp.Push(ng); err != nil {
+					return nil, err
+				}
 			}
 			f.Geometry = mp
 		case Geometry_LINESTRING:
@@ -278,6 +323,9 @@ func PointsToGeoJSONPolyLines(geos []*GeoData) ([]byte, error) {
 	}
 
 	for _, g := range geos {
+		if err := CheckGeometry(g.Geometry); err != nil {
+			return nil, err
+		}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
 			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 9ebbfa9..0429dba 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -72,6 +72,9 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 		return nil, errors.New("geo object can't be indexed, empty ID")
 	}
 
+	if err := geodata.CheckGeometry(gd.Geometry); err != nil {
+		return nil, err
+	}
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
@@ -83,6 +86,9 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
+	if err := geodata.CheckGeometry(gd.Geometry); err != nil {
+		return nil, err
+	}
 	if gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
-- 
2.43.0


From 90a5a8647e673ed544d27d13c430f21fd7a2c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 32/36] fix: exporting a nil property value panicked

---
 index/geodata/tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index c6adecd..35e9010 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -346,7 +346,7 @@ func PropertiesToJSONMap(src map[string]*spb.Value) map[string]interface{} {
 	res := make(map[string]interface{})
 
 	for k, v := range src {
-		switch x := v.Kind.(type) {
+		switch x := v.GetKind().(type) {
 		case *spb.Value_NumberValue:
 			res[k] = x.NumberValue
 		case *spb.Value_StringValue:
-- 
2.43.0


From df7d9c7009b4711e97e7849f6542ed276570a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 33/36] fix: a null feature crashed the GeoJSON handler

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..82350f4 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -82,6 +82,10 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 	}
 
 	f := fc.Features[0]
+	if f == nil {
+		http.Error(w, "null feature", 400)
+		return
+	}
 	err = geodata.GeoJSONFeatureToGeoData(f, gd)
 	if err != nil {
 		http.Error(w, err.Error(), 400)
-- 
2.43.0


From 23ec76ccd01d05b10f2821cd9c2a6fe3e8192d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 34/36] fix: the cells handler exported malformed cells as if
 they were valid

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index 82350f4..d5c3c16 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid cell "+strconv.Quote(cs), 400)
+			return
+		}
 		cu[i] = c
 	}
 
-- 
2.43.0


From 7852dd40c815c65ed090265f8d9a4b3c32d3da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 35/36] fix: the GeoJSON handler accepted levels no cell can
 have

---
 s2tools/handlers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index d5c3c16..bde38cb 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -13,6 +13,9 @@ import (
 	"github.com/twpayne/go-geom/encoding/geojson"
 )
 
+// maxLevel is the level of the smallest s2 cells
+const maxLevel = 30
+
 // S2CellQueryHandler returns a GeoJSON containing the cells passed in the query
 // ?cells=TokenID,...
 func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
@@ -74,6 +77,11 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if vals[0] > maxLevel || vals[1] > maxLevel {
+		http.Error(w, "invalid level", 400)
+		return
+	}
+
 	err = dec.Decode(&fc)
 	if err != nil {
 		http.Error(w, err.Error()+" can't unmasrhal JSON", 400)
-- 
2.43.0


From aba9be804343e878b85527e6e1da072f10f7e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 36/36] fix: ParseCellID returned invalid cells

---
 s2tools/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..8a2236d 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -16,6 +16,9 @@ func ParseCellID(cs string) *s2.CellID {
 		}
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
+			if c.IsLeaf() {
+				return nil
+			}
 			child, err := strconv.Atoi(string(b))
 			if err != nil || child < 0 || child > 3 {
 				return nil
@@ -27,7 +30,7 @@ func ParseCellID(cs string) *s2.CellID {
 	}
 
 	c := s2.CellIDFromToken(cs)
-	if c != s2.CellID(0) {
+	if c.IsValid() {
 		return &c
 	}
 
@@ -36,5 +39,8 @@ func ParseCellID(cs string) *s2.CellID {
 		return nil
 	}
 	c = s2.CellID(id)
+	if !c.IsValid() {
+		return nil
+	}
 	return &c
 }
-- 
2.43.0

