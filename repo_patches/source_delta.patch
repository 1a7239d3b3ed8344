From da1c32bf6ce602f42b35fafa1911f8cedcff5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:26 +0000
Subject: [PATCH 01/29] fix: MultiGet indexed an empty slice and panicked for
 any key

---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From 70a569dcb7b68318afd680ca082d3e7c6a4541bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 02/29] fix: batches kept a reference to the caller's merge
 operand

---
 store/batch.go           | 2 +-
 store/goleveldb/batch.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..9b1fc4c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -50,7 +50,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 	copy(ck, key)
 	cv := make([]byte, len(val))
 	copy(cv, val)
-	b.Merger.Merge(key, val)
+	b.Merger.Merge(ck, cv)
 }
 
 func (b *EmulatedBatch) Reset() {
diff --git a/store/goleveldb/batch.go b/store/goleveldb/batch.go
index b2221cb..4458b1c 100644
--- a/store/goleveldb/batch.go
+++ b/store/goleveldb/batch.go
@@ -34,7 +34,9 @@ func (b *Batch) Delete(key []byte) {
 }
 
 func (b *Batch) Merge(key, val []byte) {
-	b.merge.Merge(key, val)
+	cv := make([]byte, len(val))
+	copy(cv, val)
+	b.merge.Merge(key, cv)
 }
 
 func (b *Batch) Reset() {
-- 
2.43.0


From 9b4e9ea67519dc3ee839277a70529781b29f8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 03/29] fix: EmulatedBatch.Reset kept the merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index 9b1fc4c..f9f66a7 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -55,6 +55,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From d931efa7311df343c32e49fa200ed9b0e2a0922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 04/29] fix: badger committed failed batches and ignored commit
 errors

---
 store/badger/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..dd3f92e 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -32,7 +32,11 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	txn := w.s.db.NewTransaction(true)
 
 	defer (func() {
-		txn.Commit()
+		if err == nil {
+			err = txn.Commit()
+		} else {
+			txn.Discard()
+		}
 	})()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
-- 
2.43.0


From b779ac6a8f068e78f78c00b39df9a5f45e1ec08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 05/29] fix: badger merges saw an empty value for absent keys
 and for failed reads

---
 store/badger/writer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index dd3f92e..9ee45d5 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -42,9 +43,12 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
+		var existingVal []byte
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+		}
+		if err != nil && err != badger.ErrKeyNotFound {
+			return err
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-- 
2.43.0


From 061dbf72da36d96230d682e0d3f790cebedbcc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:29 +0000
Subject: [PATCH 06/29] fix: badger reported failed reads and empty values as
 absent keys

---
 store/badger/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..f00b089 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,10 +15,13 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound || err == badger.ErrEmptyKey {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From 5ea828f0f4be5fb1081a1d9fb0d87f99745fb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 07/29] fix: a failed merge left gtreap locked and half of the
 batch applied

---
 store/gtreap/writer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..85e7985 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,28 +44,30 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+	t := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
-		existingItem := w.s.t.Get(&Item{k: kb})
+		existingItem := t.Get(&Item{k: kb})
 		if existingItem != nil {
-			existingVal = w.s.t.Get(&Item{k: kb}).(*Item).v
+			existingVal = t.Get(&Item{k: kb}).(*Item).v
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		t = t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
 		if op.V != nil {
-			w.s.t = w.s.t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
+			t = t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
 		} else {
-			w.s.t = w.s.t.Delete(&Item{k: op.K})
+			t = t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
+	w.s.t = t
 
 	return nil
 }
-- 
2.43.0


From f45e6ce82f5b88a8c3cc093dba80bff494ab74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 08/29] fix: goleveldb Reader ignored the error of GetSnapshot

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From f79c6f8e7755d01a8e6f41253d5e9a8fd0bee447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 09/29] fix: goleveldb compaction left its transaction open
 when Commit failed

---
 store/goleveldb/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 9ad2dfe..a27784a 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -128,6 +128,7 @@ func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 			}
 			err = t.Commit()
 			if err != nil {
+				t.Discard()
 				return err
 			}
 		} else {
-- 
2.43.0


From 3e76a72227432fe1bd8af544b29514ed05aeee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 10/29] fix: goleveldb merges saw an empty value for deleted
 keys

---
 store/goleveldb/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..99e8893 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -48,7 +48,10 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
 		existingVal, err := w.store.db.Get(kb, w.store.defaultReadOptions)
-		if err != nil && err != leveldb.ErrNotFound {
+		if err == leveldb.ErrNotFound {
+			// goleveldb returns a non nil empty value for deleted keys
+			existingVal = nil
+		} else if err != nil {
 			return err
 		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
-- 
2.43.0


From 57aca74d4f6bbd24db65ebfa08fc973858415a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 11/29] fix: boltdb New left the database open and locked when
 it failed

---
 store/boltdb/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..ba1dc44 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,7 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			_ = db.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 1a6a9e8cafe954bcdd98cf0644b984789ead0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 12/29] fix: boltdb Reader of a read only store without its
 bucket panicked on use

---
 store/boltdb/store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index ba1dc44..a00a72f 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -111,10 +111,15 @@ func (bs *Store) Reader() (store.KVReader, error) {
 	if err != nil {
 		return nil, err
 	}
+	bucket := tx.Bucket([]byte(bs.bucket))
+	if bucket == nil {
+		_ = tx.Rollback()
+		return nil, fmt.Errorf("bucket %q does not exist", bs.bucket)
+	}
 	return &Reader{
 		store:  bs,
 		tx:     tx,
-		bucket: tx.Bucket([]byte(bs.bucket)),
+		bucket: bucket,
 	}, nil
 }
 
-- 
2.43.0


From 6ade3c753b797addbaff1efa7531ff8df28fe7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 13/29] fix: GeoIdsAtCell returned slices of the iterator's key
 buffer

---
 index/s2idx.go      | 3 ++-
 index/s2pointidx.go | 3 ++-
 index/s2timeidx.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..21d0dfa 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -97,7 +97,8 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the iterator moves
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..1c71bf5 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -109,7 +109,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the iterator moves
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..2888618 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -141,7 +141,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 			return nil, errors.Wrap(err, "read back failed key from db")
 		}
 
-		res = append(res, id)
+		// the key is only valid until the iterator moves
+		res = append(res, append(GeoID(nil), id...))
 		iter.Next()
 	}
 
-- 
2.43.0


From 7985cc1e3c5875dc825786b716ae3222e30983a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 14/29] fix: index queries panicked when the store had no
 reader to give

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 21d0dfa..daee0d1 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 1c71bf5..587780f 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -149,10 +149,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -203,10 +203,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From 0b0a88ac468849ed8d91c4092a174ed92e872ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 15/29] fix: index lookups left readers and iterators open

---
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 587780f..797c844 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -96,6 +96,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 		return nil, err
 	}
 
+	defer kv.Close()
+
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
 	defer iter.Close()
@@ -178,6 +180,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -228,6 +231,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 2888618..d628357 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -129,8 +129,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 		return nil, err
 	}
 
+	defer kv.Close()
+
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From bb482553b8b93e279f01db5fb77286f9ee155fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 16/29] fix: point queries missed the last leaf cell of every
 cell

---
 index/s2pointidx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 797c844..4383cd7 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,7 +87,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -165,7 +165,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -218,7 +218,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From 0a1f16b5d4cd791985c6580ed2e7c63dd10a11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 17/29] fix: lines were covered by cells above the requested
 level

---
 index/geodata/tools.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..722de7f 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -172,11 +172,12 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 			pl[i/2] = s2.PointFromLatLng(ll)
 		}
 
+		// not the normalized union, it ignores the coverer's MinLevel
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From a8a3ea798abf18ca40c4c826e6148a6826f40b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:48 +0000
Subject: [PATCH 18/29] fix: concave polygons were covered inside out and their
 coordinates mixed up

---
 index/geodata/tools.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 722de7f..20ce1ed 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -218,14 +218,8 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
+	// the orientation of the first three vertices is not the one of a concave loop
+	l.Normalize()
 
 	if interior {
 		return coverer.InteriorCovering(l), nil
-- 
2.43.0


From aa54708d981bcb29ad30ee4b1afb2e74e4ff7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:48 +0000
Subject: [PATCH 19/29] fix: an indexed empty id made every lookup of its cells
 fail

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 2 +-
 index/s2timeidx.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index daee0d1..4789602 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -147,7 +147,7 @@ func (idx *S2FlatIdx) Covering(gd *geodata.GeoData) (s2.CellUnion, error) {
 
 func (idx *S2FlatIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error) {
 	// prefix+cellid+id
-	if len(k) <= len(idx.prefix)+8 {
+	if len(k) < len(idx.prefix)+8 {
 		return c, id, errors.New("invalid key")
 	}
 	buf := bytes.NewBuffer(k[len(idx.prefix):])
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 4383cd7..b78a813 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -250,7 +250,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 func (idx *S2PointIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error) {
 	// prefix+cellid+id
-	if len(k) <= len(idx.prefix)+8 {
+	if len(k) < len(idx.prefix)+8 {
 		return c, id, errors.New("invalid key")
 	}
 	buf := bytes.NewBuffer(k[len(idx.prefix):])
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index d628357..66dfeba 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -172,7 +172,7 @@ func (idx *S2FlatTimeIdx) timePrefixKey(c s2.CellID, t time.Time) []byte {
 
 func (idx *S2FlatTimeIdx) keyToValues(k []byte) (c s2.CellID, t time.Time, id GeoID, err error) {
 	// prefix+cellid+ts+id
-	if len(k) <= len(idx.prefix)+8+8 {
+	if len(k) < len(idx.prefix)+8+8 {
 		return c, t, id, errors.New("invalid key")
 	}
 	buf := bytes.NewBuffer(k[len(idx.prefix):])
-- 
2.43.0


From 8ac956f88532b27ab721b949a892a52d467a79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 20/29] fix: the time index reported success for objects it did
 not index

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 66dfeba..4c9dc4e 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -44,6 +44,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From e17247e8e2b9932de1ab3c72a570f924091fbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 21/29] fix: the point index panicked for points without
 geometry or coordinates

---
 index/s2pointidx.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index b78a813..dc63cf7 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -61,9 +61,12 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates count for point")
+	}
 
 	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil
 }
@@ -72,9 +75,12 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT {
 		return nil, errors.New("only points are supported")
 	}
+	if len(gd.Geometry.Coordinates) < 2 {
+		return nil, errors.New("invalid coordinates count for point")
+	}
 
 	return idx.PointIndex(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id)
 }
-- 
2.43.0


From a90f5c9d8727470a3653758aa13dcbc85f4914a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 22/29] fix: covers and bounds of malformed geometries panicked

---
 index/geodata/tools.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 20ce1ed..7400d9b 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -98,7 +98,7 @@ func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
 // GeoDataToRect generate a RectBound for GeoData gd
 // only works with Polygons & LineString
 func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
-	if gd.Geometry == nil {
+	if gd.GetGeometry() == nil {
 		return s2.Rect{}, errors.New("invalid geometry")
 	}
 	switch gd.Geometry.Type {
@@ -107,7 +107,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
@@ -135,12 +135,15 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 // geoDataToCoverCellUnion generate an s2 cover normalized for GeoData gd
 func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
-	if gd.Geometry == nil {
+	if gd.GetGeometry() == nil {
 		return nil, errors.New("invalid geometry")
 	}
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
+		if len(gd.Geometry.Coordinates) < 2 {
+			return nil, errors.New("invalid coordinates count for point")
+		}
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
 		cu = append(cu, c.Parent(coverer.MinLevel))
 
@@ -153,6 +156,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 	case Geometry_MULTIPOLYGON:
 		for _, g := range gd.Geometry.Geometries {
+			if g == nil {
+				return nil, errors.New("invalid geometry")
+			}
 			cup, err := coverPolygon(g.Coordinates, coverer, interior)
 			if err != nil {
 				return nil, errors.Wrap(err, "can't cover multipolygon")
-- 
2.43.0


From c6632d696579251f57ea8b865456a737b94bf0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 23/29] fix: polygons of two vertices were covered by nothing
 without an error

---
 index/geodata/loop.go  | 4 ++++
 index/geodata/tools.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..3ecf70d 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -32,6 +32,10 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
+	if len(points) < 3 {
+		return nil
+	}
+
 	loop := s2.LoopFromPoints(points)
 	return loop
 }
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 7400d9b..e5a4354 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -220,7 +220,7 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 	}
 
 	l := LoopFromCoordinatesAndCCW(c, true)
-	if l.IsEmpty() || l.IsFull() {
+	if l == nil || l.IsEmpty() || l.IsFull() {
 		return nil, errors.New("invalid polygons")
 	}
 
-- 
2.43.0


From c34fd0f991f5443f18cc53b03aa9f6965f240a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 24/29] fix: points were covered by an invalid cell above level
 30

---
 index/geodata/tools.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index e5a4354..10d921c 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -145,7 +145,15 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 			return nil, errors.New("invalid coordinates count for point")
 		}
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
-		cu = append(cu, c.Parent(coverer.MinLevel))
+		// the coverer accepts levels out of range as well
+		level := coverer.MinLevel
+		if level < 0 {
+			level = 0
+		}
+		if level > 30 {
+			level = 30
+		}
+		cu = append(cu, c.Parent(level))
 
 	case Geometry_POLYGON:
 		cup, err := coverPolygon(gd.Geometry.Coordinates, coverer, interior)
-- 
2.43.0


From 15e5a9390aa0b45ffb6ff76854c61eb544ea56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 25/29] fix: inner rings and higher dimensions ended up in the
 coordinates of geometries

---
 index/geodata/tools.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 10d921c..acdea6c 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,10 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		if g.Empty() {
+			return errors.New("empty point")
+		}
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +27,13 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if ends := g.Ends(); len(ends) > 0 {
+			geo.Coordinates = xyCoords(g.FlatCoords()[:ends[0]], g.Stride())
+		}
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +43,18 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// xyCoords returns a copy of the flat coordinates without any dimension beyond the first two
+func xyCoords(flat []float64, stride int) []float64 {
+	if stride < 2 {
+		return nil
+	}
+	res := make([]float64, 0, len(flat)/stride*2)
+	for i := 0; i+1 < len(flat); i += stride {
+		res = append(res, flat[i], flat[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From e18a46643b98666b5128edae640f3a95ad594dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 26/29] fix: converting and exporting malformed geometries
 panicked

---
 index/geodata/tools.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index acdea6c..d0eb2f9 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -57,9 +57,15 @@ func xyCoords(flat []float64, stride int) []float64 {
 
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
+	if gd.GetGeometry() == nil {
+		return nil, errors.New("invalid geometry")
+	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
-		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates), nil
+		if len(gd.Geometry.Coordinates) < 2 {
+			return nil, errors.New("invalid coordinates count for point")
+		}
+		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates[:2]), nil
 	case Geometry_POLYGON:
 		return geom.NewPolygonFlat(geom.XY, gd.Geometry.Coordinates, []int{len(gd.Geometry.Coordinates)}), nil
 	case Geometry_LINESTRING:
@@ -262,10 +268,16 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 	fc := geojson.FeatureCollection{}
 	for _, g := range geos {
+		if g.GetGeometry() == nil {
+			return nil, errors.New("invalid geometry")
+		}
 		f := &geojson.Feature{}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
-			ng := geom.NewPointFlat(geom.XY, g.Geometry.Coordinates)
+			if len(g.Geometry.Coordinates) < 2 {
+				return nil, errors.New("invalid coordinates count for point")
+			}
+			ng := geom.NewPointFlat(geom.XY, g.Geometry.Coordinates[:2])
 			f.Geometry = ng
 		case Geometry_POLYGON:
 			ng := geom.NewPolygonFlat(geom.XY, g.Geometry.Coordinates, []int{len(g.Geometry.Coordinates)})
@@ -273,6 +285,9 @@ func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 		case Geometry_MULTIPOLYGON:
 			mp := geom.NewMultiPolygon(geom.XY)
 			for _, poly := range g.Geometry.Geometries {
+				if poly == nil {
+					return nil, errors.New("invalid geometry")
+				}
 				ng := geom.NewPolygonFlat(geom.XY, poly.Coordinates, []int{len(poly.Coordinates)})
 				mp.Push(ng)
 			}
@@ -298,9 +313,15 @@ func PointsToGeoJSONPolyLines(geos []*GeoData) ([]byte, error) {
 	}
 
 	for _, g := range geos {
+		if g.GetGeometry() == nil {
+			return nil, errors.New("invalid geometry")
+		}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
-			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
+			if len(g.Geometry.Coordinates) < 2 {
+				return nil, errors.New("invalid coordinates count for point")
+			}
+			flatCoords = append(flatCoords, g.Geometry.Coordinates[:2]...)
 		default:
 			return nil, errors.Errorf("unsupported geometry")
 		}
@@ -318,7 +339,7 @@ func PropertiesToJSONMap(src map[string]*spb.Value) map[string]interface{} {
 	res := make(map[string]interface{})
 
 	for k, v := range src {
-		switch x := v.Kind.(type) {
+		switch x := v.GetKind().(type) {
 		case *spb.Value_NumberValue:
 			res[k] = x.NumberValue
 		case *spb.Value_StringValue:
-- 
2.43.0


From faaa31d07f6039a37c57fdb29e1ef96e76aca00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 27/29] fix: a null feature crashed the conversion to GeoData

---
 index/geodata/tools.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index d0eb2f9..8ff0272 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -92,6 +92,9 @@ func GeoJSONFeatureToGeoData(f *geojson.Feature, gd *GeoData) error {
 
 // PropertiesToGeoData update gd.Properties with the properties found in f
 func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
+	if f == nil {
+		return errors.New("invalid feature")
+	}
 	m := make(map[string]*spb.Value)
 	for k, vi := range f.Properties {
 		switch tv := vi.(type) {
-- 
2.43.0


From 613a20366c5308325294fd775b0be1644dba2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 28/29] fix: ParseCellID made up cells for paths deeper than a
 leaf cell

---
 s2tools/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..0094742 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -17,7 +17,7 @@ func ParseCellID(cs string) *s2.CellID {
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
 			child, err := strconv.Atoi(string(b))
-			if err != nil || child < 0 || child > 3 {
+			if err != nil || child < 0 || child > 3 || c.IsLeaf() {
 				return nil
 			}
 
-- 
2.43.0


From 4084e7027751a71809311b5b8d4dfe2105ec6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:41 +0000
Subject: [PATCH 29/29] fix: S2CellQueryHandler answered invalid tokens with
 made up cells

---
 s2tools/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..b1d9b15 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid parameters", 400)
+			return
+		}
 		cu[i] = c
 	}
 
-- 
2.43.0

