From 5d3e5c7382b6400845da0c65c202e9e613ad86f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 01/37] fix: identifiers stay unique and increasing when the
 clock goes backwards

---
 helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..2e4d091 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,8 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	if nextId&NumberSequenceTimestampMask <= n.lastId&NumberSequenceTimestampMask {
+		// same second, or the clock went backwards: continue from the last id
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 76e858fa6c123aaf168206fcb987c579fdac24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 02/37] fix: closing a batch runs its close callbacks, not its
 committed callbacks

---
 batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index eb73032..15376cf 100644
--- a/batch.go
+++ b/batch.go
@@ -202,7 +202,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 36dfef384d8e81d61e7bf0e734aeb1cc33140d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 03/37] fix: committed callbacks do not run when applying a
 batch fails

---
 batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index 15376cf..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
-- 
2.43.0


From ccb62720d0f9e6d847b0e3e156fbd680d5eac4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 04/37] fix: descending integer order columns place the minimum
 value last

---
 index.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..036d038 100644
--- a/index.go
+++ b/index.go
@@ -28,7 +28,8 @@ type IndexOrder struct {
 
 func (o IndexOrder) OrderInt64(i int64, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
-		i = -i
+		// the negated minimum does not fit the type, negate as big.Int
+		return o.OrderBigInt(big.NewInt(int64(i)), 64, orderType)
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddInt64Field(i)
@@ -37,7 +38,8 @@ func (o IndexOrder) OrderInt64(i int64, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderInt32(i int32, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
-		i = -i
+		// the negated minimum does not fit the type, negate as big.Int
+		return o.OrderBigInt(big.NewInt(int64(i)), 32, orderType)
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddInt32Field(i)
@@ -46,7 +48,8 @@ func (o IndexOrder) OrderInt32(i int32, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderInt16(i int16, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
-		i = -i
+		// the negated minimum does not fit the type, negate as big.Int
+		return o.OrderBigInt(big.NewInt(int64(i)), 16, orderType)
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddInt16Field(i)
-- 
2.43.0


From afc5ee7c2b43e38f947d0763f1903c67b28dabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 05/37] fix: descending byte order columns leave the caller's
 slice unchanged

---
 index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 036d038..39aa6e8 100644
--- a/index.go
+++ b/index.go
@@ -94,9 +94,11 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		inverted := make([]byte, len(b))
 		for i := 0; i < len(b); i++ {
-			b[i] = ^b[i]
+			inverted[i] = ^b[i]
 		}
+		b = inverted
 	}
 
 	o.KeyBuilder = o.KeyBuilder.AddBytesField(b)
-- 
2.43.0


From 36399a4e5a61f055b02732c690f744698fcce3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 06/37] fix: the successor of a key bounds exactly the keys
 starting with it

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 2a25b0a..dfe0d35 100644
--- a/table.go
+++ b/table.go
@@ -1269,7 +1269,7 @@ func keySuccessor(src, dst []byte) []byte {
 	for i := len(src) - 1; i >= 0; i-- {
 		if dst[i] != 0xFF {
 			dst[i]++
-			return dst
+			return dst[:i+1]
 		}
 	}
 	return dst
-- 
2.43.0


From d1e2154e86088c6869194155c5a7d725e1530a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 07/37] fix: a primary index point set selects only the rows
 with the given primary keys

---
 index.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 39aa6e8..4f1a50c 100644
--- a/index.go
+++ b/index.go
@@ -213,7 +213,8 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 			lowerBound := encodeIndexKey(table, point, idx, keyBufferPool.Get()[:0])
 			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 			if idx.IndexID == PrimaryIndexID {
-				upperBound = keySuccessor(lowerBound, upperBound[:0])
+				// only the row itself, not rows whose primary key starts with the point's
+				upperBound = append(append(upperBound[:0], lowerBound...), 0x00)
 			}
 
 			releaseBuffers := func() {
-- 
2.43.0


From 9d784ea03da4277aa8e2e254d0416bc806194ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 08/37] fix: a nil batch passed to an index iterator means no
 batch

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 4f1a50c..c4c0248 100644
--- a/index.go
+++ b/index.go
@@ -180,7 +180,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
-- 
2.43.0


From 1b8dd7adf9568bb8f7745a4295630e5c1916a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 09/37] fix: iterating an empty set of points or ranges yields
 nothing instead of panicking

---
 iter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iter.go b/iter.go
index d6ded27..65beb17 100644
--- a/iter.go
+++ b/iter.go
@@ -78,11 +78,16 @@ type _iteratorMulti struct {
 }
 
 func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
+	var iterator Iterator = errIterator{} // no ranges: nothing to iterate
+	if len(opts) > 0 {
+		iterator = itc.Iter(childIteratorOptions(opts[0]))
+	}
+
 	return &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
 		iteratorConstuctor:   itc,
-		iterator:             itc.Iter(childIteratorOptions(opts[0])),
+		iterator:             iterator,
 	}
 }
 
@@ -131,7 +136,7 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex >= len(it.iteratorOptions)-1 {
 			return false
 		}
 
-- 
2.43.0


From d20e577bcba4f182565e9a7e09e9af213fc48d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 10/37] fix: iteration over several ranges stops at and reports
 the first failure

---
 iter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/iter.go b/iter.go
index 65beb17..8de953e 100644
--- a/iter.go
+++ b/iter.go
@@ -100,6 +100,9 @@ func (it *_iteratorMulti) First() bool {
 		if it.iterator.First() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
@@ -113,13 +116,16 @@ func (it *_iteratorMulti) Last() bool {
 		if it.iterator.Last() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
 
 func (it *_iteratorMulti) Prev() bool {
 	for !it.iterator.Prev() {
-		if it.iteratorOptionsIndex == 0 {
+		if it.iteratorOptionsIndex == 0 || it.iterator.Error() != nil {
 			return false
 		}
 
@@ -136,7 +142,7 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex >= len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex >= len(it.iteratorOptions)-1 || it.iterator.Error() != nil {
 			return false
 		}
 
-- 
2.43.0


From f5ce354152b5d2b8839e4f8533ef96406d9c248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 11/37] fix: tables: changes of a large write see those of its
 earlier chunks

---
 table.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index dfe0d35..0815ae8 100644
--- a/table.go
+++ b/table.go
@@ -350,7 +350,11 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batchType := BatchTypeWriteOnly
+		if len(trs) > persistentBatchSize {
+			batchType = BatchTypeReadWrite // later chunks read the changes of earlier ones
+		}
+		batch = t.db.Batch(batchType)
 		defer batch.Close()
 	}
 
@@ -464,7 +468,11 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batchType := BatchTypeWriteOnly
+		if len(trs) > persistentBatchSize {
+			batchType = BatchTypeReadWrite // later chunks read the changes of earlier ones
+		}
+		batch = t.db.Batch(batchType)
 		defer batch.Close()
 	}
 
@@ -649,7 +657,11 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batchType := BatchTypeWriteOnly
+		if len(trs) > persistentBatchSize {
+			batchType = BatchTypeReadWrite // later chunks read the changes of earlier ones
+		}
+		batch = t.db.Batch(batchType)
 		defer batch.Close()
 	}
 
-- 
2.43.0


From 4e04b3c4f256e2e7af4f32f27ccfd7933c64a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 12/37] fix: tables: upsert combines repeated keys in input
 order and updates indexes from the stored row

---
 table.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 0815ae8..62dc4f5 100644
--- a/table.go
+++ b/table.go
@@ -741,10 +741,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
-				continue
+				tr = onConflict(tr, trs[keyOrder[i]])
 			}
 
 			// serialize
@@ -1214,7 +1212,10 @@ func (t *_table[T]) sortKeys(keys [][]byte) []int {
 			keyOrder[i], keyOrder[j] = keyOrder[j], keyOrder[i]
 		},
 		LessFn: func(i, j int) bool {
-			return bytes.Compare(keys[i], keys[j]) < 0
+			if c := bytes.Compare(keys[i], keys[j]); c != 0 {
+				return c < 0
+			}
+			return keyOrder[i] < keyOrder[j] // equal keys stay in input order
 		},
 	})
 	return keyOrder
-- 
2.43.0


From 379ee908f0ab20a62451c709b7c9a24a706e3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 13/37] fix: tables: deserialize the stored row into a fresh
 object in update and upsert

---
 table.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 62dc4f5..91658c3 100644
--- a/table.go
+++ b/table.go
@@ -502,9 +502,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -538,6 +535,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -691,9 +689,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -723,6 +718,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// old record
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
-- 
2.43.0


From 3bfcfe9c444919cb089e1685804e18d44f787e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 14/37] fix: tables: a failure to read is not a missing row in
 insert, update and upsert

---
 table.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 91658c3..1ada78c 100644
--- a/table.go
+++ b/table.go
@@ -407,7 +407,11 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			// check if exist
-			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
+			exist, err := t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if t.keyDuplicate(i, keys) || exist {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -532,6 +536,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -720,9 +727,12 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 			var (
 				oldTr    T
 				isUpdate bool
-				err      error
 			)
-			if t.exist(key, batch, iter) {
+			exist, err := t.exist(key, batch, iter)
+			if err != nil {
+				return err
+			}
+			if exist {
 				err := t.serializer.Deserialize(iter.Value(), &oldTr)
 				if err != nil {
 					return err
@@ -821,9 +831,9 @@ func (t *_table[T]) Exist(tr T, optBatch ...Batch) bool {
 	return true
 }
 
-func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
+func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) (bool, error) {
 	if t.filter != nil && !t.filter.MayContain(context.Background(), key) {
-		return false
+		return false, nil
 	}
 
 	if iter == nil {
@@ -836,7 +846,10 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 		defer iter.Close()
 	}
 
-	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
+	if iter.SeekGE(key) {
+		return bytes.Equal(iter.Key(), key), nil
+	}
+	return false, iter.Error()
 }
 
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
-- 
2.43.0


From 3719b90456570fed5c5cc8e86882f48d4322624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 15/37] fix: tables: unsafe update closes its own batch and
 only that

---
 table_unsafe.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..9b37ca6 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From df4103f1598054ba689fee0107c1fd196daf2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 16/37] fix: tables: delete removes the index entries of the
 row as stored

---
 table.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 1ada78c..dea4d2a 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -594,8 +595,9 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	t.mutex.RUnlock()
 
 	var (
-		batch         Batch
-		externalBatch = len(optBatch) > 0 && optBatch[0] != nil
+		batch          Batch
+		batchReadWrite Batch
+		externalBatch  = len(optBatch) > 0 && optBatch[0] != nil
 	)
 
 	if externalBatch {
@@ -605,6 +607,10 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		defer batch.Close()
 	}
 
+	if batch.Type() == BatchTypeReadWrite {
+		batchReadWrite = batch
+	}
+
 	var (
 		keyBuffer      = t.db.getKeyBufferPool().Get()[:0]
 		indexKeyBuffer = t.db.getKeyBufferPool().Get()[:0]
@@ -622,14 +628,27 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		// data key
 		var key = t.key(tr, keyBuffer[:0])
 
+		// the row as stored, which may differ from the one given
+		stored, found, err := t.stored(key, batchReadWrite)
+		if err != nil {
+			return err
+		}
+
 		// delete
-		err := batch.Delete(key, Sync)
+		err = batch.Delete(key, Sync)
 		if err != nil {
 			return err
 		}
 
 		// delete from index
 		for _, idx := range indexes {
+			if found {
+				err = idx.OnDelete(t, stored, batch, indexKeyBuffer[:0])
+				if err != nil {
+					return err
+				}
+			}
+
 			err = idx.OnDelete(t, tr, batch, indexKeyBuffer[:0])
 			if err != nil {
 				return err
@@ -647,6 +666,20 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	return nil
 }
 
+func (t *_table[T]) stored(key []byte, batch Batch) (tr T, found bool, err error) {
+	data, closer, err := t.db.Get(key, batch)
+	if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
+			err = nil
+		}
+		return tr, false, err
+	}
+	defer closer.Close()
+
+	err = t.serializer.Deserialize(data, &tr)
+	return tr, err == nil, err
+}
+
 func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
 	t.mutex.RLock()
 	indexes := make(map[IndexID]*Index[T])
-- 
2.43.0


From 7f5cb6f5589d52861a74c8746f01e20353fd7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 17/37] fix: table Get reports a storage failure as such and
 not as ErrNotFound

---
 table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index dea4d2a..a863068 100644
--- a/table.go
+++ b/table.go
@@ -922,7 +922,10 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 
 		record, closer, err := t.db.Get(key, batch)
 		if err != nil {
-			return nil, ErrNotFound
+			if errors.Is(err, pebble.ErrNotFound) {
+				return nil, ErrNotFound
+			}
+			return nil, fmt.Errorf("get failed: %w", err)
 		}
 		defer closer.Close()
 
-- 
2.43.0


From 09fde81c0d037677247be1b0f9b2a851c4fa31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 18/37] fix: multi-key reads report a failed seek

---
 table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table.go b/table.go
index a863068..09c118f 100644
--- a/table.go
+++ b/table.go
@@ -1020,6 +1020,9 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, fmt.Errorf("get failed: %w", err)
+			}
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-- 
2.43.0


From 23f4214ea23902793c2d0c8164731a880d04c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 19/37] fix: multi-key reads return rows stored with an empty
 value

---
 table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 09c118f..47e1d36 100644
--- a/table.go
+++ b/table.go
@@ -956,7 +956,7 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 			}
 
 			for _, value := range values {
-				if len(value) == 0 {
+				if value == nil {
 					trs = append(trs, t.valueNil)
 					continue
 				}
@@ -1014,7 +1014,7 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
+				values[i] = nil // not stored, other than stored with an empty value
 				continue
 			}
 		}
@@ -1026,7 +1026,7 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-				values[i] = values[i][:0]
+				values[i] = nil // not stored, other than stored with an empty value
 				continue
 			}
 		}
@@ -1034,6 +1034,9 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		iterValue := iter.Value()
 		value := values[i][:0]
 		value = append(value, iterValue...)
+		if value == nil {
+			value = []byte{}
+		}
 
 		values[i] = value
 	}
-- 
2.43.0


From 3fd292cdd6c30a7803296d9cec212636b26bbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 20/37] fix: tables: AddIndex releases the table's lock when an
 index id is taken

---
 table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/table.go b/table.go
index 47e1d36..c9e95d3 100644
--- a/table.go
+++ b/table.go
@@ -251,6 +251,7 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
 		if ok {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
 		t.secondaryIndexes[idx.IndexID] = idx
-- 
2.43.0


From 5bffd667ac096d67dcdd6ae1b848298fbc5f1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 21/37] fix: re-indexing of index 255 removes its old entries

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index c9e95d3..623bb7a 100644
--- a/table.go
+++ b/table.go
@@ -270,7 +270,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		idxsMap[idx.IndexID] = idx
 		err := t.db.DeleteRange(
 			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+			[]byte{byte(t.id), byte(idx.IndexID), 0xFF, 0xFF, 0xFF, 0xFF}, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
-- 
2.43.0


From 37ca7621590741f9051f8a7135de917b45a218ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 22/37] fix: re-indexing closes its iterator and every batch it
 opens

---
 table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 623bb7a..139bced 100644
--- a/table.go
+++ b/table.go
@@ -287,6 +287,9 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer func() {
+		_ = iter.Close()
+	}()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -323,6 +326,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 				return fmt.Errorf("failed to commit reindex batch: %w", err)
 			}
 
+			_ = batch.Close()
 			batch = t.db.Batch(BatchTypeWriteOnly)
 		}
 	}
@@ -332,8 +336,6 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
 	}
 
-	_ = iter.Close()
-
 	return nil
 }
 
-- 
2.43.0


From 3748f1d70cf28d72ec3b80cda9f6a716862bf959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 23/37] fix: re-indexing reports a storage failure while
 reading rows

---
 table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table.go b/table.go
index 139bced..027bb46 100644
--- a/table.go
+++ b/table.go
@@ -331,6 +331,10 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		}
 	}
 
+	if err := iter.Error(); err != nil {
+		return fmt.Errorf("failed to read rows during reindexing: %w", err)
+	}
+
 	err := batch.Commit(Sync)
 	if err != nil {
 		return fmt.Errorf("failed to commit reindex batch: %w", err)
-- 
2.43.0


From 197c8db96c2bea16c9c651961936336c458aaaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 24/37] fix: a scan whose iterator cannot be opened reports the
 error

---
 iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iter.go b/iter.go
index 8de953e..48c0d7a 100644
--- a/iter.go
+++ b/iter.go
@@ -259,7 +259,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err // like any iterator, closing returns the accumulated error
 }
 
 var _ Iterator = (*errIterator)(nil)
-- 
2.43.0


From e5d475519860384ef86788062b621c4542ab8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 25/37] fix: dump reports a storage failure while reading a
 table

---
 bond.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bond.go b/bond.go
index 7e49f6f..88e641c 100644
--- a/bond.go
+++ b/bond.go
@@ -554,6 +554,10 @@ func iteratorToSST(itr Iterator, path string) error {
 			writer = sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
 		}
 	}
+	if err := itr.Error(); err != nil {
+		_ = writer.Close()
+		return err
+	}
 	return writer.Close()
 }
 
-- 
2.43.0


From d41cd5329dc299fa2fcf0a8b4dd8084c183bf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:34 +0000
Subject: [PATCH 26/37] fix: dump reads its list of indexes from the snapshot
 and reports failures

---
 bond.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bond.go b/bond.go
index 88e641c..aa4d0ec 100644
--- a/bond.go
+++ b/bond.go
@@ -414,7 +414,14 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		indexItr, err := snapshot.NewIter(&pebble.IterOptions{})
+		if err != nil {
+			return err
+		}
+		indexes, err := readIndexIDS(indexItr, tableID)
+		if err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -499,10 +506,15 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	indexIDS, _ := readIndexIDS(db.Iter(&IterOptions{}), tableID)
+	return indexIDS
+}
+
+// readIndexIDS lists the indexes which have entries and closes the iterator.
+func readIndexIDS(itr Iterator, tableID TableID) ([]IndexID, error) {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
 	for {
 		if !itr.SeekGE(prefix) {
 			break
@@ -518,7 +530,7 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	return indexIDS, itr.Close()
 }
 
 // write all the key/value of iterator to the SST file.
-- 
2.43.0


From cb8290a447584f18280b0ac00ca23f9790ccda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 27/37] fix: restore picks the files of exactly the selected
 tables

---
 bond.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/bond.go b/bond.go
index aa4d0ec..680abda 100644
--- a/bond.go
+++ b/bond.go
@@ -471,32 +471,24 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 	// ingest the required sst file.
 	ssts := []string{}
 	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
 		if filepath.Ext(path) != ".sst" {
 			return nil
 		}
-		// filter only relevant tables.
-		filter := true
+		// filter only relevant tables, by the directory dump wrote the file to.
+		dir := filepath.Base(filepath.Dir(path))
 		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
-				filter = false
+			tableDir := fmt.Sprintf("table_%d", table)
+			if dir == tableDir || withIndex && strings.HasPrefix(dir, tableDir+"_index_") {
+				ssts = append(ssts, path)
 				break
 			}
 		}
-
-		if filter {
-			return nil
-		}
-
-		if !strings.Contains(path, "index") {
-			ssts = append(ssts, path)
-			return nil
-		}
-		if withIndex {
-			ssts = append(ssts, path)
-		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 5cd91b8a393fc66d9cc0b534e35dd59a81d2390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 28/37] fix: secondary index scans do not depend on which rows
 the callback reads

---
 table.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 027bb46..9c22e3b 100644
--- a/table.go
+++ b/table.go
@@ -1189,11 +1189,14 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
 	prefetchAndGetValue := func() (T, error) {
+		if len(prefetchedValues) > 0 {
+			return getPrefetchedValue() // asked for again
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1223,6 +1226,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		return getPrefetchedValue()
 	}
 
+	var firstKey []byte // prefetching moves the iterator, and with it the key it shows
 	for first(); it.Valid(); next() {
 		select {
 		case <-ctx.Done():
@@ -1231,14 +1235,15 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		firstKey = append(firstKey[:0], it.Key()...)
+		cont, err := f(firstKey, Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
 		}
 
 		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
+		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From f071e883ec1a340e7323c017916498555d47c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 29/37] fix: intersection reports a storage failure while
 scanning an index

---
 index.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index c4c0248..2e442f8 100644
--- a/index.go
+++ b/index.go
@@ -373,7 +373,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -390,7 +392,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
-- 
2.43.0


From 4e03e79f27d9b5aab247edb351228d7e86037441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 30/37] fix: intersection reads its rows through the given
 batch

---
 query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 4ebdf88..f43cebd 100644
--- a/query.go
+++ b/query.go
@@ -324,7 +324,11 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	var batch Batch
+	if len(optBatch) > 0 {
+		batch = optBatch[0]
+	}
+	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ac77fcc2de1da8c7659521983e5fa2a7b0f6a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 31/37] fix: offset and limit of an intersection apply after a
 cursor row too

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index f43cebd..dd17d77 100644
--- a/query.go
+++ b/query.go
@@ -371,7 +371,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
+	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
 			if int(q.offset) >= len(records) {
-- 
2.43.0


From ecdf6a244e07d613104ff89e0d88fab56ec15a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 32/37] fix: very large offsets and limits of a query

---
 query.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/query.go b/query.go
index dd17d77..15a938a 100644
--- a/query.go
+++ b/query.go
@@ -226,7 +226,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +260,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +270,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -306,7 +306,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -316,7 +316,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -374,7 +374,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
+			if q.offset >= uint64(len(records)) {
 				records = make([]T, 0)
 			} else {
 				records = records[q.offset:]
@@ -384,7 +384,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		// limit
 		if hasLimit && !limitApplied {
 			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
+			if lastIndex >= uint64(len(records)) {
 				lastIndex = uint64(len(records))
 			}
 			records = records[:lastIndex]
-- 
2.43.0


From 485e6dfc1e1cc87b0bd8ef9aba35ff5484beaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 33/37] fix: a refused open closes the storage, and an
 unreadable or malformed data version is refused

---
 bond.go    |  9 +++------
 version.go | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/bond.go b/bond.go
index 680abda..26fdc63 100644
--- a/bond.go
+++ b/bond.go
@@ -220,12 +220,9 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
-		if err := db.initVersion(); err != nil {
-			return nil, err
-		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	if err := db.ensureVersion(); err != nil {
+		_ = pdb.Close()
+		return nil, err
 	}
 
 	return db, nil
diff --git a/version.go b/version.go
index f8f4db1..d820ef6 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,20 +14,45 @@ const (
 )
 
 func (db *_db) Version() int {
+	ver, _, _ := db.storedVersion()
+	return ver
+}
+
+// storedVersion is the data version found in the database, if there is one.
+func (db *_db) storedVersion() (int, bool, error) {
 	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	if errors.Is(err, pebble.ErrNotFound) {
+		return 0, false, nil
+	}
 	if err != nil {
-		return 0
+		return 0, false, fmt.Errorf("failed to read bond db version: %w", err)
 	}
 	defer func() { _ = closer.Close() }()
 
-	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	ver, err := strconv.ParseInt(string(value), 10, 32)
+	if err != nil {
+		return 0, true, fmt.Errorf("malformed bond db version: %w", err)
+	}
+	return int(ver), true, nil
 }
 
-func (db *_db) initVersion() error {
-	if db.Version() > 0 {
-		return nil
+// ensureVersion stamps a new database with the current data version and
+// refuses one which has another.
+func (db *_db) ensureVersion() error {
+	ver, found, err := db.storedVersion()
+	if err != nil {
+		return err
+	}
+	if !found {
+		return db.initVersion()
+	}
+	if ver != BOND_DB_DATA_VERSION {
+		return fmt.Errorf("bond db version is %d but expecting %d", ver, BOND_DB_DATA_VERSION)
 	}
+	return nil
+}
+
+func (db *_db) initVersion() error {
 	ver := fmt.Sprintf("%d", BOND_DB_DATA_VERSION)
 	return db.pebble.Set(bondDataVersionKey(), []byte(ver), pebble.Sync)
 }
-- 
2.43.0


From d5b0864dad8f459bd40635d05799c2a2bd2069ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 34/37] fix: the storage format file is written only once the
 database is open

---
 bond.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bond.go b/bond.go
index 26fdc63..979215e 100644
--- a/bond.go
+++ b/bond.go
@@ -169,15 +169,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, err
 	}
 
-	if err != nil && os.IsNotExist(err) {
-		// create version for to check invariant in the
-		// next open.
-		if err := os.WriteFile(pebbelVersionPath,
-			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
-			os.ModePerm); err != nil {
-			return nil, err
-		}
-	} else {
+	newVersionFile := err != nil
+	if !newVersionFile {
 		existingVersion, err := strconv.ParseUint(string(version), 10, 64)
 		if err != nil {
 			return nil, err
@@ -225,6 +218,17 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, err
 	}
 
+	if newVersionFile {
+		// create version for to check invariant in the
+		// next open.
+		if err := os.WriteFile(pebbelVersionPath,
+			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
+			os.ModePerm); err != nil {
+			_ = pdb.Close()
+			return nil, err
+		}
+	}
+
 	return db, nil
 }
 
-- 
2.43.0


From f4a5912bee9779dd63e27fb5768636f1ff187756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 35/37] fix: adding to the bloom filter takes its lock for
 writing

---
 bloom/bloom_filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..844dced 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -77,8 +77,8 @@ func NewBloomFilter(n uint, fp float64, numOfBuckets int, keyPrefixes ...[]byte)
 }
 
 func (b *BloomFilter) Add(_ context.Context, key []byte) {
-	b.mutex.RLock()
-	defer b.mutex.RUnlock()
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 
 	bucket := b.buckets[b.hash(key)]
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
-- 
2.43.0


From e1936b595565634dfe9d9f1d3827411ae524307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:21 +0000
Subject: [PATCH 36/37] fix: loading a bloom filter releases every value it
 reads

---
 bloom/bloom_filter.go | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 844dced..b8403ab 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -97,33 +97,21 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	if err != nil {
+		return fmt.Errorf("configuration changed")
+	}
+	sameBuckets := len(bucketNum) == 8 && binary.BigEndian.Uint64(bucketNum) == uint64(b.numOfBuckets)
+	_ = bucketNumCloser.Close()
+	if !sameBuckets {
 		return fmt.Errorf("configuration changed")
 	}
 
 	for _, bucket := range b.buckets {
-		data, closer, err := store.Get(buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
-		if err != nil {
-			return err
-		}
-
-		filter := bloom.New(0, 0)
-		zr, err := zstd.NewReader(bytes.NewBuffer(data))
-		if err != nil {
-			return err
-		}
-
-		_, err = filter.ReadFrom(zr)
+		filter, err := loadFilter(store, buildKey(keyBuff[:0], b.keyPrefix, bucket.num))
 		if err != nil {
 			return err
 		}
 
-		zr.Close()
-		_ = closer.Close()
-
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
@@ -135,6 +123,27 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	return nil
 }
 
+func loadFilter(store bond.FilterStorer, key []byte) (*bloom.BloomFilter, error) {
+	data, closer, err := store.Get(key)
+	if err != nil {
+		return nil, err
+	}
+	defer func() { _ = closer.Close() }()
+
+	zr, err := zstd.NewReader(bytes.NewBuffer(data))
+	if err != nil {
+		return nil, err
+	}
+	defer zr.Close()
+
+	filter := bloom.New(0, 0)
+	_, err = filter.ReadFrom(zr)
+	if err != nil {
+		return nil, err
+	}
+	return filter, nil
+}
+
 func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
-- 
2.43.0


From 6c5a2f3bb1a165b9716ed9e028c0d802703ca558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 37/37] fix: a cleared bloom filter is saved in full

---
 bloom/bloom_filter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index b8403ab..761d1e7 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -196,6 +196,14 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	// the next save has to write every bucket again
+	for _, bucket := range b.buckets {
+		bucket.hasBeenWritten = false
+	}
+
 	end := make([]byte, len(b.keyPrefix))
 	copy(end, b.keyPrefix)
 	end[len(end)-1]++
-- 
2.43.0

