From 348f3203c9aae9d68a946f726c574584ac6d6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 01/45] fix: return looked up elements sorted by rank

GetElements (and UpdateElements results) documents that returned elements
are sorted by rank, but they were returned grouped in the order the segment
lookups happened to finish, in order of ID inside each segment.
---
 segments.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segments.go b/segments.go
index 71ddfd1..47ead59 100644
--- a/segments.go
+++ b/segments.go
@@ -960,6 +960,8 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 	for e := range resch {
 		res = append(res, e...)
 	}
+	// Segments are looked up concurrently, so restore rank order.
+	RankedElements(res).Sort()
 	return res, nil
 }
 
-- 
2.43.0


From 8f335fad830b4014fd1599b4d612e4580337d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 02/45] fix: GetPercentile panics on empty lists and empty last
 segments

On an empty list, or with percentile 1.0 and an empty last segment, the
element with index -1 was requested.
---
 list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/list.go b/list.go
index 08a3ee9..f264420 100644
--- a/list.go
+++ b/list.go
@@ -1746,10 +1746,18 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		// No elements, nothing to return.
+		return nil, nil
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		// Last element, which is not necessarily in the last segment.
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
-- 
2.43.0


From d9de2fb03eda3c023b825c1b3353584d40ac4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 03/45] fix: report list rank, not segment rank, as rank before
 update

The previous rank of an updated element was calculated inside its segment
only and the rank from the bottom was always 0.
---
 list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index f264420..97e5c22 100644
--- a/list.go
+++ b/list.go
@@ -1278,6 +1278,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Contains all segments with previous score values.
 	oldRank := make(map[ElementID]*RankedElement)
 
+	// Offsets before the update, used for the previous ranks.
+	offsets, total := scores.topOffsets()
+
 	// used for local locking
 	var mu sync.Mutex
 	var withLock = func(fn func()) {
@@ -1376,11 +1379,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, offsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(total)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From ed7c372c70e76f6d9920c22c6d1b1a3da671e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 04/45] fix: avoid deadlock between neighbor lookups and
 updates

Looking up neighbors held the lock of one segment while acquiring the
locks of others, in an order that conflicts with UpdateElements, which
holds several segment locks.
---
 segments.go | 94 ++++++++++++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/segments.go b/segments.go
index 47ead59..2b7a394 100644
--- a/segments.go
+++ b/segments.go
@@ -937,7 +937,6 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				errch <- err
 				return
 			}
-			defer ls.unlock()
 			var res []RankedElement
 			for _, id := range ids {
 				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
@@ -948,6 +947,10 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				re.CalculateFromBottom(total)
 				res = append(res, *re)
 			}
+			ls.unlock()
+			for i := range res {
+				s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+			}
 			resch <- res
 		}(segIdx, id)
 	}
@@ -972,19 +975,21 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	defer ls.unlock()
 
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
 	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	ls.unlock()
 	if err != nil {
 		return nil, err
 	}
+	s.addNeighbors(ctx, bs, re, segIdx, radius)
 	return re, nil
 }
 
 // findRanked returns ranked element.
+// Neighbors are only filled with elements from the supplied segment.
 // caller must hold segment read lock and element read lock for supplied segment.
 func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
 	eidx, err := ls.elements.FindIdx(id)
@@ -1003,59 +1008,46 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 	if radius <= 0 {
 		return &r, nil
 	}
-	segIdx := ls.index
-
-	// Below
-	func() {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return
-				}
-				defer ls.unlock()
-				bLS = ls
-				bidx = 0
-			}
-			r.Below = append(r.Below, bLS.elements[bidx])
-		}
-	}()
-
-	// Above
-	func() {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			aidx--
-			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return
-				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
-			}
-			r.Above = append(r.Above, aLS.elements[aidx])
-		}
-	}()
 
+	// Neighbors within the segment. See addNeighbors for the rest.
+	for i := eidx + 1; i < len(ls.elements) && len(r.Below) < radius; i++ {
+		r.Below = append(r.Below, ls.elements[i])
+	}
+	for i := eidx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		r.Above = append(r.Above, ls.elements[i])
+	}
 	return &r, nil
 }
 
+// addNeighbors will complete Above and Below of an element in the supplied segment,
+// with elements from other segments.
+// Updates may hold several elements locks, so to avoid deadlocks only one is held at the time
+// and the caller may not hold any.
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) {
+	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			break
+		}
+		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
+			r.Below = append(r.Below, ls.elements[j])
+		}
+		ls.unlock()
+	}
+	for i := segIdx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			break
+		}
+		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
+			r.Above = append(r.Above, ls.elements[j])
+		}
+		ls.unlock()
+	}
+}
+
 // getElementsOffset returns elements from a specific segment+element offset.
 // If at end of list fewer results may be returned.
 // Returned offsets start at beginning of segment.
-- 
2.43.0


From cc93806229952cb3ffd5725c357e70c314fe9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 05/45] fix: avoid deadlock when getting elements from score

The lock of the first segment was acquired again while already held,
which deadlocks if an update is waiting for the segment.
---
 segments.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/segments.go b/segments.go
index 2b7a394..643c656 100644
--- a/segments.go
+++ b/segments.go
@@ -1057,25 +1057,28 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 	if err != nil {
 		return nil, err
 	}
-
-	defer ls.unlock()
-	seg := ls.seg
-	for i, elem := range ls.elements {
-		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
-			if err != nil {
-				return nil, err
-			}
-			return e.Ranked(i, seg.N), nil
+	first, n := 0, len(ls.elements)
+	for first < n && ls.elements[first].Score > score {
+		first++
+	}
+	res := make(Elements, 0, elements)
+	for _, elem := range ls.elements[first:] {
+		if len(res) == elements {
+			break
 		}
+		res = append(res, elem)
 	}
+	ls.unlock()
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
-	if err != nil {
-		return nil, err
+	// Add from next segments, without holding the lock of this.
+	if len(res) < elements {
+		e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(res))
+		if err != nil {
+			return nil, err
+		}
+		res = append(res, e...)
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return res.Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 3e3922acabc1535727aeac1ee330f005f3cd0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 06/45] fix: avoid deadlock in Stats with elements

Segments were acquired again while already held, which deadlocks if a
writer is waiting for them.
---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 97e5c22..9a65a9d 100644
--- a/list.go
+++ b/list.go
@@ -1036,13 +1036,13 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
-- 
2.43.0


From 66978b8b13bf96bf3d42414312890b04a4a7e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 07/45] fix: panic in GetPercentile when a segment is
 concurrently emptied

---
 list.go     | 12 ++++++++++++
 segments.go |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/list.go b/list.go
index 9a65a9d..e64a48b 100644
--- a/list.go
+++ b/list.go
@@ -1749,6 +1749,18 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 	l.RUnlock()
 
 	store := blobstore.StoreWithSet(bs, set)
+	for try := 0; try < 10; try++ {
+		e, err := l.getPercentile(ctx, store, percentile, radius, segs)
+		if err != errSegmentEmpty {
+			return e, err
+		}
+	}
+	return nil, ErrNotFound
+}
+
+// getPercentile returns the element at a given percentile.
+// If the segment was concurrently emptied errSegmentEmpty is returned.
+func (l *List) getPercentile(ctx context.Context, store blobstore.WithSet, percentile float64, radius int, segs *segments) (*RankedElement, error) {
 	segOffs, total := segs.scores.topOffsets()
 	if total == 0 {
 		// No elements, nothing to return.
diff --git a/segments.go b/segments.go
index 643c656..05b46a9 100644
--- a/segments.go
+++ b/segments.go
@@ -968,6 +968,9 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 	return res, nil
 }
 
+// errSegmentEmpty is returned when an element is requested from a segment without elements.
+var errSegmentEmpty = errors.New("segment is empty")
+
 // getElementIndex returns element the element at supplied index in supplied segment.
 // Must hold Read Lock
 func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, segIdx, elementOff, offset, radius int) (*RankedElement, error) {
@@ -976,6 +979,10 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 		return nil, err
 	}
 
+	if len(ls.elements) == 0 {
+		ls.unlock()
+		return nil, errSegmentEmpty
+	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-- 
2.43.0


From e19cf59b4a7d67eba4c385d488a68e8fbbed7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 08/45] fix: Deduplicate kept the lowest score of elements
 updated at the same time

---
 elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..e14d9f7 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
-- 
2.43.0


From bdf04071e4b8a29abfd30976daf37f2cbe7117ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 09/45] fix: endless recursion when sorting many elements with
 tied scores

---
 elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elements.go b/elements.go
index e14d9f7..73c3841 100644
--- a/elements.go
+++ b/elements.go
@@ -130,6 +130,11 @@ func (l *Elements) Sort() (changed bool) {
 	}
 	// Split + sort
 	split := l.SplitSize(2500)
+	if len(split) == 1 {
+		// All are tied on score and tiebreaker, so they cannot be split.
+		sort.Slice(lst, lst.Sorter())
+		return true
+	}
 	for i, s := range split {
 		s.Sort()
 		split[i] = s
-- 
2.43.0


From 5974caa72db86280d20a709d510a54cf1422a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 10/45] fix: SortedIDsBefore returned wrong lists and counts

---
 lists.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lists.go b/lists.go
index 7be2d7d..5429185 100644
--- a/lists.go
+++ b/lists.go
@@ -443,7 +443,7 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					return true
 				}
 				s = append(s, string(id))
-				if id < firstElement {
+				if len(s) == 1 || id < firstElement {
 					firstElement = id
 				}
 			} else {
@@ -455,8 +455,8 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From b84fcf2ddd9547023db7565ac70bfb30063e3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 11/45] fix: MaxSizeStore.Delete reported success without
 deleting when the blob could not be read

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 7c06d9aacd637c9abb1e5b484de1b8f61042477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 12/45] fix: PermanentErr changed the default settings of all
 retry stores and lost its errors

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0


From 5025b0eb9b5d1601622f32dc328e4d5b7776c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 13/45] fix: BadgerStore.Close hid errors of the final flush
 and of closing

---
 blobstore/badgerstore/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..0634321 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -43,9 +43,9 @@ func (b *BadgerStore) Close() error {
 	err := b.flush()
 	err2 := b.db.Close()
 	if err != nil {
-		return err2
+		return err
 	}
-	return err
+	return err2
 }
 
 func (b *BadgerStore) key(set, key string) []byte {
-- 
2.43.0


From 84aada1f0a888d8146de48b71bc9f0cefd644886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 14/45] fix: BadgerStore lost queued blobs when a flush failed

---
 blobstore/badgerstore/badger.go | 39 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 0634321..519e335 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -86,30 +86,47 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	added := make([]string, 0, len(b.queue))
+	// Entries are kept in the queue until they have been committed.
+	commit := func() error {
+		err := txn.Commit()
+		if err == nil {
+			for _, k := range added {
+				delete(b.queue, k)
+			}
+			added = added[:0]
+		}
+		return err
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			txn = b.db.NewTransaction(true)
-			err = txn.Set([]byte(k), v)
-			if err != nil {
-				txn.Discard()
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig {
+			if err = commit(); err != nil {
 				return err
 			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
+			txn = b.db.NewTransaction(true)
+			err = txn.Set([]byte(k), v)
+		}
+		if err != nil {
 			txn.Discard()
 			return err
 		}
+		added = append(added, k)
 	}
-	return txn.Commit()
+	return commit()
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
 	cKey := b.keyString(set, key)
 	dst := make([]byte, len(val))
 	copy(dst, val)
+	// Entries that can never be written must not end up in the queue.
+	txn := b.db.NewTransaction(true)
+	err := txn.Set([]byte(cKey), dst)
+	txn.Discard()
+	if err != nil {
+		return err
+	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	b.queue[cKey] = dst
-- 
2.43.0


From 3b45c9c7ab2930c56add498eca855ff6ae4c2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 15/45] fix: MemBlobStore handed out its stored slices and
 mixed up sets and keys containing a slash

---
 blobstore/memstore/memstore.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..dcf3808 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -35,15 +36,16 @@ type MemBlobStore struct {
 }
 
 func toKey(set, key string) string {
-	return set + "/" + key
+	return strconv.Itoa(len(set)) + "/" + set + key
 }
 
 func splitKey(k string) (set, key string) {
-	s := strings.Split(k, "/")
-	if len(s) != 2 {
-		panic(fmt.Errorf("len != 2, was %d", len(s)))
+	s := strings.SplitN(k, "/", 2)
+	n, err := strconv.Atoi(s[0])
+	if err != nil {
+		panic(err)
 	}
-	return s[0], s[1]
+	return s[1][:n], s[1][n:]
 }
 
 func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error) {
@@ -57,7 +59,7 @@ func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	if !ok {
 		return nil, blobstore.ErrBlobNotFound
 	}
-	return blob, nil
+	return append(make([]byte, 0, len(blob)), blob...), nil
 }
 
 func (m *MemBlobStore) Set(ctx context.Context, set, key string, val []byte) error {
-- 
2.43.0


From 55d66a83672eaf128e72b1fb6c9b741059a29f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 16/45] fix: BadgerStore.Delete made an older value readable
 while deleting a queued blob

---
 blobstore/badgerstore/badger.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 519e335..9bd95b7 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -138,15 +138,19 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 
 func (b *BadgerStore) Delete(ctx context.Context, set, key string) error {
 	b.mu.Lock()
-	delete(b.queue, b.keyString(set, key))
-	b.mu.Unlock()
-	return b.db.Update(func(tx *badger.Txn) error {
+	defer b.mu.Unlock()
+	err := b.db.Update(func(tx *badger.Txn) error {
 		err := tx.Delete(b.key(set, key))
 		if err == badger.ErrKeyNotFound {
 			err = nil
 		}
 		return err
 	})
+	if err == nil {
+		// Only now, otherwise an older value in the database can be read.
+		delete(b.queue, b.keyString(set, key))
+	}
+	return err
 }
 
 // BadgerLogger converts a logger on a context to a Badger logger.
-- 
2.43.0


From 0089f67696525997866f2178af4c285cf7045b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 17/45] fix: Insert never returned on lists with a split size
 below 4

---
 list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/list.go b/list.go
index e64a48b..a7d3519 100644
--- a/list.go
+++ b/list.go
@@ -1581,6 +1581,10 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
+	if wantLimit < 1 {
+		// Very small split sizes, still insert something.
+		wantLimit = 1
+	}
 	for len(e) > wantLimit {
 		// Calling ourselves, wantLimit should be the same.
 		err := l.insert(ctx, bs, e[:wantLimit], segs)
-- 
2.43.0


From b78ce46964ee50403d690ad33d9b361abc84053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 18/45] fix: populating or re-indexing a list with merge size 0
 and split size 1 divided by zero

---
 elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elements.go b/elements.go
index 73c3841..ad75ca7 100644
--- a/elements.go
+++ b/elements.go
@@ -391,6 +391,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
-- 
2.43.0


From 72a1463856e46a379c37b3daf6d7c6e8eb552902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 19/45] fix: LazySaver mixed up blobs with the same
 concatenation of set and key

---
 blobstore/lazysaver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..44d7b94 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"math/bits"
+	"strconv"
 	"sync"
 	"time"
 
@@ -636,7 +637,8 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 }
 
 func lazyKey(set, key string) string {
-	return set + "/" + key
+	// Both may contain the separator, so make sure that different blobs have different keys.
+	return strconv.Itoa(len(set)) + "/" + set + "/" + key
 }
 
 var (
-- 
2.43.0


From 83bc4767819b9f31c25dfd1b46b79bc78afc2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 20/45] fix: LazySaver could save an older version of a blob
 after a newer one

---
 blobstore/lazysaver.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 44d7b94..6e7a046 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -74,6 +74,9 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+	// after is closed when an earlier save of the same blob has finished.
+	// Can be nil. done is closed when this save has finished.
+	after, done chan struct{}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -240,6 +243,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		b = append(getDataBufferChunk(len(b)), b...)
 		l.mu.Lock()
 		e, ok := l.cacheIdx[lazyKey(set, key)]
+		var after chan struct{}
 		if ok {
 			// First update cache, since we have it.
 			v := e.Value.(updateItemRequest)
@@ -254,8 +258,9 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				l.mu.Unlock()
 				return nil
 			}
+			after = v.done
 		}
-		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now()}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), after: after}
 		if l.verbose {
 			log.Logger(ctx).Info("Adding new Save")
 		}
@@ -283,6 +288,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				l.mu.Unlock()
 				return nil
 			}
+			r.after = v.done
 		}
 		if l.verbose {
 			log.Logger(ctx).Info("Not present in buffer")
@@ -310,6 +316,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 
 // caller must hold l.mu.Lock. This lock is released.
 func (l *LazySaver) add(r updateItemRequest) {
+	r.done = make(chan struct{})
 	e := l.cache.PushBack(r)
 	l.cacheIdx[lazyKey(r.set, r.key)] = e
 	l.mu.Unlock()
@@ -465,6 +472,10 @@ func (l *LazySaver) startSaver(n int) {
 	defer l.saversWG.Done()
 	for e := range input {
 		v := e.Value.(updateItemRequest)
+		if v.after != nil {
+			// Another saver is still saving an earlier version of this blob.
+			<-v.after
+		}
 		var dataDone []byte
 		ok := func() bool {
 			ctx, cancel := context.WithTimeout(log.WithValues(ctxb, "set", v.set, "key", v.key), timeout)
@@ -503,6 +514,7 @@ func (l *LazySaver) startSaver(n int) {
 			return true
 		}()
 		_ = ok
+		close(v.done)
 		// Now remove from cache
 		tokens <- v.token
 		l.mu.Lock()
-- 
2.43.0


From b8bdf00a0fb7a8b8c354d1833fa940f5dbb8c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 21/45] fix: cloning a list while it was updated could lose or
 duplicate elements in the clone

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index a7d3519..68a4b5d 100644
--- a/list.go
+++ b/list.go
@@ -490,7 +490,7 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
 	if err != nil {
 		return fmt.Errorf("loading segments: %v", err)
 	}
-- 
2.43.0


From 40a5ed2f0e0438593750689e69ec82d7c0fc66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 22/45] fix: backup status shared its errors with the running
 job

---
 backup/job.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/backup/job.go b/backup/job.go
index 8018529..e2b5636 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -39,6 +39,12 @@ func (id ID) Status() *Status {
 	}
 	job.mu.Lock()
 	status := job.status
+	// Copy what the job may still modify.
+	status.Errors = make(map[string]string, len(job.status.Errors))
+	for k, v := range job.status.Errors {
+		status.Errors[k] = v
+	}
+	status.Success = append(make([]string, 0, len(job.status.Success)), job.status.Success...)
 	job.mu.Unlock()
 	return &status
 }
@@ -183,14 +189,18 @@ func (req Request) Start(bg context.Context) ID {
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
+			job.mu.Lock()
 			job.status.Errors["saver"] = err.Error()
+			job.mu.Unlock()
 			return
 		}
 		defer dst.Close()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
+			job.mu.Lock()
 			job.status.Errors["compress"] = err.Error()
+			job.mu.Unlock()
 			return
 		}
 		defer zw.Close()
-- 
2.43.0


From 972ad7afc1644a89886546e27e8de4f6bf169e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 23/45] fix: backup job ignored errors writing to the
 destination and dropped lists reported as done when cancelled

---
 backup/job.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index e2b5636..2b696c2 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -194,7 +194,13 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 			return
 		}
-		defer dst.Close()
+		defer func() {
+			if err := dst.Close(); err != nil {
+				job.mu.Lock()
+				job.status.Errors["saver"] = err.Error()
+				job.mu.Unlock()
+			}
+		}()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
@@ -203,9 +209,23 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 			return
 		}
-		defer zw.Close()
+		defer func() {
+			if err := zw.Close(); err != nil {
+				job.mu.Lock()
+				job.status.Errors["compress"] = err.Error()
+				job.mu.Unlock()
+			}
+		}()
 		msg.ReplaceWriter(zw)
 		defer msg.Close()
+		// Also when cancelled, write what has been reported as done.
+		defer func() {
+			if err := msg.Writer().Flush(); err != nil {
+				job.mu.Lock()
+				job.status.Errors["finalizing"] = err.Error()
+				job.mu.Unlock()
+			}
+		}()
 		db := job.db
 
 		// The stream is just a collection of lists one after another.
@@ -250,7 +270,6 @@ func (req Request) Start(bg context.Context) ID {
 			job.status.Errors["finalizing"] = err.Error()
 			job.mu.Unlock()
 		}
-		msg.Flush()
 	}()
 
 	log.Info(ctx, "Backup started")
-- 
2.43.0


From 9a03af47a82bab04c70909b912cdc05220ee5f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 24/45] fix: restore panicked when a list could not be restored

---
 backup/restore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..9366d17 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -96,6 +96,9 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
-- 
2.43.0


From 3111e3e7f8f968386c35590c32b610faf635c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 25/45] fix: double unlock when saving the list failed after a
 reindex

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 68a4b5d..74e7491 100644
--- a/list.go
+++ b/list.go
@@ -773,7 +773,7 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 	segs.index = newIdx
 	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
-		segs.unlock()
+		// Callers unlock.
 		return err
 	}
 
-- 
2.43.0


From 792bb620275f68b723d00a2ea27f83dc3bd64e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 26/45] fix: failed segment saves were ignored when deleting
 from the index and left unsaved elements in the cache

---
 segments.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/segments.go b/segments.go
index 05b46a9..dfd22ca 100644
--- a/segments.go
+++ b/segments.go
@@ -276,19 +276,24 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 		ls.seg.loader = &elementLoader{}
 	}
 
+	err := ls.saveElements(ctx, bs, ls.elements)
+	if err != nil {
+		if s.cache != nil {
+			// Cached elements may have been changed in place.
+			s.cache.Remove(ls.seg.cacheID())
+		}
+		return err
+	}
+
 	s.SegmentsLock.Lock()
 	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
 	s.Segments[ls.index] = *ls.seg
 	s.SegmentsLock.Unlock()
 
-	err := ls.saveElements(ctx, bs, ls.elements)
-	if err != nil {
-		return err
-	}
-
 	if s.cache != nil {
 		s.cache.Add(ls.seg.cacheID(), ls.elements)
 	}
@@ -444,7 +449,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
-- 
2.43.0


From 40a6d437a395c9ae2c9bfa81b03addd1d11bc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 27/45] fix: update reported success when segments could not be
 loaded or saved

---
 list.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 74e7491..6602ff4 100644
--- a/list.go
+++ b/list.go
@@ -1289,6 +1289,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		mu.Unlock()
 	}
 
+	// First error loading score segments.
+	var loadErr error
+
 	// segmentScoresLoad loads a score by index.
 	var segmentScoresLoad func(segIdx int) *lockedSegment
 	segmentScoresLoad = func(segIdx int) *lockedSegment {
@@ -1312,6 +1315,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				log.Error(ctx, "Could not load score segment", "error", err.Error())
 				mu.Lock()
 				delete(segmentScoresWait, segIdx)
+				if loadErr == nil {
+					loadErr = err
+				}
 				mu.Unlock()
 				return nil
 			}
@@ -1399,7 +1405,16 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		return nil, err
 	}
 	// Split incoming elements to get destination score segments.
-	for sidx, elems := range scores.splitElementsIdx(elems) {
+	// Load all of them before changing anything.
+	dstScores := scores.splitElementsIdx(elems)
+	for sidx := range dstScores {
+		segmentScoresLoad(sidx)
+	}
+	if loadErr != nil {
+		unlockAll()
+		return nil, loadErr
+	}
+	for sidx, elems := range dstScores {
 		// The element should end up in this segment
 		scoreDstSeg := segmentScoresLoad(sidx)
 		if scoreDstSeg == nil {
@@ -1465,10 +1480,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		}
 	}
 
+	// All segments must be replaced to release them.
+	var saveErr error
 	for _, ls := range segmentsIdx {
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 
@@ -1476,9 +1494,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 	wg.Wait()
+	if saveErr != nil {
+		return nil, saveErr
+	}
 	l.checkSanity(ctx, bs, "update", segs)
 
 	// Get updated when everything is said and done.
-- 
2.43.0


From bdce396bf7e79155b0c6f068c68ffb1bb468ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 28/45] fix: neighbours and stats were incomplete without an
 error when segments could not be loaded

---
 list.go     | 10 ++++++++--
 segments.go | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/list.go b/list.go
index 6602ff4..d902d8f 100644
--- a/list.go
+++ b/list.go
@@ -1037,13 +1037,19 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 	}
 	if elements {
 		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
-		if err == nil && len(es) > 0 {
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
+		if len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
 		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
-		if err == nil && len(es) > 0 {
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
+		if len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
 		}
diff --git a/segments.go b/segments.go
index dfd22ca..0b27194 100644
--- a/segments.go
+++ b/segments.go
@@ -958,7 +958,11 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 			}
 			ls.unlock()
 			for i := range res {
-				s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				err := s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				if err != nil {
+					errch <- err
+					return
+				}
 			}
 			resch <- res
 		}(segIdx, id)
@@ -1000,7 +1004,10 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	s.addNeighbors(ctx, bs, re, segIdx, radius)
+	err = s.addNeighbors(ctx, bs, re, segIdx, radius)
+	if err != nil {
+		return nil, err
+	}
 	return re, nil
 }
 
@@ -1039,12 +1046,12 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 // with elements from other segments.
 // Updates may hold several elements locks, so to avoid deadlocks only one is held at the time
 // and the caller may not hold any.
-func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) {
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) error {
 	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
 		ls, err := s.elementFullIdx(ctx, bs, i, true)
 		if err != nil {
 			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
-			break
+			return err
 		}
 		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
 			r.Below = append(r.Below, ls.elements[j])
@@ -1055,13 +1062,14 @@ func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *Ra
 		ls, err := s.elementFullIdx(ctx, bs, i, true)
 		if err != nil {
 			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
-			break
+			return err
 		}
 		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
 			r.Above = append(r.Above, ls.elements[j])
 		}
 		ls.unlock()
 	}
+	return nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 42a473e62a714f11790eb656694f97f5822e94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 29/45] fix: clone ignored failed saves and a failed backup
 left segments locked

---
 list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index d902d8f..77fa891 100644
--- a/list.go
+++ b/list.go
@@ -536,7 +536,7 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		}
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
-			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
@@ -1931,12 +1931,12 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	}
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
+	segs := len(scores.Segments)
+	scores.SegmentsLock.RUnlock()
 	if err != nil {
 		return err
 	}
 
-	segs := len(scores.Segments)
-	scores.SegmentsLock.RUnlock()
 	if err := w.SetVersion(segmentVersion); err != nil {
 		return err
 	}
-- 
2.43.0


From 883f39da54d47418dacbc3dd22ee7d727f8a34c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 30/45] fix: a failed populate or repair lost the content of
 the list or left it locked

---
 list.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index 77fa891..059a4ed 100644
--- a/list.go
+++ b/list.go
@@ -882,6 +882,7 @@ func (l *List) Populate(ctx context.Context, bs blobstore.Store, e Elements) err
 
 // Populate will replace content of list with the supplied elements.
 // Elements are assumed to be de-duplicated.
+// If an error is returned the list retains its current content.
 // Even if an error is returned, the returned segments must be unlocked of not nil.
 func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, segs *segments) (*segments, error) {
 	ctx = log.WithFn(ctx, "list_id", l.ID)
@@ -890,12 +891,43 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	l.RLock()
 	hasValid := (!l.Scores.Unset() || !l.Index.Unset()) && segs != nil
 	l.RUnlock()
-	if hasValid {
-		err := l.deleteAll(ctx, bs, segs)
+	if !hasValid {
+		return l.populateNew(ctx, bs, e, segs)
+	}
+	if segs.readOnly {
+		return segs, errors.New("populate: readOnly segments provided")
+	}
+	if !segs.updateLocked {
+		return segs, errors.New("populate: segments without update lock provided")
+	}
+
+	// Do not remove anything before the replacement has been saved.
+	replaced := *segs
+	segs, err := l.populateNew(ctx, bs, e, segs)
+	if err != nil {
+		l.updateSegments(ctx, &replaced)
+		return segs, err
+	}
+	if replaced.scores != nil {
+		err := replaced.scores.Delete(ctx, store)
 		if err != nil {
-			return segs, err
+			log.Error(ctx, "Error Deleting Scores", "error", err)
 		}
 	}
+	if replaced.index != nil {
+		err := replaced.index.Delete(ctx, store)
+		if err != nil {
+			log.Error(ctx, "Error Deleting Index", "error", err)
+		}
+	}
+	return segs, nil
+}
+
+// populateNew adds new segments with the supplied elements to the list and saves them.
+// Previous segments are not deleted.
+// Even if an error is returned, the returned segments must be unlocked of not nil.
+func (l *List) populateNew(ctx context.Context, bs blobstore.Store, e Elements, segs *segments) (*segments, error) {
+	store := blobstore.StoreWithSet(bs, l.Set)
 	if len(e) == 0 {
 		segs, err := l.initEmptyList(ctx, bs, segs)
 		return segs, err
@@ -950,7 +982,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
-- 
2.43.0


From 9653e01ee755ff29235b1f8947955b98b539ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 31/45] fix: repair dropped segments that failed to load and
 panicked when the segments could not be loaded

---
 list.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 059a4ed..1d20a37 100644
--- a/list.go
+++ b/list.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/Vivino/rankdb/blobstore"
 	"github.com/Vivino/rankdb/log"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // List contains the segments representing a list
@@ -1876,7 +1877,6 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
 	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
 
 	l.RLock()
 	ctx = log.WithValues(ctx, "list_id", l.ID)
@@ -1900,15 +1900,22 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 		}
 	}()
 
+	numElements := segs.scores.Elements()
+
 	// Now that no-one else is updating, make sure that no-one else reads from the list while we rebuild.
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
+	allElements := make(Elements, 0, numElements)
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
 			log.Error(ctx, "Repair: Error loading elements", "error", err)
+			if !clearIfErr && !isLost(err) {
+				l.Unlock()
+				segs.scores.SegmentsLock.Unlock()
+				return err
+			}
 			continue
 		}
 
@@ -1931,6 +1938,16 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	return err
 }
 
+// isLost returns whether the error shows that a blob is missing or cannot be decoded.
+// Other errors may be temporary.
+func isLost(err error) bool {
+	if err == blobstore.ErrBlobNotFound || err == ErrVersionMismatch {
+		return true
+	}
+	_, ok := err.(msgp.Error)
+	return ok
+}
+
 // Version of the list content.
 const backupVersion = 1
 
-- 
2.43.0


From 62422db73b8ab8e6d997254219348243404b06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 32/45] fix: failed splits and merges left segments locked or
 lost elements

---
 list.go     | 28 ++++++++++++++++++++++++++--
 segments.go | 13 +++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 1d20a37..9110baf 100644
--- a/list.go
+++ b/list.go
@@ -2206,6 +2206,16 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 
 	// We must retain both lists for update.
 	updated := false
+	saved := false
+	defer func() {
+		if updated && !saved {
+			// Something failed, but elements have been moved.
+			err := l.saveSegments(ctx, bs, segs)
+			if err != nil {
+				log.Error(ctx, "Unable to save segments", "error", err.Error())
+			}
+		}
+	}()
 
 	for i := 0; i < len(scores.Segments); i++ {
 		seg := &scores.Segments[i]
@@ -2233,9 +2243,11 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return err
 				}
 
+				restore := scores.restorePoint()
 				ch := scores.mergeWithNext(ctx, lsp, ls)
 				err = scores.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					restore()
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2260,18 +2272,23 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			if err != nil {
 				return err
 			}
+			restore := scores.restorePoint()
 			ch, newSeg := scores.splitIdx(ctx, ls)
 			if ch == nil && newSeg == nil {
 				ls.unlock()
 				return nil
 			}
 			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
+			// The new is saved first, so no elements are lost if it cannot be saved.
+			err = scores.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
+				restore()
 				return err
 			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
+				restore()
 				return err
 			}
 			updIdx = append(updIdx, ch...)
@@ -2329,9 +2346,11 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 					return err
 				}
 
+				restore := index.restorePoint()
 				_ = index.mergeWithNext(ctx, lsp, ls)
 				err = index.replaceSegment(ctx, store, lsp)
 				if err != nil {
+					restore()
 					return err
 				}
 				err = ls.seg.deleteElements(ctx, store)
@@ -2358,6 +2377,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			}
 
 			// Split segment
+			restore := index.restorePoint()
 			_, newSeg := index.splitIdx(ctx, ls)
 			if newSeg == nil {
 				ls.unlock()
@@ -2367,10 +2387,13 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
+				restore()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
 			if err != nil {
+				restore()
 				return err
 			}
 			return nil
@@ -2389,5 +2412,6 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 	// invalidate index
 	index.idx = nil
 
+	saved = true
 	return l.saveSegments(ctx, bs, segs)
 }
diff --git a/segments.go b/segments.go
index 0b27194..d93c571 100644
--- a/segments.go
+++ b/segments.go
@@ -1425,6 +1425,19 @@ func (s *Segments) splitIdx(ctx context.Context, s1 *lockedSegment) (changed []i
 	return changed, s2
 }
 
+// restorePoint returns a function that will restore the current segments.
+// Used when segments that are split or merged cannot be saved.
+// Caller must hold Lock.
+func (s *Segments) restorePoint() func() {
+	current := append([]Segment(nil), s.Segments...)
+	return func() {
+		s.SegmentsLock.Lock()
+		s.Segments = current
+		s.idx = nil
+		s.SegmentsLock.Unlock()
+	}
+}
+
 // mergeWithNext will merge two segments into one at offset of curr.
 // The changed indexes are returned as well as new segment.
 // The caller must save the current segment and updated indexes.
-- 
2.43.0


From c20f531300a94a6410c5b3cd459e1372351fdd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 33/45] fix: elements of a split segment were lost by a crash
 before the segments were saved

---
 list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/list.go b/list.go
index 9110baf..3a9de74 100644
--- a/list.go
+++ b/list.go
@@ -2286,6 +2286,13 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				restore()
 				return err
 			}
+			// Add it to the stored segments before its elements are removed from the other.
+			err = scores.Save(ctx, store)
+			if err != nil {
+				ls.unlock()
+				restore()
+				return err
+			}
 			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
 				restore()
-- 
2.43.0


From b4fc7f58e68aeccac3b4cad8076732f00a564fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 34/45] fix: requesting the NaN percentile of a list panicked

---
 api/lists.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 2aba814..393952e 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -5,6 +5,7 @@ package api
 // See LICENSE file for license details
 
 import (
+	"math"
 	"strconv"
 	"time"
 
@@ -131,7 +132,7 @@ func (c *ListsController) GetPercentile(ctx *app.GetPercentileListsContext) erro
 		return ctx.NotFound(goa.ErrNotFound("not_found", "list_id", ctx.ListID))
 	}
 	percentile := float64(50.0)
-	if fromTop, err2 := strconv.ParseFloat(ctx.FromTop, 64); err2 == nil {
+	if fromTop, err2 := strconv.ParseFloat(ctx.FromTop, 64); err2 == nil && !math.IsNaN(fromTop) {
 		percentile = fromTop
 	} else {
 		return ctx.BadRequest(goa.InvalidParamTypeError("from_top", ctx.FromTop, "number"))
-- 
2.43.0


From 386364203d6251bbfaebab05559057a167ce8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 35/45] fix: neighbours above an element were returned in
 reverse order with ranks in order

---
 api/morph/elements.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..f31aab8 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -110,7 +110,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
@@ -182,6 +182,16 @@ func (e Elements) ToRanked(firstFromTop, firstFromBottom int, id rankdb.ListID)
 	return res
 }
 
+// reversed returns a copy of the elements in reverse order.
+// Elements above are returned closest first, but are presented in rank order.
+func reversed(in []rankdb.Element) []rankdb.Element {
+	res := make([]rankdb.Element, len(in))
+	for i, e := range in {
+		res[len(in)-1-i] = e
+	}
+	return res
+}
+
 func NewApiElements(e ...*app.Element) ApiElements {
 	return ApiElements{In: e}
 }
-- 
2.43.0


From c847b3dab0cd5050bd253adbabe1d3b364bd6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 36/45] fix: multi list requests ignored all_in_sets unless
 match_metadata was given

---
 api/multilist.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,11 +238,9 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -308,11 +302,9 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -343,11 +335,9 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From 7b31c0a03ec69d5953d7953f8aac817ed8deab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 37/45] fix: operations on a deleted list panicked, in the
 background splitter it ended the process

---
 list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/list.go b/list.go
index 3a9de74..235aaa3 100644
--- a/list.go
+++ b/list.go
@@ -391,6 +391,11 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			}
 		}
 	}
+	if s.scores == nil {
+		// The list has been deleted.
+		s.unlock()
+		return nil, ErrNotFound
+	}
 	l.updateSegments(ctx, &s)
 	// Return read only if that was what was requested.
 	if readOnly {
-- 
2.43.0


From b661e38d9972ddb1c658cf4d8b57432791ee4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 38/45] fix: concurrent creations of an element inserted it
 several times

---
 api/elements.go  | 15 +++++----------
 api/multilist.go | 13 ++++---------
 list.go          | 25 +++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/api/elements.go b/api/elements.go
index 3511ca3..ac21cad 100644
--- a/api/elements.go
+++ b/api/elements.go
@@ -47,22 +47,17 @@ func (c *ElementsController) Create(ctx *app.CreateElementsContext) error {
 		return ctx.Unauthorized(err)
 	}
 
-	elems, err := lst.GetElements(ctx, db.Storage, eid, ctx.Range)
-	if err != nil {
-		return err
-	}
-	if len(elems) > 0 {
-		return ctx.Conflict(ErrConflict("element already exists", "element_id", ctx.Payload.ID))
-	}
-
 	element := morph.NewApiElements(ctx.Payload).Elements()
 	element.UpdateTime(time.Now())
-	err = lst.Insert(ctx, db.Storage, element)
+	existing, err := lst.InsertNew(ctx, db.Storage, element)
 	if err != nil {
 		return err
 	}
+	if len(existing) > 0 {
+		return ctx.Conflict(ErrConflict("element already exists", "element_id", ctx.Payload.ID))
+	}
 
-	elems, err = lst.GetElements(ctx, db.Storage, eid, ctx.Range)
+	elems, err := lst.GetElements(ctx, db.Storage, eid, ctx.Range)
 	if err != nil {
 		return err
 	}
diff --git a/api/multilist.go b/api/multilist.go
index 6df8443..ca5c958 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -66,22 +66,17 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Execute
 	res := onEveryList(ctx, lists, 16, func(lst *rankdb.List) (*app.RankdbOperationSuccess, error) {
-		elems, err := lst.GetElements(ctx, db.Storage, in.IDs(), 0)
+		existing, err := lst.InsertNew(ctx, db.Storage, in)
 		if err != nil {
 			return nil, err
 		}
-		if len(elems) > 0 {
-			return nil, ErrConflict("element(s) already exists", "element_ids", elems.IDs())
-		}
-
-		err = lst.Insert(ctx, db.Storage, in)
-		if err != nil {
-			return nil, err
+		if len(existing) > 0 {
+			return nil, ErrConflict("element(s) already exists", "element_ids", existing)
 		}
 		if !ctx.Results {
 			return &app.RankdbOperationSuccess{}, nil
 		}
-		elems, err = lst.GetElements(ctx, db.Storage, in.IDs(), 0)
+		elems, err := lst.GetElements(ctx, db.Storage, in.IDs(), 0)
 		if err != nil {
 			return nil, err
 		}
diff --git a/list.go b/list.go
index 235aaa3..83b95e9 100644
--- a/list.go
+++ b/list.go
@@ -1630,6 +1630,31 @@ func (l *List) Insert(ctx context.Context, bs blobstore.Store, e Elements) error
 	return l.saveSegments(ctx, bs, segs)
 }
 
+// InsertNew inserts elements that are not in the list.
+// If any of the elements exist nothing is inserted and the IDs of the existing elements are returned.
+// Provided elements must be deduplicated, but are not required to be sorted.
+func (l *List) InsertNew(ctx context.Context, bs blobstore.Store, e Elements) (existing ElementIDs, err error) {
+	ctx = log.WithFn(ctx)
+	segs, err := l.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
+	if err != nil {
+		return nil, err
+	}
+	defer segs.unlock()
+	found, err := l.getElements(ctx, bs, e.IDs(), 0, segs)
+	if err != nil {
+		return nil, err
+	}
+	if len(found) > 0 {
+		return found.IDs(), nil
+	}
+	err = l.insert(ctx, bs, e, segs)
+	if err != nil {
+		return nil, err
+	}
+	l.checkSplit(ctx, bs, segs)
+	return nil, l.saveSegments(ctx, bs, segs)
+}
+
 // Insert elements into list.
 // Elements are not checked if they exist and will result in duplicates if they do.
 // Provided elements are not required to be sorted.
-- 
2.43.0


From 50b9c0a83cd78e0ef5b6622e6ffdc8f10a5074fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 39/45] fix: concurrent creations of a list all succeeded and
 replaced each other

---
 api/lists.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api/lists.go b/api/lists.go
index 393952e..f5e5182 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -7,6 +7,7 @@ package api
 import (
 	"math"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Vivino/rankdb"
@@ -18,6 +19,9 @@ import (
 // ListsController implements the lists resource.
 type ListsController struct {
 	*goa.Controller
+
+	// directoryMu is held while lists are added, replaced or deleted.
+	directoryMu sync.Mutex
 }
 
 // NewListsController creates a lists controller.
@@ -33,6 +37,8 @@ func (c *ListsController) Create(ctx *app.CreateListsContext) error {
 	} else {
 		defer done()
 	}
+	c.directoryMu.Lock()
+	defer c.directoryMu.Unlock()
 	var oldList *rankdb.List
 	if lst, ok := db.Lists.ByID(rankdb.ListID(ctx.Payload.ID)); ok {
 		if !ctx.Replace {
@@ -89,6 +95,8 @@ func (c *ListsController) Delete(ctx *app.DeleteListsContext) error {
 	} else {
 		defer done()
 	}
+	c.directoryMu.Lock()
+	defer c.directoryMu.Unlock()
 
 	err := db.DeleteList(ctx, rankdb.ListID(ctx.ListID))
 	if err != nil {
@@ -320,6 +328,8 @@ func (c *ListsController) Clone(ctx *app.CloneListsContext) error {
 	} else {
 		defer done()
 	}
+	c.directoryMu.Lock()
+	defer c.directoryMu.Unlock()
 
 	orgID := rankdb.ListID(ctx.ListID)
 	org, ok := db.Lists.ByID(orgID)
-- 
2.43.0


From 381c026b9d766319469a2376fa41abc27ea64eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 40/45] fix: Badger synced writes only when NoSync was set

---
 api/rankdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/rankdb.go b/api/rankdb.go
index e9c41d3..2726fa0 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -279,7 +279,7 @@ func newBlobstore(ctx context.Context, s string) (store blobstore.Store, closers
 	switch s {
 	case "Badger":
 		opts := badger.DefaultOptions(config.Badger.Path)
-		opts = opts.WithSyncWrites(config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
+		opts = opts.WithSyncWrites(!config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
 		opts = opts.WithLogger(badgerstore.BadgerLogger(ctx))
 		bs, err := badgerstore.New(opts)
 		if err != nil {
-- 
2.43.0


From 81a2fab2db20564a99dbb3ed17fbc22df0dbd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 41/45] fix: an unreadable list directory without a backup was
 replaced by an empty one

---
 manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/manager.go b/manager.go
index 701c451..ddd8ac8 100644
--- a/manager.go
+++ b/manager.go
@@ -175,7 +175,12 @@ func (m *Manager) LoadLists(ctx context.Context, cache Cache) error {
 	}
 	// Load backup.
 	log.Error(ctx, "Unable to load master list, loading from backup", "error", err.Error())
+	masterErr := err
 	blob, err = m.Backup.Get(ctx, backupListStorageKey)
+	if err == blobstore.ErrBlobNotFound {
+		// There is no backup, so the lists are only missing if the master list is.
+		return masterErr
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 55aaad31ee07db38eb9d14b83d0f71990a0ae373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 42/45] fix: a backup to another server was reported complete
 when that server failed to restore it

---
 backup/server/rankdb.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 61fb397..448977d 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -44,17 +44,19 @@ type RankDB struct {
 
 // Save will return a writer to the restoration.
 // Will return an error if the server cannot be reached.
+// Closing the writer waits for the destination server to finish,
+// and returns an error unless it has restored everything.
 func (r *RankDB) Save(ctx context.Context) (io.WriteCloser, error) {
 	req, err := r.c.NewRestoreMultilistRequest(ctx, client.RestoreMultilistPath(), nil, r.ListIDPrefix, r.ListIDSuffix, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	req = req.WithContext(ctx)
-	b := bodyWriter{req: req, c: r.c}
+	b := &bodyWriter{req: req, c: r.c, done: make(chan struct{})}
 	b.r, b.w = io.Pipe()
 	log.Info(ctx, "Created pipe for writing", "full_path", b.req.URL.String())
 	go b.Transfer(ctx)
-	return b.w, nil
+	return b, nil
 }
 
 // bodyWriter provides transfer from the pipe writer to the body of the request.
@@ -67,27 +69,54 @@ type bodyWriter struct {
 	c *client.Client
 	// request to which the body is written.
 	req *http.Request
+	// done is closed when the transfer has ended, with err as result.
+	done chan struct{}
+	err  error
+}
+
+// Write sends data to the destination server.
+func (b *bodyWriter) Write(p []byte) (int, error) {
+	return b.w.Write(p)
+}
+
+// Close ends the data and waits for the result of the destination server.
+func (b *bodyWriter) Close() error {
+	_ = b.w.Close()
+	<-b.done
+	return b.err
 }
 
 // Transfer the body after executing the request.
 // Errors are logged, and the pipe will be closed with an error if any occurs.
+// The error is also returned when closing the writer.
 func (b *bodyWriter) Transfer(ctx context.Context) {
+	defer close(b.done)
 	log.Info(ctx, "Starting tranfer to destination server", "full_path", b.req.URL.String())
 	b.req.Body = b.r
 	resp, err := b.c.Do(ctx, b.req)
 	if err != nil {
 		log.Error(ctx, "Backup transfer failed", "error", err)
+		b.err = err
 		_ = b.r.CloseWithError(err)
 		return
 	}
 	if resp.StatusCode != http.StatusOK {
 		err := decodeError(ctx, resp, b.c)
 		log.Error(ctx, "Backup transfer failed", "error", err)
+		b.err = err
 		_ = b.r.CloseWithError(err)
 		return
 	}
 	log.Info(ctx, "Destination server returned ok", "full_path", b.req.URL.String())
 	b.r.Close()
+	res, err := b.c.DecodeRankdbRestoreresult(resp)
+	if err == nil && len(res.Errors) > 0 {
+		err = fmt.Errorf("lists not restored by destination server: %v", res.Errors)
+	}
+	if err != nil {
+		log.Error(ctx, "Backup transfer failed", "error", err)
+		b.err = err
+	}
 	io.Copy(ioutil.Discard, resp.Body)
 	resp.Body.Close()
 }
-- 
2.43.0


From 5f2bb7848b1978bb0382e3787db78ae2cba00330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 43/45] fix: count cache lookups of the index once in list
 statistics

---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 83b95e9..e5fc50c 100644
--- a/list.go
+++ b/list.go
@@ -1062,8 +1062,8 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 	res.Elements = scores.Elements()
 	res.Segments = len(scores.Segments)
 	if scores != nil {
-		res.CacheHits = l.scores.cacheHits + l.index.cacheHits
-		res.CacheMisses = l.scores.cacheMisses + l.index.cacheMisses
+		res.CacheHits = scores.cacheHits
+		res.CacheMisses = scores.cacheMisses
 	}
 	if index != nil {
 		res.CacheHits += index.cacheHits
-- 
2.43.0


From 2e6e02ec13ae7fb742d325ab2605018f86db42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 44/45] fix: updating an element again after a failed save
 reported success without storing it

---
 list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index e5fc50c..ac2a6f4 100644
--- a/list.go
+++ b/list.go
@@ -1489,7 +1489,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			// Existing element: Check if we should update index.
 			if existing.TieBreaker == uint32(scoreDstSeg.seg.ID) {
 				// We are in same segment, simply update score element.
-				_, err = scoreDstSeg.elements.Update(elem)
+				// Add it if missing, a previous save may have failed after the index was saved.
+				_, err = scoreDstSeg.elements.Add(elem)
 				if err != nil {
 					log.Error(ctx, "Could not update existing score", "error", err.Error())
 				}
-- 
2.43.0


From c8dac8ada78287f5c6b84823ea06b86a7bee0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 45/45] fix: a metadata query for an empty value matched lists
 without that field

---
 lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lists.go b/lists.go
index 5429185..03146ad 100644
--- a/lists.go
+++ b/lists.go
@@ -303,7 +303,7 @@ func (l *Lists) MatchAll(q map[string]string, sets []string) []ListID {
 			return true
 		}
 		for k, v := range q {
-			if list.Metadata[k] != v {
+			if got, ok := list.Metadata[k]; !ok || got != v {
 				return true
 			}
 		}
-- 
2.43.0

