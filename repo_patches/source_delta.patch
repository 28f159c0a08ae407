From cb87dc0831308c512e7b19b19f2e86eda37d3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 01/12] fix: import math in comparator so that the package
 builds

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 803587cf1aea05c755f5f85712ced0449d769aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 02/12] fix: Complex64Comparator compared real(a) with itself

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From d8594921930c4b447c35af45fa060e80c5dbd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 03/12] fix: SliceWrapper.Last returned the end iterator

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 3a129ecab76b90b15a79dff0c2d6042f5a3836fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 04/12] fix: bidlist PushBackList and PushFrontList panicked on
 an empty receiver

---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a4a1932 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From d79707cfc84360e65a1087769d811fce0099b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 05/12] fix: bidlist MoveAfter(front, back) did not move the
 node

---
 ds/list/bidlist/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a4a1932..6c3fe28 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -247,6 +247,11 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 	if n.list != l || n == mark || mark.list != l {
 		return
 	}
+	if mark == l.head.prev {
+		// the node after mark is the head of the ring
+		l.MoveToBack(n)
+		return
+	}
 	l.moveToAfter(n, mark)
 }
 
-- 
2.43.0


From aef8caa776120779f909a881e959462b467166cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 06/12] fix: bidlist Clear left its nodes attached to the list

---
 ds/list/bidlist/list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 6c3fe28..55d34c1 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,8 +190,9 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
-	l.head = nil
-	l.len = 0
+	for l.head != nil {
+		l.remove(l.head)
+	}
 }
 
 // PopBack removes the last node in the list and returns its value
-- 
2.43.0


From f9d885829d432d7abed5eb469eb97e2da0f41a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 07/12] fix: hamt traversal went on after the visitor returned
 false in a nested node

---
 ds/hamt/hamt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..03684c1 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,22 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From 54d3f415e584a2bf50cbe8f56ad1575310f55831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 08/12] fix: ketama Get checked for an empty ring outside of
 its critical section

---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 4b93cbfc9ade5878f6571cb21fc16300747a0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 09/12] fix: Reverse of an empty range touched elements outside
 of the range

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From 625618abcfd11c9b67b931278681724cc38135f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 10/12] fix: Stable recursed without end on an empty range

---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From 2dac69161980b8c320a7e0b25acb1e5e23d3a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 11/12] fix: NthElement never ordered a range of two elements

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From f7d5399821baee36c84dd2eb4f7400a25f88a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 12/12] fix: set Intersect, Union and Diff read the other set
 without its lock

---
 ds/set/set.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..db3b08a 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -182,9 +182,23 @@ func (s *Set[T]) String() string {
 	return str
 }
 
+// snapshot returns a copy of the set, taken under the set's own lock
+func (s *Set[T]) snapshot() *Set[T] {
+	s.locker.RLock()
+	defer s.locker.RUnlock()
+
+	set := New(s.keyCmp)
+	for node := s.tree.First(); node != nil; node = node.Next() {
+		set.tree.Insert(node.Key(), Empty)
+	}
+	return set
+}
+
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -209,6 +223,8 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -241,6 +257,8 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
-- 
2.43.0

