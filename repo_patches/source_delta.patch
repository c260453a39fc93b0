From 93399bb0509ed577ac51aa3a1640df8a3477dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 01/11] fix: array2d: use the width as the row stride

---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From a4eebb4334273ef46ddaff70d9ab2d76e8320a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 02/11] fix: array2d: OfJagged ignores rows beyond the height

---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From b0a096e52091fa07430311813b872ec2af85da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 03/11] fix: rope: Rebuild turns the node into a leaf before
 splitting it

---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..6fd66fc 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,8 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
+		n.length = len(n.value)
 		n.adjust()
 	}
 }
-- 
2.43.0


From b764e674c71cc0f50ae3da303351c2771e5258bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 04/11] fix: btree: Put of a present key does not change the
 size

---
 btree/btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..adf20ee 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,10 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	if _, ok := t.Get(key); !ok {
+		t.n++
+	}
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 6971a69fa978a88dc5f145c9d118458caf819699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 05/11] fix: hashmap: Clear does not touch entries shared with
 a copy

---
 hashmap/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..ae71edf 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,12 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		m.entries = make([]entry[K, V], m.capacity)
+		m.length = 0
+		m.readonly = false
+		return
+	}
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From b28aa54ccb6ad4bd81d88230ef62da21e5c1e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 06/11] fix: set: IsDisjoint reports disjointness, not overlap

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From 9c0602c02ff8c8ee517e780d2b73b1c3d6c43fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 07/11] fix: set: do not remove keys from a set while iterating
 over it

---
 set/set.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..b476da6 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,20 +108,26 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// Removing while iterating over s would skip keys of a hashset.
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
+		// other may be s itself, so collect its keys before removing any.
+		keys := make([]K, 0, other.Size())
 		other.Each(func(key K) {
-			s.Remove(key)
+			keys = append(keys, key)
 		})
+		for _, key := range keys {
+			s.Remove(key)
+		}
 	}
 	return s
 }
-- 
2.43.0


From f2939dc90e575c24fa8866b7bf367bac7f1f321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 08/11] fix: trie: Remove of an absent key does not change the
 size

---
 trie/trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..9d81ee4 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -149,6 +149,10 @@ func (t *Trie[V]) Remove(key string) {
 		return
 	}
 
+	if !t.Contains(key) {
+		return
+	}
+
 	t.root = t.remove(t.root, key, 0)
 	t.n--
 }
-- 
2.43.0


From bd2e3048bcad6d06dfcb1392aee4f251f2287afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 09/11] fix: ulist: Remove moves the iterator on to the next
 block

---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..4538a3c 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) {
+		// The last entry of the block was removed, move on to the next block.
+		iter.index--
+		iter.Next()
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 78d7f988ab38914d1ccaeb9e52947f16674c10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 10/11] fix: cache: Put into a cache of capacity zero does not
 panic

---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..4078a2a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity == 0 {
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 875ea15f5e55dbb39b839b93b4e5d3c0164de8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 11/11] fix: cache: a lookup in the evict callback does not
 change the victim

---
 cache/cache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4078a2a..c0f33cb 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -71,12 +71,12 @@ func (t *Cache[K, V]) Put(k K, e V) {
 }
 
 func (t *Cache[K, V]) evict() {
-	entry := t.lru.Back.Value
+	n := t.lru.Back
 	if t.evictCb != nil {
-		t.evictCb(entry.Key, entry.Val)
+		t.evictCb(n.Value.Key, n.Value.Val)
 	}
-	t.lru.Remove(t.lru.Back)
-	delete(t.table, entry.Key)
+	t.lru.Remove(n)
+	delete(t.table, n.Value.Key)
 }
 
 // Remove causes the entry associated with the given key to be immediately
-- 
2.43.0

