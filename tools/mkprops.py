#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

H, I, C = "histories", "inputs", "configurations"

prop("C01", "AVL tree is exactly a sorted map for every history",
 "After any sequence of Put and Remove calls, under any strict weak order, an AVL tree holds exactly the keys put and not since removed, each with its last value: Get answers for every key accordingly, Size counts them, and Each visits every entry exactly once in ascending key order. Keys that are equivalent under the order are one key; removing an absent key changes nothing.",
 [H, I], "every sequence of Put/Remove with arbitrary keys and values, every query key, every strict weak order on the keys",
 "The single randomized test looks up keys after random operations over int keys with one fixed order; it never checks Each order against the model, equivalence classes of a weak order, or every insertion/removal order.",
 ["avl/avl.go", "generic.go"], [("recursive add/remove with successor replacement", "avl/avl.go add, remove, findSmallest"), ("rotations", "avl/avl.go rebalanceTree, rotateLeft, rotateRight")],
 ["avl.Tree.Get", "avl.Tree.Size", "avl.Tree.Each"])
prop("C02", "AVL tree stays height-balanced and lookups stay logarithmic",
 "After any sequence of Put and Remove calls the height an AVL tree reports never exceeds the AVL bound for the number of keys it holds (a tree of height h holds at least Fib(h+2)-1 keys) and is large enough to hold them. A lookup never makes more key comparisons than that height allows, so all operations stay logarithmic.",
 [H, I], "every insertion/removal order",
 "No test looks at Height or counts comparisons; an imbalance leaves all answers right and only shows as slowness on particular removal orders.",
 ["avl/avl.go"], [("height bookkeeping and rebalancing after every structural change", "avl/avl.go recalculateHeight, rebalanceTree, rotateLeft, rotateRight")],
 ["avl.Tree.Height", "avl.Tree.Size", "calls of the user's less function"])
prop("C03", "B-tree is exactly a sorted map for every history",
 "After any sequence of Put and Remove calls, under any strict weak order, a B-tree holds exactly the keys put and not since removed, each with its last value: Get answers for every key accordingly, Size is the number of keys present, and Each visits every entry exactly once in ascending key order. This includes overwriting a present key, putting a removed key back, removing an absent key, and growth through any number of node splits.",
 [H, I], "every sequence of Put/Remove, every insertion order across node splits, every query key",
 "The randomized test never checks Size or Each against the model and only samples insertion orders around the split of a 64-entry node.",
 ["btree/btree.go"], [("tombstones", "btree/btree.go Remove, insert"), ("node split and separator keys", "btree/btree.go insert, split, Put"), ("entry count", "btree/btree.go Put, Remove")],
 ["btree.Tree.Get", "btree.Tree.Size", "btree.Tree.Each"])
prop("C04", "Hash map is exactly a map for every hash function and capacity",
 "For every hash function consistent with the supplied equality, however badly it collides, and every initial capacity, after any sequence of Put, Remove and Clear the hash map holds exactly the keys put and not since removed or cleared, each with its last value. Get, Size and Each agree on that content, each entry is visited once, and every operation terminates.",
 [H, I, C], "every history, every assignment of hash values to keys, every initial capacity",
 "Tests use one good hash function over random integers, so probe chains that wrap around, full collisions and the removal re-insertion path are hardly reached.",
 ["hashmap/map.go"], [("linear probing and re-insertion after removal", "hashmap/map.go Get, Put, Remove"), ("growing and shrinking", "hashmap/map.go resize")],
 ["hashmap.Map.Get", "hashmap.Map.Size", "hashmap.Map.Each"])
prop("C05", "Copies of hash maps and hash sets are independent snapshots",
 "A copy of a hash map or hash set has the content the original had at the moment of copying, and from then on no operation on one of them (Put, Remove, Clear, growth, further copies) is ever visible in the other. This holds for any number and nesting of copies.",
 [H, I], "every interleaving of Copy, Put, Remove and Clear over any number of copies, every hash function",
 "One test copies a map and then puts into it; Remove and Clear after a copy, copies of copies, and writes to the original first are not sampled.",
 ["hashmap/map.go", "hashset/set.go"], [("copy-on-write flag shared by both sides of a copy", "hashmap/map.go Copy, Put, Remove, Clear, resize")],
 ["hashmap.Map.Copy", "hashset.Set.Copy", "Get/Has/Size/Each of every copy"])
prop("C06", "hashset and mapset are exactly sets",
 "After any sequence of Put, Remove and Clear (and construction from a list of values), a hashset or mapset contains exactly the values put and not since removed or cleared, duplicates counting once. Has, Size and Each agree on that content and Each visits every element exactly once.",
 [H, I, C], "every history, element values, every hash function (hashset), every initial capacity",
 "Tests sample random integers with one hash function and do not check Each.",
 ["hashset/set.go", "mapset/set.go", "hashmap/map.go"], [("delegation to the hash map / built-in map", "hashset/set.go, mapset/set.go")],
 ["Has, Size, Each of hashset.Set and mapset.Set"])
prop("C07", "Set algebra computes the mathematical result",
 "For any receiver and any list of operands, whatever mix of implementations backs them, Union, Intersection, Difference and their in-place and constant-list variants yield exactly the union of all, the elements in every set, and the elements of the receiver in no operand; SymmetricDifference yields exactly the elements that occur in exactly one of the sets involved. Clone, Keys and Map return exactly the elements of the set, each once.",
 [I, C], "every content of up to several sets, every element hash function, both backing implementations, operands that are the receiver itself",
 "Only fixed examples over small int literals exist; removal while iterating over a colliding hash set is never reached.",
 ["set/set.go", "hashset/set.go", "mapset/set.go", "hashmap/map.go"], [("in-place loops over Each with Put/Remove", "set/set.go InPlaceIntersection, InPlaceDifference, InPlaceUnion, SymmetricDifference")],
 ["content of the returned sets"])
prop("C08", "Set predicates answer as the mathematical relations",
 "For all sets, whatever implementations back them: IsSubset, IsSuperset, Equal, IsProperSubset, IsProperSuperset and IsDisjoint return true exactly when the receiver is, respectively, a subset of, a superset of, equal to, a proper subset of, a proper superset of, or disjoint from (no common element with) the argument. Empty sets and a set compared with itself are no exception.",
 [I, C], "every pair of set contents, both backing implementations",
 "No test calls any of the predicates.",
 ["set/set.go"], [("predicates built from Each/Has/Union/Intersection", "set/set.go IsDisjoint ... IsProperSuperset")],
 ["return values of the predicates"])
prop("C09", "Set operations modify only what they say they modify",
 "The operations that return a new set (Union, Intersection, Difference, SymmetricDifference, the constant-list variants, Clone) leave the receiver and every operand unchanged, and later changes to the result never reach them or vice versa. The in-place variants change only the receiver, and the predicates change nothing.",
 [H, I, C], "every content, both backings, every operation followed by any modification of result or operands",
 "Examples print the result only; operands are never re-read.",
 ["set/set.go"], [("clone before in-place work", "set/set.go Clone, Union, Intersection, Difference")],
 ["contents of receiver, operands and result"])
prop("C10", "Heap pops every pushed element once, in order",
 "Starting from any initial data and after any mix of Push and Pop, under any strict weak order, Peek and Pop return an element of the current multiset than which no other element is smaller, Pop removes exactly that element, and Size counts the elements. Popping or peeking an empty heap returns the zero value and false, so a heap drains in non-decreasing order with no element lost or duplicated.",
 [H, I], "every initial slice, every history of Push/Pop, every strict weak order",
 "Tests drain a few fixed and random slices of ints; a heap order broken only for particular shapes is missed.",
 ["heap/heap.go"], [("sift up / sift down / heapify", "heap/heap.go up, down, FromSlice")],
 ["heap.Heap.Pop", "heap.Heap.Peek", "heap.Heap.Size"])
prop("C11", "Interval tree is exactly a map from start positions to intervals",
 "After any sequence of Add, Put and Remove, an interval tree holds at most one interval per start position: Add keeps an existing one and returns it, Put replaces and returns it, Remove deletes and returns it, each with a correct 'existed' flag. Get, Size and Each (ascending start order, each interval once with its current end and value) agree with that content. An interval or range whose low bound exceeds its high one is refused by a panic that changes nothing.",
 [H, I], "every history, all bounds and values, every query position",
 "Two small fixed tests; Remove's result, Add on conflict and Each order after removals are not covered.",
 ["interval/itree.go"], [("AVL insert/remove keyed by the low bound", "interval/itree.go insert, remove, removeThis, search")],
 ["Add, Put, Remove, Get, Each, Size"])
prop("C12", "Overlap queries return exactly the overlapping intervals, sorted",
 "For every tree reached by any history of Add, Put and Remove with non-empty half-open intervals and for every non-empty query range, Overlaps returns exactly the stored intervals [low, high) that share at least one point with the query, each once with its current value, sorted by start. Touching end points do not overlap.",
 [H, I], "every history (in particular replacing an interval by a shorter or longer one and removing the widest), every query",
 "One test with random intervals after insertions only; stale subtree maxima after Put/Remove/rotation are not reached.",
 ["interval/itree.go"], [("subtree maximum maintained through rotations, replacement and removal", "interval/itree.go updateMax, rotateLeft, rotateRight, rebalanceTree"), ("pruned traversal", "interval/itree.go overlaps")],
 ["interval.Tree.Overlaps"])
prop("C13", "Interval tree stays height-balanced",
 "After any sequence of Add, Put and Remove the height an interval tree reports never exceeds the AVL bound for the number of intervals it holds (a tree of height h holds at least Fib(h+2)-1 intervals) and is large enough to hold them.",
 [H, I], "every insertion/removal order",
 "No test looks at Height.",
 ["interval/itree.go"], [("height bookkeeping and rebalancing", "interval/itree.go recalculateHeight, rebalanceTree")],
 ["interval.Tree.Height", "interval.Tree.Size"])
prop("C14", "Linked list is a consistent doubly linked sequence",
 "After any sequence of PushFront, PushBack, PushFrontNode, PushBackNode, InsertAfter, InsertBefore and Remove on nodes of the list (including re-inserting removed nodes), the list is exactly the expected sequence of nodes: forward traversal from Front and backward traversal from Back are mirror images, the end nodes have no outer neighbours, and Front and Back are nil exactly when it is empty. Each, EachReverse, EachNode and EachReverseNode visit exactly the nodes from the given node to the end in that direction.",
 [H, I], "every history over every position",
 "The only test is an example pushing a few values; InsertBefore/InsertAfter/Remove at the ends are not tested.",
 ["list/list.go"], [("neighbour pointer updates", "list/list.go PushBackNode, PushFrontNode, InsertAfter, InsertBefore, Remove")],
 ["Front, Back, Next, Prev, Each*"])
prop("C15", "Queue is first-in first-out for every history",
 "After any sequence of Enqueue, Dequeue, TryDequeue, DequeueAll, Clear and construction from a slice, items leave in exactly the order they entered, none lost, duplicated or altered. Len, Empty, Peek, TryPeek, PeekAll and Each report the current content without changing it; on an empty queue the Try variants return the zero value and false while Dequeue and Peek panic and leave the queue usable.",
 [H, I], "every history and all values",
 "Tests cover fixed short scripts per method, not mixed histories such as reuse after DequeueAll or Clear.",
 ["queue/queue.go", "list/list.go"], [("linked list plus separate length counter", "queue/queue.go")],
 ["all exported methods of queue.Queue"])
prop("C16", "Stack is last-in first-out for every history",
 "After any sequence of Push and Pop, Pop and Peek return the most recently pushed value not yet popped and Size counts the remaining values; on an empty stack they return the zero value and the stack stays usable.",
 [H, I], "every history and all values", "One short scripted test.",
 ["stack/stack.go"], [("slice as stack", "stack/stack.go")], ["stack.Stack methods"])
prop("C17", "Rope edits and reads behave as on a flat array",
 "For any initial content and any sequence of in-range Insert and Remove edits, whatever the split and join thresholds, a rope is indistinguishable from the same edits on a flat array: Len, Value, At for every position, Slice for every range and the concatenation of the leaves visited by Each all agree with it.",
 [H, I, C], "every content, edit history, position and range; split/join thresholds",
 "Tests sample random edits; a boundary error between two particular leaves or a stale length is easily missed.",
 ["rope/rope.go"], [("position arithmetic over left/right children", "rope/rope.go Insert, Remove, Slice"), ("splitting and joining leaves", "rope/rope.go adjust, New"), ("in-place slice edits inside leaves", "rope/rope.go insert")],
 ["Len, Value, At, Slice, Each of rope.Node"])
prop("C18", "Rope restructuring never changes content and leaves it editable",
 "Join yields the concatenation of its ropes, SplitAt at any index yields two ropes holding the content before and after it, and Rebalance and Rebuild leave the content as it was; all of them return, and the resulting ropes remain fully usable: any later edit of one part behaves as on a flat array and never changes another part.",
 [H, I, C], "every content and tree shape, split index, and any sequence of restructuring and edits",
 "Rebuild and Rebalance are never called by the tests; split parts are not edited independently.",
 ["rope/rope.go"], [("SplitAt/join", "rope/rope.go SplitAt, join, Join"), ("rebuild into leaves", "rope/rope.go Rebuild, Rebalance")],
 ["Value/Len/At/Slice of all resulting ropes"])
prop("C19", "Persistent rope operations compute the flat-array result",
 "For any content, thresholds and any sequence of operations on persistent ropes, Insert, Remove, SplitAt, Join, Rebalance and Rebuild yield ropes whose content is exactly that of the same operation on a flat array, and Len, Value, At and Slice read that content correctly for every position and range.",
 [H, I, C], "every content, tree shape, position, range, thresholds",
 "Tests sample random edits with one fixed set of thresholds; Rebalance is barely exercised.",
 ["prope/prope.go"], [("path copying", "prope/prope.go Insert, Remove"), ("range clamping", "prope/prope.go bound, copySlice")],
 ["Len, Value, At, Slice of prope.Node"])
prop("C20", "Persistent rope versions never change",
 "Every version of a persistent rope, once obtained, keeps its exact content for ever: no operation on it or on any version derived from it, joined with it, split from it or sharing data with it (including Rebalance and Rebuild of any of them) and no change to a slice that was returned by or passed to Insert, Value or Slice alters what it returns.",
 [H, I], "every history of operations over any number of versions",
 "The persistence test keeps versions of a random edit script only; it does not modify returned slices, split, join or rebalance shared versions.",
 ["prope/prope.go"], [("copying instead of in-place slice edits", "prope/prope.go insert, remove, Value, Slice, Rebuild")],
 ["Value/Len of every version ever created"])
prop("C21", "Trie is exactly a map from non-empty strings",
 "After any sequence of Put and Remove with any strings (arbitrary bytes, one a prefix of another, removed keys put back, absent keys removed), the trie holds exactly the non-empty keys put and not since removed, each with its last value. Get and Contains answer so for every string and Size is exactly the number of keys; the empty string is never a key and operations with it change nothing.",
 [H, I], "every history over arbitrary byte strings, every query string",
 "The randomized test only removes keys it has put and uses long random keys that hardly share prefixes.",
 ["trie/trie.go"], [("node deletion in a ternary tree", "trie/trie.go remove, delete, deleteMinChild, isUnused"), ("key count", "trie/trie.go Put, Remove")],
 ["Get, Contains, Size of trie.Trie"])
prop("C22", "Trie prefix queries are exact",
 "For every trie content reached by any history and every query string, Keys and KeysWithPrefix return exactly the stored keys (with that prefix), each once, in ascending byte order, and LongestPrefix returns the longest stored key that is a prefix of the query, or the empty string if there is none. Returned keys stay valid whatever is done to the trie later.",
 [H, I], "every history over arbitrary byte strings, every query",
 "Two fixed examples.",
 ["trie/trie.go"], [("in-order collection with a shared prefix buffer", "trie/trie.go collect, KeysWithPrefix"), ("longest match walk", "trie/trie.go LongestPrefix")],
 ["Keys, KeysWithPrefix, LongestPrefix"])
prop("C23", "Unrolled list edits behave as on a flat sequence",
 "For every block size and after any sequence of PushFront, PushBack, AddBefore, AddAfter and Remove at any valid iterator position, an unrolled list holds exactly the sequence the same edits produce on a flat sequence, and Size is its length. After AddBefore/AddAfter the iterator stands on the new element; after Remove it stands on the element that followed the removed one, and is invalid exactly if there was none.",
 [H, I, C], "every block size, every edit history and position",
 "Tests use one block size and one scripted sequence; removing the last element of an inner block is never tried.",
 ["ulist/ulist.go", "ulist/ulist_iter.go"], [("block overflow and slides", "ulist/ulist.go AddAfter, addOverflowToNextBlock, prependToBlock"), ("block removal", "ulist/ulist.go Remove")],
 ["Size, iteration, iterator position after each edit"])
prop("C24", "Unrolled list iterators traverse the whole list in both directions",
 "For every list reached by any edit history, iterating from Begin with Next visits every element exactly once front to back, iterating from End with Prev visits them back to front, and any mix of Next and Prev moves exactly one element per step with Get returning the element there. Stepping off either end makes the iterator invalid however often it is repeated, and one step back makes it stand on that end element again.",
 [H, I, C], "every block size, every list, every walk",
 "Tests walk two fixed lists.",
 ["ulist/ulist_iter.go"], [("block-crossing steps", "ulist/ulist_iter.go Next, Prev, newIterFront, newIterBack")],
 ["Begin, End, Next, Prev, Get, IsValid"])
prop("C25", "Cache is a bounded map with exact LRU eviction",
 "After any sequence of Put, Get, Remove and Resize, the cache never holds more entries than its capacity and holds exactly the most recently used ones (use = Put or successful Get) that fit and were not removed, each with its last value. Get, Size, Capacity and Each (most recent first) agree with that; looking at or removing an absent key changes nothing, and no capacity of zero or more makes an operation panic.",
 [H, I, C], "every history, keys, values and capacities",
 "One scripted example.",
 ["cache/cache.go", "list/list.go"], [("table plus recency list kept in step", "cache/cache.go Get, Put, evict, Remove, Resize")],
 ["Get, Size, Capacity, Each"])
prop("C26", "Cache reports each eviction exactly once, before it happens",
 "Whenever Put or Resize drops an entry for lack of space, the registered callback is called exactly once with that entry's key and current value, in eviction order (least recently used first), while the entry is still in the cache; it is not called for entries that stay. Replacing the callback redirects later calls, having none changes nothing else, and looking entries up from inside the callback does not corrupt the cache.",
 [H, I, C], "every history, callback installed or replaced at any point",
 "One scripted example.",
 ["cache/cache.go"], [("callback in eviction", "cache/cache.go evict, SetEvictCallback")],
 ["arguments and order of callback calls, cache content"])
prop("C27", "Bimap is always a bijection",
 "After any sequence of Add, RemoveForward, RemoveReverse and Clear, and construction from any map, a bimap is a one-to-one relation: the forward and reverse lookups and membership tests are exact inverses of each other for every key and value, and Len and Each (each pair once) agree with them. Add always leaves its pair present and drops exactly the pairs that conflict with its key or its value; removals drop exactly the matching pair; a zero bimap behaves as an empty one and a nil one has length 0.",
 [H, I], "every history over colliding keys and values",
 "One example and one short test.",
 ["bimap/bimap.go"], [("two maps kept inverse", "bimap/bimap.go Add, RemoveForward, RemoveReverse")],
 ["GetForward, GetReverse, Contains*, Len, Each"])
prop("C28", "Copies of queues, stacks, bimaps and 2D arrays are independent",
 "A copy of a queue, stack, bimap or 2D array equals the original at the moment of copying; from then on no operation on one, including writes through row slices of an array, is ever visible in the other.",
 [H, I], "every content, every operation on either side afterwards",
 "At most one scripted modification after a copy.",
 ["queue/queue.go", "stack/stack.go", "bimap/bimap.go", "array2d/array2d.go"], [("shallow copy of all underlying storage", "Copy methods")],
 ["all reads on both sides"])
prop("C29", "Duplicate-permitting multimaps are exact multisets of entries",
 "After any sequence of Put, Remove, RemoveAll and Clear, the multimaps that permit duplicates (built-in map or AVL keys, slice values) contain each key/value entry exactly as many times as it was put and not since removed; Remove takes away one occurrence, or nothing if there is none. Size, Dimension, Count, Has, Get, Each and EachAssociation agree with that multiset, and the AVL variant visits keys in ascending order.",
 [H, I, C], "every history over both implementations",
 "One fixed script shared by all implementations.",
 ["multimap/map.go", "multimap/avl.go", "multimap/values.go"], [("slice values with swap removal", "multimap/values.go valuesSlice"), ("entry counter", "multimap/map.go, multimap/avl.go")],
 ["all MultiMap methods"])
prop("C30", "Set-valued multimaps are exact sets of entries, sorted as promised",
 "After any sequence of Put, Remove, RemoveAll and Clear, the multimaps that do not permit duplicates (built-in map or AVL keys, AVL set values) contain exactly the key/value entries put and not since removed, each once. Size, Dimension, Count, Has, Get, Each and EachAssociation agree with that set; values of a key come in ascending order, and in the AVL variant keys do too.",
 [H, I, C], "every history over both implementations, any strict weak order",
 "One fixed script shared by all implementations.",
 ["multimap/map.go", "multimap/avl.go", "multimap/values.go"], [("AVL set values", "multimap/values.go valuesSet"), ("entry counter", "multimap/map.go, multimap/avl.go")],
 ["all MultiMap methods"])
prop("C31", "2D array cells are independent and bounds-checked for every shape",
 "For every width and height, square or not, each in-range cell (x, y) is its own storage: Set changes exactly that cell and Get returns its last value (initially zero, or the fill value). Get, Set, Row, RowSpan and Fill panic exactly when a coordinate is out of range, and then change nothing; Width and Height are as given.",
 [I, C, H], "every shape, coordinate pair and value", "All tests use square arrays.",
 ["array2d/array2d.go"], [("flat index arithmetic", "array2d/array2d.go getUnchecked, setUnchecked"), ("range checks", "array2d/array2d.go Get, Set")],
 ["Get, Set, Width, Height, panics"])
prop("C32", "2D array rows, fills and jagged input cover exactly the right cells",
 "For every shape: Row and RowSpan return slices that alias exactly the named cells of the row in order, so writes on either side are seen on the other; Fill sets exactly the cells of the inclusive rectangle spanned by its corners in any order; NewFilled sets all cells; OfJagged places each value at its position, ignores values outside the bounds and leaves the rest zero.",
 [I, C], "every shape, rectangle, row span and jagged input", "All tests use square arrays and well-formed jagged input.",
 ["array2d/array2d.go"], [("row slicing and exponential copy fill", "array2d/array2d.go Row, RowSpan, Fill, fill, OfJagged")],
 ["Get of every cell after each operation"])
prop("C33", "Ordering helpers obey the laws of the order for all arguments",
 "For all arguments of an ordered type and any strict weak order: Compare is -1, 0 or 1 exactly as a is less than, equivalent to, or greater than b; Max and Min return one of their arguments that is not smaller (larger) than the other; Clamp returns lo, x or hi exactly as x is below, within or above [lo, hi]. The function-taking variants agree with the plain ones, and Less and Equals agree with the operators.",
 [I], "every triple of values with lo <= hi, every strict weak order", "Examples with three literals.",
 ["generic.go"], [("comparisons", "generic.go Compare, Max, Min, Clamp, *Func")],
 ["return values"])
prop("C34", "Hash functions are consistent and integer hashes collision-free",
 "Hashing is a pure function of the value: equal values hash equally, signed and unsigned integers of any width hash as the 64-bit value they convert to, and hashing a string equals hashing its bytes. Two different integers of the same type never have the same 64-bit hash.",
 [I], "every pair of 64-bit integers, every byte string", "No test calls the hash functions directly; 2^64 inputs cannot be sampled.",
 ["generic.go"], [("invertible 64-bit mixer", "generic.go hash"), ("FNV-1a", "generic.go HashString, HashBytes")],
 ["return values"])
prop("C35", "Operations cost what the structure promises",
 "However the content came about, an operation does not look at everything: AVL trees, B-trees, heaps and tree multimaps call the user's less function a number of times logarithmic in the size for every Put, Push, Pop, Remove, Get and Has (times the number of elements for making a heap of a slice); hash maps call hash and equality a constant number of times per lookup when hashes are well spread, and per Put and Remove averaged over any run of operations, at every size including those where the table grows or shrinks. Size and Peek do not search.",
 [I, H], "every size up to the bound, several insertion orders, any key of the last operation",
 "No test or benchmark counts calls; a rebuild at every operation, or a scan, passes all tests.",
 ["avl/avl.go", "btree/btree.go", "heap/heap.go", "hashmap/map.go", "multimap/avl.go"], [("descent by comparison", "avl/avl.go add, search; btree/btree.go"), ("sift up and down", "heap/heap.go"), ("growth and shrinking", "hashmap/map.go resize")],
 ["numbers of calls of the user's functions"])
prop("C36", "Ropes are held in bounded chunks",
 "After any history of New, Insert, Remove, SplitAt, Join, Rebuild and Rebalance, the leaves Each visits, taken in order, make up the rope; none is longer than SplitLength, and a rope shorter than JoinLength is a single leaf. A rope just made or rebuilt has no more leaves than a balanced division of its content into chunks of about SplitLength needs.",
 [H, I], "every history, thresholds with JoinLength at most SplitLength",
 "Tests use the default thresholds, with which short contents never split.",
 ["rope/rope.go"], [("splitting and merging of leaves", "rope/rope.go adjust"), ("rebuilding", "rope/rope.go Rebuild, Rebalance")],
 ["Each, Value and Len of the leaves"])
prop("C37", "Containers treat elements of every type as opaque values",
 "Nothing a container does depends on what the stored values look like: nil pointers, nil interfaces and interfaces holding nil, zero values, empty structs, empty and nil slices, empty strings, booleans and structs of several fields are stored, found, counted, visited and removed like any other key, element or value, and come back identical. Whether an entry is present is never inferred from its value.",
 [I, H], "every history over small pools of such values",
 "Tests use non-zero ints and strings.",
 ["avl/avl.go", "btree/btree.go", "hashmap/map.go", "cache/cache.go", "bimap/bimap.go", "multimap/map.go", "queue/queue.go", "stack/stack.go", "list/list.go", "ulist/ulist.go", "heap/heap.go", "rope/rope.go", "prope/prope.go", "trie/trie.go", "interval/itree.go", "array2d/array2d.go", "hashset/set.go", "mapset/set.go", "set/set.go"], [("presence kept apart from the value", "Get, Put and Remove of every container")],
 ["all reads, for many element types"])
prop("C38", "Results are the caller's, and containers share nothing",
 "A slice or map returned by Overlaps, Keys, KeysWithPrefix, PeekAll, DequeueAll, set Keys and Map, Get of a set-valued multimap, and Value and Slice of a persistent rope is a snapshot: later operations on the container do not change it, and changing it changes neither the container nor another result. Slices and maps given to queue.Of, array2d.OfJagged, bimap.Of and the set constructors are copied: they are not modified and not referred to afterwards. Two containers of one kind are independent.",
 [H, I], "every content of four entries, every operation before and after",
 "Tests read results at once and use one container at a time.",
 ["interval/itree.go", "trie/trie.go", "queue/queue.go", "set/set.go", "multimap/values.go", "prope/prope.go", "bimap/bimap.go", "array2d/array2d.go", "hashset/set.go", "mapset/set.go"], [("results built fresh", "overlaps, Keys, PeekAll, Map, Get, Value"), ("no package-level state", "all constructors")],
 ["returned slices and maps over time; all reads of two containers"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
