From dff03fa27bb60340a7fad5a5d8fb4fd6f2039744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 01/15] fix: count all 256 children of a node

The child count was kept in 8 bits, so it wrapped to zero when the largest
node layout was full.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index ad6c6be..401598f 100644
--- a/txn.go
+++ b/txn.go
@@ -511,7 +511,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From 4fb8b86118d3362bc421a13dfa31e84cc455946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:32 +0000
Subject: [PATCH 02/15] fix: clip the capacity of the keys handed out

Appending to a returned key wrote into the key stored in the tree.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..cae6af1 100644
--- a/helpers.go
+++ b/helpers.go
@@ -351,7 +351,7 @@ func getKey(key []byte) []byte {
 	if keyLen == 0 {
 		return key
 	}
-	return key[:keyLen-1]
+	return key[: keyLen-1 : keyLen-1]
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
-- 
2.43.0


From 72fdad37efab4e42d02c4b7c220bbbbbe55d5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:34 +0000
Subject: [PATCH 03/15] fix: copy the key passed by the caller

The terminator was appended in place, which wrote into spare capacity of the
caller's slice and kept a reference to it.
---
 helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index cae6af1..374b516 100644
--- a/helpers.go
+++ b/helpers.go
@@ -342,8 +342,13 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// getTreeKey returns the form of the key that is kept in the tree. It is always
+// a copy, so that the tree never writes to or holds on to the caller's memory.
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key)+1)
+	copy(treeKey, key)
+	treeKey[len(key)] = '$'
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
-- 
2.43.0


From 8471d60bf129ff76fd604529afc0575e8fe36ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:35 +0000
Subject: [PATCH 04/15] fix: keep the subtree when the deleted key is absent

Deleting a key that is not in the tree dropped the node where the search
ended, with all the keys below it.
---
 txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 401598f..03f3734 100644
--- a/txn.go
+++ b/txn.go
@@ -324,9 +324,12 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	}
 
 	// Find child node
+	if depth >= len(key) {
+		return node, nil, false
+	}
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From de4ffb1d9cd311fbe7ee4e0216cf3523bd3aa2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:37 +0000
Subject: [PATCH 05/15] fix: report the old value when an inner key is
 overwritten

Overwriting a key held by an inner node counted as a new key and did not
return the previous value.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 03f3734..118ae93 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From 890dcda683474cfd927db814fbfd363b80411185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:39 +0000
Subject: [PATCH 06/15] fix: freeze the nodes shared by CommitOnly and Clone

Writes to the transaction after CommitOnly or Clone modified nodes in place
that the returned tree or transaction was already using.
---
 txn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txn.go b/txn.go
index 118ae93..688f56e 100644
--- a/txn.go
+++ b/txn.go
@@ -66,6 +66,8 @@ func (t *Txn[T]) Clone() *Txn[T] {
 		tree:         newTree,
 		oldMaxNodeId: t.tree.maxNodeId,
 	}
+	// The nodes written so far are shared with the clone from now on
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return txn
 }
 
@@ -399,6 +401,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes written so far belong to the returned tree from now on
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 57eaa3b259a5d20047dce5cad0871b669ba311c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:47 +0000
Subject: [PATCH 07/15] fix: never replace or reuse the watch channel of a
 shared node

Tracking a node of a published tree swapped its channel, so other watchers
missed the change. Copies of tracked nodes kept the channel about to close.
---
 txn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txn.go b/txn.go
index 688f56e..7cb4935 100644
--- a/txn.go
+++ b/txn.go
@@ -31,7 +31,7 @@ func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
 	if n.getId() > t.oldMaxNodeId {
 		return n
 	}
-	nc := n.clone(!trackCh)
+	nc := n.clone(!trackCh && !t.trackMutate)
 	t.tree.maxNodeId++
 	nc.setId(t.tree.maxNodeId)
 	return nc
@@ -594,7 +594,9 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From 655bdc978f9de8a02f69e72db0b82b8ace3caa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:48 +0000
Subject: [PATCH 08/15] fix: clear the slots and track the nodes affected by
 removing a child

The last child stayed in its old slot too. The only remaining child was
replaced without notifying its watchers, and the leaf of a shrunk node was
notified although it stayed in the tree.
---
 helpers.go | 16 +++++-----------
 txn.go     |  1 -
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/helpers.go b/helpers.go
index 374b516..8b05cf7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -390,16 +390,14 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 
 	n.setNumChildren(n.getNumChildren() - 1)
 
 	if n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
+		t.trackChannel(n.getChild(0))
 		nodeToReturn := t.writeNode(n.getChild(0), false)
 		// Is not leaf
 		if n.getArtNodeType() != leafType {
@@ -441,11 +439,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
 
@@ -460,7 +455,6 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 			nL := t.writeNode(n.getNodeLeaf(), true)
 			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
 		}
-		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
 	return n
diff --git a/txn.go b/txn.go
index 7cb4935..5953023 100644
--- a/txn.go
+++ b/txn.go
@@ -141,7 +141,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
-- 
2.43.0


From 4b30f278f228378555873ce2cf7398477692d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:42 +0000
Subject: [PATCH 09/15] fix: store keys without an in-band terminator

The '$' appended to every key made keys holding that byte, or smaller ones,
collide and sort wrongly. A key that ends at an inner node is now kept in the
leaf of that node. Empty trees no longer hold a placeholder entry.

The lower bound seeks relied on the terminator. They now compare whole keys,
which also stops them from returning keys on the wrong side of the bound,
skipping keys and panicking on long shared prefixes.
---
 helpers.go              |  29 ++++-
 lower_bound_iterator.go | 276 +++++-----------------------------------
 node_48.go              |   2 +-
 node_leaf.go            |  10 --
 reverse_iterator.go     | 220 ++++++--------------------------
 tree.go                 |  25 +---
 txn.go                  |  56 ++++----
 7 files changed, 126 insertions(+), 492 deletions(-)

diff --git a/helpers.go b/helpers.go
index 8b05cf7..6a1969c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -197,6 +197,21 @@ func prefixMismatch[T any](n Node[T], key []byte, keyLen, depth int) int {
 	return idx
 }
 
+// comparePrefix compares the prefix of the node at the given depth with the
+// search key. It is zero if the key starts with the prefix, negative if all the
+// keys under the node are below the key, and positive if they are all above it.
+func comparePrefix[T any](n Node[T], key []byte, depth int) int {
+	idx := prefixMismatch(n, key, len(key), depth)
+	if idx >= int(n.getPartialLen()) {
+		return 0
+	}
+	if depth+idx >= len(key) {
+		// The search key ends within the prefix
+		return 1
+	}
+	return bytes.Compare(minimum(n).getKey(), key)
+}
+
 // minimum finds the minimum leaf under a node.
 func minimum[T any](node Node[T]) *NodeLeaf[T] {
 	// Handle base cases
@@ -268,6 +283,9 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 	var idx int
 	switch node.getArtNodeType() {
 	case node4:
+		if node.getNumChildren() == 0 {
+			return nil
+		}
 		return maximum[T](node.getChild(int(node.getNumChildren() - 1)))
 	case node16:
 		return maximum[T](node.getChild(int(node.getNumChildren() - 1)))
@@ -345,18 +363,15 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 // getTreeKey returns the form of the key that is kept in the tree. It is always
 // a copy, so that the tree never writes to or holds on to the caller's memory.
 func getTreeKey(key []byte) []byte {
-	treeKey := make([]byte, len(key)+1)
+	treeKey := make([]byte, len(key))
 	copy(treeKey, key)
-	treeKey[len(key)] = '$'
 	return treeKey
 }
 
+// getKey returns the user facing form of a key kept in the tree. Its capacity is
+// clipped, so that appending to it never writes to the tree's memory.
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[: keyLen-1 : keyLen-1]
+	return key[:len(key):len(key)]
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..9d690ed 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -47,7 +47,7 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 			for itr := int(n4.numChildren) - 1; itr >= 0; itr-- {
 				i.stack = append(i.stack, n4.children[itr])
 			}
-			if n4L != nil {
+			if n4L != nil && bytes.Compare(n4L.key, i.path) >= 0 {
 				return getKey(n4L.key), n4L.value, true
 			}
 		case *Node16[T]:
@@ -56,8 +56,8 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 			for itr := int(n16.numChildren) - 1; itr >= 0; itr-- {
 				i.stack = append(i.stack, n16.children[itr])
 			}
-			if n16L != nil {
-				return getKey(n16.leaf.key), n16.leaf.value, true
+			if n16L != nil && bytes.Compare(n16L.key, i.path) >= 0 {
+				return getKey(n16L.key), n16L.value, true
 			}
 		case *Node48[T]:
 			n48 := node.(*Node48[T])
@@ -73,7 +73,7 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 				}
 				i.stack = append(i.stack, nodeCh)
 			}
-			if n48L != nil {
+			if n48L != nil && bytes.Compare(n48L.key, i.path) >= 0 {
 				return getKey(n48L.key), n48L.value, true
 			}
 		case *Node256[T]:
@@ -86,273 +86,59 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 				}
 				i.stack = append(i.stack, nodeCh)
 			}
-			if n256L != nil {
+			if n256L != nil && bytes.Compare(n256L.key, i.path) >= 0 {
 				return getKey(n256L.key), n256L.value, true
 			}
 		case *NodeLeaf[T]:
 			leafCh := node.(*NodeLeaf[T])
-			return getKey(leafCh.key), leafCh.value, true
+			if bytes.Compare(leafCh.key, i.path) >= 0 {
+				return getKey(leafCh.key), leafCh.value, true
+			}
 		}
 	}
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
+// SeekLowerBound is used to seek the iterator to the smallest key that is
+// greater or equal to the given key.
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
-
+	i.path = getTreeKey(prefixKey)
 	i.stack = []Node[T]{}
-
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
-	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
-	i.path = prefix
-
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
 
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+	for node != nil {
+		if node.isLeaf() {
+			// Next skips it if it is below the bound
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
+		// Compare the node's prefix with the search key
+		if cmp := comparePrefix(node, i.path, depth); cmp < 0 {
+			// Every key of the subtree is below the bound
 			return
-		}
-
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+		} else if cmp > 0 {
+			// Every key of the subtree is above the bound
+			i.stack = append(i.stack, node)
 			return
 		}
+		depth += int(node.getPartialLen())
 
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+		if depth >= len(i.path) {
+			// Every key of the subtree starts with the search key
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
+		// The node's own key is below the bound, and so are the children in
+		// front of the one to descend to. The ones behind it are all above.
+		for c := 255; c > int(i.path[depth]); c-- {
+			if ch, _ := findChild(node, byte(c)); ch != nil {
+				i.stack = append(i.stack, ch)
 			}
-			depth += int(node.getPartialLen())
 		}
-
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				i.stack = append(i.stack, node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
-			return
-		}
-
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
-
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
-			return
-		}
-
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
-			}
-		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
-		}
-
-		parent = node
-		// Move to the next level in the tree
-		node = node.getChild(idx)
-
+		node, _ = findChild(node, i.path[depth])
 		depth++
-
 	}
-
 }
diff --git a/node_48.go b/node_48.go
index 1e3af26..e56c0e0 100644
--- a/node_48.go
+++ b/node_48.go
@@ -182,7 +182,7 @@ func (n *Node48[T]) setKey(key []byte) {
 
 func (n *Node48[T]) getLowerBoundCh(c byte) int {
 	for i := int(c); i < 256; i++ {
-		if n.getChild(int(n.keys[i])-1) != nil {
+		if n.keys[i] != 0 {
 			return int(n.keys[i] - 1)
 		}
 	}
diff --git a/node_leaf.go b/node_leaf.go
index 346b7e3..aad765d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..ecc7838 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -9,25 +9,22 @@ import (
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
 
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
+	// bounded is set when the keys are limited to the ones lower or equal to the
+	// path, after SeekReverseLowerBound. Otherwise they are limited to the ones
+	// that start with the path.
+	bounded bool
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
 // and returns the watch channel of the finest granularity
 func (ri *ReverseIterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
+	ri.bounded = false
 	return ri.i.SeekPrefixWatch(prefix)
 }
 
 // SeekPrefix is used to seek the iterator to a given prefix
 func (ri *ReverseIterator[T]) SeekPrefix(prefix []byte) {
+	ri.bounded = false
 	ri.i.SeekPrefixWatch(prefix)
 }
 
@@ -36,162 +33,63 @@ func (ri *ReverseIterator[T]) SeekPrefix(prefix []byte) {
 // predict based on the radix structure which node(s) changes might affect the
 // result.
 func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
-	// ri.i.node starts off in the common case as pointing to the root node of the
-	// tree. By the time we return we have either found a lower bound and setup
-	// the stack to traverse all larger keys, or we have not and the stack and
-	// node should both be nil to prevent the iterator from assuming it is just
-	// iterating the whole tree from the root node. Either way this needs to end
-	// up as nil so just set it here.
-	ri.i.seenMismatch = false
+	ri.bounded = true
 	ri.i.stack = make([]Node[T], 0)
+	ri.i.path = getTreeKey(key)
 	n := ri.i.node
-	ri.i.node = nil
-	prefix := getTreeKey(key)
-	ri.i.path = prefix
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
-		}
-		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
-
-		if prefixCmp < 0 {
-			// Prefix is smaller than search prefix, that means there is no exact
-			// match for the search key. But we are looking in reverse, so the reverse
-			// lower bound will be the largest leaf under this subtree, since it is
-			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
+	for n != nil {
+		if n.isLeaf() {
+			// Previous skips it if it is above the bound
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
-			return
-		}
-
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
-		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
-			}
-		}
-
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
+		// Compare the node's prefix with the search key
+		if cmp := comparePrefix(n, ri.i.path, depth); cmp < 0 {
+			// Every key of the subtree is below the bound
 			ri.i.stack = append(ri.i.stack, n)
 			return
+		} else if cmp > 0 {
+			// Every key of the subtree is above the bound
+			return
 		}
+		depth += int(n.getPartialLen())
 
+		// The node's own key is not above the bound, and comes last
 		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
+			ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
 		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
-		}
-
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
+		if depth >= len(ri.i.path) {
+			// The children are all above the bound
+			return
 		}
 
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
+		// The children in front of the one to descend to are all below the
+		// bound, the ones behind it are all above.
+		for c := 0; c < int(ri.i.path[depth]); c++ {
+			if ch, _ := findChild(n, byte(c)); ch != nil {
+				ri.i.stack = append(ri.i.stack, ch)
 			}
 		}
-
-		if idx == -1 {
-			break
-		}
-
-		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
+		n, _ = findChild(n, ri.i.path[depth])
 		depth++
 	}
+}
 
+// accepts returns true if the key is one that the iterator was seeked to.
+func (ri *ReverseIterator[T]) accepts(key []byte) bool {
+	if ri.bounded {
+		return bytes.Compare(key, ri.i.path) <= 0
+	}
+	return hasPrefix(key, ri.i.path)
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -208,54 +106,30 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 		switch node.(type) {
 		case *NodeLeaf[T]:
 			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+			if ri.accepts(leafCh.key) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
 		case *Node4[T]:
 			n4 := node.(*Node4[T])
 			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n4.leaf)
 			}
 			for itr := 0; itr < int(n4.numChildren); itr++ {
 				ri.i.stack = append(ri.i.stack, n4.children[itr])
 			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
 		case *Node16[T]:
 			n16 := node.(*Node16[T])
 			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n16.leaf)
 			}
 			for itr := 0; itr < int(n16.numChildren); itr++ {
 				ri.i.stack = append(ri.i.stack, n16.children[itr])
 			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
 		case *Node48[T]:
 			n48 := node.(*Node48[T])
 			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n48.leaf)
 			}
 			for itr := 0; itr < 256; itr++ {
 				idx := n48.keys[itr]
@@ -268,19 +142,10 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 				}
 				ri.i.stack = append(ri.i.stack, nodeCh)
 			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
 		case *Node256[T]:
 			n256 := node.(*Node256[T])
 			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
+				ri.i.stack = append(ri.i.stack, n256.leaf)
 			}
 			for itr := 0; itr < 256; itr++ {
 				nodeCh := n256.children[itr]
@@ -289,9 +154,6 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 				}
 				ri.i.stack = append(ri.i.stack, nodeCh)
 			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
 	}
 	return nil, zero, false
diff --git a/tree.go b/tree.go
index b844df6..349b4cf 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
@@ -94,11 +90,12 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
 
+		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
+			last = n.getNodeLeaf()
+		}
+
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
 			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
@@ -112,18 +109,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			break
 		}
 
-		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
-			last = n.getNodeLeaf()
-		}
-
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
-		}
-
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
diff --git a/txn.go b/txn.go
index 5953023..3f82df8 100644
--- a/txn.go
+++ b/txn.go
@@ -193,24 +193,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends here
+				node.setNodeLeaf(newLeaf.getNodeLeaf())
 			}
 			return node, zero, true
 		}
@@ -239,29 +230,36 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			// The key ends here
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
 	// Find a child to recurse to
-	child, idx := t.findChild(node, key[depth])
-	if child != nil {
-		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
-		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
-			node.setChild(idx, newChild)
+	if depth < len(key) {
+		child, idx := t.findChild(node, key[depth])
+		if child != nil {
+			newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
+			if mutatedSubtree || newChild != child {
+				t.trackChannel(node)
+				node = t.writeNode(node, false)
+				node.setChild(idx, newChild)
+			}
+			return node, val, mutatedSubtree
 		}
-		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
 	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
 		return t.addChild(node, key[depth], newLeaf), zero, true
 	}
-	return node, zero, false
+	// The key ends here
+	node.setNodeLeaf(newLeaf.getNodeLeaf())
+	return node, zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -269,13 +267,11 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
+		t.tree.maxNodeId++
 		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
+			id:      t.tree.maxNodeId,
+			partial: make([]byte, maxPrefixLen),
 		}
-		t.tree.maxNodeId += 2
 	} else {
 		t.tree.root = newRoot
 	}
@@ -297,8 +293,8 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	}
 
 	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
+		if node.getArtNodeType() == leafType && leafMatches(node.getKey(), key) == 0 {
+			t.trackChannel(node)
 			return nil, node, true
 		}
 	}
-- 
2.43.0


From 7e6386ea3ae5a787299dc31da6d8b952970749f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:49 +0000
Subject: [PATCH 10/15] fix: delete exactly the keys below a prefix

DeletePrefix left gaps in the children, skipped some layouts and kept the key
equal to the prefix.
---
 txn.go | 104 +++++----------------------------------------------------
 1 file changed, 9 insertions(+), 95 deletions(-)

diff --git a/txn.go b/txn.go
index 3f82df8..b203964 100644
--- a/txn.go
+++ b/txn.go
@@ -421,103 +421,17 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
-	key := getTreeKey(prefix)
-	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
-	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
-	} else {
-		t.tree.root = newRoot
+	// Collect the keys first, deleting them moves nodes around
+	var keys [][]byte
+	it := t.tree.root.Iterator()
+	it.SeekPrefix(prefix)
+	for k, _, ok := it.Next(); ok; k, _, ok = it.Next() {
+		keys = append(keys, k)
 	}
-	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
-		t.tree.size = t.tree.size - uint64(numDeletions)
-		t.size = t.tree.size
-		return true
+	for _, k := range keys {
+		t.Delete(k)
 	}
-	return false
-}
-
-func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int) {
-	// Get terminated
-	if node == nil {
-		return nil, 0
-	}
-	// Handle hitting a leaf node
-	if isLeaf[T](node) {
-		nL := node.getNodeLeaf()
-		if nL != nil && bytes.HasPrefix(getKey(nL.getKey()), getKey(key)) {
-			t.trackChannel(node)
-			t.trackChannel(nL)
-			return nil, 1
-		}
-		return node, 0
-	}
-
-	// Bail if the prefix does not match
-	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
-		}
-	}
-
-	numDel := 0
-
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
-		}
-	}
-
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
-	}
-
-	slow := 0
-	numCh := 0
-
-	node = t.writeNode(node, true)
-
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
-	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
-	}
-	node.setNumChildren(uint16(numCh))
-
-	return node, numDel
+	return len(keys) != 0
 }
 
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
-- 
2.43.0


From 47c13bfaa2a746e19cd5a7fb1bde3faffcaeb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:56 +0000
Subject: [PATCH 11/15] fix: do not keep the prefix passed to SeekPrefix

The iterator held on to the caller's slice. An iterator used without a seek
now walks everything instead of nothing.
---
 iterator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index d88db14..cbb2db1 100644
--- a/iterator.go
+++ b/iterator.go
@@ -27,6 +27,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Not seeked, walk everything under the node
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
@@ -106,7 +111,7 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	i.path = getTreeKey(prefix)
 
 	i.stack = nil
 	depth := 0
-- 
2.43.0


From 374e7de140a130eb7d1f4e00bbb60b2f588fee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:06 +0000
Subject: [PATCH 12/15] fix: visit every entry in Walk and every node in DFS

Keys held by inner nodes and children of the two largest layouts were
skipped.
---
 tree.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index 349b4cf..39c1b99 100644
--- a/tree.go
+++ b/tree.go
@@ -367,13 +367,13 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if nL := n.getNodeLeaf(); nL != nil && fn(getKey(nL.getKey()), nL.getValue()) {
 		return true
 	}
 
-	// Recurse on the children
-	for _, e := range n.getChildren() {
-		if e != nil {
+	// Recurse on the children, in key order
+	for c := 0; c < 256; c++ {
+		if e, _ := findChild(n, byte(c)); e != nil {
 			if recursiveWalk(e, fn) {
 				return true
 			}
@@ -391,8 +391,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
+	for _, e := range n.getChildren() {
 		if e != nil {
 			t.DFSNode(e, fn)
 		}
-- 
2.43.0


From b9409d64d3723cba2a6d495444358057a76ddbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:15 +0000
Subject: [PATCH 13/15] fix: do not dereference a missing leaf in GetWatch

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 39c1b99..730384f 100644
--- a/tree.go
+++ b/tree.go
@@ -244,7 +244,7 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 			}
 			// Check if the expanded path matches
 			nL := n.getNodeLeaf()
-			if leafMatches(nL.getKey(), key) == 0 {
+			if nL != nil && leafMatches(nL.getKey(), key) == 0 {
 				return nL.getValue(), true, nL.getMutateCh()
 			}
 		}
-- 
2.43.0


From c84a61555809c918227a366165e2c2b2f1ce459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:16 +0000
Subject: [PATCH 14/15] fix: start every seek of an iterator at its first node

A prefix seek left the iterator at the node it found. The next seek on the
same iterator then started there, with none of the key consumed, and missed
keys.
---
 iterator.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/iterator.go b/iterator.go
index cbb2db1..0a9ab66 100644
--- a/iterator.go
+++ b/iterator.go
@@ -128,7 +128,6 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
 			if mismatchIdx < int(node.getPartialLen()) {
 				// If there's a mismatch, set the node to nil to break the loop
-				i.node = node
 				i.stack = []Node[T]{node}
 				return node
 			}
@@ -137,7 +136,6 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 
 		if depth >= len(prefix) {
 			// If the prefix is exhausted, break the loop
-			i.node = node
 			i.stack = []Node[T]{node}
 			return node
 		}
@@ -146,13 +144,11 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 		child, _ := findChild[T](node, prefix[depth])
 		if child == nil {
 			// If the child node doesn't exist, break the loop
-			i.node = node
 			i.stack = []Node[T]{node}
 			return node
 		}
 
 		i.stack = []Node[T]{node}
-		i.node = node
 		i.depth = depth
 
 		node = child
-- 
2.43.0


From 23d83e40c02ae732deb31eb10d02b4dd1b307f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:26:22 +0000
Subject: [PATCH 15/15] fix: compare the whole prefix before handing out the
 watch of an absent key

A compressed prefix keeps only its first ten bytes in the node.
A watched lookup compared those and then went down to a child, although
the key differed from the prefix later on.
The channel handed out belonged to a node that inserting the key does
not change, so the watch never fired.
---
 tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 730384f..22c2007 100644
--- a/tree.go
+++ b/tree.go
@@ -251,8 +251,9 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			// An insert of the key only reaches the nodes whose whole prefix matches
+			prefixLen := prefixMismatch[T](n, key, len(key), depth)
+			if prefixLen < int(n.getPartialLen()) {
 				if n.getNodeLeaf() != nil {
 					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
 						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-- 
2.43.0

