From 8c32beba8e68e334342a76375a09d0ebe823f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 1/7] fix: reject the largest proof index instead of
 overflowing

prove(u64::MAX) overflowed while comparing proof_index + 1 with the leaves
count: a panic with overflow checks, and a wrapped bounds check without.
---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From 5537893cdb2014834373729f5eb86e473a0cb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 2/7] fix: name the missing storage key when the proven leaf
 cannot be loaded

The load error of a missing leaf carried the proof index, while every other
load error carries the key that is not found in storage.
---
 src/binary/merkle_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index f8c250c..cabf5fa 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -90,10 +90,11 @@ where
 
         let root_position = self.root_position();
         let leaf_position = Position::from_leaf_index(proof_index);
+        let leaf_key = leaf_position.in_order_index();
         let primitive = self
             .storage
-            .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .get(&leaf_key)?
+            .ok_or(MerkleTreeError::LoadError(leaf_key))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


From 3c6538b80019cef4d05c978ad244cf93b8a36f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 3/7] fix: leave the tree unchanged when storage fails during a
 push

A storage error while joining subtrees returned with the head detached, so
the tree silently lost every leaf pushed before.
---
 src/binary/merkle_tree.rs | 8 +++++++-
 src/sum/merkle_tree.rs    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index cabf5fa..1ebfc47 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -296,10 +296,16 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Subtrees are joined in place; restore them so that a failed push
+            // leaves the tree as it was.
+            self.head = previous_head;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..1fb4646 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,16 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Subtrees are joined in place; restore them so that a failed push
+            // leaves the tree as it was.
+            self.head = previous_head;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From e31a123abda419619e455908a96dc8c1f9e5a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 4/7] fix: load the empty sparse tree from its own root

An empty tree reports the zero root, which load() could not find in storage.
---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..4836b29 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root is the root of the empty tree, whose only node is a
+            // placeholder and is never stored.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 4149f27498690ac9c73cb75ad4378be05414e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 5/7] fix: delete only the leaf of the given key

The record kept under the leaf key outlives the leaf, so deleting a key a
second time removed whichever leaf or subtree its path ended at.
---
 src/sparse/merkle_tree.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 4836b29..6789669 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -1,5 +1,5 @@
 use crate::{
-    common::{error::DeserializeError, AsPathIterator, Bytes32, ChildError},
+    common::{error::DeserializeError, AsPathIterator, Bytes32, ChildError, Prefix},
     sparse::{primitive::Primitive, zero_sum, Node, StorageNode, StorageNodeError},
     storage::{Mappable, StorageMutate},
 };
@@ -112,13 +112,12 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
+        // Follow the path of the key to the leaf or placeholder at its end. If
+        // that is not the leaf of the given key, there is nothing to delete.
+        let leaf_node = Node::new(0, Prefix::Leaf, *key, *zero_sum());
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+        let actual_leaf_node = &path_nodes[0];
+        if !actual_leaf_node.is_placeholder() && actual_leaf_node.leaf_key() == key {
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From 872284e80c95271aa677339f62d23dc76f195b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 6/7] fix: store sparse nodes under their hash only

Leaves were also stored under their own key, in the same table as the nodes:
a key equal to the hash of a stored node overwrote that node.
---
 src/sparse/merkle_tree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 6789669..ac2a614 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -92,8 +92,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
-- 
2.43.0


From d878a7c34c8822b1d4e7f052ef5353156aed0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 7/7] fix: keep every node of the current root stored when a
 delete fails

The stale nodes were removed before the new ones were written, so a storage
error in between left the tree at a root whose nodes were gone.
---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index ac2a614..f006548 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -233,10 +233,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -289,6 +285,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the stale nodes last: if storage fails at any point, every
+        // node of the current root is still stored.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0

