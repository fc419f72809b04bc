From 10513c20e38dc7199b723ad1b54561a9ef7daeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:28 +0000
Subject: [PATCH 01/19] fix: get returns a leaf's value only for its exact key

A lookup compared the rest of the key with the leaf's nibbles up to the
shorter of the two, so prefixes and extensions of a stored key also
returned its value.
---
 src/trie_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..b8ee833 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -320,7 +320,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 1f0a95ddf5f837071807897a67c2d463efb54e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:43 +0000
Subject: [PATCH 02/19] fix: get of a key that ends inside of an extension
 returns None

The lookup popped the extension's full length off the remaining key and
panicked (or read garbage in release builds) when the key was shorter.
---
 src/trie_ops.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index b8ee833..bc7a020 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,12 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // The key ends inside of the extension.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 51558737af08ada6e09e34e86f0a9efd8b9407af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:57 +0000
Subject: [PATCH 03/19] fix: deleting a child keeps the value stored in its
 branch

A branch with at most two children was collapsed without regard to its
own value. The value was lost if another child remained, and the delete
panicked if none did.
---
 src/trie_ops.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index bc7a020..fc2f8f1 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -478,9 +478,11 @@ fn delete_intern<N: PartialTrie>(
                 |(updated_child, value_deleted)| {
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
-                    let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
-                    {
+                    let num_entries =
+                        get_num_non_empty_children(children) + usize::from(!value.is_empty());
+                    let updated_node = match node_is_empty(&updated_child) && num_entries <= 2 {
+                        // Only the branch's own value is left.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         false => {
                             // Branch stays.
                             let mut updated_children = children.clone();
-- 
2.43.0


From fd6cff5878d6a90e6a465bcd65042538eb545ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:10 +0000
Subject: [PATCH 04/19] fix: inserting a key that ends inside of an extension
 splits it

The key was truncated by the extension's full length and the value was
stored at the end of the extension, under a longer key.
---
 src/trie_ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index fc2f8f1..697c701 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,10 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // A key that ends inside of the extension splits it.
+            if new_node.nibbles.count >= nibbles.count
+                && nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles)
+            {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From e22106f3e0794c5288f4d264d7b72ca8c12a87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:49 +0000
Subject: [PATCH 05/19] fix: deleting a key that ends inside of an extension
 deletes nothing

The key was truncated by the extension's full length, so that the value
at the end of the extension, of a longer key, was deleted.
---
 src/trie_ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 697c701..90f9fa7 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -518,6 +518,11 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            // The key ends inside of the extension.
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
-- 
2.43.0


From 45e599c897701714386a72a664638a46dd7d17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:49 +0000
Subject: [PATCH 06/19] fix: deleting a branch value normalises the branch

A branch that was left with one child stayed in place, which gives a root
hash that differs from Ethereum's for the same contents. Deleting at a
branch without a value reported an empty value instead of None.
---
 src/partial_trie.rs | 10 ++++------
 src/trie_ops.rs     | 26 +++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..7fea02e 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,12 +76,10 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
-    /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// To agree with Ethereum specs, nodes that are redundant after the
+    /// deletion are removed. For example, a `Branch` node that is left with a
+    /// single child is merged with it. Deleting a key that holds no value does
+    /// not change the trie and returns `None`.
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 90f9fa7..3b183cb 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -471,7 +471,20 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                if value.is_empty() {
+                    return None;
+                }
+
+                // Without its value, a branch with a single child is redundant.
+                let updated_node = match get_num_non_empty_children(children) {
+                    1 => {
+                        let (nibble, child) = get_single_non_empty_child_and_nibble(children);
+                        extension(Nibbles::from_nibble(nibble), child.clone())
+                    }
+                    _ => branch(children.clone(), Vec::new()),
+                };
+
+                return Some((updated_node, value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -717,6 +730,17 @@ fn get_other_non_empty_child_and_nibble_in_two_elem_branch<N: PartialTrie>(
         .expect("Expected to find a non-empty node in the branch's children")
 }
 
+fn get_single_non_empty_child_and_nibble<N: PartialTrie>(
+    children: &[WrappedNode<N>; 16],
+) -> (Nibble, &WrappedNode<N>) {
+    children
+        .iter()
+        .enumerate()
+        .find(|(_, c)| !node_is_empty(c))
+        .map(|(n, c)| (n as Nibble, c))
+        .expect("Expected to find a non-empty node in the branch's children")
+}
+
 fn node_is_empty<N: PartialTrie>(node: &WrappedNode<N>) -> bool {
     matches!(node.as_ref(), Node::Empty)
 }
-- 
2.43.0


From de69a5d265aac73eb8ef771e2bb892741227e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:13 +0000
Subject: [PATCH 07/19] fix: clones of a hashed trie no longer share one cached
 hash

A clone shared the cell of the cached hash with its origin, so that
after a change to either, asking one for its hash set the hash of the
other. Changing a trie now gives it a cache of its own. The cache is
cleared first because a bulk insert may panic half-way.
---
 src/partial_trie.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 7fea02e..1a99adc 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -304,6 +304,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Forgets the cached hash. Clones share their cache, so this must not
+    /// write to it but needs to start a new one.
+    fn clear_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -319,8 +325,8 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
         V: Into<crate::trie_ops::ValOrHash>,
     {
+        self.clear_hash();
         self.node.trie_insert(k, v);
-        self.set_hash(None);
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -329,8 +335,8 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
+        self.clear_hash();
         self.node.trie_extend(nodes);
-        self.set_hash(None);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -344,10 +350,8 @@ impl PartialTrie for HashedPartialTrie {
     where
         K: Into<crate::nibbles::Nibbles>,
     {
-        let res = self.node.trie_delete(k);
-        self.set_hash(None);
-
-        res
+        self.clear_hash();
+        self.node.trie_delete(k)
     }
 
     fn hash(&self) -> H256 {
-- 
2.43.0


From 9d2031379aba308b4087ac8c40256a9ad315bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:13 +0000
Subject: [PATCH 08/19] fix: a mutable reference to a hashed trie's node clears
 its cached hash

The node could be changed through DerefMut while the old hash stayed
cached.
---
 src/partial_trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 1a99adc..e97da24 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -398,6 +398,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The node may be changed through the reference.
+        self.clear_hash();
         &mut self.node
     }
 }
-- 
2.43.0


From c3a6e250bad55a1e3806e0d560d142fcf8a02c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:13 +0000
Subject: [PATCH 09/19] fix: subset keys that end inside of an extension no
 longer panic

The extension's full length was popped off the remaining key even if the
key was shorter.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..12d8633 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // The key ends inside of the extension.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From b27a38adb723314d4d5d55b3ea7bb2aebd6c40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:23 +0000
Subject: [PATCH 10/19] fix: subsets of a batch no longer keep nodes of earlier
 subsets

Between two subsets, the marks of only the top two levels of nodes were
reset, and not even the root's own. Nodes marked for one subset were
kept in all that follow.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 12d8633..601704d 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -336,14 +336,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From 4bc3bb0251b1ce6ad84c4d8271635db2797dd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:26 +0000
Subject: [PATCH 11/19] fix: values made from U128 and U512 have the size of
 their type

The conversion wrote every integer type into a buffer of 32 bytes. That
panicked for U128 and U512, or cut U512 short in release builds.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 3b183cb..ba65518 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From a65d8b27630c6c2eca39d07600dfe283e73c37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:26 +0000
Subject: [PATCH 12/19] fix: decoding an empty hex-prefix string returns an
 error

It indexed the flag byte of an empty slice and panicked.
---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..b0ebcda 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -56,6 +56,9 @@ pub enum BytesToNibblesError {
 
 #[derive(Debug, Error)]
 pub enum FromHexPrefixError {
+    #[error("Tried to convert an empty hex prefix byte string into `Nibbles`")]
+    Empty,
+
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
@@ -649,6 +652,10 @@ impl Nibbles {
 
     /// Converts a hex prefix byte string ("AKA "compact") into `Nibbles`.
     pub fn from_hex_prefix_encoding(hex_prefix_bytes: &[u8]) -> Result<Self, FromHexPrefixError> {
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::Empty);
+        }
+
         if hex_prefix_bytes.len() > 33 {
             return Err(FromHexPrefixError::TooLong(
                 hex::encode(hex_prefix_bytes),
-- 
2.43.0


From 9a86a3929883e62e7a576ab75b6ec00d298107a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:26 +0000
Subject: [PATCH 13/19] fix: nibble operations beyond the end panic in release
 builds too

Reading, popping, ranging and splitting relied on the panic of an
underflowing subtraction. Builds without overflow checks returned wrong
nibbles instead of the documented panic.
---
 src/nibbles.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index b0ebcda..89ba591 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -263,6 +263,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -288,6 +290,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -317,6 +321,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `n` is larger than the number of nibbles contained.
     pub fn pop_nibbles_back(&mut self, n: usize) -> Nibbles {
+        assert!(n <= self.count);
+
         let r = self
             .get_nibble_range((self.count - n)..self.count)
             .reverse();
@@ -371,8 +377,9 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
-        let range_count = range.end - range.start;
+        assert!(range.start <= range.end && range.end <= self.count);
 
+        let range_count = range.end - range.start;
         let shift_amt = (self.count - range.end) * 4;
         let mask = create_mask_of_1s(range_count * 4) << shift_amt;
         let range_packed = (self.packed & mask) >> shift_amt;
@@ -459,6 +466,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -482,6 +491,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
@@ -496,6 +507,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From 08454eaa4200b5fff664075a3286d7cb4a02bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:03 +0000
Subject: [PATCH 14/19] fix: trie diffs compare the nodes that have the same
 type and key

The comparison was inverted: nodes of the same type were reported as
differing, and nodes of different types reached unreachable!(). The
order of significance and the hash check of branches were inverted too,
so that a difference in a branch's own value was never reported.
---
 src/debug_tools/diff.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..40fed9b 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -55,9 +55,9 @@ impl Display for TrieDiff {
 
 #[derive(Copy, Clone, Debug)]
 enum DiffDetectionState {
-    NodeTypesDiffer = 0, // Also implies that hashes differ.
+    NoDiffDetected = 0,
     HashDiffDetected,
-    NoDiffDetected,
+    NodeTypesDiffer, // Also implies that hashes differ.
 }
 
 impl DiffDetectionState {
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
@@ -340,10 +340,10 @@ fn find_latest_diff_point_between_tries_rec(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-                    most_significant_diff_found
-                } else {
                     // Also run a hash check if we haven't picked anything up yet.
                     create_diff_detection_state_based_from_hash_and_gen_hashes(state, depth_state)
+                } else {
+                    most_significant_diff_found
                 }
             }
             (
-- 
2.43.0


From e411b0f2edacf6dc3d11f5eaadfe1be78a8fbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:42 +0000
Subject: [PATCH 15/19] fix: path queries follow extensions and report the true
 result

Queries did not consume the key of an extension, panicked at a branch
where the key ends, and reported a node as found whenever the key was
used up.
---
 src/debug_tools/common.rs | 17 +++++++++++------
 src/debug_tools/query.rs  | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..e2eb312 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// `None` if the key ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -41,7 +43,7 @@ impl PathSegment {
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
             PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Branch(nib) => nib.map(Nibbles::from_nibble),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -66,14 +70,15 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
 /// there are [`Nibbles`] with [Extension][`Node::Extension`] and
 /// [Leaf][`Node::Leaf`] nodes, and the only way to get the `Nibble`
 /// "associated" with a branch is to look at the next `Nibble` in the current
-/// key as we traverse down it.
+/// key as we traverse down it. If the key ends at the branch, then the piece is
+/// empty.
 pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTrie>(
     n: &Node<T>,
     curr_key: &Nibbles,
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..83a9f67 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,28 +276,28 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
-        Node::Branch { children, value: _ } => {
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
+        Node::Branch { children, value } => {
+            if curr_key.is_empty() {
+                query_out.node_found = !value.is_empty();
+                return;
+            }
+
             let nib = curr_key.pop_next_nibble_front();
 
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
-        }
-        Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
             if *nibbles == curr_key_next_nibs {
                 curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = nibbles == curr_key,
     }
 }
 
-- 
2.43.0


From 10a00dc0f9e28fd734732f71634869895d2c019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:55 +0000
Subject: [PATCH 16/19] fix: report the depth of a difference between tries

The depth of a reported difference was always 0. It now is the number of
nodes above the difference.
---
 src/debug_tools/diff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 40fed9b..446b797 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -89,13 +89,14 @@ impl DiffPoint {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
+        depth: usize,
         path: NodePath,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -195,6 +196,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -205,6 +207,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -214,13 +217,14 @@ impl DepthNodeDiffState {
         parent_k: &Nibbles,
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
+        depth: usize,
         path: NodePath,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, depth, path));
         }
     }
 }
-- 
2.43.0


From 8b84c25479ba20b08fe1e91582774af46c568cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:12 +0000
Subject: [PATCH 17/19] fix: report differing hash nodes at their own place

The path to two differing hash nodes contained a segment for the nodes
themselves, which no other kind of node gets.
---
 src/debug_tools/diff.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 446b797..2d91483 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -308,12 +308,7 @@ fn find_latest_diff_point_between_tries_rec(
         match (&state.a.node, &state.b.node) {
             (Node::Empty, Node::Empty) => DiffDetectionState::NoDiffDetected,
             (Node::Hash(a_hash), Node::Hash(b_hash)) => {
-                create_diff_detection_state_based_from_hashes(
-                    a_hash,
-                    b_hash,
-                    &state.new_from_parent(state.a, state.b, &Nibbles::default()),
-                    depth_state,
-                )
+                create_diff_detection_state_based_from_hashes(a_hash, b_hash, state, depth_state)
             }
             (
                 Node::Branch {
-- 
2.43.0


From 41b6b98c10f6fd45d96cacf44e45e10f24cf7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:12 +0000
Subject: [PATCH 18/19] fix: swap length and bytes in the error for long
 hex-prefix encodings

The message printed the bytes as the length and the length as the bytes.
---
 src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 89ba591..e6d300b 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -62,7 +62,7 @@ pub enum FromHexPrefixError {
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
-    #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {0}, bytes: {1})")]
+    #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {1}, bytes: {0})")]
     TooLong(String, usize),
 }
 
-- 
2.43.0


From 90bb7c05b4b8652bf5fc2fa03d216a7eecd94285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:25 +0000
Subject: [PATCH 19/19] fix: name the requested key when a subset cannot be
 created

The error carried only the nibbles left below the hash node that was hit.
---
 src/trie_subsets.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 601704d..12eab41 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -251,7 +251,8 @@ where
     K: Into<Nibbles>,
 {
     for k in keys_involved {
-        mark_nodes_that_are_needed(tracked_trie, &mut k.into())?;
+        let k: Nibbles = k.into();
+        mark_nodes_that_are_needed(tracked_trie, &mut k.clone(), &k)?;
     }
 
     Ok(create_partial_trie_subset_from_tracked_trie(tracked_trie))
@@ -260,6 +261,7 @@ where
 fn mark_nodes_that_are_needed<N: PartialTrie>(
     trie: &mut TrackedNode<N>,
     curr_nibbles: &mut Nibbles,
+    full_key: &Nibbles,
 ) -> SubsetTrieResult<()> {
     trie.info.touched = true;
 
@@ -267,7 +269,7 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         TrackedNodeIntern::Empty => Ok(()),
         TrackedNodeIntern::Hash => match curr_nibbles.is_empty() {
             false => Err(SubsetTrieError::UnexpectedKey(
-                *curr_nibbles,
+                *full_key,
                 format!("{:?}", trie),
             )),
             true => Ok(()),
@@ -280,7 +282,7 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
             }
 
             let nib = curr_nibbles.pop_next_nibble_front();
-            mark_nodes_that_are_needed(&mut children[nib as usize], curr_nibbles)
+            mark_nodes_that_are_needed(&mut children[nib as usize], curr_nibbles, full_key)
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
@@ -294,7 +296,7 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
                 false => Ok(()),
-                true => mark_nodes_that_are_needed(child, curr_nibbles),
+                true => mark_nodes_that_are_needed(child, curr_nibbles, full_key),
             }
         }
         TrackedNodeIntern::Leaf => Ok(()),
-- 
2.43.0

