From 0188dac1b9824d02975187246756f82f40472d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 01/12] fix: give every operation its own copy of a node

Nodes were shared through the block cache and changed in place before the
append. A failed or cancelled put or del, or one on a read only core, left its
changes visible, and an open traverse stream saw the tree change under it. Nodes
in the cache also referred back to the cache, so a dropped Hyperbee and its
Hypercore were never freed.
---
 src/blocks.rs | 56 +++++++++++++++++++++++++--------------------------
 src/del.rs    |  8 ++++----
 src/lib.rs    | 12 +++++------
 src/tree.rs   |  4 ++--
 4 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..2135abe 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -49,19 +49,15 @@ impl Blocks {
     /// # Errors
     /// when the provided `seq` is not in the Hypercore
     /// when the data in the Hypercore block cannot be decoded
-    #[tracing::instrument(skip(self, blocks))]
-    pub async fn get(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Shared<BlockEntry>, HyperbeeError> {
+    #[tracing::instrument(skip(self))]
+    pub async fn get(&self, seq: &u64) -> Result<Shared<BlockEntry>, HyperbeeError> {
         if let Some(block) = self.get_from_cache(seq).await {
             trace!("from cache");
             Ok(block)
         } else {
             trace!("from Hypercore");
             let block_entry = self
-                .get_from_core(seq, blocks)
+                .get_from_core(seq)
                 .await?
                 .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
             let block_entry = Arc::new(RwLock::new(block_entry));
@@ -73,15 +69,11 @@ impl Blocks {
         self.cache.read().await.get(seq).cloned()
     }
 
-    async fn get_from_core(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Option<BlockEntry>, HyperbeeError> {
+    async fn get_from_core(&self, seq: &u64) -> Result<Option<BlockEntry>, HyperbeeError> {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(node)?))
             }
             None => Ok(None),
         }
@@ -176,8 +168,11 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
+/// The keys and children of a [`Node`] as they are stored in a block.
+type NodeParts = (Vec<KeyValue>, Vec<Child>);
+
+/// Deserialize bytes from a Hypercore block into the parts of [`Node`]s.
+fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeParts>, DecodeError> {
     Ok(YoloIndex::decode(buf)?
         .levels
         .iter()
@@ -187,16 +182,17 @@ fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNod
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            (keys, children)
         })
         .collect())
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
-/// Hyperbee
+/// Hyperbee.
+/// It is shared through the cache, so it never changes and holds no reference to [`Blocks`].
 pub(crate) struct BlockEntry {
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    nodes: Vec<NodeParts>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -204,9 +200,9 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(entry: NodeSchema) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            nodes: make_node_vec(&entry.index[..])?,
             key: entry.key,
             value: entry.value,
         })
@@ -214,26 +210,30 @@ impl BlockEntry {
 
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
-    pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+    ///
+    /// The caller gets it's own copy of the node. So changes it makes to the node are not seen by
+    /// anyone else, until they are written to the hypercore.
+    pub fn get_tree_node(
+        &self,
+        offset: u64,
+        blocks: Shared<Blocks>,
+    ) -> Result<SharedNode, HyperbeeError> {
+        let (keys, children) = self
             .nodes
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
             .expect("offset *should* always point to a real node")
-            .clone())
+            .clone();
+        Ok(Arc::new(RwLock::new(Node::new(keys, children, blocks))))
     }
 }
 
 impl Debug for BlockEntry {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
+        f.debug_list().entries(&self.nodes).finish()?;
         write!(f, "}}")
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 8327cbf..6797569 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -354,16 +354,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has a deficient child, and that deficient child
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -460,7 +460,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..30c3223 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,13 +137,11 @@ impl Children {
             let child_ref = &self.children.read().await[index].clone();
             (child_ref.seq, child_ref.offset)
         };
-        let block = self
-            .blocks
+        let block = self.blocks.read().await.get(&seq).await?;
+        let node = block
             .read()
             .await
-            .get(&seq, self.blocks.clone())
-            .await?;
-        let node = block.read().await.get_tree_node(offset)?;
+            .get_tree_node(offset, self.blocks.clone())?;
         Ok(node)
     }
 
@@ -237,7 +235,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
@@ -247,7 +245,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
diff --git a/src/tree.rs b/src/tree.rs
index b6a0f71..1109a3b 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -63,11 +63,11 @@ impl Tree {
             return Ok(None);
         }
         let root = blocks
-            .get(&(version - 1), self.blocks.clone())
+            .get(&(version - 1))
             .await?
             .read()
             .await
-            .get_tree_node(0)?;
+            .get_tree_node(0, self.blocks.clone())?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From e65c281b2d9b8c33ee51ae9c97d9e4c67b24fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 02/12] fix: return errors for malformed nodes instead of
 panicking

An odd list of children, a reference to a node that is not in its block and a
node with too few children made every read panic, so a reader could be crashed
by the log it replicates.
---
 src/blocks.rs | 15 +++++++++------
 src/error.rs  |  6 ++++++
 src/lib.rs    |  5 ++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 2135abe..5cf3f4d 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -6,7 +6,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -172,19 +172,22 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
 type NodeParts = (Vec<KeyValue>, Vec<Child>);
 
 /// Deserialize bytes from a Hypercore block into the parts of [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeParts>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeParts>, HyperbeeError> {
+    YoloIndex::decode(buf)?
         .levels
         .iter()
         .map(|level| {
+            if level.children.len() % 2 != 0 {
+                return Err(HyperbeeError::IncompleteChildError);
+            }
             let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
             let mut children = vec![];
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            (keys, children)
+            Ok((keys, children))
         })
-        .collect())
+        .collect()
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
@@ -224,7 +227,7 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
+            .ok_or(HyperbeeError::NoNodeAtOffsetError(offset))?
             .clone();
         Ok(Arc::new(RwLock::new(Node::new(keys, children, blocks))))
     }
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..b825db6 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,6 +21,12 @@ pub enum HyperbeeError {
     DecodeError(#[from] DecodeError),
     #[error("No block at seq  `{0}`")]
     NoBlockAtSeqError(u64),
+    #[error("No node at offset `{0}` in the block")]
+    NoNodeAtOffsetError(u64),
+    #[error("No child at index `{0}` in the node")]
+    NoChildAtIndexError(usize),
+    #[error("A node's list of children has half a child")]
+    IncompleteChildError,
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/lib.rs b/src/lib.rs
index 30c3223..39b4705 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -134,7 +134,10 @@ impl Children {
     #[tracing::instrument(skip(self))]
     async fn get_child(&self, index: usize) -> Result<Shared<Node>, HyperbeeError> {
         let (seq, offset) = {
-            let child_ref = &self.children.read().await[index].clone();
+            let children = self.children.read().await;
+            let child_ref = children
+                .get(index)
+                .ok_or(HyperbeeError::NoChildAtIndexError(index))?;
             (child_ref.seq, child_ref.offset)
         };
         let block = self.blocks.read().await.get(&seq).await?;
-- 
2.43.0


From 5d5659e7d46a90308afd6109e6833a2f9b013324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 03/12] fix: make changes to a tree one at a time

put, del and create_header only take a shared reference, so they can run
concurrently. Two changes made to the same version of the tree lost one of them
or corrupted the tree, because both were given the same seq.
---
 src/del.rs  |  2 ++
 src/put.rs  |  2 ++
 src/tree.rs | 18 ++++++++++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 6797569..16bb1ab 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -414,6 +414,8 @@ impl Tree {
         key: &[u8],
         compare_and_swap: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
+
         let Some(root) = self.get_root(false).await? else {
             return Ok(None);
         };
diff --git a/src/put.rs b/src/put.rs
index d0bd6c2..b8cefdd 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -77,6 +77,8 @@ impl Tree {
         value: Option<&[u8]>,
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
+
         // NB: do this before we call `version` because it can add the header block
         let maybe_root = self.get_root(true).await?;
 
diff --git a/src/tree.rs b/src/tree.rs
index 1109a3b..f257d88 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -16,7 +16,7 @@ use std::{
     path::{Path, PathBuf},
     sync::Arc,
 };
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 
 /// A key/value store built on [`hypercore::Hypercore`]. It uses an append only
 /// [B-Tree](https://en.wikipedia.org/wiki/B-tree) and is compatible with the [JavaScript Hyperbee
@@ -25,6 +25,10 @@ use tokio::sync::RwLock;
 #[builder(pattern = "owned", derive(Debug))]
 pub struct Tree {
     pub blocks: Shared<Blocks>,
+    /// Held while the tree is changed. Each change is made to the latest version of the tree, so
+    /// they must be made one at a time.
+    #[builder(default)]
+    pub(crate) write_lock: Arc<Mutex<()>>,
 }
 
 impl Tree {
@@ -50,6 +54,7 @@ impl Tree {
     }
     /// Gets the root of the tree.
     /// When `ensure_header == true` write the hyperbee header onto the hypercore if it does not exist.
+    /// In this case the caller must hold [`Tree::write_lock`].
     pub(crate) async fn get_root(
         &self,
         ensure_header: bool,
@@ -105,7 +110,7 @@ impl Tree {
 
     /// Ensure the tree has a header
     async fn ensure_header(&self) -> Result<bool, HyperbeeError> {
-        match self.create_header(None).await {
+        match self.append_header(None).await {
             Ok(_) => Ok(true),
             Err(e) => match e {
                 HyperbeeError::HeaderAlreadyExists => Ok(false),
@@ -119,6 +124,14 @@ impl Tree {
     pub async fn create_header(
         &self,
         metadata: Option<Metadata>,
+    ) -> Result<AppendOutcome, HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
+        self.append_header(metadata).await
+    }
+
+    async fn append_header(
+        &self,
+        metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
         if self.blocks.read().await.info().await.length != 0 {
             return Err(HyperbeeError::HeaderAlreadyExists);
@@ -193,6 +206,7 @@ impl Clone for Tree {
     fn clone(&self) -> Self {
         Self {
             blocks: self.blocks.clone(),
+            write_lock: self.write_lock.clone(),
         }
     }
 }
-- 
2.43.0


From 3e61a041780da75a526ae5b14b85d73fa9c7b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:59 +0000
Subject: [PATCH 04/12] fix: accept explicit infinite bounds in
 TraverseConfigBuilder

Setting both bounds, one or both of them to the infinity that is it's default,
was refused with an error saying that the minimum is greater than the maximum.
---
 src/traverse.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..fca9eca 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,7 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            (Infinite(Negative), _) | (_, Infinite(Positive)) => return Ok(()),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From 361dd9bdf7951e7e66620b615629597a8fb91e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 05/12] fix: do not poll a finished future after a traverse
 error

When the iterator over a node could not be built the error was yielded, and
polling the stream again, as collect does, panicked.
---
 src/traverse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index fca9eca..5306b51 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -403,6 +403,9 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // the future is finished, so it must not be polled again.
+                            // There is nothing we can yield from this node.
+                            self.iter = Some(Box::pin(std::iter::empty()));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From ebd2434603064764a6dc83480e4a2c87972d2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:57 +0000
Subject: [PATCH 06/12] fix: bound a sub's traversal to the keys of the sub

---
 src/prefixed.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..d5e5642 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,9 +5,10 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
-        LimitValue::{Finite, Infinite},
+        LimitValue::{self, Finite, Infinite},
         TraverseConfig,
     },
     KeyValueData, Shared, Tree,
@@ -135,10 +136,12 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        let start_of_sub = [self.prefix.as_slice(), &self.conf.seperator].concat();
 
+        // NB an infinite bound on the opposite side is left as is, because no key is within it
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Positive) => (conf.min_value.clone(), conf.min_inclusive),
+            Infinite(Negative) => (Finite(start_of_sub.clone()), true),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +149,9 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            Infinite(Negative) => (conf.max_value.clone(), conf.max_inclusive),
+            // inclusive = false because we don't want to include the end of the sub if it is a key
+            Infinite(Positive) => (end_of_prefix(&start_of_sub), false),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -176,6 +180,15 @@ impl Prefixed {
     }
 }
 
+/// The lowest [`LimitValue`] which is greater than every key starting with `prefix`
+fn end_of_prefix(prefix: &[u8]) -> LimitValue {
+    match prefix.iter().rposition(|byte| *byte != u8::MAX) {
+        Some(last) => Finite(increment_bytes(&prefix[..=last])),
+        // there is no key after the keys with this prefix
+        None => Infinite(Positive),
+    }
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From fae6841b76bf7aca47a52d8a4df8c4b5e79aa995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:28 +0000
Subject: [PATCH 07/12] fix: report missing keys, empty values and errors from
 hb_get

---
 src/external.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..f9c85c1 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -117,6 +117,9 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    if bytes.is_null() || bytes_length == 0 {
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
@@ -134,17 +137,16 @@ pub extern "C" fn hb_get(
     let rkey = vec_from_c_vec(key_buff, key_size);
 
     rt.spawn(async move {
-        match hb.get(&rkey).await {
-            Ok(Some((seq, Some(value)))) => {
-                let (vec, size) = c_vec_from_vec(value);
-                let no_error_msg = CString::new("").unwrap().into_raw();
-                unsafe {
-                    callback(0, no_error_msg, seq, vec, size);
-                }
-            }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+        let (error_code, error_msg, seq, value) = match hb.get(&rkey).await {
+            Ok(Some((seq, value))) => (0, String::new(), seq, value.unwrap_or_default()),
+            Ok(None) => (0, String::new(), 0, vec![]),
+            Err(e) => (1, e.to_string().replace('\0', ""), 0, vec![]),
         };
+        let (vec, size) = c_vec_from_vec(value);
+        let error_msg = CString::new(error_msg).unwrap().into_raw();
+        unsafe {
+            callback(error_code, error_msg, seq, vec, size);
+        }
     });
     0
 }
-- 
2.43.0


From 542f292c182506af5ffdf87d4484d87fc4730ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:28 +0000
Subject: [PATCH 08/12] fix: check both bounds of a traversal

---
 src/traverse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index 5306b51..ae88671 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -220,8 +220,8 @@ impl TraverseConfig {
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
-            std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
+            std::cmp::Ordering::Equal if !self.min_inclusive => false,
+            _ => match self
                 .max_value
                 .partial_cmp(value)
                 .expect("partial_cmp never returns none")
-- 
2.43.0


From 1c3edde2d85300105e4d5a70c30e53550763836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 09/12] fix: refuse malformed nodes when a block is decoded

A put or delete that came upon a node with too few or too many children, a
child without keys or a reference to a block not yet written panicked
(indexing out of range, removing from an empty list), or wrote a tree that
refers to itself.
---
 src/blocks.rs | 20 ++++++++++++++------
 src/error.rs  |  4 ++++
 src/lib.rs    |  4 ++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 5cf3f4d..206f687 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -73,7 +73,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node)?))
+                Ok(Some(BlockEntry::new(node, *seq)?))
             }
             None => Ok(None),
         }
@@ -171,8 +171,8 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
 /// The keys and children of a [`Node`] as they are stored in a block.
 type NodeParts = (Vec<KeyValue>, Vec<Child>);
 
-/// Deserialize bytes from a Hypercore block into the parts of [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeParts>, HyperbeeError> {
+/// Deserialize bytes from the Hypercore block at `seq` into the parts of [`Node`]s.
+fn make_node_vec<B: Buf>(buf: B, seq: u64) -> Result<Vec<NodeParts>, HyperbeeError> {
     YoloIndex::decode(buf)?
         .levels
         .iter()
@@ -180,11 +180,19 @@ fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeParts>, HyperbeeError> {
             if level.children.len() % 2 != 0 {
                 return Err(HyperbeeError::IncompleteChildError);
             }
-            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
+            let keys: Vec<KeyValue> = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
             let mut children = vec![];
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
+            // An inner node has a child on either side of each key. And no node refers to blocks
+            // that are written after it.
+            if (!children.is_empty() && (keys.is_empty() || children.len() != keys.len() + 1))
+                || keys.iter().any(|k| k.seq > seq)
+                || children.iter().any(|c| c.seq > seq)
+            {
+                return Err(HyperbeeError::MalformedNodeError(seq));
+            }
             Ok((keys, children))
         })
         .collect()
@@ -203,9 +211,9 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema) -> Result<Self, HyperbeeError> {
+    fn new(entry: NodeSchema, seq: u64) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..])?,
+            nodes: make_node_vec(&entry.index[..], seq)?,
             key: entry.key,
             value: entry.value,
         })
diff --git a/src/error.rs b/src/error.rs
index b825db6..fb12020 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -27,6 +27,10 @@ pub enum HyperbeeError {
     NoChildAtIndexError(usize),
     #[error("A node's list of children has half a child")]
     IncompleteChildError,
+    #[error("The block at seq `{0}` has a malformed node")]
+    MalformedNodeError(u64),
+    #[error("The child at index `{0}` has no keys")]
+    EmptyChildError(usize),
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/lib.rs b/src/lib.rs
index 39b4705..6c544c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -145,6 +145,10 @@ impl Children {
             .read()
             .await
             .get_tree_node(offset, self.blocks.clone())?;
+        // only a root can be empty
+        if node.read().await.keys.is_empty() {
+            return Err(HyperbeeError::EmptyChildError(index));
+        }
         Ok(node)
     }
 
-- 
2.43.0


From 07483803b491eeaef590469137b2fd739121b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 10/12] fix: print trees with nodes higher than the root

---
 src/traverse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index ae88671..288d553 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -458,7 +458,8 @@ pub(crate) async fn print(node: SharedNode) -> Result<String, HyperbeeError> {
     tokio::pin!(stream);
     while let Some((key_data, node)) = stream.next().await {
         let h = node.read().await.height().await?;
-        out += &LEADER.repeat(starting_height - h);
+        // in a malformed tree a node can be higher than the root
+        out += &LEADER.repeat(starting_height.saturating_sub(h));
         let k = key_data?.key;
         let decoded_k = String::from_utf8(k)?;
         out += &decoded_k;
-- 
2.43.0


From 27c3f8ee59f6e5cbedb3177caa910855b4eca5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 11/12] fix: end with an error on a tree with more levels than
 a tree can have

---
 src/error.rs    |  2 ++
 src/lib.rs      | 11 +++++++++++
 src/traverse.rs | 16 ++++++++++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fb12020..03247ee 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -31,6 +31,8 @@ pub enum HyperbeeError {
     MalformedNodeError(u64),
     #[error("The child at index `{0}` has no keys")]
     EmptyChildError(usize),
+    #[error("The tree has more than `{0}` levels, so it is malformed")]
+    TooManyLevelsError(usize),
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/lib.rs b/src/lib.rs
index 6c544c1..d67bdf3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -51,6 +51,10 @@ static PROTOCOL: &str = "hyperbee";
 /// Same value as JS hyperbee https://github.com/holepunchto/hyperbee/blob/e1b398f5afef707b73e62f575f2b166bcef1fa34/index.js#L16-L18
 static MAX_KEYS: usize = 8;
 
+/// A tree with this many levels would have more keys than there are values of `seq`. So a node that
+/// is further from the root is in a malformed tree, in which the way down may have no end.
+static MAX_LEVELS: usize = 64;
+
 fn min_keys(max_keys: usize) -> usize {
     max_keys >> 1
 }
@@ -213,6 +217,9 @@ impl Node {
             let mut cur_child = self.get_child(0).await?;
             loop {
                 out += 1;
+                if out > MAX_LEVELS {
+                    return Err(HyperbeeError::TooManyLevelsError(MAX_LEVELS));
+                }
                 if cur_child.read().await.n_children().await == 0 {
                     return Ok(out);
                 }
@@ -393,6 +400,10 @@ where
                 return Ok((matched, out_path));
             }
 
+            if out_path.len() >= MAX_LEVELS {
+                return Err(HyperbeeError::TooManyLevelsError(MAX_LEVELS));
+            }
+
             // continue to next node
             current_node.read().await.get_child(child_index).await?
         };
diff --git a/src/traverse.rs b/src/traverse.rs
index 288d553..2520cf8 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -11,7 +11,9 @@ use derive_builder::Builder;
 use futures_lite::{future::FutureExt, StreamExt};
 use tokio_stream::Stream;
 
-use crate::{get_index_of_key, keys::InfiniteKeys, HyperbeeError, KeyValueData, SharedNode};
+use crate::{
+    get_index_of_key, keys::InfiniteKeys, HyperbeeError, KeyValueData, SharedNode, MAX_LEVELS,
+};
 
 type PinnedFut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
 
@@ -243,6 +245,8 @@ pub(crate) struct Traverse<'a> {
     config: TraverseConfig,
     /// The current node
     root: SharedNode,
+    /// The level of the current node, counted from the node where the traversal started
+    level: usize,
     /// Option holding (number_of_keys, number_of_children) for this node
     n_keys_and_children_fut: Option<PinnedFut<'a, (usize, usize)>>,
     n_keys_and_children: Option<(usize, usize)>,
@@ -271,6 +275,7 @@ impl Traverse<'_> {
         Traverse {
             config,
             root: note,
+            level: 1,
             n_keys_and_children_fut: Option::None,
             n_keys_and_children: Option::None,
             iter_fut: Option::None,
@@ -299,9 +304,15 @@ async fn get_child_stream<'a>(
     node: SharedNode,
     index: usize,
     config: TraverseConfig, // TODO should be reference
+    level: usize,
 ) -> Result<Traverse<'a>, HyperbeeError> {
+    if level > MAX_LEVELS {
+        return Err(HyperbeeError::TooManyLevelsError(MAX_LEVELS));
+    }
     let child = node.read().await.get_child(index).await?;
-    Ok(Traverse::new(child, config))
+    let mut child_stream = Traverse::new(child, config);
+    child_stream.level = level;
+    Ok(child_stream)
 }
 
 impl Stream for Traverse<'_> {
@@ -428,6 +439,7 @@ impl Stream for Traverse<'_> {
                         self.root.clone(),
                         index >> 1,
                         self.config.clone(),
+                        self.level + 1,
                     )));
                 } else {
                     self.next_key =
-- 
2.43.0


From c1b690908eb356cc9df0a24b7e2dcae0c0f28f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 12/12] fix: refuse a storage directory that is not UTF-8 in
 the C interface instead of opening another one

---
 src/external.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index f9c85c1..dad57a0 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -55,7 +55,8 @@ pub fn string_from_c_str(c_str: *const c_char) -> Option<String> {
     if c_str.is_null() {
         return None;
     }
-    unsafe { Some(CStr::from_ptr(c_str).to_string_lossy().into_owned()) }
+    let c_str = unsafe { CStr::from_ptr(c_str) };
+    c_str.to_str().ok().map(str::to_owned)
 }
 
 /// Initialize the async runtime
@@ -103,7 +104,7 @@ pub extern "C" fn hyperbee_from_storage_directory(
     let rt = from_c(rt);
     let storage_directory = match string_from_c_str(storage_directory) {
         None => {
-            // TODO use tracing: println!("No `storage_directory` provided to connect to");
+            // TODO use tracing: println!("No `storage_directory` provided to connect to, or one that is not UTF-8");
             return ptr::null_mut();
         }
         Some(x) => x,
-- 
2.43.0

