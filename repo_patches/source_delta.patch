From a8c7aeec7baf02f4232519763ac6ed4b18adb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 01/23] fix: read offset chunks at any alignment

Layers after the first start at an arbitrary byte of an index file, so
references to the (8-byte aligned) chunks were misaligned, which is
undefined behavior and aborts with debug assertions.
---
 src/slice_vector/offsets.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..33fb7f0 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are loaded from bytes with arbitrary alignment
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,7 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        { self.deltas }.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From c2400b524cd165bc5f442be15d2e6a09600eeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 02/23] fix: do not lose links when elements are inserted
 concurrently

Whether a node was empty was checked before taking the write lock used for
initializing it. Another thread could connect to the node in between, and its
link was overwritten (or a debug assertion failed).
---
 src/index/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..f729413 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,22 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node` if it is empty. Returns `false` (and leaves `node` as it is) if it
+    /// already has neighbors.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        // needs to be checked while holding the write lock, since other threads might connect to this node
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From b919aa7047e1017ca978291a9751c89372150399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 03/23] fix: report errors from flushing buffered writers when
 saving

---
 src/elements/embeddings/parsing.rs | 4 ++++
 src/index/io.rs                    | 3 +++
 src/index/rw/mod.rs                | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..9be05bd 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().expect("Failed to write vectors to disk");
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..02c4d03 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,6 +66,9 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
+    // errors are ignored when the BufWriter is dropped
+    buffer.flush()?;
+
     Ok(())
 }
 
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..a6887e2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From 3d1454bf70bc3c0dfb0448b9ff8f846b3b877cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 04/23] fix: include the header in the number of bytes written
 for vectors

---
 src/slice_vector/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..eae2c89 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -460,9 +460,13 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     pub fn write<B: Write>(self: &Self, buffer: &mut B) -> Result<usize> {
         let (data, width) = self.load();
 
+        // write metadata
         buffer.write_all(&width.to_le_bytes())?;
+        let mut bytes_written = std::mem::size_of::<u64>();
 
-        io::write_as_bytes(&data[..], buffer)
+        bytes_written += io::write_as_bytes(&data[..], buffer)?;
+
+        Ok(bytes_written)
     }
 }
 
-- 
2.43.0


From 7e4cafbe22e729bf4046d6799ae7184f89f42ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 05/23] fix: load vectors from bytes at any alignment

---
 src/io.rs               | 19 +++++++++++++++++++
 src/slice_vector/mod.rs | 19 ++++++++++++-------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..b04c4a0 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::io::{Result, Write};
 
 /// Loads a slice of bytes as a slice of type T
@@ -8,6 +9,24 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Loads a slice of bytes as a slice of type T, copying the data if it is not aligned for T
+pub unsafe fn load_or_copy_bytes_as<T: Clone>(bytes: &[u8]) -> Cow<'_, [T]> {
+    if bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0 {
+        return Cow::Borrowed(load_bytes_as(bytes));
+    }
+
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+    let mut elements: Vec<T> = Vec::with_capacity(len);
+    ::std::ptr::copy_nonoverlapping(
+        bytes.as_ptr(),
+        elements.as_mut_ptr() as *mut u8,
+        len * ::std::mem::size_of::<T>(),
+    );
+    elements.set_len(len);
+
+    Cow::Owned(elements)
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index eae2c89..0c6e740 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let width = Self::load_width(buffer);
+
+        // the buffer might have any alignment
+        let data: Cow<'a, [T]> = unsafe { crate::io::load_or_copy_bytes_as(&buffer[U64_LEN..]) };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -210,12 +213,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         }
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
-- 
2.43.0


From 50fad71dbe508e15f84b87767be43664fbfc62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/23] fix: load empty vectors of unspecified width

A collection that never had anything pushed to it is saved with width 0,
which was refused when loading.
---
 src/slice_vector/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 0c6e740..22dd36e 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Ok(slice_vec)
     }
@@ -126,7 +126,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // the buffer might have any alignment
         let data: Cow<'a, [T]> = unsafe { crate::io::load_or_copy_bytes_as(&buffer[U64_LEN..]) };
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(data.is_empty() || (width > 0 && data.len() % width == 0));
 
         Self::Memory(data, width)
     }
-- 
2.43.0


From 9b5bcd001693217ef7307223bf6bfcdb53b65ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 07/23] fix: find elements while the concurrent builder has one
 layer

Until the first layer is full there is no previous layer to get an entry
point from, and searches returned nothing.
---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a6887e2..4b358d8 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -196,15 +196,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.is_empty() {
+            return vec![];
         }
+
+        // there are no previous layers until the first layer is full
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From 9aca0526521cb0007ab68e16bb8234427d0ce767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 08/23] fix: do not add a layer when concurrent inserts reach
 the maximum

The number of elements was only checked before waiting for the locks.
---
 src/index/rw/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 4b358d8..d48c14c 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -115,6 +115,11 @@ where
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
+            // other threads might have inserted elements since the check above
+            if elements.len() >= self.max_elements {
+                return vec![];
+            }
+
             // check if it is time to create a new layer
             if elements.len() >= current_layer.len() {
                 *current_layer = {
-- 
2.43.0


From e883baebf882764088c8e6cab23dc069c704ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 09/23] fix: deadlock when saving while inserting a batch in
 several layers

insert_batch acquired the read lock recursively, which blocks when another
thread waits for the write lock.
---
 src/index/rw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index d48c14c..6d35618 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -107,7 +107,7 @@ where
         }
 
         // signal that writes will happen
-        let _guard = self.write_lock.read();
+        let guard = self.write_lock.read();
 
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
@@ -180,6 +180,10 @@ where
         };
 
         if !remaining.is_empty() {
+            // the recursive call takes the lock again, which must not be done while holding it as
+            // there might be a thread waiting to write to disk
+            drop(guard);
+
             let ids = self.insert_batch(remaining);
             inserted.extend(ids.into_iter());
         }
-- 
2.43.0


From 8912797b646de2f8d8856e1f1f411550e1a80cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 10/23] fix: reorder indexes with fewer than two layers

compute_order subtracted two from the number of layers.
---
 src/index/reorder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..3ab0e54 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,6 +125,11 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        // elements in the first layer are not reordered
+        if self.num_layers() < 2 {
+            return (0..self.len()).collect();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
         let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
 
-- 
2.43.0


From 40dc0586fd1537cd157d0855fc714bbb6419cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 11/23] fix: keep the first element in place when reordering by
 keys

All searches start from the first element. Moving another one there
changes their results, and makes the whole index unsearchable if that
element has no links, e.g. if it is zero.
---
 src/index/reorder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index 3ab0e54..48019be 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -83,7 +83,8 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
 
     /// Essentially a layer-preserving sort, i.e., it reorders the elements in this index based on
     /// keys while respecting layers. This means that the new positions of elements in layer `i`
-    /// will be in the range `[0, layer_len(i)]`.
+    /// will be in the range `[0, layer_len(i)]`. The first element keeps its position, since it is
+    /// where all searches start.
     ///
     /// Returns the permutation used for the reordering. `permutation[i] == j`, means that the
     /// element with idx `j`, has been moved to idx `i`.
@@ -94,9 +95,10 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
 
         let layer_lens: Vec<usize> = (0..self.num_layers()).map(|i| self.layer_len(i)).collect();
 
-        let mut order = Vec::new();
+        // the first element is not moved, since all searches start from it
+        let mut order: Vec<usize> = (0..cmp::min(1, self.len())).collect();
         for layer in 0..layer_lens.len() {
-            let begin = if layer > 0 { layer_lens[layer - 1] } else { 0 };
+            let begin = if layer > 0 { layer_lens[layer - 1] } else { order.len() };
             let end = layer_lens[layer];
 
             let mut layer_order: Vec<_> = (begin..end).into_par_iter().map(|l| (&keys[l], l)).collect();
-- 
2.43.0


From 8a0e0bbc85986a99c94e15549c602f97502fe154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 12/23] fix: quantize zero vectors without dividing by zero

---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..a50ad8c 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|max_value| max_value.into_inner() > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From 0a5c4bfef7f48741df4ba51c1e20b2d57f099c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 13/23] fix: quantize vectors with large values

---
 src/elements/angular_int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index a50ad8c..8387ff7 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -36,8 +36,9 @@ impl Vector<'static> {
         let mut v = Vec::with_capacity(s.len());
 
         for x in s {
-            let vi = x * MAX_QVALUE / *max_value;
-            debug_assert!(-MAX_QVALUE - 0.0001 <= vi && vi <= MAX_QVALUE + 0.0001);
+            // f64, since the product may overflow or be rounded in f32
+            let vi = f64::from(*x) * f64::from(MAX_QVALUE) / f64::from(*max_value);
+            debug_assert!(-f64::from(MAX_QVALUE) <= vi && vi <= f64::from(MAX_QVALUE));
             v.push(vi as i8);
         }
 
-- 
2.43.0


From 4807ec45c1618b78205bf055c00678a0f111b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 14/23] fix: extend vectors with an empty collection

---
 src/slice_vector/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 22dd36e..d85ea49 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -186,7 +186,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
             *width = other_width;
         }
 
-        assert_eq!(*width, other_width);
+        assert!(other_width == 0 || *width == other_width);
 
         data.extend_from_slice(other_data);
     }
-- 
2.43.0


From 14b5a4ff8e187af3969e13f9570c26340ebad4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 15/23] fix: write empty shards when there are more shards than
 elements need

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 9be05bd..da66d7f 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 797c605085f996a22e70f4292850ddb0da040467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 16/23] fix: read all members of gzip files when parsing
 elements

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index da66d7f..aae275e 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From e83e2adfe89f88cc80705db0482c447c07e6c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 17/23] fix: do not add words whose embedding was rejected in
 the Python module

---
 py/src/embeddings.rs   | 11 +++++++----
 py/src/variants/mod.rs |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index c0dc6bb..9c2ce54 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -106,12 +106,15 @@ py_class!(pub class Embeddings |py| {
     ///     The word or label representing the vector
     ///
     def append(&self, embedding: Vec<f32>, word: String) -> PyResult<bool> {
-        let inserted = self.words(py).borrow_mut().push(word);
-        if inserted {
-            self.embeddings(py).borrow_mut().push_embedding(&embedding);
+        let mut words = self.words(py).borrow_mut();
+        if words.contains(&word) {
+            return Ok(false);
         }
 
-        Ok(inserted)
+        // may fail, in which case the word must not be added
+        self.embeddings(py).borrow_mut().push_embedding(&embedding);
+
+        Ok(words.push(word))
     }
 
     /// Saves the embeddings (vectors) and words/labels to disk.
diff --git a/py/src/variants/mod.rs b/py/src/variants/mod.rs
index 7cc8310..8fbf2d8 100644
--- a/py/src/variants/mod.rs
+++ b/py/src/variants/mod.rs
@@ -57,6 +57,10 @@ impl WordDict {
             .collect()
     }
 
+    pub fn contains(self: &Self, word: &str) -> bool {
+        self.word_to_id.contains_key(word)
+    }
+
     pub fn push(self: &mut Self, word: String) -> bool {
         match self.word_to_id.entry(word.clone()) {
             hash_map::Entry::Vacant(e) => e.insert(self.id_to_word.len()),
-- 
2.43.0


From b05762a25b3c329f7597852df17dc734fc604932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 18/23] fix: mixed up keyword arguments of
 compute_embeddings_and_save_to_disk in the Python module

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 3696988..765cb53 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -46,8 +46,8 @@ py_module_initializer!(granne, initgranne, PyInit_granne, |py, m| {
         py_fn!(
             py,
             py_compute_embeddings_and_save_to_disk(
-                embeddings_path: String,
                 elements_path: String,
+                embeddings_path: String,
                 output_path: String,
                 show_progress: bool = true
             )
-- 
2.43.0


From afa128838f358c45c2148f494b603dc04bbb0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 19/23] fix: limit the memory a search reserves to what the
 index needs

---
 src/index/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index f729413..9cfd429 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1007,6 +1007,9 @@ fn search_for_neighbors<Layer: Graph + ?Sized, Elements: ElementContainer>(
     goal: &Elements::Element,
     max_search: usize,
 ) -> Vec<(usize, NotNan<f32>)> {
+    // there are never more nodes to visit than in the layer
+    let max_search = cmp::min(max_search, layer.len());
+
     let mut res: max_size_heap::MaxSizeHeap<(NotNan<f32>, usize)> = max_size_heap::MaxSizeHeap::new(max_search); // TODO: should this really be max_search or num_neighbors?
     let mut pq: BinaryHeap<cmp::Reverse<_>> = BinaryHeap::new();
 
-- 
2.43.0


From c19e12100d43885dc4017f47568c1ca678c74b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 20/23] fix: do not truncate files that might be memory-mapped
 when saving from the Python module

---
 py/src/embeddings.rs     |  2 +-
 py/src/lib.rs            | 25 +++++++++++++++++++++----
 py/src/variants/index.rs |  4 ++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index 9c2ce54..a2c9fab 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -127,7 +127,7 @@ py_class!(pub class Embeddings |py| {
 
     /// Saves the embeddings (vectors) to disk.
     def save_embeddings(&self, path: &str) -> PyResult<PyObject> {
-        let mut file = std::fs::File::create(path)
+        let mut file = crate::create_file(path)
             .expect("Could not create file!");
         self.embeddings(py).borrow().write_embeddings(&mut file)
             .expect("Could not write embeddings!");
diff --git a/py/src/lib.rs b/py/src/lib.rs
index 765cb53..bd7330c 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -619,6 +619,23 @@ trait PyGranne: AsIndex + Reorder + SaveIndex {
     }
 }
 
+/// Creates the file at `path`.
+///
+/// An existing file is replaced instead of truncated, since it might be memory-mapped (not least by what is about to be
+/// saved).
+pub(crate) fn create_file(path: &str) -> std::io::Result<std::fs::File> {
+    if let Ok(existing) = std::fs::canonicalize(path) {
+        let replaceable = std::fs::metadata(&existing).map(|m| m.is_file() && !m.permissions().readonly());
+
+        if replaceable.unwrap_or(false) {
+            // if this fails, e.g. because of the directory's permissions, the file is truncated below
+            let _ = std::fs::remove_file(existing);
+        }
+    }
+
+    std::fs::File::create(path)
+}
+
 trait SaveIndex {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()>;
 
@@ -627,24 +644,24 @@ trait SaveIndex {
 
 impl<'a, Elements: granne::ElementContainer + granne::Writeable + Sync> SaveIndex for granne::Granne<'a, Elements> {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = create_file(path)?;
         self.write_index(&mut file)
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = create_file(path)?;
         self.write_elements(&mut file).map(|_| {})
     }
 }
 
 impl<Elements: granne::ElementContainer + granne::Writeable + Sync> SaveIndex for granne::GranneBuilder<Elements> {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = create_file(path)?;
         self.write_index(&mut file)
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = create_file(path)?;
         self.write_elements(&mut file).map(|_| {})
     }
 }
diff --git a/py/src/variants/index.rs b/py/src/variants/index.rs
index 6bff105..66f2154 100644
--- a/py/src/variants/index.rs
+++ b/py/src/variants/index.rs
@@ -77,12 +77,12 @@ impl crate::Reorder for WordEmbeddingsGranne {
 
 impl crate::SaveIndex for WordEmbeddingsGranne {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = crate::create_file(path)?;
         self.index.write_index(&mut file)
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
+        let mut file = crate::create_file(path)?;
         self.index.write_elements(&mut file).map(|_| {})
     }
 }
-- 
2.43.0


From d9c752d57c4abf15c9fea704e760f7a5df18bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 21/23] fix: do not truncate files that might be memory-mapped
 when saving to disk

---
 src/elements/embeddings/parsing.rs |  8 ++++----
 src/index/rw/mod.rs                |  7 +++----
 src/io.rs                          | 19 +++++++++++++++++++
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index aae275e..5dbcb5b 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -2,7 +2,7 @@
 
 use super::*;
 use crate::elements::angular_int;
-use crate::io::Writeable;
+use crate::io::{create_file, Writeable};
 
 use flate2;
 use memmap;
@@ -39,7 +39,7 @@ pub fn parse_elements_and_save_to_disk(
     let word_ids = parse_words(words_path);
     let elements = parsing::parse_elements_in_directory_or_file(elements_path, &word_ids, show_progress);
 
-    let file = File::create(&output_path).unwrap();
+    let file = create_file(&output_path).unwrap();
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
@@ -89,7 +89,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         }
 
         let file =
-            File::create(&output_path).expect(&format!("Could not create file at {}", output_path.to_str().unwrap()));
+            create_file(&output_path).expect(&format!("Could not create file at {}", output_path.to_str().unwrap()));
         let mut file = BufWriter::new(file);
 
         elements
@@ -118,7 +118,7 @@ pub fn compute_embeddings_and_save_to_disk(
 
     let elements = SumEmbeddings::from_parts(embeddings, elements);
 
-    let file = File::create(&output_path).expect("Could not create output file");
+    let file = create_file(&output_path).expect("Could not create output file");
     let mut file = BufWriter::new(file);
 
     let mut progress_bar = if show_progress {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 6d35618..599a61b 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -3,10 +3,9 @@
 use super::*;
 
 use parking_lot::{self, RwLock};
-use std::fs::File;
 use std::io::{BufWriter, Seek, Write};
 
-use crate::io::Writeable;
+use crate::io::{create_file, Writeable};
 use crate::slice_vector::FixedWidthSliceVector;
 
 mod rw_lock_slice_vector;
@@ -61,8 +60,8 @@ where
     }
 
     pub fn save_index_and_elements_to_disk(self: &Self, index_path: &str, elements_path: &str) -> std::io::Result<()> {
-        let mut elements_file = File::create(elements_path)?;
-        let mut index_file = File::create(index_path)?;
+        let mut elements_file = create_file(elements_path)?;
+        let mut index_file = create_file(index_path)?;
 
         self.write(&mut index_file, &mut elements_file)
     }
diff --git a/src/io.rs b/src/io.rs
index b04c4a0..1d22dfc 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
+use std::fs::File;
 use std::io::{Result, Write};
+use std::path::Path;
 
 /// Loads a slice of bytes as a slice of type T
 pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
@@ -36,6 +38,23 @@ pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usi
     Ok(size)
 }
 
+/// Creates the file at `path`.
+///
+/// An existing file is replaced instead of truncated, since it might be memory-mapped (not least by what is about to be
+/// saved).
+pub fn create_file<P: AsRef<Path>>(path: P) -> Result<File> {
+    if let Ok(existing) = std::fs::canonicalize(&path) {
+        let replaceable = std::fs::metadata(&existing).map(|m| m.is_file() && !m.permissions().readonly());
+
+        if replaceable.unwrap_or(false) {
+            // if this fails, e.g. because of the directory's permissions, the file is truncated below
+            let _ = std::fs::remove_file(existing);
+        }
+    }
+
+    File::create(path)
+}
+
 /// A trait for types that are writeable to a buffer
 pub trait Writeable {
     /// Writes `self` to `buffer`, if successful returns `Ok(num_bytes_written)`
-- 
2.43.0


From 7f3408fc8ee3ae3d2cca1373f2d95ae143b27d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 22/23] fix: do not deadlock when inserting in parallel from a
 worker of another thread pool

While waiting for the pool of the RwGranneBuilder, a worker of another rayon pool runs other
tasks of its own pool. insert_batch holds locks at that point, so that such a task never got
the write lock if it inserted elements (or saved) as well.
---
 src/index/rw/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 599a61b..6963026 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -162,11 +162,24 @@ where
             );
 
             if self.pool.current_num_threads() > 1 {
-                self.pool.install(|| {
-                    ids.par_iter().for_each(|id| {
-                        GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
+                let index_elements = || {
+                    self.pool.install(|| {
+                        ids.par_iter().for_each(|id| {
+                            GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
+                        })
                     })
-                });
+                };
+
+                if rayon::current_thread_index().is_some() {
+                    // a worker of another pool runs other tasks of that pool while it waits for
+                    // self.pool, and such a task might need the locks that are held here
+                    let result = std::thread::scope(|scope| scope.spawn(index_elements).join());
+                    if let Err(panic) = result {
+                        std::panic::resume_unwind(panic);
+                    }
+                } else {
+                    index_elements();
+                }
             } else {
                 ids.iter().for_each(|id| {
                     GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0


From 165cb04305fadf77e92c55e4d97a42954e97cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:59 +0000
Subject: [PATCH 23/23] fix: look up words of digits as words in Embeddings

---
 py/src/embeddings.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index a2c9fab..54836a4 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -62,13 +62,13 @@ py_class!(pub class Embeddings |py| {
     /// Returns the (non-normalized) embedding for a word/sentence or id/list of ids.
     def get_embedding(&self, input: &PyObject) -> PyResult<Vec<f32>>
     {
-        let idxs: Vec<usize> = if let Ok(idx) = usize::extract(py, input) {
+        // strings come first, since those of digits only would be accepted as numbers
+        let idxs: Vec<usize> = if let Ok(words) = String::extract(py, input) {
+            self.words(py).borrow().get_word_ids(&words)
+        } else if let Ok(idx) = usize::extract(py, input) {
             vec![idx]
-        } else if let Ok(data) = Vec::<usize>::extract(py, input) {
-            data
         } else {
-            let words = String::extract(py, input)?;
-            self.words(py).borrow().get_word_ids(&words)
+            Vec::<usize>::extract(py, input)?
         };
 
         Ok(self.embeddings(py).borrow().create_embedding(&idxs))
-- 
2.43.0

