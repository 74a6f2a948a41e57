From 2360e20ae26b37fc6807d10d601f33357809e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:24 +0000
Subject: [PATCH 01/40] fix: free the port slab when resizing a node to zero
 ports

`set_num_ports(n, 0, 0)` kept a slab of capacity one without any live port.
`compact_ports` could not update its location, leaving a node pointing
past the end of the port storage or into another node's ports.
---
 src/portgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..8e390f5 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two(),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From f3afc584c31643d7cfe0529e4c1d29740b0532ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 02/40] fix: keep the free node list intact when swapping node
 indices

Swapping two free slots exchanged their list entries without updating
their neighbours, and moving the head of the list left `node_free`
pointing at a live node. A later `add_node` panicked.
---
 src/portgraph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 8e390f5..042c8b8 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -619,6 +619,11 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // Swapping two empty spaces has no effect. Their positions in the
+            // free node linked list must not change.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -638,6 +643,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
             if let Some(prev) = entry.prev.to_option() {
                 self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            } else {
+                // The moved entry is the head of the list.
+                self.node_free = new_node.into();
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From 1cb6a8220006e17dd05cd5dbe27a636e7961311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:04 +0000
Subject: [PATCH 03/40] fix: report the port that does not exist when linking
 fails

link_ports named `port_a` in the error when `port_b` was unknown.
---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 042c8b8..3df4ab3 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -774,7 +774,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From 94d95bb468165a71db18a353e25bc5b9aeb3bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 04/40] fix: port_links of an unlinked port has no exact length

---
 src/multiportgraph/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multiportgraph/iter.rs b/src/multiportgraph/iter.rs
index ccd58d2..843c7f0 100644
--- a/src/multiportgraph/iter.rs
+++ b/src/multiportgraph/iter.rs
@@ -460,7 +460,7 @@ impl<PO: Unsigned> Iterator for PortLinks<'_, PO> {
                 if *empty {
                     (0, Some(0))
                 } else {
-                    (1, Some(1))
+                    (0, Some(1))
                 }
             }
             PortLinks::Multiport { subports, .. } => (0, Some(subports.len())),
-- 
2.43.0


From e3247dbbe19b722036241d02afee687c28620842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 05/40] fix: unlink_port on a multiport graph returns the port
 it was linked to

---
 src/multiportgraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..49d402b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -320,7 +320,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
             self.remove_copy_node(port, link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
@@ -381,7 +382,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
+        let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
-- 
2.43.0


From 245942bd989bc9d78d2bdfe19ba44b4ccbc477b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 06/40] fix: a failed link_ports leaves the multiport graph
 unchanged

---
 src/multiportgraph.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 49d402b..0010c9f 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -306,6 +306,21 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Check the ports before allocating any copy node or subport for them.
+        for port in [port_a, port_b] {
+            if !self.contains_port(port) {
+                return Err(LinkError::UnknownPort { port });
+            }
+        }
+        let dir = self.graph.port_direction(port_a).unwrap();
+        if self.graph.port_direction(port_b) == Some(dir) {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir,
+            });
+        }
+
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From d6f62efdd0795ab7b09405e70db98e8c6a38fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 07/40] fix: report unknown subports instead of panicking or
 using another port

---
 src/multiportgraph.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 0010c9f..6a5476b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -364,15 +364,36 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
         subport_from: SubportIndex,
         subport_to: SubportIndex,
     ) -> Result<(), LinkError<PO>> {
-        // TODO: Custom errors
-        let from_index = self
-            .get_subport_index(subport_from)
-            .expect("subport_from does not exist");
-        let to_index = self
-            .get_subport_index(subport_to)
-            .expect("subport_to does not exist");
-        self.graph.link_ports(from_index, to_index)?;
-        Ok(())
+        let get_index = |subport: SubportIndex| {
+            self.get_subport_index(subport)
+                .ok_or(LinkError::UnknownPort {
+                    port: subport.port(),
+                })
+        };
+        let from_index = get_index(subport_from)?;
+        let to_index = get_index(subport_to)?;
+
+        // Report errors in terms of the main ports, instead of the internal
+        // ports in the copy nodes.
+        match self.graph.link_ports(from_index, to_index) {
+            Ok(_) => Ok(()),
+            Err(LinkError::AlreadyLinked { port }) if port == from_index => {
+                Err(LinkError::AlreadyLinked {
+                    port: subport_from.port(),
+                })
+            }
+            Err(LinkError::AlreadyLinked { .. }) => Err(LinkError::AlreadyLinked {
+                port: subport_to.port(),
+            }),
+            Err(LinkError::IncompatibleDirections { dir, .. }) => {
+                Err(LinkError::IncompatibleDirections {
+                    port_a: subport_from.port(),
+                    port_b: subport_to.port(),
+                    dir,
+                })
+            }
+            Err(err) => Err(err),
+        }
     }
 
     fn unlink_subport(&mut self, subport: SubportIndex) -> Option<SubportIndex> {
@@ -590,7 +611,8 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
             let subport_offset = PortOffset::new(dir, subport.offset());
             self.graph.port_index(copy_node, subport_offset)
         } else {
-            Some(port_index)
+            // A port without a copy node only has the subport with offset 0.
+            (subport.offset() == 0 && self.contains_port(port_index)).then_some(port_index)
         }
     }
 
-- 
2.43.0


From 7dc58af0f42c63aff3bca99a4e7742ae93cfde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:02 +0000
Subject: [PATCH 08/40] fix: resizing a node in a multiport graph keeps flags
 and callbacks consistent

---
 src/multiportgraph.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 6a5476b..2c2d7fa 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -222,23 +222,24 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        let mut dropped_ports = Vec::new();
-        let rekey_wrapper = |port, op| {
-            match op {
-                PortOperation::Removed { old_link } => {
-                    if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
-                    }
-                }
-                PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
-            }
-            rekey(port, op);
-        };
-        self.graph
-            .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
+        // Unlink the dropped ports at the multiport level first, so that their
+        // copy nodes are removed and the callback never sees an internal port.
+        for port in self
+            .graph
+            ._inputs(node)
+            .skip(incoming)
+            .chain(self.graph._outputs(node).skip(outgoing))
+        {
+            let old_link = self.unlink_port(port).map(SubportIndex::port);
+            rekey(port, PortOperation::Removed { old_link });
         }
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                if let PortOperation::Moved { new_index } = op {
+                    self.multiport.swap(port, new_index);
+                    rekey(port, op);
+                }
+            });
     }
 
     fn compact_nodes<F>(&mut self, mut rekey: F)
-- 
2.43.0


From 311801bfe6f6dfdc35f06a036fe1773f8f2bc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 09/40] fix: reject indices and offsets that do not fit the
 index type

---
 src/index.rs          | 20 +++++++++++++++-----
 src/multiportgraph.rs |  3 +++
 src/portgraph.rs      |  6 ++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..0a18d1b 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -104,7 +104,8 @@ macro_rules! index_impls {
             where
                 D: serde::Deserializer<'de>,
             {
-                Ok($name::new(serde::Deserialize::deserialize(deserializer)?))
+                let index: usize = serde::Deserialize::deserialize(deserializer)?;
+                $name::try_from(index).map_err(serde::de::Error::custom)
             }
         }
     };
@@ -382,9 +383,16 @@ mod serde_port_offset_impl {
         }
     }
 
-    impl<U: Unsigned> From<PortOffsetSer> for PortOffset<U> {
-        fn from(port_offset: PortOffsetSer) -> Self {
-            Self::new(port_offset.direction, port_offset.index)
+    impl<U: Unsigned> TryFrom<PortOffsetSer> for PortOffset<U> {
+        type Error = IndexError;
+
+        fn try_from(port_offset: PortOffsetSer) -> Result<Self, Self::Error> {
+            if port_offset.index > Self::max_offset() {
+                return Err(IndexError {
+                    index: port_offset.index,
+                });
+            }
+            Ok(Self::new(port_offset.direction, port_offset.index))
         }
     }
 
@@ -406,7 +414,7 @@ mod serde_port_offset_impl {
             D: Deserializer<'de>,
         {
             let port_offset: PortOffsetSer = Deserialize::deserialize(deserializer)?;
-            Ok(port_offset.into())
+            port_offset.try_into().map_err(serde::de::Error::custom)
         }
     }
 }
@@ -458,6 +466,7 @@ impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
@@ -511,6 +520,7 @@ impl<U: Unsigned> BitField<U> {
     #[allow(unused)]
     #[inline(always)]
     fn set_index(self, index: usize) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let msb = if self.is_none() {
             U::zero()
diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 2c2d7fa..77d2526 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -609,6 +609,9 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         if self.is_multiport(port_index) {
             let copy_node = self.get_copy_node(port_index)?;
             let dir = self.graph.port_direction(port_index)?;
+            if subport.offset() > PortOffset::<PO>::max_offset() {
+                return None;
+            }
             let subport_offset = PortOffset::new(dir, subport.offset());
             self.graph.port_index(copy_node, subport_offset)
         } else {
diff --git a/src/portgraph.rs b/src/portgraph.rs
index 3df4ab3..a9bb11c 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -372,11 +372,17 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
     #[inline]
     fn input(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
+        if offset > PortOffset::<PO>::max_offset() {
+            return None;
+        }
         self.port_index(node, PortOffset::new_incoming(offset))
     }
 
     #[inline]
     fn output(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
+        if offset > PortOffset::<PO>::max_offset() {
+            return None;
+        }
         self.port_index(node, PortOffset::new_outgoing(offset))
     }
 
-- 
2.43.0


From a16a05565ff194ef8a90e41a0f9b9bb5eb87a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 10/40] fix: enforce the port count limits before changing a
 node

---
 src/multiportgraph.rs |  2 ++
 src/portgraph.rs      | 44 ++++++++++++++++++++++++++-----------------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 77d2526..955ed2e 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -222,6 +222,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        PortGraph::<u32, u32, PO>::assert_port_counts(incoming, outgoing);
+
         // Unlink the dropped ports at the multiport level first, so that their
         // copy nodes are removed and the callback never sees an internal port.
         for port in self
diff --git a/src/portgraph.rs b/src/portgraph.rs
index a9bb11c..a915565 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -106,6 +106,28 @@ impl<N: Unsigned, P: Unsigned, PO: Unsigned> PortGraph<N, P, PO> {
 }
 
 impl<PO: Unsigned> PortGraph<u32, u32, PO> {
+    /// Check that a node with the given number of ports can be stored, and that
+    /// all of its ports can be addressed by a port offset.
+    ///
+    /// # Panics
+    ///
+    /// If there are too many ports.
+    #[inline]
+    pub(crate) fn assert_port_counts(incoming: usize, outgoing: usize) {
+        assert!(
+            incoming <= PortOffset::<PO>::max_offset().min(NodeMeta::MAX_INCOMING),
+            "Incoming port count exceeds maximum."
+        );
+        assert!(
+            outgoing <= PortOffset::<PO>::max_offset().min(NodeMeta::MAX_OUTGOING),
+            "Outgoing port count exceeds maximum."
+        );
+        assert!(
+            incoming + outgoing <= NodeMeta::MAX_CAPACITY,
+            "Total port count exceeds maximum."
+        );
+    }
+
     #[inline]
     fn alloc_node(&mut self) -> NodeIndex {
         match self.node_free.to_option() {
@@ -457,14 +479,7 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
 impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
-        assert!(
-            incoming <= PortOffset::<PO>::max_offset(),
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= PortOffset::<PO>::max_offset(),
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -522,14 +537,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let new_total = incoming + outgoing;
 
@@ -566,7 +574,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // TODO: Fine-tune overallocation factor
         let target_capacity = match new_total {
             0 => 0,
-            _ => new_total.next_power_of_two(),
+            _ => new_total.next_power_of_two().min(NodeMeta::MAX_CAPACITY),
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
@@ -841,6 +849,8 @@ impl NodeMeta {
     const MAX_INCOMING: usize = u16::MAX as usize - 1;
     /// The maximum number of outgoing ports for a node.
     const MAX_OUTGOING: usize = u16::MAX as usize;
+    /// The maximum number of ports for a node, including the pre-allocated ones.
+    const MAX_CAPACITY: usize = u16::MAX as usize;
 
     #[inline]
     pub fn new(first_port: PortIndex, incoming: u16, outgoing: u16, capacity: u16) -> Self {
-- 
2.43.0


From ef460ae6fa0ade28c4f116a61ac29a3f31b57460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:22 +0000
Subject: [PATCH 11/40] fix: a node can not be attached to itself in a
 hierarchy

---
 src/hierarchy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..0d741e5 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,10 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        if parent == node {
+            return false;
+        }
+
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From db4cbec40604d0313a5f8ba2b287eb08be2692be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:22 +0000
Subject: [PATCH 12/40] fix: re-keying a hierarchy node to its own index does
 nothing

---
 src/hierarchy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 0d741e5..d7ec81a 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -472,12 +472,12 @@ impl Hierarchy {
     ///
     /// Panics if the index `new` is not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 4c05220328aa674905b7b4271a1b33cf61287739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:22 +0000
Subject: [PATCH 13/40] fix: re-keying a dense map leaves the map's own default
 behind

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 8e2d9403813be0d1395e6446d093fe96006792ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:22 +0000
Subject: [PATCH 14/40] fix: ensure_capacity reserves relative to the number of
 entries

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..4165e53 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
-- 
2.43.0


From d61fde981a45f91aa0bba8da5c32196a71dc94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 15/40] fix: link_count and subport_link of filtered graphs
 respect the filters

---
 src/view/filter.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From d00dad3f63b65c386045b7f2d5d61786de35845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 16/40] fix: a flat region without root and children is empty

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..98efa7f 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.node_count() == 0
     }
 
     #[inline]
-- 
2.43.0


From 897622c09a13411cb935b124d861eb35bf63404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 17/40] fix: cloning a region while its cache is locked keeps
 the root in the cache

---
 src/view/region.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..c056cce 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -129,9 +129,10 @@ impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
         // Otherwise, create a new empty cache.
+        // The cache always contains the root, where the ancestor traversal stops.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From 53c6c6e9bd7e935115f6b3f86eeb4adad70e62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 18/40] fix: follow every link of a port when collecting a
 subgraph's nodes

---
 src/boundary.rs | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..0a77bb8 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,13 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
-        let mut visited = BTreeSet::new();
+        // Links at any of these ports are boundary edges
+        let boundary_ports: BTreeSet<PortIndex> = self.port_indices().collect();
 
         // The set of nodes to traverse
-        let mut nodes_to_process: BTreeSet<_> = self
-            .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+        let mut nodes_to_process: BTreeSet<_> = boundary_ports
+            .iter()
+            .map(|&p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -326,17 +319,20 @@ impl Boundary {
             nodes_to_process = graph.nodes_iter().collect();
         }
 
+        // The nodes that have been added to `nodes_to_process` at any time
+        let mut visited = nodes_to_process.clone();
+
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
-            for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
-                        // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
-                        nodes_to_process.insert(other_node);
-                    }
+            // Traverse every edge in `node` that is not in the boundary
+            for (p, other_port) in graph.all_links(node) {
+                if boundary_ports.contains(&p.into())
+                    || boundary_ports.contains(&other_port.into())
+                {
+                    continue;
+                }
+                let other_node = graph.port_node(other_port).unwrap();
+                if visited.insert(other_node) {
+                    nodes_to_process.insert(other_node);
                 }
             }
             nodes_to_process.pop_first()
-- 
2.43.0


From 3206e04a0a6c751c47f796bc404d8ad0634d2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:35 +0000
Subject: [PATCH 19/40] Announce the lock steps of regions to a scheduler under
 cfg(portgraph_mc)

---
 src/lib.rs         |   3 +
 src/mc_sync.rs     | 165 +++++++++++++++++++++++++++++++++++++++++++++
 src/view/region.rs |   3 +
 3 files changed, 171 insertions(+)
 create mode 100644 src/mc_sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index 15f551e..147e36c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unknown_lints, unexpected_cfgs)]
 #![warn(missing_docs)]
 //! `portgraph` is a data structure library for graphs with node ports.
 //!
@@ -64,6 +65,8 @@ pub mod algorithms;
 pub mod boundary;
 pub mod hierarchy;
 pub mod index;
+#[cfg(portgraph_mc)]
+pub mod mc_sync;
 pub mod multiportgraph;
 pub mod portgraph;
 pub mod render;
diff --git a/src/mc_sync.rs b/src/mc_sync.rs
new file mode 100644
index 0000000..15f0aad
--- /dev/null
+++ b/src/mc_sync.rs
@@ -0,0 +1,165 @@
+//! A reader-writer lock that announces every step to a scheduler.
+//!
+//! Only compiled with `--cfg portgraph_mc`, where it stands in for
+//! [`std::sync::RwLock`] so that a model checker can explore all the orders in
+//! which threads take the lock.
+
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::{self, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// A step of a thread with respect to a lock.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Step {
+    /// The thread is about to try to take the lock.
+    Try,
+    /// The thread took the lock.
+    Taken,
+    /// The lock is held by another thread, the thread has to wait.
+    Blocked,
+    /// The thread released the lock.
+    Released,
+}
+
+/// Called at every step with the address of the lock. Returns whether the
+/// calling thread is controlled by the scheduler.
+pub type Hook = fn(usize, Step) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Install the scheduler. Only the first call has an effect.
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+fn step(addr: usize, step: Step) -> bool {
+    HOOK.get().is_some_and(|h| h(addr, step))
+}
+
+/// A guard of an [`RwLock`].
+#[derive(Debug)]
+pub struct Guard<G> {
+    guard: Option<G>,
+    addr: usize,
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &G::Target {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut G::Target {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        self.guard = None;
+        step(self.addr, Step::Released);
+    }
+}
+
+/// Stand-in for [`std::sync::RwLock`].
+#[derive(Default)]
+pub struct RwLock<T> {
+    inner: sync::RwLock<T>,
+}
+
+impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+/// Shared access.
+pub type RwLockReadGuard<'a, T> = Guard<sync::RwLockReadGuard<'a, T>>;
+/// Exclusive access.
+pub type RwLockWriteGuard<'a, T> = Guard<sync::RwLockWriteGuard<'a, T>>;
+
+impl<T> RwLock<T> {
+    /// See [`std::sync::RwLock::new`].
+    pub fn new(value: T) -> Self {
+        Self {
+            inner: sync::RwLock::new(value),
+        }
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn attempt<G>(&self, take: impl Fn() -> TryLockResult<G>) -> TryLockResult<Guard<G>> {
+        step(self.addr(), Step::Try);
+        let wrap = |g| Guard {
+            guard: Some(g),
+            addr: self.addr(),
+        };
+        let res = match take() {
+            Ok(g) => Ok(wrap(g)),
+            Err(TryLockError::Poisoned(e)) => {
+                Err(TryLockError::Poisoned(PoisonError::new(wrap(e.into_inner()))))
+            }
+            Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
+        };
+        step(self.addr(), Step::Taken);
+        res
+    }
+
+    fn insist<G>(&self, take: impl Fn() -> TryLockResult<G>) -> LockResult<Guard<G>> {
+        loop {
+            match self.attempt(&take) {
+                Ok(g) => return Ok(g),
+                Err(TryLockError::Poisoned(e)) => return Err(e),
+                Err(TryLockError::WouldBlock) => {
+                    if !step(self.addr(), Step::Blocked) {
+                        std::thread::yield_now();
+                    }
+                }
+            }
+        }
+    }
+
+    /// See [`std::sync::RwLock::try_read`].
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        self.attempt(|| self.inner.try_read())
+    }
+
+    /// See [`std::sync::RwLock::try_write`].
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        self.attempt(|| self.inner.try_write())
+    }
+
+    /// See [`std::sync::RwLock::read`].
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        self.insist(|| self.inner.try_read())
+    }
+
+    /// See [`std::sync::RwLock::write`].
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        self.insist(|| self.inner.try_write())
+    }
+
+    /// See [`std::sync::RwLock::is_poisoned`].
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    /// See [`std::sync::RwLock::clear_poison`].
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
+
+    /// See [`std::sync::RwLock::get_mut`].
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    /// See [`std::sync::RwLock::into_inner`].
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
diff --git a/src/view/region.rs b/src/view/region.rs
index c056cce..e525302 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -2,10 +2,13 @@
 
 use delegate::delegate;
 use itertools::Either;
+#[cfg(not(portgraph_mc))]
 use std::sync::RwLock;
 use std::{collections::HashMap, iter};
 
 use super::{LinkView, MultiView, PortView};
+#[cfg(portgraph_mc)]
+use crate::mc_sync::RwLock;
 use crate::{Direction, Hierarchy, NodeIndex, PortIndex, PortOffset};
 
 /// View of a portgraph containing only a root node and its descendants in a
-- 
2.43.0


From ea73ccf30d8d03092104af469cb024ffcf8c5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:37 +0000
Subject: [PATCH 20/40] fix: topological sort waits for every link of a port
 and respects the filters at both ends

---
 src/algorithms/toposort.rs | 40 ++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..9ae0f3b 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -224,25 +224,42 @@ where
         if self.ignore_node(node) {
             return false;
         }
+        // The port must have not been visited yet. Otherwise, the node would
+        // have been already been reported as ready and added to the candidate
+        // list.
+        if *self.visited_ports.get(from_port) || self.ignore_port(node, from_port) {
+            return false;
+        }
         let ports: Vec<_> = self.graph.ports(node, self.direction.reverse()).collect();
-        ports.into_iter().all(|p| {
-            if p == from_port {
-                // This port must have not been visited yet. Otherwise, the node
-                // would have been already been reported as ready and added to
-                // the candidate list.
-                !self.visited_ports.get(p)
-            } else if *self.visited_ports.get(p) {
-                true
-            } else if self.graph.port_link(p).is_none() || self.ignore_port(node, p) {
-                // If the port is not linked or should be ignored, mark it as visited.
+        ports.into_iter().fold(true, |ready, p| {
+            if *self.visited_ports.get(p) {
+                ready
+            } else if self.ignore_port(node, p) || self.all_links_visited(p) {
+                // If there is nothing left to visit before this port, mark it as visited.
                 self.visited_ports.set(p, true);
-                true
+                ready
             } else {
                 false
             }
         })
     }
 
+    /// Returns `true` if every link of the port comes from a port that has been
+    /// visited, or that should be ignored.
+    fn all_links_visited(&mut self, port: PortIndex) -> bool {
+        let linked_ports: SmallVec<[PortIndex; 2]> = self
+            .graph
+            .port_links(port)
+            .map(|(_, from_port)| from_port.into())
+            .collect();
+        linked_ports.into_iter().all(|p| {
+            *self.visited_ports.get(p) || {
+                let node = self.graph.port_node(p).unwrap();
+                self.ignore_node(node) || self.ignore_port(node, p)
+            }
+        })
+    }
+
     /// Returns `true` if the node should be ignored.
     #[inline]
     fn ignore_node(&mut self, node: NodeIndex) -> bool {
@@ -291,7 +308,6 @@ where
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-                self.visited_ports.set(port, true);
             }
         }
 
-- 
2.43.0


From 51d607c24365721222e7f442b48a507d72283e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:33 +0000
Subject: [PATCH 21/40] fix: a topological sort yields repeated sources once
 and sources without ports added later

---
 src/algorithms/toposort.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index 9ae0f3b..8d16710 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -1,7 +1,11 @@
 use crate::{Direction, LinkView, NodeIndex, PortIndex, SecondaryMap};
 use bitvec::prelude::BitVec;
 use smallvec::SmallVec;
-use std::{collections::VecDeque, fmt::Debug, iter::FusedIterator};
+use std::{
+    collections::{HashSet, VecDeque},
+    fmt::Debug,
+    iter::FusedIterator,
+};
 
 /// Returns an iterator over a [`LinkView`] in topological order.
 ///
@@ -117,6 +121,8 @@ pub struct TopoSort<'f, G, Map = BitVec> {
     /// A VecDeque is used for the node list to produce a canonical ordering,
     /// as successors of nodes already have a canonical ordering due to ports.
     candidate_nodes: VecDeque<NodeIndex>,
+    /// Nodes without ports that have been added as sources.
+    isolated_nodes: HashSet<NodeIndex>,
     direction: Direction,
     /// The number of nodes already returned from the iterator.
     /// This is used to calculate the upper bound for the iterator's `size_hint`.
@@ -144,17 +150,11 @@ where
         graph: G,
         source: impl IntoIterator<Item = NodeIndex>,
         direction: Direction,
-        mut node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
+        node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
         port_filter: Option<Box<dyn FnMut(NodeIndex, PortIndex) -> bool + 'f>>,
     ) -> Self {
         let mut visited_ports: Map = SecondaryMap::new();
 
-        let candidate_nodes: VecDeque<_> = if let Some(node_filter) = node_filter.as_mut() {
-            source.into_iter().filter(|&n| node_filter(n)).collect()
-        } else {
-            source.into_iter().collect()
-        };
-
         // If the default value of `Map` is not `false`, we must mark all ports as not visited.
         if visited_ports.default_value() {
             for port in graph.ports_iter() {
@@ -162,22 +162,18 @@ where
             }
         }
 
-        // Mark all the candidate ports as visited, so we don't visit them again.
-        for node in candidate_nodes.iter() {
-            for port in graph.ports(*node, direction.reverse()) {
-                visited_ports.set(port, true);
-            }
-        }
-
-        Self {
+        let mut topo = Self {
             graph,
             visited_ports,
-            candidate_nodes,
+            candidate_nodes: VecDeque::new(),
+            isolated_nodes: HashSet::new(),
             direction,
             nodes_seen: 0,
             node_filter,
             port_filter,
-        }
+        };
+        topo.add_sources(source);
+        topo
     }
 
     /// Returns whether there are ports that have not been visited yet.
@@ -197,12 +193,15 @@ where
                 continue;
             };
 
+            // Mark all the candidate ports as visited, so we don't visit them again.
             let mut new_candidate = false;
             for port in self.graph.ports(node, self.direction.reverse()) {
                 new_candidate |= !self.visited_ports.get(port);
                 self.visited_ports.set(port, true);
             }
-            if self.graph.num_ports(node, self.direction.reverse()) == 0 {
+            if self.graph.all_ports(node).next().is_none() {
+                new_candidate = self.isolated_nodes.insert(node);
+            } else if self.graph.num_ports(node, self.direction.reverse()) == 0 {
                 // If the node has no incoming ports, we check if it has been visited by looking at the outgoing ports.
                 new_candidate = !self.candidate_nodes.contains(&node)
                     && self
-- 
2.43.0


From 417e54755c09d7444a4e8c764810caed2fc8e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 22/40] fix: ignore unreachable predecessors when computing
 dominators

---
 src/algorithms/dominators.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..0ed44b1 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -183,6 +183,10 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
+                        if index_to_node[pred_index] != pred {
+                            // The predecessor is not reachable from the entry
+                            return None;
+                        }
                         if dominators[pred_index] == usize::MAX {
                             // No dominator yet
                             return None;
-- 
2.43.0


From c2f4819086e8c0e3760c0ce3207e499d2818972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 23/40] fix: a boundary's port ordering ignores the links that
 cross the boundary

---
 src/boundary.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 0a77bb8..c047d16 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -149,6 +149,15 @@ impl Boundary {
     pub fn port_ordering(&self, graph: &impl LinkView) -> PortOrdering {
         let boundary_ports: HashSet<PortIndex> =
             self.inputs.iter().chain(&self.outputs).copied().collect();
+        // The nodes at the other end of a node's links that do not cross the boundary.
+        let internal_neighbours = |node, direction| {
+            graph
+                .links(node, direction)
+                .filter(|&(p, q)| {
+                    !boundary_ports.contains(&p.into()) && !boundary_ports.contains(&q.into())
+                })
+                .map(|(_, q)| graph.port_node(q).unwrap())
+        };
 
         // Maps between the input/output ports in the boundary and the nodes they belong to.
         let mut input_nodes: BTreeMap<NodeIndex, Vec<PortIndex>> = BTreeMap::new();
@@ -207,9 +216,11 @@ impl Boundary {
 
                 // Explore the subgraph induced by the boundary, and add any node with no input neighbours
                 // to the candidates list for the toposort traversal.
-                let new_source_nodes = self
-                    .internal_nodes(graph)
-                    .filter(|&node| graph.input_neighbours(node).count() == 0);
+                let new_source_nodes = self.internal_nodes(graph).filter(|&node| {
+                    internal_neighbours(node, Direction::Incoming)
+                        .next()
+                        .is_none()
+                });
                 topo.add_sources(new_source_nodes);
 
                 continue;
@@ -221,7 +232,7 @@ impl Boundary {
                 input_nodes.remove(&node).into_iter().flatten().collect();
 
             // Add the reaching ports from the input neighbours.
-            for input_neigh in graph.input_neighbours(node) {
+            for input_neigh in internal_neighbours(node, Direction::Incoming) {
                 let (output_neighs, input_reaching) = reaching
                     .get_mut(&input_neigh)
                     .expect("Incoming neighbour not visited");
@@ -244,7 +255,7 @@ impl Boundary {
                 }
             }
 
-            let output_neighs = graph.output_neighbours(node).count();
+            let output_neighs = internal_neighbours(node, Direction::Outgoing).count();
             reaching.insert(node, (output_neighs, reaching_ports));
 
             // If we have explored all the nodes for the input or output ports,
@@ -325,8 +336,7 @@ impl Boundary {
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
             // Traverse every edge in `node` that is not in the boundary
             for (p, other_port) in graph.all_links(node) {
-                if boundary_ports.contains(&p.into())
-                    || boundary_ports.contains(&other_port.into())
+                if boundary_ports.contains(&p.into()) || boundary_ports.contains(&other_port.into())
                 {
                     continue;
                 }
-- 
2.43.0


From dee9ecc5e5f56c0dcc760a1a59e8e98728a1565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 24/40] fix: convexity checks consider every link of an output
 port

---
 src/algorithms/convex/line_convex_checker.rs | 2 +-
 src/algorithms/convex/topo_convex_checker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..3d5fb0f 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -636,7 +636,7 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..c14774b 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -129,7 +129,7 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From b804e8245f2d4e2d9245c15cfb6881789ccd0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 25/40] fix: the empty subgraph is convex

---
 src/algorithms/convex/line_convex_checker.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 3d5fb0f..329db59 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,10 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
-            .values()
-            .map(|LineInterval { min, .. }| min)
-            .max()
-            .unwrap();
+        let Some(max_start_pos) = intervals.values().map(|LineInterval { min, .. }| min).max()
+        else {
+            return true; // the empty subgraph is convex
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From d7b01c938e099acada1cfbbae76885a48d0b9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 26/40] Format the lock hook

---
 src/mc_sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_sync.rs b/src/mc_sync.rs
index 15f0aad..449e753 100644
--- a/src/mc_sync.rs
+++ b/src/mc_sync.rs
@@ -100,9 +100,9 @@ impl<T> RwLock<T> {
         };
         let res = match take() {
             Ok(g) => Ok(wrap(g)),
-            Err(TryLockError::Poisoned(e)) => {
-                Err(TryLockError::Poisoned(PoisonError::new(wrap(e.into_inner()))))
-            }
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(wrap(
+                e.into_inner(),
+            )))),
             Err(TryLockError::WouldBlock) => return Err(TryLockError::WouldBlock),
         };
         step(self.addr(), Step::Taken);
-- 
2.43.0


From 36c6d1b7b209945b1d1365bdc3dfd7c52563ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 27/40] fix: keep the dynamic topological order valid when
 reordering around a new link

The affected nodes were written to consecutive positions in traversal order,
which overwrote unaffected nodes and broke the order within each cone.
---
 src/algorithms/dynamic.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..f00dbbe 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -151,13 +151,18 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        // Keep the relative order within each cone, and reuse the positions
+        // that their nodes occupied.
+        delta_f.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        delta_b.sort_unstable_by_key(|n| self.node_to_pos[n]);
+        delta_b.append(&mut delta_f);
+        let mut positions: Vec<usize> = delta_b.iter().map(|n| self.node_to_pos[n]).collect();
+        positions.sort_unstable();
+        for (w, new_pos) in delta_b.into_iter().zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-- 
2.43.0


From 9c1d54dbd27dd332ace97e5011b2be7a106f2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:08 +0000
Subject: [PATCH 28/40] fix: the dynamic convexity checker refuses exactly the
 links that close a cycle

The nodes were passed to the cycle check in the wrong order, so cycles went
unnoticed until after linking and parallel links were refused.
---
 src/algorithms/dynamic.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index f00dbbe..36b593d 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -402,15 +402,25 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
-        if self
-            .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+        let (from_dir, to_dir) = (
+            self.graph.port_direction(from),
+            self.graph.port_direction(to),
+        );
+        // Ports may be given in either order, the link goes from the output to the input.
+        let (source, target) = match from_dir {
+            Some(Direction::Incoming) => (to_node, from_node),
+            _ => (from_node, to_node),
+        };
+        if from_dir != to_dir
+            && self
+                .topo_sort
+                .would_create_cycle(source, target, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
         let result = self.graph.link_ports(from, to)?;
         self.topo_sort
-            .connect_nodes(from_node, to_node, &self.graph)
+            .connect_nodes(source, target, &self.graph)
             .map_err(|e| match e {
                 DynamicTopoSortError::InvalidNode { .. } => LinkError::UnknownPort { port: from },
                 DynamicTopoSortError::WouldCreateCycle { .. } => {
-- 
2.43.0


From 6fb134fe9b335e4cceff6a6b264875f438d824cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 29/40] fix: the dynamic convexity checker follows clear,
 swap_nodes and compact_nodes

The graph was changed without updating the topological order.
---
 src/algorithms/dynamic.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 36b593d..347a828 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -102,6 +102,20 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Exchanges two node indices. Either of them may be missing in the order.
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let pos_a = self.node_to_pos.remove(&a);
+        let pos_b = self.node_to_pos.remove(&b);
+        if let Some(pos) = pos_a {
+            self.order[pos] = b;
+            self.node_to_pos.insert(b, pos);
+        }
+        if let Some(pos) = pos_b {
+            self.order[pos] = a;
+            self.node_to_pos.insert(a, pos);
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -374,13 +388,28 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
         self.topo_sort.remove_node(node).expect("Node not found");
     }
 
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
+    }
+
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From b85d7939df343d500df6a968f3fdf036e886a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 30/40] fix: removing a missing node through the dynamic
 convexity checker does nothing

---
 src/algorithms/dynamic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 347a828..d6b19b8 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -385,7 +385,8 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // As in the graph, removing a node that does not exist does nothing.
+        let _ = self.topo_sort.remove_node(node);
     }
 
     fn clear(&mut self) {
-- 
2.43.0


From 3de87e6325bca1b177e13e1e9608e39a1c97fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 31/40] fix: the dynamic convexity checker answers convexity
 correctly

Paths that leave the subgraph without returning made it non-convex, and with
boundary ports most non-convex subgraphs were accepted.
---
 src/algorithms/dynamic.rs | 138 +++++++-------------------------------
 1 file changed, 26 insertions(+), 112 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index d6b19b8..95197ec 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,6 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -235,73 +234,28 @@ impl DynamicTopoSort {
         &self.order
     }
 
+    /// Checks if a path leaves `nodes` and returns to it.
+    ///
+    /// `max_pos` is the last position of the order that is in `nodes`.
     fn has_path_outside_subgraph<G: LinkView>(
         &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
         max_pos: usize,
         nodes: &HashSet<NodeIndex>,
         graph: &G,
     ) -> bool {
         let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
+        let mut queue: VecDeque<NodeIndex> = nodes
+            .iter()
+            .flat_map(|&node| graph.output_neighbours(node))
+            .filter(|node| !nodes.contains(node))
+            .collect();
         while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
+            if nodes.contains(&node) {
                 return true;
             }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
-                    }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
             let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
-                continue;
-            }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
-                }
+            if pos < max_pos && visited.insert(node) {
+                queue.extend(graph.output_neighbours(node));
             }
         }
         false
@@ -495,66 +449,26 @@ where
                 return false;
             }
         }
-        if nodes.len() < 2 {
-            return true;
-        }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0;
-
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
+        let inputs: HashSet<PortIndex> = inputs.into_iter().collect();
+        for output in outputs {
+            // An edge from an output port to an input port is outside of the subgraph.
+            if self.graph.port_direction(output) == Some(Direction::Outgoing)
+                && self
+                    .graph
+                    .port_links(output)
+                    .any(|(_, input)| inputs.contains(&input.into()))
+            {
                 return false;
             }
         }
 
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
+        let positions = nodes.iter().map(|n| self.topo_sort.node_to_pos[n]);
+        let Some(max_pos) = positions.max() else {
             return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
-                    return false;
-                }
-            }
-        }
-        true
+        };
+        !self
+            .topo_sort
+            .has_path_outside_subgraph(max_pos, &nodes, &self.graph)
     }
 }
 
-- 
2.43.0


From 8a8861f46611cfdd17bf4819471b4370a2303350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 32/40] fix: petgraph's node_bound bounds the node indices

It was the number of nodes, which is less than some indices when there are holes.
---
 src/view/petgraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..4d2eb7f 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,11 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                // Node indices may have holes.
+                self.nodes_iter()
+                    .map(|node| node.index() + 1)
+                    .max()
+                    .unwrap_or_default()
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From e6d71b37e7e6a4a6a8eaba03eeab2752c0b6bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:29 +0000
Subject: [PATCH 33/40] fix: size petgraph's adjacency matrix by the node
 indices

A multiport graph's node capacity may be less than its node indices.
---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 4d2eb7f..5455a05 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -194,7 +194,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From c808d7728c0df67225951740f3687548486e1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:30 +0000
Subject: [PATCH 34/40] fix: petgraph's VisitMap::visit returns whether this is
 the first visit

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 5455a05..fe02bbf 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -315,7 +315,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From 66381f4724cdf5ef323570c165d5612b3cc73445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 35/40] fix: petgraph's IntoEdges only yields the outgoing
 edges of a node

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index fe02bbf..2937d27 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -153,7 +153,7 @@ macro_rules! impl_petgraph_traits {
             type Edges = NodeEdgeRefs<'g, $graph>;
 
             fn edges(self, n: Self::NodeId) -> Self::Edges {
-                NodeEdgeRefs::new(self, n)
+                NodeEdgeRefs::new_directed(self, n, crate::Direction::Outgoing)
             }
         }
 
-- 
2.43.0


From f6a5ed7d6c4ae6a7abedeb46d5e2708b849fb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:32 +0000
Subject: [PATCH 36/40] fix: petgraph's incoming edges point towards the node

---
 src/view/petgraph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 2937d27..8deebec 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -456,10 +456,16 @@ where
     }
 
     /// Create a new iterator over the edges of a portgraph.
+    ///
+    /// The edges always point from the output port to the input port.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+        let links = graph.links(node, dir);
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: match dir {
+                crate::Direction::Incoming => Box::new(links.map(|(to, from)| (from, to))),
+                crate::Direction::Outgoing => Box::new(links),
+            },
         }
     }
 }
-- 
2.43.0


From 418f434c696def48bd6a628ee19170f0e3c3a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:33 +0000
Subject: [PATCH 37/40] fix: petgraph's edge_references yields each edge once

Each edge was visited from both of its ports, and the reported length did not
decrease while iterating.
---
 src/view/petgraph.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 8deebec..afc5230 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -9,7 +9,7 @@ use crate::view::filter::{LinkFilter, NodeFilter};
 use crate::view::flat_region::FlatRegion;
 use crate::view::region::Region;
 use crate::view::subgraph::Subgraph;
-use crate::{LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
+use crate::{Direction, LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
 
 use super::FilteredGraph;
 
@@ -384,7 +384,11 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&port| graph.port_direction(port) == Some(Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -400,6 +404,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From abebdaf9081676758362a91ec3a37d71ea020304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 38/40] fix: mermaid diagrams of views show only the nodes of
 the view, nested as drawn

Children that are not part of the rendered view were drawn nevertheless, and
edges could be placed inside a region that does not contain both ends (or that
is itself one of the ends), which moves nodes between regions.
---
 src/render/mermaid.rs | 48 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..b475b6f 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,11 +1,11 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
+use std::iter;
 
 use itertools::Itertools;
 
-use crate::algorithms::{lca, LCA};
 use crate::{Hierarchy, LinkView, NodeIndex, Weights};
 
 use super::{EdgeStyle, NodeStyle, PresentationStyle};
@@ -118,9 +118,6 @@ where
             Vec<(NodeIndex, G::LinkEndpoint, NodeIndex, G::LinkEndpoint)>,
         > = HashMap::new();
 
-        // An efficient structure for retrieving the lowest common ancestor of two nodes.
-        let lca: Option<LCA> = self.forest.map(|f| lca(self.graph, f));
-
         while let Some(instr) = exploration_stack.pop() {
             match instr {
                 ExplorationStep::ExploreNode { node } => {
@@ -142,9 +139,9 @@ where
                     for (src, tgt) in self.graph.output_links(node) {
                         let src_node = self.graph.port_node(src).unwrap();
                         let tgt_node = self.graph.port_node(tgt).unwrap();
-                        let lca = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
+                        let region = self.common_region(src_node, tgt_node);
                         edges
-                            .entry(lca)
+                            .entry(region)
                             .or_insert_with(Vec::new)
                             .push((src_node, src, tgt_node, tgt));
                     }
@@ -169,25 +166,38 @@ where
         }
     }
 
-    /// Helper function to check if a node is a leaf in the hierarchy.
+    /// Helper function to check if a node is a root in the drawn hierarchy.
     fn is_root(&self, node: NodeIndex) -> bool {
-        let Some(f) = &self.forest else {
-            return true;
-        };
-        f.is_root(node)
-            // Special case for filtered graphs.
-            || f.parent(node)
-                .map_or(true, |p| !self.graph.contains_node(p))
+        self.node_region(node).is_none()
     }
 
-    /// Helper function to check if a node is a leaf in the hierarchy.
+    /// Helper function to check if a node is a leaf in the drawn hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
-        self.forest.map_or(true, |f| !f.has_children(node))
+        self.node_children(node).next().is_none()
+    }
+
+    /// Returns the parent of a node in the hierarchy, if it is part of the graph.
+    ///
+    /// Filtered graphs may contain a node but not its parent.
+    fn node_region(&self, node: NodeIndex) -> Option<NodeIndex> {
+        self.forest?
+            .parent(node)
+            .filter(|&p| self.graph.contains_node(p))
+    }
+
+    /// Returns the innermost node whose region is drawn around both nodes.
+    fn common_region(&self, a: NodeIndex, b: NodeIndex) -> Option<NodeIndex> {
+        let regions = |n| iter::successors(self.node_region(n), |&r| self.node_region(r));
+        let around_a: HashSet<NodeIndex> = regions(a).collect();
+        regions(b).find(|r| around_a.contains(r))
     }
 
-    /// Returns the children of a node in the hierarchy.
+    /// Returns the children of a node in the hierarchy that are part of the graph.
     fn node_children(&self, node: NodeIndex) -> impl DoubleEndedIterator<Item = NodeIndex> + '_ {
-        self.forest.iter().flat_map(move |f| f.children(node))
+        self.forest
+            .iter()
+            .flat_map(move |f| f.children(node))
+            .filter(|&child| self.graph.contains_node(child))
     }
 }
 
-- 
2.43.0


From 815882d102f46c9ac9dc16502d4cf6d9f8c06aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 39/40] fix: rendered graphs draw no edges to hidden nodes

NodeStyle::Hidden promises that no edges are connected to the node, but dot
drew the incoming ones and mermaid drew all of them.
---
 src/render/dot.rs     | 21 ++++++++++++++++++---
 src/render/mermaid.rs | 20 +++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/render/dot.rs b/src/render/dot.rs
index d5db7d8..0baac4e 100644
--- a/src/render/dot.rs
+++ b/src/render/dot.rs
@@ -1,5 +1,6 @@
 //! Functions to encode a `PortGraph` in dot format.
 
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -112,9 +113,19 @@ where
 
     /// Append the node and edge data in dot format to a string
     fn node_and_edge_strings(&mut self, dot: &mut String) {
-        for node in self.graph.nodes_iter() {
+        let node_styles: Vec<(NodeIndex, NodeStyle)> = self
+            .graph
+            .nodes_iter()
+            .map(|node| (node, self.node_style(node)))
+            .collect();
+        let hidden: HashSet<NodeIndex> = node_styles
+            .iter()
+            .filter(|(_, style)| *style == NodeStyle::Hidden)
+            .map(|(node, _)| *node)
+            .collect();
+
+        for (node, node_style) in node_styles {
             // Format the node as a table
-            let node_style = self.node_style(node);
             let (node_label, attrs) = match node_style {
                 NodeStyle::Boxed { label, attrs } => (label, attrs),
                 #[allow(deprecated)]
@@ -152,10 +163,14 @@ where
                 + ">]\n";
             dot.push_str(&node_str);
 
-            // Connect the linked output ports
+            // Connect the linked output ports, except to hidden nodes
             self.graph
                 .outputs(node)
                 .flat_map(|port| self.graph.port_links(port))
+                .filter(|&(_, to)| {
+                    let to_node = self.graph.port_node(to).expect("missing node");
+                    !hidden.contains(&to_node)
+                })
                 .map(|(from, to)| self.get_edge_dot(node, from, to))
                 .for_each(|edge| {
                     dot.push_str(&edge);
diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index b475b6f..2505dad 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -283,6 +283,8 @@ struct MermaidBuilder<'g, G: LinkView> {
     /// The styling function for edges.
     #[allow(clippy::type_complexity)]
     edge_style: Option<Box<dyn FnMut(G::LinkEndpoint, G::LinkEndpoint) -> EdgeStyle + 'g>>,
+    /// The nodes drawn as hidden. No edges are connected to them.
+    hidden: HashSet<NodeIndex>,
 }
 
 impl<'g, G: LinkView> MermaidBuilder<'g, G> {
@@ -297,6 +299,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
             indent: 1,
             node_style,
             edge_style,
+            hidden: HashSet::new(),
         }
     }
 
@@ -337,7 +340,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match style {
-            NodeStyle::Hidden => self.push_strings(&[id.as_ref(), ":::hidden"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&[id.as_ref(), ":::hidden"])
+            }
             #[allow(deprecated)]
             NodeStyle::Box(lbl) => {
                 self.push_strings(&[id.as_ref(), "[", &encode_label(&id, &lbl), "]"]);
@@ -368,7 +374,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match &style {
-            NodeStyle::Hidden => self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&["subgraph ", id.as_ref(), " [ ]"])
+            }
             NodeStyle::Boxed { label, .. } => self.push_strings(&[
                 "subgraph ",
                 id.as_ref(),
@@ -400,7 +409,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         self.push_line("end");
     }
 
-    /// Adds an edge to the mermaid definition.
+    /// Adds an edge to the mermaid definition, unless one of its ends is hidden.
+    ///
+    /// Both nodes must have been added before.
     pub fn add_link(
         &mut self,
         src_node: NodeIndex,
@@ -408,6 +419,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         tgt_node: NodeIndex,
         tgt: G::LinkEndpoint,
     ) {
+        if self.hidden.contains(&src_node) || self.hidden.contains(&tgt_node) {
+            return;
+        }
         let style = self
             .edge_style
             .as_mut()
-- 
2.43.0


From 48e681dd117969047598fc01f23eb308372ff836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 40/40] fix: lowest common ancestors in views that leave out
 the roots

On a graph view without the root of a tree no node of the tree was visited, so
that any node counted as an ancestor of any other.
---
 src/algorithms/lca.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index 2193624..0412987 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -45,13 +45,20 @@ impl LCA {
         // `first_visit`, and `last_visit` arrays.
         let mut timestamp = 0;
         let mut stack = vec![];
-        for root in graph.nodes_iter() {
+        for node in graph.nodes_iter() {
             // We start with an empty stack
             debug_assert!(stack.is_empty());
 
-            if !hierarchy.is_root(root) {
+            // Skip the nodes of the trees already traversed.
+            if lca.last_visit[node] != 0 {
                 continue;
             }
+            // The root of the tree is not part of the graph if that is a view
+            // into some region of the hierarchy.
+            let mut root = node;
+            while let Some(parent) = hierarchy.parent(root) {
+                root = parent;
+            }
             stack.push(DFSState::Visit {
                 node: root,
                 parent: None,
-- 
2.43.0

