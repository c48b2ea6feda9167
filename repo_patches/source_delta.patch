From b8d9c8738bcf17b7d3f687a35c9aaae5c4104e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 01/15] fix: remove_entity must refuse groups that do not match
 the entity exactly

It read the entity's columns as G without comparing G to the archetype, leaking
or misreading components, although its documentation promises None.
---
 src/registry/registry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..98ee6f6 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,14 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        // Only an exact match may be read back as G.
+        if archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From c9c152f1ec0589e924922ae16b555302655548a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 02/15] fix: give a component group the same archetype id as
 the equal set built by add/remove

The group id hashed the unused descriptor slots as well, so an entity that reached
a component set through add_component or remove_component lived in a second
archetype which exact iteration never visited.
---
 src/descriptors/component_group_descriptor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..505c17f 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,10 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the components in use determine the id, unused slots must not take part in it.
+        // Otherwise the id differs from that of the same archetype reached by adding or removing components.
+        let (used_descriptors, _) = sorted_descriptors.split_at(N);
+        let id = ArchetypeDescriptor::compute_archetype_id(used_descriptors);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From ce347fa6a29e891824d3371091edf8e3c588d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 03/15] fix: adding the 14th and removing from 14 components
 indexed out of bounds

---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e588df7 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,11 +159,12 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
 
                 v.len -= 1;
+                v.components[v.len as usize] = ComponentDescriptor::INVALID;
                 v.archetype_id =
                     ArchetypeDescriptor::compute_archetype_id(&v.components[0..v.len() as usize]);
                 Some(v)
-- 
2.43.0


From 26154c724cfa8277a339b1b9ee7a0d0f5c80b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 04/15] fix: refuse invalid component groups in has_components
 and get_components(_mut)

A group naming a component twice has an empty descriptor, which every archetype
contains; the access then dereferenced null pointers.
---
 src/registry/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 98ee6f6..d5b2338 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -121,6 +121,9 @@ impl Registry {
     /// Returns false if entity is invalid or does not have all of the specified components.
     /// If you need to check for only a single components, prefer to use [`Registry::has_component`] instead.
     pub fn has_components<'registry, G: ComponentGroup>(&'registry self, entity: Entity) -> bool {
+        if !G::DESCRIPTOR.is_valid() {
+            return false;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return false,
             Some(v) => v,
@@ -155,6 +158,9 @@ impl Registry {
         &'registry self,
         entity: Entity,
     ) -> Option<G::RefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
@@ -196,6 +202,9 @@ impl Registry {
         &'registry mut self,
         entity: Entity,
     ) -> Option<G::MutRefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
-- 
2.43.0


From c2c37b1003f68ad6fdd95ec6ef7b6a5469f30438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 05/15] fix: iterating over an invalid component group
 underflowed instead of yielding nothing

---
 src/archetype_registry/iterators/archetype_iter.rs            | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs        | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter.rs     | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter_mut.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
-- 
2.43.0


From 606b2c698c2c0526571f0f1aa4e583fdf05efbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 06/15] fix: off-by-one in the source archetype range checks

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..5548490 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -113,7 +113,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -141,7 +141,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From c7ca8d8f1c6624fb10da826bd6ad8b078239ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 07/15] fix: free slots could not be reused once the entity
 limit had been reached

---
 src/entity_registry/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
-- 
2.43.0


From e70349869cbe664e48251adf215296c0c383c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 08/15] fix: growing an archetype past 8388608 entities freed
 its memory

Doubling the capacity exceeded MAX_ENTITIES_PER_ARCHETYPE, which deallocates, and
the next write went through a null pointer. Growth is now limited to the maximum.
---
 src/archetype/data_access.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..6ec3148 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -502,10 +502,12 @@ impl Archetype {
     /// Resizes the backing memory by the default amount if necessary.
     unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
+            let remaining_capacity = MAX_ENTITIES_PER_ARCHETYPE - self.capacity();
+            assert_ne!(remaining_capacity, 0);
             let additional_capacity = if self.capacity() == 0 {
-                DEFAULT_ARCHETYPE_ALLOCATION_SIZE
+                DEFAULT_ARCHETYPE_ALLOCATION_SIZE as u32
             } else {
-                self.capacity() as usize
+                self.capacity().min(remaining_capacity)
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From 6cd8b1c834f7b85c8355b0258335aa65bd6981d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 09/15] fix: create_entity panicked instead of returning Err
 when an archetype is full

---
 src/registry/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index d5b2338..034eb85 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From d298d21c6420d6aa8c1ef91889ef312b34de2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 10/15] fix: zero-sized components and empty archetypes made
 invalid allocator calls

Zero-sized components requested zero-sized allocations, and an archetype without
capacity reallocated a null pointer and exposed a slice at a null pointer.
---
 src/archetype/data_access.rs | 49 ++++++++++++----------------
 src/archetype/mod.rs         | 63 +++++++++++++++++++++++++++++++-----
 2 files changed, 76 insertions(+), 36 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 6ec3148..b3b1157 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,8 +1,7 @@
-use super::Archetype;
+use super::{dealloc_array, realloc_array, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
@@ -426,14 +425,12 @@ impl Archetype {
         }
         let new_capacity = new_capacity as usize;
 
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * old_capacity as usize,
-            align_of::<Entity>(),
-        );
-        self.entity_associations = realloc(
+        self.entity_associations = realloc_array(
             self.entity_associations as *mut u8,
-            layout,
-            size_of::<Entity>() * new_capacity,
+            size_of::<Entity>(),
+            align_of::<Entity>(),
+            old_capacity as usize,
+            new_capacity,
         ) as *mut Entity;
         assert_ne!(self.entity_associations, core::ptr::null_mut());
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
@@ -441,14 +438,12 @@ impl Archetype {
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * old_capacity as usize,
-                component_type.align as usize,
-            );
-            *pointer = realloc(
+            *pointer = realloc_array(
                 *pointer,
-                layout,
-                component_type.size as usize * new_capacity,
+                component_type.size as usize,
+                component_type.align as usize,
+                old_capacity as usize,
+                new_capacity,
             );
             assert_ne!(*pointer, core::ptr::null_mut());
         }
@@ -460,26 +455,24 @@ impl Archetype {
     /// - Does not call drop on the entities in the backing storage.
     pub(super) unsafe fn dealloc(&mut self) {
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
+            .iter()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * self.capacity as usize,
+            dealloc_array(
+                *pointer,
+                component_type.size as usize,
                 component_type.align as usize,
+                self.capacity as usize,
             );
-            dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
         }
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * self.capacity() as usize,
+        dealloc_array(
+            self.entity_associations as *mut u8,
+            size_of::<Entity>(),
             align_of::<Entity>(),
+            self.capacity() as usize,
         );
-        dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        self.set_dangling_pointers();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..7d259be 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,7 +1,7 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 
 mod data_access;
@@ -17,6 +17,44 @@ pub struct Archetype {
     capacity: u32,
 }
 
+/// Returns a non-null pointer of the given alignment, for arrays that need no memory.
+fn dangling(align: usize) -> *mut u8 {
+    core::ptr::null_mut::<u8>().wrapping_add(align)
+}
+
+/// Allocates an array, returns null if that fails.
+/// Arrays of zero bytes are not requested from the allocator, as that is undefined behaviour.
+unsafe fn alloc_array(size: usize, align: usize, count: usize) -> *mut u8 {
+    let layout = Layout::from_size_align_unchecked(size * count, align);
+    if layout.size() == 0 {
+        return dangling(align);
+    }
+    alloc(layout)
+}
+
+/// Deallocates an array that was allocated using [`alloc_array`].
+unsafe fn dealloc_array(pointer: *mut u8, size: usize, align: usize, count: usize) {
+    let layout = Layout::from_size_align_unchecked(size * count, align);
+    if layout.size() != 0 {
+        dealloc(pointer, layout);
+    }
+}
+
+/// Resizes an array that was allocated using [`alloc_array`], returns null if that fails.
+unsafe fn realloc_array(
+    pointer: *mut u8,
+    size: usize,
+    align: usize,
+    count: usize,
+    new_count: usize,
+) -> *mut u8 {
+    let layout = Layout::from_size_align_unchecked(size * count, align);
+    if layout.size() == 0 {
+        return alloc_array(size, align, new_count);
+    }
+    realloc(pointer, layout, size * new_count)
+}
+
 unsafe impl Send for Archetype {}
 unsafe impl Sync for Archetype {}
 
@@ -46,22 +84,23 @@ impl Archetype {
             entity_count: 0,
             capacity: 0,
         };
+        archetype.set_dangling_pointers();
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(
-                    size_of::<Entity>() * capacity as usize,
+                archetype.entity_associations = alloc_array(
+                    size_of::<Entity>(),
                     align_of::<Entity>(),
-                );
-                archetype.entity_associations = alloc(layout) as *mut Entity;
+                    capacity as usize,
+                ) as *mut Entity;
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
-                    let layout = Layout::from_size_align_unchecked(
-                        component.size as usize * capacity as usize,
+                    archetype.pointers[index] = alloc_array(
+                        component.size as usize,
                         component.align as usize,
+                        capacity as usize,
                     );
-                    archetype.pointers[index] = alloc(layout);
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
                 archetype.capacity = capacity;
@@ -70,6 +109,14 @@ impl Archetype {
         archetype
     }
 
+    /// Lets all pointers dangle, which is how an archetype without backing memory is represented.
+    fn set_dangling_pointers(&mut self) {
+        self.entity_associations = dangling(align_of::<Entity>()) as *mut Entity;
+        for (index, component) in self.descriptor.components().iter().enumerate() {
+            self.pointers[index] = dangling(component.align as usize);
+        }
+    }
+
     pub fn descriptor(&self) -> &ArchetypeDescriptor {
         &self.descriptor
     }
-- 
2.43.0


From 62dfed02930d558eb3ef45176351d94e1f127fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 11/15] fix: a panicking component destructor left a destroyed
 entity alive

Its components stayed reachable after having been dropped and were dropped again.
---
 src/archetype/data_access.rs | 5 +++--
 src/registry/registry.rs     | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index b3b1157..4407717 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -313,13 +313,14 @@ impl Archetype {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
             // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // The count is updated first, as dropping may panic and must not be repeated then.
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 034eb85..2d96610 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -51,7 +51,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -62,9 +62,11 @@ impl Registry {
                     .unwrap()
                     .set_index_in_archetype(index_in_archetype);
             }
+            let _v = self.entities.destroy_entity(entity);
+            debug_assert!(_v);
+            // Dropping the components may panic, so it is done when everything else is consistent.
+            archetype.swap_drop_unchecked(archetype.len() - 1);
         };
-        let _v = self.entities.destroy_entity(entity);
-        debug_assert!(_v);
         true
     }
 
-- 
2.43.0


From d3fd2eb9b453f7dffb854af08657f5dfb907cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 12/15] fix: component sets whose archetype ids collide were
 treated as the same archetype

The id is a 32-bit hash; a collision stored entities in columns of other types.
---
 src/archetype_registry/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 5548490..a15ffa2 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,34 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the sorted mappings for the archetype of a valid descriptor.
+    /// Returns the insertion index as error if it does not exist.
+    /// Archetype ids are hashes, so different archetypes may share one. These are told apart
+    /// by their components.
+    fn search_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Result<usize, usize> {
+        let type_ids = |descriptor: &'_ ArchetypeDescriptor| -> [u16; MAX_COMPONENTS_PER_ENTITY] {
+            let mut type_ids = [0; MAX_COMPONENTS_PER_ENTITY];
+            for (id, component) in type_ids.iter_mut().zip(descriptor.components()) {
+                *id = component.component_type_id().into_u16();
+            }
+            type_ids
+        };
+        self.sorted_mappings[archetype_descriptor.len() as usize - 1].binary_search_by(|e| {
+            e.id.cmp(&archetype_descriptor.archetype_id())
+                .then_with(|| {
+                    let archetype = &self.archetypes[e.archetype_index as usize];
+                    type_ids(archetype.descriptor()).cmp(&type_ids(archetype_descriptor))
+                })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_archetype(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +113,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_archetype(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +186,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_archetype(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
-- 
2.43.0


From fdcef31491e6dece84cfa93a5714a244f4ee9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 13/15] fix: component sets hashing to the invalid archetype id
 were refused

---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e588df7..a60469a 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let id = ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())));
+        if !id.is_valid() {
+            // A valid combination must not be given the invalid id.
+            return ArchetypeId::from_u32(0);
+        }
+        id
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From c5cf6019659d89878b6c65d2a19f8b98bcca0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 14/15] fix: a failing allocation left archetype and entities
 inconsistent

---
 src/archetype/data_access.rs | 80 ++++++++++++++++++++++++++----------
 src/archetype/mod.rs         | 38 ++---------------
 src/registry/registry.rs     | 15 ++++++-
 3 files changed, 75 insertions(+), 58 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 4407717..24ae5e2 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,4 +1,4 @@
-use super::{dealloc_array, realloc_array, Archetype};
+use super::{alloc_array, dealloc_array, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
@@ -414,7 +414,7 @@ impl Archetype {
     /// deallocates all memory.
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
-    /// - Panics if resizing fails for whatever reason. This leaves the archetype in an undefined state.
+    /// - Panics if allocating memory fails. This leaves the archetype as it was.
     /// - Deallocates if the new capacity is smaller or equal to zero.
     /// - Deallocates if the new capacity exceeds [`MAX_ENTITIES_PER_ARCHETYPE`]. TODO: This is weird?
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
@@ -424,30 +424,67 @@ impl Archetype {
             self.dealloc();
             return;
         }
+        let old_capacity = old_capacity as usize;
         let new_capacity = new_capacity as usize;
 
-        self.entity_associations = realloc_array(
-            self.entity_associations as *mut u8,
+        // Allocate everything before changing anything, so a failure leaves the archetype as is.
+        let component_count = self.descriptor.len() as usize;
+        let new_entity_associations = alloc_array(
             size_of::<Entity>(),
             align_of::<Entity>(),
-            old_capacity as usize,
             new_capacity,
-        ) as *mut Entity;
-        assert_ne!(self.entity_associations, core::ptr::null_mut());
-        for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
-            .enumerate()
-        {
-            let component_type = &self.descriptor.components()[index];
-            *pointer = realloc_array(
-                *pointer,
-                component_type.size as usize,
-                component_type.align as usize,
-                old_capacity as usize,
-                new_capacity,
+        );
+        let mut failed = new_entity_associations.is_null();
+        let mut new_pointers = [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY];
+        for (index, component) in self.descriptor.components().iter().enumerate() {
+            if !failed {
+                new_pointers[index] = alloc_array(
+                    component.size as usize,
+                    component.align as usize,
+                    new_capacity,
+                );
+                failed = new_pointers[index].is_null();
+            }
+        }
+        if failed {
+            for (index, component) in self.descriptor.components().iter().enumerate() {
+                if !new_pointers[index].is_null() {
+                    dealloc_array(
+                        new_pointers[index],
+                        component.size as usize,
+                        component.align as usize,
+                        new_capacity,
+                    );
+                }
+            }
+            if !new_entity_associations.is_null() {
+                dealloc_array(
+                    new_entity_associations,
+                    size_of::<Entity>(),
+                    align_of::<Entity>(),
+                    new_capacity,
+                );
+            }
+            panic!("Failed to allocate memory for an archetype!");
+        }
+
+        // Move the data into the new arrays.
+        let count = old_capacity.min(new_capacity);
+        core::ptr::copy_nonoverlapping(
+            self.entity_associations as *const u8,
+            new_entity_associations,
+            size_of::<Entity>() * count,
+        );
+        for (index, component) in self.descriptor.components().iter().enumerate() {
+            core::ptr::copy_nonoverlapping(
+                self.pointers[index] as *const u8,
+                new_pointers[index],
+                component.size as usize * count,
             );
-            assert_ne!(*pointer, core::ptr::null_mut());
         }
+        self.dealloc();
+        self.entity_associations = new_entity_associations as *mut Entity;
+        self.pointers[0..component_count].copy_from_slice(&new_pointers[0..component_count]);
         self.capacity = new_capacity as u32;
     }
 
@@ -493,8 +530,9 @@ impl Archetype {
         pointers
     }
 
-    /// Resizes the backing memory by the default amount if necessary.
-    unsafe fn resize_if_necessary(&mut self) {
+    /// Resizes the backing memory if it is full, so that another entity fits.
+    /// Panics if allocating memory fails. This leaves the archetype as it was.
+    pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
             let remaining_capacity = MAX_ENTITIES_PER_ARCHETYPE - self.capacity();
             assert_ne!(remaining_capacity, 0);
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 7d259be..362c2eb 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,8 +1,8 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, dealloc, realloc, Layout};
-use core::mem::{align_of, size_of};
+use alloc::alloc::{alloc, dealloc, Layout};
+use core::mem::align_of;
 
 mod data_access;
 #[cfg(test)]
@@ -40,21 +40,6 @@ unsafe fn dealloc_array(pointer: *mut u8, size: usize, align: usize, count: usiz
     }
 }
 
-/// Resizes an array that was allocated using [`alloc_array`], returns null if that fails.
-unsafe fn realloc_array(
-    pointer: *mut u8,
-    size: usize,
-    align: usize,
-    count: usize,
-    new_count: usize,
-) -> *mut u8 {
-    let layout = Layout::from_size_align_unchecked(size * count, align);
-    if layout.size() == 0 {
-        return alloc_array(size, align, new_count);
-    }
-    realloc(pointer, layout, size * new_count)
-}
-
 unsafe impl Send for Archetype {}
 unsafe impl Sync for Archetype {}
 
@@ -87,24 +72,7 @@ impl Archetype {
         archetype.set_dangling_pointers();
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
-            unsafe {
-                archetype.entity_associations = alloc_array(
-                    size_of::<Entity>(),
-                    align_of::<Entity>(),
-                    capacity as usize,
-                ) as *mut Entity;
-                assert_ne!(archetype.entity_associations, core::ptr::null_mut());
-
-                for (index, component) in archetype.descriptor.components().iter().enumerate() {
-                    archetype.pointers[index] = alloc_array(
-                        component.size as usize,
-                        component.align as usize,
-                        capacity as usize,
-                    );
-                    assert_ne!(archetype.pointers[index], core::ptr::null_mut());
-                }
-                archetype.capacity = capacity;
-            }
+            unsafe { archetype.resize_capacity(capacity as isize) };
         }
         archetype
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 2d96610..f60b376 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -33,6 +33,11 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
+        if !self.entities.can_register_new_entity() {
+            return Err(components);
+        }
+        // Allocating may panic, so it is done before anything is changed.
+        unsafe { archetype.resize_if_necessary() };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
@@ -247,6 +252,10 @@ impl Registry {
             None => return Err(component),
         };
 
+        // Make space in the destination archetype.
+        // Allocating may panic, so it is done before anything is changed.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -260,7 +269,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
             destination_archetype.push_uninitialized_entity();
 
             // copy from end to end.
@@ -315,6 +323,10 @@ impl Registry {
             None => return Err(()),
         };
 
+        // Make space in the destination archetype.
+        // Allocating may panic, so it is done before anything is changed.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -328,7 +340,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
             destination_archetype.push_uninitialized_entity();
 
             // copy from end to end.
-- 
2.43.0


From 5c48064a96322d65f2299519757580e4028e58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:15 +0000
Subject: [PATCH 15/15] fix: reject components whose size or alignment does not
 fit a descriptor

Sizes and alignments were truncated to u16, so that safe code storing a
larger component read and wrote out of bounds.
---
 src/descriptors/component_descriptor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/component_descriptor.rs b/src/descriptors/component_descriptor.rs
index 6650898..c67565e 100644
--- a/src/descriptors/component_descriptor.rs
+++ b/src/descriptors/component_descriptor.rs
@@ -6,7 +6,16 @@ use crate::Component;
 
 #[macro_export]
 macro_rules! define_component_descriptor {
-    ($item:ident) => {
+    ($item:ident) => {{
+        // Sizes and alignments are stored as u16, larger ones must be rejected instead of truncated.
+        assert!(
+            core::mem::size_of::<$item>() <= u16::MAX as usize,
+            "the size of a component must not exceed u16::MAX"
+        );
+        assert!(
+            core::mem::align_of::<$item>() <= u16::MAX as usize,
+            "the alignment of a component must not exceed u16::MAX"
+        );
         ComponentDescriptor {
             component_type_id: $item::ID,
             size: core::mem::size_of::<$item>() as u16,
@@ -15,7 +24,7 @@ macro_rules! define_component_descriptor {
                 drop_handler: ComponentDescriptor::drop_handler_wrapper::<$item>,
             },
         }
-    };
+    }};
 }
 
 #[macro_export]
-- 
2.43.0

