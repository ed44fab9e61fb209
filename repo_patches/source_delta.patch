From 9f2c5b158c66dfbab0dd632a42ec2a3563b2095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 01/21] fix: Vector::append/assign must not drop uninitialized
 slots or leak the old tail

---
 src/vector/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..93e0e93 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -284,10 +284,13 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // write the clones into the unused slots one by one, so that only initialized
+        // elements are ever counted
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -301,10 +304,11 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(buf.len() - self.capacity());
         }
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
-        }
+        // drop the old elements, and then append to the now empty vector
+        let old_elems: *mut [T] = self.as_slice_mut();
+        self.end_ptr = self.begin_ptr;
+        unsafe { std::ptr::drop_in_place(old_elems) };
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From e88cd94da71bc18b4b17189918e6c4116989e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 02/21] fix: Deque::drop must free the last subarray

---
 src/deque/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..466be4c 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -445,7 +445,8 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    // the subarray of the end iterator is always allocated too
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From 954066bb1307bec167d6d474670a374d37fdd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 03/21] fix: HashTable must free its bucket array on rehash and
 drop

---
 src/internal/hash_table/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..cb3939f 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -347,6 +347,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array itself, unless it is the shared empty one
+    fn free_bucket_array(&mut self) {
+        if self.bucket_count > 1 {
+            // the sentinel follows the buckets
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, (self.bucket_count + 1) as usize)
+            }
+        }
+    }
+
     /// Inserts a key-value pair into the hash-table.
     ///
     /// # Arguments
@@ -413,6 +424,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             });
         // free the old buckets before setting new ones
         self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -431,6 +443,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From b2c73874ae24b49584b506dc6e074c44e3df6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 04/21] fix: List must free its nodes with the layout they were
 allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From e53396d5a15f07c1e45e03b07f7dd19a9eb44411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 05/21] fix: HashSet::insert must return true when the key was
 not present

---
 src/hash_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From c6842c672a50360656445c5e39037cb07e77716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 06/21] fix: String must stay null-terminated after remove,
 reserve and with_capacity

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..115863a 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // null terminate
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -156,7 +161,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -167,7 +177,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // null terminate
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From ed4948aa60941c6a73d03ec22e5a43c1655c882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 07/21] fix: String::assign must replace the old text

---
 src/string/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 115863a..197d689 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -81,7 +81,7 @@ impl<A: Allocator> String<A> {
         self.reserve(buf.as_ref().len());
 
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From 21be171d7976a6b5ce32f88df331c3ff85160171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 08/21] fix: String must store and remove whole characters, not
 truncated bytes

---
 src/string/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 197d689..7ce309a 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -128,7 +128,12 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.chars().next_back();
+
+        // remove the full encoding of the character
+        for _ in 0..elem.map_or(0, char::len_utf8) {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -145,7 +150,12 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(self.is_char_boundary(index), "index out of bounds");
+
+        // store the full encoding of the character
+        for (offset, byte) in elem.encode_utf8(&mut [0; 4]).bytes().enumerate() {
+            self.vec.insert(index + offset, byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -161,7 +171,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
+            let elem = self[index..].chars().next();
+
+            // remove the full encoding of the character
+            for _ in 0..elem.map_or(0, char::len_utf8) {
+                self.vec.remove(index);
+            }
 
             // null terminate
             unsafe { self.null_terminate() }
-- 
2.43.0


From c6d6afd039d1d8a6eb05aec6103beaec7375857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 09/21] fix: clearing a Map or Set must drop its entries and
 leave it empty

---
 src/internal/rb_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..c436e0c 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,13 +259,22 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop the key and value, and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(&mut root.pair);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
     fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
+        let root = self.parent;
+        // the tree is empty from here on
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
+        if let Some(node) = unsafe { root.as_mut() } {
             self.free_tree(node)
         }
     }
-- 
2.43.0


From 4735d3560eb661a21383a11e0b2dd208979af391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 10/21] fix: a block right after the pool belongs to the
 overflow allocator

---
 src/fixed_pool/with_overflow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6f32ba2 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,7 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From 2a55bf942e2c844c2e5d30f292d0a2ef093e9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 11/21] fix: moving a FixedVector must not read or drop the
 uninitialized destination

---
 src/fixed_vector/mod.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..76ab9ab 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -9,7 +9,7 @@ use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
 use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +64,25 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let src = Pin::into_inner_unchecked(src);
+        let overflowed = src.has_overflowed();
+        let len = src.base_vec.len();
+        // `this` is uninitialized, so move everything over (allocator included), leaving nothing
+        // to drop in `src`
+        let this = this
+            .get_unchecked_mut()
+            .write(MoveRef::into_inner(src));
+        if !overflowed {
+            // We haven't overflowed, so the elements moved along with the buffer and the base vec
+            // pointers have to point to it
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // We have overflowed - the base vec pointers are still right, but the pool moved
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From f46baab9ee914b249afdd06b587f1c0cdb0bed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 12/21] fix: clearing a FixedVector must give it its inline
 storage back

---
 src/fixed_vector/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 76ab9ab..c7a1c6d 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -42,6 +42,12 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
         })
     }
 
+    /// Clears all of the contents, going back to the fixed storage
+    pub fn clear(&mut self) {
+        self.base_vec.clear();
+        self.init_base_vec();
+    }
+
     fn init_base_vec(&mut self) {
         self.base_vec.begin_ptr = self.buffer[0].as_mut_ptr();
         self.base_vec.end_ptr = self.buffer[0].as_mut_ptr();
-- 
2.43.0


From 4fc5152e3fa19877a924929def97a88ec9c6f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 13/21] fix: Vector::clear must not leave dropped elements
 reachable if a drop panics

---
 src/vector/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 93e0e93..f943a17 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -87,20 +87,23 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
 
     /// Clears all of the contents
     pub fn clear(&mut self) {
-        if !self.begin_ptr.is_null() {
+        let begin_ptr = self.begin_ptr;
+        let capacity = self.capacity();
+        let elems: *mut [T] = self.as_slice_mut();
+
+        // reset our contents first, so that dropped elements are not reachable if a drop panics
+        self.begin_ptr = std::ptr::null_mut();
+        self.end_ptr = std::ptr::null_mut();
+        self.capacity_ptr = std::ptr::null_mut();
+
+        if !begin_ptr.is_null() {
             unsafe {
                 // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                std::ptr::drop_in_place(elems);
                 // free the array
-                self.allocator
-                    .deallocate::<T>(self.begin_ptr, self.capacity())
+                self.allocator.deallocate::<T>(begin_ptr, capacity)
             }
         }
-
-        // reset our contents
-        self.begin_ptr = std::ptr::null_mut();
-        self.end_ptr = std::ptr::null_mut();
-        self.capacity_ptr = std::ptr::null_mut();
     }
 
     /// Returns true if the vector is empty
-- 
2.43.0


From 3606a24e7251687331b8ad2c4c933038f6d91e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 14/21] fix: List::clear must not leave dropped values
 reachable if a drop panics

---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..07edc14 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -72,6 +72,9 @@ impl<T, A: Allocator> List<T, A> {
     /// Remove all elements from this list
     pub fn clear(&mut self) {
         let mut next = self.node.next;
+        // detach the nodes first, so that dropped values are not reachable if a drop panics
+        self.init_sentinel_node();
+        self.size = 0;
         unsafe {
             while next != &mut self.node {
                 let to_drop = next;
@@ -83,8 +86,6 @@ impl<T, A: Allocator> List<T, A> {
                 self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
-        self.init_sentinel_node();
-        self.size = 0;
     }
 
     /// If the list is empty or not
-- 
2.43.0


From d19ecb98652eba37661f4c6d61bac3d6d55dafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 15/21] fix: clearing a HashTable must not leave dropped
 entries reachable if a drop panics

---
 src/internal/hash_table/mod.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index cb3939f..55b5541 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -318,16 +318,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: &mut *mut Node<K, V>) {
+        while let Some(node) = unsafe { bucket.as_mut() } {
+            // unlink the node first, so that it is not reachable if a drop panics
+            *bucket = node.next;
+            self.element_count -= 1;
+            // drop and free our node
+            unsafe {
+                std::ptr::drop_in_place(node as *mut Node<K, V>);
+                self.allocator.deallocate(node, 1)
+            }
         }
     }
 
@@ -339,11 +340,9 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             let buckets = unsafe {
                 std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
             };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
+            for bucket in buckets {
                 self.free_bucket(bucket)
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From 6ffced95efcad1623d4c61a08ba3cd5eced97715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:46 +0000
Subject: [PATCH 16/21] hook: re-export the fixed pools for verification
 harnesses (cfg eastl_verif)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4aaeb16..c5f8135 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// `eastl_verif` is set by external verification harnesses only
+#![allow(unexpected_cfgs)]
 // for `FixedList`
 #![cfg_attr(feature = "nightly", allow(incomplete_features))]
 #![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
@@ -39,3 +41,10 @@ pub use set::Set;
 pub use string::{DefaultString, String};
 pub use vector::{DefaultVector, Vector};
 pub use vector_map::{DefaultVectorMap, VectorMap};
+
+/// Re-exports of private items for external verification harnesses.
+#[cfg(eastl_verif)]
+pub mod verif {
+    pub use crate::fixed_pool::with_overflow::FixedPoolWithOverflow;
+    pub use crate::fixed_pool::{FixedPool, PoolAllocator};
+}
-- 
2.43.0


From 0fd6b20229992f3c38b5c28519dc3f3fb19e9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 17/21] fix: remove the import left unused by the FixedVector
 move repair

---
 src/fixed_vector/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index c7a1c6d..1fcda61 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,7 +8,6 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
 use std::ptr;
 
 mod allocator;
-- 
2.43.0


From 7fa03e1afed85026988f70b57df4b3b412fee3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:54 +0000
Subject: [PATCH 18/21] fix: a region too small for its alignment must make an
 empty pool, not underflow

---
 src/fixed_pool/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixed_pool/mod.rs b/src/fixed_pool/mod.rs
index dc101b3..ae7fe25 100644
--- a/src/fixed_pool/mod.rs
+++ b/src/fixed_pool/mod.rs
@@ -64,7 +64,8 @@ impl<Node: Sized> PoolAllocator for FixedPool<Node> {
 
         let next = (memory.as_ptr() as usize + (node_align - 1)) & !(node_align - 1);
         // chop off any bytes consumed by alignment requirements
-        memory_size -= next - memory.as_ptr() as usize;
+        // (there may be fewer bytes than that, in which case nothing fits)
+        memory_size = memory_size.saturating_sub(next - memory.as_ptr() as usize);
 
         // this isn't really a valid case, but we'll add a debug check anyway
         debug_assert!(node_size >= mem::size_of::<Link>());
-- 
2.43.0


From 28db7583f5777340c8c82ec56e940dd2a1be6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 19/21] fix: C strings must hash their bytes, not a lossy UTF-8
 conversion

---
 src/hash.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..22f6b29 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -97,12 +97,12 @@ impl Hash<bool> for DefaultHash<bool> {
 ///
 /// # Arguments
 ///
-/// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+/// `str`: The bytes of the string to hash
+fn fnv1<S: AsRef<[u8]>>(str: S) -> usize {
     let mut res: u32 = 2166136261;
     str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+        .iter()
+        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (*c as u32));
     res as usize
 }
 
@@ -120,7 +120,8 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        // C strings are not necessarily UTF-8, so hash their very bytes
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From 610ad3d5315edd31c4cc36cba8bfb60c9c0e6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 20/21] fix: a hash that panics during a rehash must not lose
 or misplace entries

---
 src/internal/hash_table/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 55b5541..70a04e9 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -396,6 +396,12 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_count`: The desired bucket count
     fn rehash(&mut self, bucket_count: u32) {
+        // hash every key before any node is moved, so that a panic leaves the table as it was
+        let mut new_indices = self
+            .iter()
+            .map(|(key, _)| Self::bucket_index(bucket_count, key))
+            .collect::<Vec<_>>()
+            .into_iter();
         let new_buckets = unsafe {
             // allocate space for the sentinel
             std::slice::from_raw_parts_mut(
@@ -413,7 +419,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             .for_each(|bucket_node_ref| {
                 let mut bucket_node = *bucket_node_ref;
                 while let Some(node) = unsafe { bucket_node.as_mut() } {
-                    let new_index = Self::bucket_index(bucket_count, node.key());
+                    let new_index = new_indices.next().unwrap();
                     let next_node = node.next;
                     node.next = new_buckets[new_index];
                     new_buckets[new_index] = node as *mut Node<K, V>;
-- 
2.43.0


From 97da2ece9837202e5b80a44bc53d8b17d4f329b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:15 +0000
Subject: [PATCH 21/21] fix: tree iteration must not treat the anchor as a
 whole node

The anchor holds only the links of a node. References to it as a node read
past the map and are misaligned when keys or values are over-aligned.
---
 src/internal/rb_tree/node.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/internal/rb_tree/node.rs b/src/internal/rb_tree/node.rs
index 0f36fe1..4352fb3 100644
--- a/src/internal/rb_tree/node.rs
+++ b/src/internal/rb_tree/node.rs
@@ -192,16 +192,16 @@ impl<K, V> Node<K, V> {
         old_right
     }
 
-    /// Returns the next node in the tree, in increasing order.
-    ///
-    /// # Safety
-    /// This method returns
+    /// Returns the next node in the tree, in increasing order. The last node is followed
+    /// by the tree's anchor, which consists of the links of a node without its pair, so
+    /// it need not be aligned like a node and must not be dereferenced as one.
     #[duplicate_item(
-        next        Self        Node;
-        [next]      [Self]      [Node];
-        [next_mut]  [mut Self]  [mut Node]
+        next        Self        Ptr;
+        [next]      [Self]      [*const Node<K, V>];
+        [next_mut]  [mut Self]  [*mut Node<K, V>]
     )]
-    pub fn next(mut self: &Self) -> &Node<K, V> {
+    #[allow(clippy::needless_arbitrary_self_type)]
+    pub fn next(self: &Self) -> Ptr {
         if let Some(mut right_node) = unsafe { self.right.as_mut() } {
             // the successor lies in the right subtree. find the smallest value in the greater
             // subtree, which is the left-most node.
@@ -215,20 +215,21 @@ impl<K, V> Node<K, V> {
             // parent's left node (meaning the parent is the first node greater than the node)
             // safety: the parent of a node is always present, because the parent of the root node
             // is inside the tree itself
-            let mut parent = unsafe { &mut *self.parent.ptr() };
-            while ptr::eq(self as *const _, parent.right as *const _) {
-                let parent_parent = unsafe { &mut *parent.parent.ptr() };
-                self = parent;
+            let mut node = self as *const _ as *mut _;
+            let mut parent = self.parent.ptr();
+            while ptr::eq(node, unsafe { *ptr::addr_of!((*parent).right) }) {
+                let parent_parent = unsafe { (*ptr::addr_of!((*parent).parent)).ptr() };
+                node = parent;
                 parent = parent_parent;
             }
 
             // I have deliberated on this and truly have no clue why we are doing this, but it works
             // and is how it is originally implemented
-            if !ptr::eq(self.right, parent) {
-                self = parent;
+            if !ptr::eq(unsafe { *ptr::addr_of!((*node).right) }, parent) {
+                node = parent;
             }
 
-            self
+            node
         }
     }
 
-- 
2.43.0

