From 5f8e9c352a1cd60348958375bb593953220cd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/14] fix: DenseTree::remove of a 1-level tree read past an
 empty branch and freed the root

---
 src/dense_tree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..d7a800d 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,12 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            let terminal_node = if DEPTH == 1 {
+                // There is no branch - root is a terminal node.
+                &self.root
+            } else {
+                branch.as_ref().last().unwrap_unchecked()
+            };
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +246,9 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                /*const*/ if DEPTH != 1 /*don't touch root*/ 
+                    && terminal_node.header().len() == 1 /* TODO: unlikely */ 
+                {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From eb17a86918df52603d50f9e9c2afc5780d0c545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 02/14] fix: NodePtr::from_parts did not count the trailing
 empty child in len

---
 src/dense_tree/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..aa6e970 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,8 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        // + empty_child
+        addr_of_mut!((*node).len).write(cap);
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 5fa64e703b90ac15a5d8a38a090e82928970def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 03/14] fix: results of node alloc/realloc were not checked for
 null

---
 src/dense_tree/node.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index aa6e970..f565337 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -1,4 +1,4 @@
-use std::alloc::{alloc, dealloc, Layout, realloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout, realloc};
 use std::{mem, ptr};
 use std::mem::{align_of, MaybeUninit, size_of};
 use std::ops::ControlFlow;
@@ -189,10 +189,21 @@ impl NodePtr {
         }
     }
     
+    /// Allocated memory is uninitialized. 
+    #[inline]
+    unsafe fn alloc_node<T: NodeChild>(cap: u8) -> *mut NodeHeader {
+        let layout = Self::layout::<T>(cap);
+        let node = alloc(layout) as *mut NodeHeader;
+        if node.is_null() {
+            handle_alloc_error(layout);
+        }
+        node
+    }
+    
     #[inline]
     pub fn new<T: NodeChild>(cap: u8, empty_child: T) -> Self {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(Mask::default());
             debug_assert!(cap>=1);
@@ -215,7 +226,7 @@ impl NodePtr {
     ) -> Self {
         let len = childs.len();
         let cap = (len + 1) as u8; 
-        let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+        let node = Self::alloc_node::<T>(cap);
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
@@ -240,7 +251,7 @@ impl NodePtr {
     #[inline]
     pub fn raw_new<T: NodeChild>(cap: u8, mask: Mask) -> MaybeUninit<Self> {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(mask);
             addr_of_mut!((*node).capacity).write(cap);
@@ -307,11 +318,15 @@ impl NodePtr {
             let capacity = node.capacity;
             if node.len == capacity {
                 let new_capacity = capacity * 2;
+                let new_layout = Self::layout::<T>(new_capacity);
                 let new_ptr= realloc(
                     self.0.as_ptr() as *mut u8,
                     Self::layout::<T>(capacity),
-                    Self::layout::<T>(new_capacity).size(),
+                    new_layout.size(),
                 ) as *mut NodeHeader;
+                if new_ptr.is_null() {
+                    handle_alloc_error(new_layout);
+                }
                 (*new_ptr).capacity = new_capacity; 
                 self.0 = NonNull::new_unchecked(new_ptr);
             }
-- 
2.43.0


From 76c6148ac12c78e5219dc83f5a505b0c81686228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 04/14] fix: child indices of full width_256 nodes wrapped
 around to 0

---
 src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..b51dd3b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,9 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // Index 0 is reserved for the empty block, so 256 (65536) child indices
+    // do not fit u8 (u16).
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
-- 
2.43.0


From 5228cc282471d8a737998e3e953daab9b0cbd0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 05/14] fix: index_range() overflowed for width_256::depth_8

---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From c5c0e4f10b6b03a823589f74519697870258121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 06/14] fix: SparseTree::default dropped an uninitialized value
 if Data::default() panicked

---
 src/sparse_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..0429a9a 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -75,11 +75,12 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
+            // May panic, so must go before set_len().
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
         }
+        unsafe{ values.set_len(1); }
         
         Self{
             levels: Levels::default(),
-- 
2.43.0


From 3d494b682193609da7b5026fc2362a4fe7770d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 07/14] fix: values were dropped twice (and nodes leaked) if a
 value's drop panicked while its tree was dropped

---
 src/dense_tree.rs  | 9 +++++----
 src/sparse_tree.rs | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index d7a800d..a9b5453 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -317,16 +317,17 @@ where
     
     #[inline]
     unsafe fn drop_impl(&mut self){
+        // drop node hierarchy
+        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>();
+        
         // drop values
         let slice = ptr::slice_from_raw_parts_mut(
             self.data.as_mut_ptr().add(1), 
             self.data.len() - 1
         ); 
-        ptr::drop_in_place(slice);
+        // Value drop may panic. Vec must not drop values again in that case.
         self.data.set_len(0);
-        
-        // drop node hierarchy
-        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
+        ptr::drop_in_place(slice);
     }
 }
 
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 0429a9a..c84c725 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -527,8 +527,9 @@ where
             self.values.as_mut_ptr().add(skip_first as usize), 
             self.values.len() - skip_first as usize
         ); 
-        ptr::drop_in_place(slice);
+        // Value drop may panic. Vec must not drop values again in that case.
         self.values.set_len(0);
+        ptr::drop_in_place(slice);
     }
 }
 
-- 
2.43.0


From 2ee909cda0ae70d43c94c655d1eb56fa54335701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/14] fix: a panicking Default left empty nodes in the tree
 after get_or_insert

---
 src/dense_tree.rs  | 17 +++++++++++++++--
 src/sparse_tree.rs | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index a9b5453..cace44c 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -124,6 +124,11 @@ where
     ) -> &mut T {
         let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
         
+        // `value_fn` may panic, so for a non-existent element it must be called 
+        // before the first change of the tree.
+        let mut value_fn = Some(value_fn);
+        let mut value: Option<T> = None;
+        
         // get terminal node pointing to data
         let mut node = &mut self.root;
         const_loop!(N in 0..{DEPTH-1} => {
@@ -133,6 +138,10 @@ where
                 /*child*/ node = if node_ptr.header().contains(inner_index) {
                     node_ptr.get_child_mut(inner_index)
                 } else {
+                    if value.is_none() {
+                        value = Some((value_fn.take().unwrap_unchecked())());
+                    }
+                    
                     // TODO: insert node with already inserted ONE element 
                     //       all down below. And immediately exit loop?
                     //       BENCHMARK change.
@@ -160,12 +169,16 @@ where
             let data_index = if node_ptr.header().contains(inner_index) {
                 let data_index = node_ptr.get_child::<DataIndex>(inner_index).as_usize();
                 /*const*/ if insert.value(){
-                    *self.data.get_unchecked_mut(data_index) = value_fn();                     
+                    *self.data.get_unchecked_mut(data_index) = (value_fn.take().unwrap_unchecked())();
                 }
                 data_index
             } else {
                 let i = self.data.len(); 
-                self.data.push(value_fn());
+                let value = match value {
+                    Some(value) => value,
+                    None => (value_fn.take().unwrap_unchecked())()
+                };
+                self.data.push(value);
                 self.keys.push(index);
                 let (_, new_node) = node_ptr.insert(inner_index, i as DataIndex);
                 *node = new_node;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index c84c725..077f4c8 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -399,6 +399,11 @@ where
         let level_indices = crate::level_indices::<Levels::Mask, Levels::LevelCount>(index);
         let last_level_inner_index = unsafe{ *level_indices.as_ref().last().unwrap_unchecked() };
         
+        // `value_fn` may panic, so for a non-existent element it must be called 
+        // before the first change of the tree.
+        let mut value_fn = Some(value_fn);
+        let mut value: Option<Data> = None;
+        
         let mut level_block_index = 0;
         const_loop!(LEVEL_INDEX in 0..{<Levels::LevelCount as ConstInteger>::Dec::VALUE} => {
             let level_index = ConstUsize::<LEVEL_INDEX>;
@@ -408,6 +413,10 @@ where
                 block.get_child(inner_index) 
             };
             level_block_index = if next_level_block_index.is_zero() {
+                if value.is_none() {
+                    value = Some(unsafe{ (value_fn.take().unwrap_unchecked())() });
+                }
+                
                 // 1. Insert new block in next level
                 struct Insert;
                 impl<M> MutVisitor<M> for Insert {
@@ -443,7 +452,11 @@ where
             if data_block_index.is_zero() {
                 let i = self.values.len();
                 
-                self.values.push((value_fn)());
+                let value = match value {
+                    Some(value) => value,
+                    None => (value_fn.take().unwrap_unchecked())()
+                };
+                self.values.push(value);
                 self.keys.push(index);
                 self.last_level_block_indices.push(
                     (level_block_index, last_level_inner_index)
@@ -453,7 +466,7 @@ where
                 i                   
             } else {
                 /*const*/ if insert.value() { 
-                    *self.values.get_unchecked_mut(data_block_index) = (value_fn)();
+                    *self.values.get_unchecked_mut(data_block_index) = (value_fn.take().unwrap_unchecked())();
                 }
                 data_block_index
             }
-- 
2.43.0


From 4421d32cbb622748f40a8813dfaab1d14441a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 09/14] fix: get() of a multi_intersection without sources
 found every key

---
 src/ops/_multi_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..4ab7f30 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -112,6 +112,11 @@ where
                 }
             }
             
+            // No sources - no data.
+            if datas.is_empty(){
+                return None;
+            }
+            
             Some(datas.into_iter())
         }
 
-- 
2.43.0


From 31955742b637878613fcc455d46a161605876a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 10/14] fix: multi_intersection cursor lost data() after
 select_level_node_unchecked()

---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 4ab7f30..df4354e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -429,6 +429,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From e2e11cadf64577953b1545fcf9a245ceda1c7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 11/14] fix: multi_union cursor could not read 1-level trees
 and found absent keys of non-empty nodes

---
 src/ops/_multi_union.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..eb79ae5 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,16 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+/// Used for 1-level trees, where root level is also a terminal one. 
+static ALL_CURSORS: [CursorIndex; N] = {
+    let mut indices = [0; N];
+    let mut i = 0;
+    while i < N {
+        indices[i] = i as CursorIndex;
+        i += 1;
+    }
+    indices
+};
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -134,6 +144,8 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +176,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -180,13 +193,16 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: T::LevelMask = BitBlock::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
             }            
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone();
+            }
             return acc_mask;
         }
         
@@ -218,6 +234,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
@@ -225,16 +245,18 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        // Terminal node mask tells exactly whether any of sources have data here.
+        if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
         
+        let lvl_non_empty_states: &[CursorIndex] = 
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                ALL_CURSORS.get_unchecked(..self.cursors.len())
+            } else {
+                self.lvls_non_empty_states.as_ref().last().unwrap_unchecked()
+            };
+        
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0


From 4cba7e35db567b9becef5c839f42d5a0f6b4753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 12/14] fix: materialize dropped an uninitialized value if a
 callback panicked

---
 src/dense_tree/from.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..fc7e8de 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -1,3 +1,4 @@
+use std::mem;
 use arrayvec::ArrayVec;
 use std::ops::ControlFlow::Continue;
 
@@ -151,10 +152,10 @@ where
 {
     fn from_sparse_hierarchy(other: From) -> Self {
         let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
-        unsafe{ data.set_len(1); }
-        
-        let mut keys = vec![usize::MAX];
+        // If callback panics - `this` will drop all already collected data.
+        let mut this = Self::default();
+        let data = &mut this.data;
+        let keys = &mut this.keys;
         
         let mut push_fn = |index, value| -> DataIndex {
             let i = data.len(); 
@@ -174,6 +175,8 @@ where
                 ).unwrap_unchecked()
             }
         };
-        Self{ root, data, keys }
+        let empty_root = mem::replace(&mut this.root, root);
+        unsafe{ empty_root.drop_node_with_childs::<ConstUsize<0>, DEPTH>(); }
+        this
     }
 }
\ No newline at end of file
-- 
2.43.0


From 9c19483e48c7950b53ec2ba1efad731e62a7340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 13/14] fix: materialize of an empty inexact tree was UB, and
 empty terminal nodes were kept in the result

---
 src/dense_tree/from.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index fc7e8de..29a7036 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -111,6 +111,10 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        if mask.is_zero() {
+            return None;
+        }
+        
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
@@ -166,17 +170,20 @@ where
 
         let root = unsafe {
             if <From as HibitTree>::EXACT_HIERARCHY {
-                from_exact_sparse_hierarchy(
+                Some(from_exact_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                )
+                ))
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                )
             }
         };
-        let empty_root = mem::replace(&mut this.root, root);
-        unsafe{ empty_root.drop_node_with_childs::<ConstUsize<0>, DEPTH>(); }
+        // `None` - `other` is empty. 
+        if let Some(root) = root {
+            let empty_root = mem::replace(&mut this.root, root);
+            unsafe{ empty_root.drop_node_with_childs::<ConstUsize<0>, DEPTH>(); }
+        }
         this
     }
 }
\ No newline at end of file
-- 
2.43.0


From 193d88feda75d512275003eb40a01b3bb16fa094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 14/14] fix: nodes of a partially built tree leaked if a
 callback panicked during materialize

---
 src/dense_tree/from.rs | 65 +++++++++++++++++++++++++++++++++---------
 src/dense_tree/node.rs | 18 ++++++++++++
 2 files changed, 70 insertions(+), 13 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 29a7036..124814a 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -1,4 +1,6 @@
+use std::marker::PhantomData;
 use std::mem;
+use std::mem::MaybeUninit;
 use arrayvec::ArrayVec;
 use std::ops::ControlFlow::Continue;
 
@@ -25,8 +27,34 @@ fn block_start<S: HibitTree, N: ConstInteger>(index: usize) -> usize {
     )
 }
 
+/// Deallocates not finalized N'th level node, if its building was interrupted
+/// by a panic. 
+struct RawNodeGuard<N: ConstInteger, const DEPTH: usize>(
+    MaybeUninit<NodePtr>, PhantomData<N>
+);
+impl<N: ConstInteger, const DEPTH: usize> Drop for RawNodeGuard<N, DEPTH>{
+    #[inline]
+    fn drop(&mut self) {
+        unsafe{ NodePtr::raw_drop_with_childs::<N, DEPTH>(self.0); }
+    }
+}
+
+/// Deallocates childs of N'th level node, if its building was interrupted 
+/// by a panic.
+struct ChildsGuard<N: ConstInteger, const DEPTH: usize>(
+    ArrayVec<NodePtr, {Mask::SIZE}>, PhantomData<N>
+);
+impl<N: ConstInteger, const DEPTH: usize> Drop for ChildsGuard<N, DEPTH>{
+    #[inline]
+    fn drop(&mut self) {
+        for child in &self.0 {
+            unsafe{ child.drop_node_with_childs::<N::Inc, DEPTH>(); }
+        }
+    }
+}
+
 #[inline]
-unsafe fn make_terminal_node<'src, L, F>(
+unsafe fn make_terminal_node<'src, L, N, F, const DEPTH: usize>(
     other: &'src L,
     other_cursor: &mut <L as HibitTreeTypes<'src>>::Cursor,
     mask: Mask,
@@ -36,9 +64,11 @@ unsafe fn make_terminal_node<'src, L, F>(
 ) -> NodePtr
 where
     L: HibitTree<LevelMask = Mask>,
+    N: ConstInteger,
     F: for<'a> FnMut(usize, CursorData<'src, 'a, L>) -> DataIndex
 {
     let raw_node = NodePtr::raw_new::<DataIndex>(cap, mask);
+    let guard = RawNodeGuard::<N, DEPTH>(raw_node, PhantomData);
     mask.traverse_bits(|index| {
         let data = other_cursor.data_unchecked(other, index);
         let key = key_acc + index; 
@@ -47,11 +77,12 @@ where
         
         Continue(())
     });
+    mem::forget(guard);
     return NodePtr::raw_finalize(raw_node, 0);    
 }
 
 #[inline(always)]
-unsafe fn from_exact_sparse_hierarchy<'src, L, N, F>(
+unsafe fn from_exact_sparse_hierarchy<'src, L, N, F, const DEPTH: usize>(
     other: &'src L,
     other_cursor: &mut <L as HibitTreeTypes<'src>>::Cursor,
     n: N,
@@ -72,15 +103,18 @@ where
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
         // terminal node with data
-        return make_terminal_node(other, other_cursor, mask, cap, key_acc, push_data);
+        return make_terminal_node::<_, N, _, DEPTH>(
+            other, other_cursor, mask, cap, key_acc, push_data
+        );
     }
     
     let mut raw_node = NodePtr::raw_new::<NodePtr>(cap, mask);
+    let guard = RawNodeGuard::<N, DEPTH>(raw_node, PhantomData);
     mask.traverse_bits(|index| {
         // TODO: try calculate key the same in iter. Benchmark.
         // go deeper
         let key_acc = key_acc + block_start::<L, N>(index); 
-        let child_node = from_exact_sparse_hierarchy(
+        let child_node = from_exact_sparse_hierarchy::<_, _, _, DEPTH>(
             other, other_cursor, n.inc(), index, key_acc, push_data
         );
         
@@ -90,12 +124,13 @@ where
         Continue(())
     });
     
+    mem::forget(guard);
     let empty_child = empty_node(n.inc(), L::LevelCount::default());
     NodePtr::raw_finalize(raw_node, empty_child)
 }
 
 #[inline(always)]
-unsafe fn from_sparse_hierarchy<'src, L, N, F>(
+unsafe fn from_sparse_hierarchy<'src, L, N, F, const DEPTH: usize>(
     other: &'src L,
     other_cursor: &mut <L as HibitTreeTypes<'src>>::Cursor,
     n: N,
@@ -118,26 +153,30 @@ where
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
-        return Some(make_terminal_node(other, other_cursor, mask, cap, key_acc, push_data));        
+        return Some(make_terminal_node::<_, N, _, DEPTH>(
+            other, other_cursor, mask, cap, key_acc, push_data
+        ));
     }
     
     let mut node_mask = Mask::zero();
-    let mut childs: ArrayVec<NodePtr, {Mask::SIZE}> = Default::default(); 
+    let mut childs = ChildsGuard::<N, DEPTH>(Default::default(), PhantomData);
     
     mask.traverse_bits(|index| {
         let key_acc = key_acc + block_start::<L, N>(index);
-        if let Some(child_node) = from_sparse_hierarchy(other, other_cursor, n.inc(), index, key_acc, push_data){
+        if let Some(child_node) = from_sparse_hierarchy::<_, _, _, DEPTH>(other, other_cursor, n.inc(), index, key_acc, push_data){
             node_mask.set_bit::<true>(index);
-            childs.push_unchecked(child_node);
+            childs.0.push_unchecked(child_node);
         }
         Continue(())
     });
     
-    if childs.is_empty(){
+    if childs.0.is_empty(){
         None
     } else {
         let empty_child = empty_node(n.inc(), L::LevelCount::default());
-        Some(NodePtr::from_parts(node_mask, childs.as_slice(), empty_child))
+        let node = NodePtr::from_parts(node_mask, childs.0.as_slice(), empty_child);
+        mem::forget(childs);
+        Some(node)
     }
 }
 
@@ -170,11 +209,11 @@ where
 
         let root = unsafe {
             if <From as HibitTree>::EXACT_HIERARCHY {
-                Some(from_exact_sparse_hierarchy(
+                Some(from_exact_sparse_hierarchy::<_, _, _, DEPTH>(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
                 ))
             } else {
-                from_sparse_hierarchy(
+                from_sparse_hierarchy::<_, _, _, DEPTH>(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
                 )
             }
diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index f565337..a1a7ffe 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -301,6 +301,24 @@ impl NodePtr {
         this
     }
     
+    /// Deallocates not finalized node with all its already pushed childs.
+    #[inline]
+    pub unsafe fn raw_drop_with_childs<
+        N: ConstInteger,
+        const LEVELS_COUNT: usize
+    > (this: MaybeUninit<Self>) {
+        let this = this.assume_init();
+        /*const*/ if N::VALUE == LEVELS_COUNT - 1 {
+            this.drop_node::<DataIndex>();
+        } else {
+            for i in 0..this.header().len as usize {
+                let child = *this.children_ptr::<NodePtr>().add(i);
+                child.drop_node_with_childs::<N::Inc, LEVELS_COUNT>();
+            }
+            this.drop_node::<NodePtr>();
+        }
+    }
+    
     /// Returns a new pointer if relocation happened.
     /// 
     /// # Safety
-- 
2.43.0

