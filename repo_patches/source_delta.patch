From 0a1be2c8c6fe7ac8601b0ed4c781359c6b4028ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 01/11] fix: place every node of nested tuples at its own slot
 when subtrees end together

---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From 132e7251888a04420dc13f0227eb25272c0f0f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 02/11] fix: count every RcNode and WeakNode of a piled node as
 a user of its buffer

---
 src/rc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..bda5161 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -114,6 +114,7 @@ impl<T> Clone for RcNode<T> {
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
                     let node = node_vec.as_ref().buf.get_unchecked( *index );
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
@@ -455,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -544,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From 4781afa5bf760251b3e30b831882d6b930b33d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 03/11] fix: postorder_with_size_hint visits a branch after its
 children

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From 8e617484dc517365d8715974bbc542c99556d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 04/11] fix: a walk jumping past the last sibling has no
 current node until it moves up

---
 src/walk.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..68407fc 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -93,8 +93,9 @@ impl<T> Walk<T> {
 
     fn revisit( &mut self ) {
         if self.origin.is_some() {
-            match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
+            match self.path.last() {
+                None => self.path.push( Nodes::sibs( self.origin )),
+                Some( nodes ) if nodes.node == nodes.sentinel => return, // past the last sibling
                 _ => (),
             }
             self.direction = Direction::Down;
@@ -206,10 +207,14 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel { // past the last sibling
+                return None;
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -230,6 +235,9 @@ impl<T> Walk<T> {
     fn to_child( &mut self, n: usize ) -> Option<Visit<T>> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel { // past the last sibling
+                return None;
+            }
             unsafe {
                 let node = nodes.node.unwrap();
                 if node.as_ref().has_no_child() {
-- 
2.43.0


From 3b210c8e5fbad260fc54e44bab1554219b5847b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 05/11] fix: a running IterRc keeps the node it visits next
 alive

---
 src/iter_rc.rs | 25 ++++++++++++++-----------
 src/lib.rs     |  1 -
 src/rc.rs      | 13 ++++++++++++-
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..2669f1b 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::RcNode;
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,34 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    next : Option<RcNode<T>>, // keeps the node to be visited next alive
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        let node = self.next.take()?;
+        self.len -= 1;
+        if self.len > 0 {
+            self.next = node.next_sib();
+            if self.next.is_none() { self.len = 0; }
+        }
+        Some( node )
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { ( self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
+    pub(crate) fn new( next: Option<RcNode<T>>, len: usize ) -> Self {
+        IterRc{ next, len }
     }
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ next: self.next.clone(), len: self.len }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index bda5161..178b584 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -209,6 +209,17 @@ impl<T> RcNode<T> {
         }
     }
 
+    // the next sibling, even if this node is being borrowed mutably.
+    pub(crate) fn next_sib( &self ) -> Option<RcNode<T>> {
+        unsafe {
+            let node = match self {
+                RcNode::Scattered( ScatteredRcNode( rc )) => rc.as_ptr(),
+                RcNode::Piled( PiledRcNode( node_vec, index )) => node_vec.as_ref().buf.get_unchecked( *index ).as_ptr(),
+            };
+            (*node).next.map( |next| next.as_ref().rc() )
+        }
+    }
+
     /// Returns `true` if this `Node` has no child node, otherwise `false`.
     ///
     /// # Examples
@@ -448,7 +459,7 @@ impl<T> RcNode<T> {
         if node.has_no_child() {
             IterRc::new( None, 0 )
         } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
+            IterRc::new( node.front().map( |front| front.rc() ), node.degree() )
         }
     }
 
-- 
2.43.0


From cafe8b2594e123abc490e9ab32f0212e2fc64571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 06/11] fix: RcNode releases all children when dropping one of
 them panics

---
 src/rc.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 178b584..adc6252 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -123,20 +123,34 @@ impl<T> Clone for RcNode<T> {
     }
 }
 
+// Releases all children, the rest of them too when dropping one of them panics.
+struct ReleaseChildren<'a,T>( &'a RcNode<T> );
+
+impl<'a,T> Drop for ReleaseChildren<'a,T> {
+    fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+}
+
+impl<T> RcNode<T> {
+    fn release_children( &self ) {
+        let rest = ReleaseChildren( self );
+        while let Some(_) = rest.0.pop_front() {}
+    }
+}
+
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
         let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    self.release_children();
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    self.release_children();
                 }
             },
         }
-- 
2.43.0


From 0f006d6023fd262f5f8fb31cc3289ff9c92b39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 07/11] fix: count the nodes of a buffer atomically, parts of
 it may be dropped in different threads

---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76d64dd..00689a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{self, AtomicUsize};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..a0d91b3 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index adc6252..680d527 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,25 @@ impl RefCount for Cell<usize> {
     }
 }
 
+// The nodes of a NodeVec may belong to trees which have been sent to different threads by TreeWalk/ForestWalk.
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        #[cfg(      feature = "no_std"  )] use core::usize::MAX;
+        #[cfg( not( feature = "no_std" ))] use  std::usize::MAX;
+        let count = self.fetch_add( 1, atomic::Ordering::Relaxed );
+        if count == 0 || count == MAX {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        match self.fetch_sub( 1, atomic::Ordering::AcqRel ).checked_sub( 1 ) {
+            Some( count ) => count,
+            None => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From e8139f098df61f6032dc0fd40a75cba51353faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 08/11] fix: refuse a breadth-first iteration that contradicts
 its sizes, and count the descendants

---
 src/bfs_impls.rs | 18 ++++++++++++------
 src/node_vec.rs  |  9 +++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..54dc453 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -274,12 +274,12 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
     fn from( tree_iter: BfsTree<Iter> ) -> Self {
         let mut iter = tree_iter.wrap().iter();
         let visit_root = iter.next().unwrap();
-        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants+1);
+        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants.checked_add(1).unwrap());
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
         unsafe {
-            node_vec.as_mut().make_piled_node( None, 0, visit_root.data, visit_root.size );
+            node_vec.as_mut().make_piled_node( None, 0, visit_root.data, Size{ degree, descendants: 0 });
         }
 
         let mut parent  = 0;
@@ -287,8 +287,9 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains != 0 && child < node_cnt, "too many nodes in breadth-first iteration" );
             unsafe {
-                node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
+                node_vec.as_mut().append_child( parent, child, visit.data, Size{ degree: visit.size.degree, descendants: 0 });
             }
             remains -= 1;
             while remains == 0 {
@@ -300,6 +301,8 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
             }
             child += 1;
         }
+        assert!( remains == 0 && child == node_cnt, "too few nodes in breadth-first iteration" );
+        unsafe{ node_vec.as_mut().count_descendants(); }
 
         Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
@@ -322,13 +325,13 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
 {
     fn from( forest_iter: BfsForest<Iter> ) -> Self {
         let (mut iter, size) = forest_iter.wrap().iter_and_size();
-        let (degree, node_cnt) = (size.degree, size.descendants+1);
+        let (degree, node_cnt) = (size.degree, size.descendants.checked_add(1).unwrap());
 
         let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
 
         unsafe {
             let fake_root = Data::PiledNone{ owner: node_vec };
-            node_vec.as_mut().make_node( None, 0, fake_root, size );
+            node_vec.as_mut().make_node( None, 0, fake_root, Size{ degree, descendants: 0 });
         }
 
         let mut parent  = 0;
@@ -336,8 +339,9 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
         let mut remains = degree;
 
         while let Some( visit ) = iter.next() {
+            assert!( remains != 0 && child < node_cnt, "too many nodes in breadth-first iteration" );
             unsafe {
-                node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
+                node_vec.as_mut().append_child( parent, child, visit.data, Size{ degree: visit.size.degree, descendants: 0 });
             }
             remains -= 1;
             while remains == 0 {
@@ -349,6 +353,8 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
             }
             child += 1;
         }
+        assert!( remains == 0 && child == node_cnt, "too few nodes in breadth-first iteration" );
+        unsafe{ node_vec.as_mut().count_descendants(); }
 
         Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
     }
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a0d91b3..e53ce43 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -64,6 +64,15 @@ impl<T> NodeVec<T> {
         self.node_mut( parent ).tail = Some( child );
     }
 
+    // All nodes are ready, and their parents are placed before them.
+    pub(crate) fn count_descendants( &mut self ) {
+        for index in (1..self.buf.len()).rev() {
+            let node = self.node( index );
+            let (descendants, parent) = (node.size.descendants, node.up.unwrap());
+            unsafe{ (*parent.as_ptr()).size.descendants += descendants + 1; }
+        }
+    }
+
     pub(crate) fn construct_tree<Tuple,Shape>( &mut self, tuple: Tuple )
         where Tuple: TupleTree<T,Shape>
     {
-- 
2.43.0


From fede1dbab57e21d76237c6108778cecc071c16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 09/11] fix: RcNode::deep_clone borrows every node it clones

---
 src/rc.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 680d527..d0bde86 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -553,7 +553,20 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        // None of the nodes may be changed while it is being cloned.
+        let mut nodes = Vec::new();
+        nodes.push( self.clone() );
+        let mut index = 0;
+        while index < nodes.len() {
+            let children = nodes[ index ].iter_rc();
+            nodes.extend( children );
+            index += 1;
+        }
+        let _borrowed = nodes.iter().map( |node| node.node_borrow() ).collect::<Vec<_>>();
+
+        self.node_borrow().deep_clone()
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From 8f3a92ca7058d205497e5df48b7439df8f3a7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 10/11] fix: a node that is being dropped does not count as a
 user of its buffer

---
 src/rc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index d0bde86..336451a 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -100,9 +100,9 @@ impl<T> Node<T> {
                 let index = ( self as *const _ as usize - owner.as_ref().buf.as_ptr() as usize )
                     / mem::size_of::<Shared<RefCell<Node<T>>>>();
                 let node_vec = owner.as_ref();
-                node_vec.ref_cnt.incr();
                 let node = node_vec.buf.get_unchecked( index );
-                node.count.incr();
+                node.count.incr(); // panics if the node is being dropped
+                node_vec.ref_cnt.incr();
                 RcNode::Piled( PiledRcNode( *owner, index ))
             },
             _ => unreachable!(),
-- 
2.43.0


From 91c3cb4620cfe8584eb4389fa4c29bd02715eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:54 +0000
Subject: [PATCH 11/11] fix: a weak handle does not find a node which was
 dropped as a part of a plain tree

---
 src/rc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 336451a..b066c29 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -593,16 +593,21 @@ pub enum WeakNode<T> {
     Piled( PiledWeakNode<T> ),
 }
 
+// A node has no data any more if it was dropped as a part of a `Tree`, or became the root of a `Forest`.
+fn has_data<T>( node: &RefCell<Node<T>> ) -> bool {
+    node.try_borrow().map_or( true, |node| !node.data.is_none() && !node.is_forest() )
+}
+
 impl<T> WeakNode<T> {
     /// Attempts to upgrade the `WeakNode` a `RcNode`, delaying dropping of the `Node` if successful.
     /// Returns None if the `Node` has since been dropped.
     pub fn upgrade( &self ) -> Option<RcNode<T>> {
         match self {
             WeakNode::Scattered( ScatteredWeakNode( weak )) =>
-                weak.upgrade().map( |rc| RcNode::Scattered( ScatteredRcNode( rc ))),
+                weak.upgrade().filter( |rc| has_data( rc )).map( |rc| RcNode::Scattered( ScatteredRcNode( rc ))),
             WeakNode::Piled( PiledWeakNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
-                if node.count.get() == 0 {
+                if node.count.get() == 0 || !has_data( node ) {
                     None
                 } else {
                     node_vec.as_ref().ref_cnt.incr();
-- 
2.43.0

