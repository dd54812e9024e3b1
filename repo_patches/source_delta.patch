From 169e5e0d15278c7827158f76b617236c7b51fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 01/11] fix: keep child iteration going after a yielded child
 is detached

On a mutable tree `children`/`children_with_tokens` looked for the next
sibling of the element they had already yielded, and so stopped early when
the caller detached it. `splice_children` relied on this and removed only
the first of the elements it was asked to remove.
---
 src/cursor.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..aa31114 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1389,10 +1389,16 @@ impl Iterator for SyntaxNodeChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling());
         }
 
+        if self.parent.is_mutable() {
+            // The caller might detach the node we are about to return, so find
+            // the one after it while it is still in the tree.
+            return self.next.take().inspect(|next| self.next = next.next_sibling());
+        }
+
         self.next.clone()
     }
 }
@@ -1451,10 +1457,16 @@ impl Iterator for SyntaxElementChildren {
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-        } else {
+        } else if !self.parent.is_mutable() {
             self.next = self.next.take().and_then(|next| next.to_next_sibling_or_token());
         }
 
+        if self.parent.is_mutable() {
+            // The caller might detach the element we are about to return, so find
+            // the one after it while it is still in the tree.
+            return self.next.take().inspect(|next| self.next = next.next_sibling_or_token());
+        }
+
         self.next.clone()
     }
 }
-- 
2.43.0


From cea3a61cc007ff88d96feeecef97241414218a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/11] fix: don't yield a child twice when `by_kind` follows
 `next`

`by_kind` on a partially consumed `children`/`children_with_tokens` started
from the element the iterator had yielded last.
---
 src/cursor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index aa31114..4d851db 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1368,6 +1368,12 @@ impl SyntaxNodeChildren {
     pub fn by_kind<F: Fn(SyntaxKind) -> bool>(self, matcher: F) -> SyntaxNodeChildrenByKind<F> {
         if !self.next_initialized {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
+        } else if !self.parent.is_mutable() {
+            // `self.next` has already been yielded
+            SyntaxNodeChildrenByKind {
+                next: self.next.and_then(|node| node.next_sibling_by_kind(&matcher)),
+                matcher,
+            }
         } else {
             SyntaxNodeChildrenByKind {
                 next: self.next.and_then(|node| {
@@ -1436,6 +1442,12 @@ impl SyntaxElementChildren {
                 next: self.parent.first_child_or_token_by_kind(&matcher),
                 matcher,
             }
+        } else if !self.parent.is_mutable() {
+            // `self.next` has already been yielded
+            SyntaxElementChildrenByKind {
+                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),
+                matcher,
+            }
         } else {
             SyntaxElementChildrenByKind {
                 next: self.next.and_then(|node| {
-- 
2.43.0


From 00a2f8e039bc25d190aaea3cf78d024be4ab6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/11] fix: don't leak the tree in `to_next_sibling` on a root

A root has no siblings to move to, but the early return came after the
handle's reference had been given up.
---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 4d851db..b9e2da4 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -761,7 +761,7 @@ impl SyntaxNode {
     // if possible (i.e. unshared), consume self and advance it to point to the next sibling
     // this way, we can reuse the previously allocated buffer
     pub fn to_next_sibling(self) -> Option<SyntaxNode> {
-        if !self.can_take_ptr() {
+        if !self.can_take_ptr() || self.data().parent().is_none() {
             // cannot mutate in-place
             return self.next_sibling();
         }
@@ -1201,7 +1201,7 @@ impl SyntaxElement {
     // if possible (i.e. unshared), consume self and advance it to point to the next sibling
     // this way, we can reuse the previously allocated buffer
     pub fn to_next_sibling_or_token(self) -> Option<SyntaxElement> {
-        if !self.can_take_ptr() {
+        if !self.can_take_ptr() || self.parent().is_none() {
             // cannot mutate in-place
             return self.next_sibling_or_token();
         }
-- 
2.43.0


From f68bbebb415a3c21d7b1442ba0a3641f67ebe070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 04/11] fix: refuse an out of range insertion before touching
 the tree

`splice_children` with an index past the end panicked after the inserted
element had lost its green tree, so that catching the panic left handles
to freed memory.
---
 src/cursor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index b9e2da4..fa48b40 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,9 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // Check this up front: a panic half way through would leave `child` with a dangling green.
+        let len = self.green().into_node().unwrap().children().len();
+        assert!(index <= len, "insertion index {} is out of range for {} children", index, len);
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From e7f55bbf3012ebd27806aded0711cb7471e0e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 05/11] fix: refuse to attach a node below itself

`splice_children` with the node itself or one of its ancestors among the
elements to insert built a cycle, and then looped forever allocating.
---
 src/cursor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index fa48b40..e0c6ca1 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -967,6 +967,12 @@ impl SyntaxNode {
 
     fn attach_child(&self, index: usize, child: SyntaxElement) {
         assert!(self.data().mutable, "immutable tree: {}", self);
+        if let NodeOrToken::Node(child) = &child {
+            assert!(
+                self.ancestors().all(|it| it.ptr != child.ptr),
+                "can't attach a node below itself"
+            );
+        }
         child.detach();
         let data = match &child {
             NodeOrToken::Node(it) => it.data(),
-- 
2.43.0


From 2a819d2886176cbd1c7c8f4aeb3a512d5d8c34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 06/11] fix: resolve a `SyntaxNodePtr` to an empty node

An empty node is next to other children which contain its range as well,
and only one of them was searched.
---
 src/ast.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..30258a0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -100,6 +100,21 @@ impl<L: Language> SyntaxNodePtr<L> {
         if root.parent().is_some() {
             return None;
         }
+        if self.range.is_empty() {
+            // An empty range can belong to more than one child, so look at all of them.
+            let mut preorder = root.preorder();
+            while let Some(event) = preorder.next() {
+                if let WalkEvent::Enter(node) = event {
+                    if node.text_range() == self.range && node.kind() == self.kind {
+                        return Some(node);
+                    }
+                    if !node.text_range().contains_range(self.range) {
+                        preorder.skip_subtree();
+                    }
+                }
+            }
+            return None;
+        }
         successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
             .find(|it| it.text_range() == self.range && it.kind() == self.kind)
     }
-- 
2.43.0


From ca29490aec982456e2a5063f6d96515d766e8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 07/11] fix: panic when the text of a node gets too long

The length silently wrapped around in release builds, and every range in
the tree was wrong.
---
 src/green/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/green/node.rs b/src/green/node.rs
index 832915b..a95e317 100644
--- a/src/green/node.rs
+++ b/src/green/node.rs
@@ -208,7 +208,7 @@ impl GreenNode {
         let mut text_len: TextSize = 0.into();
         let children = children.into_iter().map(|el| {
             let rel_offset = text_len;
-            text_len += el.text_len();
+            text_len = text_len.checked_add(el.text_len()).expect("text is too long");
             match el {
                 NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                 NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
-- 
2.43.0


From cb4ca025cf6ffca149b33b64d4252e2fe1bd0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 08/11] fix: look past empty nodes in `first_token` and friends

`first_token`, `last_token`, `next_token` and `prev_token` returned `None`
when the next element on their way was a node without tokens, even though
there were further tokens.
---
 src/cursor.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index e0c6ca1..dd05cf8 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -827,10 +827,10 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        self.first_child_or_token()?.siblings(Direction::Next).find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        self.last_child_or_token()?.siblings(Direction::Prev).find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1095,22 +1095,16 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        let me: SyntaxElement = self.clone().into();
+        iter::once(me)
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .find_map(|it| it.siblings(Direction::Next).skip(1).find_map(|it| it.first_token()))
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        let me: SyntaxElement = self.clone().into();
+        iter::once(me)
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .find_map(|it| it.siblings(Direction::Prev).skip(1).find_map(|it| it.last_token()))
     }
 
     pub fn detach(&self) {
@@ -1274,6 +1268,13 @@ impl SyntaxElement {
         }
     }
 
+    fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement> {
+        iter::successors(Some(self.clone()), move |el| match direction {
+            Direction::Next => el.next_sibling_or_token(),
+            Direction::Prev => el.prev_sibling_or_token(),
+        })
+    }
+
     pub fn detach(&self) {
         match self {
             NodeOrToken::Node(it) => it.detach(),
-- 
2.43.0


From 3fffc7b1263b9fd0550e5fe7c3f0678253735b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/11] fix: don't use freed memory when a kind matcher edits
 the tree

`first_child_by_kind` and friends iterated over the children of the green
node while calling the matcher, which is safe code that can replace the
green node of a mutable tree.
---
 src/cursor.rs | 80 +++++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index dd05cf8..c7b17bd 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,18 +387,9 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        let siblings = self.green_siblings().enumerate();
-        let index = self.index() as usize;
-
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            child.as_ref().into_node().and_then(|green| {
-                let parent = self.parent_node()?;
-                let offset = parent.offset() + child.rel_offset();
-                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
-            })
+        let start = self.index() as usize + 1;
+        self.parent_node()?.find_child(start, matcher, |green, parent, index, offset| {
+            Some(SyntaxNode::new_child(green.into_node()?, parent, index, offset))
         })
     }
 
@@ -430,16 +421,9 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        let siblings = self.green_siblings().enumerate();
-        let index = self.index() as usize;
-
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            let parent = self.parent_node()?;
-            let offset = parent.offset() + child.rel_offset();
-            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
+        let start = self.index() as usize + 1;
+        self.parent_node()?.find_child(start, matcher, |green, parent, index, offset| {
+            Some(SyntaxElement::new(green, parent, index, offset))
         })
     }
 
@@ -698,19 +682,35 @@ impl SyntaxNode {
         })
     }
 
-    pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            child.as_ref().into_node().map(|green| {
-                SyntaxNode::new_child(
-                    green,
-                    self.clone(),
-                    index as u32,
-                    self.offset() + child.rel_offset(),
-                )
+    /// Calls `make` for the children at `start` and later whose kind satisfies `matcher`.
+    ///
+    /// `matcher` is the user's and might edit the tree, so the green tree is not kept
+    /// borrowed while it runs.
+    fn find_child<T>(
+        &self,
+        start: usize,
+        matcher: &impl Fn(SyntaxKind) -> bool,
+        make: impl Fn(GreenElementRef<'_>, SyntaxNode, u32, TextSize) -> Option<T>,
+    ) -> Option<T> {
+        (start..)
+            .map_while(|index| Some((index, self.green_child(index)?.as_ref().kind())))
+            .find_map(|(index, kind)| {
+                if !matcher(kind) {
+                    return None;
+                }
+                let child = self.green_child(index).filter(|it| it.as_ref().kind() == kind)?;
+                let offset = self.offset() + child.rel_offset();
+                make(child.as_ref(), self.clone(), index as u32, offset)
             })
+    }
+
+    fn green_child(&self, index: usize) -> Option<&GreenChild> {
+        self.green_ref().children().raw.nth(index)
+    }
+
+    pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
+        self.find_child(0, matcher, |green, parent, index, offset| {
+            Some(SyntaxNode::new_child(green.into_node()?, parent, index, offset))
         })
     }
 
@@ -737,16 +737,8 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            Some(SyntaxElement::new(
-                child.as_ref(),
-                self.clone(),
-                index as u32,
-                self.offset() + child.rel_offset(),
-            ))
+        self.find_child(0, matcher, |green, parent, index, offset| {
+            Some(SyntaxElement::new(green, parent, index, offset))
         })
     }
 
-- 
2.43.0


From 7145214ef08e612e707d454a49837ade42942725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 10/11] fix: refuse to attach a child that makes the text too
 long up front

A panic half way through attaching left the child in the tree with a green
node that had already been dropped.
---
 src/cursor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index c7b17bd..125d5a8 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -478,6 +478,9 @@ impl NodeData {
         // Check this up front: a panic half way through would leave `child` with a dangling green.
         let len = self.green().into_node().unwrap().children().len();
         assert!(index <= len, "insertion index {} is out of range for {} children", index, len);
+        let root = iter::successors(Some(self), |it| it.parent()).last().unwrap();
+        let text_len = root.green().text_len().checked_add(child.green().text_len());
+        assert!(text_len.is_some(), "text is too long");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 47774ba9b273e78ced0fadf08b45efc5f7321966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 11/11] fix: don't drop unfinished nodes in
 `GreenNodeBuilder::finish`

start(A) start(B) finish_node() finish() returned B without a complaint.
---
 src/green/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/green/builder.rs b/src/green/builder.rs
index a8becad..60a28e6 100644
--- a/src/green/builder.rs
+++ b/src/green/builder.rs
@@ -122,6 +122,7 @@ impl GreenNodeBuilder<'_> {
     /// are paired!
     #[inline]
     pub fn finish(mut self) -> GreenNode {
+        assert!(self.parents.is_empty(), "finish_node was not called for every started node");
         assert_eq!(self.children.len(), 1);
         match self.children.pop().unwrap().1 {
             NodeOrToken::Node(node) => node,
-- 
2.43.0

