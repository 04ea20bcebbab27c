From 6ee81ca914fcab8969d25d6f6017c6efeba0f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:31 +0000
Subject: [PATCH 01/12] fix: Node::root() returned a stale node after detach or
 a subtree move

The cached root was set only for the node being inserted: it was not reset by
detach() and not updated for the descendants of a moved subtree.
---
 src/tree.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..d0252c1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -94,10 +92,12 @@ impl<T> Node<T> {
     ///
     /// Panics if the node is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut root = self.clone();
+        while let Some(parent) = root.parent() {
+            root = parent;
         }
+
+        root
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -243,7 +243,6 @@ impl<T> Node<T> {
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
             new_child_borrow.detach();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -277,7 +276,6 @@ impl<T> Node<T> {
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
             new_child_borrow.detach();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -309,7 +307,6 @@ impl<T> Node<T> {
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
             new_sibling_borrow.detach();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -350,7 +347,6 @@ impl<T> Node<T> {
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
             new_sibling_borrow.detach();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From 3d3d598a82531e9618d7418681be75a1929fc8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:56 +0000
Subject: [PATCH 02/12] fix: moving a node next to its current position no
 longer panics

append, prepend, insert_after and insert_before borrowed the target before detaching
the inserted node, so that the detach hit an already borrowed node whenever the
inserted node was a boundary child of the target or its direct sibling.
---
 src/tree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d0252c1..1e2a1d3 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,13 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // Must be done before borrowing `self`, which can be an adjoining node.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -272,10 +274,12 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // Must be done before borrowing `self`, which can be an adjoining node.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -303,10 +307,12 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // Must be done before borrowing `self`, which can be an adjoining node.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -342,11 +348,13 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // Must be done before borrowing `self`, which can be an adjoining node.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From e9389a51f45e7308922b4304358e7e2ae29b70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:58 +0000
Subject: [PATCH 03/12] fix: removing a node left links stored under non-SVG
 attribute names

A link can be set to an attribute with any name, but only the attributes with
an SVG name were unlinked when one of the ends was removed.
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From c2a1f4377a6a175f08a3cf3670fd4bda67144b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:00 +0000
Subject: [PATCH 04/12] fix: links of removed 'style' elements were resolved
 anyway

An element referenced only from a removed node was reported as used.
---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..4ec3337 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -663,6 +663,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // The node was removed from the document together with a 'style' element.
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From e13bee1f0a7605eb5270c6311717e0ad757650f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:02 +0000
Subject: [PATCH 05/12] fix: a link from a presentation attribute overrode CSS
 and 'style' values

Links are resolved after the whole document is parsed, so 'fill="url(#a)"' won
over a later declaration with a higher priority, like 'style="fill:red"'.
---
 src/parser/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4ec3337..1bddcb2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,18 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    /// Forgets a collected link, because the attribute was overwritten.
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        // Attributes are parsed node by node, so we have to check only the last ones.
+        let mut i = self.list.len();
+        while i > 0 && self.list[i - 1].node == *node {
+            i -= 1;
+            if self.list[i].attr_id == id {
+                self.list.remove(i);
+            }
+        }
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +230,10 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From efa9c41b79ca387e832293bf5637dddf3a64fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 06/12] fix: 'marker' shorthand in the 'style' attribute was
 not expanded

It was expanded in a style sheet only.
---
 src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1bddcb2..2f59178 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -667,7 +667,12 @@ fn parse_style_attribute(
         if let Some(id) = AttributeId::from_str(declaration.name) {
             // Parse only the presentation attributes.
             // `transform` isn't a presentation attribute, but should be parsed anyway.
-            if id.is_presentation() || id == AttributeId::Transform {
+            if id == AttributeId::Marker {
+                // A shorthand property. See `parse_css_attribute_value` for details.
+                for id in &[AttributeId::MarkerStart, AttributeId::MarkerMid, AttributeId::MarkerEnd] {
+                    parse_svg_attribute_value(ro_doc, *id, declaration.value, value_pos, node, links)?;
+                }
+            } else if id.is_presentation() || id == AttributeId::Transform {
                 parse_svg_attribute_value(ro_doc, id, declaration.value, value_pos, node, links)?;
             }
         }
-- 
2.43.0


From 3401120a623666da402e9e010818196da4c589a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 07/12] fix: whitespace was not processed in text elements that
 start with a 'tspan'

Only elements with a text node as the first child were processed, so tabs and newlines
were left in a text node that follows a 'tspan' or a comment.
---
 src/parser/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..df99a58 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementType,
     Node,
 };
 
@@ -60,6 +61,12 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
             }
         }
 
+        // A text element can start with a `tspan` or a comment.
+        if node.is_text_content() && node.children().any(|n| n.is_text()) {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
+        }
+
         _prepare_text(&node, nodes, xmlspace);
     }
 }
-- 
2.43.0


From bb1ca6ee77af3ad5207fa70344a802e7d63eb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:37 +0000
Subject: [PATCH 08/12] fix: an identity transform from CSS did not override
 the 'transform' attribute

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2f59178..2301ab0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -524,6 +524,8 @@ fn _parse_svg_attribute_value<'a>(
             if !ts.is_default() {
                 AttributeValue::Transform(Transform::from_str(value)?)
             } else {
+                // It still overwrites a transform with a lower priority.
+                node.remove_attribute(aid);
                 return Ok(None);
             }
         }
-- 
2.43.0


From aec40b3f6e5e7555cd8cb136ac3b2498a250bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 09/12] fix: words of sibling 'tspan' elements were joined in a
 text element without text nodes of its own

'<text><tspan>a</tspan><tspan> b</tspan></text>' was parsed as 'ab', because every 'tspan'
was trimmed on its own.
---
 src/parser/text.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index df99a58..656811a 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -61,8 +61,9 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
             }
         }
 
-        // A text element can start with a `tspan` or a comment.
-        if node.is_text_content() && node.children().any(|n| n.is_text()) {
+        // A text element can start with a `tspan` or a comment
+        // and it can have no text nodes of its own.
+        if node.is_text_content() {
             prepare_text_children(&node, nodes, xmlspace);
             continue;
         }
-- 
2.43.0


From 17648c1606f00b32dfcb1482f19802cd475e5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:29 +0000
Subject: [PATCH 10/12] fix: honor xml:space of a tspan around a single text
 node

---
 src/parser/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 656811a..4236f6a 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -122,6 +122,9 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
 
         let mut node = nodes[0].0.clone();
 
+        // The text node can be inside a `tspan` with its own 'xml:space'.
+        let xmlspace = get_xmlspace(&mut node.parent().unwrap(), marked_nodes, xmlspace);
+
         if xmlspace == XmlSpace::Default {
             let mut text = node.text_mut();
 
-- 
2.43.0


From 9b7d1aeb03ce6f76dde589a8ba9f7e0b15b47833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:33 +0000
Subject: [PATCH 11/12] fix: inherit xml:space through nested tspans

---
 src/parser/text.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 4236f6a..4d1a42f 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -81,7 +81,12 @@ fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> Xm
         }
     }
 
-    // 'xml:space' is not set - set it manually.
+    // 'xml:space' is not set - inherit it from the parent element and set it manually.
+    let default = match node.parent() {
+        Some(ref mut parent) if parent.is_element() => get_xmlspace(parent, nodes, default),
+        _ => default,
+    };
+
     set_xmlspace(node, nodes, default);
 
     default
-- 
2.43.0


From d216f5bc93103ccceb50cf61802d1ed54317ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:22 +0000
Subject: [PATCH 12/12] fix: trim the trailing space of text with exactly two
 text nodes

When an element had exactly two text nodes and the first one started with
a space, only the leading space was removed.
---
 src/parser/text.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 4d1a42f..13b59c9 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -236,10 +236,13 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             {
                 // Remove leading space of the first text node.
                 node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
+            }
+
+            // The first pair can also be the last one.
+            if     is_last
+                && c4 == Some(b' ')
+                && !node2.text().is_empty()
+                && xmlspace2 == XmlSpace::Default
             {
                 // Remove trailing space of the last text node.
                 // Also check that 'text2' is not empty already.
-- 
2.43.0

