From 37d11ee0b8e1a65ccfaa7b06dea14923bd633560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 01/19] fix: rect intersection missed lines going upward

The `entirely inside` shortcut assumed dy >= 0, so a line that runs upward
through (or out of) a rectangle was reported as not intersecting it.
---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..c4bb965 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,7 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left && (x + dx) < right && y.min(y + dy) > top && y.max(y + dy) < bottom {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 1e46f4ddd976764de56772223889ab1166ee5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 02/19] fix: never connect two junctions through a shape

`a || b && c` let the first candidate in each direction skip the collision
check, so an edge could be drawn across an entity or turn back on itself
(and panic in the renderer).
---
 src/layout.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..6da76e4 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y) && no_collision() {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +733,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y) && no_collision() {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +747,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x) && no_collision() {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +761,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x) && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 67381966c9f618a7a6d0140273084c007b520178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 03/19] fix: view box of a document without records had a
 negative height

---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 6da76e4..2019e99 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0f32;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From 8bc4d671f59ab09beb5c2e459ef60c7f01f5867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 04/19] fix: rendering an edge whose ends share a terminal port
 panicked

A relation from a field to itself, or from an entity to one of its own fields
with a common terminal port, got a path with only one point.
---
 src/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 2019e99..cdd1c28 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -804,6 +804,11 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // A path needs two distinct ends.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 4825dc8a6b11c1b6afa805c787dfe0149042213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 05/19] fix: a reused layout engine kept junctions of the
 previous document

---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index cdd1c28..704efd8 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -439,6 +439,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Discard junction nodes that belong to a previously drawn document.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
-- 
2.43.0


From 8331d62ca39cdb1d1ea5ef9ca555fd0d2321dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 06/19] fix: drawing edges of a document without terminal ports
 panicked

Leave the path of such an edge unset: rendering it reports `InvalidLayout`.
---
 src/layout.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 704efd8..fea6775 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -503,16 +503,14 @@ impl LayoutEngine for SimpleLayoutEngine {
 
         // Finding shortest edge paths
         let edge_ids = doc.edge_ids();
-        let mut paths: VecDeque<Vec<Point>> = VecDeque::with_capacity(edge_ids.len());
+        let mut paths: VecDeque<Option<Vec<Point>>> = VecDeque::with_capacity(edge_ids.len());
 
         for edge_id in edge_ids {
-            if let Some(path) = self.find_shortest_edges_path(doc, edge_id) {
-                paths.push_back(path);
-            }
+            paths.push_back(self.find_shortest_edges_path(doc, edge_id));
         }
 
         for edge in doc.edges_mut() {
-            edge.set_path_points(Some(paths.pop_front().unwrap()));
+            edge.set_path_points(paths.pop_front().flatten());
         }
     }
 }
-- 
2.43.0


From 875f4bfe92b8379276842b8270763e0aae07133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 07/19] fix: the field part of a relation end is optional

The documented grammar is `entity = identifier, [ ".", identifier ]`, but the
parser required the period and made only the field name optional.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 9ef131c61b38d0533a329635115f0504fc6d55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 08/19] fix: input after the module was silently ignored

The grammar ends with the module, so anything that follows it must be
reported as an error.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cdcecd3..b38877b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,7 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
         .padded_by(comment.repeated())
         .padded_by(spaces)
         .repeated()
+        .then_ignore(end())
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -269,6 +270,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        .then_ignore(end())
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From 8c98971aeb556b04d93be7b5f2296d690cd87c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 09/19] fix: relations written before the entities they name
 were dropped

The grammar lets definitions and relations come in any order, so resolve the
relations after all the definitions.
---
 src/erd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..37f983f 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -126,6 +126,14 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
+                // Relations are resolved once every entity is known.
+                ModuleEntry::EntityRelation(_) => {}
+            }
+        }
+
+        for entry in self.entries.iter() {
+            match entry {
+                ModuleEntry::EntityDefinition(_) => {}
                 ModuleEntry::EntityRelation(relation) => {
                     let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
                     let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-- 
2.43.0


From 57a47809608788ec976ede038972975bf326a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 10/19] fix: reporting an error in an empty source panicked

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..ebd97f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -100,7 +100,8 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            // ariadne can't locate a span in an empty source.
+            .eprint((filename, Source::from(if src.is_empty() { "\n" } else { &src })))
             .unwrap();
     }
 
-- 
2.43.0


From d06b5c9427a216e5ab3ca682551bdefb5721f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 11/19] fix: rounded corners overshot short edge segments

Two turns closer than two corner radii made the drawn line leave its path.
---
 src/renderer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..8482090 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -338,6 +338,11 @@ impl SVGRenderer<'_> {
                 let bp = path_points[i - 1]; // backward
                 let fp = path_points[i + 1]; // forward
 
+                // The corner must not be larger than its sides.
+                let path_radius = (bp.distance(&pt) / 2.0)
+                    .min(pt.distance(&fp) / 2.0)
+                    .min(path_radius);
+
                 let d1 = bp.orthogonal_direction(&pt);
                 let d2 = pt.orthogonal_direction(&fp);
 
-- 
2.43.0


From 758d250d4dacf3eab04373fac2aed94a4defaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:05 +0000
Subject: [PATCH 12/19] fix: names with markup characters made the SVG
 malformed

The svg crate writes text nodes as they are, so escape them.
---
 src/renderer.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 8482090..d4bf641 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -216,6 +216,26 @@ impl Renderer for SVGRenderer<'_> {
     }
 }
 
+/// Escape a text for XML character data. Characters which are not allowed in XML documents are
+/// replaced with U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
+            '\0'..='\x1F' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum SVGAnchor {
     Start,
@@ -245,7 +265,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 47ea2653fb2ee5085f891c7267cf9c1a2aa563c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 13/19] fix: placing terminal ports again kept the outdated
 ones

After a document grew, the ports of its previous layout were still used as ends
of edges.
---
 src/layout.rs | 5 +++++
 src/mir.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index fea6775..b66b255 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -323,6 +323,9 @@ impl LayoutEngine for SimpleLayoutEngine {
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
             let Some(record_rect) = record_node.rect() else { continue };
 
+            // Discard ports that were placed before the document has been changed.
+            record_node.clear_terminal_ports();
+
             // In the case of a rectangle, terminal ports are placed in
             // the center of each of the four edges.
             for (x, y, d) in [
@@ -346,6 +349,8 @@ impl LayoutEngine for SimpleLayoutEngine {
                 let Some(field_node) = doc.get_node_mut(field_node_index) else { continue };
                 let Some(field_rect) = field_node.rect() else { continue };
 
+                field_node.clear_terminal_ports();
+
                 if field_id_vec.len() == 1 {
                     for (x, y, d) in [
                         (field_rect.mid_x(), field_rect.min_y(), Orientation::Up),
diff --git a/src/mir.rs b/src/mir.rs
index 2fa0ae5..34107ae 100644
--- a/src/mir.rs
+++ b/src/mir.rs
@@ -89,6 +89,10 @@ impl NodeData {
         self.terminal_ports.iter()
     }
 
+    pub fn clear_terminal_ports(&mut self) {
+        self.terminal_ports.clear();
+    }
+
     pub fn add_terminal_port(
         &mut self,
         node_id: NodeId,
-- 
2.43.0


From b61891d9b31db30a8eec596d6a6c0783a99aecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 14/19] fix: routing panicked for a terminal port that cannot
 be reached

---
 src/layout.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index b66b255..8a10bf5 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -815,7 +815,7 @@ impl SimpleLayoutEngine {
                     continue;
                 }
 
-                let (c, p) = self.compute_shortest_path(src_node, dst_node);
+                let Some((c, p)) = self.compute_shortest_path(src_node, dst_node) else { continue };
                 if c < cost {
                     path.replace(p);
                     cost = c;
@@ -837,7 +837,7 @@ impl SimpleLayoutEngine {
         &self,
         start_node: RouteNodeId,
         end_node: RouteNodeId,
-    ) -> (RouteCost, Vec<RouteNodeId>) {
+    ) -> Option<(RouteCost, Vec<RouteNodeId>)> {
         let graph = &self.edge_route_graph().graph;
 
         let (cost, path) = algo::astar(
@@ -852,14 +852,8 @@ impl SimpleLayoutEngine {
                 RouteCost(distance as u32)
             },
             |_| RouteCost(0),
-        )
-        .unwrap_or_else(|| {
-            panic!(
-                "can't compute shortest path: {} -> {}",
-                start_node, end_node
-            )
-        });
-
-        (cost, path.iter().map(|i| RouteNodeId(*i)).collect())
+        )?;
+
+        Some((cost, path.iter().map(|i| RouteNodeId(*i)).collect()))
     }
 }
-- 
2.43.0


From ae968c6c59dee38877fbd2bc8996efa7db5d1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 15/19] fix: routing panicked for terminal ports that share a
 location

---
 src/layout.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 8a10bf5..24845ce 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -102,22 +102,13 @@ impl RouteGraph {
     }
 
     fn _add_node(&mut self, location: Point, orientation: Option<Orientation>) -> RouteNodeId {
-        let node_index = if let Some((node_index, node)) = self
+        // Terminal ports which face different directions may share a location.
+        let node_index = if let Some((node_index, _)) = self
             .graph
             .node_indices()
             .flat_map(|i| self.graph.node_weight(i).map(|w| (i, w)))
-            .find(|(_, w)| *w.location() == location)
+            .find(|(_, w)| *w.location() == location && w.orientation() == orientation)
         {
-            if node.orientation() != orientation {
-                panic!(
-                    "[BUG] Placing node at {}, but the old node orientation is different. {:?} != {}",
-                    location,
-                    node
-                        .orientation()
-                        .map_or("(none)".into(), |x| x.to_string()),
-                    orientation.map_or("(none)".into(), |x| x.to_string())
-                );
-            }
             node_index
         } else {
             let node = RouteNodeData::new(location, orientation);
-- 
2.43.0


From af50932ec080a8ad72884b3464a42c4a6684683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 16/19] fix: the command ignored a failure to write the end of
 the picture

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ebd97f4..547fd11 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Fmt, Label, Report, ReportKind, Source};
 use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
 use seiren::parser::parse;
 use seiren::renderer::{Renderer, SVGRenderer};
-use std::io;
+use std::io::{self, Write};
 use std::{fs, io::Read};
 
 const DEBUG: bool = false;
@@ -129,6 +129,9 @@ fn main() -> Result<(), io::Error> {
         backend
             .render(&doc, &mut handle)
             .expect("Couldn't render as SVG.");
+
+        // The end of the picture may still be buffered.
+        handle.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 596f0c2e5e1af04bda03b2ba31211fd1d9ab0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 17/19] fix: the command panicked on a file name that is not
 valid Unicode

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 547fd11..f71b443 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,13 +9,14 @@ const DEBUG: bool = false;
 
 fn main() -> Result<(), io::Error> {
     let mut filename = "(stdin)".to_string();
-    let mut args = std::env::args();
+    let mut args = std::env::args_os();
 
     // Read the contents of a specified file or from stdio.
     let src = if args.len() >= 2 {
         let path = args.nth(1).unwrap();
 
-        filename = path.clone();
+        // File names are not necessarily valid Unicode.
+        filename = path.to_string_lossy().into_owned();
         fs::read_to_string(path)?
     } else {
         let mut s = String::new();
-- 
2.43.0


From 4526f97a78559cd02d1da0809c4d39ba658114ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 18/19] fix: a route ran along the border of a box that is not
 one of its ends

---
 src/layout.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 24845ce..32c9dfa 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -676,17 +676,23 @@ impl SimpleLayoutEngine {
             .body()
             .children()
             .filter_map(|node_index| doc.get_node(node_index).map(|node| (node_index, node)))
-            .filter_map(|(node_index, node)| {
-                node.rect().map(|r| {
-                    (
-                        node_index,
-                        // Nodes on the edge of shapes must remain. So minus 1.0.
-                        r.inset_by(1.0, 1.0),
-                    )
-                })
-            })
+            .filter_map(|(node_index, node)| node.rect().map(|r| (node_index, r)))
             .collect::<Vec<_>>();
 
+        // A terminal port stands on the edge of its shape. So start 1.0 off the edge, on the side
+        // it faces.
+        let off_edge = |node: &RouteNodeData| {
+            let p = node.location();
+
+            match node.orientation() {
+                None => *p,
+                Some(Orientation::Up) => Point::new(p.x, p.y - 1.0),
+                Some(Orientation::Right) => Point::new(p.x + 1.0, p.y),
+                Some(Orientation::Down) => Point::new(p.x, p.y + 1.0),
+                Some(Orientation::Left) => Point::new(p.x - 1.0, p.y),
+            }
+        };
+
         for a in self.edge_route_graph.node_ids() {
             let mut left: Option<(RouteNodeId, &RouteNodeData)> = None;
             let mut right: Option<(RouteNodeId, &RouteNodeData)> = None;
@@ -698,7 +704,10 @@ impl SimpleLayoutEngine {
                 let m = self.edge_route_graph.get_node(b).unwrap();
                 let p = n.location();
                 let q = m.location();
-                let no_collision = || !shape_rects.iter().any(|(_, r)| r.intersects_line(p, q));
+                let no_collision = || {
+                    let (p, q) = (off_edge(n), off_edge(m));
+                    !shape_rects.iter().any(|(_, r)| r.intersects_line(&p, &q))
+                };
 
                 if q.x == p.x && q.y < p.y {
                     // vertically upward
-- 
2.43.0


From d1ca3a9ea0e8c3f6c48e7d6b3fbb8ddc06b85a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 19/19] fix: routes missed the channels at negative coordinates

---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 32c9dfa..299ed64 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -563,7 +563,7 @@ impl SimpleLayoutEngine {
 
         match terminal_port.orientation() {
             Orientation::Left => {
-                let mut min_x = 0.0f32;
+                let mut min_x = f32::MIN;
                 let line_end = Point::new(f32::MIN, conn_pt.y);
 
                 for r in shape_rects {
@@ -611,7 +611,7 @@ impl SimpleLayoutEngine {
                 }
             }
             Orientation::Down => {
-                let mut min_y = 0.0f32;
+                let mut min_y = f32::MIN;
                 let line_end = Point::new(conn_pt.x, f32::MIN);
 
                 for r in shape_rects {
-- 
2.43.0

