From e3271194c4c221af1117765c478b00cf2b65bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 01/17] fix: Rect::intersected_line missed lines that rise
 through the rectangle

The "entirely inside" shortcut compared only the lower bound of one end and
the upper bound of the other, so a line with a negative slope that starts below
the rectangle was taken for one inside it.
---
 src/geometry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..dd6bca5 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,9 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        let is_inside = |p: &Point| p.x > left && p.x < right && p.y > top && p.y < bottom;
+
+        if is_inside(a) && is_inside(b) {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 65a50ef256b58a84fa0e5410ec4750caab9ac18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 02/17] fix: relations were routed straight through tables

`a || b && c` let the first candidate neighbour skip the collision test.
---
 src/layout.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..8578b60 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y) && no_collision() {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +733,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +749,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +765,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 7efc35eef2081477b7501b5b94133f5abe85983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 03/17] fix: relation between ends that share a terminal port
 crashed the renderer

A relation from a field to itself (or from a table to its only outermost row)
got a route of one point, which the renderer rejects with a failed assertion.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 8578b60..3e3bad8 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -809,6 +809,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Both ends can share a terminal port (e.g. a relation from a field to itself), but
+                // a path needs two distinct ends.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 1a7c70bf8b1a8e6f3ddc1ff5aa05b72a861dca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 04/17] fix: input after the module was silently ignored

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..f18829b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -269,6 +269,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        .then_ignore(end())
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From fa4378fa4c2717ac0e9550093f53fe02ad195733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 05/17] fix: characters at the end that are not tokens were
 silently dropped

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index f18829b..2d95ba4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,7 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
         .padded_by(comment.repeated())
         .padded_by(spaces)
         .repeated()
+        .then_ignore(end())
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
-- 
2.43.0


From 4595dd22c6807e0cb6be8105918066f542e5c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 06/17] fix: relations between whole entities were rejected

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2d95ba4..b38877b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -195,7 +195,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 8c75b6ac382345387633ab50b68f90622604004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 07/17] fix: view box of a diagram without tables had a huge
 negative height

---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 3e3bad8..f9fc7ec 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From 4b28b1c94d3115992dd7735af864c6a01683e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 08/17] fix: names were written into the SVG without XML
 escaping

---
 src/renderer.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..e498563 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -234,6 +234,29 @@ impl SVGAnchor {
     }
 }
 
+/// Escapes `text` so that it can be placed in the content of an XML element. The characters which
+/// can't be represented in XML are replaced with U+FFFD.
+///
+/// https://www.w3.org/TR/xml/#charsets
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            // A literal CR would be read as a newline.
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 impl SVGRenderer<'_> {
     fn draw_text(
         &self,
@@ -245,7 +268,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 167dddefc61d8e45331051dff613ae3f9f570cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 09/17] fix: an engine used again routed relations over the
 previous document

---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index f9fc7ec..04b7a2d 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -439,6 +439,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Routes of a previously drawn document must not remain.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
-- 
2.43.0


From 5545c4c99f5ef4e7519e9db9064e43a465a58b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 10/17] fix: an edge that can't be routed shifted the paths of
 the others

---
 src/layout.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 04b7a2d..174330d 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -503,16 +503,15 @@ impl LayoutEngine for SimpleLayoutEngine {
 
         // Finding shortest edge paths
         let edge_ids = doc.edge_ids();
-        let mut paths: VecDeque<Vec<Point>> = VecDeque::with_capacity(edge_ids.len());
+        let mut paths: VecDeque<Option<Vec<Point>>> = VecDeque::with_capacity(edge_ids.len());
 
         for edge_id in edge_ids {
-            if let Some(path) = self.find_shortest_edges_path(doc, edge_id) {
-                paths.push_back(path);
-            }
+            // An edge that can't be routed has no path.
+            paths.push_back(self.find_shortest_edges_path(doc, edge_id));
         }
 
         for edge in doc.edges_mut() {
-            edge.set_path_points(Some(paths.pop_front().unwrap()));
+            edge.set_path_points(paths.pop_front().unwrap());
         }
     }
 }
-- 
2.43.0


From 0bbb26d20785b5a8dfc960fa8b1f30bc73ebf39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 11/17] fix: a failure to write the end of the SVG to stdout
 went unnoticed

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..b15a860 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,7 +3,10 @@ use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
 use seiren::parser::parse;
 use seiren::renderer::{Renderer, SVGRenderer};
 use std::io;
-use std::{fs, io::Read};
+use std::{
+    fs,
+    io::{Read, Write},
+};
 
 const DEBUG: bool = false;
 
@@ -128,6 +131,9 @@ fn main() -> Result<(), io::Error> {
         backend
             .render(&doc, &mut handle)
             .expect("Couldn't render as SVG.");
+
+        // What remains in the buffer would be written at exit, where a failure goes unnoticed.
+        handle.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 6c02a31833403968d2ce7beca05749f05a712ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 12/17] fix: empty input crashed the program while it reported
 the error

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b15a860..08bd28f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -101,9 +101,12 @@ fn main() -> Result<(), io::Error> {
             ),
         };
 
+        // A report can't point into a source without any lines.
+        let source = Source::from(if src.is_empty() { "\n" } else { &src });
+
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            .eprint((filename, source))
             .unwrap();
     }
 
-- 
2.43.0


From deac4b94c1aff1564c687666d67c396e2c5a1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 13/17] fix: diagnostics listed what was expected in a
 different order on every run

---
 src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 08bd28f..757e100 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -75,13 +75,17 @@ fn main() -> Result<(), io::Error> {
                     if e.expected().len() == 0 {
                         "something else".to_string()
                     } else {
-                        e.expected()
+                        let mut expected = e
+                            .expected()
                             .map(|expected| match expected {
                                 Some(expected) => expected.to_string(),
                                 None => "end of input".to_string(),
                             })
-                            .collect::<Vec<_>>()
-                            .join(", ")
+                            .collect::<Vec<_>>();
+
+                        // `expected()` has no particular order, which differs from run to run.
+                        expected.sort();
+                        expected.join(", ")
                     }
                 ))
                 .with_label(
-- 
2.43.0


From 6f8a60e3437a5f443176b18a21f9f301fea88d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 14/17] fix: corners of a relation overlapped where its route
 has a short line

---
 src/renderer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index e498563..ca03a10 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -296,7 +296,7 @@ impl SVGRenderer<'_> {
         edge: &mir::EdgeData,
     ) -> Result<(element::Path, element::Circle, element::Circle), BackendError> {
         let circle_radius = 4.0;
-        let path_radius = 6.0;
+        let max_path_radius = 6.0f32;
         let stroke_width = 1.5;
         let stroke_color = WebColor::RGB(RGBColor {
             red: 136,
@@ -361,6 +361,11 @@ impl SVGRenderer<'_> {
                 let bp = path_points[i - 1]; // backward
                 let fp = path_points[i + 1]; // forward
 
+                // Corners must not overlap on a short line.
+                let path_radius = max_path_radius
+                    .min(bp.distance(&pt) / 2.0)
+                    .min(pt.distance(&fp) / 2.0);
+
                 let d1 = bp.orthogonal_direction(&pt);
                 let d2 = pt.orthogonal_direction(&fp);
 
-- 
2.43.0


From 63e096d2fd4a3e462c45b52dae5af22c3c74bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 15/17] fix: a relation declared before its entities was
 dropped

---
 src/erd.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..9f4c883 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -126,15 +126,19 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
-                ModuleEntry::EntityRelation(relation) => {
-                    let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
-                    let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-
-                    doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
-                }
+                // A relation may precede the entities it relates, so see below.
+                ModuleEntry::EntityRelation(_) => {}
             }
         }
 
+        for entry in self.entries.iter() {
+            let ModuleEntry::EntityRelation(relation) = entry else { continue };
+            let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
+            let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
+
+            doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
+        }
+
         doc
     }
 
-- 
2.43.0


From c4cfe4f28d6d4f9c5c805cf6bf95b6c92dcc7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 16/17] fix: a file whose name is not UTF-8 crashed the program

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 757e100..74a1c33 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,13 +12,13 @@ const DEBUG: bool = false;
 
 fn main() -> Result<(), io::Error> {
     let mut filename = "(stdin)".to_string();
-    let mut args = std::env::args();
+    let mut args = std::env::args_os();
 
     // Read the contents of a specified file or from stdio.
     let src = if args.len() >= 2 {
         let path = args.nth(1).unwrap();
 
-        filename = path.clone();
+        filename = path.to_string_lossy().into_owned();
         fs::read_to_string(path)?
     } else {
         let mut s = String::new();
-- 
2.43.0


From d29c1b81385e69460b03d953544cb6ed63698534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 17/17] fix: laying out a changed document again kept its old
 connection points

---
 src/layout.rs | 5 +++++
 src/mir.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 174330d..7311b39 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -323,6 +323,9 @@ impl LayoutEngine for SimpleLayoutEngine {
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
             let Some(record_rect) = record_node.rect() else { continue };
 
+            // Ports of a previous layout must not remain.
+            record_node.clear_terminal_ports();
+
             // In the case of a rectangle, terminal ports are placed in
             // the center of each of the four edges.
             for (x, y, d) in [
@@ -346,6 +349,8 @@ impl LayoutEngine for SimpleLayoutEngine {
                 let Some(field_node) = doc.get_node_mut(field_node_index) else { continue };
                 let Some(field_rect) = field_node.rect() else { continue };
 
+                field_node.clear_terminal_ports();
+
                 if field_id_vec.len() == 1 {
                     for (x, y, d) in [
                         (field_rect.mid_x(), field_rect.min_y(), Orientation::Up),
diff --git a/src/mir.rs b/src/mir.rs
index 2fa0ae5..be58ae4 100644
--- a/src/mir.rs
+++ b/src/mir.rs
@@ -101,6 +101,10 @@ impl NodeData {
             .push(TerminalPort::new(pid, location, orientation));
         pid
     }
+
+    pub fn clear_terminal_ports(&mut self) {
+        self.terminal_ports.clear();
+    }
 }
 
 // --- Edge
-- 
2.43.0

