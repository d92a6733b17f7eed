From f14b8796cd4c2daaa94765fb7f8d5b33f0a1ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 01/20] verif: read-only edge accessors behind
 cfg(layout_verif)

---
 layout/src/lib.rs         |  2 ++
 layout/src/topo/layout.rs | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/layout/src/lib.rs b/layout/src/lib.rs
index 38bf929..8041e1c 100644
--- a/layout/src/lib.rs
+++ b/layout/src/lib.rs
@@ -104,6 +104,8 @@ fn simple_graph() {
 */
 
 #![warn(missing_debug_implementations)]
+// `layout_verif` is a custom cfg that only the conformance harness sets.
+#![allow(unexpected_cfgs)]
 
 pub mod adt;
 pub mod backends;
diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..6aabe12 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -116,6 +116,19 @@ impl VisualGraph {
     }
 }
 
+// Read-only access for the external conformance harness. Compiled only when
+// the crate is built with `--cfg layout_verif`.
+#[cfg(layout_verif)]
+impl VisualGraph {
+    pub fn verif_edges(&self) -> &[(Arrow, Vec<NodeHandle>)] {
+        &self.edges
+    }
+
+    pub fn verif_self_edges(&self) -> &[(Arrow, NodeHandle)] {
+        &self.self_edges
+    }
+}
+
 // Render.
 impl VisualGraph {
     fn render(&self, debug: bool, rb: &mut dyn RenderBackend) {
-- 
2.43.0


From 2a39688e092869854ca98ff545fd00b2674644a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 02/20] fix: keep an epsilon gap between blocks in the BK
 scheduler

Boxes that were scheduled exactly next to each other could overlap by a
rounding error, which made the order verifier panic on ordinary graphs
such as 'digraph {rankdir=LR;n0;n1;n2;n3;n1 -> n1;}'.
---
 layout/src/topo/placer/bk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..27fe78f 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -197,10 +198,10 @@ impl<'a> Scheduler<'a> {
             let pos = self.vg.pos(*elem);
             if self.order.is_left_to_right() {
                 let side_x = pos.distance_to_right(true);
-                self.last_x_for_row[level] = center_x + side_x;
+                self.last_x_for_row[level] = center_x + side_x + EPSILON;
             } else {
                 let side_x = pos.distance_to_left(true);
-                self.last_x_for_row[level] = center_x - side_x;
+                self.last_x_for_row[level] = center_x - side_x - EPSILON;
             }
             self.sched_idx[level] += 1;
         }
-- 
2.43.0


From e93a71865d9cc6334a5cf56089a0d0203e1fdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 03/20] fix: check the whole block when straightening labels

Only the center of the label was checked against the gap in the row, so
the label could be moved on top of its neighbor. The bounds assertion then
panicked on the next label of the row.
---
 layout/src/topo/placer/edge_fixer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..744cae7 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -88,8 +88,11 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let p2 = vg.pos(succ).center();
         let new_pos = p1.add(p2).scale(0.5);
 
+        // The whole block, and not just its center, must fit in the gap.
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
+        let left = new_pos.x - vg.pos(elem).distance_to_left(true);
+        let right = new_pos.x + vg.pos(elem).distance_to_right(true);
+        if in_range(bounds, left) && in_range(bounds, right) {
             vg.pos_mut(elem).set_x(new_pos.x);
             cnt += 1;
         }
-- 
2.43.0


From 09232417c2c43f7b5e5aea1febd0a09964335e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 04/20] fix: draw edges whose connector lands on one of its
 neighbors

The passthrough path normalized the zero vector and panicked when the edge
fixer moved a connector exactly onto the exit point of the previous element.
---
 layout/src/core/geometry.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..3ce75c4 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -237,8 +237,18 @@ pub fn get_passthrough_path_invisible(
     //                         v
     //                          B (to)
 
-    let ar = center.sub(from);
-    let rb = to.sub(center);
+    let mut ar = center.sub(from);
+    let mut rb = to.sub(center);
+
+    // The edge fixer may place the center exactly on top of one of the
+    // neighbors. That side has no direction, so follow the other side.
+    if from == center && to == center {
+        return create_vector_of_length(center, to, force);
+    } else if from == center {
+        ar = rb;
+    } else if to == center {
+        rb = ar;
+    }
 
     let a_outgoing_edge = normalize_scale_vector(ar.neg(), force);
     let b_outgoing_edge = normalize_scale_vector(rb.neg(), force);
-- 
2.43.0


From f6bb02e6ad40f59c887f8a92f299d880a662869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 05/20] fix: lay out the empty graph

'digraph {}' is a valid program, but ranking panicked on a graph with no
nodes.
---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 6aabe12..fcc3710 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -156,6 +156,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to rank, place or draw in an empty graph.
+        if self.nodes.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 6fbdaa9e3437c82ec36e02f92481bb2432efe1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 06/20] fix: parse record labels that are empty or end with an
 open brace

The end of the buffer was only checked after a character was consumed, so
the labels "" and "a|{" indexed past the end of the input.
---
 layout/src/gv/record.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..525538f 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -88,6 +88,11 @@ impl RecordParser {
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
         loop {
+            // Are we at the end of the buffer?
+            if self.pos == self.input.len() {
+                return frame.finalize_record();
+            }
+
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,10 +124,6 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
     }
 }
-- 
2.43.0


From ba619b5d64c519623df10693ec68a014480cc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 07/20] fix: don't swallow the character after a negative
 number

'[pos=-5]' lost its closing bracket.
---
 layout/src/gv/parser/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..d5dc2e5 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,8 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            // The number is already consumed.
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From 5a9ea1c930ff1df2e9ade139dc89d31749cab868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 08/20] fix: end line comments at the end of the line or of the
 file

A tab ended a '//' comment, and the last character of a comment that runs
up to the end of the file was lexed as a token.
---
 layout/src/gv/parser/lexer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index d5dc2e5..a59a0ec 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -118,6 +118,8 @@ impl Lexer {
                 }
                 prev = self.ch;
             }
+            // Consume the last character of the unterminated comment.
+            self.read_char();
             return changed;
         }
 
@@ -125,11 +127,12 @@ impl Lexer {
             while self.has_next() {
                 changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
-                    self.read_char();
-                    return changed;
+                if self.ch == '\n' || self.ch == '\r' {
+                    break;
                 }
             }
+            // Consume the end of the line, or the last character in the file.
+            self.read_char();
         }
         changed
     }
-- 
2.43.0


From 307ceb0d452c772a4e2ee5cd665b05d52c85004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 09/20] fix: use the port of each node in a chain of edges

In 'a:p -> b:q -> c' the second edge left b through the port of a.
---
 layout/src/gv/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..d3690e6 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -108,6 +108,7 @@ impl GraphBuilder {
         self.init_node_with_name(&e.from.name, false);
 
         let mut prev = &e.from.name;
+        let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
             self.init_node_with_name(curr, false);
@@ -120,11 +121,12 @@ impl GraphBuilder {
                 to: curr.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
+                from_port: prev_port.clone(),
                 to_port: dest.0.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
+            prev_port = &dest.0.port;
         }
         self.edge_attr.pop();
     }
-- 
2.43.0


From a10559f0f615f56a6b7a7400fca585eb6fab041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 10/20] fix: report write errors from save_to_file

The result of the write was dropped, so a full disk was reported as
success.
---
 layout/src/core/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..7b526ce 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -6,8 +6,8 @@ use std::fs::File;
 use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
-    let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    let mut f = File::create(filename)?;
+    f.write_all(content.as_bytes())?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From f6067d06522854a512eaaf6655d9c3e5c8e7273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 11/20] fix: emit the font styles in a fixed order

The styles were listed in hash order, so two runs on the same graph could
produce different files.
---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..eedb38c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -56,7 +56,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +67,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From d6b70ee3a9e8922639e146e3428d2fbd1efeea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 12/20] fix: drop characters that are not legal in XML from
 labels

A control character in a label made the whole SVG file malformed.
---
 layout/src/backends/svg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index eedb38c..bf7a8f1 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,13 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // Drop the characters that can't appear in an XML document.
+            '\u{0}'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {}
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From 8e0ab519665097e3de0d0279c5f9292ac6d60d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 13/20] fix: visit each node once when checking reachability

The search unmarked the nodes on the way out and enumerated all of the
paths, so dense graphs with a few dozen nodes never finished.
---
 layout/src/adt/dag.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..7a810e3 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -222,7 +222,8 @@ impl DAG {
             return false;
         }
 
-        // Push to the dfs stack.
+        // Mark the node. It stays marked when we leave it, because there is no
+        // need to search the same node twice.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +233,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From 7b347b2d749598a5b46d52c48fd1a549b2f860f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 14/20] fix: keep the style of labels that move between rows

The label took the default font of the connector that it moved to.
---
 layout/src/topo/placer/move_between_rows.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..da162d3 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -43,6 +43,7 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
+        vg.element_mut(pred).look = vg.element(curr).look.clone();
         vg.element_mut(pred).resize();
         vg.element_mut(curr).resize();
         return true;
-- 
2.43.0


From 907906d794738cf69d3e804c7a503b6e55a94140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 15/20] fix: check the y range of vertical segments

A vertical segment was reported to intersect every box above and below it.
---
 layout/src/core/geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 3ce75c4..49b502e 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -499,7 +499,10 @@ pub fn segment_rect_intersection(
 
     // Check the case of vertical segment:
     if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        let above = seg.0.y < rect.0.y && seg.1.y < rect.0.y;
+        let below = seg.0.y > rect.1.y && seg.1.y > rect.1.y;
+        let in_x = seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        return in_x && !above && !below;
     }
 
     // Check if the lives are outside of the x range.
-- 
2.43.0


From b8d8646d6318ad73a23baa414a24c6aea4564a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 16/20] fix: divide records by the size of their cells as drawn

The cells of a record were measured as if the nested rows ran in the
direction of the parent, so cells next to a nested row could be smaller
than their text.
---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..c1f9d48 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -218,7 +218,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From 8022062f5a3b06218c55d3c87ac8e2315d519a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 17/20] fix: keep labels that are moved by the edge fixer
 inside the drawing

---
 layout/src/topo/placer/edge_fixer.rs |  4 +++-
 layout/src/topo/placer/simple.rs     | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 744cae7..ee8a6af 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -299,7 +299,6 @@ pub fn do_it(vg: &mut VisualGraph) {
     let mut cnt = 0;
     cnt += handle_disconnected_nodes(vg);
     cnt += align_self_edges(vg);
-    align_to_left(vg);
     #[cfg(feature = "log")]
     log::info!("Aligned {} edges.", cnt);
 
@@ -310,4 +309,7 @@ pub fn do_it(vg: &mut VisualGraph) {
     cnt = adjust_crossing_edges(vg);
     #[cfg(feature = "log")]
     log::info!("Adjusted crossing {} edges.", cnt);
+
+    // Keep the labels that the passes above moved inside of the drawing.
+    align_to_left(vg);
 }
diff --git a/layout/src/topo/placer/simple.rs b/layout/src/topo/placer/simple.rs
index 647940e..1158a09 100644
--- a/layout/src/topo/placer/simple.rs
+++ b/layout/src/topo/placer/simple.rs
@@ -5,19 +5,21 @@ use super::EPSILON;
 use crate::core::geometry::Point;
 use crate::topo::layout::VisualGraph;
 
-/// Move the whole graph all the way to the left.
+/// Move the whole graph all the way to the left, and below the top edge.
 pub fn align_to_left(vg: &mut VisualGraph) {
     // Find the element with the lowest X value.
     let mut first_x: f64 = 10000.;
+    let mut first_y: f64 = 0.;
 
     for elem in vg.iter_nodes() {
-        let loc = vg.pos(elem).bbox(true).0.x;
-        first_x = first_x.min(loc);
+        let loc = vg.pos(elem).bbox(true).0;
+        first_x = first_x.min(loc.x);
+        first_y = first_y.min(loc.y);
     }
 
     // Subtract the lowest X value from everything.
     for elem in vg.iter_nodes() {
-        vg.pos_mut(elem).translate(Point::new(-first_x, 0.));
+        vg.pos_mut(elem).translate(Point::new(-first_x, -first_y));
     }
 }
 
-- 
2.43.0


From 6c548187a781b69e9b4f9006ca4061eb641a1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 18/20] fix: grow the drawing by the size of the text

---
 layout/src/backends/svg.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index bf7a8f1..b5b1a2e 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -2,7 +2,7 @@
 
 use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
-use crate::core::geometry::Point;
+use crate::core::geometry::{get_size_for_str, Point};
 use crate::core::style::StyleAttr;
 use std::collections::BTreeMap;
 
@@ -217,8 +217,6 @@ impl RenderBackend for SVGWriter {
     }
 
     fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
-        let len = text.len();
-
         let font_class = self.get_or_create_font_style(look.font_size);
 
         let mut content = String::new();
@@ -230,7 +228,9 @@ impl RenderBackend for SVGWriter {
             content.push_str("</tspan>");
         }
 
-        self.grow_window(xy, Point::new(10., len as f64 * 10.));
+        // The text is centered around the point.
+        let size = get_size_for_str(text, look.font_size);
+        self.grow_window(xy, size.scale(0.5));
         let line = format!(
             "<text dominant-baseline=\"middle\" text-anchor=\"middle\" 
             x=\"{}\" y=\"{}\" class=\"{}\">{}</text>",
-- 
2.43.0


From 167367a8a9bfeb602e45ecf09ee5751100848859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 19/20] fix: don't overflow on large font sizes

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index b5b1a2e..9cc312a 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -221,7 +221,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 7f9843d2a3f4f02cd0aceb1b8438ac26372b00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 20/20] fix: don't apply the defaults to nodes that already
 exist

A node statement for an existing node applied the defaults of its scope
to it, so 'a [color=red]; node [color=blue]; a [label=x]' made a blue.
---
 layout/src/gv/builder.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index d3690e6..097dc0b 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -105,13 +105,13 @@ impl GraphBuilder {
             self.edge_attr.insert(&att.0, &att.1);
         }
 
-        self.init_node_with_name(&e.from.name, false);
+        self.init_node_with_name(&e.from.name);
 
         let mut prev = &e.from.name;
         let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
-            self.init_node_with_name(curr, false);
+            self.init_node_with_name(curr);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
@@ -131,33 +131,24 @@ impl GraphBuilder {
         self.edge_attr.pop();
     }
 
-    // If \p overwrite is set then we are declaring a node. This means that
-    // we need to update the properties that already exist.
-    fn init_node_with_name(&mut self, name: &str, overwrite: bool) {
-        let node_attr = self.node_attr.flatten();
-
-        if let Option::Some(prop_list) = self.nodes.get_mut(name) {
-            if !overwrite {
-                return;
-            }
-            for p in node_attr {
-                prop_list.insert(p.0, p.1);
-            }
-        } else {
+    // Create the node, with the current default attributes, if it is not there
+    // already.
+    fn init_node_with_name(&mut self, name: &str) {
+        if !self.nodes.contains_key(name) {
             self.node_order.push(name.to_string());
-            self.nodes.insert(name.to_string(), node_attr);
+            self.nodes
+                .insert(name.to_string(), self.node_attr.flatten());
         }
     }
 
     fn visit_node(&mut self, n: &ast::NodeStmt) {
-        self.node_attr.push();
-
+        // The defaults don't change a node that already exists. The attributes
+        // of the statement do.
+        self.init_node_with_name(&n.id.name);
+        let prop_list = self.nodes.get_mut(&n.id.name).unwrap();
         for att in n.list.iter() {
-            self.node_attr.insert(&att.0, &att.1);
+            prop_list.insert(att.0.clone(), att.1.clone());
         }
-
-        self.init_node_with_name(&n.id.name, true);
-        self.node_attr.pop();
     }
 
     fn visit_att(&mut self, att: &ast::AttrStmt) {
-- 
2.43.0

