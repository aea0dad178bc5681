From 44d91e41f5043b3cedb1bd4d98b45f6176b20c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 01/21] fix: do not drop the character that follows a negative
 number

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..46b0b75 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,7 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From b08281e669f6c7b9237b7090901eca6cf0093078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 02/21] fix: end line comments at the end of the line and
 report unterminated comments

---
 layout/src/gv/parser/lexer.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 46b0b75..c51cdea 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -101,35 +101,25 @@ impl Lexer {
 
     pub fn skip_comment(&mut self) -> bool {
         let mut changed = false;
-        if self.ch != '/' {
+        if self.ch != '/' || !self.has_next() {
             return changed;
         }
-        self.read_char();
-        changed = true;
 
-        if self.ch == '*' {
-            let mut prev = '\0';
-            while self.has_next() {
-                changed = true;
+        if self.input[self.pos] == '*' {
+            // Leave an unterminated comment in place, to report the error.
+            let body = &self.input[self.pos + 1..];
+            if let Some(end) = body.windows(2).position(|w| w == ['*', '/']) {
+                self.pos += end + 3;
                 self.read_char();
-                if prev == '*' && self.ch == '/' {
-                    self.read_char();
-                    return changed;
-                }
-                prev = self.ch;
-            }
-            return changed;
-        }
-
-        if self.ch == '/' {
-            while self.has_next() {
                 changed = true;
+            }
+        } else if self.input[self.pos] == '/' {
+            // Skip to the end of the line, or to the end of the file.
+            while self.has_next() && self.ch != '\n' {
                 self.read_char();
-                if self.ch.is_ascii_control() {
-                    self.read_char();
-                    return changed;
-                }
             }
+            self.read_char();
+            changed = true;
         }
         changed
     }
-- 
2.43.0


From bc8d6d65a5cc08e0d7916d65c7706619576b64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 03/21] fix: accept identifiers that start with an underscore

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index c51cdea..0a62957 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -231,7 +231,7 @@ impl Lexer {
                 tok = Token::EOF;
             }
             _ => {
-                if self.ch.is_ascii_alphabetic() {
+                if self.ch.is_ascii_alphabetic() || self.ch == '_' {
                     let name = self.read_identifier();
                     match name.as_str() {
                         "graph" => {
-- 
2.43.0


From 4fb390a638739657112746f7ea7961d710359efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 04/21] fix: accept a node statement that is followed by a
 keyword or a brace

---
 layout/src/gv/parser/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index c61280f..ea8573f 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -155,7 +155,13 @@ impl DotParser {
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
                     }
-                    Token::CloseBrace => {
+                    // The separator between statements is optional.
+                    Token::CloseBrace
+                    | Token::OpenBrace
+                    | Token::SubgraphKW
+                    | Token::GraphKW
+                    | Token::NodeKW
+                    | Token::EdgeKW => {
                         let ns = ast::NodeStmt::new(id0);
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
-- 
2.43.0


From 98714abc77306204e7d36a38f6e0aca72ee3de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 05/21] fix: do not read past the end of a record label

---
 layout/src/gv/record.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..1533d05 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -87,7 +87,7 @@ impl RecordParser {
 
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
-        loop {
+        while self.pos < self.input.len() {
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,11 +119,9 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
+        // We are at the end of the buffer.
+        frame.finalize_record()
     }
 }
 
-- 
2.43.0


From b30db9c7e7e38219559e27d076db37aaabf299d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 06/21] fix: use the port of each source node in a chain of
 edges

---
 layout/src/gv/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..0857e50 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -107,7 +107,7 @@ impl GraphBuilder {
 
         self.init_node_with_name(&e.from.name, false);
 
-        let mut prev = &e.from.name;
+        let mut prev = &e.from;
         for dest in &e.to {
             let curr = &dest.0.name;
             self.init_node_with_name(curr, false);
@@ -116,15 +116,15 @@ impl GraphBuilder {
             let prop_list = self.edge_attr.flatten();
 
             let edge = EdgeDesc {
-                from: prev.clone(),
+                from: prev.name.clone(),
                 to: curr.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
+                from_port: prev.port.clone(),
                 to_port: dest.0.port.clone(),
             };
             self.edges.push(edge);
-            prev = curr;
+            prev = &dest.0;
         }
         self.edge_attr.pop();
     }
-- 
2.43.0


From 6d4fa0878ca639666a799c60165bc353530d1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 07/21] fix: visit each node once when checking for
 reachability

---
 layout/src/adt/dag.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..99b4207 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -217,12 +217,11 @@ impl DAG {
             return true;
         }
 
-        // Don't step into a cycle.
+        // Don't visit nodes that were already searched.
         if visited[from.idx] {
             return false;
         }
 
-        // Push to the dfs stack.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +231,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From 2667f4c7dbae9ce111e4e01029d2068bc8dd811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 08/21] fix: do not crash when drawing an empty graph

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..f3ec3d6 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to draw in an empty graph.
+        if self.nodes.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 8b23e6631de94b6e809dc21eab5179e0e48ff2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 09/21] fix: tolerate rounding errors when checking the
 placement of boxes

---
 layout/src/topo/placer/verifier.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/verifier.rs b/layout/src/topo/placer/verifier.rs
index 9aeefe5..a1ff69c 100644
--- a/layout/src/topo/placer/verifier.rs
+++ b/layout/src/topo/placer/verifier.rs
@@ -1,4 +1,5 @@
-use crate::core::geometry::do_boxes_intersect;
+use super::EPSILON;
+use crate::core::geometry::{do_boxes_intersect, Point};
 use crate::topo::layout::VisualGraph;
 
 pub fn do_it(vg: &mut VisualGraph) {
@@ -17,8 +18,10 @@ fn verify_order_in_rank(vg: &mut VisualGraph) {
         let first_node = node_iter.next().unwrap();
 
         for curr_node in node_iter {
-            let bb0 = vg.pos(first_node).bbox(true);
+            let mut bb0 = vg.pos(first_node).bbox(true);
             let bb1 = vg.pos(curr_node).bbox(true);
+            // Boxes may touch. Tolerate the floating point rounding errors.
+            bb0.1 = bb0.1.sub(Point::splat(EPSILON));
             assert!(!do_boxes_intersect(bb0, bb1), "Boxes must not intersect");
             assert!(
                 bb0.0.x < bb1.0.x,
-- 
2.43.0


From a51e3c4ece1638b39a481b0e47d700268ce4006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 10/21] fix: do not move labels on top of their neighbors when
 straightening edges

---
 layout/src/topo/placer/edge_fixer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..4adc74c 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,7 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{in_range, segment_rect_intersection, Point};
+use crate::core::geometry::{segment_rect_intersection, Point};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -89,8 +89,11 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let new_pos = p1.add(p2).scale(0.5);
 
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
-            vg.pos_mut(elem).set_x(new_pos.x);
+        let mut pos = vg.pos(elem);
+        pos.set_x(new_pos.x);
+        // The whole box must fit between the neighbors, not just the center.
+        if pos.in_x_range(bounds, true) {
+            *vg.pos_mut(elem) = pos;
             cnt += 1;
         }
     }
-- 
2.43.0


From f8750eed2e11b90e7b0be2706a1937df351c750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 11/21] fix: size nested record fields in the direction that
 they are drawn in

---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..c1f9d48 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -218,7 +218,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From c4eabc4d0c9b9f10a34b59f3fe1a99392f5dbf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 12/21] fix: emit the font styles in a deterministic order

---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..eedb38c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -56,7 +56,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +67,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From b7f1e6e599cd626b6dfedd60f6388a542525d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 13/21] fix: replace the characters that XML does not allow in
 labels

---
 layout/src/backends/svg.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index eedb38c..f2c301b 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,15 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // These characters are not allowed in XML documents.
+            '\u{0}'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {
+                res.push('\u{fffd}');
+            }
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From cabaf9482db908e2834416e3ca5a7086c6ee503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 14/21] fix: do not overflow on very large font sizes

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index f2c301b..c490896 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -225,7 +225,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 3d8eecbdce764bb8dea01d846de27a2529ca726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 15/21] fix: report errors when writing the output file

---
 layout/src/core/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..7b526ce 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -6,8 +6,8 @@ use std::fs::File;
 use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
-    let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    let mut f = File::create(filename)?;
+    f.write_all(content.as_bytes())?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From bbf11d81c68a23059b7dda8f67adbafda2ffcba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 16/21] fix: keep the size of labels that move between rows in
 left-to-right graphs

---
 layout/src/topo/placer/move_between_rows.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..f887b3d 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -17,6 +17,20 @@ fn get_row_width(vg: &mut VisualGraph, idx: usize) -> f64 {
     sum
 }
 
+/// Update the size of the label. The elements of left-to-right graphs are
+/// transposed at this point, but the text is not.
+fn resize_label(vg: &mut VisualGraph, node: NodeHandle) {
+    let is_transposed = !vg.orientation().is_top_to_bottom();
+    let elem = vg.element_mut(node);
+    if is_transposed {
+        elem.transpose();
+    }
+    elem.resize();
+    if is_transposed {
+        elem.transpose();
+    }
+}
+
 /// Move the node label from curr to pred. Pred must have an empty label.
 /// Return True if it was possible to move the labels.
 fn move_label(
@@ -43,8 +57,8 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
-        vg.element_mut(pred).resize();
-        vg.element_mut(curr).resize();
+        resize_label(vg, pred);
+        resize_label(vg, curr);
         return true;
     }
     false
-- 
2.43.0


From 81902f6eaeee8e32c3fd22f37344c1ca37686709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 17/21] fix: check the y range of vertical segments when
 intersecting with a box

---
 layout/src/core/geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..3556932 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -489,7 +489,10 @@ pub fn segment_rect_intersection(
 
     // Check the case of vertical segment:
     if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        let above = seg.0.y < rect.0.y && seg.1.y < rect.0.y;
+        let below = seg.0.y > rect.1.y && seg.1.y > rect.1.y;
+        let in_x_range = seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        return in_x_range && !above && !below;
     }
 
     // Check if the lives are outside of the x range.
-- 
2.43.0


From b2016fbfc41f0ec044020f055b26e26ce475584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 18/21] fix: do not apply new attribute defaults to nodes that
 already exist

---
 layout/src/gv/builder.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 0857e50..60541c0 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -105,12 +105,12 @@ impl GraphBuilder {
             self.edge_attr.insert(&att.0, &att.1);
         }
 
-        self.init_node_with_name(&e.from.name, false);
+        self.init_node_with_name(&e.from.name);
 
         let mut prev = &e.from;
         for dest in &e.to {
             let curr = &dest.0.name;
-            self.init_node_with_name(curr, false);
+            self.init_node_with_name(curr);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
@@ -129,33 +129,25 @@ impl GraphBuilder {
         self.edge_attr.pop();
     }
 
-    // If \p overwrite is set then we are declaring a node. This means that
-    // we need to update the properties that already exist.
-    fn init_node_with_name(&mut self, name: &str, overwrite: bool) {
-        let node_attr = self.node_attr.flatten();
-
-        if let Option::Some(prop_list) = self.nodes.get_mut(name) {
-            if !overwrite {
-                return;
-            }
-            for p in node_attr {
-                prop_list.insert(p.0, p.1);
-            }
-        } else {
+    // Create the node, with the attributes that are in scope, when it is first
+    // mentioned.
+    fn init_node_with_name(&mut self, name: &str) {
+        if !self.nodes.contains_key(name) {
+            let node_attr = self.node_attr.flatten();
             self.node_order.push(name.to_string());
             self.nodes.insert(name.to_string(), node_attr);
         }
     }
 
     fn visit_node(&mut self, n: &ast::NodeStmt) {
-        self.node_attr.push();
+        self.init_node_with_name(&n.id.name);
 
-        for att in n.list.iter() {
-            self.node_attr.insert(&att.0, &att.1);
+        // Update the attributes that are specified explicitly.
+        if let Option::Some(prop_list) = self.nodes.get_mut(&n.id.name) {
+            for att in n.list.iter() {
+                prop_list.insert(att.0.clone(), att.1.clone());
+            }
         }
-
-        self.init_node_with_name(&n.id.name, true);
-        self.node_attr.pop();
     }
 
     fn visit_att(&mut self, att: &ast::AttrStmt) {
-- 
2.43.0


From f34b4a8785e076dfc4658812b3321d5823acbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 19/21] fix: keep the look of labels that move between rows

---
 layout/src/topo/placer/move_between_rows.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index f887b3d..53be1a0 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -55,6 +55,9 @@ fn move_label(
         if txt.is_none() {
             return false;
         }
+        // The label is drawn with its own look (color, font size, etc.).
+        let look = vg.element(curr).look.clone();
+        vg.element_mut(pred).look = look;
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
         resize_label(vg, pred);
-- 
2.43.0


From 1cd25479fa84f8494dc2cd70f873b01e6dfed3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 20/21] fix: do not move labels on top of nodes when adjusting
 crossing edges

---
 layout/src/topo/placer/edge_fixer.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 4adc74c..0f90d81 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,9 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{segment_rect_intersection, Point};
+use crate::core::geometry::{
+    do_boxes_intersect, segment_rect_intersection, Point,
+};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -193,6 +195,17 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
     false
 }
 
+/// \returns True if moving the connector \p elem by \p offset places it on top of
+/// another element.
+fn is_move_blocked(vg: &VisualGraph, elem: NodeHandle, offset: Point) -> bool {
+    let mut pos = vg.pos(elem);
+    pos.translate(offset);
+    let bbox = pos.bbox(false);
+    vg.iter_nodes().any(|other| {
+        other != elem && do_boxes_intersect(bbox, vg.pos(other).bbox(true))
+    })
+}
+
 pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
     let mut cnt = 0;
     // A list of nodes to adjust, and the dy.
@@ -273,6 +286,10 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
 
                     if is_intersecting_any(&[seg0, seg1], &bounds) {
                         for offset in offsets {
+                            // Don't move the label on top of other elements.
+                            if is_move_blocked(vg, curr, offset) {
+                                continue;
+                            }
                             let seg0 = (seg0.0, seg0.1.add(offset));
                             let seg1 = (seg1.0.add(offset), seg1.1);
                             if !is_intersecting_any(&[seg0, seg1], &pos_all) {
-- 
2.43.0


From dd5374717d2ef5f96f3adca5bf6a143ec749ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:40 +0000
Subject: [PATCH 21/21] fix: do not move labels out of the drawing when
 adjusting crossing edges

---
 layout/src/topo/placer/edge_fixer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 0f90d81..ab0b979 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -196,11 +196,14 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
 }
 
 /// \returns True if moving the connector \p elem by \p offset places it on top of
-/// another element.
+/// another element, or out of the drawing.
 fn is_move_blocked(vg: &VisualGraph, elem: NodeHandle, offset: Point) -> bool {
     let mut pos = vg.pos(elem);
     pos.translate(offset);
     let bbox = pos.bbox(false);
+    if bbox.0.y < 0. {
+        return true;
+    }
     vg.iter_nodes().any(|other| {
         other != elem && do_boxes_intersect(bbox, vg.pos(other).bbox(true))
     })
-- 
2.43.0

