From 3ecece2faff6648dfa9c68342b172b5924e30ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:00 +0000
Subject: [PATCH 01/34] fix: keep scroll offsets in range for negative amounts
 and extreme sizes

---
 crates/textual/src/scroll.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/scroll.rs b/crates/textual/src/scroll.rs
index f36607c..99697d0 100644
--- a/crates/textual/src/scroll.rs
+++ b/crates/textual/src/scroll.rs
@@ -56,12 +56,16 @@ impl ScrollState {
 
     /// Maximum horizontal scroll offset.
     pub fn max_scroll_x(&self) -> i32 {
-        (self.virtual_width - self.viewport_width).max(0)
+        self.virtual_width
+            .saturating_sub(self.viewport_width)
+            .max(0)
     }
 
     /// Maximum vertical scroll offset.
     pub fn max_scroll_y(&self) -> i32 {
-        (self.virtual_height - self.viewport_height).max(0)
+        self.virtual_height
+            .saturating_sub(self.viewport_height)
+            .max(0)
     }
 
     /// Whether horizontal scrolling is possible.
@@ -94,22 +98,34 @@ impl ScrollState {
 
     /// Scroll up by given amount (clamped to bounds).
     pub fn scroll_up(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y - amount).max(0);
+        self.offset_y = self
+            .offset_y
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll down by given amount (clamped to bounds).
     pub fn scroll_down(&mut self, amount: i32) {
-        self.offset_y = (self.offset_y + amount).min(self.max_scroll_y());
+        self.offset_y = self
+            .offset_y
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_y());
     }
 
     /// Scroll left by given amount (clamped to bounds).
     pub fn scroll_left(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x - amount).max(0);
+        self.offset_x = self
+            .offset_x
+            .saturating_sub(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll right by given amount (clamped to bounds).
     pub fn scroll_right(&mut self, amount: i32) {
-        self.offset_x = (self.offset_x + amount).min(self.max_scroll_x());
+        self.offset_x = self
+            .offset_x
+            .saturating_add(amount)
+            .clamp(0, self.max_scroll_x());
     }
 
     /// Scroll to absolute position (clamped to bounds).
-- 
2.43.0


From 3b13b5da47df93583b1b2089d41221425bbeeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:23 +0000
Subject: [PATCH 02/34] fix: keep the scrollbar thumb bounds inside the track

---
 crates/textual/src/scrollbar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/scrollbar.rs b/crates/textual/src/scrollbar.rs
index 011258c..bdc02a5 100644
--- a/crates/textual/src/scrollbar.rs
+++ b/crates/textual/src/scrollbar.rs
@@ -339,7 +339,7 @@ impl ScrollBarRender {
 
         let position_ratio = position / (virtual_size - window_size);
         let thumb_position = ((size - thumb_size) * position_ratio) as i32;
-        let thumb_end = thumb_position + thumb_size.ceil() as i32;
+        let thumb_end = (thumb_position + thumb_size.ceil() as i32).min(track_size);
 
         (thumb_position, thumb_end)
     }
-- 
2.43.0


From 35c1704863c4935e2da9b647da0b6ead2e4577a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 03/34] fix: grid fr tracks fill the available space for every
 decimal weight

---
 crates/textual/src/layouts/grid.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..6c4632a 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -142,6 +142,11 @@ impl GridLayout {
         }
     }
 
+    /// Scale an fr value to an integer weight (thousandths, rounded to nearest).
+    fn scale_fr(scalar: &Scalar) -> i64 {
+        (scalar.value * 1000.0).round() as i64
+    }
+
     /// Distribute available space among tracks (columns or rows).
     ///
     /// Handles fr units, fixed sizes, and auto sizing.
@@ -167,13 +172,13 @@ impl GridLayout {
 
         // First pass: calculate fixed sizes and sum fr values
         let mut sizes = vec![0i32; count];
-        let mut total_fr = 0.0;
+        let mut total_fr: i64 = 0;
         let mut remaining = available_for_tracks;
 
         for (i, spec) in track_specs.iter().enumerate() {
             match spec.unit {
                 Unit::Fraction => {
-                    total_fr += spec.value;
+                    total_fr += Self::scale_fr(spec);
                 }
                 Unit::Auto => {
                     // Auto gets equal share of remaining space
@@ -193,16 +198,13 @@ impl GridLayout {
         // Second pass: distribute remaining space to fr and auto using Fraction
         // to avoid floating-point accumulation errors. Remainder is carried forward
         // so extra pixels naturally go to LATER tracks (matching Textual behavior).
-        if total_fr > 0.0 {
-            // Scale fr values to integers (multiply by 1000 to preserve precision)
-            let total_fr_scaled = (total_fr * 1000.0) as i64;
+        if total_fr > 0 {
             let mut remainder = Fraction::ZERO;
 
             for (i, spec) in track_specs.iter().enumerate() {
                 if spec.unit == Unit::Fraction {
-                    let fr_scaled = (spec.value * 1000.0) as i64;
-                    let raw =
-                        Fraction::new(remaining as i64 * fr_scaled, total_fr_scaled) + remainder;
+                    let fr_scaled = Self::scale_fr(spec);
+                    let raw = Fraction::new(remaining as i64 * fr_scaled, total_fr) + remainder;
                     sizes[i] = raw.floor() as i32;
                     remainder = raw.fract();
                 }
-- 
2.43.0


From c3fb1fc6e463a96a115ac26593e528fda16b712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:57 +0000
Subject: [PATCH 04/34] fix: consider every ancestor when matching combinators

A descendant combinator followed by a child combinator only tried the
nearest matching ancestor, so 'A > B C' missed C inside A > B > X > B.
---
 crates/tcss/src/parser/cascade.rs | 89 ++++++++++++-------------------
 1 file changed, 35 insertions(+), 54 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..0f54ed4 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, CompoundSelector, Declaration, Rule, RuleItem, Selector,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -158,14 +159,9 @@ impl WidgetMeta {
 
         // The rightmost part must match the widget itself.
         let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        let last = parts.len() - 1;
 
-        if !parts[current_part_idx]
-            .compound
-            .selectors
-            .iter()
-            .all(|s| self.matches_selector(s, ctx))
-        {
+        if !self.matches_compound(&parts[last].compound, ctx) {
             return false;
         }
 
@@ -174,56 +170,41 @@ impl WidgetMeta {
             return true;
         }
 
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
-                .selectors
-                .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
-
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
+        // Match the remaining parts against ancestors, right to left. `reached[i]` means that
+        // the parts to the right can be matched such that ancestor `i` is the parent of the
+        // outermost element used so far. All choices of ancestors are followed, because the
+        // nearest match of a descendant combinator is not always the right one
+        // (`A > B C` inside `A > B > X > B`).
+        let mut reached = vec![false; ancestors.len() + 1];
+        reached[0] = true;
+
+        for part_idx in (0..last).rev() {
+            let part = &parts[part_idx];
+            let mut next = vec![false; ancestors.len() + 1];
+            let mut allowed = false;
+
+            for (idx, ancestor) in ancestors.iter().enumerate() {
+                allowed = match part.combinator {
+                    Combinator::Child => reached[idx],
+                    Combinator::Descendant | Combinator::None => allowed || reached[idx],
+                    Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
+                };
+                if allowed && ancestor.matches_compound(&part.compound, ctx) {
+                    next[idx + 1] = true;
                 }
             }
+            reached = next;
         }
 
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
+        reached.contains(&true)
+    }
+
+    /// Checks if this widget matches every simple selector of a compound selector.
+    fn matches_compound(&self, compound: &CompoundSelector, ctx: &SelectorContext) -> bool {
+        compound
+            .selectors
+            .iter()
+            .all(|s| self.matches_selector(s, ctx))
     }
 }
 
-- 
2.43.0


From e143356603802ba9c336500c62d6ef0b198cfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:22 +0000
Subject: [PATCH 05/34] fix: a selector list counts with its most specific
 matching selector

---
 crates/tcss/src/parser/cascade.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 0f54ed4..453a5e3 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -220,17 +220,20 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
+        // The rule applies once, with its most specific matching selector.
+        let mut best: Option<Specificity> = None;
         for complex in &rule.selectors.selectors {
             if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
+                best = best.max(Some(complex.specificity()));
             }
         }
+        if let Some(specificity) = best {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
+        }
     }
 
     // 2. Sort by Specificity, then Source Order
-- 
2.43.0


From 04386a738132a2d4b61536f05cd0edfada252c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:57 +0000
Subject: [PATCH 06/34] fix: box-drawing glyphs whose arms did not match their
 quad

The horizontal half lines and two mixed heavy/thin crosses were swapped:
(0, 1, 0, 0) has a right arm only, but produced the left half line.
---
 crates/textual/src/box_drawing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/box_drawing.rs b/crates/textual/src/box_drawing.rs
index 13e9df5..b907407 100644
--- a/crates/textual/src/box_drawing.rs
+++ b/crates/textual/src/box_drawing.rs
@@ -114,8 +114,8 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     // Mixed cross junctions
     map.insert((1, 2, 1, 2), '┿'); // thin vertical, heavy horizontal
     map.insert((2, 1, 2, 1), '╂'); // heavy vertical, thin horizontal
-    map.insert((2, 2, 1, 2), '╈'); // heavy top/horizontal, thin bottom
-    map.insert((1, 2, 2, 2), '╇'); // thin top, heavy bottom/horizontal
+    map.insert((2, 2, 1, 2), '╇'); // heavy top/horizontal, thin bottom
+    map.insert((1, 2, 2, 2), '╈'); // thin top, heavy bottom/horizontal
     map.insert((2, 2, 2, 1), '╊'); // heavy top/bottom/right, thin left
     map.insert((2, 1, 2, 2), '╉'); // heavy top/bottom/left, thin right
 
@@ -130,12 +130,12 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     map.insert((2, 1, 0, 2), '┹'); // bottom T: heavy top/left, thin right
 
     // Half lines (for edge caps)
-    map.insert((0, 1, 0, 0), '╴'); // thin left half
-    map.insert((0, 0, 0, 1), '╶'); // thin right half
+    map.insert((0, 1, 0, 0), '╶'); // thin right half
+    map.insert((0, 0, 0, 1), '╴'); // thin left half
     map.insert((1, 0, 0, 0), '╵'); // thin top half
     map.insert((0, 0, 1, 0), '╷'); // thin bottom half
-    map.insert((0, 2, 0, 0), '╸'); // heavy left half
-    map.insert((0, 0, 0, 2), '╺'); // heavy right half
+    map.insert((0, 2, 0, 0), '╺'); // heavy right half
+    map.insert((0, 0, 0, 2), '╸'); // heavy left half
     map.insert((2, 0, 0, 0), '╹'); // heavy top half
     map.insert((0, 0, 2, 0), '╻'); // heavy bottom half
 
-- 
2.43.0


From e1797bcbee8104d133793480e350866090705b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 07/34] fix: canvas drawing overflows on large screens and
 far-off coordinates

Canvas::new multiplied the dimensions as u16, so a 300x300 screen panicked
(or got too few cells); drawing strips near i32::MAX overflowed.
---
 crates/textual/src/canvas.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..99fa490 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
@@ -359,7 +359,7 @@ impl Canvas {
                 })
                 .unwrap_or_default();
             self.put_str(current_x, y, segment.text(), fg, bg, attrs);
-            current_x += segment.cell_length() as i32;
+            current_x = current_x.saturating_add(segment.cell_length() as i32);
         }
     }
 
@@ -368,7 +368,7 @@ impl Canvas {
     /// Each strip is rendered on a successive line, starting at `start_y`.
     pub fn render_strips(&mut self, strips: &[Strip], x: i32, start_y: i32) {
         for (i, strip) in strips.iter().enumerate() {
-            self.render_strip(strip, x, start_y + i as i32);
+            self.render_strip(strip, x, start_y.saturating_add(i as i32));
         }
     }
 
-- 
2.43.0


From 78dd98ec0179740021a89dee5498a5ebaf4e814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 08/34] fix: terminal keeps stale halves of partly overwritten
 wide graphemes

Drawing over one half of a two-cell grapheme left a lone continuation cell,
which flush skips (the old content stays on the terminal), or a lone head,
which flush prints over its neighbour. Blank such halves before flushing.
---
 crates/textual/src/canvas.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 99fa490..2fd2c8b 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -379,6 +379,8 @@ impl Canvas {
         let stdout = std::io::stdout();
         let mut out = BufWriter::with_capacity(8192, stdout.lock());
 
+        self.blank_split_graphemes();
+
         // First flush requires full redraw
         if self.first_flush {
             self.flush_full(&mut out)?;
@@ -395,6 +397,27 @@ impl Canvas {
         Ok(())
     }
 
+    /// Replaces the remaining half of a partly overwritten wide grapheme with a blank,
+    /// so that the terminal never has to show half a grapheme.
+    fn blank_split_graphemes(&mut self) {
+        let width = self.size.width as usize;
+        for i in 0..self.cells.len() {
+            let whole = if self.cells[i].continuation {
+                i % width > 0 && self.cells[i - 1].width == 2
+            } else if self.cells[i].width == 2 {
+                i % width + 1 < width && self.cells[i + 1].continuation
+            } else {
+                true
+            };
+            if !whole {
+                let cell = &mut self.cells[i];
+                cell.symbol = " ".to_string();
+                cell.width = 1;
+                cell.continuation = false;
+            }
+        }
+    }
+
     /// Full flush - redraws entire screen (used on first render).
     fn flush_full<W: Write>(&self, out: &mut W) -> std::io::Result<()> {
         execute!(out, cursor::MoveTo(0, 0))?;
-- 
2.43.0


From d0b4fb2e29538efb7eeb5a1f8c810ada0a3e69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 09/34] fix: cropping a line through a wide character shifted
 or widened it

---
 crates/textual/src/segment.rs | 25 +++++++++++++++++++++++++
 crates/textual/src/strip.rs   |  8 ++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/segment.rs b/crates/textual/src/segment.rs
index 054327b..2cc9f58 100644
--- a/crates/textual/src/segment.rs
+++ b/crates/textual/src/segment.rs
@@ -291,6 +291,31 @@ impl Segment {
         )
     }
 
+    /// Splits the segment at exactly the given cell position.
+    ///
+    /// Like [`Segment::split_at`], except that a wide character lying across the cut
+    /// becomes a blank on both sides, so that neither part is wider than asked for.
+    pub fn split_cells(&self, cut: usize) -> (Segment, Segment) {
+        let (left, right) = self.split_at(cut);
+        if left.cell_length <= cut {
+            return (left, right);
+        }
+
+        let (left, _) = self.split_at(cut - 1);
+        (
+            Segment {
+                text: format!("{} ", left.text),
+                cell_length: cut,
+                ..left
+            },
+            Segment {
+                text: format!(" {}", right.text),
+                cell_length: self.cell_length - cut,
+                ..right
+            },
+        )
+    }
+
     /// Applies a style layer on top of this segment's style.
     ///
     /// Creates a new segment with the combined styles. The new style's
diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..63f2fe9 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -202,20 +202,20 @@ impl Strip {
                 result_segments.push(segment.clone());
             } else if local_start == 0 {
                 // Take from start
-                let (left, _) = segment.split_at(local_end);
+                let (left, _) = segment.split_cells(local_end);
                 if !left.is_empty() {
                     result_segments.push(left);
                 }
             } else if local_end == seg_len {
                 // Take to end
-                let (_, right) = segment.split_at(local_start);
+                let (_, right) = segment.split_cells(local_start);
                 if !right.is_empty() {
                     result_segments.push(right);
                 }
             } else {
                 // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
+                let (_, temp) = segment.split_cells(local_start);
+                let (middle, _) = temp.split_cells(local_end - local_start);
                 if !middle.is_empty() {
                     result_segments.push(middle);
                 }
-- 
2.43.0


From a86e61b2c68cd6562510971a84dd1f1f9e23fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 10/34] fix: the space left by docked children is never
 negative

---
 crates/textual/src/layouts/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..066093e 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -191,10 +191,12 @@ pub fn arrange_children_with_viewport(
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
@@ -392,10 +394,12 @@ where
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
-- 
2.43.0


From e779644d0d2d5b3317c3d66b101e05d26d8689c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 11/34] fix: arrange undefined layers in order of appearance
 and every layer once

---
 crates/textual/src/layouts/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 066093e..7a6dc4d 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -831,18 +831,26 @@ fn build_layers<'a>(
 
     let mut result = Vec::new();
 
-    // First: add widgets on layers NOT in layer_order (they render at the bottom)
+    // First: add widgets on layers NOT in layer_order (they render at the bottom),
+    // in the order in which the layers first appear among the children.
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
-        if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+    for child in children {
+        let layer_name = child
+            .style
+            .layer
+            .clone()
+            .unwrap_or_else(|| "default".to_string());
+        if !layer_order.contains(&layer_name) {
+            if let Some(widgets) = layer_map.remove(&layer_name) {
+                result.push((layer_name, widgets));
+            }
         }
     }
 
     // Then: add explicitly defined layers in order (later = on top)
     for name in layer_order {
-        if let Some(widgets) = layer_map.get(name) {
-            result.push((name.clone(), widgets.clone()));
+        if let Some(widgets) = layer_map.remove(name) {
+            result.push((name.clone(), widgets));
         }
     }
 
-- 
2.43.0


From 5ef55f9b8504e0d9e86758538efdef4f08036343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 12/34] fix: a stack of fractional heights could lose a row to
 floating-point rounding

---
 crates/textual/src/layouts/vertical.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..b3bd7d3 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -84,6 +84,15 @@ fn resolve_child_width(
     }
 }
 
+/// Round an accumulated position down to a whole cell.
+///
+/// Positions are sums of fractional heights, so one that should be whole may come
+/// out a hair below it (ten times 2.4 is 23.999999999999996); without the slack
+/// such a sum would lose a row.
+fn floor_to_cell(position: f64) -> i32 {
+    (position + 1e-6).floor() as i32
+}
+
 impl Layout for VerticalLayout {
     fn arrange(
         &mut self,
@@ -283,8 +292,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = floor_to_cell(current_y);
+            let region_height = (floor_to_cell(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From b66f057539be4c5a0e31c132c61a9d64a38c0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:37 +0000
Subject: [PATCH 13/34] fix: keep the input cursor behind the typed character
 when it joins its neighbours

---
 crates/textual/src/widget/input.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..f59641d 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -8,7 +8,7 @@ use tcss::types::Visibility;
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
-use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, graphemes};
+use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes};
 use crate::widget::static_widget::Static;
 use crate::{KeyCode, MouseEvent, Size, Widget};
 
@@ -170,7 +170,12 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // The typed character may join its neighbours (a combining mark, a flag), so the
+        // cursor goes behind the grapheme that holds it now.
+        let typed_end = byte_index + ch.len_utf8();
+        self.cursor = grapheme_indices(&self.value)
+            .take_while(|(start, _)| *start < typed_end)
+            .count();
         self.refresh_display();
     }
 
-- 
2.43.0


From 1804b05cb1784a2efeeae97450e369b51f9cd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:59 +0000
Subject: [PATCH 14/34] fix: the innermost markup style wins where tags nest

---
 crates/rich/src/parser/markup.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..3426b5a 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -61,6 +61,9 @@ struct StackEntry {
     meta: HashMap<String, String>,
     /// Position in output where this style started.
     start_pos: usize,
+    /// Number of spans created before this tag opened; those of the tags inside it
+    /// come after them.
+    first_span: usize,
     /// Original tag content (for matching close tags).
     tag_content: String,
 }
@@ -139,6 +142,7 @@ impl Parser {
             style,
             meta,
             start_pos: self.output.len(),
+            first_span: self.spans.len(),
             tag_content,
         };
         self.style_stack.push(entry);
@@ -189,7 +193,9 @@ impl Parser {
         // Only create span if there's actual content and styling
         if end_pos > entry.start_pos && (!entry.style.is_empty() || !entry.meta.is_empty()) {
             let span = Span::with_meta(entry.start_pos, end_pos, entry.style, entry.meta);
-            self.spans.push(span);
+            // Spans are applied in order, so a tag goes before the tags it encloses,
+            // which have been closed already: the innermost style wins.
+            self.spans.insert(entry.first_span, span);
         }
     }
 
-- 
2.43.0


From dc03d2ef8fabfca5e351fa35ab869f5eb7a0e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:11 +0000
Subject: [PATCH 15/34] fix: a closing markup tag names whole words, and tags
 with a value by their key

---
 crates/rich/src/parser/markup.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index 3426b5a..12e34de 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -176,14 +176,13 @@ impl Parser {
 
     /// Check if a stack entry matches a close tag name.
     fn entry_matches(&self, entry: &StackEntry, name: &str) -> bool {
-        // Simple matching: check if the tag content starts with the name
-        // or contains it as a word
+        // Simple matching: check if the tag content contains the name as a word;
+        // a tag with a value (`link=...`) goes by what stands before the `=`
         let content_lower = entry.tag_content.to_lowercase();
+        let words = content_lower.split('=').next().unwrap_or_default();
         let name_lower = name.to_lowercase();
 
-        content_lower == name_lower
-            || content_lower.starts_with(&format!("{} ", name_lower))
-            || content_lower.contains(&format!(" {}", name_lower))
+        content_lower == name_lower || format!(" {} ", words).contains(&format!(" {} ", name_lower))
     }
 
     /// Create a span from a stack entry.
-- 
2.43.0


From 30ed30cd9c7641ebe41043a960916bcffcbbc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:22 +0000
Subject: [PATCH 16/34] fix: wrap marked-up text within the width, breaking
 words that are longer than a line

---
 crates/textual/src/content.rs | 113 +++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 55 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..4246055 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -25,7 +25,7 @@
 
 use std::collections::HashMap;
 
-use crate::grapheme::{display_width, graphemes};
+use crate::grapheme::{display_width, grapheme_indices, graphemes};
 use crate::segment::{Segment, Style};
 use crate::strip::Strip;
 use tcss::types::link::LinkStyle;
@@ -658,7 +658,6 @@ impl Content {
         spans: &[InternalSpan],
     ) -> Vec<Strip> {
         let mut result = Vec::new();
-        let mut current_width = 0;
 
         // Process word by word
         let words: Vec<&str> = line.split_whitespace().collect();
@@ -674,68 +673,72 @@ impl Content {
             }
         }
 
-        let mut current_segment_start = 0;
+        // The segment being filled: where it starts and where its last word ends
+        let mut segment_start = 0;
+        let mut segment_end = 0;
         let mut i = 0;
 
         while i < words.len() {
-            let word = words[i];
-            let word_width = display_width(word);
-
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_width = word_width;
-                    i += 1;
-                } else {
-                    // Word too long, need to break it - use the simple approach for now
-                    let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-                    current_segment_start = if i + 1 < word_positions.len() {
-                        word_positions[i + 1].0
-                    } else {
-                        line.len()
-                    };
-                    current_width = 0;
-                    i += 1;
-                }
+            let (word_start, word_end) = word_positions[i];
+
+            if display_width(&line[segment_start..word_end]) <= width {
+                // Word fits, with the space in front of it
+                segment_end = word_end;
+                i += 1;
+            } else if segment_end > segment_start {
+                // Word doesn't fit, emit current segment and start a new one at this word
+                let segment_text = &line[segment_start..segment_end];
+                let abs_start = line_start + segment_start;
+                let abs_end = line_start + segment_end;
+                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
+                result.push(strip);
+                segment_start = word_start;
+                segment_end = word_start;
+            } else if segment_start < word_start {
+                // The space in front of the first word doesn't fit
+                segment_start = word_start;
+                segment_end = word_start;
             } else {
-                let space_and_word = 1 + word_width;
-                if current_width + space_and_word <= width {
-                    // Word fits
-                    current_width += space_and_word;
-                    i += 1;
-                } else {
-                    // Word doesn't fit, emit current segment
-                    let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
-                    let segment_text = &line[current_segment_start..segment_end];
-                    let abs_start = line_start + current_segment_start;
-                    let abs_end = line_start + segment_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-
-                    // Start new segment at this word
-                    current_segment_start = word_positions[i].0;
-                    current_width = 0;
+                // Word too long, break it
+                let mut piece_start = word_start;
+                let mut piece_width = 0;
+                for (offset, grapheme) in grapheme_indices(&line[word_start..word_end]) {
+                    let piece_end = word_start + offset;
+                    let grapheme_width = display_width(grapheme);
+                    if piece_width + grapheme_width > width && piece_end > piece_start {
+                        let segment_text = &line[piece_start..piece_end];
+                        let abs_start = line_start + piece_start;
+                        let abs_end = line_start + piece_end;
+                        let strip =
+                            self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
+                        result.push(strip);
+                        piece_start = piece_end;
+                        piece_width = 0;
+                    }
+                    piece_width += grapheme_width;
                 }
+                let segment_text = &line[piece_start..word_end];
+                let abs_start = line_start + piece_start;
+                let abs_end = line_start + word_end;
+                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
+                result.push(strip);
+                i += 1;
+                segment_start = if i < word_positions.len() {
+                    word_positions[i].0
+                } else {
+                    line.len()
+                };
+                segment_end = segment_start;
             }
         }
 
         // Emit final segment
-        if current_width > 0 && !words.is_empty() {
-            let segment_end = word_positions.last().map(|(_, e)| *e).unwrap_or(line.len());
-            let segment_text = &line[current_segment_start..segment_end];
-            if !segment_text.is_empty() {
-                let abs_start = line_start + current_segment_start;
-                let abs_end = line_start + segment_end;
-                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                result.push(strip);
-            }
+        if segment_end > segment_start {
+            let segment_text = &line[segment_start..segment_end];
+            let abs_start = line_start + segment_start;
+            let abs_end = line_start + segment_end;
+            let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
+            result.push(strip);
         }
 
         result
-- 
2.43.0


From dc9742ae7d476d559fd63edad93a3969f70c3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:33 +0000
Subject: [PATCH 17/34] fix: keep lines of nothing but blanks when wrapping
 text

---
 crates/textual/src/content.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 4246055..11ce24f 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -547,12 +547,16 @@ impl Content {
                     }
                 },
                 TextWrap::Wrap => {
-                    let wrapped = if has_spans {
+                    let mut wrapped = if has_spans {
                         let spans = self.spans.as_ref().unwrap();
                         self.wrap_line_with_spans(line, line_start, width, spans)
                     } else {
                         self.wrap_line(line, width)
                     };
+                    if wrapped.is_empty() {
+                        // A line of nothing but blanks is still a line
+                        wrapped.push(Strip::new());
+                    }
                     let last_index = wrapped.len().saturating_sub(1);
                     for (index, strip) in wrapped.into_iter().enumerate() {
                         let strip = if overflow == TextOverflow::Ellipsis {
-- 
2.43.0


From 3cfd266ccc590b418e9049d9b647339d76b2ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 18/34] fix: do not cut wide characters in half when folding a
 line

---
 crates/textual/src/content.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 11ce24f..db459a3 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -847,10 +847,23 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     if total == 0 {
         return vec![Strip::new()];
     }
+    // The cells at which a character begins
+    let mut char_starts = Vec::new();
+    let mut cell = 0;
+    for segment in strip.segments() {
+        for grapheme in graphemes(segment.text()) {
+            char_starts.push(cell);
+            cell += display_width(grapheme);
+        }
+    }
     let mut parts = Vec::new();
     let mut start = 0;
     while start < total {
-        let end = (start + width).min(total);
+        let mut end = (start + width).min(total);
+        if end < total && end > start + 1 && char_starts.binary_search(&end).is_err() {
+            // A wide character that doesn't fit goes to the next part
+            end -= 1;
+        }
         parts.push(strip.crop(start, end));
         start = end;
     }
-- 
2.43.0


From e3d1e235d71e5e5228db12a9d8daed163189cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:27 +0000
Subject: [PATCH 19/34] fix: clear the focus of hidden children and of the
 command palette's input too

---
 crates/textual/src/containers.rs             | 10 ++++------
 crates/textual/src/containers/container.rs   |  5 ++---
 crates/textual/src/containers/grid.rs        |  5 ++---
 crates/textual/src/containers/item_grid.rs   |  5 ++---
 crates/textual/src/containers/scrollable.rs  |  5 ++---
 crates/textual/src/widget/app_widget.rs      |  5 ++---
 crates/textual/src/widget/command_palette.rs |  2 +-
 crates/textual/src/widget/screen.rs          |  5 ++---
 8 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..68488b6 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -184,9 +184,8 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        // A hidden child too: it must not come back focused
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -326,9 +325,8 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        // A hidden child too: it must not come back focused
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..e0387ba 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1577,10 +1577,9 @@ Container {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..f9dfc02 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -426,10 +426,9 @@ Grid {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..cc26d4d 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -307,10 +307,9 @@ impl<M> Widget<M> for ItemGrid<M> {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..509c43b 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1386,10 +1386,9 @@ ScrollableContainer {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..7661f44 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -249,10 +249,9 @@ App {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..de055a3 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1863,7 +1863,7 @@ CommandPalette LoadingIndicator.--visible {
     }
 
     fn clear_focus(&mut self) {
-        self.focused = false;
+        self.set_focus(false);
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..27f7775 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1194,10 +1194,9 @@ Screen {
     }
 
     fn clear_focus(&mut self) {
+        // Hidden children too: they must not come back focused
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From 17b7f6ab9a90e9cf30d34dfaaaefeaf2548ce803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:39 +0000
Subject: [PATCH 20/34] fix: skip hidden subtrees when counting and finding
 focusable widgets

---
 crates/textual/src/containers.rs | 8 ++++----
 crates/textual/src/tree.rs       | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 68488b6..34544ed 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -177,7 +177,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -189,7 +189,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
@@ -318,7 +318,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -330,7 +330,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..fe1ba2f 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -543,7 +543,8 @@ fn find_focus_path_recursive<M>(
     for i in 0..child_count {
         path.push(i);
         if let Some(child) = widget.get_child_mut(i) {
-            if find_focus_path_recursive(child, path, remaining) {
+            // Nothing in a hidden subtree counts
+            if child.participates_in_layout() && find_focus_path_recursive(child, path, remaining) {
                 return true; // Found in this subtree
             }
         }
-- 
2.43.0


From c0f5f9d2037f78364bec31e9b14383db6dd3aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:53 +0000
Subject: [PATCH 21/34] fix: recompute the focus path after every focus move

---
 crates/textual/src/tree.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index fe1ba2f..5ee8508 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -169,10 +169,6 @@ impl<M> WidgetTree<M> {
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
-- 
2.43.0


From 732f6be741155187e721fc36b5bd1b8d0fc574fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 22/34] fix: focus_previous got stuck when the focus index was
 past the end

---
 crates/textual/src/tree.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 5ee8508..6907c76 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -152,11 +152,9 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let prev = if self.current_focus_index == 0 {
-            count - 1
-        } else {
-            self.current_focus_index - 1
-        };
+        // The index may be past the end when widgets have gone since
+        let current = self.current_focus_index.min(count);
+        let prev = if current == 0 { count - 1 } else { current - 1 };
         if self.set_focus_index(prev) {
             Some(prev)
         } else {
-- 
2.43.0


From 2879c9326f9195d80d29211165362db4968a5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:23 +0000
Subject: [PATCH 23/34] fix: move the focus on when something around the
 focused widget is hidden

---
 crates/textual/src/lib.rs  | 10 ++++------
 crates/textual/src/tree.rs | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..6e8f895 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -791,12 +791,10 @@ pub trait App {
 
                 // If the currently focused widget is no longer focusable (e.g. hidden modal),
                 // fall back to the first available focusable widget.
-                if let Some(is_focusable) = tree.with_focused(|widget| widget.is_focusable()) {
-                    if !is_focusable {
-                        if tree.set_focus_index(0) {
-                            last_focus_index = self.focus_index();
-                            needs_render = true;
-                        }
+                if !tree.focus_is_valid() {
+                    if tree.set_focus_index(0) {
+                        last_focus_index = self.focus_index();
+                        needs_render = true;
                     }
                 }
 
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 6907c76..92baecb 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -175,6 +175,27 @@ impl<M> WidgetTree<M> {
         find_focus_path_recursive(self.root.as_mut(), &mut self.focus_path, &mut remaining);
     }
 
+    /// Returns true while the focused widget can keep the focus: it is focusable
+    /// and neither it nor anything around it is hidden.
+    pub fn focus_is_valid(&mut self) -> bool {
+        let path = self.focus_path.indices.clone();
+        let mut current: &mut dyn Widget<M> = self.root.as_mut();
+
+        for &index in &path {
+            match current.get_child_mut(index) {
+                Some(child) => {
+                    if !child.participates_in_layout() {
+                        return false;
+                    }
+                    current = child;
+                }
+                None => return false,
+            }
+        }
+
+        current.is_focusable()
+    }
+
     /// Navigate to the focused widget and call the given function on it.
     ///
     /// Returns the result of the function, or None if the path is invalid.
-- 
2.43.0


From 32d7df0757219ece0760179dd424228fcaa13447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 24/34] fix: redraw the screen after a handled key, message or
 palette event

The event loop only redrew after a key when focus had moved and after a message
when the command palette had changed, so whatever their handlers changed stayed
invisible until something else caused a redraw.
---
 crates/textual/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 6e8f895..d7ece3f 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -263,6 +263,8 @@ where
         .unwrap_or_default();
 
     if !events.is_empty() {
+        // Whatever the handler changes has to be shown
+        needs_render = true;
         let event_ctx = AppContext::new(tx.clone());
         let mut ctx = EventContext::new(event_ctx, tree);
         for event in events {
@@ -884,16 +886,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -944,7 +945,8 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                // Whatever the key changed has to be shown
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1098,9 +1100,9 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
+                        // Whatever the message changed has to be shown
+                        needs_render = true;
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
                     }
-- 
2.43.0


From ae6ea496ebe553ea8bb588ac55df914d4c771a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 25/34] fix: a ')' before the '(' of a colour function is an
 error, not a crash

---
 crates/tcss/src/types/color.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..668cd33 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -534,6 +534,11 @@ impl RgbaColor {
         let end = input.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in rgb function".to_string(),
         })?;
+        if end < start {
+            return Err(ColorParseError {
+                message: "missing '(' in rgb function".to_string(),
+            });
+        }
 
         let content = &input[start + 1..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
@@ -565,6 +570,11 @@ impl RgbaColor {
         let end = input.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in hsl function".to_string(),
         })?;
+        if end < start {
+            return Err(ColorParseError {
+                message: "missing '(' in hsl function".to_string(),
+            });
+        }
 
         let content = &input[start + 1..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
-- 
2.43.0


From 0f4ff34b73d2fe4b4834dcf4b5aec1cc4649ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 26/34] fix: hues beyond a turn and a half, or far below zero,
 give their colour

---
 crates/tcss/src/types/color.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index 668cd33..c3def97 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -589,6 +589,9 @@ impl RgbaColor {
             message: format!("invalid hue: {}", parts[0]),
         })?;
 
+        // The hue is an angle: whole turns make no difference
+        let h = h.rem_euclid(360.0);
+
         let s = Self::parse_percentage(parts[1])?;
         let l = Self::parse_percentage(parts[2])?;
 
-- 
2.43.0


From 21a92e80cbc65bc606b574972a2c5092674d7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 27/34] fix: count characters, not bytes, of a hexadecimal
 colour in markup

---
 crates/rich/src/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..70e23b3 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,7 +53,7 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
-        match hex.len() {
+        match hex.chars().count() {
             // #RGB
             3 => {
                 let r = Self::parse_hex_digit(hex.chars().nth(0).unwrap())?;
-- 
2.43.0


From 8bef50d42672986f74ae0a20dbdfdf9dcb77584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 28/34] fix: leave out a border label that a narrow border has
 no room for

---
 crates/textual/src/border_render.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/textual/src/border_render.rs b/crates/textual/src/border_render.rs
index 2919ddc..932cb69 100644
--- a/crates/textual/src/border_render.rs
+++ b/crates/textual/src/border_render.rs
@@ -96,6 +96,11 @@ pub(crate) fn render_label_in_row(
     let label_style = label.segments().first().and_then(|s| s.style().cloned());
 
     if label_len > available_width {
+        // No room for the spaces and the ellipsis: just the fill
+        if available_width < 3 {
+            return repeat_segment(fill, width);
+        }
+
         // Label is too long - truncate with ellipsis
         // Reserve 1 char for ellipsis + 2 for spaces, so we can show (available_width - 3) chars of text
         let truncate_len = available_width.saturating_sub(3);
-- 
2.43.0


From 4d397e7d57ba5810f7996687671b21b726ae0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 29/34] fix: a line of a box is never wider than the box

---
 crates/textual/src/render_cache.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..5e7ed7a 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -417,7 +417,14 @@ impl RenderCache {
         };
 
         // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+        let strip = self.apply_outline(base_strip, y, height, width);
+
+        // Too narrow for its edges and padding: cut off on the right
+        if strip.cell_length() > width {
+            strip.crop(0, width)
+        } else {
+            strip
+        }
     }
 
     /// Renders a content row without any border (just padding and content).
@@ -464,6 +471,8 @@ impl RenderCache {
         let fill_char = fill.text().chars().next().unwrap_or('─');
         let fill_style = fill.style().cloned();
 
+        // A label needs a fill character on each side
+        let label = if width > 2 { label } else { None };
         if let Some(label_strip) = label {
             // Render label with fill characters on either side
             // Note: Partial borders (no corners) do NOT add spaces around labels
-- 
2.43.0


From 255d48b16c4ff02184ed02d641b3337fc379e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 30/34] fix: a title between the sides keeps the outline

---
 crates/textual/src/render_cache.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 5e7ed7a..e87e247 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -388,24 +388,23 @@ impl RenderCache {
                 if self.has_left_border || self.has_right_border {
                     // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
                     if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             title.unwrap(),
                             self.style.border_title_align,
-                        );
-                    }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
+                        )
+                    } else if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             subtitle.unwrap(),
                             self.style.border_subtitle_align,
-                        );
+                        )
+                    } else {
+                        // Has at least one side border
+                        self.render_partial_middle_row(&box_segs[1], content_line, width)
                     }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
-- 
2.43.0


From 1f26cf715f4e44496239a624dae1817c0c240824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 31/34] fix: glyphs of a border are cached by the whole colour

---
 crates/textual/src/border_box.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..1942fa9 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -22,18 +22,25 @@ struct BoxCacheKey {
     outer_style_key: StyleKey,
 }
 
+/// Red, green, blue, alpha (as bits) and palette index of a color.
+type ColorKey = (u8, u8, u8, u32, Option<u8>);
+
 /// Simplified style key for caching (colors only, not all attributes).
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<ColorKey>,
+    bg: Option<ColorKey>,
+}
+
+fn color_key(color: &tcss::types::RgbaColor) -> ColorKey {
+    (color.r, color.g, color.b, color.a.to_bits(), color.ansi)
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style.fg.as_ref().map(color_key),
+            bg: style.bg.as_ref().map(color_key),
         }
     }
 }
-- 
2.43.0


From a04c6fab82879706360378cd2b4024df1c3eedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 32/34] fix: draw each border edge with its own kind

---
 crates/textual/src/render_cache.rs | 115 ++++++++++++++++-------------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index e87e247..9511184 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -3,7 +3,7 @@
 //! This module provides the `RenderCache` struct which orchestrates rendering
 //! a widget line-by-line, handling borders and content placement.
 
-use tcss::types::border::BorderKind;
+use tcss::types::border::{Border, BorderEdge, BorderKind};
 use tcss::types::{AlignHorizontal, ComputedStyle};
 
 use crate::border_box::{BoxSegments, get_box};
@@ -75,24 +75,19 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
             let effective_opacity = style.opacity * style.opacity;
-            let resolve_edge_color =
-                |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
-                    let base = edge.color.clone().or_else(|| style.color.clone());
-                    match (&base, &style.inherited_background) {
-                        (Some(color), Some(bg)) => Some(color.blend_toward(bg, effective_opacity)),
-                        (Some(color), None) => Some(color.with_opacity(effective_opacity)),
-                        _ => None,
-                    }
-                };
+            let resolve_edge_color = |edge: &BorderEdge| -> Option<tcss::types::RgbaColor> {
+                let base = edge.color.clone().or_else(|| style.color.clone());
+                match (&base, &style.inherited_background) {
+                    (Some(color), Some(bg)) => Some(color.blend_toward(bg, effective_opacity)),
+                    (Some(color), None) => Some(color.with_opacity(effective_opacity)),
+                    _ => None,
+                }
+            };
 
             let top_color = resolve_edge_color(&style.border.top);
             let right_color = resolve_edge_color(&style.border.right);
@@ -118,21 +113,25 @@ impl RenderCache {
             let uniform =
                 top_color == bottom_color && top_color == left_color && top_color == right_color;
 
-            if uniform {
-                Some(get_box(border_type, &top_inner, &top_outer))
-            } else {
-                Some(build_border_box_per_edge(
-                    border_type,
-                    &top_inner,
-                    &top_outer,
-                    &bottom_inner,
-                    &bottom_outer,
-                    &left_inner,
-                    &left_outer,
-                    &right_inner,
-                    &right_outer,
-                ))
-            }
+            let box_of_kind = |kind: BorderKind| -> [BoxSegments; 3] {
+                let border_type = border_kind_to_str(kind);
+                if uniform {
+                    get_box(border_type, &top_inner, &top_outer)
+                } else {
+                    build_border_box_per_edge(
+                        border_type,
+                        &top_inner,
+                        &top_outer,
+                        &bottom_inner,
+                        &bottom_outer,
+                        &left_inner,
+                        &left_outer,
+                        &right_inner,
+                        &right_outer,
+                    )
+                }
+            };
+            Some(join_edges(&style.border, |edge| box_of_kind(edge.kind)))
         } else {
             None
         };
@@ -170,31 +169,27 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
-            // Outline color, falling back to text color
-            let outline_color = style
-                .outline
-                .top
-                .color
-                .clone()
-                .or_else(|| style.color.clone());
-            let outline_inner_style = Style {
-                fg: outline_color.clone(),
-                bg: effective_bg.clone(),
-                ..Default::default()
-            };
-            // Outer style uses inherited/parent background
-            let outline_outer_style = Style {
-                fg: outline_color.clone(),
-                bg: style.inherited_background.clone(),
-                ..Default::default()
+            let box_of_edge = |edge: &BorderEdge| -> [BoxSegments; 3] {
+                // Outline color, falling back to text color
+                let outline_color = edge.color.clone().or_else(|| style.color.clone());
+                let outline_inner_style = Style {
+                    fg: outline_color.clone(),
+                    bg: effective_bg.clone(),
+                    ..Default::default()
+                };
+                // Outer style uses inherited/parent background
+                let outline_outer_style = Style {
+                    fg: outline_color.clone(),
+                    bg: style.inherited_background.clone(),
+                    ..Default::default()
+                };
+                get_box(
+                    border_kind_to_str(edge.kind),
+                    &outline_inner_style,
+                    &outline_outer_style,
+                )
             };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
-            ))
+            Some(join_edges(&style.outline, box_of_edge))
         } else {
             None
         };
@@ -765,6 +760,20 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
     }
 }
 
+/// Joins the pieces of a box in which each edge is drawn with its own kind.
+///
+/// The top and bottom rows bring their corners along.
+fn join_edges(
+    border: &Border,
+    box_of_edge: impl Fn(&BorderEdge) -> [BoxSegments; 3],
+) -> [BoxSegments; 3] {
+    let mut rows = box_of_edge(&border.top);
+    rows[1].0 = box_of_edge(&border.left)[1].0.clone();
+    rows[1].2 = box_of_edge(&border.right)[1].2.clone();
+    rows[2] = box_of_edge(&border.bottom)[2].clone();
+    rows
+}
+
 fn build_border_box_per_edge(
     border_type: &str,
     top_inner: &Style,
-- 
2.43.0


From 1170904e6a8bdd475c34dbc32285ad2958b5e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 33/34] fix: find letters up to the end of the candidate

---
 crates/textual/src/fuzzy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..74b5e55 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -54,11 +54,11 @@ impl FuzzySearch {
             while index < candidate_len {
                 if candidate_chars[index] == *letter {
                     positions.push(index);
+                    if index + 1 >= last_index {
+                        break;
+                    }
                 }
                 index += 1;
-                if index >= last_index {
-                    break;
-                }
             }
             if positions.is_empty() {
                 return (0.0, Vec::new());
-- 
2.43.0


From c7183245fa33662850a58417b9ee7cc00d046224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:50 +0000
Subject: [PATCH 34/34] fix: lower-casing for a search keeps character
 positions

---
 crates/textual/src/fuzzy.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index 74b5e55..f702c50 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -27,7 +27,7 @@ impl FuzzySearch {
         let (query, candidate) = if self.case_sensitive {
             (query.to_string(), candidate.to_string())
         } else {
-            (query.to_lowercase(), candidate.to_lowercase())
+            (lower_chars(query), lower_chars(candidate))
         };
 
         // Fast path: substring match.
@@ -212,6 +212,13 @@ fn first_letter_positions(candidate: &str) -> HashSet<usize> {
     positions
 }
 
+/// Lowercases character by character, so that positions stay those of the original.
+fn lower_chars(s: &str) -> String {
+    s.chars()
+        .map(|ch| ch.to_lowercase().next().unwrap_or(ch))
+        .collect()
+}
+
 fn byte_to_char_index(s: &str, byte_index: usize) -> usize {
     s[..byte_index].chars().count()
 }
-- 
2.43.0

