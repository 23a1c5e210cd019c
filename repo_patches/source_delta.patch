From 3935cf57f87cb4f31c7e1357be39217fc4b84c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 1/8] fix: intersection of two lower bounded sets kept only
 part of the right operand
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The pieces of the right operand lying in the unbounded tail of the left
operand were lost: (5..).to_set() ∩ ((6..7) ∪ (10..)) did not contain 6.
Mirror the upper bounded set implementation.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 3c0f2d2b1864f592abeae53a6aa164a8acaa9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:57 +0000
Subject: [PATCH 2/8] fix: iterate bounded ranges that reach the smallest or
 largest value

Stepping past either end of the type panicked in debug builds and wrapped
in release builds, so (250u8..=255) looped forever, (0u8..0) yielded every
value, and (0u8..3) could not be reversed. nth and nth_back had the same
problem when skipping past the end.
---
 src/bounded_range.rs | 47 +++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..1e0a78a 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -90,14 +90,16 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+            LowerBound(Bound::Included(t)) => Some(t),
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1),
+            UpperBound(Bound::Included(t)) => Some(t),
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            remaining: current.zip(last),
+        }
     }
 }
 
@@ -165,8 +167,8 @@ impl<T: Copy + Ord> BoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct BoundedRangeIter<T> {
-    current: T,
-    last: T,
+    /// The first and the last value still to be yielded, if `T` has such values.
+    remaining: Option<(T, T)>,
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,17 +178,19 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        let (current, last) = self.remaining?;
+        if current > last {
             None
         } else {
-            let t = self.current;
-            self.current = Step::forward(self.current, 1);
-            Some(t)
+            self.remaining = Step::forward_checked(current, 1).map(|next| (next, last));
+            Some(current)
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = Step::steps_between(&self.current, &self.last)
+        let size = self
+            .remaining
+            .and_then(|(current, last)| Step::steps_between(&current, &last))
             .map(|steps| steps + 1)
             .unwrap_or_default();
         (size, Some(size))
@@ -200,15 +204,17 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
+        let (current, last) = self.remaining?;
+        if current > last {
             None
         } else {
-            Some(self.last)
+            Some(last)
         }
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::forward_checked(current, n).map(|next| (next, last));
         self.next()
     }
 
@@ -226,17 +232,18 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        let (current, last) = self.remaining?;
+        if current > last {
             None
         } else {
-            let t = self.last;
-            self.last = Step::backward(self.last, 1);
-            Some(t)
+            self.remaining = Step::backward_checked(last, 1).map(|prev| (current, prev));
+            Some(last)
         }
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::backward_checked(last, n).map(|prev| (current, prev));
         self.next_back()
     }
 }
-- 
2.43.0


From 6ee57ab544551c3cf2d7ef03370515760c26b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:14 +0000
Subject: [PATCH 3/8] fix: iterators over more values than fit in usize

---
 src/bounded_range.rs     | 14 ++++++++------
 src/bounded_set.rs       | 18 +++++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 1e0a78a..cee3aa4 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -188,12 +188,14 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self
-            .remaining
-            .and_then(|(current, last)| Step::steps_between(&current, &last))
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        match self.remaining {
+            Some((current, last)) if current <= last => {
+                // There may be more values left than fit in a `usize`.
+                let size = Step::steps_between(&current, &last).and_then(|n| n.checked_add(1));
+                (size.unwrap_or(usize::MAX), size)
+            }
+            _ => (0, Some(0)),
+        }
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..13cd48e 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,12 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        // There may be more values left than fit in a `usize`.
+        let size = self
+            .range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?));
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize
@@ -151,7 +155,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +164,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +192,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +201,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back_mut().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..f5ce7d0 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let (bounded_size, _) = self.set_iter.size_hint();
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From d7c9a62990f2fe420f13b6d722873c4b5f6aa3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 4/8] fix: conversions to std ranges at the ends of the type

---
 src/bounded_range.rs       | 22 ++++++++++++++++++----
 src/lower_bounded_range.rs |  4 +++-
 src/upper_bounded_range.rs |  8 ++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index cee3aa4..bc71b97 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,12 +54,18 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // No value is greater than `t`, so the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => {
+                Step::forward_checked(t, 1).expect("No exclusive end to represent the range")
+            }
         };
         start..end
     }
@@ -71,11 +77,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // No value is greater than `t`, so the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                // No value is less than `t`, so the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..fbc837e 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("No inclusive start to represent the range")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..cc74489 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,9 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1).expect("No exclusive end to represent the range")
+            }
         }
     }
 }
@@ -55,7 +57,9 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1).expect("No inclusive end to represent the range")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0


From 44c69b3049e72f19784817c515d0fa11540bd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 5/8] fix: inclusive ranges iterated to exhaustion are empty

---
 src/bounded_range.rs                            | 17 +++++++++++++----
 .../rangetools/range_inclusive.rs               |  3 ++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index bc71b97..838d2fc 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -38,12 +38,21 @@ impl<T> From<std::ops::Range<T>> for BoundedRange<T> {
     }
 }
 
-impl<T> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
+impl<T: PartialOrd> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
     fn from(r: std::ops::RangeInclusive<T>) -> Self {
+        let empty = std::ops::RangeInclusive::is_empty(&r);
         let (start, end) = r.into_inner();
-        Self {
-            start: LowerBound::included(start),
-            end: UpperBound::included(end),
+        if empty && start <= end {
+            // The range has been iterated to exhaustion.
+            Self {
+                start: LowerBound::excluded(end),
+                end: UpperBound::excluded(start),
+            }
+        } else {
+            Self {
+                start: LowerBound::included(start),
+                end: UpperBound::included(end),
+            }
         }
     }
 }
diff --git a/src/implementations/rangetools/range_inclusive.rs b/src/implementations/rangetools/range_inclusive.rs
index c66249c..6fe7032 100644
--- a/src/implementations/rangetools/range_inclusive.rs
+++ b/src/implementations/rangetools/range_inclusive.rs
@@ -2,7 +2,8 @@ use crate::{BoundedRange, BoundedSet, Rangetools};
 
 impl<T: Copy + Ord> Rangetools for std::ops::RangeInclusive<T> {
     fn is_empty(&self) -> bool {
-        self.start() > self.end()
+        // Also true of a range that has been iterated to exhaustion.
+        std::ops::RangeInclusive::is_empty(self)
     }
 
     type Inner = BoundedRange<T>;
-- 
2.43.0


From 32ac829d72133ff2c71ef5e28441ed4594aff92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:18 +0000
Subject: [PATCH 6/8] fix: merging many pieces no longer recurses once per
 piece

---
 src/bounded_set.rs   | 20 +++++++++-----------
 src/unbounded_set.rs |  7 +++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 13cd48e..20a60cd 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -61,20 +61,18 @@ impl<T> BoundedSet<T> {
 }
 
 impl<T: Copy + Ord> BoundedSet<T> {
-    pub(crate) fn add_range(&mut self, r: BoundedRange<T>) {
+    pub(crate) fn add_range(&mut self, mut r: BoundedRange<T>) {
         if !r.is_empty() {
-            if let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
-                let new_range = r.combine(&self.ranges[index]);
+            while let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
+                r = r.combine(&self.ranges[index]);
                 self.ranges.remove(index);
-                self.add_range(new_range);
-            } else {
-                let index = self
-                    .ranges
-                    .iter()
-                    .position(|range| range.start > r.start)
-                    .unwrap_or(self.ranges.len());
-                self.ranges.insert(index, r);
             }
+            let index = self
+                .ranges
+                .iter()
+                .position(|range| range.start > r.start)
+                .unwrap_or(self.ranges.len());
+            self.ranges.insert(index, r);
         }
     }
     pub(crate) fn add_set(&mut self, other: Self) {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index a47108a..2d655bd 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -47,7 +47,7 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
     }
 
     fn defragment(&mut self) {
-        if let Some(index) = self
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -55,8 +55,8 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
-            self.defragment();
-        } else if let Some(index) = self
+        }
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -64,7 +64,6 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
-            self.defragment();
         }
     }
 }
-- 
2.43.0


From b359a6e0342c29392b3faaab333e2ded12fa7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:32 +0000
Subject: [PATCH 7/8] fix: last of a set iterator takes the end of the last
 piece instead of walking through it

The method call resolved to Iterator for &mut BoundedRangeIter, whose default
last visits every value of the piece, which never finishes for a large one.
---
 src/bounded_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 20a60cd..4a80f70 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -158,7 +158,7 @@ where
         {
             self.range_iters.pop_back();
         }
-        self.range_iters.back_mut().map(|i| i.last()).flatten()
+        self.range_iters.pop_back().and_then(|i| i.last())
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-- 
2.43.0


From 01d9fb620793a391ade6ee8eb856028b0ed394f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:46 +0000
Subject: [PATCH 8/8] fix: a set whose unbounded part starts past the largest
 value yields its pieces

The iterator over the unbounded part computed its first value eagerly, so in
debug builds into_iter panicked before any of the bounded pieces was yielded.
---
 src/lower_bounded_range.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index fbc837e..6b24a19 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -51,12 +51,7 @@ where
     type IntoIter = LowerBoundedRangeIter<T>;
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
-        LowerBoundedRangeIter {
-            current: match self.start {
-                LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-                LowerBound(Bound::Included(t)) => t,
-            },
-        }
+        LowerBoundedRangeIter { start: self.start }
     }
 }
 
@@ -105,7 +100,8 @@ impl<T: Copy + Ord> LowerBoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct LowerBoundedRangeIter<T> {
-    current: T,
+    /// The lower bound of the values still to be yielded.
+    start: LowerBound<T>,
 }
 
 impl<T> Iterator for LowerBoundedRangeIter<T>
@@ -115,8 +111,11 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let t = self.current;
-        self.current = Step::forward(self.current, 1);
+        let t = match self.start {
+            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
+            LowerBound(Bound::Included(t)) => t,
+        };
+        self.start = LowerBound::excluded(t);
         Some(t)
     }
 
@@ -125,7 +124,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        self.start = self.start.map(|t| Step::forward(t, n));
         self.next()
     }
 
-- 
2.43.0

