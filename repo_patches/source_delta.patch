From cc109c9630f109db4469dc36e7308ecc09d62453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 1/2] fix: derived SLOW_LIMIT must not be zero

With a customized PRECHECK_LIMIT below 10, the derived SLOW_LIMIT was 0, which
disables the slow phase and so comparing cyclic graphs never terminated.
---
 src/cycle_safe.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..c14e076 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -137,9 +137,12 @@ pub mod modes
             /// before switching to the "slow" phase.
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
-            /// the "slow" phase before switching to the "fast" phase.
+            /// the "slow" phase before switching to the "fast" phase.  Must not be zero, because
+            /// then the "slow" phase would never detect anything and cyclic inputs would never
+            /// terminate.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 =
+                if Self::PRECHECK_LIMIT < 10 { 1 } else { Self::PRECHECK_LIMIT / 10 };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0


From 089a0b597fd34f9b557545d4c26408f22ad4b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 2/2] fix: stop requesting edges after a difference in the
 amount of edges

EdgesIter kept its index after yielding an amount difference, so the queue and
stack recursion modes requested the same index a third time, contrary to the
documented "up to twice for each index".
---
 src/generic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..8c3f64f 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -351,8 +351,18 @@ mod edges_iter
                         }
                         None
                     },
-                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
-                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                    [None, Some(_)] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Less)))
+                    },
+                    [Some(_), None] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Greater)))
+                    },
                 }
             }
             else {
-- 
2.43.0

