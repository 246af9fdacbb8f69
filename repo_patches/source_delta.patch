From 4b8d15942c8a97611851996c920b3b30457fe7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH] fix: normalize the identity to its unique representation

normalize() left every representation of the identity (z = 0 with
arbitrary x and y, as produced by P - P) as it was, so equal identities
kept different encodings after normalisation.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..5ac492d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,7 +236,10 @@ impl Group for G1 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G1::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
@@ -325,7 +328,10 @@ impl Group for G2 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G2::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
-- 
2.43.0

