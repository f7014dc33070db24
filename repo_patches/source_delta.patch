From 3ec2f9796f55ce8dfd9c32a58c69f961d9d9d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH] fix: hash the side to move of a constructed position

Position::new left the side-to-move bit out of the board key, so a position
constructed with White to move shared its key with the same board with Black
to move, and differed from the same state reached by playing moves.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..91093bc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,9 @@ impl Position {
                 }
             }
         }
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0

