From 21ce9996abdc829a89fa7995482b807e84dcb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH] hook: entries for an external simulator, compiled only with
 --cfg verif_sim

---
 src/compute/limit/mod.rs | 27 +++++++++++++++++++++++++++
 src/main.rs              |  7 +++++++
 2 files changed, 34 insertions(+)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..da14b68 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -20,6 +20,33 @@ use self::{
 pub mod limit_expression;
 mod rules;
 
+/// Entry for an external simulator; empty unless built with `--cfg verif_sim`.
+#[allow(unexpected_cfgs)]
+pub(crate) mod sim_hook {
+    #[cfg(verif_sim)]
+    use super::*;
+
+    #[cfg(verif_sim)]
+    pub(crate) fn limit(
+        expr: Expression,
+        of: Expression,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        LimitTry::limit(expr, of, to, order_try)
+    }
+
+    #[cfg(verif_sim)]
+    pub(crate) fn limit_of_variable(
+        expr: Expression,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        LimitTry::limit(expr, of, to, order_try)
+    }
+}
+
 trait LimitTry<T, U> {
     type Output;
     fn limit(self, of: T, to: U, order_try: u64) -> Self::Output;
diff --git a/src/main.rs b/src/main.rs
index a6bc6ae..fb85685 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,6 +7,13 @@ mod compute;
 mod math_op;
 mod smart_num;
 
+/// Entry for an external simulator; empty unless built with `--cfg verif_sim`.
+#[allow(unexpected_cfgs)]
+pub mod sim_hook {
+    #[cfg(verif_sim)]
+    include!(env!("VERIF_SIM_BRIDGE"));
+}
+
 fn main() {
     println!("Hello, world!");
     {
-- 
2.43.0

