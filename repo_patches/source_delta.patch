From 35fa0c734c9494a4176b27acce7420e5095da2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH] fix: ts_sign on a never initialized (zeroed) context returns
 0 instead of reading through a null pointer

---
 tiny_sphincs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..1c70539 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,13 +441,13 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
 	/* up for verify) - don't do anything */
 	return 0;
     }
+    unsigned n = ctx->ps->n;   /* Only an initialized context has a ps */
 
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
-- 
2.43.0

