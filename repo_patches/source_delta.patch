From e8d7b7218bb8e3a10b1b6fba93f7ebb1ccdfa82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH] fix: match each seal definition against the cell at its own
 position

Reported seal definitions were compared with the operation cells only as sets
of auth tokens. A definition of one cell could be attached to a position of
another cell (or to a position with no cell at all), letting the owner of the
first cell take over the second one.
---
 src/verify.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..5cdcb28 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -181,9 +181,17 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .values()
                 .map(|seal| seal.auth_token())
                 .collect::<BTreeSet<_>>();
-            // It is a subset and not an equal set since some seals might be unknown to us:
-            // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Some of the operation-defined cells may come without a seal definition, since some seals might be
+            // unknown to us: we know their commitment auth token but do not know the definition. However, each of
+            // the reported definitions must match the cell at its own position - and not just any of the cells.
+            let matching = block.defined_seals.iter().all(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .is_some_and(|cell| cell.auth == seal.auth_token())
+            });
+            if !matching {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

