From 8b6b67eb8dee61295e5596fa4b74e24091502f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH] fix: a partial fill swap never charges more than the offered
 amount

With the rate limiter the fee is recomputed from the filled amount, whose inversion is not exact;
the recomputed input could exceed amount_in (e.g. offered 75, charged 157).
---
 programs/dynamic-bonding-curve/src/state/virtual_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
index 14acb0c..44fce8e 100644
--- a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
+++ b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
@@ -668,9 +668,13 @@ impl VirtualPool {
                         )?
                 };
 
-                let (included_fee_input_amount, fee_amount) =
+                let (included_fee_input_amount, _fee_amount) =
                     PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, actual_amount_in)?;
 
+                // the rate limiter is not inverted exactly, never charge more than amount_in
+                let included_fee_input_amount = included_fee_input_amount.min(amount_in);
+                let fee_amount = included_fee_input_amount.safe_sub(actual_amount_in)?;
+
                 // that ensure included_fee_input_amount = actual_amount_in + trading_fee + protocol_fee + referral_fee
                 let (trading_fee, protocol_fee, referral_fee) = config
                     .pool_fees
-- 
2.43.0

