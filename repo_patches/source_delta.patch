From 1770c065c32b0605cebff09a7d08371eb30e1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH] fix: partial fill under an active rate limiter charged up to
 one unit more than amount_in

The rate limiter's fee numerator for an excluded-fee amount is rounded up, so
re-adding the fee to what a partial fill consumed could exceed the offered
amount_in by one unit. Cap the charge at amount_in.
---
 programs/dynamic-bonding-curve/src/state/virtual_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
index 14acb0c..e7da7dd 100644
--- a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
+++ b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
@@ -668,9 +668,13 @@ impl VirtualPool {
                         )?
                 };
 
-                let (included_fee_input_amount, fee_amount) =
+                let (included_fee_input_amount, _fee_amount) =
                     PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, actual_amount_in)?;
 
+                // rounding in the rate limiter's excluded fee numerator must not charge more than amount_in
+                let included_fee_input_amount = included_fee_input_amount.min(amount_in);
+                let fee_amount = included_fee_input_amount.safe_sub(actual_amount_in)?;
+
                 // that ensure included_fee_input_amount = actual_amount_in + trading_fee + protocol_fee + referral_fee
                 let (trading_fee, protocol_fee, referral_fee) = config
                     .pool_fees
-- 
2.43.0

