From df6ac38957ac8aee5612929bba751c2748e23da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 1/4] fix: settle the recipient's emissions before a backstop
 claim credits it shares

---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..0dfaa3f 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -60,6 +60,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // settle the recipient's emissions before its share balance changes
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From ecdbd7e066ca54df7e764439d85103246d4d8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 2/4] fix: credit backstop claims that list a pool more than
 once

---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 0dfaa3f..80a850f 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool listed more than once has nothing left to claim after its first entry
+        let prev_claim = claims.get(pool_id.clone()).unwrap_or(0);
+        claims.set(pool_id, prev_claim + claim_amt);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From b32dd45e7796c259d6a77c67da06520eab791eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 3/4] fix: do not divide by zero when all backstop shares are
 queued for withdrawal

---
 backstop/src/emissions/distributor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..48ad868 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -81,6 +81,7 @@ pub fn update_emission_data_with_config(
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
         || pool_balance.shares == 0
+        || pool_balance.shares == pool_balance.q4w
     {
         // emis_data already updated or expired
         return emis_data;
-- 
2.43.0


From d6093b2c876d83d1389bd1f96f4d8ab6d52e7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 4/4] fix: count each asset of a new interest auction once

---
 pool/src/auctions/backstop_interest_auction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..7026cd5 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -29,7 +29,9 @@ pub fn create_interest_auction_data(
     for res_asset_address in assets.iter() {
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
-        if reserve.backstop_credit > 0 {
+        // an asset listed more than once is only auctioned off once
+        if reserve.backstop_credit > 0 && !auction_data.lot.contains_key(res_asset_address.clone())
+        {
             let asset_to_base = pool.load_price(e, &res_asset_address);
             interest_value += i128(asset_to_base)
                 .fixed_mul_floor(reserve.backstop_credit, reserve.scalar)
-- 
2.43.0

