From 0fb104be971b19484999d4d04740d74eaadfa42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 01/14] fix: pool_stable update_config must require the admin's
 authorisation

The sender argument was compared with the stored admin but never authenticated,
so anyone could pass the admin's address and change the admin, the fee and the
fee recipient.
---
 contracts/pool_stable/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..06873be 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,8 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
+
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From 57b18ad95e1da26624d52eec4f1dfc205ab9cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 02/14] fix: pool_stable swaps must scale each amount with its
 own token's decimals

---
 contracts/pool_stable/src/contract.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 06873be..8877bcc 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1019,25 +1019,24 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1074,27 +1073,26 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);
     let spread_amount = if offer_amount > ask_amount {
         offer_amount - ask_amount
     } else {
-- 
2.43.0


From e18c8257277fec5e6393ee0ad63e0edc1b17e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 03/14] fix: pool_stable compute_d must not overflow on
 balances above nine tokens

---
 contracts/pool_stable/src/math.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..472dd3a 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -74,8 +74,8 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    let amount_a_times_coins = U256::from_u128(env, pools[0] * N_COINS);
+    let amount_b_times_coins = U256::from_u128(env, pools[1] * N_COINS);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,10 +88,9 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        let d_product = d
+            .pow(3)
+            .div(&amount_a_times_coins.mul(&amount_b_times_coins));
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
-- 
2.43.0


From b26ff3e18b1713c7c0ac12c98db8a4fc3945c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 04/14] fix: pool_stable calc_y must not overflow 256 bits for
 an invariant above ten tokens

---
 contracts/pool_stable/src/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index 472dd3a..6350b9d 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,8 +15,6 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-6
 const TOL: u128 = 1000000000000;
 
@@ -154,8 +152,8 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
         .pow(3)
-- 
2.43.0


From c7cdcfd74289d01548c4987543b30eeb8f56e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 05/14] fix: stake rewards of a user who bonded after a past
 distribution must not panic

---
 contracts/stake/src/distribution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..82a0f0f 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -100,8 +100,10 @@ pub fn calculate_pending_rewards(
                     for stake in user_info.stakes.iter() {
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
-                        let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                        // a stake made after the reward day has no age, hence no share of it
+                        let stake_age_days = staking_reward_day
+                            .saturating_sub(stake.stake_timestamp)
+                            / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 1c05904419eb57bf77118a73746d6e9dab184895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 06/14] fix: a second reward distribution at the same timestamp
 must not erase the first

---
 contracts/stake/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..ddd64ec 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -246,7 +246,9 @@ impl StakingTrait for Staking {
         save_total_staked_history(&env, total_staked_history);
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        // a second distribution within the same ledger adds to the first one
+        let already_distributed = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, already_distributed + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From 60ec3f02af048787a676251072da20a90bdbf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 07/14] fix: stake_rewards must extend the lifetime of the
 reward state it saves

---
 contracts/stake_rewards/src/distribution.rs | 39 ++++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 745607e..2faaa02 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -1,4 +1,7 @@
-use phoenix::utils::convert_i128_to_u128;
+use phoenix::{
+    ttl::{PERSISTENT_BUMP_AMOUNT, PERSISTENT_LIFETIME_THRESHOLD},
+    utils::convert_i128_to_u128,
+};
 use soroban_sdk::{contracttype, Address, Env, Vec};
 
 use curve::Curve;
@@ -40,9 +43,13 @@ pub enum DistributionDataKey {
 
 // one reward distribution curve over one denom
 pub fn save_reward_curve(env: &Env, asset: Address, distribution_curve: &Curve) {
-    env.storage()
-        .persistent()
-        .set(&DistributionDataKey::Curve(asset), distribution_curve);
+    let key = DistributionDataKey::Curve(asset);
+    env.storage().persistent().set(&key, distribution_curve);
+    env.storage().persistent().extend_ttl(
+        &key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
+    );
 }
 
 pub fn get_reward_curve(env: &Env, asset: &Address) -> Option<Curve> {
@@ -69,9 +76,12 @@ pub struct Distribution {
 }
 
 pub fn save_distribution(env: &Env, asset: &Address, distribution: &Distribution) {
-    env.storage().persistent().set(
-        &DistributionDataKey::Distribution(asset.clone()),
-        distribution,
+    let key = DistributionDataKey::Distribution(asset.clone());
+    env.storage().persistent().set(&key, distribution);
+    env.storage().persistent().extend_ttl(
+        &key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
     );
 }
 
@@ -138,12 +148,15 @@ pub fn save_withdraw_adjustment(
     distribution: &Address,
     adjustment: &WithdrawAdjustment,
 ) {
-    env.storage().persistent().set(
-        &DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
-            user: user.clone(),
-            asset: distribution.clone(),
-        }),
-        adjustment,
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    env.storage().persistent().set(&key, adjustment);
+    env.storage().persistent().extend_ttl(
+        &key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
     );
 }
 
-- 
2.43.0


From 15e2401727ee8c39f23855f6a7d4baeda10a6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 08/14] fix: a reward distribution must last its full duration
 from its start time

---
 contracts/stake_rewards/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..b6b8927 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -375,7 +375,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
-- 
2.43.0


From 46108270455fee3fd36135415d8d973f5c7a97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 09/14] fix: a swap whose rounded return exceeds the spot price
 must not panic

---
 contracts/pool/src/contract.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..7ee629b 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1159,10 +1159,15 @@ pub fn compute_swap(
     let return_amount =
         ask_pool_as_u256.sub(&(cp.div(&offer_pool_as_u256.add(&offer_amount_as_u256))));
     // Calculate the spread amount, representing the difference between the expected and actual swap amounts
-    let spread_amount = (offer_amount_as_u256
+    let spot_amount = offer_amount_as_u256
         .mul(&ask_pool_as_u256)
-        .div(&offer_pool_as_u256))
-    .sub(&return_amount);
+        .div(&offer_pool_as_u256);
+    // with both amounts rounded to units the return can exceed the spot price: there is no spread then
+    let spread_amount = if spot_amount > return_amount {
+        spot_amount.sub(&return_amount)
+    } else {
+        U256::from_u32(env, 0)
+    };
 
     let decimal_fractional = U256::from_u128(env, 1_000_000_000_000_000_000u128);
     let commission_amount = return_amount
-- 
2.43.0


From 4d775df2011ae78e867ccab1787838cb4a0fbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 10/14] fix: trader must authorise the transfer of the tokens
 it trades and trade its own balance

---
 contracts/trader/src/contract.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..4de65ea 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, symbol_short, vec, Address, Env,
+    IntoVal, String,
 };
 
 use crate::{
@@ -149,9 +151,27 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
+        // the pool pulls the offered tokens from this contract
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: symbol_short!("transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From 0c7f09135ad519ad6786c069e114c8f1a9a6914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 11/14] fix: multihop must ask a stable pool's reverse
 simulation by the offered asset

---
 contracts/multihop/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..241899c 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -265,8 +265,9 @@ impl MultihopTrait for Multihop {
                 }
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
+                    // unlike the XYK pool, the stable pool is asked by the offered asset
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From 920ea285c5bd7b7f629e6177c87aa998d184d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 12/14] fix: pool upgrade must validate the new default
 slippage

---
 contracts/pool/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 7ee629b..a0bbc6f 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -584,6 +584,8 @@ impl LiquidityPoolTrait for LiquidityPool {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
 
+        validate_bps!(new_default_slippage_bps);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
     }
-- 
2.43.0


From a501d818f23945cb77601c354b14f4de4b5d8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 13/14] fix: factory removes every occurrence of an account
 from the whitelist

---
 contracts/factory/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..7705119 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -263,16 +263,18 @@ impl FactoryTrait for Factory {
             }
         });
 
-        to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
-                whitelisted_accounts.remove(id as u32);
+        // an account may be listed more than once, so every occurrence has to go
+        let mut remaining_accounts = Vec::new(&env);
+        whitelisted_accounts.into_iter().for_each(|addr| {
+            if !to_remove.contains(addr.clone()) {
+                remaining_accounts.push_back(addr);
             }
         });
 
         save_config(
             &env,
             Config {
-                whitelisted_accounts,
+                whitelisted_accounts: remaining_accounts,
                 ..config
             },
         )
-- 
2.43.0


From fb74150243c324f3f3dd9ed9e9625eeda4703c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 14/14] fix: keep reward records alive when they are read

---
 contracts/stake_rewards/src/distribution.rs | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 2faaa02..72bc7a4 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -53,9 +53,16 @@ pub fn save_reward_curve(env: &Env, asset: Address, distribution_curve: &Curve)
 }
 
 pub fn get_reward_curve(env: &Env, asset: &Address) -> Option<Curve> {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Curve(asset.clone()))
+    let key = DistributionDataKey::Curve(asset.clone());
+    let reward_curve = env.storage().persistent().get(&key);
+    if reward_curve.is_some() {
+        env.storage().persistent().extend_ttl(
+            &key,
+            PERSISTENT_LIFETIME_THRESHOLD,
+            PERSISTENT_BUMP_AMOUNT,
+        );
+    }
+    reward_curve
 }
 
 #[contracttype]
@@ -86,10 +93,14 @@ pub fn save_distribution(env: &Env, asset: &Address, distribution: &Distribution
 }
 
 pub fn get_distribution(env: &Env, asset: &Address) -> Distribution {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Distribution(asset.clone()))
-        .unwrap()
+    let key = DistributionDataKey::Distribution(asset.clone());
+    let distribution = env.storage().persistent().get(&key).unwrap();
+    env.storage().persistent().extend_ttl(
+        &key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
+    );
+    distribution
 }
 
 pub fn update_rewards(
@@ -165,15 +176,19 @@ pub fn get_withdraw_adjustment(
     user: &Address,
     distribution: &Address,
 ) -> WithdrawAdjustment {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::WithdrawAdjustment(
-            WithdrawAdjustmentKey {
-                user: user.clone(),
-                asset: distribution.clone(),
-            },
-        ))
-        .unwrap_or_default()
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    let adjustment = env.storage().persistent().get(&key);
+    if adjustment.is_some() {
+        env.storage().persistent().extend_ttl(
+            &key,
+            PERSISTENT_LIFETIME_THRESHOLD,
+            PERSISTENT_BUMP_AMOUNT,
+        );
+    }
+    adjustment.unwrap_or_default()
 }
 
 pub fn withdrawable_rewards(
-- 
2.43.0

