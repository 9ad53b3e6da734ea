From 3166387a063e85cd9ae71def0babb157a0b0c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 01/10] fix: pair_xastro simulation treats a zero xASTRO supply
 as a first stake

The staking contract mints shares for a first stake when either the
deposit or the share supply is zero; predict_stake only looked at the
deposit, so with ASTRO in the staking contract but no xASTRO minted the
simulation returned 0.
---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..7ae5522 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From 570d632daad2af718eebebda12c13ae3e1221733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 02/10] fix: reject duplicate initial balance addresses in
 xastro_token

Each entry of initial_balances overwrote the balance saved for the same
address while the amounts were summed into the total supply, so a repeated
address made the supply exceed the sum of all balances.
---
 contracts/tokenomics/xastro_token/src/contract.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..8a8b7c0 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -177,6 +177,9 @@ pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) ->
 
     for row in accounts {
         let address = deps.api.addr_validate(&row.address)?;
+        if BALANCES.may_load(deps.storage, &address)?.is_some() {
+            return Err(StdError::generic_err("Duplicate initial balance addresses"));
+        }
         BALANCES.save(deps.storage, &address, &row.amount, env.block.height)?;
         total_supply += row.amount;
     }
-- 
2.43.0


From 0de96c741ac99be145e2aaaeff9edf2a0eed8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 03/10] fix: transmuter: swap and simulation accept only assets
 of the pool as offer

---
 contracts/pair_transmuter/src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_transmuter/src/utils.rs b/contracts/pair_transmuter/src/utils.rs
index e70f600..4c502d6 100644
--- a/contracts/pair_transmuter/src/utils.rs
+++ b/contracts/pair_transmuter/src/utils.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Api, Decimal, Deps, QuerierWrapper, StdResult, Uint128};
+use cosmwasm_std::{ensure, Api, Decimal, Deps, QuerierWrapper, StdResult, Uint128};
 use itertools::Itertools;
 
 use astroport::asset::{Asset, AssetInfo, AssetInfoExt};
@@ -60,6 +60,13 @@ pub fn assert_and_swap(
 ) -> Result<Asset, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
+    // normalize() only looks at the string inside of the asset info,
+    // thus a cw20 asset named as one of the pool denoms would be accepted without any coins sent
+    ensure!(
+        config.pair_info.asset_infos.contains(&offer_asset.info),
+        ContractError::InvalidAsset(offer_asset.info.to_string())
+    );
+
     let offer_asset = config.normalize(offer_asset)?;
 
     let pools = config
-- 
2.43.0


From b8902d262eaae80da9f547b306a3dd48eb237df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 04/10] fix: transmuter: ReverseSimulation compares the asked
 amount with the pool in the same units

---
 contracts/pair_transmuter/src/queries.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..c6daf44 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,9 +118,8 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
+        let ask_asset = config.normalize(&ask_asset)?;
         let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
         config.denormalize(&offer_asset).map(|asset| asset.amount)
     } else {
-- 
2.43.0


From c63ca16f97d2ffda417644dd5036ed0f0a779c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 05/10] fix: provide liquidity rejects pool coins sent along
 that are not in the input asset vector

---
 packages/astroport/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/asset.rs b/packages/astroport/src/asset.rs
index 907050c..fdccf40 100644
--- a/packages/astroport/src/asset.rs
+++ b/packages/astroport/src/asset.rs
@@ -338,9 +338,10 @@ impl CoinsExt for Vec<Coin> {
         })?;
 
         self.iter().try_for_each(|coin| {
-            if pool_asset_infos.contains(&AssetInfo::NativeToken {
+            let coin_info = AssetInfo::NativeToken {
                 denom: coin.denom.clone(),
-            }) {
+            };
+            if input_assets.iter().any(|asset| asset.info == coin_info) {
                 Ok(())
             } else {
                 Err(StdError::generic_err(format!(
-- 
2.43.0


From e0cf6567d38f63d5dce3fa31980c42b9402bda82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 06/10] fix: incentives: keep indexes of rewards that finished
 earlier in the same second

PoolInfo::save() overwrote FINISHED_REWARD_INDEXES of the current second, so when
two rewards were finished or removed within one second the index of the first
one was lost and stakers could not claim what they had earned.
---
 contracts/tokenomics/incentives/src/state.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..897a7e2 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -450,9 +450,13 @@ impl PoolInfo {
                 .into_iter()
                 .try_for_each(|(is_zero, group)| {
                     if is_zero {
-                        let finished_indexes = group
-                            .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
-                            .collect_vec();
+                        // Another reward could have been finished within the same second
+                        let mut finished_indexes = FINISHED_REWARD_INDEXES
+                            .may_load(storage, (lp_token, self.last_update_ts))?
+                            .unwrap_or_default();
+                        finished_indexes.extend(
+                            group.map(|(reward_asset_info, (index, _))| (reward_asset_info, index)),
+                        );
                         FINISHED_REWARD_INDEXES.save(
                             storage,
                             (lp_token, self.last_update_ts),
-- 
2.43.0


From f5cb5e8638adbfc88f4da883a0fe10b5e3e315a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 07/10] fix: incentives: do not account orphaned rewards of a
 removed reward twice

deregister_reward() both returned the orphaned rewards, which are sent to the
receiver, and left them in rewards_to_remove, from where save() added them to
ORPHANED_REWARDS for a second payout.
---
 contracts/tokenomics/incentives/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 897a7e2..66d3605 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,10 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are part of the returned amount, hence they must not be accumulated once again
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From bcdc0603da90ceccf28bd9666d13a4c49ae7125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 08/10] fix: incentives: deactivate pools that are active while
 astro_per_second is zero

---
 contracts/tokenomics/incentives/src/utils.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..f9d7ad4 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,14 +112,16 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    // Pool's reward per second can be zero while the pool still has allocation points
+    // (i.e. if global astro_per_second is zero), thus we rely on the list of active pools.
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+    let maybe_ind = active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset);
+
+    match maybe_ind {
+        Some(ind) => {
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
-- 
2.43.0


From b27d0ccdbe95fea7be32a4b7842767b5a31c0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 09/10] fix: incentives: disable a pool once when several of
 its tokens are blocked in one call

---
 contracts/tokenomics/incentives/src/execute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..b888bbb 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,9 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    let disabled = to_disable.iter().any(|(lp, _)| lp == lp_asset);
+                    // A pool may contain several tokens being blocked in the same call
+                    if asset_infos.contains(token_to_block) && !disabled {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From 32001a12eb6cd7a61ea3a8689737dcb8e80e0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 10/10] fix: incentives: PoolStakers returns at most the
 requested and the maximum page size

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 66d3605..c189265 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -501,7 +501,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0

