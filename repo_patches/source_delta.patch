From cbbc50944f44fbf15280d1c6376b77b04018ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 01/12] fix: VerifyClaim checks a bearer claim's merkle leaf
 against the claim hash, as Claim does

---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From 1a5c94ae68c44d862c1b323cde0c9860d71ebce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 02/12] fix: pow_int returns the base for power one

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From be81ba9074bec97d47699bb1439c4793aa3619d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 03/12] fix: IbcPeriphery helper builds periphery messages, not
 core messages

---
 packages/interface/src/helpers/periphery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/interface/src/helpers/periphery.rs b/packages/interface/src/helpers/periphery.rs
index ce9905d..23ba196 100644
--- a/packages/interface/src/helpers/periphery.rs
+++ b/packages/interface/src/helpers/periphery.rs
@@ -1,7 +1,7 @@
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{to_json_binary, Addr, Coin, CosmosMsg, StdResult, WasmMsg};
 
-use crate::core::ExecuteMsg;
+use crate::periphery::ExecuteMsg;
 
 /// IbcPeriphery is a wrapper around Addr that provides a lot of helpers
 /// for working with this.
-- 
2.43.0


From c547e4c9881c3ebf452326afff352ceacc89621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 04/12] fix: register trade routes under the denom of their
 last hop

---
 packages/interface/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types.rs b/packages/interface/src/types.rs
index b4e4b76..2a28fec 100644
--- a/packages/interface/src/types.rs
+++ b/packages/interface/src/types.rs
@@ -69,11 +69,11 @@ impl From<SwapRoutes> for Vec<SwapAmountOutRoute> {
 
 impl SwapRoutes {
     pub fn dneom_first(&self) -> String {
-        self.0.last().unwrap().token_denom.clone()
+        self.0.first().unwrap().token_denom.clone()
     }
 
     pub fn denom_last(&self) -> String {
-        self.0.first().unwrap().token_denom.clone()
+        self.0.last().unwrap().token_denom.clone()
     }
 
     pub fn sim_swap_exact_in(
-- 
2.43.0


From 4d0d19ee688505733f70151a9f29da1401c8cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 05/12] fix: SimulateMint applies the one-unit minimums that
 Mint applies

---
 contracts/core/src/query.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..3a572af 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Coin, Deps, Env, Timestamp, Uint128};
+use cosmwasm_std::{coin, Coin, Deps, Env, Timestamp, Uint128};
 use ibcx_interface::{
     core::{
         GetConfigResponse, GetFeeResponse, GetPortfolioResponse, GetRebalanceResponse,
@@ -186,9 +186,13 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units
+        .calc_require_amount(amount)
+        .into_iter()
+        .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
+        .collect::<Vec<_>>();
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From b5be57e0c6695e2d90ef420bc2e963855ce67120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 06/12] fix: changing the fee strategy pays out the accrued
 streaming fees

---
 contracts/core/src/execute/gov/update.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..5d01d13 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,20 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay out the fees accrued so far to the collector they accrued for
+    let collected = fee
+        .streaming_fee
+        .take()
+        .map(|v| v.collected)
+        .unwrap_or_default()
+        .into_iter()
+        .filter(|v| !v.amount.is_zero())
+        .collect::<Vec<_>>();
+    let realize_msg = (!collected.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: collected,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +117,9 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new()
+        .add_messages(realize_msg)
+        .add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From ed41369f36e990d85f212be4645b0cad66154c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 07/12] fix: a rebalance plan with a zero inflation weight is
 refused

---
 contracts/core/src/state/rebalance.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..605c104 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -35,6 +35,15 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check weight: the reserve is distributed in proportion to the weights
+        if let Some((denom, _)) = self.inflation.iter().find(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance(
+                "inflation",
+                format!("zero weight: {denom}"),
+            )
+            .into());
+        }
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From 1fc5e60a397077df92a43bec72111b078347c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 08/12] fix: minting for an exact input enforces the minimum
 after the mint fee

The minimum output was compared with the amount to mint before the core
contract takes its mint fee, so a minter could receive less than asked for.
---
 contracts/periphery/src/execute.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..2407c7a 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -30,13 +30,16 @@ pub fn mint_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
+    // amount to mint to be left with the minimum after mint fee
+    let min_mint_amount = min_index_amount * expand_fee(core_fee.mint_fee)?;
+
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
@@ -73,6 +76,9 @@ pub fn mint_exact_amount_in(
     )?;
 
     let act_mint_amount = sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?;
+    if act_mint_amount < min_index_amount {
+        return Err(ContractError::TradeAmountExceeded {});
+    }
     let act_mint_asset = coin(act_mint_amount.u128(), core_config.index_denom);
 
     let resp = Response::new()
-- 
2.43.0


From 82019cece80d73d9d9dd0d4797c2319e97cf85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 09/12] fix: SimulateMintExactAmountIn deducts the mint fee

It divided by one minus the fee, quoting more index tokens than the core
contract leaves the minter with.
---
 contracts/periphery/src/query.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..12cad82 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -29,11 +29,12 @@ pub fn simulate_mint_exact_amount_in(
         .estimate_index_for_input(input_asset.clone(), None, None, None)?
         .max;
 
+    let spend_amount = sim_res.est_min_token_out - Uint128::new(100); // FIXME: hacky calibration
+
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = spend_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(spend_amount);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From a35ec6cef0b429d4caef5f8a2d87cbd34a254464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 10/12] fix: SimulateMintExactAmountOut quotes the input for
 the full mint amount

Minting funds the whole amount and takes the fee from the minted tokens, so
quoting the input for the amount after fee understated what minting costs.
---
 contracts/periphery/src/query.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 12cad82..0a164fc 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -64,13 +64,14 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    // the fee is taken from minted tokens, full amount is to be funded
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From 08a125e1c77fee87591d1cd77380a7dde05b0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:03 +0000
Subject: [PATCH 11/12] fix: SimulateBurnExactAmountOut quotes redemptions net
 of the burn fee

The core contract redeems units for the amount left after its burn fee, not
for the whole burnt amount.
---
 contracts/periphery/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 0a164fc..a0b4195 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -137,7 +137,8 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    // core contract redeems what is left after burn fee
+    let conv = make_unit_converter(sim_res.est_min_token_in);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From 5425f701eef3614b49c2404ffd38bf81aa1111da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:39 +0000
Subject: [PATCH 12/12] fix: trading all that is open of an asset closes it
 exactly

Both trades debited floor(amount / supply) even when the whole reserve of a
denom was spent or the whole gap of a unit was sold.  The remainder, worth
less than one base unit, could never be traded, so finalization could not
succeed any more.
---
 contracts/core/src/execute/rebalance/trade/deflate.rs | 7 ++++++-
 contracts/core/src/execute/rebalance/trade/inflate.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..e270b35 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -121,7 +121,12 @@ pub fn deflate(
     }
 
     // deduct & expand stored units
-    let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;
+    // (selling the whole gap leaves no remainder of the unit above its target)
+    let index_deduct_unit = if sim_amount_in == amount_gap {
+        unit_gap
+    } else {
+        Decimal::checked_from_ratio(sim_amount_in, total_supply)?
+    };
     let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;
 
     // deduct index unit
diff --git a/contracts/core/src/execute/rebalance/trade/inflate.rs b/contracts/core/src/execute/rebalance/trade/inflate.rs
index 1320e8e..158c69d 100644
--- a/contracts/core/src/execute/rebalance/trade/inflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/inflate.rs
@@ -80,7 +80,12 @@ pub fn inflate(
     }
 
     // deduct & expand stored units
-    let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;
+    // (spending the whole reserve of the denom leaves no remainder of its unit)
+    let reserve_deduct_unit = if amount_in == reserve_amount {
+        reserve_unit
+    } else {
+        Decimal::checked_from_ratio(amount_in, total_supply)?
+    };
     let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;
 
     // expand index unit
-- 
2.43.0

