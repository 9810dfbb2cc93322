From a416aa963e472eee5ed68021f1ce5b184e42458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 01/14] fix: mint must not accept an unpaid position when the
 vault balance check overflows

---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..972f352 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,13 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap() <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap() <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From 2cb85d70c5d1379426b85d36a776f36a29ea54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 02/14] fix: decrease_liquidity must not burn more liquidity
 than the NFT owns

---
 programs/core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 972f352..6f2af1e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1796,7 +1796,10 @@ pub mod cyclos_core {
 
         tokenized_position.fee_growth_inside_0_last_x32 = fee_growth_inside_0_last_x32;
         tokenized_position.fee_growth_inside_1_last_x32 = fee_growth_inside_1_last_x32;
-        tokenized_position.liquidity -= liquidity;
+        tokenized_position.liquidity = tokenized_position
+            .liquidity
+            .checked_sub(liquidity)
+            .unwrap();
 
         emit!(DecreaseLiquidityEvent {
             token_id: tokenized_position.mint,
-- 
2.43.0


From 2c8cc46f067271832e8e71afdc75cb587711bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 03/14] fix: swap input plus fee must not wrap around

---
 programs/core/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6f2af1e..e6deeb8 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1181,7 +1181,7 @@ pub mod cyclos_core {
 
             if exact_input {
                 state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                    i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1190,7 +1190,10 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(
+                        i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap())
+                            .unwrap(),
+                    )
                     .unwrap();
             }
 
-- 
2.43.0


From 2f7cea1a0d3ab8f9c8e3006a28e9edd3a042430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 04/14] fix: exact input swaps must report the output amount,
 not the input amount

---
 programs/core/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e6deeb8..716b1eb 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2099,7 +2099,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2114,8 +2114,8 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From fa81057289f916282902fddef6a65ce19dbda36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 05/14] fix: collect must pay from the matching vault of the
 pool

---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 716b1eb..83ced23 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -825,6 +825,15 @@ pub mod cyclos_core {
             AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
         let mut pool = pool_state.load_mut()?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         let tick_lower_state =
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
         let tick_lower = *tick_lower_state.load()?.deref();
-- 
2.43.0


From ec195a7e74c35636421ab109ea4b66d9e3b9968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 06/14] fix: burn event reports the upper tick

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 83ced23..98f0c78 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From a79db17e1425aa478ddab6b42e1bafe735c0dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 07/14] fix: exact output of token_0 must not fail when amount
 * price exceeds u64

---
 programs/core/src/libraries/sqrt_price_math.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/libraries/sqrt_price_math.rs b/programs/core/src/libraries/sqrt_price_math.rs
index 0452d87..021ceeb 100644
--- a/programs/core/src/libraries/sqrt_price_math.rs
+++ b/programs/core/src/libraries/sqrt_price_math.rs
@@ -73,10 +73,9 @@ pub fn get_next_sqrt_price_from_amount_0_rounding_up(
         )
         .as_u64()
     } else {
-        // if the product overflows, we know the denominator underflows
-        // in addition, we must check that the denominator does not underflow
-        // assert!(product / amount == sqrt_p_x32 && numerator_1 > product);
-        let product = U128::from(amount.checked_mul(sqrt_p_x32).unwrap());
+        // the product of two u64 values always fits in U128
+        // we must check that the denominator does not underflow
+        let product = U128::from(amount) * U128::from(sqrt_p_x32);
         assert!(numerator_1 > product);
 
         let denominator = numerator_1 - product;
-- 
2.43.0


From f28fea7a4375b51e704f44a006acc88d954b9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 08/14] fix: position NFTs must only control the pool and tick
 range they represent

---
 programs/core/src/lib.rs                      | 24 +++++++++++++++++++
 .../core/src/states/tokenized_position.rs     | 19 +++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 98f0c78..b028458 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1672,6 +1672,11 @@ pub mod cyclos_core {
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
         let tick_upper = tick_upper_state.load()?.tick;
 
+        ctx.accounts
+            .tokenized_position_state
+            .load()?
+            .validate_range(&pool_state.key(), tick_lower, tick_upper);
+
         let mut accs = MintContext {
             minter: ctx.accounts.payer.clone(),
             token_account_0: ctx.accounts.token_account_0.clone(),
@@ -1756,6 +1761,16 @@ pub mod cyclos_core {
     ) -> Result<()> {
         assert!(liquidity > 0);
 
+        ctx.accounts.tokenized_position_state.load()?.validate_range(
+            &ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick,
+        );
+
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
@@ -1841,6 +1856,15 @@ pub mod cyclos_core {
         assert!(amount_0_max > 0 || amount_1_max > 0);
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        tokenized_position.validate_range(
+            &ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick,
+        );
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
diff --git a/programs/core/src/states/tokenized_position.rs b/programs/core/src/states/tokenized_position.rs
index 6b5f295..deaa7d9 100644
--- a/programs/core/src/states/tokenized_position.rs
+++ b/programs/core/src/states/tokenized_position.rs
@@ -39,6 +39,25 @@ pub struct TokenizedPositionState {
     pub tokens_owed_1: u64,
 }
 
+impl TokenizedPositionState {
+    /// Validates that the given pool and tick accounts are the ones which the position NFT represents
+    ///
+    /// # Arguments
+    ///
+    /// * `self` - The tokenized position
+    /// * `pool_id` - Address of the pool account
+    /// * `tick_lower` - The lower tick of the core position
+    /// * `tick_upper` - The upper tick of the core position
+    ///
+    pub fn validate_range(&self, pool_id: &Pubkey, tick_lower: i32, tick_upper: i32) {
+        assert!(
+            *pool_id == { self.pool_id }
+                && tick_lower == { self.tick_lower }
+                && tick_upper == { self.tick_upper }
+        );
+    }
+}
+
 /// Emitted when liquidity is increased for a position NFT.
 /// Also emitted when a token is minted
 #[event]
-- 
2.43.0


From 2664c75431e01fa2c782877a1af856b0ca8ec1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 09/14] fix: decrease_liquidity must not credit the fees of the
 whole core position to one NFT

---
 programs/core/src/lib.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index b028458..d97f87e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1774,8 +1774,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1799,8 +1798,28 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+        // the core position is shared by all NFTs of this range. Leave out the fees it was credited
+        // with, so that the amounts only consist of the tokens returned for the burned liquidity
+        let amount_0 = updated_core_position
+            .tokens_owed_0
+            .wrapping_sub(core_position_before.tokens_owed_0)
+            .wrapping_sub(
+                updated_core_position
+                    .fee_growth_inside_0_last_x32
+                    .wrapping_sub(core_position_before.fee_growth_inside_0_last_x32)
+                    .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+                    .unwrap(),
+            );
+        let amount_1 = updated_core_position
+            .tokens_owed_1
+            .wrapping_sub(core_position_before.tokens_owed_1)
+            .wrapping_sub(
+                updated_core_position
+                    .fee_growth_inside_1_last_x32
+                    .wrapping_sub(core_position_before.fee_growth_inside_1_last_x32)
+                    .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+                    .unwrap(),
+            );
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From 2d417f421c9a66147d76231f6cb60550262a998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 10/14] fix: new oracle observations must continue from the
 latest one, also after swaps

---
 programs/core/src/lib.rs           |  5 +++++
 programs/core/src/states/oracle.rs | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index d97f87e..e9f11d5 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1288,6 +1288,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation.deref();
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1315,12 +1316,14 @@ pub mod cyclos_core {
             };
             pool.tick = state.tick;
             pool.observation_cardinality_next = next_observation.update(
+                last_observation,
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
@@ -2264,6 +2267,7 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation.deref();
             drop(latest_observation);
 
             let next_observation_state;
@@ -2283,6 +2287,7 @@ pub fn _modify_position<'info>(
             };
 
             pool_state.observation_cardinality_next = new_observation.update(
+                last_observation,
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..a3cc82e 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -79,6 +79,7 @@ impl ObservationState {
     /// # Arguments
     ///
     /// * `self` - The observation account to write in
+    /// * `last` - The most recently written observation. Can be the same as `self`
     /// * `block_timestamp` - The timestamp of the new observation
     /// * `tick` - The active tick at the time of the new observation
     /// * `liquidity` - The total in-range liquidity at the time of the new observation
@@ -87,17 +88,22 @@ impl ObservationState {
     ///
     pub fn update(
         &mut self,
+        last: ObservationState,
         block_timestamp: u32,
         tick: i32,
         liquidity: u64,
         cardinality: u16,
         cardinality_next: u16,
     ) -> u16 {
-        if self.block_timestamp == block_timestamp {
+        if last.block_timestamp == block_timestamp {
             return cardinality;
         }
 
-        *self = self.transform(block_timestamp, tick, liquidity);
+        *self = ObservationState {
+            bump: self.bump,
+            index: self.index,
+            ..last.transform(block_timestamp, tick, liquidity)
+        };
 
         if cardinality_next > cardinality && self.index == (cardinality - 1) {
             cardinality_next
-- 
2.43.0


From 6a3d7235ac10d8e28c6684db69dfe2ac14c4ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 11/14] fix: growing the oracle must not lose observation slots

---
 programs/core/src/lib.rs           | 4 ++--
 programs/core/src/states/oracle.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e9f11d5..ebf668a 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1315,7 +1315,7 @@ pub mod cyclos_core {
                 last_observation_state.load_mut()?
             };
             pool.tick = state.tick;
-            pool.observation_cardinality_next = next_observation.update(
+            pool.observation_cardinality = next_observation.update(
                 last_observation,
                 cache.block_timestamp,
                 pool.tick,
@@ -2286,7 +2286,7 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
                 last_observation,
                 timestamp,
                 pool_state.tick,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index a3cc82e..f1141f6 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -105,7 +105,7 @@ impl ObservationState {
             ..last.transform(block_timestamp, tick, liquidity)
         };
 
-        if cardinality_next > cardinality && self.index == (cardinality - 1) {
+        if cardinality_next > cardinality && self.index >= cardinality {
             cardinality_next
         } else {
             cardinality
-- 
2.43.0


From d7f17eee05a7351a10551038a9bc4778e47d8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 12/14] fix: swaps must record the tick which was active before
 the swap in the oracle

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index ebf668a..d694d26 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1314,7 +1314,6 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
             pool.observation_cardinality = next_observation.update(
                 last_observation,
                 cache.block_timestamp,
@@ -1324,6 +1323,7 @@ pub mod cyclos_core {
                 pool.observation_cardinality_next,
             );
             pool.observation_index = next_observation.index;
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
-- 
2.43.0


From 8f0c3c5bbd0b587dedc4a073e40c48889363c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 13/14] fix: growing the oracle must not be blocked by lamports
 sent to the next observation address

---
 programs/core/src/lib.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index d694d26..8d07857 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -18,7 +18,7 @@ use crate::{
 };
 use anchor_lang::prelude::*;
 use anchor_lang::solana_program;
-use anchor_lang::solana_program::system_instruction::create_account;
+use anchor_lang::solana_program::system_instruction::{allocate, assign, transfer};
 use anchor_lang::{solana_program::instruction::Instruction, InstructionData};
 use anchor_spl::associated_token::get_associated_token_address;
 use anchor_spl::token;
@@ -225,23 +225,25 @@ pub mod cyclos_core {
             let space = 8 + size_of::<ObservationState>();
             let rent = Rent::get()?;
             let lamports = rent.minimum_balance(space);
-            let ix = create_account(
-                ctx.accounts.payer.key,
-                &ctx.remaining_accounts[i].key,
-                lamports,
-                space as u64,
-                ctx.program_id,
-            );
-
-            solana_program::program::invoke_signed(
-                &ix,
-                &[
-                    ctx.accounts.payer.to_account_info(),
-                    ctx.remaining_accounts[i].to_account_info(),
-                    ctx.accounts.system_program.to_account_info(),
-                ],
-                &[&observation_account_seeds[..]],
-            )?;
+            // create_account fails if anyone sent lamports to the address beforehand
+            let observation_key = ctx.remaining_accounts[i].key;
+            let missing_lamports =
+                lamports.saturating_sub(ctx.remaining_accounts[i].lamports());
+            for ix in [
+                transfer(ctx.accounts.payer.key, observation_key, missing_lamports),
+                allocate(observation_key, space as u64),
+                assign(observation_key, ctx.program_id),
+            ] {
+                solana_program::program::invoke_signed(
+                    &ix,
+                    &[
+                        ctx.accounts.payer.to_account_info(),
+                        ctx.remaining_accounts[i].to_account_info(),
+                        ctx.accounts.system_program.to_account_info(),
+                    ],
+                    &[&observation_account_seeds[..]],
+                )?;
+            }
 
             let observation_state_loader = AccountLoader::<ObservationState>::try_from_unchecked(
                 &cyclos_core::id(),
-- 
2.43.0


From 55b763f2235f86aa0ca29a43b88c185ebca2eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 14/14] fix: start a new oracle slot when the 32-bit clock
 wraps around

The windows of the current and of the latest observation were compared with
'greater than'. When the truncated timestamp wraps, the current window is the
smaller one, so the latest observation was overwritten instead of the next slot
being used.
---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 8d07857..689a03a 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1298,7 +1298,7 @@ pub mod cyclos_core {
             // use the next observation account and update pool observation index if block time falls
             // in another partition
             let next_observation_state;
-            let mut next_observation = if partition_current_timestamp > partition_last_timestamp {
+            let mut next_observation = if partition_current_timestamp != partition_last_timestamp {
                 msg!("loading observation");
                 next_observation_state = AccountLoader::<ObservationState>::try_from(
                     &remaining_accounts.next().unwrap(),
@@ -2273,7 +2273,7 @@ pub fn _modify_position<'info>(
             drop(latest_observation);
 
             let next_observation_state;
-            let mut new_observation = if partition_current_timestamp > partition_last_timestamp {
+            let mut new_observation = if partition_current_timestamp != partition_last_timestamp {
                 next_observation_state =
                     AccountLoader::<ObservationState>::try_from(&remaining_accounts[0])?;
                 let next_observation = next_observation_state.load_mut()?;
-- 
2.43.0

