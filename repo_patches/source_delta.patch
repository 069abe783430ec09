From c470434c6ee4b52c001c90c22d3e13cb82ef4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 01/42] fix: encode 65535 and 2^32-1 canonically as Bitcoin
 compact integers

---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 5a3d695f27a9fdcdb7707ca81d6aa50ed7a3ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 02/42] fix: reject malformed coinbase heights and oversized
 lengths instead of panicking

---
 crates/bitcoin/src/parser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..7d2981d 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,14 +248,12 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        self.position = end;
         Ok(Vec::from(bytes))
     }
 }
@@ -359,12 +357,17 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
-            script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
+            script_size = script_size
+                .checked_sub(height_size)
+                .and_then(|size| size.checked_sub(1))
+                .ok_or(Error::EndOfFile)?;
 
             let mut buffer = [0u8; 4];
             let bytes = parser.read(height_size as usize)?;
-            buffer[..(height_size as usize)]
-                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
+            buffer
+                .get_mut(..bytes.len())
+                .ok_or(Error::MalformedTransaction)?
+                .copy_from_slice(&bytes);
             Some(u32::from_le_bytes(buffer))
         };
 
-- 
2.43.0


From 843fd6dd3e138d43dbb3e548ec0d7588980cb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 03/42] fix: reject merkle proofs with identical left and right
 branches

---
 crates/bitcoin/src/merkle.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/merkle.rs b/crates/bitcoin/src/merkle.rs
index 39a03f5..89317e5 100644
--- a/crates/bitcoin/src/merkle.rs
+++ b/crates/bitcoin/src/merkle.rs
@@ -228,7 +228,13 @@ impl MerkleProof {
 
         let left = self.traverse_and_extract(next_height, left_index, traversal)?;
         let right = if right_index < self.compute_partial_tree_width(next_height) {
-            self.traverse_and_extract(next_height, right_index, traversal)?
+            let right = self.traverse_and_extract(next_height, right_index, traversal)?;
+            if right == left {
+                // the left and right branches should never be identical, as the transaction
+                // hashes covered by them must each be unique (CVE-2012-2459)
+                return Err(Error::MalformedMerkleProof);
+            }
+            right
         } else {
             left
         };
-- 
2.43.0


From 37c88cc265301d2f66be34478ab400b6e54090a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 04/42] fix: close a swap order when it is executed, so that it
 is paid out once

---
 contracts/btc_swap/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..186a2b7 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -115,7 +115,8 @@ mod btc_swap {
         #[ink(message)]
         pub fn execute_trade(&mut self, counterparty: AccountId, full_proof: FullTransactionProof) {
             let caller = self.env().caller();
-            let order = self.orders.get(&counterparty).unwrap();
+            // the order can be executed only once; a failed execution reverts its removal
+            let order = self.orders.take(&counterparty).unwrap();
 
             let transferred_sats = self
                 .env()
-- 
2.43.0


From e0691273d6697fe54a5506baad13d1b9e847bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 05/42] fix: keep the fork queue of the relay sorted when a
 fork overtakes others of equal height

---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..53c5e75 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork now sits at the previous position; its height is unchanged
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 60ee30b43e32cb8e4c36e402ab0e6534f747fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 06/42] fix: find the start of the difficulty period for forks
 that began within it

---
 crates/btc-relay/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 53c5e75..72f2416 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,15 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // a fork that started within this period shares the first block of
+        // the period with the chain(s) that it branched off from
+        while block_chain.start_height > period_start_height {
+            let first_header = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent = Self::get_block_header_from_hash(first_header.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From b745482f2b659519ac2d089c76033a47fc986d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 07/42] fix: apply slashes at the pool that is withdrawn from,
 not at the newest one

---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 179fea9549ef4c5e70f1cdb65ddceca2f921b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 08/42] fix: leave the total collateral alone on withdrawals
 from stale nomination pools

---
 crates/nomination/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..adcb605 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // stale staking pools no longer count since the vault opted out
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From f639dd1cbfacf8cb4703fee60a2c0acfb4df4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 09/42] fix: report no issuable tokens in the wrapped currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..6ba23ac 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1778,7 +1778,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::zero(vault_id.currencies.wrapped))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From c4f7daf84d218f167fad790865aa6fed5fb437e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 10/42] fix: pay what is left of a promised redeem premium when
 the vault was slashed meanwhile

---
 crates/vault-registry/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 6ba23ac..b1977d1 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1262,7 +1262,8 @@ impl<T: Config> Pallet<T> {
                     redeemed_amount: tokens.amount(),
                 });
             } else {
-                Self::transfer_funds(
+                // the vault may have been slashed since the premium was promised
+                let paid = Self::transfer_funds_saturated(
                     CurrencySource::Collateral(vault_id.clone()),
                     CurrencySource::FreeBalance(redeemer_id.clone()),
                     premium,
@@ -1271,7 +1272,7 @@ impl<T: Config> Pallet<T> {
                 Self::deposit_event(Event::<T>::RedeemTokensPremium {
                     vault_id: vault_id.clone(),
                     redeemed_amount: tokens.amount(),
-                    collateral: premium.amount(),
+                    collateral: paid.amount(),
                     user_id: redeemer_id.clone(),
                 });
             }
-- 
2.43.0


From af2dd8d714f67d625b3b4f213fdd14a0f673982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 11/42] fix: let replace requests be cancelled when the new
 vault must keep its collateral

---
 crates/replace/src/ext.rs |  4 ++++
 crates/replace/src/lib.rs | 14 +++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/replace/src/ext.rs b/crates/replace/src/ext.rs
index 62457cf..75b517c 100644
--- a/crates/replace/src/ext.rs
+++ b/crates/replace/src/ext.rs
@@ -132,6 +132,10 @@ pub(crate) mod vault_registry {
         <vault_registry::Pallet<T>>::force_withdraw_collateral(vault_id, amount)
     }
 
+    pub fn compute_collateral<T: crate::Config>(vault_id: &DefaultVaultId<T>) -> Result<Amount<T>, DispatchError> {
+        <vault_registry::Pallet<T>>::compute_collateral(vault_id)
+    }
+
     pub fn is_allowed_to_withdraw_collateral<T: crate::Config>(
         vault_id: &DefaultVaultId<T>,
         amount: Option<Amount<T>>,
diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..2dc9dbd 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -587,11 +587,15 @@ impl<T: Config> Pallet<T> {
         )?;
 
         // if the new_vault locked additional collateral especially for this replace,
-        // release it if it does not cause them to be undercollateralized
-        if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
-        {
-            ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
+        // release what is left of it if it does not cause them to be undercollateralized;
+        // the cancellation itself must not depend on it
+        if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)? {
+            let collateral = collateral.min(&ext::vault_registry::compute_collateral::<T>(&new_vault_id)?)?;
+            if ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))
+                .unwrap_or(false)
+            {
+                ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
+            }
         }
 
         // Remove the ReplaceRequest from ReplaceRequests
-- 
2.43.0


From 016eec870c1721f5fc22f2fb487f49a8b7a6fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 12/42] fix: take a liquidated vault out of the reward pools of
 its collateral, not just of its vaults

---
 crates/vault-registry/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..bed5fa0 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -624,9 +624,6 @@ impl<T: Config> RichVault<T> {
         liquidation_vault.increase_to_be_redeemed(&self.to_be_redeemed_tokens())?;
         // todo: clear replace collateral?
 
-        // withdraw stake from the reward pool
-        ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
-
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
             v.to_be_issued_tokens = Zero::zero();
@@ -635,6 +632,9 @@ impl<T: Config> RichVault<T> {
             Ok(())
         });
 
+        // withdraw stake from the reward & capacity pools
+        PoolManager::<T>::on_vault_settings_change(&vault_id)?;
+
         Ok(liquidated_collateral_excluding_to_be_redeemed)
     }
 
-- 
2.43.0


From f89a021aca4ecf44070adf441979658c42720893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 13/42] fix: refuse liquidation redeems of nothing, which paid
 out unclaimed collateral

---
 crates/redeem/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/redeem/src/lib.rs b/crates/redeem/src/lib.rs
index 7d60e1c..f796078 100644
--- a/crates/redeem/src/lib.rs
+++ b/crates/redeem/src/lib.rs
@@ -561,6 +561,9 @@ impl<T: Config> Pallet<T> {
     ) -> Result<(), DispatchError> {
         let amount_wrapped = Amount::new(amount_wrapped, currencies.wrapped);
 
+        // burning nothing gives no claim on the liquidated collateral
+        ensure!(!amount_wrapped.is_zero(), Error::<T>::AmountBelowDustAmount);
+
         let redeemer_balance = ext::treasury::get_balance::<T>(&redeemer, currencies.wrapped);
         ensure!(
             amount_wrapped.le(&redeemer_balance)?,
-- 
2.43.0


From 5c7cc3a128a69ec860b392c9a56bb9dcc879cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 14/42] fix: liquidate vaults although the collateral ceiling
 was lowered

---
 crates/vault-registry/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index b1977d1..67cf944 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -981,7 +981,9 @@ impl<T: Config> Pallet<T> {
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidationVault(ref currencies) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                // confiscated collateral is not new: the ceiling, which may have been lowered
+                // since, must not prevent a liquidation
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 let mut liquidation_vault = Self::get_rich_liquidation_vault(currencies);
                 liquidation_vault.increase_collateral(amount)?;
                 amount.lock_on(&to.account_id())?;
@@ -1506,6 +1508,15 @@ impl<T: Config> Pallet<T> {
         let limit = Self::get_collateral_ceiling(currency_pair)?;
         ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
 
+        Self::increase_total_backing_collateral(currency_pair, amount)
+    }
+
+    fn increase_total_backing_collateral(
+        currency_pair: &DefaultVaultCurrencyPair<T>,
+        amount: &Amount<T>,
+    ) -> DispatchResult {
+        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;
+
         TotalUserVaultCollateral::<T>::insert(currency_pair, new.amount());
 
         Self::deposit_event(Event::<T>::IncreaseLockedCollateral {
-- 
2.43.0


From 73e1a17871658fb668b2e4479bfa31462397bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 15/42] fix: let recovered vaults earn rewards for the
 collateral they still have

---
 crates/vault-registry/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 67cf944..c934313 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -386,6 +386,7 @@ pub mod pallet {
 
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
 
             Ok(())
         }
-- 
2.43.0


From 578ed7cdfbcac1c5a3893cda99fe5696849e151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 16/42] fix: keep block rewards with the annuity when they
 cannot be distributed

---
 crates/annuity/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/annuity/src/lib.rs b/crates/annuity/src/lib.rs
index e44db09..6196baf 100644
--- a/crates/annuity/src/lib.rs
+++ b/crates/annuity/src/lib.rs
@@ -155,6 +155,9 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
         }
     }
 
+    /// Distribute the reward for this block. If the provider fails half way (e.g. after
+    /// transferring the reward to another account) then the reward must remain here.
+    #[transactional]
     pub(crate) fn begin_block(_height: BlockNumberFor<T>) -> DispatchResult {
         let reward_per_block = Self::min_reward_per_block();
         Self::deposit_event(Event::<T, I>::BlockReward(reward_per_block));
-- 
2.43.0


From a7dcc8553c6cc8fdd0fb330379fb5848e9494f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 17/42] fix: let the voting supply stop decreasing for locks
 that ended

---
 crates/escrow/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..f6350fc 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -239,6 +239,8 @@ pub mod pallet {
     #[pallet::storage]
     pub type UserPointEpoch<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, T::Nonce, ValueQuery>;
 
+    /// The amount by which the (decreasing) slope of the total supply is reduced at a height,
+    /// i.e. the slopes of all locks ending there.
     #[pallet::storage]
     pub type SlopeChanges<T: Config> = StorageMap<_, Blake2_128Concat, BlockNumberFor<T>, BalanceOf<T>, ValueQuery>;
 
@@ -442,7 +444,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -464,16 +466,16 @@ impl<T: Config> Pallet<T> {
 
         // schedule the slope change
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +608,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From d4c0af484ff42dab611445b77e252709468925b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 18/42] fix: keep unclaimed farming rewards out of new and
 removed schedules

---
 crates/farming/src/lib.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..cd1274c 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,14 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // NOTE: the pool account also holds distributed but unclaimed rewards
+                let total_remaining = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_remaining
+                    .checked_div(&total_period_count.into())
+                    .unwrap_or_default();
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
@@ -261,14 +267,18 @@ pub mod pallet {
             ensure_root(origin)?;
             pool_currency_id.sort();
 
-            // transfer unspent rewards to treasury
+            // transfer unspent rewards to treasury, the pool
+            // account also holds distributed but unclaimed rewards
+            let unspent = RewardSchedules::<T>::get(pool_currency_id, reward_currency_id)
+                .total()
+                .ok_or(ArithmeticError::Overflow)?;
             let treasury_account_id = T::TreasuryAccountId::get();
             let pool_account_id = Self::pool_account_id(&pool_currency_id);
             T::MultiCurrency::transfer(
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                unspent,
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From 1d6de70a08e09d96d760a2e8783f47eac59e4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 19/42] fix: refuse swap paths that use a pair twice

Every hop is quoted at the reserves before the swap, so the second visit of
a pair paid out at a price the first visit had already moved and the
product of its reserves fell.
---
 crates/dex-general/src/swap/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..2e65c58 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -447,12 +447,26 @@ impl<T: Config> Pallet<T> {
         Ok(amount_out)
     }
 
+    /// Every pair of a path is quoted at its current reserves, so the path may use each pair only once.
+    fn ensure_distinct_pairs(path: &[T::AssetId]) -> DispatchResult {
+        let pairs = path
+            .windows(2)
+            .map(|assets| Self::sort_asset_id(assets[0], assets[1]))
+            .collect::<Vec<_>>();
+        ensure!(
+            (1..pairs.len()).all(|i| !pairs[..i].contains(&pairs[i])),
+            Error::<T>::InvalidPath
+        );
+        Ok(())
+    }
+
     pub fn get_amount_in_by_path(
         amount_out: AssetBalance,
         path: &[T::AssetId],
     ) -> Result<Vec<AssetBalance>, DispatchError> {
         let len = path.len();
         ensure!(len > 1, Error::<T>::InvalidPath);
+        Self::ensure_distinct_pairs(path)?;
 
         let mut i = len - 1;
         let mut out_vec = vec![amount_out];
@@ -502,6 +516,7 @@ impl<T: Config> Pallet<T> {
         path: &[T::AssetId],
     ) -> Result<Vec<AssetBalance>, DispatchError> {
         ensure!(path.len() > 1, Error::<T>::InvalidPath);
+        Self::ensure_distinct_pairs(path)?;
 
         let mut out_vec = vec![amount_in];
 
-- 
2.43.0


From 47fda23deb9453eb9210045e6b198ecdce6d90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 20/42] fix: mint the protocol fee of a pair before liquidity
 is withdrawn

The withdrawn amounts were computed with the supply of before the fee, so
the fee was charged to the remaining providers only.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 2e65c58..b86e2f5 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,15 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                // must use the supply that includes the protocol fee
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From 06be5ad7bef3d75d1f6c4254a1b383bb187d9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 21/42] fix: reject an unknown currency index in
 swap_pool_from_base

The index of the caller was used unchecked and panicked when out of range.
---
 crates/dex-stable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 18cfb5f..1634528 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1406,7 +1406,7 @@ impl<T: Config> Pallet<T> {
         let base_pool_len = base_pool.currency_ids.len();
 
         let mut base_amounts = vec![Balance::default(); base_pool_len];
-        base_amounts[in_index as usize] = dx;
+        *base_amounts.get_mut(in_index as usize).ok_or(Error::<T>::TokenIndexOutOfRange)? = dx;
 
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-- 
2.43.0


From f7fec88388e9f3bf6ab8330e2382789ca58ef2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 22/42] fix: honour recipient and minimum when
 swap_pool_from_base ends in the base pool

The lp currency stayed with the caller whoever was to receive it, however
little it was, and the output was reported as zero.
---
 crates/dex-stable/src/lib.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 1634528..7c45e17 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1408,22 +1408,22 @@ impl<T: Config> Pallet<T> {
         let mut base_amounts = vec![Balance::default(); base_pool_len];
         *base_amounts.get_mut(in_index as usize).ok_or(Error::<T>::TokenIndexOutOfRange)? = dx;
 
-        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
-
-        let mut out_amount: Balance = 0;
-        if base_pool_lp_currency_in_meta_index != (out_index as usize) {
-            out_amount = Self::inner_swap(
-                who,
-                meta_pool_id,
-                base_pool_lp_currency_in_meta_index,
-                out_index as usize,
-                base_lp_amount,
-                min_dy,
-                to,
-            )?;
+        // the lp currency of the base pool itself is asked for
+        if base_pool_lp_currency_in_meta_index == (out_index as usize) {
+            return Self::inner_add_liquidity(who, base_pool_id, &base_amounts, min_dy, to);
         }
 
-        Ok(out_amount)
+        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
+
+        Self::inner_swap(
+            who,
+            meta_pool_id,
+            base_pool_lp_currency_in_meta_index,
+            out_index as usize,
+            base_lp_amount,
+            min_dy,
+            to,
+        )
     }
 
     fn inner_swap_pool_to_base(
-- 
2.43.0


From 5f5e830892c282c78ee7e1de31cfed6ede8786f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 23/42] fix: loans: settle the borrower's incentive when its
 debt is liquidated

The debt that a liquidation reduces is the borrower's, but the reward was
settled for the liquidator, so the borrower lost the reward earned on the
repaid part of the debt.
---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..22a7e20 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1595,7 +1595,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From 059e47807078f590244d7f7968bf0a12f3b692d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 24/42] fix: loans: let a liquidation repay a whole debt

Debts are rounded up and their total is rounded down, so the last debt of a
market can exceed the total; repayments allow for it, liquidations failed.
---
 crates/loans/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 22a7e20..e65ffb7 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1604,7 +1604,8 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // As for repayments: `total_borrows` is rounded down and may be less than the borrower's debt.
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From a623cc38f3e85f44f59236657955e1f3a19411dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 25/42] fix: loans: validate the new reserved factor in
 update_market

The stored value was validated, so any new value was accepted.
---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e65ffb7..e967004 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From e1e250a264dff570c326ca6181e2f0124f3a6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 26/42] fix: loans: refuse a jump model with a jump utilization
 of zero

The rate at zero utilization divides by it, so such a market stops: every
operation on it fails.
---
 crates/loans/src/rate_model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..c967bbd 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // `get_borrow_rate` divides by the jump utilization
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0


From 23ffc80a94de98cc2d66227a86d422c62a0e5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 27/42] fix: loans: accrue interest before the terms of a
 market change

A new rate model or reserve factor applied retroactively to all the time
since the last operation on the market.
---
 crates/loans/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e967004..c5ac4b5 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -710,6 +710,8 @@ pub mod pallet {
         ) -> DispatchResultWithPostInfo {
             T::UpdateOrigin::ensure_origin(origin)?;
             ensure!(rate_model.check_model(), Error::<T>::InvalidRateModelParam);
+            // the interest up to now is due at the old rates
+            Self::accrue_interest(asset_id)?;
             let market = Self::mutate_market(asset_id, |stored_market| {
                 stored_market.rate_model = rate_model;
                 Ok(stored_market.clone())
@@ -780,6 +782,10 @@ pub mod pallet {
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
 
+            if reserve_factor != market.reserve_factor {
+                // the interest up to now is due at the old reserve factor
+                Self::accrue_interest(asset_id)?;
+            }
             let market = Self::mutate_market(asset_id, |stored_market| {
                 *stored_market = Market {
                     state: stored_market.state,
-- 
2.43.0


From c032678870df6c3b65e515906e876d63b648c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 28/42] fix: return deposits and release call data when
 clearing all public proposals

---
 crates/democracy/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/democracy/src/lib.rs b/crates/democracy/src/lib.rs
index ceb7c63..60eda06 100644
--- a/crates/democracy/src/lib.rs
+++ b/crates/democracy/src/lib.rs
@@ -545,7 +545,16 @@ pub mod pallet {
         #[pallet::weight(T::WeightInfo::clear_public_proposals())]
         pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
             ensure_root(origin)?;
-            <PublicProps<T>>::kill();
+            for (prop_index, proposal, _) in <PublicProps<T>>::take() {
+                // since we placed a `hold` on propose
+                // we should now unrequest the data
+                T::Preimages::drop(&proposal);
+                if let Some((whos, amount)) = <DepositOf<T>>::take(prop_index) {
+                    for who in whos.into_iter() {
+                        T::Currency::unreserve(&who, amount);
+                    }
+                }
+            }
             Ok(())
         }
 
-- 
2.43.0


From 3238ba678fde61a25c8328af16a1b9ce26d7f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 29/42] fix: list a candidate that was made invulnerable only
 once

---
 crates/collator-selection/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/collator-selection/src/lib.rs b/crates/collator-selection/src/lib.rs
index 7a801cc..9f3b3b8 100644
--- a/crates/collator-selection/src/lib.rs
+++ b/crates/collator-selection/src/lib.rs
@@ -416,7 +416,12 @@ pub mod pallet {
         /// This is done on the fly, as frequent as we are told to do so, as the session manager.
         pub fn assemble_collators(candidates: BoundedVec<T::AccountId, T::MaxCandidates>) -> Vec<T::AccountId> {
             let mut collators = Self::invulnerables().to_vec();
-            collators.extend(candidates);
+            // a candidate that was made invulnerable is listed already
+            for candidate in candidates {
+                if !collators.contains(&candidate) {
+                    collators.push(candidate);
+                }
+            }
             collators
         }
 
-- 
2.43.0


From 839a2d7f59fc1336b580cccbfced54a9c66ef317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 30/42] fix: refuse to unpause what is not paused by itself

---
 crates/tx-pause/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tx-pause/src/lib.rs b/crates/tx-pause/src/lib.rs
index 037daef..36302dc 100644
--- a/crates/tx-pause/src/lib.rs
+++ b/crates/tx-pause/src/lib.rs
@@ -288,7 +288,8 @@ impl<T: Config> Pallet<T> {
 
     /// Ensure that this call can be un-paused.
     pub fn ensure_can_unpause(full_name: &FullNameOf<T>) -> Result<(), Error<T>> {
-        if Self::is_paused(&full_name) {
+        // a call can be paused by way of its pallet only, in which case there is nothing to un-pause
+        if Self::is_paused(&full_name) && PausedCalls::<T>::contains_key(full_name) {
             // SAFETY: Everything that is paused, can be un-paused.
             Ok(())
         } else {
-- 
2.43.0


From fbfb7fd57fa4a9bcdc27c85af4f3d016d4313c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 31/42] fix: issue: a cancellation names the requester of the
 issue, not whoever cancelled it

---
 crates/issue/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/issue/src/lib.rs b/crates/issue/src/lib.rs
index f5a9af1..84fa5c3 100644
--- a/crates/issue/src/lib.rs
+++ b/crates/issue/src/lib.rs
@@ -515,7 +515,7 @@ impl<T: Config> Pallet<T> {
 
         Self::deposit_event(Event::CancelIssue {
             issue_id,
-            requester,
+            requester: issue.requester,
             griefing_collateral: to_be_slashed_collateral.amount(),
         });
         Ok(())
-- 
2.43.0


From 50d3fbbc96cd013910e86327083d1cf9bc1f18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 32/42] fix: redeem: a cancellation announces the collateral
 that was taken, not the collateral that should have been

---
 crates/redeem/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/redeem/src/lib.rs b/crates/redeem/src/lib.rs
index f796078..7189776 100644
--- a/crates/redeem/src/lib.rs
+++ b/crates/redeem/src/lib.rs
@@ -674,7 +674,8 @@ impl<T: Config> Pallet<T> {
                 punishment_fee_in_collateral
             };
 
-            ext::vault_registry::transfer_funds_saturated::<T>(
+            // the vault may have less left than it should lose
+            let slashed_amount = ext::vault_registry::transfer_funds_saturated::<T>(
                 CurrencySource::Collateral(vault_id.clone()),
                 CurrencySource::FreeBalance(redeemer.clone()),
                 &amount_to_slash,
@@ -682,7 +683,7 @@ impl<T: Config> Pallet<T> {
 
             let _ = ext::vault_registry::ban_vault::<T>(&vault_id);
 
-            amount_to_slash
+            slashed_amount
         };
 
         // first update the issued tokens
-- 
2.43.0


From 1a67468c752b0653b540c3f1efb9809b2b9d16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 33/42] fix: vault-registry: promise a premium only for
 redeeming from a vault below the premium threshold

The premium redeem threshold is the rate at which users receive a premium, and
get_premium_redeem_vaults lists only vaults below it, but request_redeem promised
a premium for every vault below the (higher) secure threshold.
---
 crates/vault-registry/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c934313..f5a19e7 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -801,6 +801,12 @@ impl<T: Config> Pallet<T> {
         // for `oldCol`, which takes into account pending issues and redeems
         let to_be_backed_tokens = Self::vault_to_be_backed_tokens(&vault_id)?;
         let global_secure_threshold = Self::get_global_secure_threshold(&vault_id.currencies)?;
+
+        // no premium is awarded for redeeming from a vault that is not below the premium redeem threshold
+        if !Self::will_be_below_premium_threshold(vault_id).unwrap_or(false) {
+            return Ok(Amount::zero(vault_id.collateral_currency()));
+        }
+
         let premium_redeem_rate = ext::fee::premium_redeem_reward_rate::<T>();
 
         let required_collateral =
-- 
2.43.0


From 5ce8098e1e53d2dfba65d64605ad683db533f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 34/42] fix: dex-stable: name a pool's currency by its index

get_currency answered nothing for every index in range and panicked on larger ones.
---
 crates/dex-stable/src/rpc.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/rpc.rs b/crates/dex-stable/src/rpc.rs
index e15701b..4a40822 100644
--- a/crates/dex-stable/src/rpc.rs
+++ b/crates/dex-stable/src/rpc.rs
@@ -56,9 +56,7 @@ impl<T: Config> Pallet<T> {
     pub fn get_currency(pool_id: T::PoolId, index: u32) -> Option<T::CurrencyId> {
         if let Some(pool) = Self::pools(pool_id) {
             let currency_ids = pool.get_currency_ids();
-            if currency_ids.len() < index as usize {
-                return Some(currency_ids[index as usize]);
-            }
+            return currency_ids.get(index as usize).copied();
         };
         None
     }
-- 
2.43.0


From a9a875e9590e2b6b229833681c2a644618cd7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 35/42] fix: dex-stable: quote swaps of pools over shares at
 the price the swap uses

The quote passed the price of the pool's own shares where the price of the base
pool's shares is due.
---
 crates/dex-stable/src/meta_pool.rs | 2 +-
 crates/dex-stable/src/traits.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 4ccaa4f..b275c67 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -532,7 +532,7 @@ impl<T: Config> Pallet<T> {
         Some(xp)
     }
 
-    fn meta_pool_base_virtual_price(
+    pub(crate) fn meta_pool_base_virtual_price(
         meta_pool: &MetaPool<T::PoolId, T::CurrencyId, T::AccountId, T::PoolCurrencyLimit, T::PoolCurrencySymbolLimit>,
     ) -> Option<Balance> {
         let now = T::TimeProvider::now().as_secs();
diff --git a/crates/dex-stable/src/traits.rs b/crates/dex-stable/src/traits.rs
index ad8a805..64b6a64 100644
--- a/crates/dex-stable/src/traits.rs
+++ b/crates/dex-stable/src/traits.rs
@@ -126,8 +126,8 @@ impl<T: Config> StableAmmApi<T::PoolId, T::CurrencyId, T::AccountId, Balance> fo
             return match pool {
                 Pool::Base(bp) => Self::calculate_base_swap_amount(&bp, i, j, in_balance),
                 Pool::Meta(mp) => {
-                    let virtual_price = Self::calculate_meta_virtual_price(&mp)?;
-                    let res = Self::calculate_meta_swap_amount(&mp, i, j, in_balance, virtual_price)?;
+                    let base_virtual_price = Self::meta_pool_base_virtual_price(&mp)?;
+                    let res = Self::calculate_meta_swap_amount(&mp, i, j, in_balance, base_virtual_price)?;
                     Some(res.0)
                 }
             };
-- 
2.43.0


From 5ecc2116d84fc141fa1ebfc503b074608f2117ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 36/42] fix: dex-stable: refuse to estimate with the wrong
 number of amounts

calculate_meta_currency_amount panicked on more amounts than currencies, where
calculate_base_currency_amount answers MismatchParameter.
---
 crates/dex-stable/src/meta_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index b275c67..fd54975 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -636,6 +636,10 @@ impl<T: Config> Pallet<T> {
         amounts: Vec<Balance>,
         deposit: bool,
     ) -> Result<Balance, DispatchError> {
+        ensure!(
+            meta_pool.info.currency_ids.len() == amounts.len(),
+            Error::<T>::MismatchParameter
+        );
         let base_virtual_price = Self::meta_pool_base_virtual_price(meta_pool).ok_or(Error::<T>::Arithmetic)?;
         let mut new_balances = meta_pool.info.balances.clone();
         let token_multipliers = meta_pool.info.token_multipliers.clone();
-- 
2.43.0


From 91107f2c31995a344620fb0b518eed11189923ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 37/42] fix: dex-general: announce a new bootstrap's capacities
 in the pair's order

---
 crates/dex-general/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dex-general/src/lib.rs b/crates/dex-general/src/lib.rs
index 3547be2..55c6ff0 100644
--- a/crates/dex-general/src/lib.rs
+++ b/crates/dex-general/src/lib.rs
@@ -833,8 +833,8 @@ pub mod pallet {
                 asset_1: pair.1,
                 total_supply_0: target_supply_0,
                 total_supply_1: target_supply_1,
-                capacity_supply_0: capacity_supply_1,
-                capacity_supply_1: capacity_supply_0,
+                capacity_supply_0,
+                capacity_supply_1,
                 end,
             });
             Ok(())
-- 
2.43.0


From f7eb0b21b43ad754596c6a0c2d1fe17e99369413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 38/42] fix: loans: report no interest for a market before its
 first use

---
 crates/loans/src/interest.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/interest.rs b/crates/loans/src/interest.rs
index 095113c..f5c6eee 100644
--- a/crates/loans/src/interest.rs
+++ b/crates/loans/src/interest.rs
@@ -84,7 +84,8 @@ impl<T: Config> Pallet<T> {
 
         let now = T::UnixTime::now().as_secs();
         let last_accrued_interest_time = Self::last_accrued_interest_time(asset_id);
-        if now > last_accrued_interest_time {
+        // no interest accrues before the first use of the market
+        if !last_accrued_interest_time.is_zero() && now > last_accrued_interest_time {
             let delta_time = now
                 .checked_sub(last_accrued_interest_time)
                 .ok_or(ArithmeticError::Underflow)?;
-- 
2.43.0


From 84d8224381ee42916922fdc01fcc157cc7108cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:15 +0000
Subject: [PATCH 39/42] fix: dex-stable: report what a swap within the base
 pool paid out

---
 crates/dex-stable/src/meta_pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index fd54975..b9b9655 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -456,7 +456,7 @@ impl<T: Config> Pallet<T> {
                 currency_index_to - base_lp_currency_index,
                 dx,
                 min_out_amount,
-                to,
+                &meta_pool.info.account,
             )?;
             dy = T::MultiCurrency::free_balance(currency_to, &meta_pool.info.account)
                 .checked_sub(dy)
-- 
2.43.0


From 4217dcdc1d18f5f5bdcfe464dc77460d55f5912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 40/42] fix: dex-general: announce the account an updated
 bootstrap collects in

---
 crates/dex-general/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/dex-general/src/lib.rs b/crates/dex-general/src/lib.rs
index 55c6ff0..22a6526 100644
--- a/crates/dex-general/src/lib.rs
+++ b/crates/dex-general/src/lib.rs
@@ -953,7 +953,6 @@ pub mod pallet {
                 (target_supply_1, target_supply_0, capacity_supply_1, capacity_supply_0)
             };
 
-            let pair_account = Self::pair_account_id(asset_0, asset_1);
             PairStatuses::<T>::try_mutate(pair, |status| match status {
                 Trading(_) => Err(Error::<T>::PairAlreadyExists),
                 Bootstrap(params) => {
@@ -998,7 +997,7 @@ pub mod pallet {
             })?;
 
             Self::deposit_event(Event::BootstrapUpdate {
-                bootstrap_pair_account: pair_account,
+                bootstrap_pair_account: Self::bootstrap_account_id(),
                 asset_0: pair.0,
                 asset_1: pair.1,
                 total_supply_0: target_supply_0,
-- 
2.43.0


From 1b0131c7dbcf5801fcf80b267d1b8d1ce30e5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 41/42] fix: kintsugi: refuse an undecodable bitcoin address
 from a contract

---
 parachain/runtime/kintsugi/src/contracts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parachain/runtime/kintsugi/src/contracts.rs b/parachain/runtime/kintsugi/src/contracts.rs
index 0c5d778..00ca8b1 100644
--- a/parachain/runtime/kintsugi/src/contracts.rs
+++ b/parachain/runtime/kintsugi/src/contracts.rs
@@ -230,7 +230,8 @@ impl ChainExtension<Runtime> for BtcRelayExtension {
                 let (unchecked_proof, btc_address): (FullTransactionProof, Vec<u8>) =
                     env.read_as_unbounded(env.in_len())?;
 
-                let btc_address = Decode::decode(&mut &btc_address[..]).unwrap();
+                let btc_address = Decode::decode(&mut &btc_address[..])
+                    .map_err(|_| DispatchError::Other("Invalid bitcoin address"))?;
                 let sats: Option<u64> =
                     btc_relay::Pallet::<Runtime>::get_and_verify_issue_payment::<Balance>(unchecked_proof, btc_address)
                         .ok()
-- 
2.43.0


From 77869941e1565a94d4d95e4d78fc38207d3ad6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:18 +0000
Subject: [PATCH 42/42] fix: runtime: answer a pool's precise amplification

get_a_precise multiplied the amplification, already rounded down to whole
units, so clients saw steps while it changes.
---
 parachain/runtime/interlay/src/lib.rs | 2 +-
 parachain/runtime/kintsugi/src/lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parachain/runtime/interlay/src/lib.rs b/parachain/runtime/interlay/src/lib.rs
index 90daff8..3b953b7 100644
--- a/parachain/runtime/interlay/src/lib.rs
+++ b/parachain/runtime/interlay/src/lib.rs
@@ -1663,7 +1663,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
diff --git a/parachain/runtime/kintsugi/src/lib.rs b/parachain/runtime/kintsugi/src/lib.rs
index e689706..e30d92a 100644
--- a/parachain/runtime/kintsugi/src/lib.rs
+++ b/parachain/runtime/kintsugi/src/lib.rs
@@ -1928,7 +1928,7 @@ impl_runtime_apis! {
         }
 
         fn get_a_precise(pool_id: StablePoolId) -> Balance {
-            DexStable::get_a(pool_id) * 100
+            DexStable::get_a_precise_by_id(pool_id)
         }
 
         fn get_currencies(pool_id: StablePoolId) -> Vec<CurrencyId> {
-- 
2.43.0

