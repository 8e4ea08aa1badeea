From 884ffe704fe067f718e7fd0bf449e2eb064b6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 01/13] verif-hooks: address of the fee-free queue under a
 feature of the api crate

---
 api/Cargo.toml    | 2 ++
 api/src/consts.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/api/Cargo.toml b/api/Cargo.toml
index 837c996..0cccc45 100644
--- a/api/Cargo.toml
+++ b/api/Cargo.toml
@@ -13,6 +13,8 @@ keywords.workspace = true
 [features]
 no-entrypoint = []
 unit_test_config = []
+# Verification only: gives the fee-free queue an address whose oracle key the verifier holds.
+verif-hooks = []
 
 
 [dependencies]
diff --git a/api/src/consts.rs b/api/src/consts.rs
index 34f82f9..abc9f1c 100644
--- a/api/src/consts.rs
+++ b/api/src/consts.rs
@@ -30,4 +30,7 @@ pub const RISTRETTO_BASEPOINT_POINT: PodRistrettoPoint = PodRistrettoPoint([
 
 pub const MAGIC_PROGRAM_ID: Pubkey = pubkey!("Magic11111111111111111111111111111111111111");
 pub const MAGIC_CONTEXT_ID: Pubkey = pubkey!("MagicContext1111111111111111111111111111111");
+#[cfg(not(feature = "verif-hooks"))]
 pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc");
+#[cfg(feature = "verif-hooks")]
+pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("5wGzFSq5pxRvMNdfRgYGYxRt1BwL1avtSpvNUz4HtvU6");
-- 
2.43.0


From 722e0959f66ef17ca2018e839569dcacc83a024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 02/13] fix: only accept randomness requests on an initialized
 queue of this program

Without an owner and discriminator check any writable account of the program
(the oracle registry, a partially allocated queue) could be used as a queue
and was overwritten by the request.
---
 program/src/request_randomness.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..50bf3b4 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -65,11 +65,11 @@ pub fn process_request_randomness(
     let time = Clock::get()?.unix_timestamp;
 
     {
+        // The queue must be an initialized queue account of this program
+        oracle_queue_info.has_owner(&ephemeral_vrf_api::ID)?;
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From 8b4e0713c5d956962189088c1445d7c009421ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 03/13] fix: purge and close require an initialized queue

A queue that is still being allocated (no discriminator yet) could be purged,
which wrote a cursor into it and made its initialization fail for good, or
closed, which decremented open_queue for a queue that was never counted.
---
 program/src/close_oracle_queue.rs     | 1 +
 program/src/purge_expired_requests.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..952483d 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -59,6 +59,7 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
     {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        Queue::try_from_bytes(&data)?;
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..e249adc 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,7 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From 0ba8d322da495ea287470691f010cbbabe3d7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 04/13] fix: return errors instead of panicking on too few
 accounts or a tiny queue size

provide_randomness panicked when given fewer than five accounts and
initialize_oracle_queue panicked on a target size below the account header.
---
 program/src/initialize_oracle_queue.rs | 3 +++
 program/src/provide_randomness.rs      | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/program/src/initialize_oracle_queue.rs b/program/src/initialize_oracle_queue.rs
index 7d99bda..d983900 100644
--- a/program/src/initialize_oracle_queue.rs
+++ b/program/src/initialize_oracle_queue.rs
@@ -82,6 +82,9 @@ pub fn process_initialize_oracle_queue(accounts: &[AccountInfo<'_>], data: &[u8]
     let bump = Pubkey::find_program_address(seeds, &ephemeral_vrf_api::ID).1;
 
     let target_size = args.target_size as usize;
+    if target_size < 8 + size_of::<Queue>() {
+        return Err(ProgramError::InvalidArgument);
+    }
     let current_size = oracle_queue_info.data_len();
 
     let extra_bytes = target_size.saturating_sub(current_size);
diff --git a/program/src/provide_randomness.rs b/program/src/provide_randomness.rs
index c52c5ee..ec13e12 100644
--- a/program/src/provide_randomness.rs
+++ b/program/src/provide_randomness.rs
@@ -29,10 +29,10 @@ pub fn process_provide_randomness(accounts: &[AccountInfo<'_>], data: &[u8]) ->
     let args = ProvideRandomness::try_from_bytes(data)?;
 
     // Load accounts
-    let (
+    let Some((
         [oracle_info, program_identity_info, oracle_data_info, oracle_queue_info, callback_program_info],
         remaining_accounts,
-    ) = accounts.split_at(5)
+    )) = accounts.split_at_checked(5)
     else {
         return Err(ProgramError::NotEnoughAccountKeys);
     };
-- 
2.43.0


From d844831efa42bfbaa5273d11f157edffa7ec8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 05/13] fix: never issue a request id that is still pending in
 the queue

The insertion index mixed into the id is the queue length, which repeats when
older requests are fulfilled or purged within a slot: an identical request in
the same slot then got the id of a pending one.
---
 program/src/request_randomness.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 50bf3b4..d424338 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -74,17 +74,25 @@ pub fn process_request_randomness(
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
-        // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        // Compute a combined hash that includes a logical insertion index hint. The hint is
+        // advanced past the ids that are still pending (the length of the queue repeats when
+        // older requests leave it within the same slot).
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let candidate = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            if queue_acc.find_item_by_id(&candidate.to_bytes()).is_none() {
+                break candidate;
+            }
+            idx = idx.wrapping_add(1);
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From bf4ecd6dd3a19be4b47bb3c997bf4831b34cf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 06/13] fix: process_undelegation only accepts the delegation
 program's buffer PDA

Any signing account assigned to the delegation program was accepted as the
buffer, so anyone could create program-owned accounts at the program's PDAs
(an oracle data account, the registry) and block their initialization.
---
 program/src/process_undelegation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..0103fc4 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,3 +1,4 @@
+use ephemeral_rollups_sdk::consts::DELEGATION_PROGRAM_ID;
 use ephemeral_rollups_sdk::cpi::undelegate_account;
 use ephemeral_vrf_api::prelude::*;
 
@@ -31,6 +32,12 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // Only the delegation program can sign with its buffer PDA
+    delegation_buffer.has_seeds(
+        &[b"undelegate-buffer", oracle_queue_info.key.as_ref()],
+        &DELEGATION_PROGRAM_ID,
+    )?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From a4a0d34e6ad5cd7064f84a04fd7ab44d3569223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 07/13] fix: random_u8_with_range accepts the full range
 0..=255 instead of panicking

---
 sdk/src/rnd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..f83601c 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,18 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    // u16 arithmetic: the full range has 256 values
+    let range = max_value as u16 - min_value as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From a80c3a173ca994cf6c964d38b434af15179e02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 08/13] fix: delegation address helpers of the SDK derive under
 the delegation program

---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..080a71a 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -3,6 +3,9 @@ use crate::compat::{pubkey, Pubkey};
 /// Verifiable Random Function program id
 pub const VRF_PROGRAM_ID: Pubkey = pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
 
+/// The delegation program id
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
+
 /// The default queue for randomness requests
 pub const DEFAULT_QUEUE: Pubkey = pubkey!("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh");
 
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..1d7f513 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -1,4 +1,5 @@
 use crate::compat::{Compat, Modern, Pubkey};
+use crate::consts::DELEGATION_PROGRAM_ID;
 
 /// NOTE: Copy/Pasted from delegation-program/src/pda.rs (modify there if needed)
 #[macro_export]
@@ -75,7 +76,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +86,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +96,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +106,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,14 +130,14 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
+    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &DELEGATION_PROGRAM_ID.modern())
         .0
         .compat()
 }
@@ -145,7 +146,7 @@ pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +156,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +166,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From 5ae195b310f63b19449660c1b7ad1dbeae33dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 09/13] fix: oracle retries when the first blockhash cannot be
 fetched

BlockhashCache::new unwrapped the RPC result, so an RPC error at start
panicked and ended the service process; main's retry loop was never reached.
---
 vrf-oracle/src/blockhash_cache.rs | 6 +++---
 vrf-oracle/src/oracle/client.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..86374d8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -21,8 +21,8 @@ struct CacheData {
 }
 
 impl BlockhashCache {
-    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> anyhow::Result<Self> {
+        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await?;
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
@@ -32,7 +32,7 @@ impl BlockhashCache {
         let cache = Self { inner, client };
 
         cache.spawn_refresh_task();
-        cache
+        Ok(cache)
     }
 
     fn spawn_refresh_task(&self) {
diff --git a/vrf-oracle/src/oracle/client.rs b/vrf-oracle/src/oracle/client.rs
index 8ff49fe..be9e076 100644
--- a/vrf-oracle/src/oracle/client.rs
+++ b/vrf-oracle/src/oracle/client.rs
@@ -102,7 +102,7 @@ impl OracleClient {
             self.rpc_url.clone(),
             CommitmentConfig::processed(),
         ));
-        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await);
+        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await?);
         fetch_and_process_program_accounts(
             &self,
             &rpc_client,
-- 
2.43.0


From 0a94e5534832d4298c7291b3139b22da98c7083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 10/13] fix: oracle answers a request whose confirmed
 transaction a fork dropped

A request confirmed at processed commitment stayed in-flight until it left
the queue, so one whose transaction was dropped was never tried again.
---
 vrf-oracle/src/oracle/processor.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..5d2cc80 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -26,6 +26,10 @@ use std::time::Duration;
 use tokio::task;
 use tokio::time::sleep;
 
+/// How long a request stays in-flight after its transaction was confirmed. An update without the
+/// request normally ends the task much earlier; past this the transaction was dropped by a fork.
+const CONFIRMED_GRACE: Duration = Duration::from_secs(30);
+
 pub async fn fetch_and_process_program_accounts(
     oracle_client: &Arc<OracleClient>,
     rpc_client: &Arc<RpcClient>,
@@ -209,7 +213,6 @@ pub async fn process_oracle_queue(
 
             let handle = tokio::spawn(async move {
                 let mut attempts = 0;
-                let mut confirmed_success = false;
 
                 while attempts < 100 {
                     match ProcessableItem(item)
@@ -252,7 +255,9 @@ pub async fn process_oracle_queue(
                                             signature,
                                             Pubkey::new_from_array(item.id)
                                         );
-                                        confirmed_success = true;
+                                        // Keep the request in-flight until it leaves the queue, but
+                                        // not forever: a fork can still drop the transaction.
+                                        sleep(CONFIRMED_GRACE).await;
                                         break;
                                     } else {
                                         attempts += 1;
@@ -282,7 +287,7 @@ pub async fn process_oracle_queue(
                     }
                 }
 
-                // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
+                // Task finished. Remove from active_tasks and clear inflight to allow retry.
                 {
                     let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                     if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
@@ -290,12 +295,9 @@ pub async fn process_oracle_queue(
                     }
                 }
 
-                if !confirmed_success {
-                    let mut inflight_all =
-                        oracle_client_for_cleanup.inflight_requests.write().await;
-                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
-                        inflight_for_queue.remove(&item.id);
-                    }
+                let mut inflight_all = oracle_client_for_cleanup.inflight_requests.write().await;
+                if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
+                    inflight_for_queue.remove(&item.id);
                 }
             });
 
-- 
2.43.0


From 1686bb2cd0a99dd5799bce88f2bebef2ea4d287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 11/13] fix: initialize_oracle_queue builds an instruction for
 size 0 too

An empty list made the CLI send a transaction without any operation and
report success; now the program refuses the size.
---
 api/src/sdk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/sdk.rs b/api/src/sdk.rs
index 7866be9..1474d61 100644
--- a/api/src/sdk.rs
+++ b/api/src/sdk.rs
@@ -79,7 +79,7 @@ pub fn initialize_oracle_queue(
         oracle_queue_pda(&identity, index).0.to_string()
     );
     let target_size = bytes_to_allocate.unwrap_or(9500);
-    let inits = target_size.div_ceil(10240);
+    let inits = target_size.div_ceil(10240).max(1);
     let mut ixs = Vec::with_capacity(inits as usize);
     for _ in 0..inits {
         ixs.push(Instruction {
-- 
2.43.0


From b522166fae6d2f33155b954ccef7d34455248e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 12/13] fix: close-oracle-queue closes the named queue or
 nothing

The instruction names the queue by the signer and the index stored in the
named account, so naming another identity's queue closed the signer's own
queue of the same index.
---
 vrf-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..b1d9e67 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -185,6 +185,9 @@ async fn main() -> Result<()> {
             let queue = Pubkey::from_str(queue)?;
             let queue_account = rpc_client.get_account(&queue)?;
             let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
+            if oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 != queue {
+                anyhow::bail!("{queue} is not a queue of {}", signer.pubkey());
+            }
             println!(
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
-- 
2.43.0


From ee1a7acd7c01a96c2d445d0ba4b9c5b4925f690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 13/13] fix: list-queue lists the queues of every index and
 reports RPC errors

Only the first 20 of 256 indices were looked at, and a failing request was
taken for a missing queue.
---
 vrf-cli/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index b1d9e67..03f9cbe 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -201,11 +201,14 @@ async fn main() -> Result<()> {
             exit(0)
         }
         Commands::ListQueue {} => {
-            for i in 0..20 {
-                let queue = oracle_queue_pda(&signer.pubkey(), i).0;
-                let acc = rpc_client.get_account(&queue);
-                if acc.is_ok() {
-                    let account = acc?;
+            let queues: Vec<Pubkey> = (0..=u8::MAX)
+                .map(|i| oracle_queue_pda(&signer.pubkey(), i).0)
+                .collect();
+            // A node answers for at most 100 accounts at once
+            for chunk in queues.chunks(100) {
+                let accounts = rpc_client.get_multiple_accounts(chunk)?;
+                for (queue, account) in chunk.iter().zip(accounts) {
+                    let Some(account) = account else { continue };
                     let queue_struct = match Queue::try_from_bytes(account.data.as_slice()) {
                         Ok(q) => q,
                         Err(_) => {
-- 
2.43.0

